//! Differential monitors: the same inputs given to several real connection objects, and
//! enumerations of the role x version x state matrix.
use crate::conn::*;
use crate::drive::*;
use crate::gen;
use crate::model::*;
use crate::prng::Rng;
use crate::refcodec::*;
use crate::report::*;

/// Consecutive releases have no prescribed order.
fn norm(v: &[Ev]) -> Vec<Ev> {
    let mut v = v.to_vec();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && matches!(v[j], Ev::Released(_)) {
            j += 1;
        }
        v[i..j].sort_by_key(|e| match e {
            Ev::Released(i) => *i,
            _ => 0,
        });
        i = j.max(i + 1);
    }
    v
}

fn norm_out(o: &Out) -> Out {
    Out { calls: o.calls.iter().map(|c| norm(c)).collect(), ..o.clone() }
}

/// Object `a` (with a past) beside object `b` (monitored).
struct Two<P: Mk> {
    a: Obj<P>,
    b: Run<P>,
    a_past: Vec<String>,
    label: &'static str,
    tags: u32,
    /// observable state is compared
    synced: bool,
}

impl<P: Mk> Two<P> {
    fn fail(&self, what: String) -> (u32, Viol) {
        let mut v = Viol::new("differential", format!("{}: {what}", self.label));
        v.trace = self.a_past.clone();
        v.trace.push(format!("-- from here on the same operations on the other object ({}) --", self.label));
        v.trace.extend(fmt_log(self.b.o.role, self.b.ver0, P::W, &self.b.log));
        (self.tags, v)
    }
    fn state(&self) -> Result<(), (u32, Viol)> {
        let a = (|| Ok::<_, String>((self.a.stored()?, self.a.qos2()?, self.a.vacancy()?, self.a.version())))();
        let b = (|| {
            Ok::<_, String>((self.b.o.stored()?, self.b.o.qos2()?, self.b.o.vacancy()?, self.b.o.version()))
        })();
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    let d = |x: &(Vec<(Ver, APkt)>, _, _, _)| {
                        let s: Vec<String> = x.0.iter().map(|(_, p)| short(p)).collect();
                        let r: (&std::collections::BTreeSet<u32>, &Option<u16>, &Option<Ver>) = (&x.1, &x.2, &x.3);
                        format!("store [{}], handled/vacancy/version {r:?}", s.join("; "))
                    };
                    return Err(self.fail(format!("states differ: {} and {}", d(&a), d(&b))));
                }
                Ok(())
            }
            (a, b) => {
                let mut f = self.fail(format!("{:?} {:?}", a.err(), b.err()));
                f.0 = u32::MAX;
                Err(f)
            }
        }
    }
    fn both(&mut self, op: Op, st: &mut Stats) -> Result<(), (u32, Viol)> {
        let x = match self.a.apply(&op) {
            Ok(x) => x,
            Err(e) => {
                let mut f = self.fail(format!("{op:?}: {e}"));
                f.0 = u32::MAX;
                return Err(f);
            }
        };
        // the divergence of the two objects is judged before that from the model
        let r = self.b.exec(op.clone()).map(|o| norm_out(o));
        let y = match r {
            Ok(y) => y,
            Err((t, v)) => {
                let mut v = v;
                v.what = format!("{}: {}", self.label, v.what);
                // what the first object did not do either is not a difference
                let differ = t != u32::MAX
                    && (self.b.last.as_ref().is_some_and(|y| norm_out(y) != norm_out(&x))
                        || self.synced && self.state().is_err());
                return Err((if differ { t | self.tags } else { t }, v));
            }
        };
        st.hit("operations compared on two objects");
        st.add("events observed", y.all().count() as u64);
        let x = norm_out(&x);
        if x != y {
            return Err(self.fail(format!("{op:?} gives {x:?} on the first object and {y:?} on the second")));
        }
        if self.synced {
            self.state()?;
        }
        for k in std::mem::take(&mut self.b.m.cov) {
            st.hit(k);
        }
        Ok(())
    }
    fn free(&mut self, r: &mut Rng, g: &mut G, n: usize, st: &mut Stats) -> Result<u64, (u32, Viol)> {
        let mut sig = 0u64;
        for _ in 0..n {
            if self.b.m.lost {
                break;
            }
            let op = g.next::<P>(r, &self.b.m);
            self.both(op, st)?;
            let h = self.b.log.last().map(|(o, x)| hash(&format!("{o:?}{x:?}"))).unwrap_or(0);
            sig = sig.wrapping_mul(31).wrapping_add(h);
        }
        Ok(sig)
    }
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(1469598103934665603, |a, b| (a ^ b as u64).wrapping_mul(1099511628211))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Session {
    /// CONNECT with clean start; the rest is free
    Clean,
    /// CONNECT without clean start, answered "no session"
    Absent,
    /// session present
    Present,
}

fn set_clean(c: &mut APkt, clean: bool, ver: Ver, persistent: bool, r: &mut Rng) {
    if let APkt::Connect(k) = c {
        k.clean = clean;
        if persistent && ver == Ver::V5 {
            k.props.retain(|p| p.id != 0x11);
            k.props.insert(0, Prop::new(0x11, PV::U32(*r.pick(&[1, 100, u32::MAX]))));
        }
    }
}

/// Open a connection on both objects.
/// `mid`: executed between CONNECT and CONNACK. False: the handshake could not be completed.
fn open_both<P: Mk>(
    r: &mut Rng,
    g: &mut G,
    t: &mut Two<P>,
    how: Session,
    st: &mut Stats,
    mid: &mut dyn FnMut(&mut Two<P>, &mut Stats) -> Result<(), (u32, Viol)>,
) -> Result<bool, (u32, Viol)> {
    g.wire.clear();
    g.todo.clear();
    let role = t.b.m.role;
    let known = t.b.m.ver.is_some();
    let client = role == Role::C || (role == Role::A && known && r.bool());
    let ver = t.b.m.ver.unwrap_or(if r.p(g.prof.v5, 100) { Ver::V5 } else { Ver::V311 });
    let mut con = g.connect(r, ver);
    set_clean(&mut con, how == Session::Clean, ver, how == Session::Present, r);
    if client {
        t.both(if r.bool() { Op::Send(ver, con) } else { Op::CheckedSend(ver, con) }, st)?;
    } else {
        let b = encode(&con, ver, P::W);
        if r.p(1, 4) {
            let k = 1 + r.us(b.len() - 1);
            t.both(Op::Recv(b[..k].to_vec()), st)?;
            t.both(Op::Recv(b[k..].to_vec()), st)?;
        } else {
            t.both(Op::Recv(b), st)?;
        }
    }
    mid(t, st)?;
    if how == Session::Clean && r.bool() {
        return Ok(true);
    }
    for _ in 0..r.us(3) {
        let o = g.option(r, &t.b.m);
        if !matches!(o, Op::SetOffline(_)) {
            t.both(o, st)?;
        }
    }
    let mut ack = g.connack(r, ver, &t.b.m, client);
    if let APkt::Connack { sp, code, props } = &mut ack {
        *sp = how == Session::Present;
        *code = 0;
        if how == Session::Present {
            props.retain(|p| p.id != 0x11);
        }
    }
    let lim = if client { t.b.m.max_recv } else { t.b.m.max_send } as usize;
    if encode(&ack, ver, P::W).len() > lim {
        if let APkt::Connack { props, .. } = &mut ack {
            props.clear();
        }
        if encode(&ack, ver, P::W).len() > lim {
            if t.synced {
                t.both(Op::Closed, st)?;
            }
            return Ok(false);
        }
    }
    if client {
        t.both(Op::Recv(encode(&ack, ver, P::W)), st)?;
    } else {
        t.both(Op::Send(ver, ack), st)?;
    }
    Ok(true)
}

fn nothing<P: Mk>(_: &mut Two<P>, _: &mut Stats) -> Result<(), (u32, Viol)> {
    Ok(())
}

/// C10: a reused object that starts a new session is indistinguishable from a fresh one.
pub fn reused_is_fresh<P: Mk>(r: &mut Rng, pf: &Prof, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let mut pf = pf.clone();
    pf.steps = (5, 80);
    let (mut g, mut a, _) = lived::<P>(r, &pf, st)?;
    if r.p(1, 3) && !a.m.lost && a.m.fr.buf.is_empty() {
        // the transport breaks in the middle of a frame
        let v = a.m.ver.unwrap_or(Ver::V5);
        let k = if a.m.st == St::Conned { 3 } else { 1 };
        let p = if k == 3 { gen::packet(r, v, 3, P::W) } else { g.connect(r, v) };
        let mut b = encode(&p, v, P::W);
        b.truncate(400);
        let n = 1 + r.us(b.len() - 1);
        b.truncate(n);
        if total_len(&b).is_none_or(|t| t > n) {
            a.exec(Op::Recv(b))?;
            st.hit("reuse: closed in the middle of a frame");
        }
    }
    a.exec(Op::Closed)?;
    let ver = a.o.version();
    if ver.is_none() && a.m.role == Role::C {
        return Ok(());
    }
    let mut b = Run::<P>::new(a.m.role, ver);
    for o in settings(&a.log) {
        b.exec(o)?;
    }
    st.hit(if a.m.store.is_empty() { "reuse: nothing stored" } else { "reuse: stored packets left" });
    if a.m.ids.values().any(|o| *o == Own::App) {
        st.hit("reuse: identifiers held by the application");
    }
    let past = fmt_log(a.o.role, a.ver0, P::W, &a.log);
    let mut t = Two {
        a: a.o,
        b,
        a_past: past,
        label: "reused object (first) / fresh object (second)",
        tags: C10,
        synced: false,
    };
    for _ in 0..r.us(3) {
        let o = g.option(r, &t.b.m);
        if !matches!(o, Op::SetOffline(_)) {
            t.both(o, st)?;
        }
    }
    let how = if r.bool() { Session::Clean } else { Session::Absent };
    t.synced = how == Session::Clean && t.b.m.role == Role::C;
    let done = open_both(r, &mut g, &mut t, how, st, &mut nothing)?;
    if !done {
        return Ok(());
    }
    t.synced = true;
    t.state()?;
    st.hit(if how == Session::Clean { "reuse: clean start" } else { "reuse: session not present" });
    let n = 10 + r.us(50);
    let sig = t.free(r, &mut g, n, st)?;
    st.nontrivial(&sig);
    st.sample(2, || fmt_log(t.b.o.role, t.b.ver0, P::W, &t.b.log).join(" / "));
    Ok(())
}

/// C16 (and the continuing-session half of C10): a fresh object given the export continues like
/// the object it was taken from.
pub fn restored_continues<P: Mk>(
    r: &mut Rng,
    pf: &Prof,
    crash: bool,
    st: &mut Stats,
) -> Result<(), (u32, Viol)> {
    let mut pf = pf.clone();
    pf.steps = (5, 90);
    let (mut g, mut a, mut sig) = lived::<P>(r, &pf, st)?;
    for _round in 0..3 {
        if a.m.lost || !a.m.persistent || a.m.ver.is_none() || a.m.ids.values().any(|o| *o == Own::Rel) {
            st.hit("restore: history not usable (session not persistent, or a PUBREL the application owes)");
            return Ok(());
        }
        let ver = a.m.ver.unwrap();
        // the application exports at this very point
        let export = (|| Ok::<_, String>((a.o.stored()?, a.o.qos2()?)))();
        let (pk, q2) = match export {
            Ok(x) => x,
            Err(e) => return Err((u32::MAX, a.viol("panic", e, &Op::Closed))),
        };
        match a.m.st {
            St::Conned => st.hit("restore: exported while connected"),
            St::Conning => st.hit("restore: exported while connecting"),
            St::Disc => st.hit("restore: exported while disconnected"),
        }
        st.add("restore: packets exported", pk.len() as u64);
        st.add("restore: handled identifiers exported", q2.len() as u64);
        // the original only loses its transport
        a.exec(Op::Closed)?;
        let held: Vec<u32> = a.m.ids.iter().filter(|(_, o)| **o == Own::App).map(|(i, _)| *i).collect();
        for i in held {
            a.exec(Op::Release(i))?;
        }
        if !crash {
            // exported after the close instead
            let same = a.o.stored().ok() == Some(pk.clone());
            if !same {
                let v = a.viol("restore", "the exported store changes when the transport is closed".into(), &Op::Closed);
                return Err((C16 | C10 | C06, v));
            }
        }
        let tags = if crash { C16 } else { C16 | C10 };
        let mut b = Run::<P>::new(a.m.role, Some(ver));
        for o in settings(&a.log) {
            b.exec(o)?;
        }
        let late = a.m.role == Role::S && r.bool();
        let restore = [Op::RestorePackets(pk.clone()), Op::RestoreQos2(q2.clone())];
        let tag = |x: (u32, Viol)| (x.0 | C16, x.1);
        if !late {
            for o in &restore {
                b.exec(o.clone()).map_err(tag)?;
            }
        }
        let past = fmt_log(a.o.role, a.ver0, P::W, &a.log);
        let mut t = Two {
            a: a.o,
            b,
            a_past: past,
            label: "original object (first) / object restored from its export (second)",
            tags,
            synced: !late,
        };
        let check_ids = |t: &mut Two<P>, st: &mut Stats| -> Result<(), (u32, Viol)> {
            for (_, p) in &pk {
                t.both(Op::Register(p.pid().unwrap_or(0)), st)?;
            }
            if pk.len() < 6 {
                t.both(Op::Acquire, st)?;
            }
            Ok(())
        };
        if !late {
            t.state()?;
            check_ids(&mut t, st)?;
        }
        // an attempt to connect may fail before the session is resumed
        let mut done = false;
        for k in 0..3 {
            let first = k == 0 && late;
            let rs = restore.clone();
            done = open_both(r, &mut g, &mut t, Session::Present, st, &mut |t, st| {
                if first {
                    // a server that restores when it has seen who connects
                    if t.b.m.is_client {
                        return Ok(());
                    }
                    for o in &rs {
                        t.b.exec(o.clone()).map_err(|x| (x.0 | C16, x.1))?;
                    }
                    t.synced = true;
                    t.state()?;
                    check_ids(t, st)?;
                }
                Ok(())
            })?;
            if done || !t.synced {
                break;
            }
        }
        if late && !t.synced {
            st.hit("restore: handshake not usable");
            return Ok(());
        }
        if !done {
            return Ok(());
        }
        st.hit("restore: session resumed on both objects");
        t.state()?;
        let n = 5 + r.us(50);
        sig = sig.wrapping_mul(31) ^ t.free(r, &mut g, n, st)?;
        a = t.b;
        st.nontrivial(&sig);
        st.sample(2, || fmt_log(a.o.role, a.ver0, P::W, &a.log).join(" / "));
    }
    Ok(())
}

/// C17: a server created with an undetermined version behaves like one created with the version of
/// the first CONNECT.
pub fn undetermined_adopts<P: Mk>(r: &mut Rng, pf: &Prof, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let role = if r.p(3, 4) { Role::S } else { Role::A };
    let ver = if r.p(pf.v5, 100) { Ver::V5 } else { Ver::V311 };
    let mut g = G::new(r, pf.clone());
    let a = Obj::<P>::new(role, None);
    let b = Run::<P>::new(role, Some(ver));
    let mut t = Two {
        a,
        b,
        a_past: vec![format!("object: role {role:?}, version undetermined")],
        label: "undetermined server (first) / server of the adopted version (second)",
        tags: C17,
        synced: false,
    };
    for o in options(r, &g) {
        if r.p(4, 5) {
            t.both(o, st)?;
        }
    }
    for _ in 0..r.us(3) {
        t.both(Op::Acquire, st)?;
    }
    if r.p(1, 6) {
        let (x, y) = g.export(r, ver, P::MAX);
        t.both(Op::RestorePackets(x), st)?;
        t.both(Op::RestoreQos2(y), st)?;
    }
    let mut b = encode(&g.connect(r, ver), ver, P::W);
    if r.p(1, 8) {
        // behind the protocol level
        let l = 8 + b[1..].iter().take_while(|x| **x >= 0x80).count();
        let i = l + 1 + r.us(b.len() - l - 1);
        b[i] ^= 1 << r.below(8);
        st.hit("adoption: from a damaged CONNECT");
    }
    if r.p(1, 4) {
        let k = 1 + r.us(b.len() - 1);
        t.both_ver(Op::Recv(b[..k].to_vec()), st)?;
        b.drain(..k);
    }
    t.both_ver(Op::Recv(b), st)?;
    if t.a.version() != Some(ver) {
        // a CONNECT damaged so that it is not recognisable
        return match t.b.log.last() {
            Some((_, o)) if o.has_recv(1) => Err(t.fail(format!(
                "a server created undetermined has version {:?} after a {ver:?} CONNECT",
                t.a.version()
            ))),
            _ => Ok(()),
        };
    }
    st.hit(if ver == Ver::V5 { "adoption: v5.0" } else { "adoption: v3.1.1" });
    t.synced = true;
    t.state()?;
    let n = 10 + r.us(60);
    let sig = t.free(r, &mut g, n, st)?;
    st.nontrivial(&sig);
    Ok(())
}

impl<P: Mk> Two<P> {
    /// like `both`, the versions reported meanwhile may differ
    fn both_ver(&mut self, op: Op, st: &mut Stats) -> Result<(), (u32, Viol)> {
        let x = self.a.apply(&op).map_err(|e| {
            let mut f = self.fail(format!("{op:?}: {e}"));
            f.0 = u32::MAX;
            f
        })?;
        let y = norm_out(self.b.exec(op.clone())?);
        st.hit("operations compared on two objects");
        let mut x = norm_out(&x);
        x.vers = y.vers.clone();
        if x != y {
            return Err(self.fail(format!("{op:?} gives {x:?} on the first object and {y:?} on the second")));
        }
        Ok(())
    }
}

/// C11: a refused send leaves no trace.
pub fn refused_send_is_void<P: Mk>(r: &mut Rng, pf: &Prof, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let (mut g, b) = setup::<P>(r, pf);
    let a = Obj::<P>::new(b.m.role, b.ver0);
    let mut t = Two {
        a,
        b,
        a_past: vec!["(the first object additionally gets the refused sends named below)".into()],
        label: "object with refused sends (first) / without (second)",
        tags: C11,
        synced: true,
    };
    for o in options(r, &g) {
        t.both(o, st)?;
    }
    let n = r.range(20, 90);
    let mut sig = 0u64;
    for _ in 0..n {
        if t.b.m.lost {
            break;
        }
        if r.p(1, 3) {
            let (v, q) = g.any_packet(r, &t.b.m);
            let m = &t.b.m;
            let skip = (q.kind() == 1 && m.st == St::Disc)
                || (q.kind() == 2 && m.is_client && m.st == St::Conning)
                || (q.kind() == 14 && r.p(3, 4));
            if !skip {
                let op = match r.below(3) {
                    0 => Op::Send(v, q.clone()),
                    1 => Op::GenericSend(v, q.clone()),
                    _ => Op::CheckedSend(v, q.clone()),
                };
                let x = match t.a.apply(&op) {
                    Ok(x) => x,
                    Err(e) => {
                        let mut f = t.fail(format!("{op:?}: {e}"));
                        f.0 = u32::MAX;
                        return Err(f);
                    }
                };
                if x.ret == Ret::Compiles(false) {
                    continue;
                }
                if x.has_error() && !x.all().any(|e| matches!(e, Ev::Send { .. })) {
                    st.hit("sends refused on the first object only");
                    t.a_past.push(format!("refused before step {}: {op:?} => {x:?}", t.b.log.len()));
                    for e in x.all() {
                        match e {
                            Ev::Error(_) => {}
                            Ev::Released(i) => {
                                // the other application gives the identifier back itself
                                t.b.exec(Op::Release(*i))?;
                            }
                            e => return Err(t.fail(format!("refused {op:?} also gives {e:?}"))),
                        }
                    }
                    sig = sig.wrapping_mul(31).wrapping_add(q.kind() as u64);
                    t.state()?;
                } else {
                    let y = norm_out(t.b.exec(op.clone())?);
                    let x = norm_out(&x);
                    if x != y {
                        return Err(t.fail(format!("{op:?} gives {x:?} on the first object and {y:?} on the second")));
                    }
                }
            }
        }
        sig = sig.wrapping_mul(31).wrapping_add(t.free(r, &mut g, 1, st)?);
    }
    st.nontrivial(&sig);
    Ok(())
}

// ------------------------------------------------------------------------- C09

enum Item {
    Bytes(Vec<u8>),
    Op(Op, Out),
}

/// Split a byte run; `whole` = one frame per chunk.
fn partition(r: &mut Rng, b: &[u8], how: usize, fr: &Framer) -> Vec<Vec<u8>> {
    let mut v = vec![];
    match how {
        0 => {
            let mut f = fr.clone();
            let mut pos = 0;
            while pos < b.len() {
                let (k, _) = f.next(&b[pos..]);
                v.push(b[pos..pos + k].to_vec());
                pos += k;
            }
        }
        1 => {
            for x in b {
                v.push(vec![*x]);
            }
        }
        2 => v.push(b.to_vec()),
        _ => {
            let mut pos = 0;
            while pos < b.len() {
                let k = match r.below(3) {
                    0 => 1 + r.us(3),
                    1 => 1 + r.us(20),
                    _ => 1 + r.us(200),
                }
                .min(b.len() - pos);
                v.push(b[pos..pos + k].to_vec());
                pos += k;
            }
        }
    }
    v
}

const HOW: [&str; 4] = ["one packet per chunk", "single bytes", "everything in one chunk", "random pieces"];

/// C09: the same byte stream, cut differently.
pub fn chunked<P: Mk>(r: &mut Rng, pf: &Prof, big: bool, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let (role, ver0, items) = if big {
        let v = if r.bool() { Ver::V5 } else { Ver::V311 };
        let g = G::new(r, pf.clone());
        let mut o = Obj::<P>::new(Role::S, Some(v));
        let mut con = g.connect(r, v);
        if let APkt::Connect(c) = &mut con {
            c.props.clear();
        }
        let mut b = encode(&con, v, P::W);
        let pre = o.apply(&Op::Recv(b.clone())).map_err(|e| (u32::MAX, Viol::new("panic", e)))?;
        let _ = pre;
        let ack = Op::Send(v, APkt::Connack { sp: false, code: 0, props: vec![] });
        let out = o.apply(&ack).map_err(|e| (u32::MAX, Viol::new("panic", e)))?;
        let mut items = vec![Item::Bytes(std::mem::take(&mut b)), Item::Op(ack, out)];
        for _ in 0..1 + r.us(4) {
            let len: usize = *r.pick(&[120, 127, 128, 129, 16_383, 16_384, 16_385, 70_000, 2_097_151, 2_097_152]);
            let head = encode(
                &APkt::Publish(APublish {
                    dup: false,
                    qos: 0,
                    retain: false,
                    topic: "t".into(),
                    pid: None,
                    props: vec![],
                    payload: vec![],
                }),
                v,
                P::W,
            )
            .len()
                - 2;
            let q = APkt::Publish(APublish {
                dup: false,
                qos: 0,
                retain: false,
                topic: "t".into(),
                pid: None,
                props: vec![],
                payload: r.bytes(len - head),
            });
            b.extend(encode(&q, v, P::W));
            if r.bool() {
                b.extend(encode(&APkt::Pingreq, v, P::W));
            }
        }
        items.push(Item::Bytes(b));
        (Role::S, Some(v), items)
    } else {
        let mut pf = pf.clone();
        pf.steps = (10, 70);
        let (_, a, _) = lived::<P>(r, &pf, st)?;
        let mut items: Vec<Item> = vec![];
        for (o, out) in &a.log {
            match (o, items.last_mut()) {
                (Op::Recv(b), Some(Item::Bytes(v))) => v.extend_from_slice(b),
                (Op::Recv(b), _) => items.push(Item::Bytes(b.clone())),
                (o, _) => items.push(Item::Op(o.clone(), out.clone())),
            }
        }
        (a.m.role, a.ver0, items)
    };
    let mut base: Vec<Vec<Vec<Ev>>> = vec![];
    let mut sig = 0u64;
    for how in 0..if big { 4 } else { 5 } {
        if big && how == 1 {
            continue;
        }
        let mut o = Obj::<P>::new(role, ver0);
        let mut fr = Framer::default();
        let mut k = 0;
        let mut log: Vec<String> = vec![format!("object: role {role:?}, version {ver0:?}; stream cut into: {}", HOW[how.min(3)])];
        let fail = |log: &Vec<String>, what: String, tags: u32| {
            let mut v = Viol::new("chunking", what);
            v.trace = log.clone();
            (tags, v)
        };
        for it in &items {
            match it {
                Item::Op(op, want) => {
                    let x = o.apply(op).map_err(|e| fail(&log, e, u32::MAX))?;
                    log.push(format!("{op:?} => {x:?}"));
                    if *op == Op::Closed {
                        fr = Framer::default();
                    }
                    if norm_out(&x) != norm_out(want) {
                        return Err(fail(&log, format!("{op:?} gave {want:?} with another cutting of the same stream ({})", HOW[how.min(3)]), C09));
                    }
                }
                Item::Bytes(b) => {
                    let mut got: Vec<Vec<Ev>> = vec![];
                    let parts = partition(r, b, how, &fr);
                    assert_eq!(parts.concat(), *b);
                    for c in parts {
                        // an empty chunk is nothing
                        if r.p(1, 40) {
                            let x = o.recv_empty().map_err(|e| fail(&log, e, u32::MAX))?;
                            if !x.is_empty() {
                                return Err(fail(&log, format!("an empty chunk gives {x:?}"), C09));
                            }
                        }
                        let x = o.apply(&Op::Recv(c.clone())).map_err(|e| fail(&log, e, u32::MAX))?;
                        log.push(format!("recv {} => {x:?}", hex(&c)));
                        st.add("chunks delivered", 1);
                        let mut pos = 0;
                        for n in &x.consumed {
                            let (k, f) = fr.next(&c[pos..]);
                            if k != *n {
                                return Err(fail(&log, format!("a recv call consumed {n} bytes where the packet ends after {k}"), C09));
                            }
                            st.hit(match f {
                                None => "calls that completed no packet",
                                Some(Ok(_)) => "calls that completed a packet",
                                Some(Err(_)) => "calls that met an overlong Remaining Length",
                            });
                            pos += k;
                        }
                        got.extend(x.calls.iter().filter(|c| !c.is_empty()).map(|c| norm(c)));
                    }
                    if how == 0 {
                        sig = sig.wrapping_mul(31) ^ hash(&hex(b));
                        base.push(got);
                    } else if base[k] != got {
                        return Err(fail(
                            &log,
                            format!(
                                "cut into {}: events {:?}, one packet per chunk: {:?} (stream {})",
                                HOW[how.min(3)],
                                got,
                                base[k],
                                hex(b)
                            ),
                            C09,
                        ));
                    }
                    k += 1;
                }
            }
        }
        st.hit(HOW[how.min(3)]);
    }
    st.nontrivial(&sig);
    Ok(())
}

// ------------------------------------------------------------------------- matrix

/// The states in which every packet kind is tried.
const STATES: [&str; 9] = [
    "fresh",
    "connecting",
    "connected",
    "connected, persistent",
    "closed after a persistent session",
    "closed after a session",
    "after an own DISCONNECT",
    "connected, something in flight",
    "connecting, persistent",
];

fn prepare<P: Mk>(
    r: &mut Rng,
    g: &G,
    role: Role,
    ver: Ver,
    und: bool,
    client: bool,
    state: usize,
) -> Result<Option<Run<P>>, (u32, Viol)> {
    let mut run = Run::<P>::new(role, if und { None } else { Some(ver) });
    run.exec(Op::SetAutoPub(r.bool()))?;
    if r.p(1, 6) {
        run.exec(Op::SetOffline(true))?;
    }
    if state == 0 {
        return Ok(Some(run));
    }
    let persistent = matches!(state, 3 | 4 | 7 | 8);
    let mut con = g.connect(r, ver);
    if let APkt::Connect(c) = &mut con {
        c.clean = !persistent;
        c.props.retain(|p| p.id != 0x27 && p.id != 0x11 && p.id != 0x21);
        if persistent && ver == Ver::V5 {
            c.props.push(Prop::new(0x11, PV::U32(9)));
        }
    }
    let ack = APkt::Connack { sp: false, code: 0, props: vec![] };
    if client {
        run.exec(Op::Send(ver, con))?;
    } else {
        run.exec(Op::Recv(encode(&con, ver, P::W)))?;
    }
    if state == 1 || state == 8 {
        return Ok(Some(run));
    }
    if client {
        run.exec(Op::Recv(encode(&ack, ver, P::W)))?;
    } else {
        run.exec(Op::Send(ver, ack))?;
    }
    if state == 7 || state == 4 {
        for q in 1..=2u8 {
            run.exec(Op::Acquire)?;
            let i = run.m.ids.iter().find(|(_, o)| **o == Own::App).map(|x| *x.0).unwrap();
            let p = APkt::Publish(APublish {
                dup: false,
                qos: q,
                retain: false,
                topic: "m".into(),
                pid: Some(i),
                props: vec![],
                payload: vec![q],
            });
            run.exec(Op::Send(ver, p))?;
        }
    }
    match state {
        4 | 5 => {
            run.exec(Op::Closed)?;
        }
        6 => {
            if run.m.role == Role::S && ver == Ver::V311 {
                return Ok(None);
            }
            run.exec(Op::Send(ver, APkt::Disconnect { rc: None, props: None }))?;
        }
        _ => {}
    }
    Ok(Some(run))
}

/// Every (role, version, state, kind): sends (recv = false) or received packets.
pub fn matrix<P: Mk>(r: &mut Rng, i: u64, recv: bool, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let pf = prof(0);
    let g = G::new(r, pf);
    let mut k = i;
    let mut take = |n: u64| {
        let x = k % n;
        k /= n;
        x as usize
    };
    let (role, client) = [(Role::C, true), (Role::S, false), (Role::A, true), (Role::A, false)][take(4)];
    let (ver, und) = [(Ver::V311, false), (Ver::V5, false), (Ver::V311, true), (Ver::V5, true)][take(4)];
    if und && client {
        return Ok(());
    }
    let state = take(9);
    let kind = take(16) as u8;
    let run = prepare::<P>(r, &g, role, ver, und, client, state)?;
    let Some(mut run) = run else { return Ok(()) };
    st.hit(&format!("matrix state: {}", STATES[state]));
    st.nontrivial(&(i % (4 * 4 * 9 * 16)));
    if recv {
        if (kind == 1 || kind == 2) && run.m.st == St::Disc && (state != 0 && state != 4 && state != 5 || kind == 2 && role == Role::A) {
            return Ok(());
        }
        let v = if und && state == 0 && r.p(1, 3) { Ver::V311 } else { ver };
        let flags = r.below(16) as u8;
        let b = if kind == 0 || (kind == 15 && v == Ver::V311) {
            let n = r.us(5);
            let mut b = vec![kind << 4 | flags, n as u8];
            b.extend(r.bytes(n));
            b
        } else {
            let mut b = loop {
                let p = match kind {
                    1 => g.connect(r, v),
                    _ => gen::packet(r, v, kind, P::W),
                };
                let b = encode(&p, v, P::W);
                if b.len() < 2000 {
                    break b;
                }
            };
            if r.p(1, 10) {
                b[0] = (b[0] & 0xf0) | flags;
            }
            b
        };
        run.exec(Op::Recv(b))?;
        if run.m.lost {
            return Ok(());
        }
    } else {
        // valid packets of every kind, of both versions
        let v = if r.p(1, 6) { if ver == Ver::V5 { Ver::V311 } else { Ver::V5 } } else { ver };
        if kind == 0 || (kind == 15 && v == Ver::V311) {
            return Ok(());
        }
        let mut p = match kind {
            1 => g.connect(r, v),
            2 => g.connack(r, v, &run.m, false),
            _ => {
                let mut p = loop {
                    let p = gen::packet(r, v, kind, P::W);
                    if encode(&p, v, P::W).len() < 2000 {
                        break p;
                    }
                };
                if matches!(kind, 3 | 6 | 8 | 10) {
                    // with an identifier that is in use, mostly
                    if let APkt::Publish(q) = &mut p {
                        q.props.retain(|x| x.id != 0x23);
                        if q.topic.is_empty() {
                            q.topic = "x".into();
                        }
                    }
                    if p.pid().is_some() {
                        let mut id = None;
                        if r.p(3, 4) {
                            run.exec(Op::Acquire)?;
                            id = run.m.ids.iter().find(|(_, o)| **o == Own::App).map(|x| *x.0);
                        }
                        let id = id.unwrap_or(40 + r.below(9) as u32);
                        set_pid(&mut p, id);
                    }
                }
                p
            }
        };
        if kind == 1 && run.m.st == St::Disc && run.m.dead
            || kind == 2 && run.m.is_client && run.m.st == St::Conning
        {
            return Ok(());
        }
        if let (APkt::Connect(c), true) = (&mut p, true) {
            c.props.retain(|x| x.id != 0x27);
        }
        let op = match r.below(3) {
            0 => Op::Send(v, p),
            1 => Op::GenericSend(v, p),
            _ => Op::CheckedSend(v, p),
        };
        run.exec(op)?;
    }
    for k in std::mem::take(&mut run.m.cov) {
        st.hit(k);
    }
    // afterwards the object works
    let mut g2 = G::new(r, prof(0));
    history(r, &mut g2, &mut run, 6, st)?;
    Ok(())
}

fn set_pid(p: &mut APkt, id: u32) {
    match p {
        APkt::Publish(q) => q.pid = Some(id),
        APkt::Ack { pid, .. } | APkt::Subscribe { pid, .. } | APkt::Unsubscribe { pid, .. } => *pid = id,
        _ => {}
    }
}

// ------------------------------------------------------------------------- C08

/// All 65535 identifiers in use at the same time.
pub fn exhaustion(r: &mut Rng, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let role = *r.pick(&[Role::C, Role::S, Role::A]);
    let ver = if r.bool() { Ver::V5 } else { Ver::V311 };
    let mut run = Run::<u16>::new(role, Some(ver));
    run.every = 4096;
    let pf = prof(8);
    let g = G::new(r, pf);
    let client = role != Role::S;
    let open = |run: &mut Run<u16>, r: &mut Rng, clean: bool, sp: bool| -> Result<(), (u32, Viol)> {
        let mut con = g.connect(r, ver);
        if let APkt::Connect(c) = &mut con {
            c.clean = clean;
            c.props.clear();
            if !clean && ver == Ver::V5 {
                c.props.push(Prop::new(0x11, PV::U32(9)));
            }
        }
        let ack = APkt::Connack { sp, code: 0, props: vec![] };
        if client {
            run.exec(Op::Send(ver, con))?;
            run.exec(Op::Recv(encode(&ack, ver, 2)))?;
        } else {
            run.exec(Op::Recv(encode(&con, ver, 2)))?;
            run.exec(Op::Send(ver, ack))?;
        }
        Ok(())
    };
    let persistent = r.p(1, 3);
    let early = r.bool();
    if early {
        open(&mut run, r, !persistent, false)?;
    }
    // fill
    let step = *r.pick(&[1u32, 2, 3, 7, 1000]);
    let mut i = 1u32;
    if r.bool() {
        // scattered registrations first
        while i <= 65535 && run.m.ids.len() < 3000 {
            run.exec(Op::Register(i))?;
            i += step;
        }
        run.exec(Op::Register(65535))?;
    }
    loop {
        if r.p(1, 50) && !run.m.ids.is_empty() {
            let x = pick(r, &run.m);
            run.exec(Op::Release(x))?;
        }
        if r.p(1, 50) {
            run.exec(Op::Register(r.below(65536) as u32))?;
        }
        run.exec(Op::Acquire)?;
        if let Some((_, o)) = run.log.last() {
            if o.ret == Ret::Id(None) {
                break;
            }
        }
        if run.log.len() > 300_000 {
            break;
        }
    }
    if run.m.ids.len() != 65535 {
        let v = run.viol("ids", format!("{} identifiers in use when acquire fails", run.m.ids.len()), &Op::Acquire);
        return Err((C08, v));
    }
    st.hit("all 65535 identifiers in use");
    for x in [0u32, 1, 2, 65534, 65535, r.below(65536) as u32] {
        run.exec(Op::Register(x))?;
    }
    // holes, refilled
    for _ in 0..3 {
        let n = 1 + r.us(40);
        for _ in 0..n {
            let x = if r.p(1, 8) { *r.pick(&[1u32, 65535]) } else { 1 + r.below(65535) as u32 };
            run.exec(Op::Release(x))?;
        }
        while run.m.ids.len() < 65535 {
            if r.p(1, 5) {
                run.exec(Op::Register(r.below(65536) as u32))?;
            }
            run.exec(Op::Acquire)?;
        }
        run.exec(Op::Acquire)?;
        st.hit("identifiers released at exhaustion and handed out again");
    }
    // put many of them to use
    if early {
        let mut used = vec![];
        for _ in 0..200 {
            let x = 1 + r.below(65535) as u32;
            if run.m.ids.get(&x) != Some(&Own::App) {
                continue;
            }
            let kind = if client { *r.pick(&[3u8, 3, 8, 10]) } else { 3 };
            let p = match kind {
                3 => APkt::Publish(APublish {
                    dup: false,
                    qos: 1 + r.below(2) as u8,
                    retain: false,
                    topic: "e".into(),
                    pid: Some(x),
                    props: vec![],
                    payload: vec![],
                }),
                8 => APkt::Subscribe { pid: x, props: vec![], entries: vec![("f".into(), 0)] },
                _ => APkt::Unsubscribe { pid: x, props: vec![], entries: vec!["f".into()] },
            };
            run.exec(Op::Send(ver, p))?;
            used.push(x);
        }
        st.add("identifiers in exchanges at exhaustion", used.len() as u64);
        run.exec(Op::Acquire)?;
        for x in &used {
            let a = match run.m.ids.get(x) {
                Some(Own::Pub1) => APkt::Ack { kind: 4, pid: *x, rc: None, props: None },
                Some(Own::Pub2) => APkt::Ack { kind: 5, pid: *x, rc: if ver == Ver::V5 { Some(0x80) } else { None }, props: None },
                Some(Own::Sub) => APkt::Suback { pid: *x, props: vec![], codes: vec![0] },
                Some(Own::Unsub) => {
                    APkt::Unsuback { pid: *x, props: vec![], codes: if ver == Ver::V5 { vec![0] } else { vec![] } }
                }
                _ => continue,
            };
            if r.p(2, 3) {
                run.exec(Op::Recv(encode(&a, ver, 2)))?;
                run.exec(Op::Acquire)?;
            }
        }
    }
    run.exec(Op::Closed)?;
    run.every = 1;
    run.exec(Op::Register(0))?;
    run.every = 4096;
    if r.bool() {
        // a resumed session keeps the identifiers, a new one frees them all
        let clean = r.bool() || !persistent;
        open(&mut run, r, clean, !clean)?;
        run.exec(Op::Acquire)?;
        st.hit(if clean { "exhausted identifiers reset by a new session" } else { "exhausted identifiers kept by a resumed session" });
        for _ in 0..5 {
            run.exec(Op::Register(1 + r.below(65535) as u32))?;
        }
    }
    st.nontrivial(&(run.log.len() as u64));
    Ok(())
}

fn pick(r: &mut Rng, m: &Model) -> u32 {
    let x = 1 + r.below(65535) as u32;
    m.ids.range(x..).next().or(m.ids.iter().next()).map(|x| *x.0).unwrap_or(0)
}

// ------------------------------------------------------------------------- C05

/// Bytes without any structure and calls in any order; only panics, hangs and lost input count.
pub fn hostile<P: Mk>(r: &mut Rng, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let pf = prof(5);
    let (mut g, mut run) = setup::<P>(r, &pf);
    run.m.lost = true; // not judged, only observed
    let mut shadow = Model::new(run.m.role, run.m.ver, P::W);
    for o in options(r, &g) {
        run.exec(o)?;
    }
    let n = r.range(20, 120);
    let mut sig = 0u64;
    let mut ever = [false; 3];
    for _ in 0..n {
        let op = match r.below(10) {
            0..=3 => {
                shadow.ver = run.o.version().or(shadow.ver);
                let b = match r.below(3) {
                    0 => {
                        let n = 1 + r.us(40);
                        r.bytes(n)
                    }
                    1 => g.bad_bytes(r, &shadow, P::W),
                    _ => g.peer(r, &shadow, P::W),
                };
                Op::Recv(b)
            }
            // an expiry of a timer that was armed at some time (perhaps a late one)
            4 => match TKS.iter().filter(|k| ever[**k as usize]).nth(r.us(3)) {
                Some(k) => Op::Timer(*k),
                None => Op::Acquire,
            },
            5 => Op::Closed,
            6 => match r.below(5) {
                0 => Op::Acquire,
                1 => Op::Register(*r.pick(&[0, 1, 2, 5, P::MAX])),
                2 => Op::Release(*r.pick(&[0, 1, 2, 5, P::MAX])),
                3 => Op::Erase(*r.pick(&[0, 1, 2, 5, P::MAX])),
                _ => g.option(r, &shadow),
            },
            7 => {
                let v = run.o.version().unwrap_or(Ver::V5);
                let c = g.connect(r, v);
                if r.bool() {
                    Op::Send(v, c)
                } else {
                    Op::Recv(encode(&c, v, P::W))
                }
            }
            8 => {
                let v = run.o.version().unwrap_or(Ver::V5);
                let c = g.connack(r, v, &shadow, true);
                if r.bool() {
                    Op::Send(v, c)
                } else {
                    Op::Recv(encode(&c, v, P::W))
                }
            }
            _ => {
                let (v, q) = g.any_packet(r, &shadow);
                Op::Send(v, q)
            }
        };
        let out = run.exec(op)?;
        for e in out.all() {
            if let Ev::TimerReset(k, _) = e {
                ever[*k as usize] = true;
            }
            sig = sig.wrapping_mul(31).wrapping_add(match e {
                Ev::Recv { p, .. } => p.kind() as u64,
                Ev::Send { p, .. } => 20 + p.kind() as u64,
                Ev::Error(_) => 40,
                _ => 41,
            });
        }
        st.add("events observed", out.all().count() as u64);
        let probes = (|| Ok::<_, String>((run.o.stored()?, run.o.qos2()?, run.o.vacancy()?)))();
        if let Err(e) = probes {
            return Err((u32::MAX, run.viol("panic", e, &Op::Acquire)));
        }
    }
    st.nontrivial(&sig);
    // whatever happened, a new connection is accepted after the close
    run.exec(Op::Closed)?;
    if run.o.version().is_some() || run.m.role != Role::C {
        let v = run.o.version().unwrap_or(Ver::V5);
        let mut con = g.connect(r, v);
        if let APkt::Connect(c) = &mut con {
            c.props.retain(|p| p.id != 0x27);
        }
        let good = if run.m.role == Role::C {
            run.exec(Op::Send(v, con))?.has_send(1)
                && run
                    .exec(Op::Recv(encode(&APkt::Connack { sp: false, code: 0, props: vec![] }, v, P::W)))?
                    .has_recv(2)
        } else {
            run.exec(Op::Recv(encode(&con, v, P::W)))?.has_recv(1)
                && run.exec(Op::Send(v, APkt::Connack { sp: false, code: 0, props: vec![] }))?.has_send(2)
        };
        if !good {
            let v = run.viol("wedged", "the object does not accept a new connection after the close".into(), &Op::Closed);
            return Err((C05, v));
        }
        st.hit("new connection accepted at the end");
    }
    Ok(())
}

// --------------------------------------------------------------------- boundaries

/// Packets of exactly the sizes around a Maximum Packet Size, on every path by which one is sent or
/// received. The model judges every call.
pub fn boundary<P: Mk>(r: &mut Rng, i: u64, st: &mut Stats) -> Result<(), (u32, Viol)> {
    // sizes at which the Remaining Length grows by a byte: 1+1+127, 1+2+16383, 1+3+2097151
    let base: i64 = if i % 40 == 0 {
        2_097_155
    } else {
        *r.pick(&[10, 20, 60, 127, 129, 255, 300, 16_383, 16_386, 16_386, 65_535, 65_536])
    };
    let lim = (base + r.below(8) as i64 - 4) as u32;
    let client = r.bool();
    let role = if r.p(1, 4) { Role::A } else if client { Role::C } else { Role::S };
    let mut run = Run::<P>::new(role, Some(Ver::V5));
    let path = r.below(7);
    // 0 direct, 1 automatic mapping, 2 automatic replacing, 3 stored, 4 received, 5 control packets,
    // 6 mapping of a stored packet's topic
    run.exec(Op::SetAutoMap(matches!(path, 1 | 6) || r.p(1, 6)))?;
    run.exec(Op::SetAutoReplace(path == 2 || r.p(1, 6)))?;
    run.exec(Op::SetAutoPub(r.bool()))?;
    let own = |x: u32| vec![Prop::new(0x27, PV::U32(x))];
    let open = |run: &mut Run<P>, peer: Vec<Prop>, mine: Vec<Prop>, sp: bool, clean: bool| -> Result<(), (u32, Viol)> {
        let (cp, ap) = if client { (mine, peer) } else { (peer, mine) };
        let mut cp = cp;
        cp.push(Prop::new(0x11, PV::U32(1000)));
        let con = APkt::Connect(AConnect {
            client_id: String::new(),
            clean,
            keep_alive: 0,
            will: None,
            user: None,
            pass: None,
            props: cp,
        });
        let ack = APkt::Connack { sp, code: 0, props: ap };
        if client {
            run.exec(Op::Send(Ver::V5, con))?;
            run.exec(Op::Recv(encode(&ack, Ver::V5, P::W)))?;
        } else {
            run.exec(Op::Recv(encode(&con, Ver::V5, P::W)))?;
            run.exec(Op::Send(Ver::V5, ack))?;
        }
        Ok(())
    };
    let sized = |r: &mut Rng, topic: &str, qos: u8, pid: Option<u32>, mut props: Vec<Prop>, want: i64| -> Option<APkt> {
        if r.p(1, 5) {
            props.push(Prop::new(0x26, PV::Pair("k".into(), "v".into())));
        }
        let mk = |payload: Vec<u8>| {
            APkt::Publish(APublish { dup: false, qos, retain: false, topic: topic.into(), pid, props: props.clone(), payload })
        };
        let l0 = encode(&mk(vec![]), Ver::V5, P::W).len() as i64;
        for head in 0..4 {
            let n = want - l0 - head;
            if n >= 0 {
                let p = mk(vec![0x5a; n as usize]);
                if encode(&p, Ver::V5, P::W).len() as i64 == want {
                    return Some(p);
                }
            }
        }
        None
    };
    let tam = vec![Prop::new(0x22, PV::U16(*r.pick(&[1, 2, 300])))];
    let limits = [own(lim), tam].concat();
    let n = if base > 1_000_000 { 3 } else { 10 };
    let id = |run: &mut Run<P>| -> Result<Option<u32>, (u32, Viol)> {
        Ok(match run.exec(Op::Acquire)?.ret {
            Ret::Id(x) => x,
            _ => None,
        })
    };
    match path {
        3 | 6 => {
            open(&mut run, vec![Prop::new(0x22, PV::U16(2))], vec![], false, true)?;
            for _ in 0..n {
                let i = id(&mut run)?;
                let q = 1 + r.below(2) as u8;
                let want = lim as i64 + r.below(13) as i64 - 8;
                let t = *r.pick(&["a", "topic", "b/c"]);
                if let Some(p) = sized(r, t, q, i, vec![], want) {
                    run.exec(Op::Send(Ver::V5, p))?;
                    if q == 2 && r.bool() {
                        let a = APkt::Ack { kind: 5, pid: i.unwrap(), rc: None, props: None };
                        run.exec(Op::Recv(encode(&a, Ver::V5, P::W)))?;
                    }
                }
            }
            run.exec(Op::Closed)?;
            st.hit("limit lowered between two connections of a session");
            open(&mut run, limits, vec![], true, false)?;
        }
        4 => {
            open(&mut run, vec![], limits, false, true)?;
            let mut alive = true;
            for k in 0..n {
                if !alive {
                    break;
                }
                // mostly at the limit, above it at the end
                let want = lim as i64 - if k < n - 1 { r.below(3) as i64 } else { r.below(5) as i64 - 3 };
                let q = r.below(3) as u8;
                let pid = if q > 0 { Some(k + 1) } else { None };
                if let Some(p) = sized(r, "t", q, pid, vec![], want) {
                    let b = encode(&p, Ver::V5, P::W);
                    st.hit(if b.len() as u32 > lim { "received above the limit" } else if b.len() as u32 == lim { "received at the limit" } else { "received below the limit" });
                    let o = if r.bool() {
                        let c = r.us(b.len() - 1) + 1;
                        run.exec(Op::Recv(b[..c].to_vec()))?;
                        run.exec(Op::Recv(b[c..].to_vec()))?
                    } else {
                        run.exec(Op::Recv(b))?
                    };
                    if o.all().any(|e| matches!(e, Ev::Close)) {
                        alive = false;
                    }
                }
            }
        }
        5 => {
            // control packets of exactly the size, by way of a reason string
            open(&mut run, limits, vec![], false, true)?;
            for _ in 0..n {
                let want = lim as i64 + r.below(5) as i64 - 2;
                let kind = *r.pick(&[8u8, 10, 14, 15, 3]);
                let pid = if matches!(kind, 8 | 10) { id(&mut run)? } else { None };
                let mk = |n: usize| -> Option<APkt> {
                    let mut v: Vec<Prop> = vec![];
                    let mut left = n;
                    while left > 0 {
                        let k = left.min(65_000);
                        v.push(Prop::new(0x26, PV::Pair("x".into(), "y".repeat(k))));
                        left -= k;
                    }
                    let t = APkt::Publish(APublish {
                        dup: false,
                        qos: 0,
                        retain: false,
                        topic: "t".into(),
                        pid: None,
                        props: v.clone(),
                        payload: vec![],
                    });
                    Some(match kind {
                        3 => t,
                        8 => APkt::Subscribe { pid: pid?, props: v, entries: vec![("t".into(), 1)] },
                        10 => APkt::Unsubscribe { pid: pid?, props: v, entries: vec!["t".into()] },
                        14 => APkt::Disconnect { rc: Some(0), props: Some(v) },
                        _ => {
                            v.push(Prop::new(0x15, PV::Str("m".into())));
                            APkt::Auth { rc: Some(0x18), props: Some(v) }
                        }
                    })
                };
                let Some(p0) = mk(1) else { continue };
                let l = encode(&p0, Ver::V5, P::W).len() as i64;
                let p = (0..14).find_map(|d| {
                    let k = want - l + 1 - d;
                    if k < 1 {
                        return None;
                    }
                    let p = mk(k as usize)?;
                    (encode(&p, Ver::V5, P::W).len() as i64 == want).then_some(p)
                });
                if let Some(p) = p {
                    if p.kind() == 14 && r.p(3, 4) {
                        continue;
                    }
                    st.hit(if want > lim as i64 { "control packet above the limit" } else { "control packet within the limit" });
                    let bye = p.kind() == 14;
                    let o = run.exec(if r.bool() { Op::Send(Ver::V5, p) } else { Op::CheckedSend(Ver::V5, p) })?;
                    if bye && o.has_send(14) {
                        break;
                    }
                }
            }
        }
        _ => {
            open(&mut run, limits, vec![], false, true)?;
            for _ in 0..n {
                let q = r.below(3) as u8;
                let i = if q > 0 { id(&mut run)? } else { None };
                let want = lim as i64 + r.below(15) as i64 - 9;
                let props = if r.p(1, 5) { vec![Prop::new(0x23, PV::U16(1))] } else { vec![] };
                let topic = *r.pick(&["a", "topic", "b/c/d/e"]);
                if path == 2 && r.p(1, 3) {
                    // bind
                    if let Some(p) = sized(r, topic, 0, None, vec![Prop::new(0x23, PV::U16(1))], lim as i64 - 4) {
                        run.exec(Op::Send(Ver::V5, p))?;
                    }
                }
                if let Some(p) = sized(r, topic, q, i, props, want) {
                    st.hit(match want - lim as i64 {
                        0 => "sent at the limit",
                        1.. => "sent above the limit",
                        -5..=-1 => "sent within 5 bytes below the limit",
                        _ => "sent below the limit",
                    });
                    run.exec(if r.bool() { Op::Send(Ver::V5, p) } else { Op::CheckedSend(Ver::V5, p) })?;
                }
            }
        }
    }
    run.exec(Op::Closed)?;
    st.nontrivial(&(path, lim, client, format!("{role:?}"), run.log.len(), P::W));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// crowds: one population grown on purpose to a chosen size, used at random, and taken down

/// A shuffled list.
fn shuffled<T>(r: &mut Rng, mut v: Vec<T>) -> Vec<T> {
    for i in (1..v.len()).rev() {
        let j = r.us(i + 1);
        v.swap(i, j);
    }
    v
}

struct Crowd<P: Mk> {
    run: Run<P>,
    ver: Ver,
    client: bool,
}

impl<P: Mk> Crowd<P> {
    /// `own`/`peer`: Receive Maximum and Topic Alias Maximum announced by the object and by the peer
    fn open(&mut self, clean: bool, sp: bool, own: (u16, u16), peer: (u16, u16)) -> Result<(), (u32, Viol)> {
        let ver = self.ver;
        let lim = |x: (u16, u16)| {
            let mut v = vec![];
            if ver == Ver::V5 {
                v.push(Prop::new(0x22, PV::U16(x.1)));
                if x.0 > 0 {
                    v.push(Prop::new(0x21, PV::U16(x.0)));
                }
            }
            v
        };
        let (cl, sv) = if self.client { (own, peer) } else { (peer, own) };
        let mut props = lim(cl);
        if ver == Ver::V5 && !clean {
            props.insert(0, Prop::new(0x11, PV::U32(1000)));
        }
        let con = APkt::Connect(AConnect {
            client_id: "crowd".into(),
            clean,
            keep_alive: 0,
            will: None,
            user: None,
            pass: None,
            props,
        });
        let ack = APkt::Connack { sp, code: 0, props: lim(sv) };
        if self.client {
            self.send(con)?;
            self.recv(ack)
        } else {
            self.recv(con)?;
            self.send(ack)
        }
    }
    fn send(&mut self, p: APkt) -> Result<(), (u32, Viol)> {
        self.run.exec(Op::Send(self.ver, p)).map(|_| ())
    }
    fn recv(&mut self, p: APkt) -> Result<(), (u32, Viol)> {
        let b = encode(&p, self.ver, P::W);
        self.run.exec(Op::Recv(b)).map(|_| ())
    }
    fn publish(&self, qos: u8, pid: Option<u32>, topic: &str, alias: Option<u16>) -> APkt {
        APkt::Publish(APublish {
            dup: false,
            qos,
            retain: false,
            topic: topic.into(),
            pid,
            props: alias.map(|a| Prop::new(0x23, PV::U16(a))).into_iter().collect(),
            payload: vec![7],
        })
    }
    fn probe(&mut self) -> Result<(), (u32, Viol)> {
        self.run.every = 1;
        let x = self.run.exec(Op::Register(0)).map(|_| ());
        self.run.every = usize::MAX;
        x
    }
}

fn crowd_size(r: &mut Rng, big: bool) -> usize {
    if big {
        return *r.pick(&[8192, 20_000, 65_535]);
    }
    *r.pick(&[40, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 300, 520, 1030, 2100])
}

/// `kind`: 0 inbound aliases, 1 outbound aliases, 2 inbound QoS 2, 3 outbound QoS 1/2,
/// 4 pending subscribes, 5 inbound flow control
pub fn crowd<P: Mk>(r: &mut Rng, kind: u64, big: bool, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let ver = if kind != 0 && kind != 1 && kind != 5 && r.bool() { Ver::V311 } else { Ver::V5 };
    let client = kind == 4 || r.bool();
    let role = if r.p(1, 4) { Role::A } else if client { Role::C } else { Role::S };
    let v0 = if !client && r.p(1, 3) { None } else { Some(ver) };
    let mut c = Crowd { run: Run::<P>::new(role, v0), ver, client };
    c.run.every = usize::MAX;
    let n = crowd_size(r, big);
    let auto_pub = r.bool();
    c.run.exec(Op::SetAutoPub(auto_pub))?;
    let persistent = r.p(2, 3);
    // identifiers of the peer's messages
    let base = if r.bool() || n > 60_000 { 1 } else { 1 + r.below((P::MAX - n as u32) as u64) as u32 };
    let order: Vec<u32> = (0..n as u32).map(|i| base + i).collect();
    let order = if r.bool() { order } else { shuffled(r, order) };
    match kind {
        0 => {
            let own = if r.bool() { n as u16 } else { 65535 };
            c.open(!persistent, false, (0, own), (0, 0))?;
            let ids: Vec<u16> = (1..=n as u16).collect();
            let ids = if r.bool() { ids } else { shuffled(r, ids) };
            for a in &ids {
                let t = format!("t/{a}");
                let p = c.publish(0, None, &t, Some(*a));
                c.recv(p)?;
            }
            st.hit("crowd: inbound aliases bound");
            for _ in 0..n.min(3000) {
                let a = *r.pick(&ids);
                let t = if r.p(1, 5) { format!("other/{}", r.below(50)) } else { String::new() };
                let p = c.publish(0, None, &t, Some(a));
                c.recv(p)?;
            }
            c.probe()?;
            if own != 65535 {
                // one above the announced maximum
                let p = c.publish(0, None, "over", Some(own + 1));
                c.recv(p)?;
                st.hit("crowd: alias above a large announced maximum");
            }
            c.run.exec(Op::Closed)?;
            // bindings are gone on the next connection
            c.open(!persistent, false, (0, 65535), (0, 0))?;
            let p = c.publish(0, None, "", Some(*r.pick(&ids)));
            c.recv(p)?;
            st.hit("crowd: binding of an earlier connection used");
        }
        1 => {
            c.open(!persistent, false, (0, 0), (0, n as u16))?;
            let auto = r.bool();
            if auto {
                c.run.exec(Op::SetAutoMap(true))?;
                let n = n.min(1100);
                for i in 0..n + n / 4 {
                    let p = c.publish(0, None, &format!("t/{i}"), None);
                    c.send(p)?;
                }
                for _ in 0..n {
                    let p = c.publish(0, None, &format!("t/{}", r.us(n + n / 3)), None);
                    c.send(p)?;
                }
                st.hit("crowd: automatic aliases in use, eviction");
            } else {
                c.run.exec(Op::SetAutoReplace(r.bool()))?;
                let n = n.min(5000);
                let ids: Vec<u16> = (1..=n as u16).collect();
                let ids = if r.bool() { ids } else { shuffled(r, ids) };
                for a in &ids {
                    let p = c.publish(0, None, &format!("t/{a}"), Some(*a));
                    c.send(p)?;
                }
                for _ in 0..n {
                    let a = *r.pick(&ids);
                    let p = match r.below(4) {
                        0 => c.publish(0, None, &format!("t/{a}"), None),
                        1 => c.publish(0, None, &format!("new/{a}"), Some(a)),
                        _ => c.publish(0, None, "", Some(a)),
                    };
                    c.send(p)?;
                }
                if n < 65535 && c.run.m.out_max as usize == n {
                    let p = c.publish(0, None, "over", Some(n as u16 + 1));
                    c.send(p)?;
                }
                st.hit("crowd: manual aliases in use");
            }
        }
        2 => {
            c.open(!persistent, false, (0, 0), (0, 0))?;
            for i in &order {
                let p = c.publish(2, Some(*i), "q", None);
                c.recv(p)?;
            }
            st.hit("crowd: inbound QoS 2 exchanges unfinished");
            c.probe()?;
            let mut again = persistent;
            loop {
                for _ in 0..n.min(2000) {
                    let i = *r.pick(&order);
                    match r.below(6) {
                        0 => c.recv(APkt::Ack { kind: 6, pid: i, rc: None, props: None })?,
                        1 if !auto_pub => c.send(APkt::Ack { kind: 5, pid: i, rc: None, props: None })?,
                        2 if !auto_pub => c.send(APkt::Ack { kind: 7, pid: i, rc: None, props: None })?,
                        _ => {
                            let mut p = c.publish(2, Some(i), "q", None);
                            if let APkt::Publish(q) = &mut p {
                                q.dup = r.bool();
                            }
                            c.recv(p)?
                        }
                    }
                }
                st.hit("crowd: retransmissions among many handled identifiers");
                c.probe()?;
                if !again {
                    break;
                }
                again = false;
                c.run.exec(Op::Closed)?;
                c.probe()?;
                c.open(false, true, (0, 0), (0, 0))?;
            }
        }
        3 => {
            let n = n.min(20_000);
            c.open(!persistent, false, (0, 0), (if r.bool() { n as u16 } else { 0 }, 0))?;
            for _ in 0..n {
                c.run.exec(Op::Acquire)?;
            }
            let ids = pick_app(&c.run.m);
            let ids = if r.bool() { ids } else { shuffled(r, ids) };
            for i in &ids {
                let p = c.publish(1 + r.below(2) as u8, Some(*i), "o", None);
                c.send(p)?;
            }
            st.hit("crowd: outbound exchanges in flight");
            c.probe()?;
            // one more: over the limit if there is one
            c.run.exec(Op::Acquire)?;
            if let Some(i) = pick_app(&c.run.m).first() {
                let p = c.publish(1, Some(*i), "over", None);
                c.send(p)?;
            }
            let mut again = persistent;
            loop {
                for _ in 0..n.min(3000) {
                    let i = *r.pick(&ids);
                    let k = match c.run.m.ids.get(&i) {
                        Some(Own::Pub1) => 4,
                        Some(Own::Pub2) => 5,
                        Some(Own::Comp) => 7,
                        Some(Own::Rel) => {
                            c.send(APkt::Ack { kind: 6, pid: i, rc: None, props: None })?;
                            continue;
                        }
                        _ => continue,
                    };
                    c.recv(APkt::Ack { kind: k, pid: i, rc: None, props: None })?;
                }
                c.probe()?;
                if !again {
                    break;
                }
                again = r.p(1, 3);
                c.run.exec(Op::Closed)?;
                c.probe()?;
                let sp = r.p(5, 6);
                c.open(false, sp, (0, 0), (if r.bool() { n as u16 } else { 0 }, 0))?;
                c.probe()?;
                st.hit("crowd: session with many stored packets resumed");
            }
            c.run.exec(Op::Closed)?;
            c.probe()?;
        }
        4 => {
            let n = n.min(20_000);
            c.open(!persistent, false, (0, 0), (0, 0))?;
            for _ in 0..n {
                c.run.exec(Op::Acquire)?;
            }
            let ids = shuffled(r, pick_app(&c.run.m));
            for i in &ids {
                let p = if r.bool() {
                    APkt::Subscribe { pid: *i, props: vec![], entries: vec![("f".into(), 0)] }
                } else {
                    APkt::Unsubscribe { pid: *i, props: vec![], entries: vec!["f".into()] }
                };
                c.send(p)?;
            }
            st.hit("crowd: subscribe and unsubscribe requests pending");
            for _ in 0..n {
                let i = *r.pick(&ids);
                let p = match c.run.m.ids.get(&i) {
                    Some(Own::Sub) => APkt::Suback { pid: i, props: vec![], codes: vec![0] },
                    Some(Own::Unsub) => {
                        APkt::Unsuback { pid: i, props: vec![], codes: if ver == Ver::V5 { vec![0] } else { vec![] } }
                    }
                    _ => continue,
                };
                c.recv(p)?;
            }
            c.run.exec(Op::Closed)?;
            c.probe()?;
        }
        _ => {
            let n = n.min(20_000);
            c.run.exec(Op::SetAutoPub(false))?;
            c.open(!persistent, false, (n as u16, 0), (0, 0))?;
            let qos: Vec<u8> = order.iter().map(|_| 1 + r.below(2) as u8).collect();
            for (i, q) in order.iter().zip(&qos).take(n) {
                let p = c.publish(*q, Some(*i), "f", None);
                c.recv(p)?;
            }
            st.hit("crowd: inbound Receive Maximum used up exactly");
            c.probe()?;
            // retransmissions take no quota, answers give it back
            let k = r.us(n.min(500));
            let mut freed = 0;
            for j in 0..k {
                let (i, q) = (order[j], qos[j]);
                if q == 1 {
                    c.send(APkt::Ack { kind: 4, pid: i, rc: None, props: None })?;
                    freed += 1;
                } else if r.bool() {
                    c.send(APkt::Ack { kind: 5, pid: i, rc: Some(0x80), props: None })?;
                    freed += 1;
                } else {
                    c.send(APkt::Ack { kind: 5, pid: i, rc: None, props: None })?;
                    if r.bool() {
                        c.recv(APkt::Ack { kind: 6, pid: i, rc: None, props: None })?;
                        c.send(APkt::Ack { kind: 7, pid: i, rc: None, props: None })?;
                        freed += 1;
                    }
                }
            }
            let fresh: Vec<u32> = (0..).map(|x| base.wrapping_add(n as u32 + x)).filter(|x| *x != 0 && *x <= P::MAX).take(freed + 1).collect();
            for (x, i) in fresh.iter().enumerate() {
                let p = c.publish(1, Some(*i), "f", None);
                c.recv(p)?;
                if x == freed {
                    st.hit("crowd: one message above the inbound Receive Maximum");
                }
            }
        }
    }
    c.probe()?;
    c.run.exec(Op::Closed)?;
    st.add("crowd: operations", c.run.log.len() as u64);
    st.nontrivial(&(kind, n as u64, c.run.log.len() as u64));
    Ok(())
}

fn pick_app(m: &Model) -> Vec<u32> {
    m.ids.iter().filter(|(_, o)| **o == Own::App).map(|(i, _)| *i).collect()
}
