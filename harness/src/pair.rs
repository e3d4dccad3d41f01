//! C01: a real client object and a real server object joined by a simulated lossy network.
//! The oracle is a ledger of messages with unique payloads; it knows nothing of how the library
//! works and only sees what the two applications see.
use crate::conn::*;
const C01: u32 = 1 << 1;
use crate::prng::Rng;
use crate::refcodec::*;
use crate::report::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

const NAMES: [&str; 2] = ["client", "server"];
type Fail = (u32, Viol);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cs {
    Off,
    Half,
    On,
}

struct Msg {
    from: usize,
    qos: u8,
    retain: bool,
    topic: String,
    payload: Vec<u8>,
    /// which transport was current when it was accepted / last notified
    conns: u64,
    /// the sending application was told that it arrived
    acked: bool,
    /// its session ended before that (or it may be dropped as oversize): delivery is not guaranteed
    void: bool,
    /// refused by the receiving application with an error PUBREC
    refused: bool,
    n: u32,
}

struct End<P: Mk> {
    o: Obj<P>,
    auto: bool,
    auto_ping: bool,
    conn: Cs,
    /// responses the application owes: kind, identifier, number of entries
    owed: Vec<(u8, u32, usize)>,
    /// PUBRELs the application owes
    rels: BTreeSet<u32>,
    cur: BTreeMap<u32, usize>,
    held: Vec<u32>,
    subs: BTreeMap<u32, u8>,
    seen: BTreeSet<u32>,
    bound: BTreeMap<u16, String>,
    armed: [bool; 3],
    told: bool,
    shut: bool,
    pers: bool,
    opts: Vec<Op>,
    peer_tam: u16,
    pings: i64,
}

struct Net<P: Mk> {
    e: [End<P>; 2],
    /// q[i]: bytes sent by end i, not yet delivered
    q: [VecDeque<u8>; 2],
    up: bool,
    conns: u64,
    ver: Ver,
    rm: [Option<u16>; 2],
    mps: [Option<u32>; 2],
    tam: [u16; 2],
    ka: u16,
    persistent: bool,
    sess: bool,
    clean_pending: bool,
    /// no loss until the client has seen the CONNACK
    fragile: bool,
    last_clean: bool,
    /// CONNECT received and not answered: clean flag
    asked: Option<bool>,
    msgs: Vec<Msg>,
    log: Vec<(usize, String, Vec<Ev>)>,
    sig: u64,
    frames: u64,
    quiet: bool,
    write_errors: bool,
}

impl<P: Mk> Net<P> {
    fn fail(&self, class: &str, what: String) -> Fail {
        let mut v = Viol::new(class, what);
        v.trace.push(format!(
            "{:?}, {}-bit identifiers, roles {:?}/{:?}, Receive Maximum {:?}, Maximum Packet Size {:?}, Topic Alias Maximum {:?} (announced by client/server)",
            self.ver, P::W * 8, self.e[0].o.role, self.e[1].o.role, self.rm, self.mps, self.tam
        ));
        for (w, op, ev) in &self.log {
            let who = if *w < 2 { NAMES[*w] } else { "network" };
            v.trace.push(format!("{who}: {op}{}{}", if ev.is_empty() { "" } else { " => " }, if ev.is_empty() { String::new() } else { format!("{ev:?}") }));
        }
        (C01, v)
    }
    fn note(&mut self, s: String) {
        self.log.push((2, s, vec![]));
    }

    /// A call of the application at end `w`.
    fn exec(&mut self, r: &mut Rng, w: usize, op: Op, st: &mut Stats) -> Result<Vec<Ev>, Fail> {
        let out = match self.e[w].o.apply(&op) {
            Ok(o) => o,
            Err(m) => {
                self.log.push((w, format!("{op:?}"), vec![]));
                let mut f = self.fail("panic", format!("{} {op:?}: {m}", NAMES[w]));
                f.0 = u32::MAX;
                return Err(f);
            }
        };
        let evs: Vec<Ev> = out.all().cloned().collect();
        let mut s = format!("{op:?}");
        if out.ret != Ret::None {
            s.push_str(&format!(" -> {:?}", out.ret));
        }
        self.log.push((w, s, evs.clone()));
        if let Ret::Id(Some(i)) = out.ret {
            self.e[w].held.push(i);
            self.e[w].seen.insert(i);
        }
        self.events(r, w, &evs, false, st)?;
        Ok(evs)
    }

    /// Give at most one frame of the next `k` bytes to end `w`.
    fn feed(&mut self, r: &mut Rng, w: usize, k: usize, st: &mut Stats) -> Result<(), Fail> {
        let from = 1 - w;
        let b: Vec<u8> = self.q[from].iter().take(k).copied().collect();
        if b.is_empty() {
            return Ok(());
        }
        let (evs, n) = match self.e[w].o.recv_once(&b) {
            Ok(x) => x,
            Err(m) => {
                self.log.push((w, format!("recv {}", hex(&b)), vec![]));
                let mut f = self.fail("panic", format!("{} recv {}: {m}", NAMES[w], hex(&b)));
                f.0 = u32::MAX;
                return Err(f);
            }
        };
        if n == 0 || n > b.len() {
            return Err(self.fail("framing", format!("{} consumed {n} of {} bytes", NAMES[w], b.len())));
        }
        self.q[from].drain(..n);
        self.log.push((w, format!("recv {}", hex(&b[..n])), evs.clone()));
        if evs.iter().any(|e| matches!(e, Ev::Recv { .. })) {
            self.frames += 1;
        }
        if let Some(Ev::Error(e)) = evs.iter().find(|e| matches!(e, Ev::Error(_))) {
            return Err(self.fail(
                "protocol error",
                format!("the {} reports {e} about what the {} sent", NAMES[w], NAMES[from]),
            ));
        }
        self.events(r, w, &evs, true, st)
    }

    fn events(&mut self, r: &mut Rng, w: usize, evs: &[Ev], _recv: bool, st: &mut Stats) -> Result<(), Fail> {
        let mut free = vec![];
        st.add("events observed", evs.len() as u64);
        for e in evs {
            self.sig = self.sig.wrapping_mul(0x100000001b3)
                ^ match e {
                    Ev::Recv { p, .. } => 1 + p.kind() as u64 + 32 * w as u64,
                    Ev::Send { p, .. } => 64 + p.kind() as u64,
                    Ev::Released(_) => 100,
                    Ev::TimerReset(k, _) => 101 + *k as u64,
                    Ev::TimerCancel(k) => 105 + *k as u64,
                    Ev::Error(_) => 110,
                    Ev::Close => 111,
                };
            match e {
                Ev::Send { p, rel, bytes, .. } => {
                    st.hit("packets requested for sending");
                    if let APkt::Pingreq = p {
                        self.e[w].pings += 1;
                    }
                    if let APkt::Publish(q) = p {
                        if q.dup {
                            st.hit("retransmitted PUBLISH packets");
                        }
                        if q.topic.is_empty() {
                            st.hit("PUBLISH packets with an aliased topic");
                        }
                    }
                    if self.up && !self.e[w].shut {
                        self.q[w].extend(bytes.iter());
                    } else if let (Some(i), true) = (rel, self.write_errors) {
                        // the write fails; the application releases the identifier as told to
                        free.push(*i);
                    }
                }
                Ev::Recv { ver, p, .. } => {
                    if *ver != self.ver {
                        return Err(self.fail("version", format!("the {} delivers a {ver:?} packet", NAMES[w])));
                    }
                    self.notified(r, w, p, st)?;
                }
                Ev::Close => {
                    self.e[w].shut = true;
                    st.hit("close requests");
                }
                Ev::TimerReset(k, _) => self.e[w].armed[*k as usize] = true,
                Ev::TimerCancel(k) => self.e[w].armed[*k as usize] = false,
                _ => {}
            }
        }
        for e in evs {
            if let Ev::Released(i) = e {
                self.e[w].cur.remove(i);
                self.e[w].subs.remove(i);
                self.e[w].rels.remove(i);
                self.e[w].held.retain(|x| x != i);
            }
        }
        for i in free {
            if let Some(m) = self.e[w].cur.get(&i) {
                self.msgs[*m].void = true;
            }
            st.hit("identifiers released after a failed write");
            self.exec(r, w, Op::Release(i), st)?;
        }
        Ok(())
    }

    fn void(&mut self, w: usize) {
        for m in self.msgs.iter_mut().filter(|m| m.from == w && !m.acked) {
            m.void = true;
        }
    }
    /// A new session starts at this end: all its identifiers are free again.
    fn fresh(&mut self, w: usize) {
        self.void(w);
        let e = &mut self.e[w];
        e.cur.clear();
        e.rels.clear();
        e.subs.clear();
        e.held.clear();
    }

    fn notified(&mut self, r: &mut Rng, w: usize, p: &APkt, st: &mut Stats) -> Result<(), Fail> {
        let full = |s: &Net<P>, what: &str| Err(s.fail("out of place", format!("the {} is notified of {} {what}", NAMES[w], short(p))));
        match p {
            APkt::Connect(c) => {
                if w == 0 || self.e[1].conn != Cs::Off {
                    return full(self, "out of place");
                }
                self.e[1].conn = Cs::Half;
                self.e[1].pers = if self.ver == Ver::V5 { p.prop_u32(0x11).unwrap_or(0) != 0 } else { !c.clean };
                self.e[1].peer_tam = p.prop_u16(0x22).unwrap_or(0);
                if c.clean {
                    self.fresh(1);
                    self.sess = false;
                }
                self.asked = Some(c.clean);
                st.hit("CONNECT delivered");
            }
            APkt::Connack { sp, code, .. } => {
                if w == 1 || self.e[0].conn != Cs::Half {
                    return full(self, "out of place");
                }
                if *code == 0 {
                    self.e[0].conn = Cs::On;
                    self.e[0].peer_tam = p.prop_u16(0x22).unwrap_or(0);
                    self.clean_pending = false;
                    self.fragile = false;
                    if *sp {
                        st.hit("sessions resumed");
                    } else {
                        st.hit("new sessions");
                        self.fresh(0);
                    }
                } else {
                    st.hit("connections refused");
                    self.e[0].shut = true;
                }
            }
            APkt::Publish(q) => {
                let i = match q.payload.get(..4) {
                    Some(b) => u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize,
                    None => return full(self, "that nobody sent"),
                };
                let conns = self.conns;
                let Some(m) = self.msgs.get_mut(i) else { return full(self, "that nobody sent") };
                if m.from == w || m.qos != q.qos || m.topic != q.topic || m.retain != q.retain || m.payload != q.payload {
                    let was = format!("but message {i} was accepted as qos {} retain {} topic {:?} payload {}", m.qos, m.retain, m.topic, hex(&m.payload));
                    return full(self, &was);
                }
                m.n += 1;
                st.hit(["QoS 0 messages notified", "QoS 1 messages notified", "QoS 2 messages notified"][m.qos as usize]);
                if m.n > 1 {
                    if m.qos == 1 && conns > m.conns {
                        st.hit("QoS 1 messages notified again after a loss");
                    } else if m.qos == 2 && m.refused && conns > m.conns {
                        st.hit("refused QoS 2 messages notified again after a loss");
                        m.refused = false;
                    } else {
                        let s = format!("for the {}. time (transport {}, transport {} the time before)", m.n, conns, m.conns);
                        return full(self, &s);
                    }
                }
                m.conns = conns;
                if !self.e[w].auto && m.qos > 0 {
                    self.e[w].owed.push((if m.qos == 1 { 4 } else { 5 }, q.pid.unwrap_or(0), i));
                }
            }
            APkt::Ack { kind, pid, .. } => {
                if *kind == 6 {
                    if !self.e[w].auto {
                        self.e[w].owed.push((7, *pid, 0));
                    }
                    return Ok(());
                }
                let Some(i) = self.e[w].cur.get(pid).copied() else {
                    return full(self, "for an identifier without an exchange");
                };
                let m = &mut self.msgs[i];
                if (*kind == 4) != (m.qos == 1) {
                    return full(self, "for an exchange of the other QoS");
                }
                if m.n == 0 {
                    return full(self, "for a message that was not notified to the receiver");
                }
                m.acked = true;
                st.hit("acknowledgements notified");
                if *kind == 5 && p.rc() < 0x80 && !self.e[w].auto {
                    self.e[w].rels.insert(*pid);
                }
            }
            APkt::Subscribe { pid, entries, .. } => self.e[w].owed.push((9, *pid, entries.len())),
            APkt::Unsubscribe { pid, entries, .. } => self.e[w].owed.push((11, *pid, entries.len())),
            APkt::Suback { pid, .. } | APkt::Unsuback { pid, .. } => {
                if self.e[w].subs.get(pid) != Some(&(p.kind() - 1)) {
                    return full(self, "that answers nothing");
                }
                st.hit("SUBACK/UNSUBACK notified");
            }
            APkt::Pingreq => {
                if !self.e[w].auto_ping {
                    self.e[w].owed.push((13, 0, 0));
                }
                st.hit("PINGREQ notified");
            }
            APkt::Pingresp => {
                self.e[w].pings -= 1;
                if self.e[w].pings < 0 {
                    return full(self, "that answers nothing");
                }
            }
            APkt::Disconnect { .. } => {
                st.hit("DISCONNECT notified");
                self.e[w].shut = true;
            }
            APkt::Auth { .. } => st.hit("AUTH notified"),
        }
        let _ = r;
        Ok(())
    }

    /// The transport breaks. Bytes already written may still arrive, up to an arbitrary point.
    fn lose(&mut self, r: &mut Rng, st: &mut Stats) {
        if !self.up {
            return;
        }
        self.up = false;
        st.hit("transport losses");
        for d in 0..2 {
            let n = self.q[d].len();
            let keep = match r.below(4) {
                0 => 0,
                1 => n,
                _ => r.us(n + 1),
            };
            if keep < n {
                st.hit("losses that discarded bytes in flight");
            }
            self.q[d].truncate(keep);
            // what an end that asked for the close would have received is not read any more
            if self.e[1 - d].shut {
                self.q[d].clear();
            }
        }
        self.note(format!("transport lost, {} / {} bytes will still arrive", self.q[0].len(), self.q[1].len()));
    }

    /// Tell end `w` that its transport is closed.
    fn tell(&mut self, r: &mut Rng, w: usize, st: &mut Stats) -> Result<(), Fail> {
        if self.e[w].told {
            return Ok(());
        }
        self.exec(r, w, Op::Closed, st)?;
        let p = self.e[w].pers || self.offline(w);
        let e = &mut self.e[w];
        e.told = true;
        e.conn = Cs::Off;
        e.owed.clear();
        e.bound.clear();
        e.shut = false;
        e.pings = 0;
        e.subs.clear();
        self.q[1 - w].clear();
        if w == 1 {
            self.asked = None;
        }
        if !p {
            self.void(w);
            let e = &mut self.e[w];
            e.cur.clear();
            e.rels.clear();
        }
        Ok(())
    }
    fn offline(&self, w: usize) -> bool {
        self.e[w].opts.iter().any(|o| matches!(o, Op::SetOffline(true)))
    }

    fn props(&self, w: usize) -> Vec<Prop> {
        let mut v = vec![];
        if self.ver == Ver::V5 {
            if let Some(x) = self.rm[w] {
                v.push(Prop::new(0x21, PV::U16(x)));
            }
            if let Some(x) = self.mps[w] {
                v.push(Prop::new(0x27, PV::U32(x)));
            }
            if self.tam[w] > 0 {
                v.push(Prop::new(0x22, PV::U16(self.tam[w])));
            }
        }
        v
    }

    fn connect(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
        for w in 0..2 {
            self.tell(r, w, st)?;
            self.q[w].clear();
            self.e[w].told = false;
            self.e[w].armed = [false; 3];
        }
        self.up = true;
        self.conns += 1;
        self.note("new transport".into());
        if !self.persistent || r.p(1, 25) && !self.quiet {
            self.clean_pending = true;
        }
        let clean = self.clean_pending && (self.ver == Ver::V311 || self.persistent || r.bool());
        // messages of a v3.1.1 clean session are not to be resumed in a later one (offline
        // publishing keeps them): both sides get to know that a new session starts
        if self.ver == Ver::V311 && self.last_clean && !clean {
            self.fragile = true;
        }
        self.last_clean = clean;
        let mut props = self.props(0);
        if self.ver == Ver::V5 && self.persistent {
            props.push(Prop::new(0x11, PV::U32(1000)));
        }
        self.e[0].pers = if self.ver == Ver::V5 { self.persistent } else { !clean };
        if clean {
            self.fresh(0);
        }
        let c = APkt::Connect(AConnect {
            client_id: "pair".into(),
            clean,
            keep_alive: self.ka,
            will: None,
            user: None,
            pass: None,
            props,
        });
        self.e[0].conn = Cs::Half;
        let evs = self.exec(r, 0, Op::Send(self.ver, c), st)?;
        if !evs.iter().any(|e| matches!(e, Ev::Send { p: APkt::Connect(_), .. })) {
            return Err(self.fail("stuck", "the client cannot connect again".into()));
        }
        Ok(())
    }

    fn answer_connect(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
        let Some(clean) = self.asked else { return Ok(()) };
        if self.e[1].shut {
            return Ok(());
        }
        self.asked = None;
        if !self.quiet && !self.fragile && r.p(1, 20) {
            let code = if self.ver == Ver::V5 { 0x88 } else { 3 };
            let a = APkt::Connack { sp: false, code, props: vec![] };
            self.exec(r, 1, Op::Send(self.ver, a), st)?;
            return Ok(());
        }
        let sp = self.sess && !clean;
        if !sp {
            self.fresh(1);
        }
        self.sess = self.e[1].pers;
        let a = APkt::Connack { sp, code: 0, props: self.props(1) };
        self.e[1].conn = Cs::On;
        let evs = self.exec(r, 1, Op::Send(self.ver, a), st)?;
        if !evs.iter().any(|e| matches!(e, Ev::Send { p: APkt::Connack { .. }, .. })) {
            return Err(self.fail("stuck", "the server cannot accept the connection".into()));
        }
        Ok(())
    }

    /// The application at end `w` pays what it owes.
    fn respond(&mut self, r: &mut Rng, w: usize, st: &mut Stats) -> Result<(), Fail> {
        if self.e[w].shut {
            return Ok(());
        }
        let e = &mut self.e[w];
        if !e.rels.is_empty() && (r.p(1, 3) || e.owed.is_empty()) {
            if e.conn == Cs::On || e.pers && r.p(1, 4) {
                let k = r.us(e.rels.len());
                let i = *e.rels.iter().nth(k).unwrap();
                let rc = if self.ver == Ver::V5 && r.p(1, 5) { Some(0) } else { None };
                let evs = self.exec(r, w, Op::Send(self.ver, APkt::Ack { kind: 6, pid: i, rc, props: None }), st)?;
                if !evs.iter().any(|e| matches!(e, Ev::Error(_))) {
                    self.e[w].rels.remove(&i);
                    st.hit("PUBREL sent by the application");
                } else if self.e[w].conn == Cs::On {
                    return Err(self.fail("stuck", format!("the {} cannot send the PUBREL it owes", NAMES[w])));
                }
            }
            return Ok(());
        }
        if e.owed.is_empty() || e.conn != Cs::On {
            return Ok(());
        }
        let k = if r.p(2, 3) { 0 } else { r.us(e.owed.len()) };
        let (kind, pid, n) = e.owed.remove(k);
        let v5 = self.ver == Ver::V5;
        let p = match kind {
            9 | 11 => {
                let codes = vec![0u8; n];
                if kind == 9 {
                    APkt::Suback { pid, props: vec![], codes }
                } else {
                    APkt::Unsuback { pid, props: vec![], codes: if v5 { codes } else { vec![] } }
                }
            }
            13 => APkt::Pingresp,
            _ => {
                let mut rc = None;
                if v5 && r.p(1, 4) {
                    rc = Some(match kind {
                        4 => *r.pick(&[0, 0x10, 0x80, 0x97]),
                        5 => *r.pick(&[0, 0x10, 0x10, 0x83]),
                        _ => 0,
                    });
                }
                if kind == 5 && rc.unwrap_or(0) >= 0x80 {
                    self.msgs[n].refused = true;
                    st.hit("QoS 2 messages refused by the application");
                }
                APkt::Ack { kind, pid, rc, props: None }
            }
        };
        let evs = self.exec(r, w, Op::Send(self.ver, p.clone()), st)?;
        if !evs.iter().any(|e| matches!(e, Ev::Send { .. })) {
            return Err(self.fail("stuck", format!("the {} cannot send the response {}", NAMES[w], short(&p))));
        }
        st.hit("responses sent by the application");
        Ok(())
    }

    fn get_id(&mut self, r: &mut Rng, w: usize, st: &mut Stats) -> Result<u32, Fail> {
        if !self.e[w].held.is_empty() && r.p(1, 2) {
            let k = r.us(self.e[w].held.len());
            return Ok(self.e[w].held.remove(k));
        }
        if r.p(1, 8) {
            let i = 1 + r.below(12) as u32;
            let out = self.e[w].o.apply(&Op::Register(i));
            if let Ok(o) = out {
                self.log.push((w, format!("register_packet_id {i} -> {:?}", o.ret), vec![]));
                if o.ret == Ret::Ok(true) {
                    self.e[w].seen.insert(i);
                    return Ok(i);
                }
            }
        }
        self.exec(r, w, Op::Acquire, st)?;
        match self.e[w].held.pop() {
            Some(i) => Ok(i),
            None => Err(self.fail("stuck", format!("the {} gets no packet identifier", NAMES[w]))),
        }
    }

    fn publish(&mut self, r: &mut Rng, w: usize, st: &mut Stats) -> Result<(), Fail> {
        let conn = if self.e[w].shut { Cs::Off } else { self.e[w].conn };
        let peer = 1 - w;
        let qos = r.weighted(&[15, 40, 45]) as u8;
        if conn != Cs::On && (qos == 0 || !(self.e[w].pers || self.offline(w))) {
            return Ok(());
        }
        let rm = if self.ver == Ver::V5 { self.rm[peer].unwrap_or(u16::MAX) as usize } else { usize::MAX };
        if qos > 0 && self.e[w].cur.len() >= rm && (conn != Cs::On || !r.p(1, 10)) {
            return Ok(());
        }
        let i = self.msgs.len();
        let mut payload = (i as u32).to_be_bytes().to_vec();
        let n = match r.below(30) {
            0 => 130 + r.us(200),
            1 => 20_000 * r.us(2),
            _ => r.us(20),
        };
        payload.extend(r.bytes(n));
        let topics = ["t", "a/b", "a/b/c", "sensor/1", "sensor/2", "long/topic/name/that/goes/on", "é/温度/😀"];
        let topic = topics[r.us(topics.len())].to_string();
        let mut q = APublish {
            dup: false,
            qos,
            retain: r.p(1, 4),
            topic: topic.clone(),
            pid: None,
            props: vec![],
            payload: payload.clone(),
        };
        if self.ver == Ver::V5 && r.p(1, 6) {
            q.props.push(Prop::new(2, PV::U32(60)));
        }
        let limit = if self.ver == Ver::V5 { self.mps[peer].unwrap_or(u32::MAX) as usize } else { usize::MAX };
        let full = {
            let mut f = q.clone();
            f.pid = if qos > 0 { Some(1) } else { None };
            encode(&APkt::Publish(f), self.ver, P::W).len()
        };
        // a packet that fits only thanks to a topic alias would be dropped as oversize on resume, and
        // its identifier would be free while the receiver still holds the exchange
        let aliased = self.ver == Ver::V5 && self.e[w].peer_tam > 0;
        if full > limit && (conn != Cs::On || qos > 0 && (aliased || r.p(1, 2))) {
            return Ok(());
        }
        if qos > 0 {
            q.pid = Some(self.get_id(r, w, st)?);
        }
        // aliases chosen by the application
        let tam = self.e[w].peer_tam.min(5);
        let mut bind = None;
        if self.ver == Ver::V5 && conn == Cs::On && tam > 0 && r.p(1, 4) {
            let known: Vec<u16> = self.e[w].bound.iter().filter(|(_, t)| **t == topic).map(|(a, _)| *a).collect();
            if !known.is_empty() && r.p(2, 3) {
                q.props.push(Prop::new(0x23, PV::U16(*r.pick(&known))));
                q.topic.clear();
            } else {
                let a = 1 + r.below(tam as u64) as u16;
                q.props.push(Prop::new(0x23, PV::U16(a)));
                bind = Some(a);
            }
        }
        let pid = q.pid;
        let retain = q.retain;
        let op = match r.below(3) {
            0 => Op::GenericSend(self.ver, APkt::Publish(q)),
            1 => Op::CheckedSend(self.ver, APkt::Publish(q)),
            _ => Op::Send(self.ver, APkt::Publish(q)),
        };
        // the ledger entry must exist when the packet is on its way
        self.msgs.push(Msg {
            from: w,
            qos,
            retain,
            topic: topic.clone(),
            payload,
            conns: self.conns,
            acked: false,
            void: false,
            refused: false,
            n: 0,
        });
        if let Some(p) = pid {
            self.e[w].cur.insert(p, i);
        }
        let evs = self.exec(r, w, op, st)?;
        if evs.iter().any(|e| matches!(e, Ev::Error(_))) {
            // not accepted
            self.msgs[i].void = true;
            self.msgs[i].acked = true;
            st.hit("PUBLISH refused to the application");
            if let Some(p) = pid {
                if self.e[w].cur.remove(&p).is_some() {
                    // the identifier was not given back
                    self.e[w].held.push(p);
                }
            }
        } else {
            st.hit(["QoS 0 messages accepted", "QoS 1 messages accepted", "QoS 2 messages accepted"][qos as usize]);
            if conn != Cs::On {
                st.hit("messages accepted while not connected");
            }
            if full > limit {
                self.msgs[i].void = true;
            }
            if let (Some(a), true) = (bind, evs.iter().any(|e| matches!(e, Ev::Send { .. }))) {
                self.e[w].bound.insert(a, topic);
            } else if evs.iter().any(|e| matches!(e, Ev::Send { p: APkt::Publish(q), .. } if !q.topic.is_empty() && q.props.iter().any(|x| x.id == 0x23))) {
                // automatic mapping has rebound an alias: those of the application are void
                self.e[w].bound.clear();
            }
        }
        Ok(())
    }

    fn client_extra(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
        if self.e[0].conn != Cs::On || self.e[0].shut {
            return Ok(());
        }
        match r.below(4) {
            0 | 1 => {
                let id = self.get_id(r, 0, st)?;
                let sub = r.bool();
                let p = if sub {
                    APkt::Subscribe { pid: id, props: vec![], entries: vec![("a/#".into(), 1), ("b".into(), 2)] }
                } else {
                    APkt::Unsubscribe { pid: id, props: vec![], entries: vec!["a".into()] }
                };
                self.e[0].subs.insert(id, p.kind());
                let evs = self.exec(r, 0, Op::Send(self.ver, p), st)?;
                if evs.iter().any(|e| matches!(e, Ev::Error(_))) && self.e[0].subs.remove(&id).is_some() {
                    self.e[0].held.push(id);
                }
            }
            _ => {
                self.exec(r, 0, Op::Send(self.ver, APkt::Pingreq), st)?;
            }
        }
        Ok(())
    }

    fn timer(&mut self, r: &mut Rng, w: usize, st: &mut Stats) -> Result<(), Fail> {
        let ks: Vec<TK> = TKS
            .iter()
            .copied()
            .filter(|k| self.e[w].armed[*k as usize] && (*k == TK::Send || r.p(1, 30)))
            .collect();
        if ks.is_empty() || self.fragile {
            return Ok(());
        }
        let k = *r.pick(&ks);
        self.e[w].armed[k as usize] = false;
        st.hit(["timer fired: PINGREQ", "timer fired: keep-alive", "timer fired: PINGRESP"][k as usize]);
        self.exec(r, w, Op::Timer(k), st)?;
        Ok(())
    }

    fn deliver(&mut self, r: &mut Rng, w: usize, st: &mut Stats) -> Result<(), Fail> {
        let n = self.q[1 - w].len();
        if n == 0 || self.e[w].told || self.e[w].shut {
            return Ok(());
        }
        let k = match r.below(6) {
            0 => 1,
            1 => 1 + r.us(n.min(8)),
            2 => 1 + r.us(n),
            _ => n,
        };
        self.feed(r, w, k, st)
    }

    /// The process at end `w` dies and comes back with what it had exported at the last moment.
    fn crash(&mut self, r: &mut Rng, w: usize, st: &mut Stats) -> Result<(), Fail> {
        let e = &self.e[w];
        if !e.rels.is_empty() || !e.pers && w == 0 {
            return Ok(());
        }
        let ex = (|| Ok::<_, String>((e.o.stored()?, e.o.qos2()?)))();
        let Ok((pk, q2)) = ex else { return Ok(()) };
        if !e.told && self.up {
            if self.fragile {
                return Ok(());
            }
            self.lose(r, st);
        }
        self.note(format!("the {} dies and is restored from {} packets, {} handled identifiers", NAMES[w], pk.len(), q2.len()));
        st.hit("objects restored from an export");
        let ver = self.ver;
        let pers = self.e[w].pers || self.offline(w);
        if !self.e[w].told {
            if !pers {
                return Ok(());
            }
            let e = &mut self.e[w];
            e.told = true;
            e.conn = Cs::Off;
            e.owed.clear();
            e.bound.clear();
            e.shut = false;
            e.pings = 0;
            e.subs.clear();
            self.q[1 - w].clear();
            if w == 1 {
                self.asked = None;
            }
        }
        let role = self.e[w].o.role;
        self.e[w].o = Obj::new(role, Some(ver));
        self.e[w].held.clear();
        self.e[w].armed = [false; 3];
        for o in self.e[w].opts.clone() {
            self.exec(r, w, o, st)?;
        }
        self.exec(r, w, Op::RestorePackets(pk), st)?;
        self.exec(r, w, Op::RestoreQos2(q2), st)?;
        Ok(())
    }

    /// Everything comes to rest.
    fn drain(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
        self.quiet = true;
        let work = 400 + 40 * self.msgs.len() as u64;
        let f0 = self.frames;
        for round in 0..400_000u64 {
            if self.frames - f0 > work || round == 399_999 {
                return Err(self.fail(
                    "endless",
                    format!("the exchange does not come to rest: {} packets delivered after the last application request", self.frames - f0),
                ));
            }
            if self.e[0].shut || self.e[1].shut {
                // flush what was written before the close request
                self.finish_close(r, st)?;
                continue;
            }
            if !self.up {
                self.connect(r, st)?;
                continue;
            }
            let busy = |s: &Net<P>, w: usize| !s.q[1 - w].is_empty();
            if self.asked.is_some() {
                self.answer_connect(r, st)?;
            } else if busy(self, 0) || busy(self, 1) {
                let w = if busy(self, 0) && (!busy(self, 1) || r.bool()) { 0 } else { 1 };
                let n = self.q[1 - w].len();
                let k = if r.p(1, 4) { 1 + r.us(n) } else { n };
                self.feed(r, w, k, st)?;
            } else if !self.e[0].owed.is_empty() || !self.e[0].rels.is_empty() {
                self.respond(r, 0, st)?;
            } else if !self.e[1].owed.is_empty() || !self.e[1].rels.is_empty() {
                self.respond(r, 1, st)?;
            } else {
                break;
            }
            // answers in between
            for w in 0..2 {
                if r.bool() {
                    self.respond(r, w, st)?;
                }
            }
        }
        self.judge(r, st)
    }

    fn finish_close(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
        self.lose(r, st);
        let first = r.us(2);
        for w in [first, 1 - first] {
            while !self.e[w].shut && !self.q[1 - w].is_empty() {
                let n = self.q[1 - w].len();
                self.feed(r, w, n, st)?;
            }
            self.tell(r, w, st)?;
        }
        Ok(())
    }

    fn judge(&mut self, r: &mut Rng, st: &mut Stats) -> Result<(), Fail> {
        if self.e[0].conn != Cs::On || self.e[1].conn != Cs::On {
            return Err(self.fail("stuck", "the connection is not established at the end".into()));
        }
        for (i, m) in self.msgs.iter().enumerate() {
            if !m.void && m.qos > 0 && m.n == 0 {
                return Err(self.fail(
                    "lost message",
                    format!("message {i} (QoS {}, accepted by the {}) never reached the other application", m.qos, NAMES[m.from]),
                ));
            }
        }
        for w in 0..2 {
            if let Some((p, i)) = self.e[w].cur.iter().next() {
                return Err(self.fail("unfinished", format!("at rest the {} still has the exchange of message {i} with identifier {p}", NAMES[w])));
            }
            if let Some((p, _)) = self.e[w].subs.iter().next() {
                return Err(self.fail("unfinished", format!("at rest the {} waits for the SUBACK/UNSUBACK {p}", NAMES[w])));
            }
            let pr = (|| Ok::<_, String>((self.e[w].o.stored()?, self.e[w].o.qos2()?, self.e[w].o.vacancy()?)))();
            match pr {
                Ok((s, q, v)) => {
                    if !s.is_empty() {
                        return Err(self.fail("store", format!("at rest the {} stores {s:?}", NAMES[w])));
                    }
                    if !q.is_empty() {
                        return Err(self.fail("store", format!("at rest the {} holds the handled identifiers {q:?}", NAMES[w])));
                    }
                    let want = if self.ver == Ver::V5 { self.rm[1 - w] } else { None };
                    if want.is_some() && v != want {
                        return Err(self.fail("vacancy", format!("at rest the {} has vacancy {v:?}, not {want:?}", NAMES[w])));
                    }
                }
                Err(m) => return Err((u32::MAX, Viol::new("panic", m))),
            }
            for i in std::mem::take(&mut self.e[w].held) {
                self.exec(r, w, Op::Release(i), st)?;
            }
            for i in self.e[w].seen.clone() {
                let out = self.e[w].o.apply(&Op::Register(i));
                match out {
                    Ok(o) if o.ret == Ret::Ok(true) => {}
                    _ => return Err(self.fail("leak", format!("at rest the {} still has identifier {i} in use", NAMES[w]))),
                }
                let _ = self.e[w].o.apply(&Op::Release(i));
                st.hit("identifiers found free at rest");
            }
        }
        st.hit("pairs observed at rest");
        Ok(())
    }
}

pub struct Shape {
    /// probability (per thousand steps) of a transport loss
    pub loss: u64,
    pub crash: bool,
    pub steps: (u64, u64),
}

pub fn pair<P: Mk>(r: &mut Rng, sh: &Shape, st: &mut Stats) -> Result<(), Fail> {
    let ver = if r.p(2, 3) { Ver::V5 } else { Ver::V311 };
    let roles = [*r.pick(&[Role::C, Role::C, Role::A]), *r.pick(&[Role::S, Role::S, Role::A])];
    let persistent = r.p(4, 5);
    let mk = |r: &mut Rng, w: usize| {
        let mut opts = vec![
            Op::SetAutoPub(r.p(2, 3)),
            Op::SetAutoPing(r.p(2, 3)),
            Op::SetOffline(persistent && r.p(1, 5)),
        ];
        if ver == Ver::V5 {
            opts.push(Op::SetAutoMap(r.p(1, 3)));
            opts.push(Op::SetAutoReplace(r.p(1, 4)));
        }
        if w == 0 && r.p(1, 3) {
            opts.push(Op::SetRespTimeout(*r.pick(&[0, 500])));
            opts.push(Op::SetInterval(*r.pick(&[None, Some(0), Some(700)])));
        }
        let auto = opts[0] == Op::SetAutoPub(true);
        let auto_ping = opts[1] == Op::SetAutoPing(true);
        let v = if w == 1 && r.p(1, 3) { None } else { Some(ver) };
        End {
            o: Obj::<P>::new(roles[w], v),
            auto,
            auto_ping,
            conn: Cs::Off,
            owed: vec![],
            rels: BTreeSet::new(),
            cur: BTreeMap::new(),
            held: vec![],
            subs: BTreeMap::new(),
            seen: BTreeSet::new(),
            bound: BTreeMap::new(),
            armed: [false; 3],
            told: true,
            shut: false,
            pers: false,
            opts,
            peer_tam: 0,
            pings: 0,
        }
    };
    let e = [mk(r, 0), mk(r, 1)];
    let lim = |r: &mut Rng| if r.p(1, 2) { Some(*r.pick(&[1u16, 2, 3, 4, 8, 20, 65535])) } else { None };
    let big = |r: &mut Rng| if r.p(1, 4) { Some(*r.pick(&[40u32, 60, 100, 300])) } else { None };
    let al = |r: &mut Rng| *r.pick(&[0u16, 0, 1, 2, 3, 10, 65535]);
    let mut n = Net {
        rm: [lim(r), lim(r)],
        mps: [big(r), big(r)],
        tam: [al(r), al(r)],
        ka: *r.pick(&[0u16, 0, 10, 60]),
        e,
        q: [VecDeque::new(), VecDeque::new()],
        up: false,
        conns: 0,
        ver,
        persistent,
        sess: false,
        clean_pending: false,
        fragile: false,
        last_clean: false,
        asked: None,
        msgs: vec![],
        log: vec![],
        sig: 0,
        frames: 0,
        quiet: false,
        write_errors: r.bool(),
    };
    for w in 0..2 {
        for o in n.e[w].opts.clone() {
            n.exec(r, w, o, st)?;
        }
    }
    let steps = r.range(sh.steps.0, sh.steps.1);
    let loss = if sh.loss == 0 { 0 } else { *r.pick(&[sh.loss / 3, sh.loss, sh.loss * 3]) };
    let busy = [r.range(1, 6), r.range(0, 6)];
    let speed = r.range(4, 20);
    for _ in 0..steps {
        // an end that asked for a close has flushed and closes
        if n.up && (n.e[0].shut || n.e[1].shut) && !n.fragile && r.p(1, 3) {
            n.lose(r, st);
            continue;
        }
        if n.fragile && (n.e[0].shut || n.e[1].shut) {
            n.fragile = false;
        }
        if n.up && !n.fragile && r.below(1000) < loss {
            n.lose(r, st);
            continue;
        }
        if !n.up {
            let gone = n.e[0].told && n.e[1].told;
            if gone && r.p(1, 2) {
                if !sh.crash && r.p(1, 40) && n.persistent && n.conns > 0 {
                    // one side loses its session
                    let w = r.us(2);
                    n.note(format!("the {} loses its session", NAMES[w]));
                    st.hit("sessions lost by one side");
                    n.fresh(0);
                    n.fresh(1);
                    let role = n.e[w].o.role;
                    n.e[w].o = Obj::new(role, Some(ver));
                    n.e[w].pers = false;
                    for o in n.e[w].opts.clone() {
                        n.exec(r, w, o, st)?;
                    }
                    if w == 0 {
                        n.clean_pending = true;
                    } else {
                        n.sess = false;
                        n.fragile = true;
                    }
                }
                n.connect(r, st)?;
                continue;
            }
            if !gone && r.p(1, 4) {
                let w = r.us(2);
                n.tell(r, w, st)?;
                continue;
            }
        }
        if sh.crash && r.p(1, 60) {
            let w = r.us(2);
            n.crash(r, w, st)?;
            continue;
        }
        let x = r.below(speed + busy[0] + busy[1] + 10);
        if x < speed {
            let w = r.us(2);
            n.deliver(r, w, st)?;
        } else if x < speed + busy[0] {
            n.publish(r, 0, st)?;
        } else if x < speed + busy[0] + busy[1] {
            n.publish(r, 1, st)?;
        } else {
            match r.below(40) {
                0..=24 => {
                    let w = r.us(2);
                    n.respond(r, w, st)?;
                }
                25..=28 => n.client_extra(r, st)?,
                29..=30 => {
                    let w = r.us(2);
                    n.timer(r, w, st)?;
                }
                31 => {
                    // identifiers held for later
                    let w = r.us(2);
                    if n.e[w].held.len() < 4 {
                        n.exec(r, w, Op::Acquire, st)?;
                    } else if let Some(i) = n.e[w].held.pop() {
                        n.exec(r, w, Op::Release(i), st)?;
                    }
                }
                32 => {
                    let w = if ver == Ver::V5 { r.us(2) } else { 0 };
                    if n.e[w].conn == Cs::On && !n.e[w].shut && loss > 0 && !n.fragile && r.p(1, 6) {
                        st.hit("DISCONNECT by an application");
                        n.exec(r, w, Op::Send(ver, APkt::Disconnect { rc: None, props: None }), st)?;
                    }
                }
                _ => {
                    if r.p(2, 3) {
                        n.answer_connect(r, st)?;
                    }
                }
            }
        }
    }
    n.drain(r, st)?;
    let sig = n.sig;
    st.nontrivial(&sig);
    st.sample(2, || n.log.iter().map(|(w, o, _)| format!("{}:{o}", ["C", "S", "N"][*w])).collect::<Vec<_>>().join(" / "));
    Ok(())
}

/// A fixed history: a QoS 2 PUBLISH that respects the peer's Maximum Packet Size only thanks to a
/// topic alias is dropped as oversize on resume (as the store rules demand), its identifier becomes
/// free while the receiver still holds the exchange, and the next message with it is swallowed.
pub fn alias_oversize_resume<P: Mk>(st: &mut Stats) -> Result<(), Fail> {
    let mut trace: Vec<String> = vec![];
    let mut e = [Obj::<P>::new(Role::C, Some(Ver::V5)), Obj::<P>::new(Role::S, Some(Ver::V5))];
    let pr = |id, v| Prop::new(id, v);
    let mut go = |e: &mut [Obj<P>; 2], w: usize, op: Op, lose: bool, st: &mut Stats| -> Result<Vec<(usize, APkt)>, Fail> {
        let bad = |trace: &Vec<String>, m: String| (u32::MAX, Viol { what: m.clone(), trace: trace.clone(), class: "panic".into() });
        // the bytes of every call are given to the other end at once, unless they are lost
        let mut got = vec![];
        let mut todo = VecDeque::new();
        let out = e[w].apply(&op).map_err(|m| bad(&trace, m))?;
        let evs: Vec<Ev> = out.all().cloned().collect();
        trace.push(format!("{}: {op:?} -> {:?} => {evs:?}", NAMES[w], out.ret));
        todo.push_back((w, evs));
        while let Some((w, evs)) = todo.pop_front() {
            for ev in evs {
                match ev {
                    Ev::Send { bytes, p, .. } => {
                        if lose && !matches!(p, APkt::Publish(_)) {
                            trace.push("network: lost".into());
                            continue;
                        }
                        let (x, _) = e[1 - w].recv_once(&bytes).map_err(|m| bad(&trace, m))?;
                        trace.push(format!("{}: recv {} => {x:?}", NAMES[1 - w], hex(&bytes)));
                        todo.push_back((1 - w, x));
                    }
                    Ev::Recv { p, .. } => got.push((w, p)),
                    _ => {}
                }
            }
        }
        st.hit("fixed history: steps");
        Ok(got)
    };
    let publish = |topic: &str, qos: u8, pid: Option<u32>, alias: Option<u16>, n: u32, pad: usize| {
        let mut payload = n.to_be_bytes().to_vec();
        payload.resize(4 + pad, 7);
        APkt::Publish(APublish {
            dup: false,
            qos,
            retain: false,
            topic: topic.into(),
            pid,
            props: alias.map(|a| Prop::new(0x23, PV::U16(a))).into_iter().collect(),
            payload,
        })
    };
    let topic = "a/topic/of/thirty-two/characters";
    for w in 0..2 {
        go(&mut e, w, Op::SetAutoPub(true), false, st)?;
    }
    let mut id = 0;
    let mut seen = 0;
    for k in 0..2 {
        let c = APkt::Connect(AConnect {
            client_id: "pair".into(),
            clean: false,
            keep_alive: 0,
            will: None,
            user: None,
            pass: None,
            props: vec![pr(0x11, PV::U32(1000))],
        });
        go(&mut e, 0, Op::Send(Ver::V5, c), false, st)?;
        let a = APkt::Connack { sp: k == 1, code: 0, props: vec![pr(0x27, PV::U32(50)), pr(0x22, PV::U16(1))] };
        go(&mut e, 1, Op::Send(Ver::V5, a), false, st)?;
        if k == 0 {
            go(&mut e, 0, Op::Send(Ver::V5, publish(topic, 0, None, Some(1), 0, 0)), false, st)?;
        }
        let out = e[0].apply(&Op::Acquire).map_err(|m| (u32::MAX, Viol::new("panic", m)))?;
        let Ret::Id(Some(i)) = out.ret else { return Ok(()) };
        let p = if k == 0 { publish("", 2, Some(i), Some(1), 1, 20) } else { publish("t", 2, Some(i), None, 2, 0) };
        let got = go(&mut e, 0, Op::Send(Ver::V5, p), k == 0, st)?;
        if k == 0 {
            id = i;
            if !got.iter().any(|(w, p)| *w == 1 && matches!(p, APkt::Publish(_))) {
                st.hit("fixed history: not accepted any more");
                return Ok(());
            }
            go(&mut e, 0, Op::Closed, false, st)?;
            go(&mut e, 1, Op::Closed, false, st)?;
        } else {
            seen = got.iter().filter(|(w, p)| *w == 1 && matches!(p, APkt::Publish(_))).count();
            if i != id {
                return Ok(());
            }
        }
    }
    if seen == 0 {
        let what = format!(
            "the second message (QoS 2, identifier {id}) is never notified: the identifier was released when the first message, which only fits the Maximum Packet Size with its topic alias, was dropped on resume"
        );
        return Err((C01, Viol { what, trace, class: "aliased-oversize-dropped-on-resume".into() }));
    }
    Ok(())
}
