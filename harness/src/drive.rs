//! Workload generator for one connection object under the reference monitor (`model`).
use crate::conn::*;
use crate::gen;
use crate::model::*;
use crate::prng::Rng;
use crate::refcodec::*;
use crate::report::*;
use std::collections::BTreeSet;

/// Tuning of the workload.
#[derive(Clone, Debug)]
pub struct Prof {
    pub steps: (usize, usize),
    pub v5: u64,
    pub persist: u64,
    pub undetermined: u64,
    /// relative weights of what happens on an open connection
    pub w_pub: u32,
    pub w_ack: u32,
    pub w_sub: u32,
    pub w_ping: u32,
    pub w_bye: u32,
    pub w_illegal: u32,
    pub w_id: u32,
    pub w_opt: u32,
    pub w_peer_pub: u32,
    pub w_peer_ack: u32,
    pub w_peer_badack: u32,
    pub w_peer_misc: u32,
    pub w_peer_illegal: u32,
    pub w_peer_bad: u32,
    pub w_timer: u32,
    pub w_closed: u32,
    pub rm: u64,
    pub mps: u64,
    pub tam: u64,
    pub ka: u64,
    pub auto_pub: u64,
    pub auto_alias: u64,
    pub split: u64,
    pub resume: u64,
}

pub fn prof(focus: u32) -> Prof {
    let mut p = Prof {
        steps: (40, 120),
        v5: 70,
        persist: 50,
        undetermined: 30,
        w_pub: 100,
        w_ack: 60,
        w_sub: 15,
        w_ping: 8,
        w_bye: 3,
        w_illegal: 15,
        w_id: 15,
        w_opt: 6,
        w_peer_pub: 80,
        w_peer_ack: 120,
        w_peer_badack: 4,
        w_peer_misc: 15,
        w_peer_illegal: 4,
        w_peer_bad: 4,
        w_timer: 8,
        w_closed: 8,
        rm: 40,
        mps: 25,
        tam: 50,
        ka: 50,
        auto_pub: 60,
        auto_alias: 40,
        split: 10,
        resume: 60,
    };
    match focus {
        5 => {
            p.w_peer_bad = 100;
            p.w_peer_illegal = 25;
            p.w_peer_badack = 25;
            p.split = 30;
        }
        6 | 16 => {
            p.persist = 85;
            p.w_closed = 14;
            p.w_pub = 140;
            p.w_peer_ack = 100;
            p.w_peer_badack = 10;
            p.resume = 80;
        }
        7 => {
            p.w_peer_pub = 260;
            p.persist = 75;
            p.w_closed = 10;
            p.w_ack = 100;
        }
        8 => {
            p.w_id = 90;
            p.w_illegal = 50;
            p.w_sub = 60;
            p.w_closed = 14;
            p.persist = 35;
        }
        11 => {
            p.w_illegal = 160;
            p.w_closed = 14;
        }
        12 => {
            p.v5 = 100;
            p.rm = 90;
            p.mps = 8;
            p.w_pub = 160;
            p.w_peer_pub = 120;
            p.w_peer_ack = 130;
            p.persist = 65;
        }
        13 => {
            p.v5 = 100;
            p.tam = 95;
            p.auto_alias = 75;
            p.w_pub = 220;
            p.w_peer_pub = 130;
            p.w_peer_bad = 1;
            p.w_peer_badack = 1;
        }
        14 => {
            p.v5 = 100;
            p.mps = 95;
            p.auto_alias = 60;
            p.tam = 70;
            p.persist = 65;
        }
        15 => {
            p.ka = 90;
            p.w_timer = 60;
            p.w_ping = 50;
            p.w_opt = 25;
            p.w_closed = 12;
        }
        17 => {
            p.w_peer_illegal = 60;
            p.undetermined = 70;
            p.w_closed = 12;
        }
        19 => {
            p.w_bye = 25;
            p.w_timer = 25;
            p.w_peer_bad = 25;
            p.w_peer_badack = 25;
            p.w_closed = 12;
            p.mps = 50;
        }
        _ => {}
    }
    p
}

pub struct G {
    pub prof: Prof,
    pub topics: Vec<String>,
    pub wire: Vec<u8>,
    /// inbound messages the application still has to answer: (kind of the answer, identifier)
    pub todo: Vec<(u8, u32)>,
    pub as_client: bool,
    pub conns: u32,
    /// only calls a correct application makes (no refused sends on purpose)
    pub polite: bool,
    /// large populations: many identifiers, aliases and topics, high limits
    pub wide: bool,
    /// identifiers the peer and the application choose from
    pub span: u32,
    ticks: u32,
    period: u32,
}

/// one life in so many has large populations
const WIDE: u64 = 80;

pub struct Run<P: Mk> {
    pub o: Obj<P>,
    pub m: Model,
    pub log: Vec<(Op, Out)>,
    pub ver0: Option<Ver>,
    /// probe the observable state after every so many operations (1 unless populations are large)
    pub every: usize,
    /// largest populations seen: identifiers, store, in flight out, in flight in, aliases out, aliases in
    pub peak: [usize; 6],
    /// the answer that the monitor objected to
    pub last: Option<Out>,
}

pub fn fmt_log(role: Role, ver: Option<Ver>, w: usize, log: &[(Op, Out)]) -> Vec<String> {
    let mut v = vec![format!("object: role {role:?}, version {ver:?}, {}-bit identifiers", w * 8)];
    for (o, r) in log {
        v.push(format!("{o:?}"));
        v.push(format!("   => {r:?}"));
    }
    v
}

impl<P: Mk> Run<P> {
    pub fn new(role: Role, ver: Option<Ver>) -> Run<P> {
        Run { o: Obj::new(role, ver), m: Model::new(role, ver, P::W), log: vec![], ver0: ver, every: 1, peak: [0; 6], last: None }
    }
    pub fn viol(&self, class: &str, what: String, op: &Op) -> Viol {
        let mut v = Viol::new(class, what);
        v.trace = fmt_log(self.o.role, self.ver0, P::W, &self.log);
        v.trace.push(format!("{op:?}"));
        v
    }
    /// Apply one operation to the real object under the monitor.
    pub fn exec(&mut self, op: Op) -> Result<&Out, (u32, Viol)> {
        let out = match self.o.apply(&op) {
            Ok(o) => o,
            Err(e) => return Err((u32::MAX, self.viol("panic", e, &op))),
        };
        self.last = None;
        if self.every > 1 {
            let m = &self.m;
            let now =
                [m.ids.len(), m.store.len(), m.infl.len(), m.inb.len(), m.out_tab.len(), m.in_tab.len()];
            for (p, n) in self.peak.iter_mut().zip(now) {
                *p = (*p).max(n);
            }
        }
        let va = self.o.version();
        let mut vs = self.m.step::<P>(&op, &out, va);
        if !vs.is_empty() || !self.m.lost && self.log.len() % self.every == 0 {
            match self.m.probe(&self.o) {
                Ok(x) => vs.extend(x),
                Err(e) => return Err((u32::MAX, self.viol("panic", e, &op))),
            }
        }
        self.log.push((op, out));
        if !vs.is_empty() {
            let tags = vs.iter().fold(0, |a, v| a | v.tags);
            let (op, out) = self.log.pop().unwrap();
            let mut s: Vec<String> = vs.iter().map(|v| v.what.clone()).collect();
            s.dedup();
            let mut v = self.viol("monitor", s.join(" | "), &op);
            v.trace.push(format!("   => {out:?}"));
            self.last = Some(out);
            return Err((tags, v));
        }
        Ok(&self.log.last().unwrap().1)
    }
}

fn may_release(m: &Model, i: u32) -> bool {
    match m.ids.get(&i) {
        None | Some(Own::App | Own::Sub | Own::Unsub) => true,
        _ => !m.persistent && m.store.iter().all(|x| x.0 != i),
    }
}

fn pick_ids(m: &Model, f: impl Fn(Own) -> bool) -> Vec<u32> {
    m.ids.iter().filter(|(_, o)| f(**o)).map(|(i, _)| *i).collect()
}

impl G {
    pub fn new(r: &mut Rng, prof: Prof) -> G {
        let mut topics: Vec<String> =
            ["a", "b/c", "t/3", "some/longer/topic/name", "é/温", "$x"].iter().map(|s| s.to_string()).collect();
        topics.push("q".repeat(1 + r.us(60)));
        let n = 2 + r.us(6);
        topics.truncate(n);
        G {
            prof,
            topics,
            wire: vec![],
            todo: vec![],
            as_client: false,
            conns: 0,
            polite: false,
            wide: false,
            span: 8,
            ticks: 0,
            period: 300,
        }
    }

    /// Long lives with large populations.
    pub fn widen(&mut self, r: &mut Rng, max_id: u32) {
        self.wide = true;
        self.span = *r.pick(&[40, 300, 300, 1000, max_id - 1]);
        let n = *r.pick(&[3usize, 20, 270, 400]);
        self.topics = (0..n)
            .map(|i| {
                let mut t = format!("t{i}/");
                if r.p(1, 5) {
                    let k = gen::len(r).min(1500);
                    t.push_str(&gen::string_n(r, k, &['#', '+']));
                }
                t
            })
            .collect();
        self.prof.steps = (400, 3500);
        for w in [
            &mut self.prof.w_bye,
            &mut self.prof.w_closed,
            &mut self.prof.w_peer_bad,
            &mut self.prof.w_peer_badack,
            &mut self.prof.w_peer_illegal,
            &mut self.prof.w_illegal,
        ] {
            // rare, or nothing would accumulate
            *w = u32::from(r.p(*w as u64, 150));
        }
        self.prof.w_timer /= 8;
        self.prof.w_id = self.prof.w_id.max(40);
        self.prof.split /= 3;
        self.period = *r.pick(&[150, 400, 1200, 3000]);
        if self.period == 3000 {
            self.prof.steps = (3000, 6000);
        }
    }

    /// Populations grow and shrink by turns.
    fn phase(&mut self) -> Prof {
        let mut p = self.prof.clone();
        if self.wide {
            self.ticks += 1;
            if self.ticks / self.period % 2 == 0 {
                p.w_peer_ack = p.w_peer_ack / 20 + 1;
                p.w_ack /= 10;
                p.w_pub *= 2;
            } else {
                p.w_pub /= 4;
                p.w_peer_pub /= 4;
                p.w_peer_ack *= 2;
                p.w_ack *= 3;
            }
        }
        p
    }

    fn rmax(&self, r: &mut Rng) -> u16 {
        if self.wide {
            *r.pick(&[10, 50, 127, 128, 200, 255, 256, 257, 300, 1000, 0x7fff, 0x8000, 65534, 65535])
        } else {
            *r.pick(&[1, 2, 3, 5, 65535])
        }
    }

    fn tamax(&self, r: &mut Rng) -> u16 {
        if self.wide {
            *r.pick(&[0, 1, 5, 10, 40, 127, 128, 255, 256, 257, 300, 0x7fff, 0x8000, 65534, 65535])
        } else {
            *r.pick(&[0, 1, 2, 3, 3, 4, 65535])
        }
    }

    /// other properties of the packet, which are of no concern to the connection
    fn others(&self, r: &mut Rng, packet: u8, props: &mut Vec<Prop>) {
        if r.p(1, 6) {
            for p in gen::props(r, packet) {
                let big = match &p.v {
                    PV::Str(s) => s.len() > 100,
                    PV::Bin(s) => s.len() > 100,
                    PV::Pair(a, b) => a.len() + b.len() > 100,
                    _ => false,
                };
                if !big && !matches!(p.id, 0x11 | 0x13 | 0x21 | 0x22 | 0x23 | 0x27 | 0x15 | 0x16) {
                    props.push(p);
                }
            }
            for i in (1..props.len()).rev() {
                let j = r.us(i + 1);
                props.swap(i, j);
            }
        }
    }

    fn mps(&self, r: &mut Rng) -> Option<u32> {
        if r.p(self.prof.mps, 100) {
            Some(match r.below(if self.wide { 14 } else { 10 }) {
                10 => r.range(124, 136) as u32,
                11 => r.range(250, 260) as u32,
                12 => r.range(16380, 16392) as u32,
                13 => r.range(65530, 65540) as u32,
                0 => 1 + r.below(6) as u32,
                1 => NOLIM,
                2..=4 => r.range(5, 20) as u32,
                5..=7 => r.range(12, 60) as u32,
                _ => r.range(20, 300) as u32,
            })
        } else {
            None
        }
    }

    pub fn connect(&self, r: &mut Rng, ver: Ver) -> APkt {
        let p = &self.prof;
        let persist = r.p(p.persist, 100);
        let mut props = vec![];
        let clean = if persist { r.p(1, 6) } else { r.p(2, 3) };
        if ver == Ver::V5 {
            if persist || r.p(1, 8) {
                let v = if persist { *r.pick(&[1, 100, u32::MAX]) } else { 0 };
                props.push(Prop::new(0x11, PV::U32(v)));
            }
            if r.p(p.rm, 100) {
                props.push(Prop::new(0x21, PV::U16(self.rmax(r))));
            }
            if let Some(x) = self.mps(r) {
                props.push(Prop::new(0x27, PV::U32(x)));
            }
            if r.p(p.tam, 100) {
                props.push(Prop::new(0x22, PV::U16(self.tamax(r))));
            }
            self.others(r, 1, &mut props);
        }
        let mut c = AConnect {
            client_id: "c".into(),
            clean,
            keep_alive: if r.p(p.ka, 100) {
                *r.pick(&[1, 2, 10, 60, 255, 256, 0x7fff, 0x8000, 43690, 43691, 65535])
            } else {
                0
            },
            will: None,
            user: None,
            pass: None,
            props,
        };
        if r.p(1, 8) {
            if let APkt::Connect(q) = gen::packet(r, ver, 1, 2) {
                let q = AConnect { props: vec![], ..q };
                if encode(&APkt::Connect(q.clone()), ver, 2).len() < 250 {
                    c = AConnect { clean: c.clean, keep_alive: c.keep_alive, props: c.props, ..q };
                }
            }
        }
        APkt::Connect(c)
    }

    pub fn connack(&self, r: &mut Rng, ver: Ver, m: &Model, from_peer: bool) -> APkt {
        let p = &self.prof;
        if r.p(1, 14) {
            let t = gen::rc_table(ver, 2);
            return APkt::Connack { sp: false, code: *r.pick(&t[1..]), props: vec![] };
        }
        let session = m.persistent || !m.store.is_empty() || !m.qos2.is_empty();
        let sp = if session { r.p(p.resume, 100) } else { r.p(1, 12) };
        let mut props = vec![];
        if ver == Ver::V5 {
            if r.p(p.rm, 100) {
                props.push(Prop::new(0x21, PV::U16(self.rmax(r))));
            }
            if let Some(x) = self.mps(r) {
                props.push(Prop::new(0x27, PV::U32(x)));
            }
            if r.p(p.tam, 100) {
                props.push(Prop::new(0x22, PV::U16(self.tamax(r))));
            }
            if r.p(p.ka, 250) {
                props.push(Prop::new(0x13, PV::U16(*r.pick(&[0, 1, 7, 256, 0x8000, 65535]))));
            }
            if r.p(1, 14) {
                props.push(Prop::new(0x11, PV::U32(*r.pick(&[0, 5, u32::MAX]))));
            }
            if from_peer || r.p(1, 3) {
                self.others(r, 2, &mut props);
            }
        }
        APkt::Connack { sp, code: 0, props }
    }

    fn payload(&self, r: &mut Rng) -> Vec<u8> {
        let n = match r.below(12) {
            0..=8 => r.us(6),
            9 | 10 => r.us(40),
            _ if self.wide && r.p(1, 4) => gen::len(r).min(17_000),
            _ => r.us(300),
        };
        r.bytes(n)
    }

    fn publish(&self, r: &mut Rng, ver: Ver, qos: u8, pid: Option<u32>, amax: u16) -> APublish {
        let mut topic = r.pick(&self.topics).clone();
        let mut props = vec![];
        if ver == Ver::V5 {
            if r.p(1, 8) {
                props.push(Prop::new(0x26, PV::Pair("k".into(), "v".into())));
            }
            if r.p(1, 20) {
                props.push(Prop::new(0x02, PV::U32(7)));
            }
            if amax > 0 && r.p(self.prof.tam, 250) {
                let a = match r.below(12) {
                    0 if !self.wide || r.p(1, 20) => amax.saturating_add(1),
                    1 if self.wide => amax,
                    _ => 1 + r.below(amax.min(if self.wide { 400 } else { 4 }) as u64) as u16,
                };
                if r.p(1, 2) {
                    topic.clear();
                }
                props.insert(r.us(props.len() + 1), Prop::new(0x23, PV::U16(a)));
            } else if amax == 0 && r.p(1, 60) {
                if r.bool() {
                    topic.clear();
                }
                props.push(Prop::new(0x23, PV::U16(1)));
            }
        }
        APublish { dup: false, qos, retain: r.p(1, 5), topic, pid, props, payload: self.payload(r) }
    }

    /// An acknowledgement with plausible contents.
    pub fn ack(&self, r: &mut Rng, ver: Ver, kind: u8, pid: u32, fail: u64) -> APkt {
        let mut rc = None;
        let mut props = None;
        if ver == Ver::V5 && r.p(1, 2) {
            let t = gen::rc_table(ver, kind);
            let x = if r.p(fail, 100) { *r.pick(&t) } else { t[0] };
            rc = Some(x);
            if r.p(1, 3) {
                props = Some(if r.bool() { vec![] } else { vec![Prop::new(0x1F, PV::Str("why".into()))] });
            }
        }
        APkt::Ack { kind, pid, rc, props }
    }

    fn some_id(&self, r: &mut Rng, m: &Model) -> Option<u32> {
        let v = pick_ids(m, |o| o == Own::App);
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    }

    fn get_id(&self, r: &mut Rng, m: &Model) -> Op {
        if r.p(4, 5) {
            Op::Acquire
        } else if r.p(1, 12) {
            Op::Register(*r.pick(&[0, m.max_id, m.max_id - 1]))
        } else {
            Op::Register(1 + r.below(self.span as u64 + 1) as u32)
        }
    }

    fn small_free(&self, r: &mut Rng, m: &Model) -> u32 {
        for _ in 0..20 {
            let i = 1 + r.below(12) as u32;
            if !m.ids.contains_key(&i) {
                return i;
            }
        }
        (1..m.max_id - 2).rev().find(|i| !m.ids.contains_key(i)).unwrap_or(m.max_id)
    }

    /// any packet of any kind, valid in itself, that a send gate should judge
    pub fn any_packet(&self, r: &mut Rng, m: &Model) -> (Ver, APkt) {
        let mv = m.ver.unwrap_or(Ver::V5);
        let ver = if r.p(1, 8) {
            if mv == Ver::V5 { Ver::V311 } else { Ver::V5 }
        } else {
            mv
        };
        let kind = loop {
            let k = 1 + r.below(15) as u8;
            if !(ver == Ver::V311 && k == 15) {
                break k;
            }
        };
        let id = match self.some_id(r, m) {
            Some(i) if r.p(2, 3) => i,
            _ => self.small_free(r, m),
        };
        let p = match kind {
            1 => self.connect(r, ver),
            2 => self.connack(r, ver, m, false),
            3 => {
                let qos = r.below(3) as u8;
                APkt::Publish(self.publish(r, ver, qos, if qos > 0 { Some(id) } else { None }, m.out_max))
            }
            4 | 5 | 7 => {
                let i = 1 + r.below(6) as u32;
                self.ack(r, ver, kind, i, 50)
            }
            6 => {
                // PUBREL only for an identifier that is free or waits for it
                let v = pick_ids(m, |o| o == Own::Rel);
                let i = if !v.is_empty() && r.p(2, 3) { *r.pick(&v) } else { self.small_free(r, m) };
                self.ack(r, ver, 6, i, 20)
            }
            8 | 10 => self.rich(r, ver, kind, id),
            9 | 11 => {
                let i = 1 + r.below(6) as u32;
                self.rich(r, ver, kind, i)
            }
            12 => APkt::Pingreq,
            13 => APkt::Pingresp,
            _ => self.rich(r, ver, kind, 0),
        };
        (ver, p)
    }

    fn auth(&self, r: &mut Rng) -> APkt {
        APkt::Auth {
            rc: Some(*r.pick(&[0, 0x18, 0x19])),
            props: Some(vec![Prop::new(0x15, PV::Str("m".into()))]),
        }
    }

    /// a packet of the kind with any valid content of modest size (half the time the smallest one)
    fn rich(&self, r: &mut Rng, ver: Ver, kind: u8, id: u32) -> APkt {
        let mut p = match kind {
            8 => APkt::Subscribe { pid: id, props: vec![], entries: vec![("f/#".into(), 1)] },
            9 => APkt::Suback { pid: id, props: vec![], codes: vec![*r.pick(&gen::rc_table(ver, 9))] },
            10 => APkt::Unsubscribe { pid: id, props: vec![], entries: vec!["f/#".into()] },
            11 => APkt::Unsuback {
                pid: id,
                props: vec![],
                codes: if ver == Ver::V5 { vec![*r.pick(&gen::rc_table(ver, 11))] } else { vec![] },
            },
            14 => APkt::Disconnect { rc: None, props: None },
            _ => self.auth(r),
        };
        if r.bool() {
            for _ in 0..4 {
                let mut q = gen::packet(r, ver, kind, 2);
                match &mut q {
                    APkt::Subscribe { pid, .. }
                    | APkt::Suback { pid, .. }
                    | APkt::Unsubscribe { pid, .. }
                    | APkt::Unsuback { pid, .. } => *pid = id,
                    _ => {}
                }
                if encode(&q, ver, 4).len() < 120 {
                    p = q;
                    break;
                }
            }
        }
        p
    }

    /// a DISCONNECT the peer may send
    fn bye(&self, r: &mut Rng, ver: Ver, from_server: bool) -> APkt {
        let mut p = self.rich(r, ver, 14, 0);
        if let APkt::Disconnect { rc, props } = &mut p {
            if from_server && rc.is_none() {
                *rc = Some(0x8b);
            }
            if !from_server {
                if let Some(ps) = props {
                    ps.retain(|x| x.id != 0x1c);
                }
            }
        }
        p
    }

    fn send(&self, r: &mut Rng, ver: Ver, p: APkt) -> Op {
        match r.below(8) {
            0..=3 => Op::Send(ver, p),
            4 => Op::GenericSend(ver, p),
            _ => Op::CheckedSend(ver, p),
        }
    }

    // ---------------------------------------------------------------- what the peer sends

    pub fn bad_bytes(&self, r: &mut Rng, m: &Model, w: usize) -> Vec<u8> {
        if m.ver.is_none() && r.p(1, 2) {
            // a first CONNECT of another protocol level, or too short to have one
            let v = if r.bool() { Ver::V5 } else { Ver::V311 };
            let mut b = encode(&gen::packet(r, v, 1, w), v, w);
            if let Ok(Some((_, body, _))) = frame(&b) {
                if body.len() < 400 {
                    let mut body = body.to_vec();
                    if r.p(2, 3) {
                        let near = if v == Ver::V5 { 5 } else { 4 };
                        body[6] = match r.below(5) {
                            0 => near ^ (1 << r.below(8)) as u8,
                            1 => near | 0x80,
                            2 => *r.pick(&[0, 1, 2, 3, 6, 7, 0x83, 0xff]),
                            3 => r.next() as u8,
                            _ => 3,
                        };
                    } else {
                        body.truncate(r.us(12));
                    }
                    b = vec![0x10];
                    b.extend(vbi(body.len() as u32));
                    b.extend(body);
                    return b;
                }
            }
        }
        let ver = m.ver.unwrap_or(Ver::V5);
        match r.below(8) {
            0 => {
                let mut v = vec![r.next() as u8, 0xff, 0xff, 0xff, 0x80 | r.next() as u8];
                if r.bool() {
                    let n = r.us(4);
                    v.extend(r.bytes(n));
                }
                v
            }
            1 => {
                let n = 1 + r.us(12);
                r.bytes(n)
            }
            2 => {
                // non-canonical length field, then a body
                let k = r.us(10);
                let mut v = vec![(r.below(16) << 4) as u8 | r.below(16) as u8];
                let mut l = k;
                let pad = 1 + r.us(3);
                for _ in 0..pad {
                    v.push((l & 0x7f) as u8 | 0x80);
                    l >>= 7;
                }
                v.push(0);
                v.extend(r.bytes(k));
                v
            }
            _ => {
                // a valid frame, damaged
                let kinds: Vec<u8> = if r.p(3, 4) {
                    if m.is_client { vec![2, 3, 4, 5, 6, 7, 9, 11, 13, 14] } else { vec![3, 4, 5, 6, 7, 8, 10, 12, 14] }
                } else {
                    (1..=15).collect()
                };
                let mut k = *r.pick(&kinds);
                if ver == Ver::V311 && k == 15 {
                    k = 3;
                }
                let p = loop {
                    let p = gen::packet(r, ver, k, w);
                    let mut x = encode(&p, ver, w);
                    if x.len() < 600 {
                        x.truncate(600);
                        break x;
                    }
                };
                let (h, mut body) = match frame(&p) {
                    Ok(Some((h, b, _))) => (h, b.to_vec()),
                    _ => unreachable!(),
                };
                let mut h = h;
                for _ in 0..1 + r.us(2) {
                    match r.below(6) {
                        0 if !body.is_empty() => {
                            let i = r.us(body.len());
                            body[i] = r.next() as u8;
                        }
                        1 => {
                            let n = r.us(body.len() + 1);
                            body.truncate(n);
                        }
                        2 => body.push(r.next() as u8),
                        3 => h = (h & 0xf0) | r.below(16) as u8,
                        4 if !body.is_empty() => {
                            let i = r.us(body.len());
                            body.remove(i);
                        }
                        _ if !body.is_empty() => {
                            let i = r.us(body.len());
                            body[i] ^= 1 << r.below(8);
                        }
                        _ => {}
                    }
                }
                let mut v = vec![h];
                v.extend(vbi(body.len() as u32));
                v.extend(body);
                v
            }
        }
    }

    /// bytes of a packet the peer sends on an open connection
    pub fn peer(&mut self, r: &mut Rng, m: &Model, w: usize) -> Vec<u8> {
        let p = self.phase();
        let ver = match m.ver {
            Some(v) => v,
            None => return self.bad_bytes(r, m, w),
        };
        let client = m.is_client; // the peer is a server then
        let infl = pick_ids(m, |o| o != Own::App && o != Own::Rel);
        let have = !infl.is_empty();
        match r.weighted(&[
            p.w_peer_pub,
            if have { p.w_peer_ack } else { 0 },
            p.w_peer_badack,
            p.w_peer_misc,
            p.w_peer_illegal,
            p.w_peer_bad,
            if m.qos2.is_empty() { 2 } else { p.w_peer_pub / 2 },
        ]) {
            0 => {
                let qos = *r.pick(&[0u8, 1, 1, 2, 2, 2]);
                let pid = if qos > 0 {
                    let q: Vec<u32> = m.qos2.iter().copied().collect();
                    Some(if qos == 2 && !q.is_empty() && r.p(1, 4) {
                        *r.pick(&q)
                    } else if r.p(1, 30) {
                        m.max_id
                    } else {
                        1 + r.below(self.span as u64) as u32
                    })
                } else {
                    None
                };
                let mut q = self.publish(r, ver, qos, pid, m.in_max);
                q.dup = qos > 0 && r.p(1, 4);
                if self.wide && r.p(self.prof.tam, 300) && q.topic.len() < 2000 {
                    // one binding more
                    let next = 1 + m.in_tab.len().min(420) as u16;
                    if next <= m.in_max {
                        q.props.retain(|x| x.id != 0x23);
                        q.props.push(Prop::new(0x23, PV::U16(next)));
                        if q.topic.is_empty() {
                            q.topic = r.pick(&self.topics).clone();
                        }
                    }
                }
                if self.wide && r.p(299, 300) {
                    // mostly nothing that ends the connection
                    for _ in 0..8 {
                        let a = alias_of(&q);
                        let bad = match a {
                            Some(a) => a > m.in_max || (q.topic.is_empty() && !m.in_tab.contains_key(&a)),
                            None => false,
                        };
                        let big = encode(&APkt::Publish(q.clone()), ver, w).len() > m.max_recv as usize;
                        let full = m.v5() && q.qos > 0 && m.inb.len() >= m.m_recv.unwrap_or(65535) as usize;
                        if !bad && !big && !full {
                            break;
                        }
                        let (qos, pid) = if full { (0, None) } else { (q.qos, q.pid) };
                        q = self.publish(r, ver, qos, pid, m.in_max);
                        if big {
                            q.payload.clear();
                        }
                    }
                }
                let (qos, pid) = (q.qos, q.pid);
                let _ = pid;
                if m.max_recv < 70_000 && r.p(1, if self.wide { 150 } else { 8 }) {
                    // around the limit
                    let b = encode(&APkt::Publish(q.clone()), ver, w).len();
                    let want = (m.max_recv as i64 + r.below(4) as i64 - 2).max(0) as usize;
                    if want > b {
                        let n = q.payload.len() + want - b;
                        q.payload = r.bytes(n);
                    }
                }
                if qos > 0 {
                    self.todo.push((if qos == 1 { 4 } else { 5 }, q.pid.unwrap()));
                }
                encode(&APkt::Publish(q), ver, w)
            }
            1 => {
                let i = *r.pick(&infl);
                let a = match m.ids[&i] {
                    Own::Pub1 => self.ack(r, ver, 4, i, 20),
                    Own::Pub2 => self.ack(r, ver, 5, i, 25),
                    Own::Comp => self.ack(r, ver, 7, i, 10),
                    Own::Sub => self.rich(r, ver, 9, i),
                    _ => self.rich(r, ver, 11, i),
                };
                encode(&a, ver, w)
            }
            2 => {
                let k = *r.pick(&[4u8, 5, 7, 9, 11]);
                let i = if r.p(2, 3) && !m.ids.is_empty() {
                    let v: Vec<u32> = m.ids.keys().copied().collect();
                    *r.pick(&v)
                } else {
                    1 + r.below(9) as u32
                };
                let a = match k {
                    9 | 11 => self.rich(r, ver, k, i),
                    _ => self.ack(r, ver, k, i, 20),
                };
                encode(&a, ver, w)
            }
            3 => {
                let a = match r.below(6) {
                    0 | 1 => {
                        if client {
                            APkt::Pingresp
                        } else {
                            APkt::Pingreq
                        }
                    }
                    2 if ver == Ver::V5 => self.auth(r),
                    3 if ver == Ver::V5 && r.p(1, if self.wide { 80 } else { 4 }) => {
                        self.bye(r, ver, client)
                    }
                    3 if !client && r.p(1, if self.wide { 80 } else { 4 }) => APkt::Disconnect { rc: None, props: None },
                    _ if !client => {
                        let k = if r.bool() { 8 } else { 10 };
                        let i = 1 + r.below(9) as u32;
                        self.rich(r, ver, k, i)
                    }
                    _ => APkt::Pingresp,
                };
                encode(&a, ver, w)
            }
            4 => {
                let kinds: Vec<u8> = if m.role == Role::A {
                    if m.st == St::Conned { vec![1, 2] } else { vec![3] }
                } else if client {
                    vec![1, 8, 10, 12, 14, 15, 2, 0]
                } else {
                    vec![2, 9, 11, 13, 15, 1, 0]
                };
                let mut k = *r.pick(&kinds);
                // CONNECT and CONNACK out of place only while the connection is open
                if (k == 1 || k == 2) && m.st == St::Disc || k == 2 && m.st == St::Conning && client {
                    k = 12;
                }
                if k == 0 || (k == 15 && ver == Ver::V311) {
                    let n = r.us(4);
                    let mut v = vec![k << 4, n as u8];
                    v.extend(r.bytes(n));
                    return v;
                }
                if k == 15 || (k == 14 && ver == Ver::V5) {
                    k = 12;
                }
                let p = loop {
                    let p = if k == 1 { self.connect(r, ver) } else if k == 2 { self.connack(r, ver, m, true) } else { gen::packet(r, ver, k, w) };
                    let b = encode(&p, ver, w);
                    if b.len() < 400 {
                        break b;
                    }
                };
                p
            }
            5 => self.bad_bytes(r, m, w),
            _ => {
                let q: Vec<u32> = m.qos2.iter().copied().collect();
                let i = if q.is_empty() || r.p(1, 10) { 1 + r.below(9) as u32 } else { *r.pick(&q) };
                self.todo.push((7, i));
                encode(&self.ack(r, ver, 6, i, 10), ver, w)
            }
        }
    }

    fn feed(&mut self, r: &mut Rng) -> Op {
        let n = if r.p(self.prof.split, 100) { 1 + r.us(self.wire.len()) } else { self.wire.len() };
        let rest = self.wire.split_off(n);
        let b = std::mem::replace(&mut self.wire, rest);
        Op::Recv(b)
    }

    // ---------------------------------------------------------------- the next operation

    pub fn option(&self, r: &mut Rng, m: &Model) -> Op {
        match r.below(8) {
            0 => Op::SetAutoPub(r.p(self.prof.auto_pub, 100)),
            1 => Op::SetAutoPing(r.p(3, 4)),
            2 => Op::SetAutoMap(r.p(self.prof.auto_alias, 100)),
            3 => Op::SetAutoReplace(r.p(self.prof.auto_alias, 100)),
            4 => Op::SetInterval(*r.pick(&[None, Some(0), Some(1), Some(1500), Some(u64::MAX)])),
            5 => Op::SetRespTimeout(*r.pick(&[0, 1, 700, u64::MAX])),
            6 if m.st == St::Disc && !m.dead || m.persistent => Op::SetOffline(r.p(1, 3)),
            6 => Op::SetOffline(false),
            _ => {
                let q = self.publish(r, Ver::V5, 1, Some(1), m.out_max.max(1));
                Op::Regulate(APkt::Publish(q))
            }
        }
    }

    pub fn next<P: Mk>(&mut self, r: &mut Rng, m: &Model) -> Op {
        let p = self.phase();
        // deliver what is on the wire
        if !self.wire.is_empty() && r.p(2, 3) {
            return self.feed(r);
        }
        if m.dead && r.p(1, 2) {
            self.wire.clear();
            self.todo.clear();
            return Op::Closed;
        }
        let ver = m.ver.unwrap_or(Ver::V5);
        match m.st {
            St::Disc if !m.dead => {
                if self.conns > 0 || r.p(2, 3) {
                    match r.below(20) {
                        0..=9 => {}
                        10 | 11 => return self.option(r, m),
                        12 | 13 => {
                            // publish while not connected
                            return match self.some_id(r, m) {
                                Some(i) => {
                                    let q = {
                                        let qos = 1 + r.below(2) as u8;
                                        self.publish(r, ver, qos, Some(i), 0)
                                    };
                                    self.send(r, ver, APkt::Publish(q))
                                }
                                None => self.get_id(r, m),
                            };
                        }
                        14 => return self.get_id(r, m),
                        15 => {
                            let v = pick_ids(m, |o| o == Own::Rel);
                            if !v.is_empty() {
                                let i = *r.pick(&v);
                                let a = self.ack(r, ver, 6, i, 5);
                                return self.send(r, ver, a);
                            }
                            if !m.store.is_empty() {
                                let (i, _) = r.pick(&m.store).clone();
                                return Op::Erase(i);
                            }
                        }
                        16 if !self.polite => {
                            let (v, q) = self.any_packet(r, m);
                            if q.kind() != 1 || m.role == Role::S {
                                return self.send(r, v, q);
                            }
                        }
                        17 => return Op::Release(r.pick(&[0, 1, 2, 3, 77, m.max_id]).to_owned()).limit(m),
                        _ => {}
                    }
                }
                // open a connection
                self.wire.clear();
                self.todo.clear();
                self.conns += 1;
                self.as_client = match m.role {
                    Role::C => true,
                    Role::S => false,
                    Role::A => r.bool() && m.ver.is_some(),
                };
                if self.as_client {
                    let c = self.connect(r, ver);
                    return self.send(r, ver, c);
                }
                let v = m.ver.unwrap_or(if r.p(p.v5, 100) { Ver::V5 } else { Ver::V311 });
                if m.ver.is_none() && r.p(1, 6) {
                    // not a usable CONNECT
                    let mut b = encode(&self.connect(r, v), v, P::W);
                    match r.below(4) {
                        0 => b[8] = *r.pick(&[0, 3, 6, 0x84, 255]),
                        1 => b = encode(&APkt::Pingreq, v, P::W),
                        2 => b = self.bad_bytes(r, m, P::W),
                        _ => {
                            let q = self.publish(r, v, 0, None, 0);
                            b = encode(&APkt::Publish(q), v, P::W);
                        }
                    }
                    self.wire = b;
                    return self.feed(r);
                }
                if r.p(1, 25) {
                    // damaged CONNECT
                    let mut b = encode(&self.connect(r, v), v, P::W);
                    let i = r.us(b.len());
                    if i > 8 {
                        b[i] ^= 1 << r.below(8);
                    }
                    self.wire = b;
                    return self.feed(r);
                }
                self.wire = encode(&self.connect(r, v), v, P::W);
                self.feed(r)
            }
            St::Conning if !m.dead => {
                match r.below(20) {
                    0..=11 => {}
                    12 => return self.option(r, m),
                    13 | 14 => {
                        return match self.some_id(r, m) {
                            Some(i) => {
                                let q = {
                                    let qos = 1 + r.below(2) as u8;
                                    self.publish(r, ver, qos, Some(i), m.out_max)
                                };
                                self.send(r, ver, APkt::Publish(q))
                            }
                            None => self.get_id(r, m),
                        };
                    }
                    15 if !self.polite => {
                        let (v, q) = self.any_packet(r, m);
                        // a client-side Any object does not send CONNACK
                        if q.kind() != 2 {
                            return self.send(r, v, q);
                        }
                    }
                    16 if ver == Ver::V5 => {
                        let a = self.auth(r);
                        if r.bool() {
                            return self.send(r, ver, a);
                        }
                        self.wire.extend(encode(&a, ver, P::W));
                        return self.feed(r);
                    }
                    17 if r.p(p.w_closed as u64, 40) => {
                        self.wire.clear();
                        return Op::Closed;
                    }
                    18 if r.p((p.w_peer_bad + p.w_peer_illegal) as u64, 40) => {
                        let b = self.peer(r, m, P::W);
                        self.wire.extend(b);
                        return self.feed(r);
                    }
                    _ => {}
                }
                if !self.wire.is_empty() {
                    return self.feed(r);
                }
                if !m.fr.buf.is_empty() {
                    // a frame that will never be completed
                    return Op::Closed;
                }
                if m.is_client {
                    let a = self.connack(r, ver, m, true);
                    self.wire = encode(&a, ver, P::W);
                    if r.p(1, 25) {
                        let i = r.us(self.wire.len());
                        self.wire[i] ^= 1 << r.below(8);
                    }
                    self.feed(r)
                } else {
                    let a = self.connack(r, ver, m, false);
                    if encode(&a, ver, P::W).len() > m.max_send as usize && m.max_send < 8 {
                        return Op::Closed;
                    }
                    let a = if r.p(1, 3) {
                        match a {
                            APkt::Connack { sp, code, .. } => APkt::Connack { sp, code, props: vec![] },
                            x => x,
                        }
                    } else {
                        a
                    };
                    self.send(r, ver, a)
                }
            }
            _ => self.open::<P>(r, m, &p, ver),
        }
    }

    fn open<P: Mk>(&mut self, r: &mut Rng, m: &Model, p: &Prof, ver: Ver) -> Op {
        let w = r.weighted(&[
            p.w_pub,
            p.w_ack,
            p.w_sub,
            p.w_ping,
            p.w_bye,
            if self.polite { 0 } else { p.w_illegal },
            p.w_id,
            p.w_opt,
            p.w_peer_pub + p.w_peer_ack + p.w_peer_badack + p.w_peer_misc + p.w_peer_illegal + p.w_peer_bad,
            p.w_timer,
            p.w_closed,
        ]);
        match w {
            0 => {
                let qos = *r.pick(&[0u8, 1, 1, 2, 2]);
                if qos > 0 && !self.polite && m.st == St::Conned && m.persistent && !m.store.is_empty() && r.p(1, 25) {
                    // under the identifier of a stored packet
                    let i = r.pick(&m.store).0;
                    let q = APkt::Publish(APublish {
                        dup: false,
                        qos,
                        retain: false,
                        topic: "dup".into(),
                        pid: Some(i),
                        props: vec![],
                        payload: vec![],
                    });
                    if encode(&q, ver, P::W).len() <= m.max_send as usize
                        && m.infl.union(&m.infl_opt).count() < m.m_send.unwrap_or(65535) as usize
                    {
                        return self.send(r, ver, q);
                    }
                }
                if qos == 0 {
                    let q = self.publish(r, ver, 0, None, m.out_max);
                    return self.send(r, ver, APkt::Publish(q));
                }
                match self.some_id(r, m) {
                    None => self.get_id(r, m),
                    Some(i) => {
                        let mut q = self.publish(r, ver, qos, Some(i), m.out_max);
                        if self.wide && q.topic.is_empty() && r.p(9, 10) {
                            // a bound alias
                            if let Some(a) = alias_of(&q) {
                                if !m.out_tab.contains_key(&a) {
                                    q.topic = r.pick(&self.topics).clone();
                                }
                            }
                        }
                        if m.max_send < 70_000 && r.p(1, 4) {
                            let b = encode(&APkt::Publish(q.clone()), ver, P::W).len();
                            let want = (m.max_send as i64 + r.below(9) as i64 - 6).max(0) as usize;
                            if want > b {
                                let n = q.payload.len() + want - b;
                                q.payload = r.bytes(n);
                            }
                        }
                        self.send(r, ver, APkt::Publish(q))
                    }
                }
            }
            1 => {
                // answers of the application
                let rels = pick_ids(m, |o| o == Own::Rel);
                if !rels.is_empty() && r.bool() {
                    let i = *r.pick(&rels);
                    let a = self.ack(r, ver, 6, i, 5);
                    return self.send(r, ver, a);
                }
                if self.todo.is_empty() {
                    let b = self.peer(r, m, P::W);
                    self.wire.extend(b);
                    return self.feed(r);
                }
                let k = r.us(self.todo.len());
                let (kind, id) = self.todo.remove(k);
                let a = self.ack(r, ver, kind, id, 30);
                self.send(r, ver, a)
            }
            2 => {
                if m.role != Role::S && (m.is_client || m.role == Role::A) {
                    match self.some_id(r, m) {
                        None => self.get_id(r, m),
                        Some(i) => {
                            let k = if r.bool() { 8 } else { 10 };
                            let a = self.rich(r, ver, k, i);
                            self.send(r, ver, a)
                        }
                    }
                } else {
                    let id = 1 + r.below(6) as u32;
                    let k = if r.bool() { 9 } else { 11 };
                    let a = self.rich(r, ver, k, id);
                    self.send(r, ver, a)
                }
            }
            3 => {
                let a = if m.role == Role::C || (m.role == Role::A && r.bool()) { APkt::Pingreq } else { APkt::Pingresp };
                self.send(r, ver, a)
            }
            4 => {
                if m.role == Role::S && ver == Ver::V311 {
                    return Op::Closed;
                }
                let a = self.rich(r, ver, 14, 0);
                self.send(r, ver, a)
            }
            5 => {
                let (v, q) = self.any_packet(r, m);
                if q.kind() == 14 && r.p(3, 4) {
                    return Op::Release(0);
                }
                if q.kind() == 2 && m.is_client && m.st == St::Conning {
                    return Op::Closed;
                }
                // after an own DISCONNECT the next step is to close
                if m.st == St::Disc && q.kind() == 1 {
                    return Op::Closed;
                }
                self.send(r, v, q)
            }
            6 => match r.below(10) {
                0..=4 => self.get_id(r, m),
                5..=6 => {
                    let mut v = pick_ids(m, |o| o == Own::App);
                    if v.is_empty() || r.p(1, 6) {
                        v = pick_ids(m, |o| matches!(o, Own::Sub | Own::Unsub));
                        if v.is_empty() || r.p(1, 3) {
                            v = pick_ids(m, |_| true);
                        }
                    }
                    if v.is_empty() { Op::Release(0) } else { Op::Release(*r.pick(&v)).limit(m) }
                }
                7 => Op::Release(self.small_free(r, m)),
                8 => {
                    let v: Vec<u32> = m.ids.keys().copied().collect();
                    if v.is_empty() { Op::Register(0) } else { Op::Register(*r.pick(&v)) }
                }
                _ => {
                    let v: Vec<u32> = m.store.iter().map(|(i, _)| *i).collect();
                    if !v.is_empty() && r.bool() {
                        Op::Erase(*r.pick(&v))
                    } else {
                        Op::Erase(r.below(10) as u32)
                    }
                }
            },
            7 => self.option(r, m),
            8 => {
                for _ in 0..1 + (r.below(4) / 3) * 2 {
                    let b = self.peer(r, m, P::W);
                    self.wire.extend(b);
                }
                self.feed(r)
            }
            9 => {
                let v: Vec<TK> = TKS.iter().copied().filter(|k| m.armed[*k as usize]).collect();
                if v.is_empty() {
                    return self.option(r, m);
                }
                // the PINGREQ timer fires most
                if m.armed[0] && r.p(1, 2) {
                    return Op::Timer(TK::Send);
                }
                Op::Timer(*r.pick(&v))
            }
            _ => {
                self.wire.clear();
                self.todo.clear();
                Op::Closed
            }
        }
    }

    /// a session exported by an earlier process
    pub fn export(&self, r: &mut Rng, ver: Ver, max_id: u32) -> (Vec<(Ver, APkt)>, BTreeSet<u32>) {
        let mut v = vec![];
        let n = r.us(6);
        for _ in 0..n {
            let id = if r.p(1, 20) { max_id } else { 1 + r.below(9) as u32 };
            let a = match r.below(5) {
                0..=3 => {
                    let mut q = {
                        // a QoS 0 entry is to be skipped
                        let qos = if r.p(1, 12) { 0 } else { 1 + r.below(2) as u8 };
                        self.publish(r, ver, qos, if qos == 0 { None } else { Some(id) }, 0)
                    };
                    q.props.retain(|p| p.id != 0x23);
                    if q.topic.is_empty() {
                        q.topic = "z".into();
                    }
                    q.dup = q.qos > 0;
                    APkt::Publish(q)
                }
                _ => self.ack(r, ver, 6, id, 0),
            };
            v.push((ver, a));
        }
        let q = (0..r.us(4)).map(|_| 1 + r.below(8) as u32).collect();
        (v, q)
    }
}

impl Op {
    /// identifiers of stored packets are not released by the application (it erases the packet)
    fn limit(self, m: &Model) -> Op {
        match self {
            Op::Release(i) if !may_release(m, i) => Op::Release(0),
            o => o,
        }
    }
}

pub fn options(r: &mut Rng, g: &G) -> Vec<Op> {
    let p = &g.prof;
    let mut v = vec![
        Op::SetAutoPub(r.p(p.auto_pub, 100)),
        Op::SetAutoPing(r.bool()),
        Op::SetAutoMap(r.p(p.auto_alias, 100)),
        Op::SetAutoReplace(r.p(p.auto_alias, 150)),
    ];
    if r.p(1, 4) {
        v.push(Op::SetInterval(*r.pick(&[Some(0), Some(5), Some(1234), Some(1 << 33)])));
    }
    if r.p(p.ka, 120) {
        v.push(Op::SetRespTimeout(*r.pick(&[1, 300])));
    }
    if r.p(1, 6) {
        v.push(Op::SetOffline(true));
    }
    v
}

pub fn setup<P: Mk>(r: &mut Rng, pf: &Prof) -> (G, Run<P>) {
    let g = G::new(r, pf.clone());
    let role = *r.pick(&[Role::C, Role::C, Role::S, Role::S, Role::A]);
    let ver = if r.p(pf.v5, 100) { Ver::V5 } else { Ver::V311 };
    let ver = if role != Role::C && r.p(pf.undetermined, 100) { None } else { Some(ver) };
    (g, Run::new(role, ver))
}

/// Option settings made so far (last one of each kind).
pub fn settings(log: &[(Op, Out)]) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    for (o, _) in log {
        if matches!(
            o,
            Op::SetInterval(_)
                | Op::SetRespTimeout(_)
                | Op::SetOffline(_)
                | Op::SetAutoPub(_)
                | Op::SetAutoPing(_)
                | Op::SetAutoMap(_)
                | Op::SetAutoReplace(_)
        ) {
            v.retain(|x| std::mem::discriminant(x) != std::mem::discriminant(o));
            v.push(o.clone());
        }
    }
    v
}

/// `n` monitored operations; the result identifies the history by its events.
pub fn history<P: Mk>(
    r: &mut Rng,
    g: &mut G,
    run: &mut Run<P>,
    n: u64,
    st: &mut Stats,
) -> Result<u64, (u32, Viol)> {
    let mut sig = 0u64;
    for _ in 0..n {
        let op = g.next::<P>(r, &run.m);
        sig = step(run, op, sig, st)?;
        if run.m.lost {
            break;
        }
    }
    Ok(sig)
}

pub fn step<P: Mk>(run: &mut Run<P>, op: Op, mut sig: u64, st: &mut Stats) -> Result<u64, (u32, Viol)> {
    let label = match &op {
        Op::Recv(_) => "op recv",
        Op::Send(..) | Op::CheckedSend(..) | Op::GenericSend(..) => "op send",
        Op::Timer(_) => "op timer fired",
        Op::Closed => "op notify_closed",
        Op::Acquire | Op::Register(_) | Op::Release(_) | Op::Erase(_) => "op identifier management",
        Op::RestorePackets(_) | Op::RestoreQos2(_) => "op restore",
        _ => "op option",
    };
    st.hit(label);
    let before = run.m.st;
    let (kinds, n) = {
        let out = run.exec(op)?;
        let mut h = 0u64;
        let mut n = 0;
        for e in out.all() {
            n += 1;
            h = h.wrapping_mul(31).wrapping_add(match e {
                Ev::Recv { p, .. } => 1 + p.kind() as u64,
                Ev::Send { p, .. } => 33 + p.kind() as u64,
                Ev::Released(_) => 65,
                Ev::TimerReset(k, _) => 66 + *k as u64,
                Ev::TimerCancel(k) => 70 + *k as u64,
                Ev::Error(_) => 75,
                Ev::Close => 76,
            });
        }
        (h, n)
    };
    st.add("events observed", n);
    for k in std::mem::take(&mut run.m.cov) {
        st.hit(k);
        sig = sig.wrapping_mul(1099511628211).wrapping_add(k.len() as u64 ^ k.as_bytes()[k.len() / 2] as u64);
    }
    Ok(sig.wrapping_mul(1099511628211).wrapping_add(kinds ^ (before as u64) << 60))
}

/// A monitored life of a connection object up to an arbitrary point.
pub fn lived<P: Mk>(r: &mut Rng, pf: &Prof, st: &mut Stats) -> Result<(G, Run<P>, u64), (u32, Viol)> {
    let (mut g, mut run) = setup::<P>(r, pf);
    let mut steps = pf.steps;
    if r.p(1, WIDE) {
        g.widen(r, P::MAX);
        steps = g.prof.steps;
        run.every = 40;
        st.hit("lives with large populations");
    }
    for o in options(r, &g) {
        if r.p(4, 5) {
            run.exec(o)?;
        }
    }
    // a session of an earlier process
    let mut late = None;
    if r.p(pf.persist, 400) {
        if let Some(v) = run.m.ver {
            let (a, b) = g.export(r, v, P::MAX);
            if run.m.role == Role::S || r.p(1, 3) {
                late = Some((a, b));
            } else {
                run.exec(Op::RestorePackets(a))?;
                run.exec(Op::RestoreQos2(b))?;
            }
        }
    }
    let mut n = r.range(steps.0 as u64, steps.1 as u64);
    let mut sig = 0;
    if let Some((a, b)) = late {
        // right after the first CONNECT, as a server does
        while n > 0 && run.m.st == St::Disc && !run.m.lost {
            n -= 1;
            sig ^= history(r, &mut g, &mut run, 1, st)?;
        }
        if run.m.st == St::Conning && run.m.ids.is_empty() && !run.m.is_client {
            run.exec(Op::RestorePackets(a))?;
            run.exec(Op::RestoreQos2(b))?;
        }
    }
    sig ^= history(r, &mut g, &mut run, n, st)?;
    Ok((g, run, sig))
}

/// One monitored life of a connection object. Err carries the properties broken.
pub fn life<P: Mk>(r: &mut Rng, pf: &Prof, st: &mut Stats) -> Result<(), (u32, Viol)> {
    let (mut g, mut run, sig) = lived::<P>(r, pf, st)?;
    if g.wide {
        run.every = 1;
        const NAMES: [(&str, &str, &str); 6] = [
            ("identifiers in use: 20 and more", "identifiers in use: 100 and more", "identifiers in use: 256 and more"),
            ("stored packets: 20 and more", "stored packets: 100 and more", "stored packets: 256 and more"),
            ("in flight outbound: 20 and more", "in flight outbound: 100 and more", "in flight outbound: 256 and more"),
            ("in flight inbound: 20 and more", "in flight inbound: 100 and more", "in flight inbound: 256 and more"),
            ("bound aliases (out): 20 and more", "bound aliases (out): 100 and more", "bound aliases (out): 256 and more"),
            ("bound aliases (in): 20 and more", "bound aliases (in): 100 and more", "bound aliases (in): 256 and more"),
        ];
        for (n, (a, b, c)) in run.peak.iter().zip(NAMES) {
            match n {
                256.. => st.hit(c),
                100.. => st.hit(b),
                20.. => st.hit(a),
                _ => {}
            }
        }
    }
    reopen(r, &mut g, &mut run, st)?;
    st.nontrivial(&sig);
    if !g.wide {
        st.sample(2, || fmt_log(run.o.role, run.ver0, P::W, &run.log).join(" / "));
    }
    Ok(())
}

/// Whatever happened: after the close is reported, the object accepts a new connection.
fn reopen<P: Mk>(r: &mut Rng, g: &mut G, run: &mut Run<P>, st: &mut Stats) -> Result<(), (u32, Viol)> {
    if run.m.ver.is_none() && run.m.role == Role::C {
        return Ok(());
    }
    g.wire.clear();
    run.exec(Op::Closed)?;
    let v = run.m.ver.or(run.o.version()).unwrap_or(Ver::V5);
    let mut con = g.connect(r, v);
    if let APkt::Connect(c) = &mut con {
        c.props.retain(|p| p.id != 0x27);
    }
    let ack = APkt::Connack { sp: false, code: 0, props: vec![] };
    let good = if run.m.role == Role::C || (run.m.role == Role::A && run.o.version().is_some() && r.bool()) {
        let a = run.exec(Op::Send(v, con))?.has_send(1);
        let b = run.exec(Op::Recv(encode(&ack, v, P::W)))?.has_recv(2);
        a && b
    } else {
        let a = run.exec(Op::Recv(encode(&con, v, P::W)))?.has_recv(1);
        let b = run.exec(Op::Send(v, ack))?.has_send(2);
        a && b
    };
    if !good {
        let v = run.viol("wedged", "the object does not accept a new connection".into(), &Op::Closed);
        return Err((C05 | C10, v));
    }
    st.hit("new connection accepted at the end");
    Ok(())
}

/// Keep only violations of the property under check.
pub fn only(id: u32, st: &mut Stats, x: Result<(), (u32, Viol)>) -> Result<(), Viol> {
    match x {
        Ok(()) => Ok(()),
        Err((t, v)) if t & (1 << id) != 0 => Err(v),
        Err((t, v)) => {
            st.hit("histories ended by a divergence that concerns other properties");
            if let Ok(n) = std::env::var("VH_VERBOSE") {
                let n = n.parse::<usize>().unwrap_or(0).max(30);
                eprintln!("foreign (tags {t:x}): {}", v.what);
                for l in v.trace.iter().rev().take(n).rev() {
                    eprintln!("   | {l}");
                }
            }
            Ok(())
        }
    }
}

pub fn monitored(ctx: &mut Ctx, id: u32, n: u64) {
    let pf = prof(id);
    ctx.cases("focus", n, move |r, _, st| {
        let x = if r.p(5, 6) { life::<u16>(r, &pf, st) } else { life::<u32>(r, &pf, st) };
        only(id, st, x)
    });
    let pf = prof(0);
    ctx.cases("mixed", n / 3, move |r, _, st| {
        let x = if r.p(5, 6) { life::<u16>(r, &pf, st) } else { life::<u32>(r, &pf, st) };
        only(id, st, x)
    });
}
