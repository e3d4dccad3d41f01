//! Reference monitor of one connection object: an online checker that observes every operation made
//! on the real object and every event it returns, keeps its own account of the protocol state
//! (written from the MQTT specifications and the API documentation) and reports each divergence
//! with the properties it breaks.
use crate::adapt::*;
use crate::conn::*;
use crate::refcodec::*;
use crate::report::lib;
use std::collections::{BTreeMap, BTreeSet};

pub const fn c(n: u32) -> u32 {
    1 << n
}
pub const C05: u32 = c(5);
pub const C06: u32 = c(6);
pub const C07: u32 = c(7);
pub const C08: u32 = c(8);
pub const C09: u32 = c(9);
pub const C10: u32 = c(10);
pub const C11: u32 = c(11);
pub const C12: u32 = c(12);
pub const C13: u32 = c(13);
pub const C14: u32 = c(14);
pub const C15: u32 = c(15);
pub const C16: u32 = c(16);
pub const C17: u32 = c(17);
pub const C19: u32 = c(19);

#[derive(Clone, Debug)]
pub struct V {
    pub tags: u32,
    pub what: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Disc,
    Conning,
    Conned,
}

/// What an identifier in use is in use for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Own {
    App,
    Pub1,
    Pub2,
    Rel,
    Comp,
    Sub,
    Unsub,
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub auto_pub: bool,
    pub auto_ping: bool,
    pub map: bool,
    pub replace: bool,
    pub offline: bool,
    pub iv: Option<u64>,
    pub resp_to: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tri {
    Yes,
    No,
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum TE {
    Same,
    Re(u64),
    Off,
    /// nothing, or armed with this duration
    Maybe(u64),
    /// nothing, or cancelled
    MaybeOff,
    Any,
}

enum SK {
    Exact(APkt, Option<Option<u32>>),
    Pub { want: APublish, topic: String, explicit: bool, rel: Option<u32> },
    Resp { kind: u8, pid: u32, ok: Option<bool> },
    Disc(Option<u8>),
    FailConnack,
}
struct SE {
    k: SK,
    tags: u32,
    opt: bool,
}

struct Exp {
    sends: Vec<SE>,
    /// packet, topic was filled in
    recv: Option<(APkt, bool)>,
    recv_tags: u32,
    norecv_tags: u32,
    rel: BTreeMap<u32, u32>,
    rel_opt: BTreeSet<u32>,
    err: Tri,
    err_tags: u32,
    err_kind: Option<(&'static str, u32)>,
    close: Tri,
    close_tags: u32,
    tm: [TE; 3],
    base: u32,
}

impl Exp {
    fn new(base: u32) -> Exp {
        Exp {
            sends: vec![],
            recv: None,
            recv_tags: 0,
            norecv_tags: 0,
            rel: BTreeMap::new(),
            rel_opt: BTreeSet::new(),
            err: Tri::No,
            err_tags: 0,
            err_kind: None,
            close: Tri::No,
            close_tags: 0,
            tm: [TE::Same; 3],
            base,
        }
    }
    fn send(&mut self, k: SK, tags: u32) {
        self.sends.push(SE { k, tags, opt: false });
    }
    fn send_opt(&mut self, k: SK, tags: u32) {
        self.sends.push(SE { k, tags, opt: true });
    }
    fn error(&mut self, tags: u32) {
        self.err = Tri::Yes;
        self.err_tags |= tags;
    }
}

#[derive(Clone)]
pub struct Model {
    pub role: Role,
    pub ver: Option<Ver>,
    pub w: usize,
    pub max_id: u32,
    pub opts: Opts,
    pub st: St,
    pub is_client: bool,
    pub persistent: bool,
    pub ids: BTreeMap<u32, Own>,
    pub store: Vec<(u32, APkt)>,
    pub infl: BTreeSet<u32>,
    pub infl_opt: BTreeSet<u32>,
    pub m_send: Option<u16>,
    pub m_recv: Option<u16>,
    pub inb: BTreeSet<u32>,
    pub qos2: BTreeSet<u32>,
    pub out_tab: BTreeMap<u16, String>,
    pub out_max: u16,
    pub lru_a: Vec<u16>,
    pub lru_b: Vec<u16>,
    pub in_tab: BTreeMap<u16, String>,
    pub in_max: u16,
    pub max_send: u32,
    pub max_recv: u32,
    pub ka: u64,
    pub ska: Option<u64>,
    pub rt: u64,
    pub armed: [bool; 3],
    /// transport to be closed by the application (close requested, or refused by the peer)
    pub dead: bool,
    /// a CONNACK was delivered/sent on this connection
    pub fr: Framer,
    pub cov: Vec<&'static str>,
    /// a handshake began on a transport that should have been closed: no longer judged
    pub lost: bool,
    /// the frame just received must not have determined the version
    undet: bool,
}

pub const NOLIM: u32 = 268_435_461;

fn size_of(p: &APkt, ver: Ver, w: usize) -> u32 {
    encode(p, ver, w).len() as u32
}

pub fn no_alias(p: &APublish) -> APublish {
    let mut q = p.clone();
    q.props.retain(|x| x.id != 0x23);
    q
}

pub fn alias_of(p: &APublish) -> Option<u16> {
    p.props.iter().find(|x| x.id == 0x23).and_then(|x| match x.v {
        PV::U16(a) => Some(a),
        _ => None,
    })
}

impl Model {
    pub fn new(role: Role, ver: Option<Ver>, w: usize) -> Model {
        Model {
            role,
            ver,
            w,
            max_id: if w == 2 { 65535 } else { u32::MAX },
            opts: Opts::default(),
            st: St::Disc,
            is_client: false,
            persistent: false,
            ids: BTreeMap::new(),
            store: vec![],
            infl: BTreeSet::new(),
            infl_opt: BTreeSet::new(),
            m_send: None,
            m_recv: None,
            inb: BTreeSet::new(),
            qos2: BTreeSet::new(),
            out_tab: BTreeMap::new(),
            out_max: 0,
            lru_a: vec![],
            lru_b: vec![],
            in_tab: BTreeMap::new(),
            in_max: 0,
            max_send: NOLIM,
            max_recv: NOLIM,
            ka: 0,
            ska: None,
            rt: 0,
            armed: [false; 3],
            dead: false,
            fr: Framer::default(),
            cov: vec![],
            lost: false,
            undet: false,
        }
    }

    pub fn v5(&self) -> bool {
        self.ver == Some(Ver::V5)
    }
    fn cv(&mut self, s: &'static str) {
        self.cov.push(s);
    }

    fn initialize(&mut self, client: bool) {
        self.m_send = None;
        self.m_recv = None;
        self.out_tab.clear();
        self.out_max = 0;
        self.lru_a.clear();
        self.lru_b.clear();
        self.in_tab.clear();
        self.in_max = 0;
        self.inb.clear();
        self.infl.clear();
        self.infl_opt.clear();
        self.persistent = self.opts.offline;
        self.is_client = client;
        self.ka = 0;
        self.ska = None;
        self.rt = 0;
    }

    fn clear_all(&mut self) {
        self.ids.clear();
        self.store.clear();
        self.qos2.clear();
        self.infl.clear();
        self.infl_opt.clear();
    }

    pub fn interval(&self) -> u64 {
        self.opts.iv.or(self.ska).unwrap_or(self.ka)
    }

    fn rearm(&self, e: &mut Exp) {
        if !self.is_client {
            return;
        }
        let iv = self.interval();
        if iv > 0 {
            e.tm[0] = match self.st {
                St::Conned => TE::Re(iv),
                _ => TE::Maybe(iv),
            };
        } else {
            e.tm[0] = TE::Same;
        }
    }

    fn refresh(&self, e: &mut Exp) {
        if self.rt > 0 && self.st != St::Disc {
            e.tm[1] = TE::Re(self.rt);
        }
    }

    fn off_all(e: &mut Exp) {
        e.tm = [TE::Off; 3];
    }

    fn erase_store(&mut self, id: u32) {
        self.store.retain(|(i, _)| *i != id);
    }

    fn complete(&mut self, id: u32, e: &mut Exp, tags: u32) {
        self.ids.remove(&id);
        self.erase_store(id);
        self.infl.remove(&id);
        self.infl_opt.remove(&id);
        e.rel.insert(id, C08 | tags);
    }

    /// Everything still stored goes out again.
    fn resend(&mut self, e: &mut Exp) -> bool {
        let mut any = false;
        let ver = self.ver.unwrap();
        let st = std::mem::take(&mut self.store);
        for (id, p) in st {
            if ver == Ver::V5 && size_of(&p, ver, self.w) > self.max_send {
                self.ids.remove(&id);
                e.rel.insert(id, C08 | C14);
                self.cv("resume: oversize stored packet dropped");
                continue;
            }
            self.infl.insert(id);
            if matches!(p, APkt::Publish(_)) {
                self.cv("resume: stored PUBLISH retransmitted");
            } else {
                self.cv("resume: stored PUBREL retransmitted");
            }
            e.send(SK::Exact(p.clone(), Some(None)), C06 | C16 | C13);
            self.store.push((id, p));
            any = true;
        }
        for (id, o) in &self.ids {
            if *o == Own::Rel {
                self.infl_opt.insert(*id);
            }
        }
        any
    }

    /// Error answer to a received packet: v3.1.1 closes, v5.0 sends DISCONNECT when connected.
    fn proto_err(&mut self, e: &mut Exp, rc: Option<u8>, tags: u32, strict: bool) {
        e.error(tags | C05);
        if self.v5() {
            if self.st == St::Conned {
                // DISCONNECT may have to be left out when it does not fit
                let fits = 4 <= self.max_send;
                if !fits && self.max_send >= 2 {
                    // a shorter form could fit
                    e.send_opt(SK::Disc(rc), tags);
                } else if fits {
                    if strict {
                        e.send(SK::Disc(rc), tags);
                    } else {
                        e.send_opt(SK::Disc(None), tags);
                    }
                }
                if strict {
                    e.close = Tri::Yes;
                    e.close_tags |= C19 | tags;
                    Self::off_all(e);
                    self.st = St::Disc;
                    self.dead = true;
                } else {
                    e.close = Tri::Any;
                    e.tm = [TE::Any; 3];
                }
            } else {
                e.close = Tri::Any;
                e.tm = [TE::MaybeOff; 3];
            }
        } else {
            e.close = if strict { Tri::Yes } else { Tri::Any };
            e.close_tags |= tags;
            e.tm = [TE::MaybeOff; 3];
            if strict {
                self.dead = true;
            }
        }
    }

    // ------------------------------------------------------------------ operations

    /// Observe one operation. The violations are empty as long as the object agrees.
    pub fn step<P: Pid>(&mut self, op: &Op, out: &Out, ver_after: Option<Ver>) -> Vec<V> {
        self.cov.clear();
        self.undet = false;
        let mut vs = vec![];
        if self.lost {
            return vs;
        }
        let empty: Vec<Ev> = vec![];
        let call = out.calls.first().unwrap_or(&empty);
        match op {
            Op::Recv(b) => {
                let mut pos = 0;
                for (i, call) in out.calls.iter().enumerate() {
                    // the bytes this call has to consume
                    let (k, fr) = self.fr.next(&b[pos..]);
                    if out.consumed[i] != k {
                        vs.push(V {
                            tags: C09 | C05,
                            what: format!(
                                "recv consumed {} bytes where the frame ends after {k}",
                                out.consumed[i]
                            ),
                        });
                        return vs;
                    }
                    pos += k;
                    let e = match fr {
                        None => {
                            self.cv("recv: incomplete frame");
                            Exp::new(C09)
                        }
                        Some(Err(_)) => {
                            self.cv("recv: Remaining Length longer than four bytes");
                            let mut e = Exp::new(C09 | C05);
                            e.error(C09 | C05);
                            e.close = Tri::Any;
                            e.sends.push(SE { k: SK::Disc(None), tags: C09, opt: true });
                            e.tm = [TE::Any; 3];
                            if call.iter().any(|x| *x == Ev::Close) {
                                self.dead = true;
                            }
                            e
                        }
                        Some(Ok((h, body, tot))) => {
                            self.on_frame::<P>(h, &body, tot, call, out.vers[i])
                        }
                    };
                    if self.lost {
                        self.cv("recv: handshake on a transport that is to be closed (judging ends)");
                        return vec![];
                    }
                    vs.extend(self.judge(call, e));
                    if !vs.is_empty() {
                        return vs;
                    }
                }
                if pos != b.len() {
                    vs.push(V { tags: C09, what: "recv left bytes unconsumed".into() });
                }
            }
            Op::CheckedSend(ver, p) if out.ret == Ret::Compiles(false) => {
                self.cv("checked_send does not compile");
                if self.role_sends(p.kind(), *ver) {
                    vs.push(V {
                        tags: C11,
                        what: format!("{:?} {} cannot be passed to checked_send in role {:?}", ver, short(p), self.role),
                    });
                }
            }
            Op::Send(ver, p) | Op::CheckedSend(ver, p) | Op::GenericSend(ver, p) => {
                if out.ret == Ret::Compiles(true) && !self.role_sends(p.kind(), *ver) {
                    vs.push(V {
                        tags: C11,
                        what: format!("{:?} {} can be passed to checked_send in role {:?}", ver, short(p), self.role),
                    });
                }
                let e = self.on_send(*ver, p, call);
                vs.extend(self.judge(call, e));
            }
            Op::Timer(k) => {
                self.armed[*k as usize] = false;
                let e = self.on_timer(*k);
                vs.extend(self.judge(call, e));
            }
            Op::Closed => {
                let e = self.on_closed();
                vs.extend(self.judge(call, e));
            }
            Op::SetInterval(d) => {
                let mut e = Exp::new(C15);
                self.opts.iv = *d;
                let iv = self.interval();
                match d {
                    Some(0) => e.tm[0] = if self.st == St::Conned && self.is_client { TE::Off } else { TE::MaybeOff },
                    _ if self.st == St::Disc || !self.is_client => {}
                    _ if iv == 0 => e.tm[0] = TE::MaybeOff,
                    _ => e.tm[0] = TE::Maybe(iv),
                }
                vs.extend(self.judge(call, e));
            }
            Op::SetRespTimeout(d) => self.opts.resp_to = *d,
            Op::SetOffline(b) => {
                self.opts.offline = *b;
                if *b {
                    self.persistent = true;
                }
            }
            Op::SetAutoPub(b) => self.opts.auto_pub = *b,
            Op::SetAutoPing(b) => self.opts.auto_ping = *b,
            Op::SetAutoMap(b) => self.opts.map = *b,
            Op::SetAutoReplace(b) => self.opts.replace = *b,
            Op::Acquire => match out.ret {
                Ret::Id(Some(i)) => {
                    if i == 0 || i > self.max_id || self.ids.contains_key(&i) {
                        vs.push(V {
                            tags: C08 | C16 | C10,
                            what: format!(
                                "acquire handed out identifier {i} which is {}",
                                if i == 0 { "not a valid identifier".into() } else { format!("in use ({:?})", self.ids.get(&i)) }
                            ),
                        });
                    } else {
                        self.ids.insert(i, Own::App);
                    }
                }
                _ => {
                    if (self.ids.len() as u64) < self.max_id as u64 {
                        vs.push(V {
                            tags: C08,
                            what: format!("acquire failed although only {} identifiers are in use", self.ids.len()),
                        });
                    } else {
                        self.cv("ids: exhaustion reported");
                    }
                }
            },
            Op::Register(i) => {
                let free = *i != 0 && *i <= self.max_id && !self.ids.contains_key(i);
                match out.ret {
                    Ret::Ok(ok) if ok == free => {
                        if ok {
                            self.ids.insert(*i, Own::App);
                        } else {
                            self.cv("ids: registration of an identifier in use (or 0) refused");
                        }
                    }
                    _ => vs.push(V {
                        tags: C08 | C06 | C16,
                        what: format!(
                            "register_packet_id({i}) -> {:?} although the identifier is {}",
                            out.ret,
                            match self.ids.get(i) {
                                Some(o) => format!("in use ({o:?})"),
                                None => "free".to_string(),
                            }
                        ),
                    }),
                }
            }
            Op::Release(i) => {
                let mut e = Exp::new(C08);
                if let Some(o) = self.ids.remove(i) {
                    e.rel.insert(*i, C08);
                    if o != Own::App {
                        // the application gave up the exchange
                        self.infl.remove(i);
                        self.infl_opt.remove(i);
                        self.cv("ids: identifier of an unfinished exchange released by the application");
                    }
                }
                vs.extend(self.judge(call, e));
            }
            Op::Erase(i) => {
                let mut e = Exp::new(C06 | C08);
                if self.store.iter().any(|(k, p)| k == i && matches!(p, APkt::Publish(_))) {
                    self.complete(*i, &mut e, C06);
                    self.cv("erase_stored_publish removed a packet");
                }
                vs.extend(self.judge(call, e));
            }
            Op::RestorePackets(v) => {
                for (_, p) in v {
                    let (id, own) = match p {
                        APkt::Publish(q) if q.qos == 1 => (q.pid.unwrap(), Own::Pub1),
                        APkt::Publish(q) if q.qos == 2 => (q.pid.unwrap(), Own::Pub2),
                        APkt::Ack { pid, .. } => (*pid, Own::Comp),
                        _ => continue,
                    };
                    if self.ids.contains_key(&id) {
                        continue;
                    }
                    self.ids.insert(id, own);
                    self.store.push((id, p.clone()));
                    self.persistent = true;
                }
            }
            Op::RestoreQos2(s) => {
                self.qos2 = s.clone();
                self.persistent |= !s.is_empty();
            }
            Op::Regulate(p) => {
                let APkt::Publish(q) = p else { unreachable!() };
                let want = if !q.topic.is_empty() {
                    Some(no_alias(q))
                } else {
                    alias_of(q).and_then(|a| self.out_tab.get(&a)).map(|t| {
                        let mut n = no_alias(q);
                        n.topic = t.clone();
                        n
                    })
                };
                match (&out.ret, &want) {
                    (Ret::Regulated(Some(g)), Some(wn)) if *g == APkt::Publish(wn.clone()) => {}
                    (Ret::Regulated(None), None) => {}
                    (Ret::Regulated(g), _) => vs.push(V {
                        tags: C13,
                        what: format!("regulate_for_store gave {g:?}, expected {want:?}"),
                    }),
                    _ => unreachable!(),
                }
            }
        }
        if self.ver.is_none() {
            if self.undet && ver_after.is_some() {
                vs.push(V {
                    tags: C17,
                    what: format!("version {ver_after:?} adopted from a packet that is not a CONNECT of level 4 or 5"),
                });
            }
            self.ver = ver_after;
        } else if ver_after != self.ver {
            vs.push(V { tags: C17 | C10, what: format!("protocol version changed to {ver_after:?}") });
        }
        vs
    }

    /// whether MQTT lets this role send a packet kind
    pub fn role_sends(&self, kind: u8, ver: Ver) -> bool {
        match kind {
            1 | 8 | 10 | 12 => self.role != Role::S,
            2 | 9 | 11 | 13 => self.role != Role::C,
            14 if ver == Ver::V311 => self.role != Role::S,
            _ => true,
        }
    }

    fn on_send(&mut self, ver: Ver, p: &APkt, call: &[Ev]) -> Exp {
        let kind = p.kind();
        let mut e = Exp::new(C11);
        let role_ok = self.role_sends(kind, ver);
        let qos = if let APkt::Publish(q) = p { q.qos } else { 0 };
        let storable = self.persistent || self.opts.offline;
        let state_ok = match kind {
            1 => self.st == St::Disc,
            2 => self.st == St::Conning,
            15 => self.st != St::Disc,
            3 if qos > 0 => self.st == St::Conned || storable,
            6 => self.st == St::Conned || self.persistent,
            _ => self.st == St::Conned,
        };
        let ver_ok = self.ver == Some(ver);
        let refused = call.iter().any(|x| matches!(x, Ev::Error(_)));
        // why the packet must not be accepted
        let mut never = 0u32;
        let mut either = false;
        if !ver_ok || !role_ok || !state_ok {
            never |= C11;
            if !ver_ok {
                self.cv("send refused: version");
            } else if !role_ok {
                self.cv("send refused: role");
            } else {
                self.cv("send refused: connection state");
            }
        }
        if ver == Ver::V5 && ver_ok && size_of(p, ver, self.w) > self.max_send {
            never |= C14 | C11;
            self.cv("send refused: larger than the peer's Maximum Packet Size");
        }
        let own_id = match p {
            APkt::Publish(q) => q.pid,
            APkt::Subscribe { pid, .. } | APkt::Unsubscribe { pid, .. } => Some(*pid),
            _ => None,
        };
        if let Some(i) = own_id.or(if kind == 6 { p.pid() } else { None }) {
            if !self.ids.contains_key(&i) {
                never |= C08 | C11;
                self.cv("send refused: identifier not in use");
            }
        }
        let mut topic = String::new();
        if let APkt::Publish(q) = p {
            topic = q.topic.clone();
            if ver == Ver::V5 && never == 0 {
                if qos > 0 {
                    if let Some(m) = self.m_send {
                        if self.st == St::Conned {
                            if self.infl.len() >= m as usize {
                                never |= C12 | C11;
                                self.cv("send refused: Receive Maximum");
                            } else if self.infl.len() + self.infl_opt.len() >= m as usize {
                                either = true;
                            }
                        } else {
                            either = true;
                        }
                    }
                }
                let al = alias_of(q);
                if self.st == St::Conned {
                    if let Some(a) = al {
                        if a == 0 || a > self.out_max {
                            never |= C13 | C11;
                            self.cv("send refused: alias out of range");
                        } else if q.topic.is_empty() {
                            match self.out_tab.get(&a) {
                                Some(t) => topic = t.clone(),
                                None => {
                                    never |= C13 | C11;
                                    self.cv("send refused: alias not bound");
                                }
                            }
                        }
                    } else if q.topic.is_empty() {
                        never |= C13 | C11;
                    }
                } else if al.is_some() || q.topic.is_empty() {
                    either = true;
                    if let (true, Some(t)) = (q.topic.is_empty(), al.and_then(|a| self.out_tab.get(&a))) {
                        topic = t.clone();
                    }
                }
            }
        }
        // an identifier under which a packet of the session is stored: refused, or something is lost
        if let (APkt::Publish(_), Some(i), 0, true) = (p, own_id, never, self.persistent) {
            if self.store.iter().any(|(x, _)| *x == i) {
                never |= C06 | C08 | C11;
                self.cv("send refused: identifier of a stored packet");
            }
        }
        // PUBREL of an exchange whose PUBREL is stored already: a duplicate, refused
        if kind == 6 && never == 0 {
            let i = p.pid().unwrap();
            match self.ids.get(&i) {
                Some(Own::Rel) => {}
                _ => either = true,
            }
        }
        let accepted = if never != 0 {
            false
        } else if either {
            !refused
        } else {
            true
        };
        if !accepted {
            // only an error event, and the identifier of the refused packet is released
            e.error(if never != 0 { never } else { C11 });
            e.base = C11 | never;
            if let Some(i) = own_id {
                if self.ids.get(&i) == Some(&Own::App) {
                    self.ids.remove(&i);
                    e.rel.insert(i, C08 | C11);
                    self.cv("send refused: identifier released");
                }
            } else if kind == 6 {
                // nothing
            }
            return e;
        }
        // a refusal although nothing forbids the packet
        e.err_tags = C11
            | call
                .iter()
                .map(|x| match x {
                    Ev::Error(k) if k.contains("ReceiveMaximum") => C12,
                    Ev::Error(k) if k.contains("TooLarge") => C14,
                    Ev::Error(k) if k.contains("Identifier") => C08,
                    Ev::Error(_) if matches!(p, APkt::Publish(q) if alias_of(q).is_some()) => C13,
                    _ => 0,
                })
                .fold(0, |a, b| a | b)
            | if kind == 3 && qos > 0 { C06 } else { 0 };
        self.cv(match kind {
            1 => "sent: CONNECT",
            2 => "sent: CONNACK",
            3 => match (qos, self.st == St::Conned) {
                (0, _) => "sent: PUBLISH QoS 0",
                (1, true) => "sent: PUBLISH QoS 1",
                (_, true) => "sent: PUBLISH QoS 2",
                _ => "stored while not connected: PUBLISH",
            },
            4 => "sent: PUBACK",
            5 => "sent: PUBREC",
            6 => "sent: PUBREL",
            7 => "sent: PUBCOMP",
            8 => "sent: SUBSCRIBE",
            9 => "sent: SUBACK",
            10 => "sent: UNSUBSCRIBE",
            11 => "sent: UNSUBACK",
            12 => "sent: PINGREQ",
            13 => "sent: PINGRESP",
            14 => "sent: DISCONNECT",
            _ => "sent: AUTH",
        });
        let exact = |e: &mut Exp, tags| e.send(SK::Exact(p.clone(), Some(None)), tags);
        match p {
            APkt::Connect(k) => {
                self.initialize(true);
                self.dead = false;
                self.ka = k.keep_alive as u64 * 1000;
                if k.clean {
                    self.clear_all();
                }
                if ver == Ver::V311 {
                    if !k.clean {
                        self.persistent = true;
                    }
                } else {
                    if let Some(x) = p.prop_u16(0x22) {
                        self.in_max = x;
                    }
                    self.m_recv = p.prop_u16(0x21);
                    self.max_recv = p.prop_u32(0x27).unwrap_or(NOLIM);
                    if p.prop_u32(0x11).unwrap_or(0) != 0 {
                        self.persistent = true;
                    }
                }
                self.st = St::Conning;
                exact(&mut e, C11);
                self.rearm(&mut e);
            }
            APkt::Connack { sp, code, .. } => {
                exact(&mut e, C11);
                if *code != 0 {
                    self.st = St::Disc;
                    self.dead = true;
                    e.close = Tri::Yes;
                    e.close_tags |= C19;
                    Self::off_all(&mut e);
                } else {
                    if ver == Ver::V5 {
                        if let Some(x) = p.prop_u16(0x22) {
                            if x != 0 {
                                self.in_max = x;
                            }
                        }
                        if let Some(x) = p.prop_u16(0x21) {
                            self.m_recv = Some(x);
                        }
                        if let Some(x) = p.prop_u32(0x27) {
                            self.max_recv = x;
                        }
                        if let Some(x) = p.prop_u16(0x13) {
                            self.rt = x as u64 * 1500;
                            e.tm[1] = if x == 0 { TE::Off } else { TE::Maybe(self.rt) };
                        }
                        if let Some(x) = p.prop_u32(0x11) {
                            self.persistent = x != 0 || self.opts.offline;
                        }
                    }
                    self.st = St::Conned;
                    if *sp {
                        self.resend(&mut e);
                    } else {
                        self.clear_all();
                    }
                    if self.is_client {
                        self.rearm(&mut e);
                    }
                }
            }
            APkt::Publish(q) => {
                let conned = self.st == St::Conned;
                let mut rel = None;
                if let Some(i) = q.pid {
                    self.ids.insert(i, if q.qos == 1 { Own::Pub1 } else { Own::Pub2 });
                    if self.persistent || !conned {
                        let mut s = if ver == Ver::V5 { no_alias(q) } else { q.clone() };
                        s.topic = topic.clone();
                        s.dup = true;
                        self.store.push((i, APkt::Publish(s)));
                    } else {
                        rel = Some(i);
                    }
                }
                if conned {
                    if let Some(i) = q.pid {
                        self.infl.insert(i);
                    }
                    let explicit = alias_of(q).is_some();
                    e.send(
                        SK::Pub { want: q.clone(), topic, explicit, rel },
                        C11 | if q.qos > 0 { C06 } else { 0 } | if explicit { C13 } else { 0 },
                    );
                    self.rearm(&mut e);
                }
            }
            APkt::Ack { kind, pid, .. } => {
                match kind {
                    4 | 7 => {
                        self.inb.remove(pid);
                    }
                    5 if p.rc() >= 0x80 => {
                        self.inb.remove(pid);
                        self.qos2.remove(pid);
                        self.cv("PUBREC with an error code sent");
                    }
                    6 => {
                        let before = self.ids.insert(*pid, Own::Comp);
                        self.infl_opt.remove(pid);
                        if self.persistent {
                            self.erase_store(*pid);
                            self.store.push((*pid, p.clone()));
                        }
                        if self.st == St::Conned {
                            self.infl.insert(*pid);
                        }
                        let _ = before;
                    }
                    _ => {}
                }
                if self.st == St::Conned {
                    exact(&mut e, C11 | if *kind == 6 { C06 } else { C07 });
                    self.rearm(&mut e);
                }
            }
            APkt::Subscribe { pid, .. } | APkt::Unsubscribe { pid, .. } => {
                self.ids.insert(*pid, if kind == 8 { Own::Sub } else { Own::Unsub });
                e.send(SK::Exact(p.clone(), Some(Some(*pid))), C11);
                self.rearm(&mut e);
            }
            APkt::Pingreq => {
                exact(&mut e, C11 | C15);
                self.rearm(&mut e);
                if self.opts.resp_to > 0 {
                    e.tm[2] = TE::Re(self.opts.resp_to);
                }
            }
            APkt::Disconnect { .. } => {
                exact(&mut e, C11);
                self.st = St::Disc;
                self.dead = true;
                e.close = Tri::Yes;
                e.close_tags |= C19;
                Self::off_all(&mut e);
            }
            _ => {
                exact(&mut e, C11);
                self.rearm(&mut e);
            }
        }
        e
    }

    fn on_timer(&mut self, k: TK) -> Exp {
        let mut e = Exp::new(C15);
        match k {
            TK::Send => {
                if self.st == St::Conned {
                    if self.max_send >= 2 || !self.v5() {
                        e.send(SK::Exact(APkt::Pingreq, Some(None)), C15);
                        self.rearm(&mut e);
                        if self.opts.resp_to > 0 {
                            e.tm[2] = TE::Re(self.opts.resp_to);
                        }
                        self.cv("timer: PINGREQ sent on expiry");
                    } else {
                        e.err = Tri::Any;
                    }
                }
            }
            _ => {
                if self.st != St::Conned {
                    e.close = Tri::Any;
                    e.err = Tri::Any;
                    return e;
                }
                self.cv(if k == TK::Recv { "timer: keep alive expired" } else { "timer: PINGRESP did not come" });
                e.close = Tri::Yes;
                e.close_tags = C15 | C19;
                self.dead = true;
                if self.v5() {
                    if self.max_send >= 4 {
                        e.send(SK::Disc(Some(0x8d)), C15);
                    } else {
                        e.send_opt(SK::Disc(Some(0x8d)), C15);
                        e.err = Tri::Any;
                    }
                    Self::off_all(&mut e);
                    self.st = St::Disc;
                } else {
                    e.tm = [TE::MaybeOff; 3];
                }
            }
        }
        e
    }

    fn on_closed(&mut self) -> Exp {
        let mut e = Exp::new(C08 | C10);
        Self::off_all(&mut e);
        let ids: Vec<(u32, Own)> = self.ids.iter().map(|(a, b)| (*a, *b)).collect();
        for (i, o) in ids {
            let gone = match o {
                Own::Sub | Own::Unsub => true,
                Own::App => false,
                _ => !self.persistent,
            };
            if gone {
                self.ids.remove(&i);
                e.rel.insert(i, C08 | C10);
                self.cv(if matches!(o, Own::Sub | Own::Unsub) {
                    "close: pending subscribe/unsubscribe identifier released"
                } else {
                    "close: identifier of a non-persistent exchange released"
                });
            }
        }
        if !self.persistent {
            self.store.clear();
            self.qos2.clear();
        } else if !self.store.is_empty() {
            self.cv("close: session kept with stored packets");
        }
        if !self.fr.buf.is_empty() {
            self.cv("close: in the middle of a frame");
        }
        self.st = St::Disc;
        self.dead = false;
        self.is_client = false;
        self.m_send = None;
        self.m_recv = None;
        self.inb.clear();
        self.infl.clear();
        self.infl_opt.clear();
        self.out_tab.clear();
        self.out_max = 0;
        self.lru_a.clear();
        self.lru_b.clear();
        self.in_tab.clear();
        self.in_max = 0;
        self.max_send = NOLIM;
        self.max_recv = NOLIM;
        self.ka = 0;
        self.ska = None;
        self.rt = 0;
        self.fr.buf.clear();
        e
    }

    fn can_receive(&self, kind: u8) -> bool {
        let v3 = self.ver == Some(Ver::V311);
        match kind {
            0 => false,
            15 if v3 => false,
            14 if v3 => self.role != Role::C,
            1 | 8 | 10 | 12 => self.role != Role::C,
            2 | 9 | 11 | 13 => self.role != Role::S,
            _ => true,
        }
    }

    fn on_frame<P: Pid>(
        &mut self,
        h: u8,
        body: &[u8],
        tot: usize,
        call: &[Ev],
        ver_after: Option<Ver>,
    ) -> Exp {
        let kind = h >> 4;
        let delivered = call.iter().any(|x| matches!(x, Ev::Recv { .. }));
        if tot as u64 > self.max_recv as u64 && 1 + vbi(body.len() as u32).len() + body.len() <= self.max_recv as usize {
            // larger only because its length field is not minimal
            self.lost = true;
            return Exp::new(C14);
        }
        if tot as u64 > self.max_recv as u64 {
            self.cv("recv: larger than the local Maximum Packet Size");
            let mut e = Exp::new(C14);
            e.norecv_tags = C14;
            if self.st == St::Conned {
                self.proto_err(&mut e, Some(0x95), C14, true);
            } else {
                e.error(C05 | C14);
                e.close = Tri::Any;
                e.tm = [TE::MaybeOff; 3];
            }
            return e;
        }
        if !self.can_receive(kind) {
            self.cv("recv: kind the remote role never sends");
            let mut e = Exp::new(C17 | C05);
            e.norecv_tags = C17;
            e.recv_tags = C17;
            let sent_disc = call.iter().any(|x| matches!(x, Ev::Send { p: APkt::Disconnect { .. }, .. }));
            self.proto_err(&mut e, None, C17, sent_disc && self.st == St::Conned && self.v5());
            if self.ver.is_some() && kind != 0 && kind != 15 {
                e.err_kind = Some(("ProtocolError", C17));
            }
            return e;
        }
        if self.ver.is_none() {
            let lvl = if body.len() > 6 && body[..6] == [0, 4, b'M', b'Q', b'T', b'T'] { body[6] } else { 0 };
            if kind != 1 {
                self.cv("recv: first packet of an undetermined server is not CONNECT");
                self.undet = true;
                let mut e = Exp::new(C17);
                e.norecv_tags = C17;
                e.error(C17 | C05);
                e.close = Tri::Any;
                return e;
            }
            // what is adopted when the CONNECT is malformed is not judged
            let named = body.len() > 6 && body[..6] == [0, 4, b'M', b'Q', b'T', b'T'];
            self.ver = match lvl {
                4 => Some(Ver::V311),
                5 => Some(Ver::V5),
                _ if named || body.len() < 7 => None,
                _ => ver_after,
            };
            match self.ver {
                None => {
                    self.cv(if named {
                        "recv: unsupported protocol level rejected"
                    } else {
                        "recv: CONNECT without protocol level rejected"
                    });
                    self.undet = named || body.len() < 7;
                    let mut e = Exp::new(C17);
                    e.norecv_tags = C17;
                    e.error(C17 | C05);
                    e.close = Tri::Any;
                    return e;
                }
                Some(Ver::V311) => self.cv("version detected: 3.1.1"),
                Some(Ver::V5) => self.cv("version detected: 5.0"),
            }
        }
        let ver = self.ver.unwrap();
        let flags = h & 15;
        let parsed: Option<APkt> = match lib(|| parse::<P>(kind, flags, body, ver)) {
            Ok(Ok((p, _))) => Some(view(&p).1),
            _ => None,
        };
        match kind {
            1 => return self.recv_connect(parsed),
            2 => return self.recv_connack(parsed),
            _ => {}
        }
        let mut e = Exp::new(C05);
        let Some(p) = parsed else {
            self.cv("recv: malformed packet");
            e.norecv_tags = C05;
            if kind == 3 && ver == Ver::V5 && self.st != St::Conned {
                e.error(C05);
                e.close = Tri::Any;
                e.tm = [TE::MaybeOff; 3];
            } else {
                self.proto_err(&mut e, None, C05, true);
            }
            return e;
        };
        // a packet that comes in while no connection is open may also be rejected
        if self.st == St::Disc && !delivered && call.iter().any(|x| matches!(x, Ev::Error(_))) {
            let known = match (&p, kind) {
                (APkt::Ack { pid, .. }, 4) => self.ids.get(pid) == Some(&Own::Pub1),
                (APkt::Ack { pid, .. }, 5) => self.ids.get(pid) == Some(&Own::Pub2),
                (APkt::Ack { pid, .. }, 7) => self.ids.get(pid) == Some(&Own::Comp),
                (APkt::Suback { pid, .. }, _) => self.ids.get(pid) == Some(&Own::Sub),
                (APkt::Unsuback { pid, .. }, _) => self.ids.get(pid) == Some(&Own::Unsub),
                _ => false,
            };
            if !known && kind != 3 {
                e.err = Tri::Any;
                e.close = Tri::Any;
                return e;
            }
        }
        e.recv_tags = C05;
        let ok = |e: &mut Exp, p: &APkt| e.recv = Some((p.clone(), false));
        match &p {
            APkt::Publish(q) => return self.recv_publish(q),
            APkt::Ack { kind, pid, .. } => {
                let own = self.ids.get(pid).copied();
                e.base = C06;
                e.recv_tags = C06 | C05;
                match kind {
                    4 => {
                        if own == Some(Own::Pub1) {
                            self.cv("recv: PUBACK completes an exchange");
                            self.complete(*pid, &mut e, C06);
                            ok(&mut e, &p);
                            self.refresh(&mut e);
                        } else {
                            self.cv("recv: PUBACK matching nothing");
                            self.bad_ack(&mut e);
                        }
                    }
                    5 => {
                        if own == Some(Own::Pub2) {
                            self.erase_store(*pid);
                            if ver == Ver::V5 && p.rc() >= 0x80 {
                                self.cv("recv: PUBREC with an error code");
                                self.complete(*pid, &mut e, C06);
                            } else {
                                self.cv("recv: PUBREC");
                                self.ids.insert(*pid, Own::Rel);
                                if self.opts.auto_pub && (self.st == St::Conned || self.persistent) {
                                    let rel = APkt::Ack { kind: 6, pid: *pid, rc: None, props: None };
                                    if ver == Ver::V5 && size_of(&rel, ver, self.w) > self.max_send {
                                        self.cv("automatic response larger than the peer accepts");
                                        e.err = Tri::Yes;
                                        e.err_tags = C14;
                                    } else {
                                        self.ids.insert(*pid, Own::Comp);
                                        if self.persistent {
                                            self.store.push((*pid, rel));
                                        }
                                        if self.st == St::Conned {
                                            e.send(SK::Resp { kind: 6, pid: *pid, ok: Some(true) }, C06);
                                            self.rearm(&mut e);
                                        }
                                    }
                                }
                            }
                            ok(&mut e, &p);
                            self.refresh(&mut e);
                        } else {
                            self.cv("recv: PUBREC matching nothing");
                            self.bad_ack(&mut e);
                        }
                    }
                    7 => {
                        if own == Some(Own::Comp) {
                            self.cv("recv: PUBCOMP completes an exchange");
                            self.complete(*pid, &mut e, C06);
                            ok(&mut e, &p);
                            self.refresh(&mut e);
                        } else {
                            self.cv("recv: PUBCOMP matching nothing");
                            self.bad_ack(&mut e);
                        }
                    }
                    _ => {
                        e.base = C07;
                        e.recv_tags = C07 | C05;
                        let known = self.qos2.remove(pid);
                        self.cv(if known { "recv: PUBREL" } else { "recv: PUBREL of an unknown identifier" });
                        if self.opts.auto_pub && self.st == St::Conned {
                            let mut comp = APkt::Ack { kind: 7, pid: *pid, rc: None, props: None };
                            if ver == Ver::V5 && !known {
                                comp = APkt::Ack { kind: 7, pid: *pid, rc: Some(0x92), props: None };
                            }
                            if ver == Ver::V5 && size_of(&comp, ver, self.w) > self.max_send {
                                self.cv("automatic response larger than the peer accepts");
                                e.err = Tri::Yes;
                                e.err_tags = C14;
                            } else {
                                self.inb.remove(pid);
                                let okk = if ver == Ver::V5 { Some(known) } else { None };
                                e.send(SK::Resp { kind: 7, pid: *pid, ok: okk }, C07);
                                self.rearm(&mut e);
                            }
                        }
                        ok(&mut e, &p);
                        self.refresh(&mut e);
                    }
                }
            }
            APkt::Suback { pid, .. } | APkt::Unsuback { pid, .. } => {
                let want = if kind == 9 { Own::Sub } else { Own::Unsub };
                e.recv_tags = C05 | C08;
                if self.ids.get(pid) == Some(&want) {
                    self.cv("recv: SUBACK/UNSUBACK");
                    self.ids.remove(pid);
                    e.rel.insert(*pid, C08);
                    ok(&mut e, &p);
                    self.refresh(&mut e);
                } else {
                    self.cv("recv: SUBACK/UNSUBACK matching nothing");
                    e.norecv_tags = C08 | C05;
                    self.proto_err(&mut e, None, C05, true);
                }
            }
            APkt::Pingreq => {
                self.cv("recv: PINGREQ");
                if self.opts.auto_ping && !self.is_client && self.st == St::Conned {
                    if ver == Ver::V5 && self.max_send < 2 {
                        e.err = Tri::Any;
                    } else {
                        e.send(SK::Exact(APkt::Pingresp, Some(None)), C15);
                    }
                }
                ok(&mut e, &p);
                self.refresh(&mut e);
            }
            APkt::Pingresp => {
                self.cv("recv: PINGRESP");
                e.tm[2] = TE::Off;
                ok(&mut e, &p);
            }
            APkt::Disconnect { .. } => {
                self.cv("recv: DISCONNECT");
                e.tm = [TE::Any; 3];
                self.dead = true;
                ok(&mut e, &p);
            }
            _ => {
                self.cv("recv: SUBSCRIBE/UNSUBSCRIBE/AUTH");
                ok(&mut e, &p);
                self.refresh(&mut e);
            }
        }
        e
    }

    fn bad_ack(&mut self, e: &mut Exp) {
        e.norecv_tags = C06 | C08;
        self.proto_err(e, Some(0x82), C06, true);
        e.err_kind = Some(("ProtocolError", C06));
    }

    fn recv_connect(&mut self, parsed: Option<APkt>) -> Exp {
        let mut e = Exp::new(C17);
        let ver = self.ver.unwrap();
        if self.st != St::Disc {
            self.cv("recv: CONNECT on an open connection");
            e.norecv_tags = C17;
            self.proto_err(&mut e, Some(0x82), C17, true);
            e.err_kind = Some(("ProtocolError", C17));
            return e;
        }
        let Some(p) = parsed else {
            self.cv("recv: malformed CONNECT refused");
            e.norecv_tags = C05;
            e.send_opt(SK::FailConnack, C05);
            e.error(C05);
            e.close = if self.dead { Tri::Any } else { Tri::Yes };
            e.close_tags = C19 | C05;
            Self::off_all(&mut e);
            self.dead = true;
            return e;
        };
        let APkt::Connect(k) = &p else { unreachable!() };
        if self.dead {
            self.lost = true;
            return e;
        }
        self.cv("recv: CONNECT");
        self.initialize(false);
        self.dead = false;
        self.rt = k.keep_alive as u64 * 1500;
        if k.clean {
            self.clear_all();
        }
        if ver == Ver::V311 {
            if !k.clean {
                self.persistent = true;
            }
        } else {
            self.out_max = p.prop_u16(0x22).unwrap_or(0);
            self.m_send = p.prop_u16(0x21);
            self.max_send = p.prop_u32(0x27).unwrap_or(NOLIM);
            if p.prop_u32(0x11).unwrap_or(0) != 0 {
                self.persistent = true;
            }
        }
        self.st = St::Conning;
        self.refresh(&mut e);
        e.recv_tags = C05 | C17 | C10;
        e.recv = Some((p, false));
        e
    }

    fn recv_connack(&mut self, parsed: Option<APkt>) -> Exp {
        let mut e = Exp::new(C17);
        let ver = self.ver.unwrap();
        if self.st == St::Disc && (self.dead || !self.is_client) {
            // no connection is established (or it is to be closed): the properties do not say
            self.lost = true;
            return e;
        }
        if !(self.st == St::Conning && self.is_client) {
            self.cv("recv: CONNACK out of place");
            e.norecv_tags = C17;
            self.proto_err(&mut e, Some(0x82), C17, true);
            if self.st != St::Disc {
                e.err_kind = Some(("ProtocolError", C17));
            }
            return e;
        }
        let Some(p) = parsed else {
            self.cv("recv: malformed CONNACK");
            e.norecv_tags = C05;
            self.proto_err(&mut e, None, C05, false);
            return e;
        };
        let APkt::Connack { sp, code, .. } = &p else { unreachable!() };
        e.base = C06 | C16 | C10;
        e.recv_tags = C05 | C10;
        e.recv = Some((p.clone(), false));
        if *code != 0 {
            self.cv("recv: CONNACK refusing");
            self.dead = true;
            return e;
        }
        self.cv(if *sp { "recv: CONNACK, session present" } else { "recv: CONNACK, no session" });
        self.st = St::Conned;
        let mut ends = false;
        if ver == Ver::V5 {
            self.out_max = p.prop_u16(0x22).unwrap_or(0);
            self.m_send = p.prop_u16(0x21);
            self.max_send = p.prop_u32(0x27).unwrap_or(NOLIM);
            if let Some(x) = p.prop_u16(0x13) {
                self.ska = Some(x as u64 * 1000);
                if self.opts.iv.is_none() {
                    e.tm[0] = if x == 0 { TE::Off } else { TE::Re(x as u64 * 1000) };
                }
            }
            if let Some(x) = p.prop_u32(0x11) {
                self.persistent = x != 0 || self.opts.offline;
                ends = !self.persistent;
            }
        }
        if *sp {
            if self.resend(&mut e) {
                let keep_off = e.tm[0] == TE::Off;
                self.rearm(&mut e);
                if keep_off && self.interval() == 0 {
                    e.tm[0] = TE::Off;
                }
            }
            if ends {
                self.store.clear();
            }
        } else {
            self.clear_all();
        }
        e
    }

    fn recv_publish(&mut self, q: &APublish) -> Exp {
        let ver = self.ver.unwrap();
        let p = APkt::Publish(q.clone());
        let mut e = Exp::new(C07);
        e.recv_tags = C05 | if q.qos == 2 { C07 } else { 0 };
        let mut topic = q.topic.clone();
        let mut extracted = false;
        if ver == Ver::V5 {
            if let (Some(m), Some(id)) = (self.m_recv, q.pid) {
                if self.inb.len() >= m as usize && !self.inb.contains(&id) {
                    self.cv("recv: PUBLISH beyond the local Receive Maximum");
                    e.norecv_tags = C12;
                    e.base = C12;
                    let strict = self.st == St::Conned;
                    if strict {
                        self.proto_err(&mut e, Some(0x93), C12, true);
                    } else {
                        e.error(C05 | C12);
                        e.close = Tri::Any;
                    }
                    return e;
                }
            }
            let al = alias_of(q);
            let mut bad = false;
            if let Some(a) = al {
                if a == 0 || a > self.in_max {
                    bad = true;
                } else if topic.is_empty() {
                    match self.in_tab.get(&a) {
                        Some(t) => {
                            topic = t.clone();
                            extracted = true;
                        }
                        None => bad = true,
                    }
                } else {
                    self.in_tab.insert(a, topic.clone());
                    self.cv("recv: PUBLISH binds an alias");
                }
            } else if topic.is_empty() {
                bad = true;
            }
            if bad {
                self.cv("recv: PUBLISH with an invalid alias");
                e.norecv_tags = C13;
                e.base = C13;
                if self.st == St::Conned {
                    self.proto_err(&mut e, Some(0x94), C13, true);
                } else {
                    e.error(C05 | C13);
                    e.close = Tri::Any;
                }
                return e;
            }
            if extracted {
                self.cv("recv: PUBLISH resolved through an alias");
                e.recv_tags |= C13;
            }
            if al.is_some() {
                e.err_tags |= C13;
            }
            e.err_tags |= C12;
            if let Some(id) = q.pid {
                self.inb.insert(id);
            }
        }
        let conned = self.st == St::Conned;
        let mut deliver = true;
        if let Some(id) = q.pid {
            let mut resp = None;
            if q.qos == 2 {
                let dup = !self.qos2.insert(id);
                if dup {
                    self.cv("recv: duplicate QoS 2 PUBLISH suppressed");
                    deliver = false;
                    e.norecv_tags = C07 | C16;
                } else {
                    self.cv("recv: new QoS 2 PUBLISH");
                }
                if conned && (self.opts.auto_pub || dup) {
                    resp = Some(5);
                }
            } else if conned && self.opts.auto_pub {
                resp = Some(4);
            }
            if let Some(k) = resp {
                let rp = APkt::Ack { kind: k, pid: id, rc: None, props: None };
                if ver == Ver::V5 && size_of(&rp, ver, self.w) > self.max_send {
                    self.cv("automatic response larger than the peer accepts");
                    e.err = Tri::Yes;
                    e.err_tags = C14;
                } else {
                    if k == 4 {
                        self.inb.remove(&id);
                    }
                    e.send(SK::Resp { kind: k, pid: id, ok: Some(true) }, C07);
                    self.rearm(&mut e);
                }
            }
        }
        if deliver {
            let mut d = p;
            if let APkt::Publish(x) = &mut d {
                x.topic = topic;
            }
            e.recv = Some((d, extracted));
        }
        self.refresh(&mut e);
        e
    }

    // ------------------------------------------------------------------ comparison

    fn judge(&mut self, call: &[Ev], e: Exp) -> Vec<V> {
        let mut vs: Vec<V> = vec![];
        let mut v = |tags: u32, what: String| vs.push(V { tags, what });

        // ---- order of close and sends
        if let Some(k) = call.iter().position(|x| *x == Ev::Close) {
            if call[k..].iter().any(|x| matches!(x, Ev::Send { .. })) {
                v(C19, "a packet is requested to be sent after the close request".into());
            }
        }
        let closes = call.iter().filter(|x| **x == Ev::Close).count();
        for x in call {
            if let Ev::Send { p, .. } = x {
                let final_ = match p {
                    APkt::Disconnect { .. } => true,
                    APkt::Connack { code, .. } => *code != 0,
                    _ => false,
                };
                if final_ && closes == 0 {
                    v(C19, format!("{} is sent without a close request", short(p)));
                }
            }
        }

        // ---- timers
        let was = self.armed;
        for x in call {
            match x {
                Ev::TimerReset(k, _) => {
                    self.armed[*k as usize] = true;
                    if *k == TK::Send && !self.is_client || *k == TK::Recv && self.is_client {
                        v(C15, format!("timer {k:?} armed by the wrong side"));
                    }
                }
                Ev::TimerCancel(k) => {
                    if !self.armed[*k as usize] {
                        v(C15, format!("timer {k:?} cancelled although it is not armed"));
                    }
                    self.armed[*k as usize] = false;
                }
                _ => {}
            }
        }
        for k in TKS {
            let i = k as usize;
            let resets: Vec<u64> = call
                .iter()
                .filter_map(|x| match x {
                    Ev::TimerReset(kk, d) if *kk == k => Some(*d),
                    _ => None,
                })
                .collect();
            let any = call.iter().any(
                |x| matches!(x, Ev::TimerReset(kk, _) | Ev::TimerCancel(kk) if *kk == k),
            );
            let good = match e.tm[i] {
                TE::Same => !any,
                TE::Re(ms) => self.armed[i] && !resets.is_empty() && resets.iter().all(|d| *d == ms),
                TE::Off => !self.armed[i] && resets.is_empty(),
                TE::Maybe(ms) => {
                    resets.iter().all(|d| *d == ms) && (!resets.is_empty() || self.armed[i] == was[i])
                }
                TE::MaybeOff => resets.is_empty(),
                TE::Any => true,
            };
            if !good {
                v(
                    C15 | if e.base & C10 != 0 { C10 } else { 0 },
                    format!("timer {k:?} (armed before: {}): expected {:?}", was[i], e.tm[i]),
                );
            }
            if any {
                self.cov.push(match (k, resets.is_empty()) {
                    (TK::Send, false) => "timer PingreqSend armed",
                    (TK::Recv, false) => "timer PingreqRecv armed",
                    (TK::Resp, false) => "timer PingrespRecv armed",
                    (TK::Send, true) => "timer PingreqSend cancelled",
                    (TK::Recv, true) => "timer PingreqRecv cancelled",
                    (TK::Resp, true) => "timer PingrespRecv cancelled",
                });
            }
            if self.st == St::Disc && self.armed[i] {
                v(C15, format!("timer {k:?} stays armed while disconnected"));
            }
        }

        // ---- sends
        let ver = self.ver;
        let mut exp = e.sends.iter();
        let mut cur = exp.next();
        for x in call {
            let Ev::Send { ver: pv, p, rel, bytes } = x else { continue };
            if Some(*pv) != ver {
                v(C11 | C17, format!("{} of the wrong protocol version is sent", short(p)));
            }
            if ver == Some(Ver::V5) && bytes.len() as u64 > self.max_send as u64 {
                v(
                    C14,
                    format!("{} bytes sent, the peer accepts {}: {}", bytes.len(), self.max_send, short(p)),
                );
            }
            // what a conforming receiver makes of it
            let mut resolved = None;
            let mut alias_new = None;
            if let (APkt::Publish(q), Some(Ver::V5)) = (p, ver) {
                match alias_of(q) {
                    Some(a) if a == 0 || a > self.out_max => {
                        v(C13, format!("alias {a} sent, the peer accepts 1..={}: {}", self.out_max, short(p)))
                    }
                    Some(a) if q.topic.is_empty() => match self.out_tab.get(&a) {
                        Some(t) => {
                            resolved = Some(t.clone());
                            touch(&mut self.lru_a, a);
                        }
                        None => v(C13, format!("alias {a} was never bound on this connection: {}", short(p))),
                    },
                    Some(a) => {
                        alias_new = Some((a, self.out_tab.get(&a).cloned()));
                        self.out_tab.insert(a, q.topic.clone());
                        resolved = Some(q.topic.clone());
                    }
                    None if q.topic.is_empty() => {
                        v(C13, "PUBLISH with neither topic nor alias sent".into());
                    }
                    None => resolved = Some(q.topic.clone()),
                }
            }
            loop {
                match cur {
                    None => {
                        let t = match p.kind() {
                            3 => C06 | C11 | C10,
                            6 => C06,
                            4 | 5 | 7 => C07,
                            12 => C15,
                            14 => C05 | C12 | C13 | C14,
                            _ => C11,
                        };
                        v(e.base | t, format!("unexpected send of {}", short(p)));
                        break;
                    }
                    Some(s) => {
                        let bad: Option<(u32, String)> = match &s.k {
                            SK::Exact(w, r) => {
                                if p != w {
                                    Some((s.tags, format!("sent {}, expected {}", short(p), short(w))))
                                } else if r.is_some() && *r != Some(*rel) {
                                    Some((C08, format!("release_packet_id_if_send_error is {rel:?}, expected {:?}", r.unwrap())))
                                } else {
                                    None
                                }
                            }
                            SK::Pub { want, topic, explicit, rel: wr } => match p {
                                APkt::Publish(q) => {
                                    let mut a = no_alias(q);
                                    let mut b = no_alias(want);
                                    a.topic.clear();
                                    b.topic.clear();
                                    if a != b {
                                        Some((s.tags | C06, format!("sent {}, expected {}", short(p), short(&APkt::Publish(want.clone())))))
                                    } else if ver == Some(Ver::V5) && resolved.as_ref() != Some(topic) {
                                        Some((C13, format!("the receiver resolves {} to {resolved:?}, the application asked for {topic:?}", short(p))))
                                    } else if (*explicit || ver != Some(Ver::V5)) && q != want {
                                        Some((C13 | C11, format!("sent {}, expected {}", short(p), short(&APkt::Publish(want.clone())))))
                                    } else if wr != rel {
                                        Some((C08, format!("release_packet_id_if_send_error is {rel:?}, expected {wr:?}")))
                                    } else if !*explicit && alias_of(q).is_some() && !self.opts.map && !self.opts.replace {
                                        Some((C13, format!("alias added although neither option is set: {}", short(p))))
                                    } else {
                                        // eviction of the automatic mapping
                                        let mut r = None;
                                        if let Some((a, old)) = &alias_new {
                                            if !*explicit {
                                                match old {
                                                    None => self.cov.push("alias: mapped automatically"),
                                                    Some(_) => {
                                                        self.cov.push("alias: rebound automatically (LRU)");
                                                        if self.out_tab.len() < self.out_max as usize {
                                                            r = Some((C13, format!("alias {a} rebound although another one is vacant")));
                                                        } else if self.lru_a.first() != Some(a) && self.lru_b.first() != Some(a) {
                                                            r = Some((C13, format!("alias {a} rebound, least recently used is {:?}/{:?}", self.lru_a.first(), self.lru_b.first())));
                                                        }
                                                    }
                                                }
                                            } else {
                                                self.cov.push("alias: bound by the application");
                                            }
                                            touch(&mut self.lru_a, *a);
                                            touch(&mut self.lru_b, *a);
                                        } else if let Some(a) = alias_of(q) {
                                            if *explicit {
                                                touch(&mut self.lru_b, a);
                                                self.cov.push("alias: used by the application");
                                            } else {
                                                self.cov.push("alias: applied automatically");
                                            }
                                        }
                                        r
                                    }
                                }
                                _ => Some((s.tags, format!("sent {}, expected PUBLISH", short(p)))),
                            },
                            SK::Resp { kind, pid, ok } => match p {
                                APkt::Ack { kind: k, pid: i, .. } if k == kind && i == pid => match ok {
                                    Some(ok) if (p.rc() < 0x80) != *ok => {
                                        Some((s.tags, format!("automatic response {} has the wrong reason code", short(p))))
                                    }
                                    _ => None,
                                },
                                _ => Some((s.tags, format!("sent {}, expected an automatic response (kind {kind}, identifier {pid})", short(p)))),
                            },
                            SK::Disc(rc) => match p {
                                APkt::Disconnect { .. } if rc.is_none() || *rc == Some(p.rc()) => None,
                                _ => Some((s.tags, format!("sent {}, expected DISCONNECT {rc:x?}", short(p)))),
                            },
                            SK::FailConnack => match p {
                                APkt::Connack { code, .. } if *code != 0 => None,
                                _ => Some((s.tags, format!("sent {}, expected a refusing CONNACK", short(p)))),
                            },
                        };
                        match bad {
                            None => {
                                cur = exp.next();
                                break;
                            }
                            Some(_) if s.opt => cur = exp.next(),
                            Some((t, w)) => {
                                v(t | e.base & C16, w);
                                cur = exp.next();
                                break;
                            }
                        }
                    }
                }
            }
        }
        while let Some(s) = cur {
            if !s.opt {
                let d = match &s.k {
                    SK::Exact(p, _) => short(p),
                    SK::Pub { want, .. } => short(&APkt::Publish(want.clone())),
                    SK::Resp { kind, pid, .. } => format!("automatic response kind {kind} identifier {pid}"),
                    SK::Disc(rc) => format!("DISCONNECT {rc:x?}"),
                    SK::FailConnack => "refusing CONNACK".into(),
                };
                v(s.tags, format!("not sent: {d}"));
            }
            cur = exp.next();
        }

        // ---- notifications
        let recvs: Vec<(&APkt, bool, Ver)> = call
            .iter()
            .filter_map(|x| match x {
                Ev::Recv { p, extracted, ver } => Some((p, *extracted, *ver)),
                _ => None,
            })
            .collect();
        match (&e.recv, recvs.as_slice()) {
            (None, []) => {}
            (Some((p, x)), [(q, y, pv)]) => {
                if p != *q {
                    let t = match (p, *q) {
                        (APkt::Publish(a), APkt::Publish(b)) if a.topic != b.topic => C13,
                        _ => 0,
                    };
                    v(t | C05, format!("notified {}, received {}", short(q), short(p)));
                } else if x != y {
                    v(C13, format!("topic_name_extracted is {y}, expected {x}"));
                } else if Some(*pv) != ver {
                    v(C17, "notified with the wrong protocol version".into());
                }
            }
            (Some((p, _)), []) => {
                v(e.recv_tags | e.err_tags & !C11, format!("received packet not notified: {}", short(p)));
            }
            (w, l) => {
                v(
                    e.norecv_tags | e.base,
                    format!("unexpected notification of {} (expected {})", short(l[l.len() - 1].0), match w {
                        Some((p, _)) => short(p),
                        None => "none".into(),
                    }),
                );
            }
        }

        // ---- identifiers
        let mut seen = BTreeMap::new();
        for x in call {
            if let Ev::Released(i) = x {
                *seen.entry(*i).or_insert(0u32) += 1;
            }
        }
        for (i, n) in &seen {
            if *n > 1 {
                v(C08, format!("release of identifier {i} announced {n} times"));
            }
            if !e.rel.contains_key(i) && !e.rel_opt.contains(i) {
                let t = match self.ids.get(i) {
                    None => C08,
                    Some(Own::App) => C08 | C11,
                    _ => C08 | C06,
                };
                v(t, format!("release of identifier {i} announced, it is {}", match self.ids.get(i) {
                    None => "free".to_string(),
                    Some(o) => format!("in use ({o:?})"),
                }));
            }
        }
        for (i, t) in &e.rel {
            if !seen.contains_key(i) {
                v(*t, format!("release of identifier {i} not announced"));
            }
        }

        // ---- errors and close
        let errs: Vec<&String> = call
            .iter()
            .filter_map(|x| match x {
                Ev::Error(s) => Some(s),
                _ => None,
            })
            .collect();
        match e.err {
            Tri::Yes if errs.is_empty() => v(e.err_tags, "no error is reported".into()),
            Tri::No if !errs.is_empty() => v(e.err_tags | e.base, format!("unexpected error {errs:?}")),
            _ => {}
        }
        if let Some((k, t)) = e.err_kind {
            if !errs.is_empty() && !errs.iter().any(|x| x.as_str() == k) {
                v(t, format!("error {errs:?} reported, expected {k}"));
            }
        }
        match e.close {
            Tri::Yes if closes == 0 => v(e.close_tags, "no close request".into()),
            Tri::No if closes > 0 => v(e.base | C19, "unexpected close request".into()),
            _ => {}
        }
        if closes > 0 {
            self.dead = true;
            if self.st == St::Conned && call.iter().any(|x| matches!(x, Ev::Send { p: APkt::Disconnect { .. }, .. })) {
                self.st = St::Disc;
            }
        }
        vs
    }

    // ------------------------------------------------------------------ state probes

    pub fn probe<P: Pid>(&mut self, o: &Obj<P>) -> Result<Vec<V>, String> {
        let mut vs = vec![];
        let st = o.stored()?;
        if self.persistent {
            let norm = |p: &APkt| match p {
                APkt::Publish(q) => {
                    let mut q = q.clone();
                    q.dup = false;
                    APkt::Publish(q)
                }
                p => p.clone(),
            };
            let a: Vec<APkt> = st.iter().map(|(_, p)| norm(p)).collect();
            let b: Vec<APkt> = self.store.iter().map(|(_, p)| norm(p)).collect();
            if a != b {
                let mut t = C06 | C16 | C10;
                for (_, p) in &st {
                    if let APkt::Publish(q) = p {
                        if q.topic.is_empty() || alias_of(q).is_some() {
                            t |= C13;
                        }
                    }
                }
                if a.len() == b.len()
                    && a.iter().zip(&b).all(|(x, y)| x.pid() == y.pid() && x.kind() == y.kind())
                {
                    t |= C13;
                }
                vs.push(V {
                    tags: t,
                    what: format!(
                        "exported store is [{}], expected [{}]",
                        a.iter().map(short).collect::<Vec<_>>().join("; "),
                        b.iter().map(short).collect::<Vec<_>>().join("; ")
                    ),
                });
            }
        } else {
            for (_, p) in &st {
                let i = p.pid().unwrap_or(0);
                if !self.ids.contains_key(&i) {
                    vs.push(V {
                        tags: C06 | C08 | C10,
                        what: format!("{} is stored although its exchange is over", short(p)),
                    });
                }
            }
        }
        let q = o.qos2()?;
        if q != self.qos2 {
            vs.push(V {
                tags: C07 | C10 | C16,
                what: format!("handled QoS 2 identifiers are {q:?}, expected {:?}", self.qos2),
            });
        }
        if self.v5() && self.st == St::Conned {
            let got = o.vacancy()?;
            if let Some(m) = self.m_send {
                let hi = (m as usize).saturating_sub(self.infl.len()) as u16;
                let lo = (m as usize).saturating_sub(self.infl.union(&self.infl_opt).count()) as u16;
                match got {
                    Some(x) if x >= lo && x <= hi => {}
                    _ => vs.push(V {
                        tags: C12,
                        what: format!(
                            "vacancy is {got:?}: Receive Maximum {m}, {} exchanges incomplete",
                            self.infl.len()
                        ),
                    }),
                }
            }
        } else {
            let _ = o.vacancy()?;
        }
        Ok(vs)
    }
}

fn touch(l: &mut Vec<u16>, a: u16) {
    l.retain(|x| *x != a);
    l.push(a);
}

/// total length of the frame at the start of `d` once its Remaining Length is complete
pub fn total_len(d: &[u8]) -> Option<usize> {
    let mut len = 0usize;
    for k in 0..4 {
        if d.len() <= 1 + k {
            return None;
        }
        let b = d[1 + k];
        len |= ((b & 0x7f) as usize) << (7 * k);
        if b & 0x80 == 0 {
            return Some(2 + k + len);
        }
    }
    None
}

/// Reference framing: which bytes one recv call consumes.
#[derive(Clone, Debug, Default)]
pub struct Framer {
    pub buf: Vec<u8>,
}

pub type Frame = Result<(u8, Vec<u8>, usize), String>;

impl Framer {
    /// bytes consumed from the start of `b` and the frame they complete
    pub fn next(&mut self, b: &[u8]) -> (usize, Option<Frame>) {
        let mut k = 0;
        while k < b.len() {
            self.buf.push(b[k]);
            k += 1;
            let fr = match frame(&self.buf) {
                Ok(None) => match total_len(&self.buf) {
                    // the length is known: jump ahead
                    Some(tot) => {
                        let need = tot - self.buf.len();
                        let take = need.min(b.len() - k);
                        self.buf.extend_from_slice(&b[k..k + take]);
                        k += take;
                        if take < need {
                            continue;
                        }
                        let (h, body, t) = frame(&self.buf).unwrap().unwrap();
                        Ok((h, body.to_vec(), t))
                    }
                    None => continue,
                },
                Ok(Some((h, body, t))) => Ok((h, body.to_vec(), t)),
                Err(x) => Err(x),
            };
            self.buf.clear();
            return (k, Some(fr));
        }
        (k, None)
    }
}
