//! Connection objects behind one interface: operations are plain values (recordable, replayable on
//! several objects), results are abstract events.
use crate::adapt::*;
use crate::refcodec::*;
use crate::report::*;
use mqtt_protocol_core::mqtt::common::Cursor;
use mqtt_protocol_core::mqtt::connection::event::TimerKind;
use mqtt_protocol_core::mqtt::connection::event::GenericEvent;
use mqtt_protocol_core::mqtt::connection::role::{self, RoleType};
use mqtt_protocol_core::mqtt::connection::{GenericConnection, Sendable};
use mqtt_protocol_core::mqtt::packet::{GenericPacketTrait, GenericStorePacket};
use mqtt_protocol_core::mqtt::result_code::MqttError;
use mqtt_protocol_core::mqtt::Version;
use std::collections::BTreeSet;
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    C,
    S,
    A,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TK {
    Send = 0,
    Recv = 1,
    Resp = 2,
}
pub const TKS: [TK; 3] = [TK::Send, TK::Recv, TK::Resp];

fn tk(k: TimerKind) -> TK {
    match k {
        TimerKind::PingreqSend => TK::Send,
        TimerKind::PingreqRecv => TK::Recv,
        TimerKind::PingrespRecv => TK::Resp,
    }
}
fn kt(k: TK) -> TimerKind {
    match k {
        TK::Send => TimerKind::PingreqSend,
        TK::Recv => TimerKind::PingreqRecv,
        TK::Resp => TimerKind::PingrespRecv,
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Ev {
    Recv { ver: Ver, p: APkt, extracted: bool },
    Send { ver: Ver, p: APkt, rel: Option<u32>, bytes: Vec<u8> },
    Released(u32),
    TimerReset(TK, u64),
    TimerCancel(TK),
    Error(MqttErr),
    Close,
}

/// Error kinds the monitors distinguish; everything else by its Debug text.
pub type MqttErr = String;

pub fn short(p: &APkt) -> String {
    let mut s = format!("{p:?}");
    if s.len() > 300 {
        let mut k = 300;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("..");
    }
    s
}

impl std::fmt::Debug for Ev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Ev::Recv { p, extracted, .. } => {
                write!(f, "Notify({}{})", short(p), if *extracted { " [extracted]" } else { "" })
            }
            Ev::Send { p, rel, .. } => match rel {
                Some(r) => write!(f, "SEND({}, release_if_error={r})", short(p)),
                None => write!(f, "SEND({})", short(p)),
            },
            Ev::Released(i) => write!(f, "Released({i})"),
            Ev::TimerReset(k, d) => write!(f, "TimerReset({k:?},{d})"),
            Ev::TimerCancel(k) => write!(f, "TimerCancel({k:?})"),
            Ev::Error(e) => write!(f, "Error({e})"),
            Ev::Close => write!(f, "CLOSE"),
        }
    }
}

#[derive(Clone, PartialEq, Eq)]
pub enum Op {
    Send(Ver, APkt),
    Recv(Vec<u8>),
    Timer(TK),
    Closed,
    SetInterval(Option<u64>),
    SetRespTimeout(u64),
    SetOffline(bool),
    SetAutoPub(bool),
    SetAutoPing(bool),
    SetAutoMap(bool),
    SetAutoReplace(bool),
    Acquire,
    Register(u32),
    Release(u32),
    Erase(u32),
    /// (packet, raw): raw = wrap in the store enum without the QoS check
    RestorePackets(Vec<(Ver, APkt)>),
    RestoreQos2(BTreeSet<u32>),
    Regulate(APkt),
    /// checked_send of the concrete packet type (a no-op when the type is not sendable in the role)
    CheckedSend(Ver, APkt),
    /// checked_send of the packet wrapped in GenericPacket
    GenericSend(Ver, APkt),
}

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Send(v, p) => write!(f, "send {v:?} {}", short(p)),
            Op::CheckedSend(v, p) => write!(f, "checked_send {v:?} {}", short(p)),
            Op::GenericSend(v, p) => write!(f, "checked_send(GenericPacket) {v:?} {}", short(p)),
            Op::Recv(b) => write!(f, "recv {}", hex(b)),
            Op::Timer(k) => write!(f, "notify_timer_fired {k:?}"),
            Op::Closed => write!(f, "notify_closed"),
            Op::SetInterval(x) => write!(f, "set_pingreq_send_interval {x:?}"),
            Op::SetRespTimeout(x) => write!(f, "set_pingresp_recv_timeout {x}"),
            Op::SetOffline(x) => write!(f, "set_offline_publish {x}"),
            Op::SetAutoPub(x) => write!(f, "set_auto_pub_response {x}"),
            Op::SetAutoPing(x) => write!(f, "set_auto_ping_response {x}"),
            Op::SetAutoMap(x) => write!(f, "set_auto_map_topic_alias_send {x}"),
            Op::SetAutoReplace(x) => write!(f, "set_auto_replace_topic_alias_send {x}"),
            Op::Acquire => write!(f, "acquire_packet_id"),
            Op::Register(i) => write!(f, "register_packet_id {i}"),
            Op::Release(i) => write!(f, "release_packet_id {i}"),
            Op::Erase(i) => write!(f, "erase_stored_publish {i}"),
            Op::RestorePackets(v) => {
                write!(f, "restore_packets [")?;
                for (_, p) in v {
                    write!(f, "{}; ", short(p))?;
                }
                write!(f, "]")
            }
            Op::RestoreQos2(s) => write!(f, "restore_qos2_publish_handled {s:?}"),
            Op::Regulate(p) => write!(f, "regulate_for_store {}", short(p)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ret {
    None,
    Id(Option<u32>),
    Ok(bool),
    Regulated(Option<APkt>),
    /// checked_send of a concrete type: the type implements Sendable for the role
    Compiles(bool),
}

#[derive(Clone, PartialEq, Eq)]
pub struct Out {
    /// one entry per call of the library (recv of one chunk may take several calls)
    pub calls: Vec<Vec<Ev>>,
    /// bytes consumed by each recv call
    pub consumed: Vec<usize>,
    /// protocol version of the object after each recv call
    pub vers: Vec<Option<Ver>>,
    pub ret: Ret,
}

impl Out {
    pub fn all(&self) -> impl Iterator<Item = &Ev> {
        self.calls.iter().flatten()
    }
    pub fn has_send(&self, kind: u8) -> bool {
        self.all().any(|e| matches!(e, Ev::Send { p, .. } if p.kind() == kind))
    }
    pub fn has_recv(&self, kind: u8) -> bool {
        self.all().any(|e| matches!(e, Ev::Recv { p, .. } if p.kind() == kind))
    }
    pub fn has_error(&self) -> bool {
        self.all().any(|e| matches!(e, Ev::Error(_)))
    }
}

impl std::fmt::Debug for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for c in &self.calls {
            write!(f, "{c:?} ")?;
        }
        if self.ret != Ret::None {
            write!(f, "-> {:?}", self.ret)?;
        }
        Ok(())
    }
}

pub trait Api<P: Pid> {
    fn send(&mut self, p: LibPkt<P>) -> Vec<GenericEvent<P>>;
    fn checked(&mut self, p: LibPkt<P>) -> Vec<GenericEvent<P>>;
    /// None: the concrete type of the packet is not sendable in this role at compile time
    fn typed(&mut self, p: LibPkt<P>) -> Option<Vec<GenericEvent<P>>>;
    fn recv(&mut self, c: &mut Cursor<&[u8]>) -> Vec<GenericEvent<P>>;
    fn timer(&mut self, k: TimerKind) -> Vec<GenericEvent<P>>;
    fn closed(&mut self) -> Vec<GenericEvent<P>>;
    fn interval(&mut self, d: Option<u64>) -> Vec<GenericEvent<P>>;
    fn resp_timeout(&mut self, d: u64);
    fn offline(&mut self, b: bool);
    fn auto_pub(&mut self, b: bool);
    fn auto_ping(&mut self, b: bool);
    fn auto_map(&mut self, b: bool);
    fn auto_replace(&mut self, b: bool);
    fn acquire(&mut self) -> Result<P, MqttError>;
    fn register(&mut self, p: P) -> Result<(), MqttError>;
    fn release(&mut self, p: P) -> Vec<GenericEvent<P>>;
    fn erase(&mut self, p: P) -> Vec<GenericEvent<P>>;
    fn restore(&mut self, v: Vec<GenericStorePacket<P>>);
    fn restore_qos2(&mut self, v: Vec<P>);
    fn stored(&self) -> Vec<GenericStorePacket<P>>;
    fn qos2(&self) -> Vec<P>;
    fn vacancy(&self) -> Option<u16>;
    fn version(&self) -> Version;
    fn regulate(&self, p: LibPkt<P>) -> Result<LibPkt<P>, MqttError>;
}

macro_rules! api {
($r:ty, $p:ty) => {
impl Api<$p> for GenericConnection<$r, $p> {
    fn send(&mut self, p: LibPkt<$p>) -> Vec<GenericEvent<$p>> {
        GenericConnection::send(self, p)
    }
    fn checked(&mut self, p: LibPkt<$p>) -> Vec<GenericEvent<$p>> {
        self.checked_send(p)
    }
    fn typed(&mut self, p: LibPkt<$p>) -> Option<Vec<GenericEvent<$p>>> {
        use mqtt_protocol_core::mqtt::packet::GenericPacket as G;
        macro_rules! t {
            ($x:expr) => {
                W($x, PhantomData::<($r, $p)>).go(self)
            };
        }
        match p {
            G::V3_1_1Connect(x) => t!(x),
            G::V3_1_1Connack(x) => t!(x),
            G::V3_1_1Publish(x) => t!(x),
            G::V3_1_1Puback(x) => t!(x),
            G::V3_1_1Pubrec(x) => t!(x),
            G::V3_1_1Pubrel(x) => t!(x),
            G::V3_1_1Pubcomp(x) => t!(x),
            G::V3_1_1Subscribe(x) => t!(x),
            G::V3_1_1Suback(x) => t!(x),
            G::V3_1_1Unsubscribe(x) => t!(x),
            G::V3_1_1Unsuback(x) => t!(x),
            G::V3_1_1Pingreq(x) => t!(x),
            G::V3_1_1Pingresp(x) => t!(x),
            G::V3_1_1Disconnect(x) => t!(x),
            G::V5_0Connect(x) => t!(x),
            G::V5_0Connack(x) => t!(x),
            G::V5_0Publish(x) => t!(x),
            G::V5_0Puback(x) => t!(x),
            G::V5_0Pubrec(x) => t!(x),
            G::V5_0Pubrel(x) => t!(x),
            G::V5_0Pubcomp(x) => t!(x),
            G::V5_0Subscribe(x) => t!(x),
            G::V5_0Suback(x) => t!(x),
            G::V5_0Unsubscribe(x) => t!(x),
            G::V5_0Unsuback(x) => t!(x),
            G::V5_0Pingreq(x) => t!(x),
            G::V5_0Pingresp(x) => t!(x),
            G::V5_0Disconnect(x) => t!(x),
            G::V5_0Auth(x) => t!(x),
        }
    }
    fn recv(&mut self, c: &mut Cursor<&[u8]>) -> Vec<GenericEvent<$p>> {
        GenericConnection::recv(self, c)
    }
    fn timer(&mut self, k: TimerKind) -> Vec<GenericEvent<$p>> {
        self.notify_timer_fired(k)
    }
    fn closed(&mut self) -> Vec<GenericEvent<$p>> {
        self.notify_closed()
    }
    fn interval(&mut self, d: Option<u64>) -> Vec<GenericEvent<$p>> {
        self.set_pingreq_send_interval(d)
    }
    fn resp_timeout(&mut self, d: u64) {
        self.set_pingresp_recv_timeout(d)
    }
    fn offline(&mut self, b: bool) {
        self.set_offline_publish(b)
    }
    fn auto_pub(&mut self, b: bool) {
        self.set_auto_pub_response(b)
    }
    fn auto_ping(&mut self, b: bool) {
        self.set_auto_ping_response(b)
    }
    fn auto_map(&mut self, b: bool) {
        self.set_auto_map_topic_alias_send(b)
    }
    fn auto_replace(&mut self, b: bool) {
        self.set_auto_replace_topic_alias_send(b)
    }
    fn acquire(&mut self) -> Result<$p, MqttError> {
        self.acquire_packet_id()
    }
    fn register(&mut self, p: $p) -> Result<(), MqttError> {
        self.register_packet_id(p)
    }
    fn release(&mut self, p: $p) -> Vec<GenericEvent<$p>> {
        self.release_packet_id(p)
    }
    fn erase(&mut self, p: $p) -> Vec<GenericEvent<$p>> {
        self.erase_stored_publish(p)
    }
    fn restore(&mut self, v: Vec<GenericStorePacket<$p>>) {
        self.restore_packets(v)
    }
    fn restore_qos2(&mut self, v: Vec<$p>) {
        self.restore_qos2_publish_handled(v.into_iter().collect())
    }
    fn stored(&self) -> Vec<GenericStorePacket<$p>> {
        self.get_stored_packets()
    }
    fn qos2(&self) -> Vec<$p> {
        self.get_qos2_publish_handled().into_iter().collect()
    }
    fn vacancy(&self) -> Option<u16> {
        self.get_receive_maximum_vacancy_for_send()
    }
    fn version(&self) -> Version {
        self.get_protocol_version()
    }
    fn regulate(&self, p: LibPkt<$p>) -> Result<LibPkt<$p>, MqttError> {
        match p {
            LibPkt::V5_0Publish(p) => self.regulate_for_store(p).map(|p| p.into()),
            _ => panic!("harness: regulate_for_store takes a v5.0 PUBLISH"),
        }
    }
}
};
}
api!(role::Client, u16);
api!(role::Server, u16);
api!(role::Any, u16);
api!(role::Client, u32);
api!(role::Server, u32);
api!(role::Any, u32);

/// Compile-time question "may a value of type T be passed to checked_send in role R" answered by
/// method resolution: `Yes` applies to `W` itself exactly when T: Sendable<R, P>, otherwise the
/// call resolves to `No` on `&W`.
struct W<R, P, T>(T, PhantomData<(R, P)>);
trait Yes<R: RoleType, P: Pid> {
    fn go(self, c: &mut GenericConnection<R, P>) -> Option<Vec<GenericEvent<P>>>;
}
impl<R: RoleType, P: Pid, T: Sendable<R, P>> Yes<R, P> for W<R, P, T> {
    fn go(self, c: &mut GenericConnection<R, P>) -> Option<Vec<GenericEvent<P>>> {
        Some(c.checked_send(self.0))
    }
}
trait No<R: RoleType, P: Pid> {
    fn go(self, c: &mut GenericConnection<R, P>) -> Option<Vec<GenericEvent<P>>>;
}
impl<R: RoleType, P: Pid, T> No<R, P> for &W<R, P, T> {
    fn go(self, _: &mut GenericConnection<R, P>) -> Option<Vec<GenericEvent<P>>> {
        None
    }
}

pub fn store_pkt<P: Pid>(ver: Ver, p: &APkt) -> GenericStorePacket<P> {
    match build::<P>(p, ver).expect("harness: stored packet must be buildable") {
        LibPkt::V3_1_1Publish(p) => GenericStorePacket::V3_1_1Publish(p),
        LibPkt::V5_0Publish(p) => GenericStorePacket::V5_0Publish(p),
        LibPkt::V3_1_1Pubrel(p) => GenericStorePacket::V3_1_1Pubrel(p),
        LibPkt::V5_0Pubrel(p) => GenericStorePacket::V5_0Pubrel(p),
        _ => panic!("harness: not a storable packet"),
    }
}

pub struct Obj<P: Pid> {
    pub c: Box<dyn Api<P>>,
    pub role: Role,
}

pub fn ev<P: Pid>(e: &GenericEvent<P>) -> Ev {
    match e {
        GenericEvent::NotifyPacketReceived(p) => {
            let (ver, a) = view(p);
            let extracted = match p {
                LibPkt::V5_0Publish(p) => p.topic_name_extracted(),
                _ => false,
            };
            Ev::Recv { ver, p: a, extracted }
        }
        GenericEvent::RequestSendPacket { packet, release_packet_id_if_send_error } => {
            let (ver, a) = view(packet);
            Ev::Send {
                ver,
                p: a,
                rel: release_packet_id_if_send_error.map(|x| x.u()),
                bytes: packet.to_continuous_buffer(),
            }
        }
        GenericEvent::NotifyPacketIdReleased(x) => Ev::Released(x.u()),
        GenericEvent::RequestTimerReset { kind, duration_ms } => {
            Ev::TimerReset(tk(*kind), *duration_ms)
        }
        GenericEvent::RequestTimerCancel(k) => Ev::TimerCancel(tk(*k)),
        GenericEvent::NotifyError(e) => Ev::Error(format!("{e:?}")),
        GenericEvent::RequestClose => Ev::Close,
    }
}

pub fn evs<P: Pid>(v: Vec<GenericEvent<P>>) -> Vec<Ev> {
    v.iter().map(ev).collect()
}

/// Construction by role and identifier width.
pub trait Mk: Pid {
    fn mk(role: Role, v: Version) -> Box<dyn Api<Self>>;
}
macro_rules! mk {
    ($p:ty) => {
        impl Mk for $p {
            fn mk(role: Role, v: Version) -> Box<dyn Api<$p>> {
                match role {
                    Role::C => Box::new(GenericConnection::<role::Client, $p>::new(v)),
                    Role::S => Box::new(GenericConnection::<role::Server, $p>::new(v)),
                    Role::A => Box::new(GenericConnection::<role::Any, $p>::new(v)),
                }
            }
        }
    };
}
mk!(u16);
mk!(u32);

impl<P: Mk> Obj<P> {
    pub fn new(role: Role, ver: Option<Ver>) -> Obj<P> {
        let v = ver.map(lib_version).unwrap_or(Version::Undetermined);
        Obj { c: P::mk(role, v), role }
    }
}

impl<P: Pid> Obj<P> {

    pub fn recv_empty(&mut self) -> Result<Vec<Ev>, String> {
        lib(|| {
            let mut c = Cursor::new(&[][..]);
            evs(self.c.recv(&mut c))
        })
    }
    /// One call of recv.
    pub fn recv_once(&mut self, b: &[u8]) -> Result<(Vec<Ev>, usize), String> {
        lib(|| {
            let mut c = Cursor::new(b);
            let e = self.c.recv(&mut c);
            (evs(e), c.position() as usize)
        })
    }
    pub fn stored(&self) -> Result<Vec<(Ver, APkt)>, String> {
        lib(|| self.c.stored().into_iter().map(|p| view::<P>(&p.into())).collect())
    }
    pub fn qos2(&self) -> Result<BTreeSet<u32>, String> {
        lib(|| self.c.qos2().into_iter().map(|p| p.u()).collect())
    }
    pub fn vacancy(&self) -> Result<Option<u16>, String> {
        lib(|| self.c.vacancy())
    }
    pub fn version(&self) -> Option<Ver> {
        match self.c.version() {
            Version::V3_1_1 => Some(Ver::V311),
            Version::V5_0 => Some(Ver::V5),
            Version::Undetermined => None,
        }
    }

    /// Err: the library panicked (message), or stopped making progress.
    pub fn apply(&mut self, op: &Op) -> Result<Out, String> {
        let mut o = Out { calls: vec![], consumed: vec![], vers: vec![], ret: Ret::None };
        match op {
            Op::Send(v, p) | Op::CheckedSend(v, p) | Op::GenericSend(v, p) => {
                let pk = build::<P>(p, *v)
                    .unwrap_or_else(|e| panic!("harness: cannot build {p:?} {v:?}: {e:?}"));
                match op {
                    Op::Send(..) => o.calls.push(lib(|| evs(self.c.send(pk)))?),
                    Op::GenericSend(..) => o.calls.push(lib(|| evs(self.c.checked(pk)))?),
                    _ => match lib(|| self.c.typed(pk).map(evs))? {
                        Some(e) => {
                            o.calls.push(e);
                            o.ret = Ret::Compiles(true);
                        }
                        None => o.ret = Ret::Compiles(false),
                    },
                }
            }
            Op::Recv(b) => {
                let mut pos = 0usize;
                let mut n = 0;
                while pos < b.len() {
                    let (e, np) = lib(|| {
                        let mut c = Cursor::new(&b[..]);
                        c.set_position(pos as u64);
                        let e = self.c.recv(&mut c);
                        (evs(e), c.position() as usize)
                    })?;
                    if np <= pos || np > b.len() {
                        return Err(format!(
                            "recv moved the cursor from {pos} to {np} of {} bytes",
                            b.len()
                        ));
                    }
                    n += 1;
                    o.consumed.push(np - pos);
                    pos = np;
                    o.calls.push(e);
                    o.vers.push(self.version());
                    assert!(n <= b.len());
                }
            }
            Op::Timer(k) => o.calls.push(lib(|| evs(self.c.timer(kt(*k))))?),
            Op::Closed => o.calls.push(lib(|| evs(self.c.closed()))?),
            Op::SetInterval(d) => o.calls.push(lib(|| evs(self.c.interval(*d)))?),
            Op::SetRespTimeout(d) => lib(|| self.c.resp_timeout(*d))?,
            Op::SetOffline(b) => lib(|| self.c.offline(*b))?,
            Op::SetAutoPub(b) => lib(|| self.c.auto_pub(*b))?,
            Op::SetAutoPing(b) => lib(|| self.c.auto_ping(*b))?,
            Op::SetAutoMap(b) => lib(|| self.c.auto_map(*b))?,
            Op::SetAutoReplace(b) => lib(|| self.c.auto_replace(*b))?,
            Op::Acquire => o.ret = Ret::Id(lib(|| self.c.acquire())?.ok().map(|x| x.u())),
            Op::Register(i) => o.ret = Ret::Ok(lib(|| self.c.register(P::of(*i)))?.is_ok()),
            Op::Release(i) => o.calls.push(lib(|| evs(self.c.release(P::of(*i))))?),
            Op::Erase(i) => o.calls.push(lib(|| evs(self.c.erase(P::of(*i))))?),
            Op::RestorePackets(v) => {
                let v: Vec<_> = v.iter().map(|(ver, p)| store_pkt::<P>(*ver, p)).collect();
                lib(|| self.c.restore(v))?
            }
            Op::RestoreQos2(s) => {
                let v: Vec<P> = s.iter().map(|x| P::of(*x)).collect();
                lib(|| self.c.restore_qos2(v))?
            }
            Op::Regulate(p) => {
                let pk = build::<P>(p, Ver::V5).expect("harness: buildable");
                o.ret = Ret::Regulated(lib(|| self.c.regulate(pk))?.ok().map(|p| view(&p).1));
            }
        }
        Ok(o)
    }
}
