//! Adapters between the abstract packets of the reference codec and the public API of the
//! library: `build` goes through the public builders only, `view` through accessors only.
use crate::refcodec::*;
use mqtt_protocol_core::mqtt::packet as mp;
use mqtt_protocol_core::mqtt::packet::{v3_1_1, v5_0, GenericPacket, IntoPacketId, IsPacketId};
use mqtt_protocol_core::mqtt::result_code::*;
use mqtt_protocol_core::mqtt::{Arc, Version};

pub trait Pid: IsPacketId + IntoPacketId<Self> + Send + Sync + Default + 'static {
    const W: usize;
    const MAX: u32;
    fn of(x: u32) -> Self;
    fn u(self) -> u32;
}
impl Pid for u16 {
    const W: usize = 2;
    const MAX: u32 = 0xffff;
    fn of(x: u32) -> Self {
        assert!(x <= 0xffff);
        x as u16
    }
    fn u(self) -> u32 {
        self as u32
    }
}
impl Pid for u32 {
    const W: usize = 4;
    const MAX: u32 = u32::MAX;
    fn of(x: u32) -> Self {
        x
    }
    fn u(self) -> u32 {
        self
    }
}

pub type LibPkt<P> = GenericPacket<P>;
type E<T> = Result<T, MqttError>;

pub fn lib_prop(p: &Prop) -> E<mp::Property> {
    use mp::*;
    Ok(match (p.id, &p.v) {
        (0x01, PV::B(b)) => {
            let f = match b {
                0 => PayloadFormat::Binary,
                1 => PayloadFormat::String,
                // the typed constructor cannot express other values
                _ => return Err(MqttError::ProtocolError),
            };
            Property::PayloadFormatIndicator(PayloadFormatIndicator::new(f)?)
        }
        (0x02, PV::U32(x)) => Property::MessageExpiryInterval(MessageExpiryInterval::new(*x)?),
        (0x03, PV::Str(s)) => Property::ContentType(ContentType::new(s.as_str())?),
        (0x08, PV::Str(s)) => Property::ResponseTopic(ResponseTopic::new(s.as_str())?),
        (0x09, PV::Bin(s)) => Property::CorrelationData(CorrelationData::new(s.clone())?),
        (0x0B, PV::Vbi(x)) => Property::SubscriptionIdentifier(SubscriptionIdentifier::new(*x)?),
        (0x11, PV::U32(x)) => Property::SessionExpiryInterval(SessionExpiryInterval::new(*x)?),
        (0x12, PV::Str(s)) => {
            Property::AssignedClientIdentifier(AssignedClientIdentifier::new(s.as_str())?)
        }
        (0x13, PV::U16(x)) => Property::ServerKeepAlive(ServerKeepAlive::new(*x)?),
        (0x15, PV::Str(s)) => {
            Property::AuthenticationMethod(AuthenticationMethod::new(s.as_str())?)
        }
        (0x16, PV::Bin(s)) => Property::AuthenticationData(AuthenticationData::new(s.clone())?),
        (0x17, PV::B(x)) => {
            Property::RequestProblemInformation(RequestProblemInformation::new(*x)?)
        }
        (0x18, PV::U32(x)) => Property::WillDelayInterval(WillDelayInterval::new(*x)?),
        (0x19, PV::B(x)) => {
            Property::RequestResponseInformation(RequestResponseInformation::new(*x)?)
        }
        (0x1A, PV::Str(s)) => Property::ResponseInformation(ResponseInformation::new(s.as_str())?),
        (0x1C, PV::Str(s)) => Property::ServerReference(ServerReference::new(s.as_str())?),
        (0x1F, PV::Str(s)) => Property::ReasonString(ReasonString::new(s.as_str())?),
        (0x21, PV::U16(x)) => Property::ReceiveMaximum(ReceiveMaximum::new(*x)?),
        (0x22, PV::U16(x)) => Property::TopicAliasMaximum(TopicAliasMaximum::new(*x)?),
        (0x23, PV::U16(x)) => Property::TopicAlias(TopicAlias::new(*x)?),
        (0x24, PV::B(x)) => Property::MaximumQos(MaximumQos::new(*x)?),
        (0x25, PV::B(x)) => Property::RetainAvailable(RetainAvailable::new(*x)?),
        (0x26, PV::Pair(a, b)) => {
            Property::UserProperty(UserProperty::new(a.as_str(), b.as_str())?)
        }
        (0x27, PV::U32(x)) => Property::MaximumPacketSize(MaximumPacketSize::new(*x)?),
        (0x28, PV::B(x)) => {
            Property::WildcardSubscriptionAvailable(WildcardSubscriptionAvailable::new(*x)?)
        }
        (0x29, PV::B(x)) => {
            Property::SubscriptionIdentifierAvailable(SubscriptionIdentifierAvailable::new(*x)?)
        }
        (0x2A, PV::B(x)) => {
            Property::SharedSubscriptionAvailable(SharedSubscriptionAvailable::new(*x)?)
        }
        _ => panic!("harness: property {p:?} has the wrong value type"),
    })
}

pub fn lib_props(ps: &[Prop]) -> E<mp::Properties> {
    ps.iter().map(lib_prop).collect()
}

pub fn view_prop(p: &mp::Property) -> Prop {
    use mp::Property::*;
    let id = p.id().as_u8();
    let v = match p {
        PayloadFormatIndicator(x) => PV::B(x.val()),
        MessageExpiryInterval(x) => PV::U32(x.val()),
        ContentType(x) => PV::Str(x.val().into()),
        ResponseTopic(x) => PV::Str(x.val().into()),
        CorrelationData(x) => PV::Bin(x.val().into()),
        SubscriptionIdentifier(x) => PV::Vbi(x.val()),
        SessionExpiryInterval(x) => PV::U32(x.val()),
        AssignedClientIdentifier(x) => PV::Str(x.val().into()),
        ServerKeepAlive(x) => PV::U16(x.val()),
        AuthenticationMethod(x) => PV::Str(x.val().into()),
        AuthenticationData(x) => PV::Bin(x.val().into()),
        RequestProblemInformation(x) => PV::B(x.val()),
        WillDelayInterval(x) => PV::U32(x.val()),
        RequestResponseInformation(x) => PV::B(x.val()),
        ResponseInformation(x) => PV::Str(x.val().into()),
        ServerReference(x) => PV::Str(x.val().into()),
        ReasonString(x) => PV::Str(x.val().into()),
        ReceiveMaximum(x) => PV::U16(x.val()),
        TopicAliasMaximum(x) => PV::U16(x.val()),
        TopicAlias(x) => PV::U16(x.val()),
        MaximumQos(x) => PV::B(x.val()),
        RetainAvailable(x) => PV::B(x.val()),
        UserProperty(x) => PV::Pair(x.key().into(), x.val().into()),
        MaximumPacketSize(x) => PV::U32(x.val()),
        WildcardSubscriptionAvailable(x) => PV::B(x.val()),
        SubscriptionIdentifierAvailable(x) => PV::B(x.val()),
        SharedSubscriptionAvailable(x) => PV::B(x.val()),
    };
    Prop { id, v }
}

pub fn view_props(ps: &[mp::Property]) -> Vec<Prop> {
    ps.iter().map(view_prop).collect()
}

fn qos(q: u8) -> E<mp::Qos> {
    mp::Qos::try_from(q).map_err(|_| MqttError::InvalidQos)
}

fn opts(b: u8) -> E<mp::SubOpts> {
    if b & 0xc0 != 0 {
        return mp::SubOpts::from_u8(b);
    }
    let rh = match (b >> 4) & 3 {
        0 => mp::RetainHandling::SendRetained,
        1 => mp::RetainHandling::SendRetainedIfNotExists,
        2 => mp::RetainHandling::DoNotSendRetained,
        _ => return mp::SubOpts::from_u8(b),
    };
    Ok(mp::SubOpts::new()
        .set_qos(qos(b & 3)?)
        .set_nl(b & 4 != 0)
        .set_rap(b & 8 != 0)
        .set_rh(rh))
}

fn view_opts(o: &mp::SubOpts) -> u8 {
    let rh = match o.rh() {
        mp::RetainHandling::SendRetained => 0u8,
        mp::RetainHandling::SendRetainedIfNotExists => 1,
        mp::RetainHandling::DoNotSendRetained => 2,
    };
    (o.qos() as u8) | ((o.nl() as u8) << 2) | ((o.rap() as u8) << 3) | (rh << 4)
}

fn bad<X>(_: X) -> MqttError {
    MqttError::MalformedPacket
}

/// Build through the public builders.
pub fn build<P: Pid>(a: &APkt, ver: Ver) -> E<LibPkt<P>> {
    if ver == Ver::V311 {
        build3(a)
    } else {
        build5(a)
    }
}

fn build3<P: Pid>(a: &APkt) -> E<LibPkt<P>> {
    use v3_1_1::*;
    Ok(match a {
        APkt::Connect(c) => {
            let mut b = Connect::builder()
                .client_id(c.client_id.as_str())?
                .clean_session(c.clean)
                .keep_alive(c.keep_alive);
            if let Some(w) = &c.will {
                b = b.will_message(w.topic.as_str(), w.payload.clone(), qos(w.qos)?, w.retain)?;
            }
            if let Some(u) = &c.user {
                b = b.user_name(u.as_str())?;
            }
            if let Some(p) = &c.pass {
                b = b.password(p.clone())?;
            }
            b.build()?.into()
        }
        APkt::Connack { sp, code, .. } => Connack::builder()
            .session_present(*sp)
            .return_code(ConnectReturnCode::try_from(*code).map_err(bad)?)
            .build()?
            .into(),
        APkt::Publish(p) => {
            let mut b = GenericPublish::<P>::builder()
                .topic_name(p.topic.as_str())?
                .qos(qos(p.qos)?)
                .dup(p.dup)
                .retain(p.retain)
                .payload(p.payload.clone());
            if let Some(i) = p.pid {
                b = b.packet_id(P::of(i));
            }
            b.build()?.into()
        }
        APkt::Ack { kind, pid, rc, .. } => {
            let id = P::of(*pid);
            match kind {
                4 => {
                    let mut b = GenericPuback::<P>::builder().packet_id(id);
                    if let Some(c) = rc {
                        b = b.reason_code(PubackReasonCode::try_from(*c).map_err(bad)?);
                    }
                    b.build()?.into()
                }
                5 => {
                    let mut b = GenericPubrec::<P>::builder().packet_id(id);
                    if let Some(c) = rc {
                        b = b.reason_code(PubrecReasonCode::try_from(*c).map_err(bad)?);
                    }
                    b.build()?.into()
                }
                6 => {
                    let mut b = GenericPubrel::<P>::builder().packet_id(id);
                    if let Some(c) = rc {
                        b = b.reason_code(PubrelReasonCode::try_from(*c).map_err(bad)?);
                    }
                    b.build()?.into()
                }
                _ => {
                    let mut b = GenericPubcomp::<P>::builder().packet_id(id);
                    if let Some(c) = rc {
                        b = b.reason_code(PubcompReasonCode::try_from(*c).map_err(bad)?);
                    }
                    b.build()?.into()
                }
            }
        }
        APkt::Subscribe { pid, entries, .. } => {
            let es: E<Vec<mp::SubEntry>> = entries
                .iter()
                .map(|(t, o)| mp::SubEntry::new(t.as_str(), opts(*o)?))
                .collect();
            GenericSubscribe::<P>::builder().packet_id(P::of(*pid)).entries(es?).build()?.into()
        }
        APkt::Suback { pid, codes, .. } => {
            let cs: E<Vec<SubackReturnCode>> =
                codes.iter().map(|c| SubackReturnCode::try_from(*c).map_err(bad)).collect();
            GenericSuback::<P>::builder().packet_id(P::of(*pid)).return_codes(cs?).build()?.into()
        }
        APkt::Unsubscribe { pid, entries, .. } => GenericUnsubscribe::<P>::builder()
            .packet_id(P::of(*pid))
            .entries(entries.iter().map(|s| s.as_str()))?
            .build()?
            .into(),
        APkt::Unsuback { pid, .. } => {
            GenericUnsuback::<P>::builder().packet_id(P::of(*pid)).build()?.into()
        }
        APkt::Pingreq => Pingreq::builder().build()?.into(),
        APkt::Pingresp => Pingresp::builder().build()?.into(),
        APkt::Disconnect { .. } => Disconnect::builder().build()?.into(),
        APkt::Auth { .. } => return Err(MqttError::ProtocolError),
    })
}

fn build5<P: Pid>(a: &APkt) -> E<LibPkt<P>> {
    use v5_0::*;
    Ok(match a {
        APkt::Connect(c) => {
            let mut b = Connect::builder()
                .client_id(c.client_id.as_str())?
                .clean_start(c.clean)
                .keep_alive(c.keep_alive)
                .props(lib_props(&c.props)?);
            if let Some(w) = &c.will {
                b = b
                    .will_message(w.topic.as_str(), w.payload.clone(), qos(w.qos)?, w.retain)?
                    .will_props(lib_props(&w.props)?);
            }
            if let Some(u) = &c.user {
                b = b.user_name(u.as_str())?;
            }
            if let Some(p) = &c.pass {
                b = b.password(p.clone())?;
            }
            b.build()?.into()
        }
        APkt::Connack { sp, code, props } => Connack::builder()
            .session_present(*sp)
            .reason_code(ConnectReasonCode::try_from(*code).map_err(bad)?)
            .props(lib_props(props)?)
            .build()?
            .into(),
        APkt::Publish(p) => {
            let mut b = GenericPublish::<P>::builder()
                .topic_name(p.topic.as_str())?
                .qos(qos(p.qos)?)
                .dup(p.dup)
                .retain(p.retain)
                .props(lib_props(&p.props)?)
                .payload(p.payload.clone());
            if let Some(i) = p.pid {
                b = b.packet_id(P::of(i));
            }
            b.build()?.into()
        }
        APkt::Ack { kind, pid, rc, props } => {
            let id = P::of(*pid);
            let ps = match props {
                Some(ps) => Some(lib_props(ps)?),
                None => None,
            };
            macro_rules! ack {
                ($t:ident, $rc:ident) => {{
                    let mut b = $t::<P>::builder().packet_id(id);
                    if let Some(c) = rc {
                        b = b.reason_code($rc::try_from(*c).map_err(bad)?);
                    }
                    if let Some(ps) = ps {
                        b = b.props(ps);
                    }
                    b.build()?.into()
                }};
            }
            match kind {
                4 => ack!(GenericPuback, PubackReasonCode),
                5 => ack!(GenericPubrec, PubrecReasonCode),
                6 => ack!(GenericPubrel, PubrelReasonCode),
                _ => ack!(GenericPubcomp, PubcompReasonCode),
            }
        }
        APkt::Subscribe { pid, props, entries } => {
            let es: E<Vec<mp::SubEntry>> = entries
                .iter()
                .map(|(t, o)| mp::SubEntry::new(t.as_str(), opts(*o)?))
                .collect();
            GenericSubscribe::<P>::builder()
                .packet_id(P::of(*pid))
                .props(lib_props(props)?)
                .entries(es?)
                .build()?
                .into()
        }
        APkt::Suback { pid, props, codes } => {
            let cs: E<Vec<SubackReasonCode>> =
                codes.iter().map(|c| SubackReasonCode::try_from(*c).map_err(bad)).collect();
            GenericSuback::<P>::builder()
                .packet_id(P::of(*pid))
                .props(lib_props(props)?)
                .reason_codes(cs?)
                .build()?
                .into()
        }
        APkt::Unsubscribe { pid, props, entries } => GenericUnsubscribe::<P>::builder()
            .packet_id(P::of(*pid))
            .props(lib_props(props)?)
            .entries(entries.iter().map(|s| s.as_str()))?
            .build()?
            .into(),
        APkt::Unsuback { pid, props, codes } => {
            let cs: E<Vec<UnsubackReasonCode>> =
                codes.iter().map(|c| UnsubackReasonCode::try_from(*c).map_err(bad)).collect();
            GenericUnsuback::<P>::builder()
                .packet_id(P::of(*pid))
                .props(lib_props(props)?)
                .reason_codes(cs?)
                .build()?
                .into()
        }
        APkt::Pingreq => Pingreq::builder().build()?.into(),
        APkt::Pingresp => Pingresp::builder().build()?.into(),
        APkt::Disconnect { rc, props } => {
            let mut b = Disconnect::builder();
            if let Some(c) = rc {
                b = b.reason_code(DisconnectReasonCode::try_from(*c).map_err(bad)?);
            }
            if let Some(ps) = props {
                b = b.props(lib_props(ps)?);
            }
            b.build()?.into()
        }
        APkt::Auth { rc, props } => {
            let mut b = Auth::builder();
            if let Some(c) = rc {
                b = b.reason_code(AuthReasonCode::try_from(*c).map_err(bad)?);
            }
            if let Some(ps) = props {
                b = b.props(lib_props(ps)?);
            }
            b.build()?.into()
        }
    })
}

/// Read a library packet back through its accessors.
pub fn view<P: Pid>(p: &LibPkt<P>) -> (Ver, APkt) {
    use GenericPacket as G;
    macro_rules! connect {
        ($c:expr, $props:expr, $wprops:expr) => {{
            let c = $c;
            let will = if c.will_flag() {
                Some(Will {
                    topic: c.will_topic().unwrap_or("<will_topic() is None>").into(),
                    payload: c.will_payload().unwrap_or(b"<will_payload() is None>").into(),
                    qos: c.will_qos() as u8,
                    retain: c.will_retain(),
                    props: $wprops,
                })
            } else {
                None
            };
            assert!(c.user_name_flag() == c.user_name().is_some());
            assert!(c.password_flag() == c.password().is_some());
            APkt::Connect(AConnect {
                client_id: c.client_id().into(),
                clean: c.clean_start(),
                keep_alive: c.keep_alive(),
                will,
                user: c.user_name().map(|s| s.into()),
                pass: c.password().map(|s| s.into()),
                props: $props,
            })
        }};
    }
    macro_rules! publish {
        ($p:expr, $props:expr) => {{
            let p = $p;
            APkt::Publish(APublish {
                dup: p.dup(),
                qos: p.qos() as u8,
                retain: p.retain(),
                topic: p.topic_name().into(),
                pid: p.packet_id().map(|x| x.u()),
                props: $props,
                payload: p.payload().as_slice().into(),
            })
        }};
    }
    macro_rules! ack {
        ($k:expr, $p:expr, $props:expr) => {{
            let p = $p;
            APkt::Ack {
                kind: $k,
                pid: p.packet_id().u(),
                rc: p.reason_code().map(|c| c as u8),
                props: $props,
            }
        }};
    }
    macro_rules! ack5 {
        ($k:expr, $p:expr) => {
            ack!($k, $p, $p.props().as_ref().map(|ps| view_props(ps)))
        };
    }
    macro_rules! sub {
        ($p:expr, $props:expr) => {{
            let p = $p;
            APkt::Subscribe {
                pid: p.packet_id().u(),
                props: $props,
                entries: p
                    .entries()
                    .iter()
                    .map(|e| (e.topic_filter().to_string(), view_opts(e.sub_opts())))
                    .collect(),
            }
        }};
    }
    macro_rules! unsub {
        ($p:expr, $props:expr) => {{
            let p = $p;
            APkt::Unsubscribe {
                pid: p.packet_id().u(),
                props: $props,
                entries: p.entries().iter().map(|e| e.as_str().to_string()).collect(),
            }
        }};
    }
    let v3 = Ver::V311;
    let v5 = Ver::V5;
    match p {
        G::V3_1_1Connect(c) => (v3, connect!(c, vec![], vec![])),
        G::V3_1_1Connack(c) => (
            v3,
            APkt::Connack { sp: c.session_present(), code: c.return_code() as u8, props: vec![] },
        ),
        G::V3_1_1Publish(p) => (v3, publish!(p, vec![])),
        G::V3_1_1Puback(p) => (v3, ack!(4, p, None)),
        G::V3_1_1Pubrec(p) => (v3, ack!(5, p, None)),
        G::V3_1_1Pubrel(p) => (v3, ack!(6, p, None)),
        G::V3_1_1Pubcomp(p) => (v3, ack!(7, p, None)),
        G::V3_1_1Subscribe(p) => (v3, sub!(p, vec![])),
        G::V3_1_1Suback(p) => (
            v3,
            APkt::Suback {
                pid: p.packet_id().u(),
                props: vec![],
                codes: p.return_codes().iter().map(|c| *c as u8).collect(),
            },
        ),
        G::V3_1_1Unsubscribe(p) => (v3, unsub!(p, vec![])),
        G::V3_1_1Unsuback(p) => {
            (v3, APkt::Unsuback { pid: p.packet_id().u(), props: vec![], codes: vec![] })
        }
        G::V3_1_1Pingreq(_) => (v3, APkt::Pingreq),
        G::V3_1_1Pingresp(_) => (v3, APkt::Pingresp),
        G::V3_1_1Disconnect(_) => (v3, APkt::Disconnect { rc: None, props: None }),
        G::V5_0Connect(c) => (v5, connect!(c, view_props(c.props()), view_props(c.will_props()))),
        G::V5_0Connack(c) => (
            v5,
            APkt::Connack {
                sp: c.session_present(),
                code: c.reason_code() as u8,
                props: view_props(c.props()),
            },
        ),
        G::V5_0Publish(p) => (v5, publish!(p, view_props(p.props()))),
        G::V5_0Puback(p) => (v5, ack5!(4, p)),
        G::V5_0Pubrec(p) => (v5, ack5!(5, p)),
        G::V5_0Pubrel(p) => (v5, ack5!(6, p)),
        G::V5_0Pubcomp(p) => (v5, ack5!(7, p)),
        G::V5_0Subscribe(p) => (v5, sub!(p, view_props(p.props()))),
        G::V5_0Suback(p) => (
            v5,
            APkt::Suback {
                pid: p.packet_id().u(),
                props: view_props(p.props()),
                codes: p.reason_codes().iter().map(|c| *c as u8).collect(),
            },
        ),
        G::V5_0Unsubscribe(p) => (v5, unsub!(p, view_props(p.props()))),
        G::V5_0Unsuback(p) => (
            v5,
            APkt::Unsuback {
                pid: p.packet_id().u(),
                props: view_props(p.props()),
                codes: p.reason_codes().iter().map(|c| *c as u8).collect(),
            },
        ),
        G::V5_0Pingreq(_) => (v5, APkt::Pingreq),
        G::V5_0Pingresp(_) => (v5, APkt::Pingresp),
        G::V5_0Disconnect(p) => (
            v5,
            APkt::Disconnect {
                rc: p.reason_code().map(|c| c as u8),
                props: p.props().as_ref().map(|ps| view_props(ps)),
            },
        ),
        G::V5_0Auth(p) => (
            v5,
            APkt::Auth {
                rc: p.reason_code().map(|c| c as u8),
                props: p.props().as_ref().map(|ps| view_props(ps)),
            },
        ),
    }
}

/// The parser of one packet kind, given the fixed header's flags and the body.
pub fn parse<P: Pid>(kind: u8, flags: u8, body: &[u8], ver: Ver) -> E<(LibPkt<P>, usize)> {
    macro_rules! p {
        ($t:ty) => {
            <$t>::parse(body).map(|(p, n)| (p.into(), n))
        };
    }
    if ver == Ver::V311 {
        use v3_1_1::*;
        match kind {
            1 => p!(Connect),
            2 => p!(Connack),
            3 => GenericPublish::<P>::parse(flags, Arc::from(body)).map(|(p, n)| (p.into(), n)),
            4 => p!(GenericPuback<P>),
            5 => p!(GenericPubrec<P>),
            6 => p!(GenericPubrel<P>),
            7 => p!(GenericPubcomp<P>),
            8 => p!(GenericSubscribe<P>),
            9 => p!(GenericSuback<P>),
            10 => p!(GenericUnsubscribe<P>),
            11 => p!(GenericUnsuback<P>),
            12 => p!(Pingreq),
            13 => p!(Pingresp),
            14 => p!(Disconnect),
            _ => panic!("harness: no v3.1.1 parser for kind {kind}"),
        }
    } else {
        use v5_0::*;
        match kind {
            1 => p!(Connect),
            2 => p!(Connack),
            3 => GenericPublish::<P>::parse(flags, Arc::from(body)).map(|(p, n)| (p.into(), n)),
            4 => p!(GenericPuback<P>),
            5 => p!(GenericPubrec<P>),
            6 => p!(GenericPubrel<P>),
            7 => p!(GenericPubcomp<P>),
            8 => p!(GenericSubscribe<P>),
            9 => p!(GenericSuback<P>),
            10 => p!(GenericUnsubscribe<P>),
            11 => p!(GenericUnsuback<P>),
            12 => p!(Pingreq),
            13 => p!(Pingresp),
            14 => p!(Disconnect),
            15 => p!(Auth),
            _ => panic!("harness: no v5.0 parser for kind {kind}"),
        }
    }
}

pub fn lib_version(v: Ver) -> Version {
    match v {
        Ver::V311 => Version::V3_1_1,
        Ver::V5 => Version::V5_0,
    }
}

/// Kinds that exist in a version.
pub fn kinds(ver: Ver) -> std::ops::RangeInclusive<u8> {
    if ver == Ver::V311 {
        1..=14
    } else {
        1..=15
    }
}
