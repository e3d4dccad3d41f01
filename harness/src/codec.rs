//! C02 round trip, C03 wire format, C04 decoder totality, C18 property table.
use crate::adapt::*;
use crate::gen;
use crate::prng::Rng;
use crate::refcodec::*;
use crate::report::*;
use crate::Check;
use mqtt_protocol_core::mqtt::packet::{
    v3_1_1, v5_0, GenericPacketTrait, GenericStorePacket, MqttBinary, MqttString, Qos,
};
use mqtt_protocol_core::mqtt::{Arc, ArcPayload};

type R = Result<(), Viol>;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C02",
            rule: "packets built through the public builders (random, boundary and rule-breaking field values, all kinds, both identifier widths, every payload conversion); non-trivial = the builder accepted the packet and its wire form is distinct; a sampled wire hash counts once",
            run: c02,
        },
        Check {
            id: "C03",
            rule: "random and boundary field values per kind; each compared in both directions with the independent reference codec; non-trivial = distinct reference encoding",
            run: c03,
        },
        Check {
            id: "C04",
            rule: "exhaustive short bodies, mutated valid encodings and random bytes per parser; non-trivial = distinct input that a parser accepted, or rejected after at least 4 bytes",
            run: c04,
        },
        Check {
            id: "C18",
            rule: "every property x packet class x {1,2} occurrences x boundary values, by builder and by parser, plus random property lists; non-trivial = distinct (packet class, property list)",
            run: c18,
        },
    ]
}

fn combo(i: u64) -> (Ver, u8, usize) {
    // 29 kinds x 2 widths
    let k = (i % 58) as u8;
    let w = if k >= 29 { 4 } else { 2 };
    let k = k % 29;
    if k < 14 {
        (Ver::V311, k + 1, w)
    } else {
        (Ver::V5, k - 13, w)
    }
}

macro_rules! by_width {
    ($w:expr, $f:ident ( $($a:expr),* )) => {
        if $w == 2 { $f::<u16>($($a),*) } else { $f::<u32>($($a),*) }
    };
}

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

fn viol(class: &str, what: String, a: &dyn std::fmt::Debug, bytes: &[u8]) -> Viol {
    Viol {
        class: class.into(),
        what,
        trace: vec![format!("packet: {}", short(&a)), format!("bytes: {}", hex(bytes))],
    }
}

/// Serialisation in all forms, checked against each other and against the framing.
fn serialise<P: Pid>(p: &LibPkt<P>, d: &dyn std::fmt::Debug) -> Result<Vec<u8>, Viol> {
    let r = lib(|| {
        let c = p.to_continuous_buffer();
        let v: Vec<u8> = p.to_buffers().iter().flat_map(|s| s.iter().copied()).collect();
        (c, v, p.size())
    });
    let (c, v, size) = r.map_err(|m| viol("serialise-panic", format!("serialising panicked: {m}"), d, &[]))?;
    if c != v {
        return Err(viol("vectored", format!("contiguous and vectored serialisations differ; vectored {}", hex(&v)), d, &c));
    }
    if size != c.len() {
        return Err(viol("size", format!("size() is {size} but the serialisation has {} bytes", c.len()), d, &c));
    }
    match frame(&c) {
        Ok(Some((_, body, n))) if n == c.len() => {
            if c.len() - 1 - body.len() != vbi(body.len() as u32).len() {
                return Err(viol("rl", "Remaining Length is not minimally encoded".into(), d, &c));
            }
        }
        Ok(Some((_, _, n))) => {
            return Err(viol("rl", format!("Remaining Length frames {n} bytes but {} were serialised", c.len()), d, &c))
        }
        Ok(None) => return Err(viol("rl", "Remaining Length exceeds the bytes serialised".into(), d, &c)),
        Err(e) => return Err(viol("rl", format!("wire framing: {e}"), d, &c)),
    }
    Ok(c)
}

fn reparse<P: Pid>(bytes: &[u8], ver: Ver, d: &dyn std::fmt::Debug) -> Result<LibPkt<P>, Viol> {
    let (h, body, _) = frame(bytes).unwrap().unwrap();
    let r = lib(|| parse::<P>(h >> 4, h & 15, body, ver))
        .map_err(|m| viol("parse-panic", format!("parser panicked: {m}"), d, bytes))?;
    let (q, n) = r.map_err(|e| viol("reparse", format!("own serialisation rejected by the parser: {e:?}"), d, bytes))?;
    if n != body.len() {
        return Err(viol("consumed", format!("parser consumed {n} of {} body bytes", body.len()), d, bytes));
    }
    Ok(q)
}

/// Everything C02 demands of one packet a builder accepted.
fn roundtrip<P: Pid>(p: &LibPkt<P>, ver: Ver, d: &dyn std::fmt::Debug) -> Result<Vec<u8>, Viol> {
    let c = serialise::<P>(p, d)?;
    let q = reparse::<P>(&c, ver, d)?;
    if lib(|| q == *p).unwrap_or(false) == false {
        return Err(viol("not-equal", format!("parsed packet differs: {}", short(&lib(|| view(&q)))), d, &c));
    }
    let (vp, vq) = lib(|| (view(p), view(&q)))
        .map_err(|m| viol("accessor-panic", format!("accessor panicked: {m}"), d, &c))?;
    if vp != vq {
        return Err(viol("not-equal", format!("accessors of the parsed packet differ: {}", short(&vq.1)), d, &c));
    }
    let c2 = serialise::<P>(&q, d)?;
    if c2 != c {
        return Err(viol("reserialise", format!("parsed packet serialises differently: {}", hex(&c2)), d, &c));
    }
    Ok(c)
}

fn make<P: Pid>(a: &APkt, ver: Ver) -> Result<Result<LibPkt<P>, mqtt_protocol_core::mqtt::result_code::MqttError>, Viol> {
    lib(|| build::<P>(a, ver)).map_err(|m| viol("builder-panic", format!("builder panicked: {m}"), a, &[]))
}

/// What the builder was asked for must be what the accessors say.
fn same_fields(asked: &APkt, got: &APkt, ver: Ver) -> bool {
    let mut a = asked.normalised();
    let g = got.normalised();
    if ver == Ver::V311 {
        // a v3.1.1 acknowledgement has no property section
        if let APkt::Ack { props, .. } = &mut a {
            *props = Some(vec![]);
        }
    }
    a == g
}

// ---- C02 -----------------------------------------------------------------------------------

fn c02(ctx: &mut Ctx) {
    let n = ctx.scale(2_000_000, 20_000_000);
    ctx.cases("random", n, |r, i, st| {
        let (ver, kind, w) = combo(i);
        by_width!(w, c02_one(r, ver, kind, w, st))
    });
    let n = ctx.scale(1_500_000, 15_000_000);
    ctx.cases("hostile", n, |r, i, st| {
        let (ver, kind, w) = combo(i);
        by_width!(w, c02_hostile(r, ver, kind, w, st))
    });
    ctx.cases("lengths", 300 * 4, |r, i, st| {
        let n = (i / 4) as usize;
        let ver = if i % 2 == 0 { Ver::V311 } else { Ver::V5 };
        if i % 4 < 2 { c02_lengths::<u16>(r, ver, n, st) } else { c02_lengths::<u32>(r, ver, n, st) }
    });
    let n = ctx.scale(20_000, 600_000);
    ctx.cases("mutators", n, |r, i, st| {
        if i % 2 == 0 { c02_mutators::<u16>(r, st) } else { c02_mutators::<u32>(r, st) }
    });
    let n = ctx.scale(40_000, 1_000_000);
    ctx.cases("calls", n, |r, i, st| match i % 4 {
        0 => c02_calls_connect3(r, st),
        1 => c02_calls_connect5(r, st),
        2 => c02_calls_publish::<u16>(r, st),
        _ => c02_calls_publish::<u32>(r, st),
    });
    let t = ctx.threads;
    ctx.threads = t.min(4);
    ctx.cases("huge", 8, |r, i, st| c02_huge(r, i, st));
    ctx.threads = t;
}

fn c02_one<P: Pid>(r: &mut Rng, ver: Ver, kind: u8, w: usize, st: &mut Stats) -> R {
    let mut a = gen::packet(r, ver, kind, w);
    // v3.1.1 acknowledgements can carry a reason code through the builder
    if ver == Ver::V311 && r.p(1, 2) {
        if let APkt::Ack { kind, rc, .. } = &mut a {
            let t = gen::rc_table(Ver::V5, *kind);
            *rc = Some(*r.pick(&t));
        }
    }
    let p = match make::<P>(&a, ver)? {
        Ok(p) => p,
        Err(e) => {
            st.hit(&format!("refused.{:?}.{}.{e:?}", ver, a.name()));
            st.sample(2, || format!("refused {e:?}: {}", short(&a)));
            return Ok(());
        }
    };
    let (v, got) = lib(|| view(&p)).map_err(|m| viol("accessor-panic", m, &a, &[]))?;
    if v != ver || !same_fields(&a, &got, ver) {
        return Err(viol("builder-fields", format!("built packet's accessors report {}", short(&got)), &a, &[]));
    }
    let c = roundtrip::<P>(&p, ver, &a)?;
    st.hit(&format!("ok.{ver:?}.{}.w{w}", a.name()));
    st.nontrivial(&(ver == Ver::V5, w, &c));
    st.sample(4, || format!("{ver:?} w{w} {} -> {}", short(&a), hex(&c[..c.len().min(60)])));
    Ok(())
}

/// Break one rule of a valid packet; the builder may refuse, but what it accepts must round-trip.
pub fn perturb(r: &mut Rng, a: &mut APkt, ver: Ver, w: usize) {
    let max = if w == 2 { 0xffff } else { u32::MAX };
    let anyprop = |r: &mut Rng| {
        let id = PROPS[r.us(27)].id;
        let mut p = gen::prop_value(r, id);
        if r.p(1, 3) {
            p.v = match p.v {
                PV::B(_) => PV::B(*r.pick(&[0, 1, 2, 3, 255])),
                PV::U16(_) => PV::U16(*r.pick(&[0, 1, 65535])),
                PV::U32(_) => PV::U32(*r.pick(&[0, 1, u32::MAX])),
                PV::Vbi(_) => PV::Vbi(*r.pick(&[0, 1, 268435455])),
                v => v,
            };
        }
        p
    };
    let longstr = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 65534, 65535, 65536, 65537, 70000]);
        "l".repeat(n)
    };
    for _ in 0..1 + r.below(2) {
        let which = r.below(8);
        let mut ps: Option<&mut Vec<Prop>> = None;
        match a {
            APkt::Connect(c) => match which {
                0 => c.client_id = longstr(r),
                1 => c.user = Some(longstr(r)),
                2 => {
                    c.user = None;
                    c.pass = Some(longstr(r).into_bytes());
                }
                3 => {
                    if let Some(wl) = &mut c.will {
                        wl.topic = if r.bool() { longstr(r) } else { "a/#".into() };
                    }
                }
                4 => {
                    if let Some(wl) = &mut c.will {
                        wl.payload = longstr(r).into_bytes();
                    }
                }
                5 => {
                    if let Some(wl) = &mut c.will {
                        wl.props.push(anyprop(r));
                    }
                }
                _ => ps = Some(&mut c.props),
            },
            APkt::Connack { code, props, .. } => {
                if which < 3 {
                    *code = r.below(256) as u8;
                } else {
                    ps = Some(props);
                }
            }
            APkt::Publish(p) => match which {
                0 => p.topic = longstr(r),
                1 => p.topic = r.pick(&["", "a/#", "+", "#", "a/+/b"]).to_string(),
                2 => p.pid = *r.pick(&[None, Some(0), Some(1), Some(max)]),
                3 => p.qos = r.below(3) as u8,
                4 => p.dup = !p.dup,
                _ => ps = Some(&mut p.props),
            },
            APkt::Ack { pid, rc, props, .. } => match which {
                0 | 1 => *pid = 0,
                2 | 3 => *rc = if r.bool() { None } else { Some(r.below(256) as u8) },
                4 => *props = Some(vec![]),
                _ => {
                    if props.is_none() {
                        *props = Some(vec![]);
                    }
                    ps = props.as_mut();
                }
            },
            APkt::Subscribe { pid, props, entries } => match which {
                0 => *pid = 0,
                1 => entries.clear(),
                2 => entries.push((longstr(r), 0)),
                3 => entries.push(("a".into(), r.below(256) as u8)),
                _ => ps = Some(props),
            },
            APkt::Unsubscribe { pid, props, entries } => match which {
                0 => *pid = 0,
                1 => entries.clear(),
                2 => entries.push(longstr(r)),
                _ => ps = Some(props),
            },
            APkt::Suback { pid, props, codes } | APkt::Unsuback { pid, props, codes } => match which {
                0 => *pid = 0,
                1 => codes.clear(),
                2 => codes.push(r.below(256) as u8),
                _ => ps = Some(props),
            },
            APkt::Disconnect { rc, props } | APkt::Auth { rc, props } => match which {
                0 => *rc = None,
                1 => *rc = Some(r.below(256) as u8),
                2 => *props = None,
                _ => {
                    if props.is_none() {
                        *props = Some(vec![]);
                    }
                    ps = props.as_mut();
                }
            },
            _ => {}
        }
        if let Some(ps) = ps {
            if ver == Ver::V5 {
                match r.below(5) {
                    0 if !ps.is_empty() => {
                        let p = r.pick(ps).clone();
                        ps.push(p);
                    }
                    1 if !ps.is_empty() => {
                        let k = r.us(ps.len());
                        ps.remove(k);
                    }
                    2 if r.p(1, 8) => {
                        // a property section whose length needs 2..4 VBI bytes
                        let n = *r.pick(&[1usize, 2, 3, 10, 40]);
                        for _ in 0..n {
                            let k = r.us(65536);
                            ps.push(Prop::new(0x26, PV::Pair("k".into(), "v".repeat(k))));
                        }
                    }
                    3 => {
                        let k = PROPS[r.us(27)].id;
                        if matches!(prop_spec(k).unwrap().t, PT::Str) {
                            let s = longstr(r);
                            ps.push(Prop::new(k, PV::Str(s)));
                        } else if matches!(prop_spec(k).unwrap().t, PT::Bin) {
                            let s = longstr(r).into_bytes();
                            ps.push(Prop::new(k, PV::Bin(s)));
                        } else {
                            ps.push(anyprop(r));
                        }
                    }
                    _ => ps.push(anyprop(r)),
                }
            }
        }
    }
}

fn c02_hostile<P: Pid>(r: &mut Rng, ver: Ver, kind: u8, w: usize, st: &mut Stats) -> R {
    let mut a = gen::packet(r, ver, kind, w);
    perturb(r, &mut a, ver, w);
    match make::<P>(&a, ver)? {
        Ok(p) => {
            let c = roundtrip::<P>(&p, ver, &a)?;
            st.hit("hostile.accepted");
            st.nontrivial(&(ver == Ver::V5, w, &c));
        }
        Err(_) => st.hit("hostile.refused"),
    }
    Ok(())
}

fn c02_lengths<P: Pid>(r: &mut Rng, ver: Ver, n: usize, st: &mut Stats) -> R {
    // every small length, every conversion: nothing may be cut, padded or re-encoded
    let data = r.bytes(n);
    let ascii = gen::string_n(r, n, &['#', '+']);
    let id = P::of(1 + r.below(P::MAX as u64) as u32);
    let topic = if n == 0 { "t".to_string() } else { ascii.clone() };
    let mut out: Vec<(&str, Vec<u8>, LibPkt<P>)> = vec![];
    let arc_all: Arc<[u8]> = Arc::from(&[&[0xEEu8; 7][..], &data[..], &[0xDD; 9][..]].concat()[..]);
    macro_rules! all {
        ($m:ident) => {{
            macro_rules! b {
                ($name:expr, $want:expr, $pl:expr) => {{
                    let pl = $pl;
                    let x = lib(|| {
                        $m::GenericPublish::<P>::builder()
                            .topic_name(topic.as_str())?
                            .qos(Qos::AtLeastOnce)
                            .packet_id(id)
                            .payload(pl)
                            .build()
                    })
                    .map_err(|m| viol("builder-panic", m, &($name, n), &[]))?
                    .map_err(|e| viol("builder-refused", format!("valid publish refused: {e:?}"), &($name, n), &[]))?;
                    out.push(($name, $want, x.into()));
                }};
            }
            b!("vec", data.clone(), data.clone());
            b!("&vec", data.clone(), &data);
            b!("slice", data.clone(), data.as_slice());
            b!("string", ascii.clone().into_bytes(), ascii.clone());
            b!("str", ascii.clone().into_bytes(), ascii.as_str());
            b!("arc", data.clone(), Arc::<[u8]>::from(data.as_slice()));
            b!("arcpayload", data.clone(), ArcPayload::new(arc_all.clone(), 7, n));
            b!("unit", vec![], ());
            b!("array", vec![1, 2, 3, 4], &[1u8, 2, 3, 4]);
        }};
    }
    if ver == Ver::V311 {
        all!(v3_1_1)
    } else {
        all!(v5_0)
    }
    for (name, want, p) in &out {
        let (_, v) = lib(|| view(p)).map_err(|m| viol("accessor-panic", m, name, &[]))?;
        match &v {
            APkt::Publish(x) if x.payload == *want && x.topic == topic && x.pid == Some(id.u()) => {}
            v => return Err(viol("payload-conversion", format!("payload given as {name} ({n} bytes) came back as {}", short(v)), &want, &[])),
        }
        let c = roundtrip::<P>(p, ver, name)?;
        // a store packet of it must serialise identically
        let sp: GenericStorePacket<P> = match p {
            LibPkt::V3_1_1Publish(x) => GenericStorePacket::V3_1_1Publish(x.clone()),
            LibPkt::V5_0Publish(x) => GenericStorePacket::V5_0Publish(x.clone()),
            _ => unreachable!(),
        };
        let (s1, s2, s3) = lib(|| {
            (
                sp.to_continuous_buffer(),
                sp.to_buffers().iter().flat_map(|s| s.iter().copied()).collect::<Vec<u8>>(),
                sp.size(),
            )
        })
        .map_err(|m| viol("serialise-panic", m, name, &c))?;
        if s1 != c || s2 != c || s3 != c.len() || sp.packet_id() != id {
            return Err(viol("store-packet", "store packet serialises differently".into(), name, &c));
        }
        st.nontrivial(&(ver == Ver::V5, P::W, &c));
    }
    // strings and binaries of this length, and a few long ones
    for n in [n, 65535 - n] {
        let s = gen::string_n(r, n, &[]);
        let b = r.bytes(n);
        let (ms, mb) = lib(|| (MqttString::new(s.as_str()), MqttBinary::new(b.as_slice())))
            .map_err(|m| viol("builder-panic", m, &n, &[]))?;
        let (ms, mb) = match (ms, mb) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return Err(viol("string", format!("string/binary of {n} bytes refused"), &n, &[])),
        };
        let ok = lib(|| {
            let e1 = [&(n as u16).to_be_bytes()[..], s.as_bytes()].concat();
            let e2 = [&(n as u16).to_be_bytes()[..], &b[..]].concat();
            let v1: Vec<u8> = ms.to_buffers().iter().flat_map(|s| s.iter().copied()).collect();
            let v2: Vec<u8> = mb.to_buffers().iter().flat_map(|s| s.iter().copied()).collect();
            let d1 = MqttString::decode(&e1);
            let d2 = MqttBinary::decode(&e2);
            ms.as_str() == s
                && ms.as_bytes() == e1.as_slice()
                && mb.as_bytes() == e2.as_slice()
                && ms.len() == n
                && ms.size() == n + 2
                && mb.as_slice() == b
                && mb.len() == n
                && mb.size() == n + 2
                && ms.to_continuous_buffer() == e1
                && mb.to_continuous_buffer() == e2
                && v1 == e1
                && v2 == e2
                && matches!(d1, Ok((ref x, k)) if *x == ms && k == e1.len())
                && matches!(d2, Ok((ref x, k)) if *x == mb && k == e2.len())
        })
        .map_err(|m| viol("serialise-panic", m, &n, &[]))?;
        if !ok {
            return Err(viol("string", format!("string/binary of {n} bytes does not round-trip"), &n, &[]));
        }
        st.hit("strings");
    }
    let r = lib(|| (MqttString::new("x".repeat(65536)).is_err(), MqttBinary::new(vec![0u8; 65536]).is_err()))
        .map_err(|m| viol("builder-panic", m, &n, &[]))?;
    if r != (true, true) {
        return Err(viol("string", "string or binary of 65536 bytes accepted".into(), &n, &[]));
    }
    Ok(())
}

/// Builder methods in any order, repeated: what is accepted must round-trip.
fn c02_calls_connect3(r: &mut Rng, st: &mut Stats) -> R {
    let mut calls = vec![];
    let mut b = v3_1_1::Connect::builder();
    for _ in 0..r.below(9) {
        let k = r.below(6);
        let s = gen::string(r);
        let v = gen::bin(r);
        let (q, f, t) = (r.below(3) as u8, r.bool(), gen::topic(r));
        calls.push(format!("{k}:{}:{}:{q}:{f}", s.len(), v.len()));
        let x = lib(|| {
            Ok(match k {
                0 => b.client_id(s)?,
                1 => b.clean_session(f),
                2 => b.keep_alive(q as u16 * 21000),
                3 => b.will_message(t, v, Qos::try_from(q).unwrap(), f)?,
                4 => b.user_name(s)?,
                _ => b.password(v)?,
            })
        })
        .map_err(|m| viol("builder-panic", m, &calls, &[]))?;
        b = match x {
            Ok(b) => b,
            Err(e) => {
                let _: mqtt_protocol_core::mqtt::result_code::MqttError = e;
                st.hit("calls.refused");
                return Ok(());
            }
        };
    }
    calls_finish::<u16, _>(lib(|| b.build()), Ver::V311, &calls, st)
}

fn c02_calls_connect5(r: &mut Rng, st: &mut Stats) -> R {
    let mut calls = vec![];
    let mut b = v5_0::Connect::builder();
    for _ in 0..r.below(10) {
        let k = r.below(8);
        let s = gen::string(r);
        let v = gen::bin(r);
        let (q, f, t) = (r.below(3) as u8, r.bool(), gen::topic(r));
        let ps = match lib_props(&gen::props(r, if k == 7 { WILL } else { 1 })) {
            Ok(p) => p,
            Err(_) => continue,
        };
        calls.push(format!("{k}:{}:{}:{q}:{f}:{}", s.len(), v.len(), ps.len()));
        let x = lib(|| {
            Ok(match k {
                0 => b.client_id(s)?,
                1 => b.clean_start(f),
                2 => b.keep_alive(q as u16 * 21000),
                3 => b.will_message(t, v, Qos::try_from(q).unwrap(), f)?,
                4 => b.user_name(s)?,
                5 => b.password(v)?,
                6 => b.props(ps),
                _ => b.will_props(ps),
            })
        })
        .map_err(|m| viol("builder-panic", m, &calls, &[]))?;
        b = match x {
            Ok(b) => b,
            Err(e) => {
                let _: mqtt_protocol_core::mqtt::result_code::MqttError = e;
                st.hit("calls.refused");
                return Ok(());
            }
        };
    }
    calls_finish::<u16, _>(lib(|| b.build()), Ver::V5, &calls, st)
}

fn c02_calls_publish<P: Pid>(r: &mut Rng, st: &mut Stats) -> R {
    let v5 = r.bool();
    let n = r.below(10);
    let mut calls = vec![];
    macro_rules! go {
        ($bi:expr, $ver:expr, $b:ident, $ps:ident, $extra:expr) => {{
            let mut $b = $bi;
            for _ in 0..n {
                let k = r.below(6);
                let (t, v, q, f) = (gen::topic(r), gen::bin(r), r.below(3) as u8, r.bool());
                let id = gen::pid(r, P::W);
                calls.push(format!("{k}:{}:{}:{q}:{f}", t.len(), v.len()));
                let $ps = lib_props(&gen::props(r, 3)).unwrap_or_default();
                let _ = &$ps;
                let x = lib(|| {
                    Ok(match k {
                        0 => $b.topic_name(t)?,
                        1 => $b.qos(Qos::try_from(q).unwrap()),
                        2 => $b.dup(f),
                        3 => $b.retain(f),
                        4 => $b.packet_id(P::of(id)),
                        _ if f => $b.payload(v),
                        _ => $extra,
                    })
                })
                .map_err(|m| viol("builder-panic", m, &calls, &[]))?;
                $b = match x {
                    Ok(x) => x,
                    Err(e) => {
                        let _: mqtt_protocol_core::mqtt::result_code::MqttError = e;
                        st.hit("calls.refused");
                        return Ok(());
                    }
                };
            }
            calls_finish::<P, _>(lib(|| $b.build()), $ver, &calls, st)
        }};
    }
    if v5 {
        go!(v5_0::GenericPublish::<P>::builder(), Ver::V5, b, ps, b.props(ps))
    } else {
        go!(v3_1_1::GenericPublish::<P>::builder(), Ver::V311, b, ps, b)
    }
}

fn calls_finish<P: Pid, T: Into<LibPkt<P>>>(
    x: Result<Result<T, mqtt_protocol_core::mqtt::result_code::MqttError>, String>,
    ver: Ver,
    calls: &Vec<String>,
    st: &mut Stats,
) -> R {
    match x.map_err(|m| viol("builder-panic", m, calls, &[]))? {
        Ok(p) => {
            let p: LibPkt<P> = p.into();
            let c = roundtrip::<P>(&p, ver, calls)?;
            st.hit("calls.accepted");
            st.nontrivial(&c);
        }
        Err(_) => st.hit("calls.refused"),
    }
    Ok(())
}

/// Public packet transformations keep the packet self-consistent.
fn c02_mutators<P: Pid>(r: &mut Rng, st: &mut Stats) -> R {
    let w = P::W;
    if r.p(1, 4) {
        let a = gen::packet(r, Ver::V311, 3, w);
        if let Ok(LibPkt::V3_1_1Publish(p)) = make::<P>(&a, Ver::V311)? {
            let dup = r.bool();
            let q: LibPkt<P> = p.set_dup(dup).into();
            let mut want = a.clone();
            if let APkt::Publish(x) = &mut want {
                x.dup = dup;
                if x.qos == 0 && dup {
                    return Ok(()); // not a legal packet
                }
            }
            let c = roundtrip::<P>(&q, Ver::V311, &want)?;
            if view(&q).1 != want {
                return Err(viol("mutator", "set_dup changed something else".into(), &want, &c));
            }
            st.nontrivial(&c);
        }
        return Ok(());
    }
    let a = gen::packet(r, Ver::V5, 3, w);
    let p = match make::<P>(&a, Ver::V5)? {
        Ok(LibPkt::V5_0Publish(p)) => p,
        _ => return Ok(()),
    };
    let mut m = match &a {
        APkt::Publish(x) => x.clone(),
        _ => unreachable!(),
    };
    let topic = gen::topic(r);
    let alias = r.range(1, 65535) as u16;
    let which = r.below(6);
    let res = lib(|| match which {
        0 => Some(p.clone().set_dup(true)),
        1 => p.clone().remove_topic_alias_add_topic(topic.clone()).ok(),
        2 => Some(p.clone().remove_topic_alias()),
        3 => p.clone().add_extracted_topic_name(topic.as_str()).ok(),
        4 => Some(p.clone().remove_topic_add_topic_alias(alias)),
        _ => Some(p.clone().add_topic_alias(alias)),
    })
    .map_err(|e| viol("mutator-panic", format!("transformation {which} panicked: {e}"), &a, &[]))?;
    let q = match res {
        Some(q) => q,
        None => {
            st.hit("mutator.refused");
            return Ok(());
        }
    };
    let rm = |ps: &mut Vec<Prop>| ps.retain(|p| p.id != 0x23);
    match which {
        0 => m.dup = true,
        1 => {
            m.topic = topic;
            rm(&mut m.props);
        }
        2 => rm(&mut m.props),
        3 => m.topic = topic,
        4 => {
            m.topic = String::new();
            rm(&mut m.props);
            m.props.push(Prop::new(0x23, PV::U16(alias)));
        }
        _ => {
            rm(&mut m.props);
            m.props.push(Prop::new(0x23, PV::U16(alias)));
        }
    }
    // combinations that are not packets any more are not judged
    if (m.topic.is_empty() && !m.props.iter().any(|p| p.id == 0x23)) || (m.qos == 0 && m.dup) {
        return Ok(());
    }
    let q: LibPkt<P> = q.into();
    let c = serialise::<P>(&q, &m)?;
    let d = decode(&c, Ver::V5, w).map_err(|e| viol("mutator", format!("result is not a valid packet: {e}"), &m, &c))?;
    let sorted = |mut x: APublish| {
        let (al, rest): (Vec<Prop>, Vec<Prop>) = x.props.drain(..).partition(|p| p.id == 0x23);
        x.props = rest;
        (x, al)
    };
    match d {
        APkt::Publish(x) if sorted(x.clone()) == sorted(m.clone()) => {}
        x => return Err(viol("mutator", format!("transformation {which} gave {}", short(&x)), &m, &c)),
    }
    let q2 = reparse::<P>(&c, Ver::V5, &m)?;
    if view(&q2) != view(&q) {
        return Err(viol("mutator", "re-parsed transformation differs".into(), &m, &c));
    }
    st.hit("mutator.ok");
    st.nontrivial(&c);
    Ok(())
}

/// Remaining Length at and just above its maximum.
fn c02_huge(_r: &mut Rng, i: u64, st: &mut Stats) -> R {
    const MAX: usize = 268_435_455;
    let v5 = i & 1 == 1;
    let over = (i >> 1) as usize; // 0: exactly the maximum, 1: one more, 2: the payload alone, 3: beyond
    let head = if v5 { 2 + 1 + 2 + 1 } else { 2 + 1 + 2 };
    let n = match over {
        0 => MAX - head,
        1 => MAX - head + 1,
        2 => MAX,
        _ => MAX + 1,
    };
    let arc: Arc<[u8]> = Arc::from(vec![0x5au8; n]);
    let pl = arc.clone();
    let ver = if v5 { Ver::V5 } else { Ver::V311 };
    let res: Result<Result<LibPkt<u16>, _>, String> = lib(|| {
        Ok(if v5 {
            match v5_0::Publish::builder().topic_name("t")?.qos(Qos::AtLeastOnce).packet_id(7u16).payload(pl).build() {
                Ok(p) => LibPkt::from(p),
                Err(e) => return Err(e),
            }
        } else {
            match v3_1_1::Publish::builder().topic_name("t")?.qos(Qos::AtLeastOnce).packet_id(7u16).payload(pl).build() {
                Ok(p) => LibPkt::from(p),
                Err(e) => return Err(e),
            }
        })
    });
    let what = format!("PUBLISH with a payload of {n} bytes ({ver:?})");
    match res {
        Err(m) => Err(viol("builder-panic", format!("builder panicked on a {what}: {m}"), &n, &[])),
        Ok(Err(_)) if over == 0 => Err(viol("builder-refused", format!("{what} fits but is refused"), &n, &[])),
        Ok(Err(_)) => {
            st.hit("huge.refused");
            Ok(())
        }
        Ok(Ok(_)) if over > 0 => {
            Err(viol("huge", format!("{what} accepted although it cannot be encoded"), &n, &[]))
        }
        Ok(Ok(p)) => {
            let (c, size) = lib(|| (p.to_continuous_buffer(), p.size())).map_err(|m| viol("serialise-panic", m, &n, &[]))?;
            let ok = c.len() == size && c.len() == 5 + MAX && c[1..5] == [0xff, 0xff, 0xff, 0x7f];
            let bufs = lib(|| p.to_buffers().iter().map(|b| b.len()).sum::<usize>()).unwrap_or(0);
            if !ok || bufs != c.len() {
                return Err(viol("huge", format!("{what}: size {size}, serialised {}, vectored {bufs}", c.len()), &n, &c[..16]));
            }
            let (q, k) = lib(|| parse::<u16>(3, c[0] & 15, &c[5..], ver))
                .map_err(|m| viol("parse-panic", m, &n, &c[..16]))?
                .map_err(|e| viol("reparse", format!("{what} rejected by the parser: {e:?}"), &n, &c[..16]))?;
            if k != MAX || q != p {
                return Err(viol("not-equal", format!("{what} does not round-trip"), &n, &c[..16]));
            }
            st.hit("huge.ok");
            st.nontrivial(&(v5, n));
            Ok(())
        }
    }
}

// ---- C03 -----------------------------------------------------------------------------------

fn c03(ctx: &mut Ctx) {
    let n = ctx.scale(6_000_000, 60_000_000);
    ctx.cases("wire", n, |r, i, st| {
        let (ver, kind, w) = combo(i);
        by_width!(w, c03_one(r, ver, kind, w, st))
    });
    // exhaustive reason codes / option bytes
    ctx.cases("codes", 58, |r, i, st| {
        let (ver, kind, w) = combo(i);
        by_width!(w, c03_codes(r, ver, kind, w, st))
    });
}

fn c03_one<P: Pid>(r: &mut Rng, ver: Ver, kind: u8, w: usize, st: &mut Stats) -> R {
    let a = gen::packet(r, ver, kind, w);
    c03_judge::<P>(&a, ver, kind, w, st)?;
    // forms of the same values that the specification also allows
    Ok(())
}

fn c03_judge<P: Pid>(a: &APkt, ver: Ver, kind: u8, w: usize, st: &mut Stats) -> R {
    let e = encode(a, ver, w);
    // harness self-check: the reference decoder inverts the reference encoder
    match decode(&e, ver, w) {
        Ok(d) if d.normalised() == a.normalised() => {}
        x => panic!("reference codec disagrees with itself: {a:?} -> {x:?}"),
    }
    let (h, body, _) = frame(&e).unwrap().unwrap();
    // parse direction
    let (q, n) = lib(|| parse::<P>(kind, h & 15, body, ver))
        .map_err(|m| viol("parse-panic", format!("parser panicked: {m}"), a, &e))?
        .map_err(|x| viol("spec-rejected", format!("spec-conformant {} rejected: {x:?}", a.name()), a, &e))?;
    if n != body.len() {
        return Err(viol("consumed", format!("consumed {n} of {}", body.len()), a, &e));
    }
    let (v, got) = lib(|| view(&q)).map_err(|m| viol("accessor-panic", m, a, &e))?;
    if v != ver || got.normalised() != a.normalised() {
        return Err(viol("accessors", format!("accessors report {}", short(&got)), a, &e));
    }
    st.hit(&format!("parsed.{ver:?}.{}.w{w}", a.name()));
    // build direction
    match make::<P>(a, ver)? {
        Ok(p) => {
            let c = lib(|| p.to_continuous_buffer()).map_err(|m| viol("serialise-panic", m, a, &e))?;
            if c != e {
                let ok = match decode(&c, ver, w) {
                    Ok(d) => d.normalised() == a.normalised(),
                    Err(_) => false,
                };
                if !ok {
                    return Err(viol("wire", format!("serialised as {} (specification: {})", hex(&c), hex(&e)), a, &e));
                }
                st.hit("alternative-form");
            }
            st.hit(&format!("built.{ver:?}.{}.w{w}", a.name()));
        }
        Err(x) => {
            st.hit(&format!("builder-refused.{ver:?}.{}.{x:?}", a.name()));
            st.sample(3, || format!("builder refused {x:?}: {}", short(a)));
        }
    }
    st.nontrivial(&(ver == Ver::V5, w, &e));
    st.sample(5, || format!("{ver:?} w{w} {} <-> {}", short(a), hex(&e[..e.len().min(60)])));
    Ok(())
}

fn c03_codes<P: Pid>(r: &mut Rng, ver: Ver, kind: u8, w: usize, st: &mut Stats) -> R {
    for code in gen::rc_table(ver, kind) {
        let mut a = gen::packet(r, ver, kind, w);
        match &mut a {
            APkt::Connack { code: c, .. } => *c = code,
            APkt::Ack { rc, .. } => *rc = Some(code),
            APkt::Disconnect { rc, .. } => *rc = Some(code),
            APkt::Auth { rc, props } => {
                *rc = Some(code);
                let mut ps = props.take().unwrap_or_default();
                if !ps.iter().any(|p| p.id == 0x15) {
                    ps.push(gen::prop_value(r, 0x15));
                }
                *props = Some(ps);
            }
            APkt::Suback { codes, .. } | APkt::Unsuback { codes, .. } => *codes = vec![code],
            _ => {}
        }
        c03_judge::<P>(&a, ver, kind, w, st)?;
    }
    if kind == 8 {
        for o in 0..=255u8 {
            let ok = if ver == Ver::V5 { o & 0xc0 == 0 && o & 3 != 3 && (o >> 4) & 3 != 3 } else { o <= 2 };
            if !ok {
                continue;
            }
            let mut a = gen::packet(r, ver, kind, w);
            if let APkt::Subscribe { entries, .. } = &mut a {
                entries[0].1 = o;
            }
            c03_judge::<P>(&a, ver, kind, w, st)?;
        }
    }
    if kind == 1 {
        // every combination of the connect flags
        for f in 0..64u32 {
            let mut a = gen::packet(r, ver, kind, w);
            if let APkt::Connect(c) = &mut a {
                c.clean = f & 1 != 0;
                c.user = if f & 2 != 0 { Some(gen::string(r)) } else { None };
                c.pass = if f & 6 == 6 { Some(gen::bin(r)) } else { None };
                c.will = if f & 8 != 0 {
                    Some(Will {
                        topic: gen::topic(r),
                        payload: gen::bin(r),
                        qos: ((f >> 4) % 3) as u8,
                        retain: r.bool(),
                        props: if ver == Ver::V5 { gen::props(r, WILL) } else { vec![] },
                    })
                } else {
                    None
                };
            }
            c03_judge::<P>(&a, ver, kind, w, st)?;
        }
    }
    Ok(())
}

// ---- C04 -----------------------------------------------------------------------------------

fn c04(ctx: &mut Ctx) {
    // all bodies of up to two bytes, every parser, every PUBLISH flag nibble
    ctx.cases("short", 2 * (14 + 15 + 15 + 15), |_r, i, st| {
        let w = if i % 2 == 0 { 2 } else { 4 };
        let k = i / 2;
        let (ver, kind, fl) = match k {
            0..=13 => (Ver::V311, k as u8 + 1, 0),
            14..=28 => (Ver::V5, k as u8 - 13, 0),
            29..=43 => (Ver::V311, 3, k as u8 - 28),
            _ => (Ver::V5, 3, k as u8 - 43),
        };
        by_width!(w, c04_short(ver, kind, fl, w, st))
    });
    let n = ctx.scale(5_000_000, 60_000_000);
    ctx.cases("mutated", n, |r, i, st| {
        let (ver, kind, w) = combo(i);
        by_width!(w, c04_mutated(r, ver, kind, w, st))
    });
    let n = ctx.scale(1_500_000, 20_000_000);
    ctx.cases("structured", n, |r, i, st| {
        let (ver, kind, w) = combo(i);
        by_width!(w, c04_structured(r, ver, kind, w, st))
    });
}

fn c04_judge<P: Pid>(kind: u8, fl: u8, body: &[u8], ver: Ver, st: &mut Stats) -> R {
    let w = P::W;
    let d = format!("{ver:?} {} flags {fl} width {w}", KIND_NAMES[kind as usize]);
    let r = lib(|| parse::<P>(kind, fl, body, ver))
        .map_err(|m| viol("parse-panic", format!("parser panicked: {m}"), &d, body))?;
    let (q, n) = match r {
        Ok(x) => x,
        Err(_) => {
            st.hit("rejected");
            return Ok(());
        }
    };
    st.hit(&format!("accepted.{ver:?}.{}", KIND_NAMES[kind as usize]));
    st.nontrivial(&(ver == Ver::V5, kind, fl, w, body));
    if n > body.len() {
        return Err(viol("consumed", format!("parser claims {n} of {} bytes", body.len()), &d, body));
    }
    // self-consistent
    let c = serialise::<P>(&q, &d).map_err(|mut v| {
        v.trace.push(format!("parsed from: {}", hex(body)));
        v
    })?;
    let q2 = reparse::<P>(&c, ver, &d).map_err(|mut v| {
        v.trace.push(format!("parsed from: {}", hex(body)));
        v
    })?;
    if q2 != q {
        return Err(viol("not-equal", "re-parsing the serialisation yields a different packet".into(), &d, body));
    }
    let (_, a) = lib(|| view(&q)).map_err(|m| viol("accessor-panic", m, &d, body))?;
    // structural rules: the builders accept these fields, and give the same packet
    let b = match make::<P>(&a, ver)? {
        Ok(b) => b,
        Err(e) => {
            // the v5.0 specification allows a password without a user name, the builder does not offer it
            if let APkt::Connect(c) = &a {
                if ver == Ver::V5 && c.user.is_none() && c.pass.is_some() {
                    st.hit("not-buildable.password-only");
                    return Ok(());
                }
            }
            return Err(viol("structural", format!("parser accepts what the builder refuses ({e:?})"), &a, body));
        }
    };
    let (_, ab) = lib(|| view(&b)).map_err(|m| viol("accessor-panic", m, &d, body))?;
    if !same_fields(&a, &ab, ver) {
        return Err(viol("structural", format!("rebuilt packet reports {}", short(&ab)), &a, body));
    }
    // canonical: the accepted bytes are the serialisation of the packet
    let (h, cb, _) = frame(&c).unwrap().unwrap();
    // (the parsers of v5.0 packets tolerate that a final empty property section is left out)
    let canonical = cb == &body[..n]
        || (ver == Ver::V5 && cb.len() == n + 1 && cb[..n] == body[..n] && cb[n] == 0 && a.props().is_empty());
    if !canonical || (kind == 3 && h & 15 != fl) {
        return Err(viol("canonical", format!("accepted input is not the serialisation of the packet it yields: {}", hex(cb)), &a, body));
    }
    // and valid by the reference decoder
    let mut full = vec![h];
    full.extend(vbi(cb.len() as u32));
    full.extend_from_slice(cb);
    match decode(&full, ver, w) {
        Ok(x) => {
            if x.normalised() != a.normalised() {
                return Err(viol("reference", format!("reference decoder reads {}", short(&x)), &a, body));
            }
        }
        Err(e) => {
            // not demanded here: v3.1.1 acknowledgements with a trailing reason code
            // and v3.1.1 subscription options with reserved bits, which the builder allows too
            let lenient = ver == Ver::V311
                && ((4..=7).contains(&kind) || (kind == 8 && e.contains("subscription options")));
            if lenient {
                st.hit("v311-lenient");
            } else {
                return Err(viol("reference", format!("accepted, but invalid: {e}"), &a, body));
            }
        }
    }
    Ok(())
}

fn c04_short<P: Pid>(ver: Ver, kind: u8, fl: u8, _w: usize, st: &mut Stats) -> R {
    c04_judge::<P>(kind, fl, &[], ver, st)?;
    for a in 0..=255u8 {
        c04_judge::<P>(kind, fl, &[a], ver, st)?;
        for b in 0..=255u8 {
            c04_judge::<P>(kind, fl, &[a, b], ver, st)?;
        }
    }
    st.add("short-bodies", 1 + 256 + 65536);
    Ok(())
}

fn small_packet(r: &mut Rng, ver: Ver, kind: u8, w: usize) -> APkt {
    // retry for a packet of moderate size: mutations then hit structure, not payload
    let mut a = gen::packet(r, ver, kind, w);
    for _ in 0..4 {
        if encode_body(&a, ver, w).1.len() <= 200 {
            break;
        }
        a = gen::packet(r, ver, kind, w);
    }
    a
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        if b.is_empty() {
            b.push(r.below(256) as u8);
            continue;
        }
        // bias to the front, where the structure is
        let i = if r.bool() { r.us(b.len()) } else { r.us(b.len().min(24)) };
        match r.below(10) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.below(256) as u8,
            2 => b[i] = *r.pick(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0xfe, 0xff]),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, *r.pick(&[0, 1, 0x80, 0xff, 0x26, 0x23, 0x0b])),
            5 => b.truncate(i),
            6 => {
                let n = r.us(9);
                let x = r.bytes(n);
                b.extend(x);
            }
            7 => {
                // non-minimal variable byte integer at this position
                let x = b[i];
                if x < 0x80 {
                    b[i] = x | 0x80;
                    let k = r.below(3);
                    for _ in 0..k {
                        b.insert(i + 1, 0x80);
                    }
                    b.insert(i + 1 + k as usize, 0);
                }
            }
            8 => {
                let j = r.us(b.len());
                let (lo, hi) = (i.min(j), i.max(j));
                let seg = b[lo..hi.min(lo + 40)].to_vec();
                let at = r.us(b.len() + 1);
                for (k, x) in seg.into_iter().enumerate() {
                    b.insert(at + k, x);
                }
            }
            _ => b[i] = b[i].wrapping_add(if r.bool() { 1 } else { 255 }),
        }
    }
}

fn c04_mutated<P: Pid>(r: &mut Rng, ver: Ver, kind: u8, w: usize, st: &mut Stats) -> R {
    let (mut body, mut h);
    if r.p(1, 12) {
        let n = r.us(40);
        body = r.bytes(n);
        h = r.below(16) as u8;
    } else {
        let a = small_packet(r, ver, kind, w);
        let (hh, b) = encode_body(&a, ver, w);
        body = b;
        h = hh & 15;
        mutate(r, &mut body);
        if r.p(1, 6) {
            h = r.below(16) as u8;
        }
        if r.p(1, 30) {
            // a body parsed with the other identifier width / version
            let (_, b) = encode_body(&a, ver, w);
            body = b;
            let v2 = if ver == Ver::V311 { Ver::V5 } else { Ver::V311 };
            if kind != 15 {
                c04_judge::<P>(kind, h, &body, v2, st)?;
            }
            return if w == 2 { c04_judge::<u32>(kind, h, &body, ver, st) } else { c04_judge::<u16>(kind, h, &body, ver, st) };
        }
    }
    st.sample(4, || format!("{ver:?} {} w{w} flags {h}: {}", KIND_NAMES[kind as usize], hex(&body[..body.len().min(60)])));
    c04_judge::<P>(kind, h, &body, ver, st)
}

/// Encodings of packets whose field values break a rule (the encoder does not validate).
fn c04_structured<P: Pid>(r: &mut Rng, ver: Ver, kind: u8, w: usize, st: &mut Stats) -> R {
    let mut a = small_packet(r, ver, kind, w);
    perturb(r, &mut a, ver, w);
    if let APkt::Publish(p) = &mut a {
        p.qos = r.below(4) as u8;
        if p.qos > 0 && p.pid.is_none() {
            p.pid = Some(0);
        }
        if p.qos == 0 {
            p.pid = None;
        }
    }
    if let APkt::Connect(c) = &mut a {
        if let Some(wl) = &mut c.will {
            wl.qos = r.below(4) as u8;
        }
    }
    if let APkt::Subscribe { entries, .. } = &mut a {
        if r.p(1, 8) {
            let i = r.us(entries.len().max(1));
            if let Some(e) = entries.get_mut(i) {
                e.1 = r.below(256) as u8;
            }
        }
    }
    // strings above 65535 bytes cannot be encoded
    let too_long = short_len(&a) > 65535;
    if too_long {
        return Ok(());
    }
    let (h, mut body) = encode_body(&a, ver, w);
    let mut fl = h & 15;
    if kind == 1 && r.p(1, 3) && body.len() > 7 {
        body[7] = r.below(256) as u8; // connect flags
    }
    if kind == 2 && r.p(1, 3) {
        body[0] = r.below(256) as u8;
    }
    if r.p(1, 20) {
        fl = r.below(16) as u8;
    }
    c04_judge::<P>(kind, fl, &body, ver, st)
}

fn short_len(a: &APkt) -> usize {
    let mut m = 0;
    let mut t = |n: usize| m = m.max(n);
    let pl = |ps: &[Prop]| {
        ps.iter()
            .map(|p| match &p.v {
                PV::Str(s) => s.len(),
                PV::Bin(s) => s.len(),
                PV::Pair(a, b) => a.len().max(b.len()),
                _ => 0,
            })
            .max()
            .unwrap_or(0)
    };
    t(pl(a.props()));
    match a {
        APkt::Connect(c) => {
            t(c.client_id.len());
            t(c.user.as_ref().map_or(0, |s| s.len()));
            t(c.pass.as_ref().map_or(0, |s| s.len()));
            if let Some(wl) = &c.will {
                t(wl.topic.len());
                t(wl.payload.len());
                t(pl(&wl.props));
            }
        }
        APkt::Publish(p) => t(p.topic.len()),
        APkt::Subscribe { entries, .. } => entries.iter().for_each(|e| t(e.0.len())),
        APkt::Unsubscribe { entries, .. } => entries.iter().for_each(|e| t(e.len())),
        _ => {}
    }
    m
}

// ---- C18 -----------------------------------------------------------------------------------

/// a minimal packet of the class with the given properties (16 = will section)
fn carrier(class: u8, ps: Vec<Prop>) -> APkt {
    match class {
        1 | 16 => {
            let mut c = AConnect {
                client_id: "c".into(),
                clean: true,
                keep_alive: 0,
                will: None,
                user: None,
                pass: None,
                props: vec![],
            };
            if class == 16 {
                c.will = Some(Will { topic: "w".into(), payload: vec![1], qos: 1, retain: false, props: ps });
            } else {
                c.props = ps;
            }
            APkt::Connect(c)
        }
        2 => APkt::Connack { sp: false, code: 0, props: ps },
        3 => APkt::Publish(APublish {
            dup: false,
            qos: 1,
            retain: false,
            topic: "t".into(),
            pid: Some(1),
            props: ps,
            payload: vec![9],
        }),
        4..=7 => APkt::Ack { kind: class, pid: 1, rc: Some(0), props: Some(ps) },
        8 => APkt::Subscribe { pid: 1, props: ps, entries: vec![("a".into(), 0)] },
        9 => APkt::Suback { pid: 1, props: ps, codes: vec![0] },
        10 => APkt::Unsubscribe { pid: 1, props: ps, entries: vec!["a".into()] },
        11 => APkt::Unsuback { pid: 1, props: ps, codes: vec![0] },
        14 => APkt::Disconnect { rc: Some(0), props: Some(ps) },
        15 => APkt::Auth { rc: Some(0x18), props: Some(ps) },
        _ => unreachable!(),
    }
}

const CLASSES: [u8; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16];

fn list_ok(class: u8, ps: &[Prop]) -> bool {
    for (i, p) in ps.iter().enumerate() {
        if !prop_allowed(p.id, class) || !prop_value_ok(p) {
            return false;
        }
        if !prop_may_repeat(p.id, class) && ps[..i].iter().any(|q| q.id == p.id) {
            return false;
        }
    }
    true
}

/// Values for which only "builder and parser agree" is demanded.
fn ambiguous(class: u8, ps: &[Prop]) -> bool {
    // Authentication Data without a method; a Response Topic with wildcard characters;
    // AUTH (continue) without an authentication method
    (ps.iter().any(|p| p.id == 0x16) && !ps.iter().any(|p| p.id == 0x15))
        || (class == 15 && !ps.iter().any(|p| p.id == 0x15))
        || ps.iter().any(|p| p.id == 0x08 && matches!(&p.v, PV::Str(s) if s.contains(['#', '+'])))
        || ps.iter().any(|p| match &p.v {
            PV::Str(s) => s.contains('\0'),
            PV::Pair(a, b) => a.contains('\0') || b.contains('\0'),
            _ => false,
        })
}

fn c18_judge<P: Pid>(class: u8, ps: Vec<Prop>, st: &mut Stats) -> R {
    let want = list_ok(class, &ps);
    let amb = ambiguous(class, &ps);
    let name = if class == 16 { "WILL" } else { KIND_NAMES[class as usize] };
    let a = carrier(class, ps.clone());
    let kind = if class == 16 { 1 } else { class };
    let b = make::<P>(&a, Ver::V5)?;
    let e = encode(&a, Ver::V5, P::W);
    let (h, body, _) = frame(&e).unwrap().unwrap();
    let p = lib(|| parse::<P>(kind, h & 15, body, Ver::V5))
        .map_err(|m| viol("parse-panic", format!("parser panicked: {m}"), &a, &e))?;
    if b.is_ok() != p.is_ok() {
        return Err(viol(
            "disagree",
            format!("{name}: builder says {:?}, parser says {:?}", b.as_ref().map(|_| ()), p.as_ref().map(|_| ())),
            &ps,
            &e,
        ));
    }
    if !amb {
        if b.is_ok() != want {
            return Err(viol(
                "table",
                format!("{name}: the specification {} this property list, the library {}", if want { "allows" } else { "forbids" }, if b.is_ok() { "accepts it" } else { "rejects it" }),
                &ps,
                &e,
            ));
        }
    } else {
        st.hit("agreement-only");
    }
    if let (Ok(b), Ok((p, _))) = (&b, &p) {
        let (vb, vp) = lib(|| (view(b).1, view(p).1)).map_err(|m| viol("accessor-panic", m, &a, &e))?;
        if vb.normalised() != a.normalised() || vp.normalised() != a.normalised() {
            return Err(viol("values", format!("{name}: property values changed: {}", short(&vb)), &ps, &e));
        }
        st.hit(&format!("accepted.{name}"));
    } else {
        st.hit(&format!("rejected.{name}"));
    }
    st.nontrivial(&(class, &ps));
    Ok(())
}

fn boundary_values(id: u8) -> Vec<PV> {
    match prop_spec(id).unwrap().t {
        PT::Byte => (0..=255u8).map(PV::B).collect(),
        PT::U16 => vec![0, 1, 2, 255, 256, 65534, 65535].into_iter().map(PV::U16).collect(),
        PT::U32 => vec![0, 1, 2, 255, 65535, 65536, 268435455, 268435456, 0x7fffffff, 0x80000000, u32::MAX]
            .into_iter()
            .map(PV::U32)
            .collect(),
        PT::Vbi => vec![0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455].into_iter().map(PV::Vbi).collect(),
        PT::Str => vec!["", "a", "a/b", "é", "a#", "+", "\u{10ffff}"]
            .into_iter()
            .map(|s| PV::Str(s.into()))
            .chain([PV::Str("s".repeat(65535))])
            .collect(),
        PT::Bin => vec![vec![], vec![0], vec![255; 30], vec![1; 65535]].into_iter().map(PV::Bin).collect(),
        PT::Pair => vec![("", ""), ("k", ""), ("", "v"), ("k", "v")]
            .into_iter()
            .map(|(a, b)| PV::Pair(a.into(), b.into()))
            .collect(),
    }
}

fn c18(ctx: &mut Ctx) {
    let total = (27 * CLASSES.len() * 2) as u64;
    ctx.cases("table", total, |_r, i, st| {
        let w = i % 2;
        let i = (i / 2) as usize;
        let spec = &PROPS[i % 27];
        let class = CLASSES[i / 27];
        let go = |ps: Vec<Prop>, st: &mut Stats| {
            if w == 0 { c18_judge::<u16>(class, ps, st) } else { c18_judge::<u32>(class, ps, st) }
        };
        // alone, and next to properties that make the context legal / precede / follow it
        let vals = boundary_values(spec.id);
        let method = Prop::new(0x15, PV::Str("m".into()));
        let user = Prop::new(0x26, PV::Pair("k".into(), "v".into()));
        for v in &vals {
            let p = Prop::new(spec.id, v.clone());
            let mut ctxs: Vec<Vec<Prop>> = vec![vec![]];
            if spec.id != 0x15 && prop_allowed(0x15, class) {
                ctxs.push(vec![method.clone()]);
            }
            for pre in &ctxs {
                for order in 0..3 {
                    let place = |n: usize, ps2: &Prop| {
                        let mut x = vec![];
                        if order == 1 {
                            x.push(user.clone());
                        }
                        if order != 2 {
                            x.extend(pre.iter().cloned());
                        }
                        x.push(p.clone());
                        if n == 2 {
                            x.push(ps2.clone());
                        }
                        if order == 2 {
                            x.extend(pre.iter().cloned());
                            x.push(user.clone());
                        }
                        x
                    };
                    go(place(1, &p), st)?;
                    go(place(2, &p), st)?;
                    // a second occurrence with another value, and separated from the first
                    let other = Prop::new(spec.id, vals[(vals.len() / 2).min(1)].clone());
                    go(place(2, &other), st)?;
                    let mut sep = pre.clone();
                    sep.push(p.clone());
                    sep.push(user.clone());
                    sep.push(other);
                    go(sep, st)?;
                }
            }
        }
        st.hit("cells");
        Ok(())
    });
    // unknown property identifiers
    ctx.cases("unknown-id", 256 * 14, |r, i, st| {
        let id = (i % 256) as u8;
        let class = CLASSES[(i / 256) as usize];
        if prop_spec(id).is_some() {
            return Ok(());
        }
        let kind = if class == 16 { 1 } else { class };
        for extra in [vec![], vec![0u8], vec![0, 0], vec![0, 1, 97], vec![0, 0, 0, 1]] {
            // splice a raw property into the carrier with one user property
            let a = carrier(class, vec![Prop::new(0x15, PV::Str("m".into()))]);
            let (h, body) = encode_body(&a, Ver::V5, 2);
            let pat = [4u8, 0x15, 0, 1, b'm'];
            let at = body.windows(5).position(|x| x == pat).unwrap();
            let mut b2 = body[..at].to_vec();
            b2.push(1 + extra.len() as u8);
            b2.push(id);
            b2.extend(&extra);
            b2.extend(&body[at + 5..]);
            let p = lib(|| parse::<u16>(kind, h & 15, &b2, Ver::V5)).map_err(|m| viol("parse-panic", m, &id, &b2))?;
            if p.is_ok() {
                return Err(viol("unknown-id", format!("unknown property identifier 0x{id:02x} accepted"), &class, &b2));
            }
            st.nontrivial(&(class, id, extra.len()));
        }
        let _ = r;
        st.hit("unknown-id");
        Ok(())
    });
    let n = ctx.scale(4_000_000, 40_000_000);
    ctx.cases("lists", n, |r, i, st| {
        let class = *r.pick(&CLASSES);
        let legal = if r.bool() { gen::props(r, class) } else { vec![] };
        let mut ps = legal;
        for _ in 0..r.below(4) {
            let id = if r.bool() {
                let al: Vec<u8> = PROPS.iter().filter(|s| s.packets.contains(&class)).map(|s| s.id).collect();
                *r.pick(&al)
            } else {
                PROPS[r.us(27)].id
            };
            let mut p = gen::prop_value(r, id);
            if r.p(1, 4) {
                p.v = match p.v {
                    PV::B(_) => PV::B(r.below(256) as u8),
                    PV::U16(_) => PV::U16(*r.pick(&[0, 1])),
                    PV::U32(_) => PV::U32(*r.pick(&[0, 1])),
                    PV::Vbi(_) => PV::Vbi(*r.pick(&[0, 1])),
                    v => v,
                };
            }
            let at = r.us(ps.len() + 1);
            ps.insert(at, p);
        }
        st.sample(4, || format!("{class}: {}", short(&ps)));
        if i % 2 == 0 { c18_judge::<u16>(class, ps, st) } else { c18_judge::<u32>(class, ps, st) }
    });
}
