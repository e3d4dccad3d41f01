//! Random generators of abstract packets (valid by the specification unless said otherwise).
use crate::prng::Rng;
use crate::refcodec::*;

const CHARS: [char; 12] =
    ['a', 'Z', '0', '/', '$', ' ', 'é', 'ß', '温', '\u{FEFF}', '😀', '\u{10FFFF}'];

/// Lengths at the edges of internal representations (small-string buffers, VBI widths).
const EDGE: [usize; 28] = [
    0, 1, 2, 3, 9, 10, 11, 12, 13, 15, 16, 21, 22, 23, 24, 25, 30, 31, 32, 45, 46, 47, 48, 49, 126,
    127, 128, 129,
];

pub fn len(r: &mut Rng) -> usize {
    match r.below(100) {
        0..=44 => r.us(8),
        45..=84 => *r.pick(&EDGE),
        85..=93 => r.us(300),
        94..=97 => *r.pick(&[253, 254, 255, 256, 257]),
        98 => 2000 + r.us(3000),
        _ => *r.pick(&[16380, 16383, 16384, 65534, 65535]),
    }
}

pub fn string_n(r: &mut Rng, n: usize, forbid: &[char]) -> String {
    let mut s = String::with_capacity(n);
    let ascii = n > 400 || r.p(1, 2);
    while s.len() < n {
        let c = if ascii { (b'a' + r.us(26) as u8) as char } else { *r.pick(&CHARS) };
        if forbid.contains(&c) {
            continue;
        }
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('x');
        }
    }
    s
}

pub fn string(r: &mut Rng) -> String {
    let n = len(r);
    string_n(r, n, &[])
}

pub fn bin(r: &mut Rng) -> Vec<u8> {
    let n = len(r);
    r.bytes(n)
}

/// How many elements a list has: few mostly, rarely more than fit in one and in two bytes of length.
pub fn count(r: &mut Rng, few: usize) -> usize {
    match r.below(3000) {
        0..=11 => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 200]),
        12..=19 => *r.pick(&[254, 255, 256, 257, 300, 1000]),
        20 => *r.pick(&[4095, 4096, 5000, 16384]),
        _ => 1 + r.us(few),
    }
}

pub fn topic(r: &mut Rng) -> String {
    let n = len(r).max(1);
    string_n(r, n, &['#', '+'])
}

pub fn filter(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "#".into(),
        1 => "+/a/#".into(),
        2 => format!("$share/{}/{}", string_n(r, 3, &['/', '+', '#', '$']), topic(r).chars().take(60).collect::<String>()),
        3 => "$share2/a".into(),
        _ => {
            let t = topic(r);
            if t.starts_with("$share/") {
                "a".into()
            } else {
                t
            }
        }
    }
}

/// the filter of an entry (short ones in long lists)
fn some_filter(r: &mut Rng, i: usize) -> String {
    let f = filter(r);
    if i > 4 && f.len() > 60 {
        return format!("f/{i}");
    }
    f
}

pub fn pid(r: &mut Rng, w: usize) -> u32 {
    let max = if w == 2 { 0xffffu64 } else { 0xffff_ffff };
    match r.below(6) {
        0 => 1,
        1 => max as u32,
        2 => *r.pick(&[2u32, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0x0100]),
        3 => {
            if w == 4 {
                *r.pick(&[65535u32, 65536, 65537, 0x0100_0000, 0x00ff_ff00, 0x8000_0000])
            } else {
                0x8001
            }
        }
        _ => r.range(1, max) as u32,
    }
}

pub fn prop_value(r: &mut Rng, id: u8) -> Prop {
    let t = prop_spec(id).unwrap().t;
    let v = match t {
        PT::Byte => PV::B(r.below(2) as u8),
        PT::U16 => PV::U16(match r.below(4) {
            0 => 1,
            1 => 65535,
            2 => *r.pick(&[255, 256, 257, 0x8000]),
            _ => r.range(1, 65535) as u16,
        }),
        PT::U32 => PV::U32(match r.below(4) {
            0 => 1,
            1 => u32::MAX,
            2 => *r.pick(&[255, 256, 65535, 65536, 0x0100_0000, 0x8000_0000]),
            _ => r.range(1, u32::MAX as u64) as u32,
        }),
        PT::Vbi => PV::Vbi(match r.below(3) {
            0 => *r.pick(&[1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]),
            1 => r.range(1, 268435455) as u32,
            _ => r.range(1, 300) as u32,
        }),
        PT::Str => {
            let mut s = string(r);
            if id == 0x08 {
                s = s.replace(['#', '+'], "x");
            }
            PV::Str(s)
        }
        PT::Bin => PV::Bin(bin(r)),
        PT::Pair => PV::Pair(string(r), string(r)),
    };
    let mut p = Prop { id, v };
    // zero is legal for these
    if matches!(id, 0x13 | 0x22) && r.p(1, 6) {
        p.v = PV::U16(0);
    }
    if matches!(id, 0x02 | 0x11 | 0x18) && r.p(1, 6) {
        p.v = PV::U32(0);
    }
    p
}

pub fn props(r: &mut Rng, packet: u8) -> Vec<Prop> {
    let mut out = vec![];
    if r.p(2, 5) {
        return out;
    }
    let allowed: Vec<u8> = PROPS.iter().filter(|s| s.packets.contains(&packet)).map(|s| s.id).collect();
    let dense = r.p(1, 6);
    for id in &allowed {
        if dense || r.p(1, 4) {
            out.push(prop_value(r, *id));
            if prop_may_repeat(*id, packet) {
                let n = count(r, 4);
                for k in 1..n {
                    let mut p = prop_value(r, *id);
                    if let PV::Pair(a, b) = &mut p.v {
                        if k > 4 && a.len() + b.len() > 60 {
                            (*a, *b) = ("many".into(), k.to_string());
                        }
                    }
                    out.push(p);
                }
            }
        }
    }
    // shuffle
    for i in (1..out.len()).rev() {
        let j = r.us(i + 1);
        out.swap(i, j);
    }
    // Authentication Data needs an Authentication Method
    if out.iter().any(|p| p.id == 0x16) && !out.iter().any(|p| p.id == 0x15) {
        out.push(prop_value(r, 0x15));
    }
    out
}

pub fn payload(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(2000) {
        0 => 2_097_152 + r.us(4),
        1 => 2_097_120 + r.us(40),
        2..=20 => 16_360 + r.us(40),
        21..=200 => 100 + r.us(40),
        _ => len(r),
    };
    r.bytes(n)
}

pub fn rc_table(ver: Ver, kind: u8) -> Vec<u8> {
    (0..=255u8).filter(|c| rc_ok(ver, kind, *c)).collect()
}

pub fn packet(r: &mut Rng, ver: Ver, kind: u8, w: usize) -> APkt {
    let v5 = ver == Ver::V5;
    match kind {
        1 => {
            let will = if r.p(1, 2) {
                Some(Will {
                    topic: topic(r),
                    payload: bin(r),
                    qos: r.below(3) as u8,
                    retain: r.bool(),
                    props: if v5 { props(r, WILL) } else { vec![] },
                })
            } else {
                None
            };
            let user = if r.bool() { Some(string(r)) } else { None };
            let pass = if user.is_some() && r.bool() { Some(bin(r)) } else { None };
            APkt::Connect(AConnect {
                client_id: string(r),
                clean: r.bool(),
                keep_alive: *r.pick(&[0, 1, 10, 255, 256, 65535, 0x1234]),
                will,
                user,
                pass,
                props: if v5 { props(r, 1) } else { vec![] },
            })
        }
        2 => {
            let t = rc_table(ver, 2);
            APkt::Connack {
                sp: r.bool(),
                code: *r.pick(&t),
                props: if v5 { props(r, 2) } else { vec![] },
            }
        }
        3 => {
            let qos = r.below(3) as u8;
            let ps = if v5 { props(r, 3) } else { vec![] };
            let t = if ps.iter().any(|p| p.id == 0x23) && r.bool() { String::new() } else { topic(r) };
            APkt::Publish(APublish {
                dup: qos > 0 && r.bool(),
                qos,
                retain: r.bool(),
                topic: t,
                pid: if qos > 0 { Some(pid(r, w)) } else { None },
                props: ps,
                payload: payload(r),
            })
        }
        4..=7 => {
            let mut rc = None;
            let mut ps = None;
            if v5 && r.p(2, 3) {
                let t = rc_table(ver, kind);
                rc = Some(*r.pick(&t));
                if r.p(2, 3) {
                    ps = Some(props(r, kind));
                }
            }
            APkt::Ack { kind, pid: pid(r, w), rc, props: ps }
        }
        8 => {
            let n = count(r, 4);
            let entries = (0..n)
                .map(|i| {
                    let o = if v5 {
                        (r.below(3) | (r.below(4) << 2) | (r.below(3) << 4)) as u8
                    } else {
                        r.below(3) as u8
                    };
                    (some_filter(r, i), o)
                })
                .collect();
            APkt::Subscribe { pid: pid(r, w), props: if v5 { props(r, 8) } else { vec![] }, entries }
        }
        9 | 11 => {
            let n = match r.below(400) {
                0 => *r.pick(&[16384, 20_000, 65534, 65535, 65536, 70_000]),
                1..=9 => count(r, 4).max(250),
                _ => 1 + len(r).min(200),
            };
            let pid = pid(r, w);
            let ps = if v5 { props(r, kind) } else { vec![] };
            if kind == 11 && !v5 {
                return APkt::Unsuback { pid, props: ps, codes: vec![] };
            }
            let t = rc_table(ver, kind);
            let codes = (0..n).map(|_| *r.pick(&t)).collect();
            if kind == 9 {
                APkt::Suback { pid, props: ps, codes }
            } else {
                APkt::Unsuback { pid, props: ps, codes }
            }
        }
        10 => {
            let n = count(r, 4);
            APkt::Unsubscribe {
                pid: pid(r, w),
                props: if v5 { props(r, 10) } else { vec![] },
                entries: (0..n).map(|i| some_filter(r, i)).collect(),
            }
        }
        12 => APkt::Pingreq,
        13 => APkt::Pingresp,
        14 => {
            let mut rc = None;
            let mut ps = None;
            if v5 && r.p(3, 4) {
                let t = rc_table(ver, 14);
                rc = Some(*r.pick(&t));
                if r.p(2, 3) {
                    ps = Some(props(r, 14));
                }
            }
            APkt::Disconnect { rc, props: ps }
        }
        15 => {
            if r.p(1, 6) {
                return APkt::Auth { rc: None, props: None };
            }
            let t = rc_table(ver, 15);
            let rc = *r.pick(&t);
            let mut ps = props(r, 15);
            if (rc != 0 || !ps.is_empty()) && !ps.iter().any(|p| p.id == 0x15) {
                ps.push(prop_value(r, 0x15));
            }
            APkt::Auth { rc: Some(rc), props: Some(ps) }
        }
        _ => unreachable!(),
    }
}
