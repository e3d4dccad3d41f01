//! Independent reference codec for MQTT v3.1.1 and v5.0, written from the OASIS
//! specifications. It shares no code with the library under test.
//! `encode` writes the bytes the specification prescribes for an abstract packet,
//! `decode` is a strict parser (anything the specification calls malformed or a
//! protocol error at the packet level is rejected).

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ver {
    V311,
    V5,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PV {
    B(u8),
    U16(u16),
    U32(u32),
    Vbi(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prop {
    pub id: u8,
    pub v: PV,
}

impl Prop {
    pub fn new(id: u8, v: PV) -> Prop {
        Prop { id, v }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Will {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Vec<Prop>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct AConnect {
    pub client_id: String,
    pub clean: bool,
    pub keep_alive: u16,
    pub will: Option<Will>,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
    pub props: Vec<Prop>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct APublish {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub pid: Option<u32>,
    pub props: Vec<Prop>,
    pub payload: Vec<u8>,
}

/// Abstract packet. `Ack` covers PUBACK(4), PUBREC(5), PUBREL(6), PUBCOMP(7).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum APkt {
    Connect(AConnect),
    Connack { sp: bool, code: u8, props: Vec<Prop> },
    Publish(APublish),
    Ack { kind: u8, pid: u32, rc: Option<u8>, props: Option<Vec<Prop>> },
    Subscribe { pid: u32, props: Vec<Prop>, entries: Vec<(String, u8)> },
    Suback { pid: u32, props: Vec<Prop>, codes: Vec<u8> },
    Unsubscribe { pid: u32, props: Vec<Prop>, entries: Vec<String> },
    Unsuback { pid: u32, props: Vec<Prop>, codes: Vec<u8> },
    Pingreq,
    Pingresp,
    Disconnect { rc: Option<u8>, props: Option<Vec<Prop>> },
    Auth { rc: Option<u8>, props: Option<Vec<Prop>> },
}

pub const KIND_NAMES: [&str; 16] = [
    "RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
    "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH",
];

impl APkt {
    pub fn kind(&self) -> u8 {
        match self {
            APkt::Connect(_) => 1,
            APkt::Connack { .. } => 2,
            APkt::Publish(_) => 3,
            APkt::Ack { kind, .. } => *kind,
            APkt::Subscribe { .. } => 8,
            APkt::Suback { .. } => 9,
            APkt::Unsubscribe { .. } => 10,
            APkt::Unsuback { .. } => 11,
            APkt::Pingreq => 12,
            APkt::Pingresp => 13,
            APkt::Disconnect { .. } => 14,
            APkt::Auth { .. } => 15,
        }
    }
    pub fn name(&self) -> &'static str {
        KIND_NAMES[self.kind() as usize]
    }
    pub fn pid(&self) -> Option<u32> {
        match self {
            APkt::Publish(p) => p.pid,
            APkt::Ack { pid, .. }
            | APkt::Subscribe { pid, .. }
            | APkt::Suback { pid, .. }
            | APkt::Unsubscribe { pid, .. }
            | APkt::Unsuback { pid, .. } => Some(*pid),
            _ => None,
        }
    }
    /// Properties of the packet proper (not the will).
    pub fn props(&self) -> &[Prop] {
        match self {
            APkt::Connect(c) => &c.props,
            APkt::Connack { props, .. }
            | APkt::Subscribe { props, .. }
            | APkt::Suback { props, .. }
            | APkt::Unsubscribe { props, .. }
            | APkt::Unsuback { props, .. } => props,
            APkt::Publish(p) => &p.props,
            APkt::Ack { props, .. } | APkt::Disconnect { props, .. } | APkt::Auth { props, .. } => {
                props.as_deref().unwrap_or(&[])
            }
            _ => &[],
        }
    }
    /// Forms that mean the same on the wire level of the specification:
    /// omitted reason code == 0x00, omitted property section == empty one.
    pub fn normalised(&self) -> APkt {
        let n = |rc: &Option<u8>, props: &Option<Vec<Prop>>| {
            (Some(rc.unwrap_or(0)), Some(props.clone().unwrap_or_default()))
        };
        match self {
            APkt::Ack { kind, pid, rc, props } => {
                let (rc, props) = n(rc, props);
                APkt::Ack { kind: *kind, pid: *pid, rc, props }
            }
            APkt::Disconnect { rc, props } => {
                let (rc, props) = n(rc, props);
                APkt::Disconnect { rc, props }
            }
            APkt::Auth { rc, props } => {
                let (rc, props) = n(rc, props);
                APkt::Auth { rc, props }
            }
            p => p.clone(),
        }
    }
    pub fn prop_u16(&self, id: u8) -> Option<u16> {
        self.props().iter().find(|p| p.id == id).and_then(|p| match p.v {
            PV::U16(x) => Some(x),
            _ => None,
        })
    }
    pub fn prop_u32(&self, id: u8) -> Option<u32> {
        self.props().iter().find(|p| p.id == id).and_then(|p| match p.v {
            PV::U32(x) => Some(x),
            _ => None,
        })
    }
    pub fn rc(&self) -> u8 {
        match self {
            APkt::Ack { rc, .. } | APkt::Disconnect { rc, .. } | APkt::Auth { rc, .. } => {
                rc.unwrap_or(0)
            }
            APkt::Connack { code, .. } => *code,
            _ => 0,
        }
    }
}

// ---- property table (MQTT v5.0, table 2-4) -------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PT {
    Byte,
    U16,
    U32,
    Vbi,
    Str,
    Bin,
    Pair,
}

/// packet classes of table 2-4; 16 = the will section of CONNECT
pub const WILL: u8 = 16;

pub struct PropSpec {
    pub id: u8,
    pub name: &'static str,
    pub t: PT,
    pub packets: &'static [u8],
}

pub const PROPS: [PropSpec; 27] = [
    PropSpec { id: 0x01, name: "PayloadFormatIndicator", t: PT::Byte, packets: &[3, WILL] },
    PropSpec { id: 0x02, name: "MessageExpiryInterval", t: PT::U32, packets: &[3, WILL] },
    PropSpec { id: 0x03, name: "ContentType", t: PT::Str, packets: &[3, WILL] },
    PropSpec { id: 0x08, name: "ResponseTopic", t: PT::Str, packets: &[3, WILL] },
    PropSpec { id: 0x09, name: "CorrelationData", t: PT::Bin, packets: &[3, WILL] },
    PropSpec { id: 0x0B, name: "SubscriptionIdentifier", t: PT::Vbi, packets: &[3, 8] },
    PropSpec { id: 0x11, name: "SessionExpiryInterval", t: PT::U32, packets: &[1, 2, 14] },
    PropSpec { id: 0x12, name: "AssignedClientIdentifier", t: PT::Str, packets: &[2] },
    PropSpec { id: 0x13, name: "ServerKeepAlive", t: PT::U16, packets: &[2] },
    PropSpec { id: 0x15, name: "AuthenticationMethod", t: PT::Str, packets: &[1, 2, 15] },
    PropSpec { id: 0x16, name: "AuthenticationData", t: PT::Bin, packets: &[1, 2, 15] },
    PropSpec { id: 0x17, name: "RequestProblemInformation", t: PT::Byte, packets: &[1] },
    PropSpec { id: 0x18, name: "WillDelayInterval", t: PT::U32, packets: &[WILL] },
    PropSpec { id: 0x19, name: "RequestResponseInformation", t: PT::Byte, packets: &[1] },
    PropSpec { id: 0x1A, name: "ResponseInformation", t: PT::Str, packets: &[2] },
    PropSpec { id: 0x1C, name: "ServerReference", t: PT::Str, packets: &[2, 14] },
    PropSpec {
        id: 0x1F,
        name: "ReasonString",
        t: PT::Str,
        packets: &[2, 4, 5, 6, 7, 9, 11, 14, 15],
    },
    PropSpec { id: 0x21, name: "ReceiveMaximum", t: PT::U16, packets: &[1, 2] },
    PropSpec { id: 0x22, name: "TopicAliasMaximum", t: PT::U16, packets: &[1, 2] },
    PropSpec { id: 0x23, name: "TopicAlias", t: PT::U16, packets: &[3] },
    PropSpec { id: 0x24, name: "MaximumQoS", t: PT::Byte, packets: &[2] },
    PropSpec { id: 0x25, name: "RetainAvailable", t: PT::Byte, packets: &[2] },
    PropSpec {
        id: 0x26,
        name: "UserProperty",
        t: PT::Pair,
        packets: &[1, 2, 3, WILL, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15],
    },
    PropSpec { id: 0x27, name: "MaximumPacketSize", t: PT::U32, packets: &[1, 2] },
    PropSpec { id: 0x28, name: "WildcardSubscriptionAvailable", t: PT::Byte, packets: &[2] },
    PropSpec { id: 0x29, name: "SubscriptionIdentifierAvailable", t: PT::Byte, packets: &[2] },
    PropSpec { id: 0x2A, name: "SharedSubscriptionAvailable", t: PT::Byte, packets: &[2] },
];

pub fn prop_spec(id: u8) -> Option<&'static PropSpec> {
    PROPS.iter().find(|p| p.id == id)
}

pub fn prop_allowed(id: u8, packet: u8) -> bool {
    prop_spec(id).map_or(false, |p| p.packets.contains(&packet))
}

pub fn prop_may_repeat(id: u8, packet: u8) -> bool {
    id == 0x26 || (id == 0x0B && packet == 3)
}

/// value rules of section 2.2.2 / 3.x for a single property
pub fn prop_value_ok(p: &Prop) -> bool {
    match (p.id, &p.v) {
        (0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A, PV::B(b)) => *b <= 1,
        (0x21 | 0x23, PV::U16(x)) => *x != 0,
        (0x27, PV::U32(x)) => *x != 0,
        (0x0B, PV::Vbi(x)) => *x != 0 && *x <= 268_435_455,
        _ => true,
    }
}

/// reason code tables of the v5.0 specification (v3.1.1 return codes for `Ver::V311`)
pub fn rc_ok(ver: Ver, kind: u8, rc: u8) -> bool {
    match (ver, kind) {
        (Ver::V311, 2) => rc <= 5,
        (Ver::V311, 9) => matches!(rc, 0 | 1 | 2 | 0x80),
        (Ver::V311, _) => false,
        (Ver::V5, 2) => matches!(
            rc,
            0x00 | 0x80..=0x8A | 0x8C | 0x90 | 0x95 | 0x97 | 0x99..=0x9D | 0x9F
        ),
        (Ver::V5, 4) | (Ver::V5, 5) => {
            matches!(rc, 0x00 | 0x10 | 0x80 | 0x83 | 0x87 | 0x90 | 0x91 | 0x97 | 0x99)
        }
        (Ver::V5, 6) | (Ver::V5, 7) => matches!(rc, 0x00 | 0x92),
        (Ver::V5, 9) => matches!(
            rc,
            0 | 1 | 2 | 0x80 | 0x83 | 0x87 | 0x8F | 0x91 | 0x97 | 0x9E | 0xA1 | 0xA2
        ),
        (Ver::V5, 11) => matches!(rc, 0x00 | 0x11 | 0x80 | 0x83 | 0x87 | 0x8F | 0x91),
        (Ver::V5, 14) => matches!(
            rc,
            0x00 | 0x04 | 0x80..=0x83 | 0x87 | 0x89 | 0x8B | 0x8D..=0x90 | 0x93..=0xA2
        ),
        (Ver::V5, 15) => matches!(rc, 0x00 | 0x18 | 0x19),
        _ => false,
    }
}

// ---- encoder ---------------------------------------------------------------------------------

pub fn vbi(mut x: u32) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if x != 0 {
            v.push(b | 0x80);
        } else {
            v.push(b);
            return v;
        }
    }
}

fn put_str(o: &mut Vec<u8>, s: &str) {
    put_bin(o, s.as_bytes());
}

fn put_bin(o: &mut Vec<u8>, s: &[u8]) {
    assert!(s.len() <= 65535);
    o.extend_from_slice(&(s.len() as u16).to_be_bytes());
    o.extend_from_slice(s);
}

pub fn enc_prop(p: &Prop) -> Vec<u8> {
    let mut o = vec![p.id];
    match &p.v {
        PV::B(b) => o.push(*b),
        PV::U16(x) => o.extend_from_slice(&x.to_be_bytes()),
        PV::U32(x) => o.extend_from_slice(&x.to_be_bytes()),
        PV::Vbi(x) => o.extend(vbi(*x)),
        PV::Str(s) => put_str(&mut o, s),
        PV::Bin(b) => put_bin(&mut o, b),
        PV::Pair(a, b) => {
            put_str(&mut o, a);
            put_str(&mut o, b);
        }
    }
    o
}

fn put_props(o: &mut Vec<u8>, ps: &[Prop]) {
    let mut b = vec![];
    for p in ps {
        b.extend(enc_prop(p));
    }
    o.extend(vbi(b.len() as u32));
    o.extend(b);
}

fn put_pid(o: &mut Vec<u8>, pid: u32, w: usize) {
    if w == 2 {
        assert!(pid <= 0xffff);
        o.extend_from_slice(&(pid as u16).to_be_bytes());
    } else {
        o.extend_from_slice(&pid.to_be_bytes());
    }
}

/// Encoded body (everything after the fixed header) and the fixed header's first byte.
pub fn encode_body(p: &APkt, ver: Ver, w: usize) -> (u8, Vec<u8>) {
    let v5 = ver == Ver::V5;
    let mut o = vec![];
    let mut flags = 0u8;
    match p {
        APkt::Connect(c) => {
            put_str(&mut o, "MQTT");
            o.push(if v5 { 5 } else { 4 });
            let mut f = 0u8;
            if c.clean {
                f |= 2;
            }
            if let Some(wl) = &c.will {
                f |= 4 | (wl.qos << 3);
                if wl.retain {
                    f |= 0x20;
                }
            }
            if c.pass.is_some() {
                f |= 0x40;
            }
            if c.user.is_some() {
                f |= 0x80;
            }
            o.push(f);
            o.extend_from_slice(&c.keep_alive.to_be_bytes());
            if v5 {
                put_props(&mut o, &c.props);
            }
            put_str(&mut o, &c.client_id);
            if let Some(wl) = &c.will {
                if v5 {
                    put_props(&mut o, &wl.props);
                }
                put_str(&mut o, &wl.topic);
                put_bin(&mut o, &wl.payload);
            }
            if let Some(u) = &c.user {
                put_str(&mut o, u);
            }
            if let Some(pw) = &c.pass {
                put_bin(&mut o, pw);
            }
        }
        APkt::Connack { sp, code, props } => {
            o.push(*sp as u8);
            o.push(*code);
            if v5 {
                put_props(&mut o, props);
            }
        }
        APkt::Publish(p) => {
            flags = ((p.dup as u8) << 3) | (p.qos << 1) | p.retain as u8;
            put_str(&mut o, &p.topic);
            if let Some(pid) = p.pid {
                put_pid(&mut o, pid, w);
            }
            if v5 {
                put_props(&mut o, &p.props);
            }
            o.extend_from_slice(&p.payload);
        }
        APkt::Ack { kind, pid, rc, props } => {
            if *kind == 6 {
                flags = 2;
            }
            put_pid(&mut o, *pid, w);
            if let Some(rc) = rc {
                o.push(*rc);
            }
            if let Some(ps) = props {
                put_props(&mut o, ps);
            }
        }
        APkt::Subscribe { pid, props, entries } => {
            flags = 2;
            put_pid(&mut o, *pid, w);
            if v5 {
                put_props(&mut o, props);
            }
            for (t, q) in entries {
                put_str(&mut o, t);
                o.push(*q);
            }
        }
        APkt::Suback { pid, props, codes } => {
            put_pid(&mut o, *pid, w);
            if v5 {
                put_props(&mut o, props);
            }
            o.extend_from_slice(codes);
        }
        APkt::Unsubscribe { pid, props, entries } => {
            flags = 2;
            put_pid(&mut o, *pid, w);
            if v5 {
                put_props(&mut o, props);
            }
            for t in entries {
                put_str(&mut o, t);
            }
        }
        APkt::Unsuback { pid, props, codes } => {
            put_pid(&mut o, *pid, w);
            if v5 {
                put_props(&mut o, props);
                o.extend_from_slice(codes);
            }
        }
        APkt::Pingreq | APkt::Pingresp => {}
        APkt::Disconnect { rc, props } | APkt::Auth { rc, props } => {
            if let Some(rc) = rc {
                o.push(*rc);
            }
            if let Some(ps) = props {
                put_props(&mut o, ps);
            }
        }
    }
    ((p.kind() << 4) | flags, o)
}

pub fn encode(p: &APkt, ver: Ver, w: usize) -> Vec<u8> {
    let (h, b) = encode_body(p, ver, w);
    let mut o = vec![h];
    o.extend(vbi(b.len() as u32));
    o.extend(b);
    o
}

// ---- decoder ---------------------------------------------------------------------------------

struct Rd<'a> {
    d: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> Rd<'a> {
    fn left(&self) -> usize {
        self.d.len() - self.i
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return Err(format!("truncated: need {} at {}, have {}", n, self.i, self.left()));
        }
        let s = &self.d[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn vbi(&mut self) -> R<u32> {
        let mut x = 0u32;
        for k in 0..4 {
            let b = self.u8()?;
            x |= ((b & 0x7f) as u32) << (7 * k);
            if b & 0x80 == 0 {
                if k > 0 && b == 0 {
                    return Err("non-minimal variable byte integer".into());
                }
                return Ok(x);
            }
        }
        Err("variable byte integer longer than four bytes".into())
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        String::from_utf8(self.bin()?).map_err(|_| "ill-formed UTF-8".to_string())
    }
    fn pid(&mut self, w: usize) -> R<u32> {
        let x = if w == 2 { self.u16()? as u32 } else { self.u32()? };
        if x == 0 {
            return Err("packet identifier 0".into());
        }
        Ok(x)
    }
    fn props(&mut self, packet: u8) -> R<Vec<Prop>> {
        let n = self.vbi()? as usize;
        let body = self.take(n)?;
        let mut r = Rd { d: body, i: 0 };
        let mut out: Vec<Prop> = vec![];
        while r.left() > 0 {
            let id = r.u8()?;
            let spec = prop_spec(id).ok_or(format!("unknown property {id}"))?;
            let v = match spec.t {
                PT::Byte => PV::B(r.u8()?),
                PT::U16 => PV::U16(r.u16()?),
                PT::U32 => PV::U32(r.u32()?),
                PT::Vbi => PV::Vbi(r.vbi()?),
                PT::Str => PV::Str(r.str()?),
                PT::Bin => PV::Bin(r.bin()?),
                PT::Pair => PV::Pair(r.str()?, r.str()?),
            };
            let p = Prop { id, v };
            if !spec.packets.contains(&packet) {
                return Err(format!("property {} not allowed in {}", spec.name, packet));
            }
            if !prop_value_ok(&p) {
                return Err(format!("property value {p:?} not allowed"));
            }
            if !prop_may_repeat(id, packet) && out.iter().any(|q| q.id == id) {
                return Err(format!("property {} repeated", spec.name));
            }
            out.push(p);
        }
        Ok(out)
    }
}

/// Splits one packet off the front: (first byte, body, total length). None: incomplete.
pub fn frame(d: &[u8]) -> R<Option<(u8, &[u8], usize)>> {
    if d.is_empty() {
        return Ok(None);
    }
    let mut len = 0usize;
    for k in 0..4 {
        if d.len() <= 1 + k {
            return Ok(None);
        }
        let b = d[1 + k];
        len |= ((b & 0x7f) as usize) << (7 * k);
        if b & 0x80 == 0 {
            let tot = 2 + k + len;
            if d.len() < tot {
                return Ok(None);
            }
            return Ok(Some((d[0], &d[2 + k..tot], tot)));
        }
    }
    Err("remaining length longer than four bytes".into())
}

/// Decodes exactly one whole packet.
pub fn decode(d: &[u8], ver: Ver, w: usize) -> R<APkt> {
    match frame(d)? {
        Some((h, body, n)) if n == d.len() => {
            // minimality of the Remaining Length
            if d[1..].len() - body.len() != vbi(body.len() as u32).len() {
                return Err("non-minimal remaining length".into());
            }
            decode_body(h, body, ver, w)
        }
        Some(_) => Err("trailing bytes".into()),
        None => Err("incomplete packet".into()),
    }
}

pub fn decode_body(h: u8, body: &[u8], ver: Ver, w: usize) -> R<APkt> {
    let kind = h >> 4;
    let fl = h & 15;
    let v5 = ver == Ver::V5;
    let want = match kind {
        3 => fl,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if fl != want {
        return Err(format!("fixed header flags {fl}"));
    }
    let mut r = Rd { d: body, i: 0 };
    let p = match kind {
        1 => {
            if r.str()? != "MQTT" {
                return Err("protocol name".into());
            }
            if r.u8()? != if v5 { 5 } else { 4 } {
                return Err("protocol level".into());
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err("reserved connect flag".into());
            }
            let wq = (f >> 3) & 3;
            if f & 4 == 0 && f & 0x38 != 0 {
                return Err("will flags without will".into());
            }
            if wq == 3 {
                return Err("will qos 3".into());
            }
            if !v5 && f & 0x80 == 0 && f & 0x40 != 0 {
                return Err("password without user name".into());
            }
            let keep_alive = r.u16()?;
            let props = if v5 { r.props(1)? } else { vec![] };
            let client_id = r.str()?;
            let will = if f & 4 != 0 {
                let props = if v5 { r.props(WILL)? } else { vec![] };
                let topic = r.str()?;
                let payload = r.bin()?;
                Some(Will { topic, payload, qos: wq, retain: f & 0x20 != 0, props })
            } else {
                None
            };
            let user = if f & 0x80 != 0 { Some(r.str()?) } else { None };
            let pass = if f & 0x40 != 0 { Some(r.bin()?) } else { None };
            APkt::Connect(AConnect {
                client_id,
                clean: f & 2 != 0,
                keep_alive,
                will,
                user,
                pass,
                props,
            })
        }
        2 => {
            let f = r.u8()?;
            if f & 0xfe != 0 {
                return Err("connack flags".into());
            }
            let code = r.u8()?;
            if !rc_ok(ver, 2, code) {
                return Err("connack code".into());
            }
            let props = if v5 { r.props(2)? } else { vec![] };
            APkt::Connack { sp: f & 1 != 0, code, props }
        }
        3 => {
            let qos = (fl >> 1) & 3;
            if qos == 3 {
                return Err("qos 3".into());
            }
            let topic = r.str()?;
            if topic.contains(['#', '+']) {
                return Err("wildcard in topic name".into());
            }
            let pid = if qos > 0 { Some(r.pid(w)?) } else { None };
            let props = if v5 { r.props(3)? } else { vec![] };
            if topic.is_empty() && !props.iter().any(|p| p.id == 0x23) {
                return Err("empty topic name without alias".into());
            }
            let payload = r.take(r.left())?.to_vec();
            APkt::Publish(APublish {
                dup: fl & 8 != 0,
                qos,
                retain: fl & 1 != 0,
                topic,
                pid,
                props,
                payload,
            })
        }
        4..=7 => {
            let pid = r.pid(w)?;
            let mut rc = None;
            let mut props = None;
            if v5 && r.left() > 0 {
                let c = r.u8()?;
                if !rc_ok(ver, kind, c) {
                    return Err("reason code".into());
                }
                rc = Some(c);
                if r.left() > 0 {
                    props = Some(r.props(kind)?);
                }
            }
            APkt::Ack { kind, pid, rc, props }
        }
        8 => {
            let pid = r.pid(w)?;
            let props = if v5 { r.props(8)? } else { vec![] };
            let mut entries = vec![];
            while r.left() > 0 {
                let t = r.str()?;
                let o = r.u8()?;
                let bad = if v5 {
                    o & 0xc0 != 0 || o & 3 == 3 || (o >> 4) & 3 == 3
                } else {
                    o > 2
                };
                if bad {
                    return Err("subscription options".into());
                }
                entries.push((t, o));
            }
            if entries.is_empty() {
                return Err("no entries".into());
            }
            APkt::Subscribe { pid, props, entries }
        }
        10 => {
            let pid = r.pid(w)?;
            let props = if v5 { r.props(10)? } else { vec![] };
            let mut entries = vec![];
            while r.left() > 0 {
                entries.push(r.str()?);
            }
            if entries.is_empty() {
                return Err("no entries".into());
            }
            APkt::Unsubscribe { pid, props, entries }
        }
        9 => {
            let pid = r.pid(w)?;
            let props = if v5 { r.props(9)? } else { vec![] };
            let codes = r.take(r.left())?.to_vec();
            if codes.is_empty() || codes.iter().any(|c| !rc_ok(ver, 9, *c)) {
                return Err("suback codes".into());
            }
            APkt::Suback { pid, props, codes }
        }
        11 => {
            let pid = r.pid(w)?;
            let mut props = vec![];
            let mut codes = vec![];
            if v5 {
                props = r.props(11)?;
                codes = r.take(r.left())?.to_vec();
                if codes.is_empty() || codes.iter().any(|c| !rc_ok(ver, 11, *c)) {
                    return Err("unsuback codes".into());
                }
            }
            APkt::Unsuback { pid, props, codes }
        }
        12 => APkt::Pingreq,
        13 => APkt::Pingresp,
        14 | 15 => {
            if kind == 15 && !v5 {
                return Err("AUTH in v3.1.1".into());
            }
            let mut rc = None;
            let mut props = None;
            if v5 && r.left() > 0 {
                let c = r.u8()?;
                if !rc_ok(ver, kind, c) {
                    return Err("reason code".into());
                }
                rc = Some(c);
                if r.left() > 0 {
                    props = Some(r.props(kind)?);
                }
            }
            if kind == 14 {
                APkt::Disconnect { rc, props }
            } else {
                APkt::Auth { rc, props }
            }
        }
        _ => return Err("reserved packet type".into()),
    };
    if r.left() != 0 {
        return Err(format!("{} trailing bytes in {}", r.left(), KIND_NAMES[kind as usize]));
    }
    Ok(p)
}
