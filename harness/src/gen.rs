//! Random packets (as neutral records), and an encoder of its own for them that
//! uses every liberty the standard allows: any property order, short and long
//! forms. It notes where in the frame what lies, so that faults can be planted.
use crate::json::*;
use crate::rng::Rng;

pub const TYPES: [&str; 14] = [
    "Connect", "ConnAck", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe",
    "SubAck", "Unsubscribe", "UnsubAck", "PingReq", "PingResp", "Disconnect",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    U8,
    U16,
    U32,
    Var,
    Text,
    Data,
    Pair,
}
use Ty::*;

pub const PROPS: [(u8, &str, Ty); 27] = [
    (1, "PayloadFormatIndicator", U8),
    (2, "MessageExpiryInterval", U32),
    (3, "ContentType", Text),
    (8, "ResponseTopic", Text),
    (9, "CorrelationData", Data),
    (11, "SubscriptionIdentifier", Var),
    (17, "SessionExpiryInterval", U32),
    (18, "AssignedClientIdentifier", Text),
    (19, "ServerKeepAlive", U16),
    (21, "AuthenticationMethod", Text),
    (22, "AuthenticationData", Data),
    (23, "RequestProblemInformation", U8),
    (24, "WillDelayInterval", U32),
    (25, "RequestResponseInformation", U8),
    (26, "ResponseInformation", Text),
    (28, "ServerReference", Text),
    (31, "ReasonString", Text),
    (33, "ReceiveMaximum", U16),
    (34, "TopicAliasMaximum", U16),
    (35, "TopicAlias", U16),
    (36, "MaximumQos", U8),
    (37, "RetainAvailable", U8),
    (38, "UserProperty", Pair),
    (39, "MaximumPacketSize", U32),
    (40, "WildcardSubscriptionAvailable", U8),
    (41, "SubscriptionIdentifierAvailable", U8),
    (42, "SharedSubscriptionAvailable", U8),
];

pub fn prop(name: &str) -> (u8, &'static str, Ty) {
    *PROPS.iter().find(|p| p.1 == name).expect("harness: property name")
}
pub fn prop_by_id(id: u8) -> Option<(u8, &'static str, Ty)> {
    PROPS.iter().find(|p| p.0 == id).copied()
}

pub fn allowed(place: &str) -> &'static [u8] {
    match place {
        "Connect" => &[17, 21, 22, 23, 25, 33, 34, 38, 39],
        "Will" => &[1, 2, 3, 8, 9, 24, 38],
        "ConnAck" => &[17, 18, 19, 21, 22, 26, 28, 31, 33, 34, 36, 37, 38, 39, 40, 41, 42],
        "Publish" => &[1, 2, 3, 8, 9, 11, 35, 38],
        "Subscribe" => &[11, 38],
        "Unsubscribe" => &[38],
        "Disconnect" => &[17, 28, 31, 38],
        _ => &[31, 38],
    }
}

pub fn codes(ver: i64, t: &str) -> &'static [(&'static str, u8)] {
    match (ver, t) {
        (4, "ConnAck") => &[
            ("Success", 0), ("RefusedProtocolVersion", 1), ("BadClientId", 2),
            ("ServiceUnavailable", 3), ("BadUserNamePassword", 4), ("NotAuthorized", 5),
        ],
        (4, "SubAck") => &[("QoS0", 0), ("QoS1", 1), ("QoS2", 2), ("Failure", 128)],
        (5, "ConnAck") => &[
            ("Success", 0), ("UnspecifiedError", 128), ("MalformedPacket", 129),
            ("ProtocolError", 130), ("ImplementationSpecificError", 131),
            ("UnsupportedProtocolVersion", 132), ("ClientIdentifierNotValid", 133),
            ("BadUserNamePassword", 134), ("NotAuthorized", 135), ("ServerUnavailable", 136),
            ("ServerBusy", 137), ("Banned", 138), ("BadAuthenticationMethod", 140),
            ("TopicNameInvalid", 144), ("PacketTooLarge", 149), ("QuotaExceeded", 151),
            ("PayloadFormatInvalid", 153), ("RetainNotSupported", 154), ("QoSNotSupported", 155),
            ("UseAnotherServer", 156), ("ServerMoved", 157), ("ConnectionRateExceeded", 159),
        ],
        (5, "PubAck") | (5, "PubRec") => &[
            ("Success", 0), ("NoMatchingSubscribers", 16), ("UnspecifiedError", 128),
            ("ImplementationSpecificError", 131), ("NotAuthorized", 135),
            ("TopicNameInvalid", 144), ("PacketIdentifierInUse", 145), ("QuotaExceeded", 151),
            ("PayloadFormatInvalid", 153),
        ],
        (5, "PubRel") | (5, "PubComp") => &[("Success", 0), ("PacketIdentifierNotFound", 146)],
        (5, "SubAck") => &[
            ("QoS0", 0), ("QoS1", 1), ("QoS2", 2), ("Unspecified", 128),
            ("ImplementationSpecific", 131), ("NotAuthorized", 135), ("TopicFilterInvalid", 143),
            ("PkidInUse", 145), ("QuotaExceeded", 151), ("SharedSubscriptionsNotSupported", 158),
            ("SubscriptionIdNotSupported", 161), ("WildcardSubscriptionsNotSupported", 162),
        ],
        (5, "UnsubAck") => &[
            ("Success", 0), ("NoSubscriptionExisted", 17), ("UnspecifiedError", 128),
            ("ImplementationSpecificError", 131), ("NotAuthorized", 135),
            ("TopicFilterInvalid", 143), ("PacketIdentifierInUse", 145),
        ],
        (5, "Disconnect") => &[
            ("NormalDisconnection", 0), ("DisconnectWithWillMessage", 4),
            ("UnspecifiedError", 128), ("MalformedPacket", 129), ("ProtocolError", 130),
            ("ImplementationSpecificError", 131), ("NotAuthorized", 135), ("ServerBusy", 137),
            ("ServerShuttingDown", 139), ("KeepAliveTimeout", 141), ("SessionTakenOver", 142),
            ("TopicFilterInvalid", 143), ("TopicNameInvalid", 144),
            ("ReceiveMaximumExceeded", 147), ("TopicAliasInvalid", 148), ("PacketTooLarge", 149),
            ("MessageRateTooHigh", 150), ("QuotaExceeded", 151), ("AdministrativeAction", 152),
            ("PayloadFormatInvalid", 153), ("RetainNotSupported", 154), ("QoSNotSupported", 155),
            ("UseAnotherServer", 156), ("ServerMoved", 157),
            ("SharedSubscriptionNotSupported", 158), ("ConnectionRateExceeded", 159),
            ("MaximumConnectTime", 160), ("SubscriptionIdentifiersNotSupported", 161),
            ("WildcardSubscriptionsNotSupported", 162),
        ],
        _ => &[("Success", 0)],
    }
}

pub fn code_num(ver: i64, t: &str, name: &str) -> u8 {
    codes(ver, t).iter().find(|c| c.0 == name).expect("harness: code name").1
}

// ------------------------------------------------------------------ values --

const EDGE: [u32; 14] = [
    0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xe9, 0x4e2d,
    0x1f600, 0xfeff,
];

fn ch(r: &mut Rng) -> char {
    match r.below(6) {
        0 => char::from_u32(*r.pick(&EDGE)).unwrap(),
        1 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
        2 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
        3 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
        _ => char::from_u32(r.range(0x21, 0x7e) as u32).unwrap(),
    }
}

/// Characters that careless code treats specially. (U+0000 is not among them:
/// no MQTT text may hold it.)
const ODD: [&str; 30] = [
    "\u{feff}", " ", "\t", "\n", "\r", "\u{1}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}",
    "\u{200b}", "\u{200e}", "\u{2028}", "\u{fdd0}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "$", "%",
    "\"", "'", "\\", "/", "A", "MQTT", "\u{301}", "$share/g/", "é",
];
/// Texts that mean something somewhere in the world of MQTT.
pub const KNOWN: [&str; 32] = [
    "$SYS/broker", "$SYS/a", "$SYS", "$share/g/t", "$queue/t", "$delayed/5/t", "$", "MQTT", "MQIsdp", "guest", "root",
    "admin", "user", "password", "null", "none", "true", "0", "1", "-1", "127.0.0.1", "utf-8", "text/plain",
    "application/json", "application/octet-stream", "test", "will", "last", "/", "//", "a/b/c", "anonymous",
];
/// Texts with a structure that somebody may take apart, or put straight.
pub const PHRASES: [&str; 44] = [
    "text/plain; charset=utf-8", "text/plain;charset=UTF-8", "Host.Example.Org:1883", "HOST", "MQTT://User:Pw@host:1883/Path?x=1&y=2#f",
    "[::1]:8883", "192.168.0.1:1883", "{\"a\": 1}", "SCRAM-SHA-256", " a b ", "a%2Fb", "a=b;c=d", "a, b", "a,b", "a\r\nb", "line\n",
    "\nline", "007", "1e3", "0x10", "+1", "#", "+", "a/+/b/#", "$share/g/+/#", "$share/g", "C:\\dir", "../a", "./a", "a//b", "/a", "a/",
    "a/b/../c", "RÉSUMÉ", "e\u{301}", "ß", "İ", "\u{1f1e9}\u{1f1ea}", "\u{200f}abc", "<a>&amp;</a>", "'; --", "a\tb", "\"q\"", "a@b.example",
];
thread_local! {
    static LONGER: std::cell::Cell<usize> = std::cell::Cell::new(0);
    static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
/// One text in `n` is long from now on (0: none).
pub fn longer(n: usize) {
    LONGER.with(|l| l.set(n));
}
/// Forget what earlier cases left behind: a case depends on its seed only.
pub fn fresh_case() {
    longer(0);
    LAST.with(|l| l.borrow_mut().clear());
}

/// Text without the characters a topic may not have, when `plain`.
pub fn text(r: &mut Rng, max: usize, plain: bool) -> String {
    let n = match r.below(30) {
        0..=2 => 0,
        3..=20 => r.range(1, 5),
        21..=26 => r.range(1, 20),
        27..=28 => r.range(0, max),
        // long enough for both length bytes to matter
        _ => *r.pick(&[30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]),
    };
    let rare = LONGER.with(|l| l.get());
    let n = if rare > 0 && r.one_in(rare) { *r.pick(&[511, 512, 513, 600, 1023, 1024, 1025, 2048, 3000, 4096, 4097]) } else { n };
    if r.one_in(20) {
        let k = if r.coin() { r.pick(&PHRASES).to_string() } else { r.pick(&KNOWN).to_string() };
        if plain && (k.contains('+') || k.contains('#')) {
            return "a;b".into();
        }
        LAST.with(|l| *l.borrow_mut() = k.clone());
        return k;
    }
    if r.one_in(25) {
        // the same as some other field of this packet
        let l = LAST.with(|l| l.borrow().clone());
        if !(plain && (l.contains('+') || l.contains('#'))) {
            return l;
        }
    }
    let ascii = r.coin();
    let mut out = String::new();
    while out.len() < n {
        let c = if ascii { (b'a' + r.below(26) as u8) as char } else { ch(r) };
        if plain && (c == '+' || c == '#') {
            continue;
        }
        out.push(c);
    }
    match r.below(30) {
        0 => out.insert_str(0, *r.pick(&ODD)),
        1 => out.push_str(*r.pick(&ODD)),
        2 => out = r.pick(&ODD).to_string(),
        3 => {
            out.insert_str(0, *r.pick(&ODD));
            out.push_str(*r.pick(&ODD));
        }
        4 => {
            let k = out.char_indices().map(|x| x.0).nth(r.below(4)).unwrap_or(0);
            out.insert_str(k, *r.pick(&ODD));
        }
        _ => {}
    }
    LAST.with(|l| *l.borrow_mut() = out.clone());
    out
}

pub fn data(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1..=5 => r.range(1, 8),
        _ => r.range(0, max),
    };
    (0..n).map(|_| if r.one_in(3) { *r.pick(&[0u8, 1, 38, 127, 128, 255, 35, 43]) } else { r.byte() }).collect()
}

pub fn topic(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut l = Vec::new();
    for _ in 0..n {
        l.push(text(r, 30, true));
    }
    let t = l.join("/");
    if t.is_empty() && !r.one_in(30) {
        "t".into()
    } else {
        t
    }
}

pub fn filter(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut l = Vec::new();
    for k in 0..n {
        l.push(match r.below(6) {
            0 => "+".to_string(),
            1 if k == n - 1 => "#".to_string(),
            _ => text(r, 30, true),
        });
    }
    let t = l.join("/");
    if t.is_empty() && !r.one_in(30) {
        "f".into()
    } else {
        t
    }
}

fn num16(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535]),
        1 => r.range(0, 300),
        _ => r.range(0, 65535),
    }
}
pub fn pkid(r: &mut Rng) -> usize {
    if r.one_in(40) {
        0
    } else {
        num16(r).max(1)
    }
}
pub fn varnum(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => *r.pick(&[1, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 2097153, 268435454, 268435455]),
        1 => r.range(1, 300),
        2 => r.range(1, 3_000_000),
        _ => r.range(1, 268435455),
    }
}

fn prop_value(r: &mut Rng, id: u8, ty: Ty) -> J {
    match ty {
        U8 => J::Y(vec![if r.one_in(12) { r.byte() } else { r.below(2) as u8 }]),
        U16 => {
            let v = if matches!(id, 33 | 35) && !r.one_in(12) { num16(r).max(1) } else { num16(r) };
            J::Y(vec![(v >> 8) as u8, v as u8])
        }
        U32 => {
            let b = [r.byte(), r.byte(), r.byte(), r.byte()];
            let e: [[u8; 4]; 7] = [[0; 4], [0, 1, 0, 0], [0, 0, 0, 1], [255; 4], [127, 255, 255, 255], [128, 0, 0, 0], [1, 2, 3, 4]];
            // a maximum packet size of zero is not allowed
            let k = (id == 39 && !r.one_in(12)) as usize;
            J::Y(if r.one_in(3) { r.pick(&e[k..]).to_vec() } else { b.to_vec() })
        }
        Var => J::A(vec![i(varnum(r))]),
        Text => J::Y(if id == 8 { topic(r) } else { text(r, 60, false) }.into_bytes()),
        Data => J::Y(data(r, 60)),
        Pair => {
            let k = text(r, 40, false);
            let v = text(r, 40, false);
            let mut b = vec![(k.len() >> 8) as u8, k.len() as u8];
            b.extend_from_slice(k.as_bytes());
            b.extend_from_slice(v.as_bytes());
            J::Y(b)
        }
    }
}

/// Now and then an element once more, next to itself or at the end.
pub fn again(r: &mut Rng, l: &mut Vec<J>) {
    if l.is_empty() || !r.one_in(8) {
        return;
    }
    let k = r.below(l.len());
    let x = l[k].clone();
    if r.coin() {
        l.insert(k, x);
    } else {
        l.push(x);
    }
}

pub fn repeatable(place: &str, id: u8) -> bool {
    id == 38 || (place == "Publish" && id == 11)
}

/// A random set of properties in canonical order.
pub fn props(r: &mut Rng, place: &str) -> J {
    let ids = allowed(place);
    let mode = r.below(6);
    let mut out = Vec::new();
    let lone = *r.pick(ids);
    for id in ids {
        let take = match mode {
            0 => false,
            1 => true,
            2 => *id == lone,
            _ => r.coin(),
        };
        if !take {
            continue;
        }
        let (_, name, ty) = prop_by_id(*id).unwrap();
        let n = if !repeatable(place, *id) {
            1
        } else if mode > 1 && r.one_in(60) {
            r.range(7, 40)
        } else if mode == 2 && r.one_in(60) {
            r.range(250, 300)
        } else {
            *r.pick(&[1, 1, 1, 2, 3, 4, 6])
        };
        let mut l: Vec<J> = (0..n).map(|_| J::A(vec![s(name), prop_value(r, *id, ty)])).collect();
        if n > 1 || repeatable(place, *id) {
            again(r, &mut l);
        }
        out.extend(l);
    }
    // authentication data without a method is not a well-formed packet
    let has = |o: &Vec<J>, n: &str| o.iter().any(|p| p.arr()[0].str() == n);
    if has(&out, "AuthenticationData") && !has(&out, "AuthenticationMethod") && !r.one_in(20) {
        out.retain(|p| p.arr()[0].str() != "AuthenticationData");
    }
    J::A(out)
}

pub fn props_len(l: &[J]) -> usize {
    let mut b = Vec::new();
    for p in l {
        put_prop(&mut b, p, &mut Vec::new());
    }
    b.len()
}

// ------------------------------------------------------------------ packets --

/// A packet; now and then some or all of its texts are the same, and its numbers.
pub fn packet(r: &mut Rng, ver: i64, t: &str) -> J {
    let p = any_packet(r, ver, t);
    if !r.one_in(10) {
        return p;
    }
    let mut q = same(r, &p);
    // a login with nothing in it can't be told from none
    if let Some(l) = q.opt("login") {
        if l.arr().first().map_or(false, |l| l.get("u").bytes().is_empty() && l.get("p").bytes().is_empty()) {
            q.set("login", J::A(vec![]));
        }
    }
    q
}

fn same(r: &mut Rng, p: &J) -> J {
    let x = match r.below(6) {
        0 => "a/b".to_string(),
        1 => "x".to_string(),
        5 => String::new(),
        2 => r.pick(&KNOWN).to_string(),
        _ => topic(r),
    }.into_bytes();
    let n = num16(r).max(1);
    let all = r.coin();
    let mut hit = |r: &mut Rng| all || r.coin();
    same_in(r, p, "", &x, n, &mut hit)
}
fn same_in(r: &mut Rng, j: &J, key: &str, x: &[u8], n: usize, hit: &mut dyn FnMut(&mut Rng) -> bool) -> J {
    match j {
        J::O(l) => J::O(l.iter().map(|(k, v)| {
            let w = same_in(r, v, k, x, n, hit);
            (k.clone(), w)
        }).collect()),
        J::A(l) if key == "props" => J::A(l.iter().map(|p| {
            let (name, v) = (p.arr()[0].str(), &p.arr()[1]);
            if !hit(r) {
                return p.clone();
            }
            let v = match prop(name).2 {
                Ty::U16 => J::Y(vec![(n >> 8) as u8, n as u8]),
                Ty::U32 => J::Y(vec![0, 0, (n >> 8) as u8, n as u8]),
                Ty::Var => J::A(vec![i(n)]),
                Ty::Text | Ty::Data => J::Y(x.to_vec()),
                Ty::Pair if x.len() < 30_000 => {
                    // key and value, or one of them
                    let old = v.bytes();
                    let k = (old[0] as usize) << 8 | old[1] as usize;
                    let both = r.below(3);
                    let key = if both == 1 { &old[2..2 + k] } else { x };
                    let val = if both == 2 { &old[2 + k..] } else { x };
                    let mut b = vec![(key.len() >> 8) as u8, key.len() as u8];
                    b.extend_from_slice(key);
                    b.extend_from_slice(val);
                    J::Y(b)
                }
                _ => v.clone(),
            };
            J::A(vec![s(name), v])
        }).collect()),
        J::A(l) => J::A(l.iter().map(|v| same_in(r, v, key, x, n, hit)).collect()),
        J::Y(_) if hit(r) => J::Y(x.to_vec()),
        J::I(k) if (key == "pkid" && *k > 0 || key == "ka") && hit(r) => i(n),
        _ => j.clone(),
    }
}

fn any_packet(r: &mut Rng, ver: i64, t: &str) -> J {
    let pr = |r: &mut Rng, place: &str| if ver == 5 { props(r, place) } else { J::A(vec![]) };
    match t {
        "Connect" => {
            let proto = if ver == 4 {
                if r.one_in(10) { "V5" } else { "V4" }
            } else if r.one_in(10) {
                "V4"
            } else {
                "V5"
            };
            let lvl5 = ver == 5 && proto == "V5";
            let will = if r.coin() {
                vec![o(vec![
                    ("topic", y(topic(r).as_bytes())),
                    ("msg", J::Y(data(r, 80))),
                    ("qos", i(r.below(3))),
                    ("retain", J::B(r.coin())),
                    ("props", if lvl5 { props(r, "Will") } else { J::A(vec![]) }),
                ])]
            } else {
                vec![]
            };
            let login = if r.coin() {
                let mut u = text(r, 40, false);
                let p = if r.one_in(3) { String::new() } else { text(r, 40, false) };
                if p.is_empty() && u.is_empty() || (ver == 4 && u.is_empty() && !r.one_in(6)) {
                    u = "user".into();
                }
                vec![o(vec![("u", y(u.as_bytes())), ("p", y(p.as_bytes()))])]
            } else {
                vec![]
            };
            o(vec![
                ("t", s(t)),
                ("proto", s(proto)),
                ("ka", i(num16(r))),
                ("id", y(text(r, 60, false).as_bytes())),
                ("clean", J::B(r.coin())),
                ("will", J::A(will)),
                ("login", J::A(login)),
                ("props", if lvl5 { props(r, "Connect") } else { J::A(vec![]) }),
            ])
        }
        "ConnAck" => o(vec![
            ("t", s(t)),
            ("sp", J::B(r.coin())),
            ("code", s(r.pick(codes(ver, t)).0)),
            ("props", pr(r, t)),
        ]),
        "Publish" => {
            let q = r.below(3);
            o(vec![
                ("t", s(t)),
                ("dup", J::B(if q == 0 { r.one_in(20) } else { r.coin() })),
                ("qos", i(q)),
                ("retain", J::B(r.coin())),
                ("topic", y(topic(r).as_bytes())),
                ("pkid", i(if q == 0 { 0 } else { num16(r).max(1) })),
                ("props", pr(r, t)),
                ("payload", J::Y(data(r, 200))),
            ])
        }
        "PubAck" | "PubRec" | "PubRel" | "PubComp" => o(vec![
            ("t", s(t)),
            ("pkid", i(pkid(r))),
            ("reason", s(if ver == 4 { "Success" } else { r.pick(codes(ver, t)).0 })),
            ("props", pr(r, t)),
        ]),
        "Subscribe" => {
            let many = r.one_in(400);
            let n = if many {
                r.range(250, 300)
            } else if r.one_in(40) {
                r.range(6, 40)
            } else {
                *r.pick(&[1, 1, 2, 3, 5])
            };
            let mut f: Vec<J> = (0..n)
                .map(|_| {
                    o(vec![
                        ("path", y(if many { format!("f/{}", r.below(1000)) } else { filter(r) }.as_bytes())),
                        ("qos", i(r.below(3))),
                        ("nl", J::B(ver == 5 && r.coin())),
                        ("rap", J::B(ver == 5 && r.coin())),
                        ("rh", s(if ver == 5 {
                            *r.pick(&["OnEverySubscribe", "OnNewSubscribe", "Never"])
                        } else {
                            "OnEverySubscribe"
                        })),
                    ])
                })
                .collect();
            again(r, &mut f);
            o(vec![("t", s(t)), ("pkid", i(pkid(r))), ("filters", J::A(f)), ("props", pr(r, t))])
        }
        "SubAck" | "UnsubAck" => {
            let n = if ver == 4 && t == "UnsubAck" {
                0
            } else if r.one_in(30) {
                r.range(9, 300)
            } else {
                *r.pick(&[1, 1, 2, 3, 8])
            };
            let c = (0..n).map(|_| s(r.pick(codes(ver, t)).0)).collect();
            o(vec![("t", s(t)), ("pkid", i(pkid(r))), ("codes", J::A(c)), ("props", pr(r, t))])
        }
        "Unsubscribe" => {
            let many = r.one_in(400);
            let n = if many {
                r.range(250, 300)
            } else if r.one_in(40) {
                r.range(6, 40)
            } else {
                *r.pick(&[1, 1, 2, 3, 5])
            };
            let mut f: Vec<J> = (0..n).map(|_| y(if many { format!("f/{}", r.below(1000)) } else { filter(r) }.as_bytes())).collect();
            again(r, &mut f);
            o(vec![("t", s(t)), ("pkid", i(pkid(r))), ("topics", J::A(f)), ("props", pr(r, t))])
        }
        "Disconnect" => o(vec![
            ("t", s(t)),
            ("reason", s(if ver == 4 { "NormalDisconnection" } else { r.pick(codes(ver, t)).0 })),
            ("props", pr(r, t)),
        ]),
        _ => o(vec![("t", s(t))]),
    }
}

/// Makes the packet `extra` bytes longer, if it has a place for that.
pub fn pad(r: &mut Rng, ver: i64, p: &mut J, mut extra: usize) {
    let t = p.get("t").str().to_string();
    let grow = |b: &mut Vec<u8>, n: usize| b.extend(std::iter::repeat(b'p').take(n));
    match t.as_str() {
        "Publish" => {
            let mut b = p.get("payload").bytes();
            let n = b.len();
            grow(&mut b, extra);
            for (k, x) in b[n..].iter_mut().enumerate() {
                *x = (k * 7 + 3) as u8;
            }
            p.set("payload", J::Y(b));
        }
        "Connect" => {
            let mut b = p.get("id").bytes();
            let n = extra.min(65535 - b.len());
            grow(&mut b, n);
            p.set("id", J::Y(b));
        }
        "Subscribe" => {
            let mut f = p.get("filters").arr().to_vec();
            while extra > 0 {
                let mut b = f[0].get("path").bytes();
                let n = extra.min(65535 - b.len());
                grow(&mut b, n);
                f[0].set("path", J::Y(b));
                extra -= n;
                if extra > 3 {
                    extra -= 3;
                    let mut g = f[0].clone();
                    g.set("path", J::Y(vec![]));
                    f.insert(0, g);
                } else {
                    break;
                }
            }
            p.set("filters", J::A(f));
        }
        "Unsubscribe" => {
            let mut f = p.get("topics").arr().to_vec();
            let mut b = f[0].bytes();
            let n = extra.min(65535 - b.len());
            grow(&mut b, n);
            f[0] = J::Y(b);
            p.set("topics", J::A(f));
        }
        "SubAck" => {
            let mut c = p.get("codes").arr().to_vec();
            for _ in 0..extra {
                c.push(s(r.pick(codes(ver, &t)).0));
            }
            p.set("codes", J::A(c));
        }
        "UnsubAck" if ver == 5 => {
            let mut c = p.get("codes").arr().to_vec();
            for _ in 0..extra {
                c.push(s(r.pick(codes(ver, &t)).0));
            }
            p.set("codes", J::A(c));
        }
        _ if ver == 5 && p.opt("props").is_some() => pad_props(p, extra),
        _ => {}
    }
}

/// Makes the property section `extra` bytes longer with one user property.
pub fn pad_props(p: &mut J, extra: usize) {
    if extra < 5 {
        return;
    }
    let n = (extra - 5).min(65535);
    let mut b = vec![0, 0];
    b.extend(std::iter::repeat(b'v').take(n));
    let mut l = p.get("props").arr().to_vec();
    let at = l.iter().position(|q| prop(q.arr()[0].str()).0 > 38).unwrap_or(l.len());
    l.insert(at, J::A(vec![s("UserProperty"), J::Y(b)]));
    p.set("props", J::A(l));
}

// ----------------------------------------------------------------- encoding --

#[derive(Clone, Debug, PartialEq)]
pub enum Site {
    /// a text of the given length (its two length bytes lie before it)
    Text(usize),
    Data(usize),
    Name,
    Level,
    Flags,
    Code,
    Pkid,
    Options,
    /// property length integer: its size, and the size of the section
    PropLen(usize, usize),
    PropId(u8),
    Var(usize),
}
pub type Sites = Vec<(usize, Site)>;

pub fn put_var(b: &mut Vec<u8>, mut n: usize) -> usize {
    let st = b.len();
    loop {
        let x = (n & 127) as u8;
        n >>= 7;
        if n == 0 {
            b.push(x);
            return b.len() - st;
        }
        b.push(x | 128);
    }
}

fn put16(b: &mut Vec<u8>, n: usize) {
    b.push((n >> 8) as u8);
    b.push(n as u8);
}
fn put_text(b: &mut Vec<u8>, x: &[u8], z: &mut Sites) {
    put16(b, x.len());
    z.push((b.len(), Site::Text(x.len())));
    b.extend_from_slice(x);
}
fn put_data(b: &mut Vec<u8>, x: &[u8], z: &mut Sites) {
    put16(b, x.len());
    z.push((b.len(), Site::Data(x.len())));
    b.extend_from_slice(x);
}

fn put_prop(b: &mut Vec<u8>, p: &J, z: &mut Sites) {
    let (id, _, ty) = prop(p.arr()[0].str());
    z.push((b.len(), Site::PropId(id)));
    b.push(id);
    let v = &p.arr()[1];
    match ty {
        U8 | U16 | U32 => b.extend_from_slice(&v.bytes()),
        Var => {
            let at = b.len();
            let n = put_var(b, v.arr()[0].int() as usize);
            z.push((at, Site::Var(n)));
        }
        Text => put_text(b, &v.bytes(), z),
        Data => put_data(b, &v.bytes(), z),
        Pair => {
            let x = v.bytes();
            let k = (x[0] as usize) << 8 | x[1] as usize;
            put_text(b, &x[2..2 + k], z);
            put_text(b, &x[2 + k..], z);
        }
    }
}

fn put_props(r: &mut Rng, b: &mut Vec<u8>, l: &[J], z: &mut Sites) {
    // any order, but repetitions keep theirs
    let mut order: Vec<usize> = (0..l.len()).collect();
    if r.coin() {
        r.shuffle(&mut order);
        let mut places: std::collections::BTreeMap<&str, Vec<usize>> = Default::default();
        for (a, k) in order.iter().enumerate() {
            places.entry(l[*k].arr()[0].str()).or_default().push(a);
        }
        for at in places.values() {
            let mut ks: Vec<usize> = at.iter().map(|a| order[*a]).collect();
            ks.sort();
            for (a, k) in at.iter().zip(ks) {
                order[*a] = k;
            }
        }
    }
    let mut body = Vec::new();
    let mut zz = Vec::new();
    for k in order {
        put_prop(&mut body, &l[k], &mut zz);
    }
    let at = b.len();
    let n = put_var(b, body.len());
    z.push((at, Site::PropLen(n, body.len())));
    let base = b.len();
    for (p, k) in zz {
        z.push((base + p, k));
    }
    b.extend_from_slice(&body);
}

/// The frame, and the sites in it.
pub fn encode(r: &mut Rng, ver: i64, p: &J) -> (Vec<u8>, Sites) {
    let t = p.get("t").str();
    let mut b = Vec::new();
    let mut z: Sites = Vec::new();
    let num = TYPES.iter().position(|x| *x == t).unwrap() as u8 + 1;
    let mut b1 = num << 4;
    match t {
        "Connect" => {
            put16(&mut b, 4);
            z.push((b.len(), Site::Name));
            b.extend_from_slice(b"MQTT");
            z.push((b.len(), Site::Level));
            let v5 = p.get("proto").str() == "V5";
            b.push(if v5 { 5 } else { 4 });
            let lay5 = ver == 5 && v5;
            let mut fl = (p.get("clean").bool() as u8) << 1;
            if let Some(w) = p.get("will").arr().first() {
                fl |= 4 | (w.get("qos").int() as u8) << 3 | (w.get("retain").bool() as u8) << 5;
            }
            let lg = p.get("login").arr().first();
            let (u, pw) = match lg {
                Some(l) => (l.get("u").bytes(), l.get("p").bytes()),
                None => (vec![], vec![]),
            };
            // an empty user name may be spelled out
            let uf = !u.is_empty() || (lg.is_some() && (ver == 4 || r.coin())) || (lg.is_none() && r.one_in(12));
            let pf = !pw.is_empty() || (uf && r.one_in(8));
            fl |= (uf as u8) << 7 | (pf as u8) << 6;
            z.push((b.len(), Site::Flags));
            b.push(fl);
            put16(&mut b, p.get("ka").int() as usize);
            if lay5 {
                put_props(r, &mut b, p.get("props").arr(), &mut z);
            }
            put_text(&mut b, &p.get("id").bytes(), &mut z);
            if let Some(w) = p.get("will").arr().first() {
                if lay5 {
                    put_props(r, &mut b, w.get("props").arr(), &mut z);
                }
                put_text(&mut b, &w.get("topic").bytes(), &mut z);
                put_data(&mut b, &w.get("msg").bytes(), &mut z);
            }
            if uf {
                put_text(&mut b, &u, &mut z);
            }
            if pf {
                put_text(&mut b, &pw, &mut z);
            }
        }
        "ConnAck" => {
            b.push(p.get("sp").bool() as u8);
            z.push((b.len(), Site::Code));
            b.push(code_num(ver, t, p.get("code").str()));
            if ver == 5 {
                put_props(r, &mut b, p.get("props").arr(), &mut z);
            }
        }
        "Publish" => {
            let q = p.get("qos").int() as u8;
            b1 |= (p.get("dup").bool() as u8) << 3 | q << 1 | p.get("retain").bool() as u8;
            put_text(&mut b, &p.get("topic").bytes(), &mut z);
            if q > 0 {
                z.push((b.len(), Site::Pkid));
                put16(&mut b, p.get("pkid").int() as usize);
            }
            if ver == 5 {
                put_props(r, &mut b, p.get("props").arr(), &mut z);
            }
            b.extend_from_slice(&p.get("payload").bytes());
        }
        "PubAck" | "PubRec" | "PubRel" | "PubComp" => {
            put16(&mut b, p.get("pkid").int() as usize);
            if t == "PubRel" {
                b1 |= 2;
            }
            if ver == 5 {
                let c = code_num(ver, t, p.get("reason").str());
                let l = p.get("props").arr();
                if !(c == 0 && l.is_empty() && r.coin()) {
                    z.push((b.len(), Site::Code));
                    b.push(c);
                    if !l.is_empty() || r.coin() {
                        put_props(r, &mut b, l, &mut z);
                    }
                }
            }
        }
        "Subscribe" => {
            b1 |= 2;
            put16(&mut b, p.get("pkid").int() as usize);
            if ver == 5 {
                put_props(r, &mut b, p.get("props").arr(), &mut z);
            }
            for f in p.get("filters").arr() {
                put_text(&mut b, &f.get("path").bytes(), &mut z);
                let mut op = f.get("qos").int() as u8;
                op |= (f.get("nl").bool() as u8) << 2 | (f.get("rap").bool() as u8) << 3;
                op |= match f.get("rh").str() {
                    "OnEverySubscribe" => 0,
                    "OnNewSubscribe" => 0x10,
                    _ => 0x20,
                };
                z.push((b.len(), Site::Options));
                b.push(op);
            }
        }
        "SubAck" | "UnsubAck" => {
            put16(&mut b, p.get("pkid").int() as usize);
            if ver == 5 {
                put_props(r, &mut b, p.get("props").arr(), &mut z);
            }
            for c in p.get("codes").arr() {
                z.push((b.len(), Site::Code));
                b.push(code_num(ver, t, c.str()));
            }
        }
        "Unsubscribe" => {
            b1 |= 2;
            put16(&mut b, p.get("pkid").int() as usize);
            if ver == 5 {
                put_props(r, &mut b, p.get("props").arr(), &mut z);
            }
            for f in p.get("topics").arr() {
                put_text(&mut b, &f.bytes(), &mut z);
            }
        }
        "Disconnect" if ver == 5 => {
            let c = code_num(ver, t, p.get("reason").str());
            let l = p.get("props").arr();
            if !(c == 0 && l.is_empty() && r.coin()) {
                z.push((b.len(), Site::Code));
                b.push(c);
                if !l.is_empty() || r.coin() {
                    put_props(r, &mut b, l, &mut z);
                }
            }
        }
        _ => {}
    }
    let (f, h) = frame(b1, &b);
    (f, z.into_iter().map(|(p, k)| (p + h, k)).collect())
}

/// A frame around a body, and the size of its header.
pub fn frame(b1: u8, body: &[u8]) -> (Vec<u8>, usize) {
    let mut f = vec![b1];
    put_var(&mut f, body.len());
    let h = f.len();
    f.extend_from_slice(body);
    (f, h)
}
