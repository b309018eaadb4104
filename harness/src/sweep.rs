//! Families of packets with one parameter, and the parameter swept: the length
//! of each field and list (`lens`), the value of each 16-bit field and of the
//! halves of each 32-bit field (`vals`). The records hold projections, with
//! runs of equal behaviour put together.
use crate::fault::header;
use crate::gen::*;
use crate::json::*;
use crate::map::*;
use crate::obs::*;
use crate::rng::Rng;
use crate::suites::{long_fields, with_long, Sink, PLACES};
use bytes::BytesMut;

const NOMAX: usize = usize::MAX;

/// [start, how many, numbers at the start]; the numbers grow by `unit` from one
/// to the next (those that are -1 stay).
struct Runs {
    unit: i64,
    l: Vec<(usize, usize, Vec<i64>)>,
}
impl Runs {
    fn add(&mut self, n: usize, x: Vec<i64>) {
        if let Some((st, c, y)) = self.l.last_mut() {
            let d = *c as i64 * self.unit;
            if *st + *c == n && x.iter().zip(y.iter()).all(|(a, b)| if *b < 0 { a == b } else { *a == *b + d }) {
                *c += 1;
                return;
            }
        }
        self.l.push((n, 1, x));
    }
    fn json(&self) -> J {
        J::A(self.l.iter().map(|(a, c, x)| {
            let mut v = vec![i(*a), i(*c)];
            v.extend(x.iter().map(|k| J::I(*k)));
            J::A(v)
        }).collect())
    }
}
fn runs(unit: i64) -> Runs {
    Runs { unit, l: Vec::new() }
}

// ---------------------------------------------------------------- lengths --

fn lens_fields(of: i64) -> Vec<(i64, &'static str, &'static str)> {
    let mut l = long_fields();
    for ver in [4, 5] {
        l.push((ver, "Publish", "payload"));
        l.push((ver, "Subscribe", "#filters"));
        l.push((ver, "Unsubscribe", "#topics"));
        l.push((ver, "SubAck", "#codes"));
    }
    l.push((5, "UnsubAck", "#codes"));
    l.push((5, "Publish", "#SubscriptionIdentifier"));
    for place in PLACES {
        l.push((5, place, "#UserProperty"));
    }
    l.retain(|x| x.0 == of);
    l
}

/// Three characters, none of them a wildcard, in no particular order.
fn three(k: usize) -> Vec<u8> {
    let k = k * 7919 + 17;
    vec![b'a' + (k / 625 % 26) as u8, b'a' + (k / 25 % 25) as u8, b'a' + (k % 25) as u8]
}

fn member(ver: i64, place: &str, field: &str, n: usize) -> J {
    let mut r = Rng::new(77);
    let t = if place == "Will" { "Connect" } else { place };
    match field {
        "payload" => {
            let mut p = packet(&mut r, ver, t);
            p.set(field, J::Y((0..n).map(|k| (k * 31 + 7) as u8).collect()));
            p
        }
        "#filters" => {
            let mut p = packet(&mut r, ver, t);
            let one = o(vec![("path", y(b"a/b")), ("qos", i(1)), ("nl", J::B(false)), ("rap", J::B(false)), ("rh", s("OnEverySubscribe"))]);
            let l = (0..n).map(|k| {
                let mut f = one.clone();
                f.set("path", J::Y(three(k)));
                f
            });
            p.set("filters", J::A(l.collect()));
            p
        }
        "#topics" => {
            let mut p = packet(&mut r, ver, t);
            p.set("topics", J::A((0..n).map(|k| J::Y(three(k))).collect()));
            p
        }
        "#codes" => {
            let mut p = packet(&mut r, ver, t);
            let c = codes(ver, t);
            p.set("codes", J::A((0..n).map(|k| s(c[k % c.len()].0)).collect()));
            p
        }
        "#SubscriptionIdentifier" | "#UserProperty" => {
            let l = if field == "#UserProperty" {
                J::A((0..n).map(|k| J::A(vec![s("UserProperty"), J::Y([&[0, 1][..], &three(k)].concat())])).collect())
            } else {
                J::A((0..n).map(|k| J::A(vec![s("SubscriptionIdentifier"), J::A(vec![i(300 + k * 7 % 15000)])])).collect())
            };
            // a packet with one property at the right place, then more of it
            let mut p = with_long(&mut r, 5, place, "UserProperty.k", 1);
            if place == "Will" {
                let mut w = p.get("will").arr()[0].clone();
                w.set("props", l);
                p.set("will", J::A(vec![w]));
            } else {
                p.set("props", l);
            }
            p
        }
        _ => with_long(&mut r, ver, place, field, n),
    }
}

/// The block 0..5 of a field: 1..1280 all, then some.
pub const BLOCKS: usize = 6;
fn lengths(r: &mut Rng, field: &str, block: usize) -> Vec<usize> {
    if block < BLOCKS - 1 {
        return (block * 256 + 1..block * 256 + 257).collect();
    }
    let list = field.starts_with('#');
    let mut l = Vec::new();
    for k in if list { 11..13 } else { 11..17 } {
        l.extend((1usize << k) - 6..(1usize << k) + if k == 16 { 0 } else { 7 });
    }
    for _ in 0..if list { 6 } else { 60 } {
        l.push(r.range(1281, if list { 9000 } else { 65535 }));
    }
    l.sort();
    l.dedup();
    l
}

pub fn lens(w: &Watch, idx: usize, r: &mut Rng, of: i64, out: Sink) {
    let fields = lens_fields(of);
    let (ver, place, field) = fields[idx % fields.len()];
    let ns = lengths(r, field, (idx / fields.len()) % BLOCKS);
    lens_rec(w, idx, (ver, place, field), ns, out);
}

/// Lists of very many elements, and large payloads.
pub fn crowd(w: &Watch, idx: usize, of: i64, out: Sink) {
    let fields: Vec<_> = lens_fields(of).into_iter().filter(|f| f.2.starts_with('#') || f.2 == "payload").collect();
    let f = fields[idx % fields.len()];
    let most = if matches!(f.2, "#codes" | "payload") { 2_000_000 } else { 250_000 };
    let ns = match (idx / fields.len()) % 2 {
        0 => vec![65_535, 65_536, 65_537, 100_000],
        _ => vec![most],
    };
    lens_rec(w, idx, f, ns, out);
}

fn lens_rec(w: &Watch, idx: usize, of: (i64, &'static str, &'static str), ns: Vec<usize>, out: Sink) {
    let (ver, place, field) = of;
    let (p1, p2) = (member(ver, place, field, 1), member(ver, place, field, 2));
    let enc = |p: &J| encode(&mut Rng::new(1), ver, p).0;
    let unit = enc(&p2).len() as i64 - enc(&p1).len() as i64;
    let base = o(vec![
        ("k", s("lens")), ("ver", i(ver as usize)), ("what", s(&format!("v{} {} {}", ver, place, field))),
        ("p1", p1), ("p2", p2), ("from", i(ns[0])), ("to", i(*ns.last().unwrap())), ("count", i(ns.len())),
    ]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("runs", J::A(vec![]));
        b.set("nback", J::A(vec![]));
        b.set("ntheirs", J::A(vec![]));
        b.set("crashed", J::B(true));
        b
    });
    let mut rs = runs(unit);
    let (mut nback, mut ntheirs, mut crashed) = (Vec::new(), Vec::new(), false);
    for n in ns {
        let p = member(ver, place, field, n);
        let pk = from_json(ver, &p, 0);
        let mut b = BytesMut::new();
        let is = |q: &Pk| if n > 10_000 { *q == pk } else { to_json(q) == p };
        let ret = write_buf(&pk, &mut b);
        let own = guard(|| own_len(&pk)).unwrap_or(None).map(|x| x as i64).unwrap_or(-1);
        let ann = header(&b).map(|(h, n)| (h + n) as i64).unwrap_or(-1);
        let rn = match &ret {
            Some(Ok(n)) => *n as i64,
            Some(Err(_)) => -1,
            None => {
                crashed = true;
                -2
            }
        };
        rs.add(n, vec![b.len() as i64, rn, own, ann]);
        let back = read_buf(ver, &mut b, NOMAX);
        crashed |= back.is_none();
        if !(matches!(&back, Some(Ok(q)) if is(q)) && b.is_empty()) {
            nback.push(i(n));
        }
        let f = encode(&mut Rng::new(n as u64), ver, &p).0;
        let mut b = buffer(&f);
        let theirs = read_buf(ver, &mut b, NOMAX);
        crashed |= theirs.is_none();
        if !(matches!(&theirs, Some(Ok(q)) if is(q)) && b.is_empty()) {
            ntheirs.push(i(n));
        }
    }
    let mut rec = base;
    rec.set("runs", rs.json());
    rec.set("nback", J::A(nback));
    rec.set("ntheirs", J::A(ntheirs));
    rec.set("crashed", J::B(crashed));
    out(rec);
}

// ----------------------------------------------------------------- values --

fn vals_fields(of: i64) -> Vec<(i64, &'static str, &'static str)> {
    let mut l: Vec<(i64, &'static str, &'static str)> = Vec::new();
    for ver in [4, 5] {
        for t in TYPES {
            if matches!(t, "Publish" | "PubAck" | "PubRec" | "PubRel" | "PubComp" | "Subscribe" | "SubAck" | "Unsubscribe" | "UnsubAck") {
                l.push((ver, t, "pkid"));
            }
        }
        l.push((ver, "Connect", "ka"));
    }
    for place in PLACES {
        for id in allowed(place) {
            match prop_by_id(*id).unwrap() {
                (_, name, Ty::U16) => l.push((5, place, name)),
                (_, name, Ty::U32) => {
                    l.push((5, place, name));
                    l.push((-5, place, name)); // the upper half
                }
                _ => {}
            }
        }
    }
    l.retain(|x| x.0.abs() == of);
    l
}

fn valued(ver: i64, place: &str, field: &str, v: usize) -> J {
    let mut r = Rng::new(78);
    let t = if place == "Will" { "Connect" } else { place };
    let (hi, lo) = ((v >> 8) as u8, v as u8);
    match field {
        "ka" | "pkid" => {
            let mut p = packet(&mut r, ver, t);
            if t == "Publish" {
                p.set("qos", i(2));
            }
            p.set(field, i(v));
            p
        }
        _ => {
            let mut p = with_long(&mut r, 5, place, "UserProperty.k", 1);
            let b = match prop(field).2 {
                Ty::U16 => vec![hi, lo],
                _ if ver < 0 => vec![hi, lo, 0, 0],
                _ => vec![0, 0, hi, lo],
            };
            let l = J::A(vec![J::A(vec![s(field), J::Y(b)])]);
            if place == "Will" {
                let mut w = p.get("will").arr()[0].clone();
                w.set("props", l);
                p.set("will", J::A(vec![w]));
            } else {
                p.set("props", l);
            }
            p
        }
    }
}

pub fn vals(w: &Watch, idx: usize, of: i64, out: Sink) {
    let fields = vals_fields(of);
    let (v, place, field) = fields[idx % fields.len()];
    let ver = v.abs();
    let block = (idx / fields.len()) % 256;
    let zero = matches!(field, "ka" | "ServerKeepAlive" | "TopicAliasMaximum" | "SessionExpiryInterval"
        | "MessageExpiryInterval" | "WillDelayInterval");
    let lo = block * 256 + (block == 0 && !zero) as usize;
    let hi = block * 256 + 255;
    let (p0, p1) = (valued(v, place, field, lo), valued(v, place, field, hi));
    // where the value lies in a frame
    let enc = |x: usize| encode(&mut Rng::new(1), ver, &valued(v, place, field, x)).0;
    let (a, b) = (enc(0x0102), enc(0x0304));
    let at = a.iter().zip(b.iter()).position(|(x, y)| x != y).expect("harness: value");
    let base = o(vec![
        ("k", s("vals")), ("ver", i(ver as usize)), ("what", s(&format!("v{} {} {}", v, place, field))),
        ("p0", p0), ("p1", p1), ("from", i(lo)), ("to", i(hi)), ("at", i(at)),
    ]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("first", y(&[]));
        for k in ["sizes", "rest", "back", "theirs"] {
            b.set(k, J::A(vec![]));
        }
        b.set("crashed", J::B(true));
        b
    });
    let mut first: Vec<u8> = Vec::new();
    let (mut sizes, mut rest, mut back, mut theirs) = (runs(0), runs(0), runs(0), runs(0));
    let mut crashed = false;
    for x in lo..=hi {
        let p = valued(v, place, field, x);
        let pk = from_json(ver, &p, 0);
        let mut b = BytesMut::new();
        let ret = write_buf(&pk, &mut b);
        let own = guard(|| own_len(&pk)).unwrap_or(None).map(|x| x as i64).unwrap_or(-1);
        let ann = header(&b).map(|(h, n)| (h + n) as i64).unwrap_or(-1);
        let rn = match &ret {
            Some(Ok(n)) => *n as i64,
            Some(Err(_)) => -1,
            None => {
                crashed = true;
                -2
            }
        };
        sizes.add(x, vec![b.len() as i64, rn, own, ann]);
        if x == lo {
            first = b.to_vec();
        }
        let patched = |f: &[u8]| {
            let mut f = f.to_vec();
            if at + 1 < f.len() {
                f[at] = (x >> 8) as u8;
                f[at + 1] = x as u8;
            }
            f
        };
        if b[..] == patched(&first)[..] {
            rest.add(x, vec![]);
        }
        let got = read_buf(ver, &mut b, NOMAX);
        crashed |= got.is_none();
        if matches!(&got, Some(Ok(q)) if *q == pk) && b.is_empty() {
            back.add(x, vec![]);
        }
        let mut b = buffer(&patched(&a));
        let got = read_buf(ver, &mut b, NOMAX);
        crashed |= got.is_none();
        if matches!(&got, Some(Ok(q)) if to_json(q) == p) && b.is_empty() {
            theirs.add(x, vec![]);
        }
    }
    let mut rec = base;
    rec.set("first", y(&first));
    rec.set("sizes", sizes.json());
    rec.set("rest", rest.json());
    rec.set("back", back.json());
    rec.set("theirs", theirs.json());
    rec.set("crashed", J::B(crashed));
    out(rec);
}

// --------------------------------------------------------------- requests --

const HAVE: [usize; 8] = [0, 1, 5, 64, 126, 1000, 4096, 20000];

/// What is asked for, or refused, for every declared length: idx runs through
/// the first bytes, how much of the body is there, the limit, and the widths
/// of the length field.
pub fn asks(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    const FIRST: [u8; 16] = [0x10, 0x20, 0x30, 0x32, 0x3d, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xd0, 0xe0, 0x3b];
    let ver = if idx % 2 == 0 { 4 } else { 5 };
    let b1 = FIRST[(idx / 2 + idx / 32) % 16];
    let have = HAVE[(idx / 2) % 8];
    let lim = ["none", "equal", "below"][(idx / 16) % 3];
    let width = [0, 3, 4][(idx / 48) % 3];
    let mut ns: Vec<usize> = (0..70_000).collect();
    for k in 17..28 {
        ns.extend((1usize << k) - 40..(1usize << k) + 40);
    }
    for k in [2_097_152usize - 300, 10_000_000, 100_000_000, 268_435_455 - 300] {
        ns.extend(k..k + 300);
    }
    for _ in 0..40 {
        let k = r.range(70_000, 268_000_000);
        ns.extend(k..k + 64);
    }
    ns.push(268_435_455);
    ns.retain(|n| (width == 0 || *n < 1 << (7 * width)) && (lim != "below" || *n > 0));
    ns.sort();
    ns.dedup();
    let base = o(vec![
        ("k", s("asks")), ("ver", i(ver as usize)), ("b1", i(b1 as usize)), ("have", i(have)), ("lim", s(lim)),
        ("width", i(width)), ("from", i(ns[0])), ("to", i(*ns.last().unwrap())), ("count", i(ns.len())),
    ]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("runs", J::A(vec![]));
        b.set("crashed", J::B(true));
        b
    });
    let mut l: Vec<(usize, usize, usize, usize)> = Vec::new(); // from, how many, what, number
    let mut crashed = false;
    let body = vec![0u8; have];
    let mut keep = BytesMut::new();
    for n in ns {
        let mut h = vec![b1];
        put_var(&mut h, n);
        while width > 0 && h.len() < 1 + width {
            let k = h.len() - 1;
            h[k] |= 0x80;
            h.push(0);
        }
        if keep.len() < h.len() + have || keep[..h.len()] != h[..] {
            keep.clear();
            keep.extend_from_slice(&h);
            keep.extend_from_slice(&body);
            keep.truncate(h.len() + have);
        }
        let before = keep.len();
        let max = match lim {
            "none" => NOMAX,
            "equal" => n,
            _ => n - 1,
        };
        let got = read_buf(ver, &mut keep, max);
        let (what, num) = match got {
            None => {
                crashed = true;
                (9, 0)
            }
            Some(Err(mqttbytes::Error::InsufficientBytes(k))) if keep.len() == before => (0, k),
            Some(Err(mqttbytes::Error::PayloadSizeLimitExceeded(k))) if keep.len() == before => (1, k),
            Some(_) if keep.len() == before - h.len() - n.min(have) => (2, 0),
            Some(_) => (8, 0),
        };
        match l.last_mut() {
            Some((a, c, x, m)) if *a + *c == n && *x == what && (what > 1 && num == *m || what <= 1 && num == *m + *c) => *c += 1,
            _ => l.push((n, 1, what, num)),
        }
        if keep.len() != before {
            keep.clear();
        }
    }
    let mut rec = base;
    rec.set("runs", J::A(l.iter().map(|x| J::A(vec![i(x.0), i(x.1), i(x.2), i(x.3)])).collect()));
    rec.set("crashed", J::B(crashed));
    out(rec);
}

/// Frames with bodies of every length that arrive byte by byte, a read after
/// each: idx is a block of lengths; behind the blocks come lengths further
/// apart, of which the beginning, the end and some telling sizes are tried.
pub const GROW: usize = 48;
pub fn grow(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    const FIRST: [u8; 16] = [0x30, 0x10, 0x32, 0x82, 0x3d, 0x40, 0x50, 0x62, 0x70, 0x20, 0x90, 0xa2, 0xb0, 0xd0, 0xe0, 0x3b];
    let ver = if (idx + idx / 2) % 2 == 0 { 4 } else { 5 };
    let full = idx % GROW < 44;
    let round = idx / GROW;
    let ns: Vec<usize> = if full {
        (idx % GROW * 50..idx % GROW * 50 + 50).collect()
    } else {
        let mut l: Vec<usize> = (0..60).map(|_| r.range(2200, 70_000)).collect();
        for c in [4096usize, 8192, 16384, 32768, 65536, 131072] {
            l.extend(c - 5..c + 2);
        }
        l.push(2_097_151 + (idx & 1));
        l.sort();
        l.dedup();
        l
    };
    // the packets differ from one length to the next
    let firsts: Vec<u8> = (0..ns.len()).map(|k| if round == 0 && (k + idx) % 2 == 0 { 0x30 } else { FIRST[(k + idx + round) % 16] }).collect();
    let base = o(vec![("k", s("grow")), ("ver", i(ver as usize)), ("b1", i(firsts[0] as usize)), ("from", i(ns[0])), ("to", i(*ns.last().unwrap()))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("runs", J::A(vec![]));
        b.set("whole", J::A(vec![]));
        b.set("count", i(0));
        b.set("crashed", J::B(true));
        b
    });
    let mut l: Vec<[usize; 5]> = Vec::new();
    let mut whole: Vec<(usize, bool)> = Vec::new();
    let (mut count, mut crashed) = (0, false);
    for (n, b1) in ns.iter().copied().zip(firsts) {
        let mut f = vec![b1];
        put_var(&mut f, n);
        let h = f.len();
        let body = [0u8, 1, b'a', 0, 1, 0];
        f.extend((0..n).map(|k| if k < 6 { if b1 == 0x30 && k > 2 { 0 } else { body[k] } } else { b'a' + (k % 25) as u8 }));
        let behind = [0xc0u8, 0];
        let total = f.len();
        let ends: Vec<usize> = if full {
            (0..total).collect()
        } else {
            let mut e: Vec<usize> = (0..12).chain(total - 12..total).collect();
            for c in [536, 1024, 1400, 1448, 1452, 1460, 1500, 2048, 4096, 8192, 9000, 16384, 32768, 65536, total / 2, total - 1024] {
                e.extend([c - 1, c, c + 1]);
            }
            e.retain(|x| *x < total);
            e.sort();
            e.dedup();
            e
        };
        let mut b = BytesMut::new();
        let mut gave = true;
        for e in ends {
            b.extend_from_slice(&f[b.len()..e]);
            count += 1;
            let (a, m) = match read_buf(ver, &mut b, NOMAX) {
                None => {
                    crashed = true;
                    (9, 0)
                }
                Some(Err(mqttbytes::Error::InsufficientBytes(m))) if b.len() == e && (b.len() < 64 || e % 97 == 0 || b[..] == f[..e]) => (0, m),
                Some(_) => (8, 0),
            };
            match l.last_mut() {
                // a new run where the length is complete
                Some(x) if x[0] == n && x[1] + x[2] == e && x[3] == a && a == 0 && e != h && x[4] == m + x[2] => x[2] += 1,
                _ => l.push([n, e, 1, a, m]),
            }
            if a != 0 {
                gave = false;
                break;
            }
        }
        if gave {
            b.extend_from_slice(&f[b.len()..]);
            b.extend_from_slice(&behind);
            let got = read_buf(ver, &mut b, NOMAX);
            crashed |= got.is_none();
            let mut c = buffer(&f);
            let want = read_buf(ver, &mut c, NOMAX);
            let same = match (&got, &want) {
                (Some(Ok(x)), Some(Ok(y))) => x == y,
                (Some(Err(x)), Some(Err(y))) => x == y,
                _ => false,
            };
            gave = same && c.is_empty() && b[..] == behind;
        }
        whole.push((n, gave));
        tick();
    }
    idle();
    let mut rec = base;
    rec.set("runs", J::A(l.iter().map(|x| J::A(x.iter().map(|k| i(*k)).collect())).collect()));
    let mut wl: Vec<(usize, usize, bool)> = Vec::new();
    for (n, ok) in whole {
        match wl.last_mut() {
            Some(x) if x.0 + x.1 == n && x.2 == ok => x.1 += 1,
            _ => wl.push((n, 1, ok)),
        }
    }
    rec.set("whole", J::A(wl.iter().map(|x| J::A(vec![i(x.0), i(x.1), J::B(x.2)])).collect()));
    rec.set("count", i(count));
    rec.set("crashed", J::B(crashed));
    out(rec);
}
