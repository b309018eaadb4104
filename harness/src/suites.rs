//! The suites: which calls are made. Every case is a function of the seed, the
//! suite and its index alone, so a run can be resumed behind a crash.
use crate::fault::*;
use crate::gen::*;
use crate::json::*;
use crate::map::*;
use crate::obs::*;
use crate::rng::Rng;
use crate::Args;
use bytes::{Buf, Bytes, BytesMut};
use std::sync::{Arc, Barrier};

pub type Sink<'a> = &'a mut dyn FnMut(J);

fn rng(a: &Args, idx: usize) -> Rng {
    fresh_case();
    let mut h = a.seed.wrapping_mul(0x1000_0000_01b3);
    for b in a.suite.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    Rng::new(h ^ (idx as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

pub const NOMAX: usize = usize::MAX;

pub fn run(a: &Args, w: &Watch, out: Sink) {
    if a.suite == "vec" || a.suite == "steps" {
        return from_file(a, w, out);
    }
    if a.suite == "near" {
        return near(a, w, out);
    }
    let blend = if a.suite.starts_with("blend") { Some(crate::blend::Blend::new(if a.suite.ends_with('4') { 4 } else { 5 })) } else { None };
    for idx in a.from..a.to {
        let mut r = rng(a, idx);
        layout(idx);
        if let Some(b) = &blend {
            let ver = if a.suite.ends_with('4') { 4 } else { 5 };
            let p = b.packet(&mut r, idx);
            if &a.suite[..a.suite.len() - 1] == "blendw" {
                let pe = r.below(4) as i64;
                let pre = before(&mut r);
                out(enc_rec(w, idx, ver, &p.1, pe, &pre));
                continue;
            }
            BASE.with(|x| *x.borrow_mut() = Some((ver, p)));
            match &a.suite[..a.suite.len() - 1] {
                "blendr" => dec(w, idx, &mut r, ver, out),
                "blendm" => mal(w, idx, &mut r, ver, out),
                "blendo" => one(w, idx, &mut r, ver, out),
                x => panic!("harness: no suite {}", x),
            }
            BASE.with(|x| *x.borrow_mut() = None);
            continue;
        }
        match a.suite.as_str() {
            "dec4" => dec(w, idx, &mut r, 4, out),
            "dec5" => dec(w, idx, &mut r, 5, out),
            "mal4" => mal(w, idx, &mut r, 4, out),
            "mal5" => mal(w, idx, &mut r, 5, out),
            "one4" => one(w, idx, &mut r, 4, out),
            "one5" => one(w, idx, &mut r, 5, out),
            "cut" => cut(w, idx, &mut r, out),
            "hdr" => hdr(w, idx, &mut r, out),
            "enc4" => enc(w, idx, &mut r, 4, out),
            "enc5" => enc(w, idx, &mut r, 5, out),
            "bad" => bad(w, idx, &mut r, out),
            "grow" => crate::sweep::grow(w, idx, &mut r, out),
            "dictw4" => dict(w, idx, &mut r, 4, true, out),
            "dictw5" => dict(w, idx, &mut r, 5, true, out),
            "dictr4" => dict(w, idx, &mut r, 4, false, out),
            "dictr5" => dict(w, idx, &mut r, 5, false, out),
            "room" => room(w, idx, &mut r, out),
            "kin" => kin(w, idx, &mut r, out),
            "long" => long(w, idx, &mut r, out),
            "huge" => huge(w, idx, &mut r, out),
            "lens4" => crate::sweep::lens(w, idx, &mut r, 4, out),
            "lens5" => crate::sweep::lens(w, idx, &mut r, 5, out),
            "uni" => crate::every::uni(w, idx, out),
            "chars4" => crate::every::chars(w, idx, 4, out),
            "chars5" => crate::every::chars(w, idx, 5, out),
            "crowd4" => crate::sweep::crowd(w, idx, 4, out),
            "crowd5" => crate::sweep::crowd(w, idx, 5, out),
            "asks" => crate::sweep::asks(w, idx, &mut r, out),
            "vals4" => crate::sweep::vals(w, idx, 4, out),
            "vals5" => crate::sweep::vals(w, idx, 5, out),
            "wide" => wide(w, idx, &mut r, out),
            "after" => after(w, idx, &mut r, out),
            "re" => re(w, idx, &mut r, out),
            "props" => props_grid(w, idx, &mut r, out),
            "pairs" => pairs(w, idx, &mut r, out),
            "section" => section(w, idx, &mut r, out),
            "codes" => codes_grid(w, idx, &mut r, out),
            "codew" => codew(w, idx, &mut r, out),
            "edge" => edge(w, idx, &mut r, out),
            "big" => big(w, idx, &mut r, out),
            "tv" => tv(w, idx, &mut r, out),
            "tm" => tm(w, idx, &mut r, false, out),
            "cover" => tm(w, idx, &mut r, true, out),
            "sess" => sess(w, idx, &mut r, out),
            "made" => made(w, idx, &mut r, &a.tier, out),
            "build" => build(w, idx, &mut r, out),
            "api" => api(w, idx, out),
            "pure" => pure(w, idx, &mut r, out),
            "fuzz" => fuzz(w, idx, &mut r, out),
            "text4" => crate::extra::texts(w, idx, &mut r, 4, out),
            "text5" => crate::extra::texts(w, idx, &mut r, 5, out),
            "trail" => crate::extra::trail(w, idx, &mut r, out),
            "pad4" => crate::extra::padded(w, idx, &mut r, 4, out),
            "pad5" => crate::extra::padded(w, idx, &mut r, 5, out),
            "grid4" => crate::extra::grid(w, idx, &mut r, 4, out),
            "grid5" => crate::extra::grid(w, idx, &mut r, 5, out),
            "pads" => crate::extra::pads(w, idx, &mut r, out),
            "soak" => crate::extra::soak(w, idx, &mut r, out),
            "refusal" => crate::extra::refusal(w, idx, &mut r, out),
            x => panic!("harness: no suite {}", x),
        }
    }
}

thread_local! {
    /// the packet every frame is made of, if not a random one
    static BASE: std::cell::RefCell<Option<(i64, (&'static str, J))>> = std::cell::RefCell::new(None);
}

fn pick_type(r: &mut Rng) -> &'static str {
    // the packets with more in them more often
    let t = r.below(20);
    match t {
        0..=13 => TYPES[t],
        14 => "Connect",
        15 | 16 => "Publish",
        17 => "Subscribe",
        18 => "ConnAck",
        _ => "Disconnect",
    }
}

/// A peer's frame for a random packet.
fn peer(r: &mut Rng, ver: i64) -> (&'static str, J, Vec<u8>, Sites) {
    if let Some((_, (t, p))) = BASE.with(|x| x.borrow().clone().filter(|b| b.0 == ver)) {
        let (f, z) = encode(r, ver, &p);
        return (t, p, f, z);
    }
    let t = pick_type(r);
    let mut p = packet(r, ver, t);
    // lengths around the points where a length field grows
    match r.below(25) {
        0 => {
            let (f, _) = encode(&mut Rng::new(1), ver, &p);
            let n = header(&f).unwrap().1;
            let target = *r.pick(&[126, 127, 128, 129, 130]);
            if n < target {
                pad(r, ver, &mut p, target - n);
            }
        }
        1 if ver == 5 && p.opt("props").is_some() => {
            let n = props_len(p.get("props").arr());
            let target = *r.pick(&[125, 126, 127, 128, 129, 130]);
            let will5 = t != "Connect" || p.get("proto").str() == "V5";
            if n < target && will5 {
                pad_props(&mut p, target - n);
            }
        }
        _ => {}
    }
    let (f, z) = encode(r, ver, &p);
    (t, p, f, z)
}

/// Bytes that may follow a frame.
fn tail(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 | 1 => vec![],
        2 => {
            let v = *r.pick(&[4, 5]);
            peer(r, v).2
        }
        _ => (0..r.range(1, 12)).map(|_| r.byte()).collect(),
    }
}

fn some_max(r: &mut Rng, f: &[u8]) -> usize {
    let n = header(f).map(|h| h.1).unwrap_or(0);
    match r.below(6) {
        0 => n,
        1 => n + r.below(20),
        2 => 268435455,
        3 if r.one_in(2) => wide_max(r, n),
        _ => NOMAX,
    }
}
/// A limit that is more than any frame, and that narrow arithmetic takes for
/// less.
fn wide_max(r: &mut Rng, n: usize) -> usize {
    let k = *r.pick(&[28, 29, 30, 31, 32, 33, 48, 63]);
    let x = 1usize << k;
    match r.below(5) {
        0 => x,
        1 => x - 1,
        2 => x + r.below(n + 1),
        3 => NOMAX - r.below(n + 8),
        _ => x | (1usize << r.range(28, 63)),
    }
}

/// A frame that weak comparisons take for the same: as long, the same bytes
/// in another order, or one byte different.
fn sibling(r: &mut Rng, f: &[u8], z: &Sites) -> Vec<u8> {
    let mut s = f.to_vec();
    let l: Vec<(usize, usize)> = z.iter()
        .filter_map(|(p, k)| match k {
            Site::Text(n) | Site::Data(n) if *n > 0 && p + n <= f.len() => Some((*p, *n)),
            _ => None,
        })
        .filter(|(p, n)| f[*p..p + n].iter().all(|b| *b < 128))
        .collect();
    if l.is_empty() {
        if let Some((h, n)) = header(f) {
            if n >= 2 {
                s.swap(h + 1, h);
            }
        }
        return s;
    }
    let (p, n) = *r.pick(&l);
    match r.below(4) {
        0 => s[p..p + n].reverse(),
        1 if n > 1 => {
            let a = p + r.below(n - 1);
            s.swap(a, a + 1);
        }
        2 => s[p..p + n].rotate_left(1),
        _ => {
            let a = p + r.below(n);
            s[a] = if s[a] == b'q' { b'r' } else { b'q' };
        }
    }
    s
}

/// The same for a packet: one of its fields is not quite the same.
fn twist(r: &mut Rng, p: &J) -> J {
    let mut q = p.clone();
    let J::O(l) = p else { return q };
    let keys: Vec<String> = l.iter().map(|x| x.0.to_string()).filter(|k| !["t", "proto", "props", "nl", "rap"].contains(&k.as_str())).collect();
    if keys.is_empty() {
        return q;
    }
    let k = r.pick(&keys).clone();
    let v = match p.get(&k) {
        J::B(b) => J::B(!b),
        J::I(n) if k == "pkid" && *n > 0 => J::I(if *n == 65535 { 1 } else { n + 1 }),
        J::I(n) if k == "ka" => J::I(if *n == 65535 { 0 } else { n + 1 }),
        J::Y(b) if b.iter().all(|x| *x < 128) && !b.is_empty() => {
            let mut b = b.clone();
            if r.coin() {
                b.reverse();
            } else {
                b.rotate_left(1);
            }
            J::Y(b)
        }
        J::A(l) if l.len() > 1 => {
            let mut l = l.clone();
            l.rotate_left(1);
            J::A(l)
        }
        J::A(l) if l.len() == 1 && matches!(l[0], J::O(_)) => J::A(vec![twist(r, &l[0])]),
        x => x.clone(),
    };
    q.set(&k, v);
    q
}

fn dec(w: &Watch, idx: usize, r: &mut Rng, ver: i64, out: Sink) {
    let (_, _, mut f, z) = peer(r, ver);
    let max = some_max(r, &f);
    let f2 = sibling(r, &f, &z);
    f.extend(tail(r));
    out(dec_rec(w, idx, ver, &f, max, vec![]).0);
    if r.one_in(6) {
        out(dec_rec(w, idx, ver, &f2, max, vec![]).0);
    }
}

/// The same body behind a length field of `width` bytes.
fn widen(f: &[u8], width: usize) -> Vec<u8> {
    let Some((h, n)) = header(f) else { return f.to_vec() };
    let mut g = vec![f[0]];
    for k in 0..width {
        g.push((n >> (7 * k) & 127) as u8 | if k + 1 < width { 128 } else { 0 });
    }
    if h <= f.len() {
        g.extend_from_slice(&f[h..]);
    }
    g
}

/// A body made up byte by byte, under a random type.
fn made_up(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(3) {
        0 => r.below(5),
        1 => r.below(12),
        _ => r.below(40),
    };
    let pool = [0u8, 0, 0, 1, 1, 2, 3, 4, 5, 8, 11, 17, 31, 38, 65, 77, 81, 84, 97, 127, 128, 144, 255];
    let mut body: Vec<u8> = (0..n).map(|_| if r.one_in(5) { r.byte() } else { *r.pick(&pool) }).collect();
    if r.one_in(4) {
        let pre: Vec<u8> = vec![0, 4, 77, 81, 84, 84, *r.pick(&[4, 5]), r.byte(), 0, 10];
        body.splice(0..0, pre);
    }
    let t = r.range(0, 15) as u8;
    let fl = if r.coin() { 2 } else { r.byte() & 15 };
    frame(t << 4 | fl, &body).0
}

fn broken(r: &mut Rng, ver: i64) -> Vec<u8> {
    if r.one_in(5) {
        return made_up(r);
    }
    let (t, _, f, z) = peer(r, ver);
    let mut m = mutate(r, ver, t, &f, &z);
    if r.one_in(8) {
        if let Some((h, _)) = header(&m) {
            if m.len() > h {
                let k = r.range(h, m.len() - 1);
                m[k] = r.byte();
            }
        }
    }
    m
}

fn mal(w: &Watch, idx: usize, r: &mut Rng, ver: i64, out: Sink) {
    if idx % 25 == 7 {
        longer(5);
    }
    let mut f = broken(r, ver);
    if r.coin() {
        f.extend(tail(r));
    }
    out(dec_rec(w, idx, ver, &f, NOMAX, vec![]).0);
}

fn one(w: &Watch, idx: usize, r: &mut Rng, ver: i64, out: Sink) {
    if idx % 20 == 7 {
        longer(3);
    }
    for _ in 0..20 {
        let (t, _, f, z) = peer(r, ver);
        if let Some(x) = single(r, ver, t, &f, &z) {
            let mut s = x.s;
            if x.what != "header" && s.len() == f.len() && r.one_in(3) {
                s.extend(tail(r));
                // keep base and frame comparable: no tail unless it is short
                if s.len() > f.len() {
                    s.truncate(f.len());
                }
            }
            out(dec_rec(w, idx, ver, &s, x.max, vec![("base", y(&f)), ("what", crate::json::s(x.what))]).0);
            return;
        }
    }
}

/// Incomplete frames, limits around the declared length, length fields of
/// every shape.
fn cut(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let ver = *r.pick(&[4, 5]);
    let mut f = if r.one_in(4) { broken(r, ver) } else { peer(r, ver).2 };
    let n = header(&f).map(|h| h.1).unwrap_or(0);
    let max = match r.below(5) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => r.below(n + 2),
        3 if r.coin() => n + 1,
        3 => wide_max(r, n),
        _ => NOMAX,
    };
    if r.one_in(4) && n < 16384 {
        f = widen(&f, r.range(if n < 128 { 1 } else { 2 }, 4));
    }
    match r.below(6) {
        0 => f.truncate(r.below(f.len() + 1)),
        1 => f.truncate(f.len() - 1),
        2 => f.truncate(r.below(6).min(f.len())),
        3 | 4 => f.extend(tail(r)),
        _ => {
            // another length field in front of the same body
            let (h, _) = header(&f).unwrap_or((2, 0));
            let mut g = vec![f[0]];
            for _ in 0..r.below(5) {
                g.push(0x80 | r.byte());
            }
            if r.coin() {
                g.push(r.byte() & 0x7f);
            }
            if h <= f.len() {
                g.extend_from_slice(&f[h..]);
            }
            f = g;
        }
    }
    out(dec_rec(w, idx, ver, &f, max, vec![]).0);
}

/// A length near a point where the representation changes, or anything.
fn some_len(r: &mut Rng) -> usize {
    let c = *r.pick(&[0usize, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 2097153, 268435454, 268435455]);
    match r.below(4) {
        0 => c,
        1 => (c + r.below(5)).saturating_sub(2).min(268435455),
        2 => {
            let bits = r.range(1, 28);
            r.below(1 << bits)
        }
        _ => r.below(268435456),
    }
}

/// `check` on buffers that hold little more than a header.
fn hdr(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let mut b = vec![r.byte()];
    let n = some_len(r);
    match r.below(6) {
        0 => b.truncate(r.below(2)),
        1 => {
            // padded or endless
            let k = r.range(1, 5);
            for _ in 0..k {
                b.push(0x80 | r.byte());
            }
            if r.coin() {
                b.push(r.byte() & 0x7f);
            }
        }
        2 => {
            put_var(&mut b, n);
            b.truncate(r.range(1, b.len()));
        }
        _ => {
            put_var(&mut b, n);
        }
    }
    let have = r.below(40);
    if b.len() > 1 {
        b.extend((0..have).map(|_| r.byte()));
    }
    let max = match r.below(6) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => r.below(300),
        4 => if r.coin() { 0 } else { wide_max(r, n) },
        _ => NOMAX,
    };
    out(hdr_rec(w, idx, &b, max));
}

/// What may already lie in a write buffer.
fn before(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => vec![],
        1 => {
            let v = *r.pick(&[4, 5]);
            peer(r, v).2
        }
        2 => {
            let n = r.range(1, 4);
            (0..n).map(|_| r.byte()).collect()
        }
        _ => {
            let n = if r.one_in(400) {
                *r.pick(&[16383, 16384, 65533, 65535, 65536, 65540, 70000])
            } else if r.one_in(40) {
                *r.pick(&[1500, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193])
            } else if r.one_in(12) {
                *r.pick(&[126, 127, 128, 129, 254, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025])
            } else {
                r.range(1, 60)
            };
            (0..n).map(|_| r.byte()).collect()
        }
    }
}

/// The same packet before, once or several times, or most of it.
fn itself(r: &mut Rng, ver: i64, p: &J, pe: i64) -> Vec<u8> {
    let mut b = BytesMut::new();
    let _ = write_buf(&from_json(ver, p, pe), &mut b);
    let mut l = if r.coin() { before(r) } else { vec![] };
    for _ in 0..r.range(1, 5) {
        l.extend_from_slice(&b);
    }
    if r.one_in(6) && !b.is_empty() {
        l.extend_from_slice(&b[..r.below(b.len())]);
    }
    l
}

/// A packet of a type and version that has as much as it can in common with
/// another: identifier, topics, properties, codes, whatever is named alike.
fn akin(r: &mut Rng, ver: i64, t: &str, p: &J) -> J {
    let mut q = packet(r, ver, t);
    let J::O(l) = q.clone() else { return q };
    for (k, v) in l {
        let Some(x) = p.opt(&k) else { continue };
        let alike = std::mem::discriminant(x) == std::mem::discriminant(&v);
        match k.as_str() {
            "pkid" => {
                if t != "Publish" || q.get("qos").int() > 0 {
                    q.set("pkid", if x.int() == 0 { i(1) } else { x.clone() });
                }
            }
            // what is written nearly always
            "props" => q.set("props", J::A(vec![])),
            "topic" | "payload" | "dup" | "retain" | "sp" | "id" | "clean" | "ka" if alike => q.set(&k, x.clone()),
            _ => {}
        }
    }
    // filters and topics of a subscription or its end
    let paths: Vec<J> = match (p.opt("filters"), p.opt("topics"), p.opt("topic")) {
        (Some(l), _, _) => l.arr().iter().map(|f| f.get("path").clone()).collect(),
        (_, Some(l), _) => l.arr().to_vec(),
        (_, _, Some(x)) if !x.bytes().is_empty() => vec![x.clone()],
        _ => vec![],
    };
    if !paths.is_empty() {
        match t {
            "Subscribe" => {
                let f = q.get("filters").arr()[0].clone();
                q.set("filters", J::A(paths.iter().map(|x| { let mut f = f.clone(); f.set("path", x.clone()); f }).collect()));
            }
            "Unsubscribe" => q.set("topics", J::A(paths)),
            "Publish" => q.set("topic", paths[0].clone()),
            _ => {}
        }
    }
    q
}

/// Every type behind every type, of either version, with the same identifier
/// and as much else in common; also behind two or three of them.
pub const KIN: usize = 14 * 14 * 4;
fn kin(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let (t, u) = (TYPES[idx % 14], TYPES[idx / 14 % 14]);
    let (ver, uver) = [(4, 4), (5, 5), (4, 5), (5, 4)][idx / 196 % 4];
    let mut p = packet(r, ver, t);
    if idx / KIN % 2 == 0 && p.opt("props").is_some() {
        p.set("props", J::A(vec![]));
    }
    let q = akin(r, uver, u, &p);
    let mut b = BytesMut::new();
    if r.coin() {
        b.extend_from_slice(&before(r));
    }
    for _ in 0..*r.pick(&[1, 1, 2, 3]) {
        let _ = write_buf(&from_json(uver, &q, r.below(4) as i64), &mut b);
    }
    out(enc_rec(w, idx, ver, &p, 0, &b));
}

fn enc(w: &Watch, idx: usize, r: &mut Rng, ver: i64, out: Sink) {
    if idx % 100 == 7 {
        longer(5);
    }
    let t = pick_type(r);
    let mut p = packet(r, ver, t);
    if t == "Publish" && p.get("qos").int() == 0 && r.one_in(12) {
        // an identifier left over from a publish of higher quality
        p.set("pkid", i(pkid(r)));
    }
    // around the points where a length field grows, small ones often
    match r.below(120) {
        0..=9 => {
            let (f, _) = encode(&mut Rng::new(1), ver, &p);
            let n = header(&f).unwrap().1;
            let target = *r.pick(&[125, 126, 127, 128, 129, 130, 131]);
            if n < target {
                pad(r, ver, &mut p, target - n);
            }
        }
        10 => {
            let (f, _) = encode(&mut Rng::new(1), ver, &p);
            let n = header(&f).unwrap().1;
            let target = *r.pick(&[16381, 16382, 16383, 16384, 16385, 16386]);
            if n < target {
                pad(r, ver, &mut p, target - n);
            }
        }
        11..=20 if ver == 5 && p.opt("props").is_some() && (t != "Connect" || p.get("proto").str() == "V5") => {
            let n = props_len(p.get("props").arr());
            let target = *r.pick(&[125, 126, 127, 128, 129, 130]);
            if n < target {
                pad_props(&mut p, target - n);
            }
        }
        21 if ver == 5 && p.opt("props").is_some() && (t != "Connect" || p.get("proto").str() == "V5") => {
            let n = props_len(p.get("props").arr());
            pad_props(&mut p, *r.pick(&[16382usize, 16383, 16384, 16385]) - n.min(16000));
        }
        _ => {}
    }
    let pe = r.below(4) as i64;
    let pre = if r.one_in(5) { itself(r, ver, &p, pe) } else { before(r) };
    out(enc_rec(w, idx, ver, &p, pe, &pre));
    if r.one_in(6) {
        out(enc_rec(w, idx, ver, &twist(r, &p), pe, &pre));
    }
}

/// Packets that cannot be sent, and odd ones that can.
fn bad(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let ver = *r.pick(&[4, 5]);
    let pre = before(r);
    let mut p;
    match r.below(7) {
        0 | 1 => {
            p = packet(r, ver, "Publish");
            p.set("qos", i(r.range(1, 2)));
            p.set("pkid", i(0));
        }
        2 => {
            // odd but sendable
            let t = pick_type(r);
            p = packet(r, ver, t);
            match t {
                "Publish" => {
                    p.set("qos", i(0));
                    p.set("pkid", i(0));
                }
                "PingReq" | "PingResp" | "Disconnect" | "Connect" | "ConnAck" => {}
                _ => p.set("pkid", i(0)),
            }
        }
        3 => {
            let t = pick_type(r);
            p = packet(r, ver, t);
        }
        _ => {
            // lists, texts that are empty; what no standard allows
            let t = *r.pick(&["Subscribe", "Unsubscribe", "SubAck", "UnsubAck", "Connect", "Publish", "Subscribe"]);
            p = packet(r, ver, t);
            match t {
                "Subscribe" => {
                    let mut l = p.get("filters").arr().to_vec();
                    match r.below(4) {
                        0 | 1 => l.clear(),
                        2 => l[0].set("path", y(&[])),
                        _ => l[0].set("path", y(*r.pick(&[&b"a#"[..], b"#/a", b"a+/b", b"++", b"##"]))),
                    }
                    p.set("filters", J::A(l));
                }
                "Unsubscribe" => {
                    let mut l = p.get("topics").arr().to_vec();
                    match r.below(4) {
                        0 | 1 => l.clear(),
                        2 => l[0] = y(&[]),
                        _ => l[0] = y(*r.pick(&[&b"a#"[..], b"#/a", b"a+/b", b"++", b"##"])),
                    }
                    p.set("topics", J::A(l));
                }
                "SubAck" => p.set("codes", J::A(vec![])),
                "UnsubAck" if ver == 5 => p.set("codes", J::A(vec![])),
                "Connect" => {
                    p.set("id", y(&[]));
                    p.set("clean", J::B(false));
                    p.set("login", J::A(vec![o(vec![("u", y(&[])), ("p", y(&[]))])]));
                }
                "Publish" => {
                    p.set("topic", y(*r.pick(&[&b""[..], b"+", b"a/#", b"$"])));
                    p.set("qos", i(r.below(3)));
                    p.set("pkid", i(r.below(2)));
                }
                _ => {}
            }
            if r.coin() && p.opt("pkid").is_some() && t != "Publish" {
                p.set("pkid", i(0));
            }
        }
    }
    out(enc_rec(w, idx, ver, &p, 0, &pre));
}

/// Every string and binary field there is: (version, packet, place, field).
pub fn long_fields() -> Vec<(i64, &'static str, &'static str)> {
    let mut l = Vec::new();
    for ver in [4, 5] {
        for f in ["id", "will.topic", "will.msg", "login.u", "login.p"] {
            l.push((ver, "Connect", f));
        }
        l.push((ver, "Publish", "topic"));
        l.push((ver, "Subscribe", "filters.1"));
        l.push((ver, "Subscribe", "filters.2"));
        l.push((ver, "Unsubscribe", "topics.1"));
        l.push((ver, "Unsubscribe", "topics.2"));
    }
    for place in PLACES {
        for id in allowed(place) {
            let (_, name, ty) = prop_by_id(*id).unwrap();
            match ty {
                Ty::Text | Ty::Data => l.push((5, place, name)),
                Ty::Pair => {
                    l.push((5, place, "UserProperty.k"));
                    l.push((5, place, "UserProperty.v"));
                }
                _ => {}
            }
        }
    }
    l
}

/// Every text or binary field with each of the texts that mean something to
/// somebody: written, and read as a peer sends it.
fn dict(w: &Watch, idx: usize, r: &mut Rng, of: i64, write: bool, out: Sink) {
    let l: Vec<_> = long_fields().into_iter().filter(|x| x.0 == of).collect();
    let (ver, place, field) = l[idx % l.len()];
    let plain = matches!(field, "topic" | "will.topic" | "ResponseTopic");
    for (k, x) in KNOWN.iter().chain(&PHRASES).enumerate() {
        if x.is_empty() || plain && (x.contains('+') || x.contains('#')) {
            continue;
        }
        let p = with_field(r, ver, place, field, x.as_bytes().to_vec());
        if write {
            let pre = before(r);
            out(enc_rec(w, idx, ver, &p, (k % 4) as i64, &pre));
        } else {
            let (f, _) = encode(r, ver, &p);
            out(dec_rec(w, idx, ver, &f, NOMAX, vec![]).0);
        }
    }
}

/// Packets of all sizes written into buffers with all amounts of room behind
/// what they hold; projections as of `after`.
fn room(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    const HELD: [usize; 9] = [0, 1, 60, 201, 290, 513, 1030, 5000, 70_000];
    const SIZE: [usize; 8] = [0, 100, 300, 1001, 2000, 4100, 20_000, 100_000];
    let ver = if idx % 2 == 0 { 4 } else { 5 };
    let t = *r.pick(&["Publish", "Publish", "Publish", "Connect", "Subscribe", "Unsubscribe", "SubAck"]);
    let held = HELD[idx / 2 % 9] + r.below(3);
    let size = SIZE[idx / 18 % 8] + r.below(3);
    let mut p = packet(r, ver, t);
    if p.opt("props").is_some() && r.coin() {
        p.set("props", J::A(vec![]));
    }
    if t == "Publish" {
        p.set("topic", y("topic"[..r.range(1, 5)].as_bytes()));
    }
    if size > 0 {
        pad(r, ver, &mut p, size);
    }
    let pk = from_json(ver, &p, 0);
    let mut f = BytesMut::new();
    let _ = write_buf(&pk, &mut f);
    let n = f.len();
    let rooms = [0, 1, 4, n / 2, n.saturating_sub(size), n.saturating_sub(1), n, n + 1, size, 2 * n];
    for k in [idx / 144, idx / 144 + 3, idx / 144 + 7] {
        room_rec(w, idx, r, ver, &p, &pk, held, rooms[(k + idx) % rooms.len()], out);
    }
}

fn room_rec(w: &Watch, idx: usize, r: &mut Rng, ver: i64, p: &J, pk: &Pk, held: usize, free: usize, out: Sink) {
    // the packet itself may be large: only its type is logged
    let base = o(vec![("k", s("after")), ("ver", i(ver as usize)), ("p", o(vec![("t", p.get("t").clone())])), ("pre", i(held)), ("free", i(free))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("ret", crash("abort"));
        b.set("fret", crash("abort"));
        b.set("size", i(0));
        b.set("fsize", i(0));
        b.set("kept", J::B(true));
        b.set("same", J::B(true));
        b
    });
    let pre: Vec<u8> = (0..held).map(|_| r.byte()).collect();
    let mut b = BytesMut::with_capacity(held + free);
    b.extend_from_slice(&pre);
    let ret = write_buf(pk, &mut b);
    let mut f = BytesMut::new();
    let fret = write_buf(pk, &mut f);
    let mut rec = base;
    rec.set("ret", out_num(&ret));
    rec.set("fret", out_num(&fret));
    rec.set("size", i(b.len().saturating_sub(held)));
    rec.set("fsize", i(f.len()));
    rec.set("same", J::B(b.len() >= held && b[held..] == f[..]));
    rec.set("kept", J::B(b.len() >= held && b[..held] == pre[..]));
    out(rec);
}

/// One field of a packet has n bytes, all others are small.
pub fn with_long(r: &mut Rng, ver: i64, place: &str, field: &str, n: usize) -> J {
    with_field(r, ver, place, field, vec![b'x'; n])
}

/// One field of a packet is this, all others are small.
pub fn with_field(r: &mut Rng, ver: i64, place: &str, field: &str, x: Vec<u8>) -> J {
    let t = if place == "Will" { "Connect" } else { place };
    let n = x.len();
    let x = J::Y(x);
    let small = |b: &str| y(b.as_bytes());
    let mut p = packet(r, ver, t);
    if t == "Connect" {
        p.set("proto", s(if ver == 4 { "V4" } else { "V5" }));
        p.set("props", J::A(vec![]));
        p.set("will", J::A(vec![]));
        p.set("login", J::A(vec![]));
    }
    let will = |a: J, b: J, props: J| {
        J::A(vec![o(vec![("topic", a), ("msg", b), ("qos", i(1)), ("retain", J::B(true)), ("props", props)])])
    };
    match field {
        "id" | "topic" => p.set(field, x),
        "will.topic" => p.set("will", will(x, small("m"), J::A(vec![]))),
        "will.msg" => p.set("will", will(small("w"), x, J::A(vec![]))),
        "login.u" => p.set("login", J::A(vec![o(vec![("u", x), ("p", small("p"))])])),
        "login.p" => p.set("login", J::A(vec![o(vec![("u", small("u")), ("p", x)])])),
        "filters.1" | "filters.2" => {
            let one = |path: J| o(vec![("path", path), ("qos", i(1)), ("nl", J::B(false)), ("rap", J::B(false)), ("rh", s("OnEverySubscribe"))]);
            let mut l = vec![one(x), one(small("b"))];
            if field == "filters.2" {
                l.reverse();
            }
            p.set("filters", J::A(l));
        }
        "topics.1" | "topics.2" => {
            let mut l = vec![x, small("b")];
            if field == "topics.2" {
                l.reverse();
            }
            p.set("topics", J::A(l));
        }
        _ => {
            // as bytes if it can be written, see prop_value
            let pair = |k: &[u8], v: &[u8]| {
                let mut b = vec![(k.len() >> 8) as u8, k.len() as u8];
                b.extend_from_slice(k);
                b.extend_from_slice(v);
                J::Y(b)
            };
            let (name, v) = match field {
                "UserProperty.k" if n < 65536 => ("UserProperty", pair(&x.bytes(), b"v")),
                "UserProperty.v" if n < 65536 => ("UserProperty", pair(b"k", &x.bytes())),
                "UserProperty.k" => ("UserProperty", o(vec![("k", x), ("v", small("v"))])),
                "UserProperty.v" => ("UserProperty", o(vec![("k", small("k")), ("v", x)])),
                _ => (field, x),
            };
            let mut l = vec![J::A(vec![s(name), v])];
            if name == "AuthenticationData" {
                l.insert(0, J::A(vec![s("AuthenticationMethod"), y(b"m")]));
            }
            let l = J::A(l);
            if place == "Will" {
                p.set("will", will(small("w"), small("m"), l));
            } else {
                p.set("props", l);
            }
        }
    }
    p
}

pub const LONGS: [usize; 8] = [65536, 65535, 32768, 32767, 65537, 131072, 70000, 65534];

fn long(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let fields = long_fields();
    let (ver, place, field) = fields[idx % fields.len()];
    let n = LONGS[(idx / fields.len()) % LONGS.len()];
    let p = with_long(r, ver, place, field, n);
    let pk = from_json(ver, &p, 0);
    let pre: Vec<u8> = (0..r.below(9)).map(|_| r.byte()).collect();
    let what = format!("v{} {} {}", ver, place, field);
    let base = o(vec![("k", s("long")), ("ver", i(ver as usize)), ("what", s(&what)), ("n", i(n))]);
    w.about(idx, || {
        let mut b = base.clone();
        for k in ["ret", "fret"] {
            b.set(k, crash("abort"));
        }
        for k in ["size", "left", "fsize"] {
            b.set(k, i(0));
        }
        b.set("kept", J::B(true));
        b.set("back", J::B(false));
        b.set("theirs", crash("abort"));
        b
    });
    // a peer's frame of it
    let theirs = if n < 65536 {
        let (f, _) = encode(r, ver, &p);
        let mut b = buffer(&f);
        match read_buf(ver, &mut b, NOMAX) {
            None => crash("panic"),
            Some(Err(e)) => err_json(&e),
            Some(Ok(q)) => o(vec![("r", s("is")), ("b", J::B(to_json(&q) == p && b.is_empty()))]),
        }
    } else {
        o(vec![("r", s("none"))])
    };
    let mut b = buffer(&pre);
    let ret = write_buf(&pk, &mut b);
    let kept = b.len() >= pre.len() && b[..pre.len()] == pre[..];
    let mut f = BytesMut::new();
    let fret = write_buf(&pk, &mut f);
    let fsize = f.len();
    let back = matches!(read_buf(ver, &mut f, NOMAX), Some(Ok(q)) if q == pk);
    let mut rec = base;
    rec.set("ret", out_num(&ret));
    rec.set("fret", out_num(&fret));
    rec.set("theirs", theirs);
    rec.set("size", i(b.len().saturating_sub(pre.len())));
    rec.set("fsize", i(fsize));
    rec.set("left", i(f.len()));
    rec.set("kept", J::B(kept));
    rec.set("back", J::B(back));
    out(rec);
}

const HUGE: [(i64, &str); 17] = [
    (4, "Subscribe"), (4, "Unsubscribe"), (5, "Subscribe"), (5, "Unsubscribe"), (5, "Connect"),
    (5, "Will"), (5, "ConnAck"), (5, "Publish"), (5, "PubAck"), (5, "PubRec"), (5, "PubRel"),
    (5, "PubComp"), (5, "SubAck"), (5, "UnsubAck"), (5, "Disconnect"), (4, "SubAck"), (5, "SubAck"),
];

/// Packets around the greatest length that are long for other reasons than
/// their payload: very many list elements or properties.
fn huge(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let (ver, place) = HUGE[idx % HUGE.len()];
    let dec = [268435456, 268435455, 268435457][(idx / HUGE.len()) % 3];
    let lists = matches!(place, "Subscribe" | "Unsubscribe") || idx % HUGE.len() >= 15;
    let t = if place == "Will" { "Connect" } else { place };
    let mut p = packet(r, ver, t);
    if p.opt("props").is_some() {
        p.set("props", J::A(vec![]));
    }
    if t == "Connect" {
        p.set("proto", s("V5"));
        p.set("login", J::A(vec![]));
        let e = y(&[]);
        p.set("will", J::A(if place == "Will" {
            vec![o(vec![("topic", e.clone()), ("msg", e), ("qos", i(0)), ("retain", J::B(false)), ("props", J::A(vec![]))])]
        } else {
            vec![]
        }));
    }
    // the size of everything but the filler
    let (fixed, each);
    let mut pk;
    if lists {
        match place {
            "Subscribe" => p.set("filters", J::A(vec![])),
            "Unsubscribe" => p.set("topics", J::A(vec![])),
            _ => p.set("codes", J::A(vec![])),
        }
        pk = from_json(ver, &p, 0);
        fixed = 2 + if ver == 5 { 1 } else { 0 };
        each = if place == "Subscribe" { 3 } else { 2 };
        let mut rest = dec - fixed;
        let mut l = Vec::new();
        if !place.ends_with("Ack") {
            while rest > 0 {
                // leave room for one more element, or nothing
                let mut n = (rest - each).min(65535);
                if rest - each - n > 0 && rest - each - n < each {
                    n -= each;
                }
                l.push("f".repeat(n));
                rest -= each + n;
            }
        }
        let q = mqttbytes::QoS::AtLeastOnce;
        match &mut pk {
            Pk::V4(mqttbytes::v4::Packet::Subscribe(x)) => {
                x.filters = l.into_iter().map(|f| mqttbytes::v4::SubscribeFilter::new(f, q)).collect()
            }
            Pk::V4(mqttbytes::v4::Packet::Unsubscribe(x)) => x.topics = l,
            Pk::V4(mqttbytes::v4::Packet::SubAck(x)) => {
                x.return_codes = vec![mqttbytes::v4::SubscribeReasonCode::Success(q); rest]
            }
            Pk::V5(mqttbytes::v5::Packet::Subscribe(x)) => {
                x.filters = l.into_iter().map(|f| mqttbytes::v5::SubscribeFilter::new(f, q)).collect()
            }
            Pk::V5(mqttbytes::v5::Packet::Unsubscribe(x)) => x.filters = l,
            Pk::V5(mqttbytes::v5::Packet::SubAck(x)) => {
                x.return_codes = vec![mqttbytes::v5::SubscribeReasonCode::QoS1; rest]
            }
            _ => panic!("harness: huge {}", place),
        }
    } else {
        let (f, _) = encode(&mut Rng::new(1), ver, &p);
        let n = header(&f).unwrap().1;
        // a property length of four bytes, and the short forms spelled out
        fixed = match place {
            "PubAck" | "PubRec" | "PubRel" | "PubComp" => 2 + 1 + 4,
            "Disconnect" => 1 + 4,
            "Connect" => 10 + 4 + 2 + p.get("id").bytes().len(),
            "Will" => 10 + 1 + 2 + p.get("id").bytes().len() + 4 + 4,
            _ => n + 3,
        };
        each = 5;
        let mut rest = dec - fixed;
        let mut l: Vec<J> = Vec::new();
        while rest > 0 {
            let mut n = (rest - each).min(131070);
            if rest - each - n > 0 && rest - each - n < each {
                n -= each;
            }
            let k = n.min(65535);
            let mut b = vec![(k >> 8) as u8, k as u8];
            b.resize(2 + n, b'u');
            l.push(J::A(vec![s("UserProperty"), J::Y(b)]));
            rest -= each + n;
        }
        if place == "Will" {
            let mut wl = p.get("will").arr()[0].clone();
            wl.set("props", J::A(l));
            p.set("will", J::A(vec![wl]));
        } else {
            p.set("props", J::A(l));
        }
        pk = from_json(ver, &p, 0);
        drop(p);
    }
    big_rec(w, idx, r, ver, &format!("{} {}", place, if lists { "list" } else { "properties" }), dec, pk, out);
}

/// Every packet type behind buffers of telling sizes; projections are logged.
pub const PRES: [usize; 14] = [254, 255, 256, 257, 4095, 16383, 16384, 32768, 65526, 65535, 65536, 65537, 70000, 1 << 20];
fn after(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let t = TYPES[idx % 14];
    let ver = if (idx / 14) % 2 == 0 { 4 } else { 5 };
    let n = PRES[(idx / 28) % PRES.len()];
    let mut p = packet(r, ver, t);
    if t == "Publish" && r.one_in(4) {
        p.set("qos", i(1));
        p.set("pkid", i(0));
    }
    let base = o(vec![("k", s("after")), ("ver", i(ver as usize)), ("p", p.clone()), ("pre", i(n))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("ret", crash("abort"));
        b.set("fret", crash("abort"));
        b.set("size", i(0));
        b.set("fsize", i(0));
        b.set("kept", J::B(true));
        b.set("same", J::B(true));
        b
    });
    let pk = from_json(ver, &p, r.below(4) as i64);
    // what is in it, and how much room it has, must not matter
    let fill = *r.pick(&[0u8, 0xc0, 0x10, 0xff]);
    let mut pre = vec![fill; n];
    for _ in 0..50 {
        let k = r.below(n);
        pre[k] = r.byte();
    }
    let mut b = match r.below(3) {
        0 => BytesMut::from(&pre[..]),
        1 => {
            let mut b = BytesMut::with_capacity(n);
            b.extend_from_slice(&pre);
            b
        }
        _ => {
            let mut b = BytesMut::with_capacity(2 * n + 100);
            b.extend_from_slice(&[1, 2, 3]);
            b.extend_from_slice(&pre);
            b.advance(3);
            b
        }
    };
    let ret = write_buf(&pk, &mut b);
    let mut f = BytesMut::new();
    let fret = write_buf(&pk, &mut f);
    let kept = b.len() >= n && b[..n] == pre[..];
    let mut rec = base;
    rec.set("ret", out_num(&ret));
    rec.set("fret", out_num(&fret));
    rec.set("size", i(b.len().saturating_sub(n)));
    rec.set("fsize", i(f.len()));
    rec.set("same", J::B(b.len() >= n && b[n..] == f[..]));
    rec.set("kept", J::B(kept));
    out(rec);
}

/// Property sections around the sizes at which their length field grows,
/// in every place: written, read back, and read as a peer's frame. idx runs
/// through the places first, then the sizes, then few or many properties.
pub const WIDE: [usize; 11] = [16383, 16384, 2097151, 2097152, 127, 128, 16385, 65535, 65536, 131073, 2097153];
fn wide(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let place = PLACES[idx % PLACES.len()];
    let plen = WIDE[(idx / PLACES.len()) % WIDE.len()];
    let many = (idx / PLACES.len() / WIDE.len() + idx) % 2 == 1 && plen < 200_000;
    let t = if place == "Will" { "Connect" } else { place };
    let mut p = packet(r, 5, t);
    let mut l: Vec<J> = Vec::new();
    let mut rest = plen;
    let cap = if many { 20 } else { 131_070 };
    while rest > 0 {
        let mut n = (rest - 5).min(cap);
        if rest - 5 - n > 0 && rest - 5 - n < 5 {
            n -= 5;
        }
        let k = n.min(65535).min(if n > 65535 { 65535 } else { r.below(n + 1) });
        let mut b = vec![(k >> 8) as u8, k as u8];
        for x in 0..n {
            b.push(b'a' + ((x + l.len()) % 26) as u8);
        }
        l.push(J::A(vec![s("UserProperty"), J::Y(b)]));
        rest -= 5 + n;
    }
    if t == "Connect" {
        p.set("proto", s("V5"));
        p.set("id", y(b"cl"));
        p.set("login", J::A(vec![o(vec![("u", y(b"u")), ("p", y(b"p"))])]));
    }
    if t == "Publish" {
        p.set("topic", y(b"tt"));
        p.set("qos", i(1));
        p.set("pkid", i(77));
    }
    if place == "Will" {
        p.set("props", J::A(vec![]));
        p.set("will", J::A(vec![o(vec![("topic", y(b"w")), ("msg", y(b"m")), ("qos", i(r.below(3))), ("retain", J::B(r.coin())), ("props", J::A(l))])]));
    } else {
        p.set("props", J::A(l));
    }
    let (f, z) = encode(r, 5, &p);
    let at = z.iter().find_map(|(p, k)| match k {
        Site::PropLen(_, n) if *n == plen => Some(*p),
        _ => None,
    });
    let (h, dec) = header(&f).unwrap();
    let base = o(vec![("k", s("wide")), ("ver", i(5)), ("what", s(place)), ("dec", i(dec)), ("plen", i(plen)),
        ("at", i(at.expect("harness: section") - h))]);
    w.about(idx, || {
        let mut b = base.clone();
        for k in ["ret", "theirs"] {
            b.set(k, crash("abort"));
        }
        b.set("head", y(&[]));
        for k in ["size", "left", "behind"] {
            b.set(k, i(0));
        }
        b.set("own", J::I(-1));
        b.set("back", J::B(false));
        b
    });
    let pk = from_json(5, &p, 0);
    let mut b = BytesMut::new();
    let ret = write_buf(&pk, &mut b);
    let own = guard(|| own_len(&pk)).unwrap_or(None);
    let size = b.len();
    let head: Vec<u8> = b.iter().take(40).copied().collect();
    let behind = [0xe0u8, 0, 0x30];
    b.extend_from_slice(&behind);
    let got = if let Some(Ok(_)) = ret { Some(read_buf(5, &mut b, NOMAX)) } else { None };
    let same = |x: &Pk| to_json(x) == p;
    let back = matches!(&got, Some(Some(Ok(q))) if same(q));
    let mut fb = buffer(&f);
    fb.extend_from_slice(&behind);
    let th = read_buf(5, &mut fb, NOMAX);
    let theirs = match &th {
        None => crash("panic"),
        Some(Err(e)) => err_json(e),
        Some(Ok(q)) => o(vec![("r", s("is")), ("b", J::B(same(q) && fb[..] == behind))]),
    };
    let mut rec = base;
    rec.set("ret", out_num(&ret));
    rec.set("theirs", theirs);
    rec.set("head", y(&head));
    rec.set("size", i(size));
    rec.set("own", own.map(i).unwrap_or(J::I(-1)));
    rec.set("back", J::B(back));
    rec.set("left", i(b.len()));
    rec.set("behind", i(behind.len()));
    out(rec);
}

/// Everything that can be read: what is read is written and read again.
fn re(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let ver = *r.pick(&[4, 5]);
    let f = match r.below(4) {
        0 => peer(r, ver).2,
        1 => odd(r, ver),
        _ => broken(r, ver),
    };
    let (_, pk) = dec_rec(w, idx, ver, &f, NOMAX, vec![]);
    if let Some(pk) = pk {
        out(re_rec(w, idx, ver, &f, &pk));
    }
}

/// Unusual but tolerated frames.
fn odd(r: &mut Rng, ver: i64) -> Vec<u8> {
    let (t, _, f, z) = peer(r, ver);
    let (h, _) = header(&f).unwrap();
    let mut s = f.clone();
    match r.below(8) {
        0 => s[0] ^= 1 << r.below(4),
        1 => {
            let mut b = f[h..].to_vec();
            b.extend((0..r.range(1, 5)).map(|_| r.byte()));
            s = rebody(&f, &b);
        }
        2 if t == "Connect" => {
            // the other protocol's level over this layout, and the layout too
            let other = if ver == 4 { 5 } else { 4 };
            let q = packet(r, other, "Connect");
            s = encode(r, other, &q).0;
        }
        3 => {
            // header length with a padded representation
            if f.len() - h < 16384 {
                s = widen(&f, r.range(3, 4));
            }
        }
        4 => {
            // a property twice
            let l: Vec<_> = z.iter().filter(|(_, k)| matches!(k, Site::PropLen(_, n) if *n > 0)).collect();
            if let Some((at, Site::PropLen(a, n))) = l.first() {
                let sec = f[at + a..at + a + n].to_vec();
                let mut b = f[h..*at].to_vec();
                put_var(&mut b, 2 * n);
                b.extend_from_slice(&sec);
                b.extend_from_slice(&f[at + a..]);
                s = rebody(&f, &b);
            }
        }
        5 => {
            // identifier zero
            for (at, k) in &z {
                if let Site::Var(1) = k {
                    s[*at] = 0;
                }
            }
        }
        6 => {
            let b = match t {
                "Subscribe" | "Unsubscribe" => {
                    let mut b = vec![0, 9];
                    if ver == 5 {
                        b.push(0);
                    }
                    b
                }
                _ => f[h..].to_vec(),
            };
            s = rebody(&f, &b);
        }
        _ => {
            for (at, k) in &z {
                match k {
                    Site::Options => s[*at] |= r.byte() & 0xcc,
                    Site::Flags => s[*at] |= 1,
                    _ => {}
                }
            }
        }
    }
    s
}

// ------------------------------------------------------- properties (C15) --

pub const PLACES: [&str; 13] = [
    "Connect", "Will", "ConnAck", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe",
    "SubAck", "Unsubscribe", "UnsubAck", "Disconnect",
];

/// A frame with the given bytes as the property section of a place.
pub fn with_section(r: &mut Rng, place: &str, declared: &[u8], sec: &[u8]) -> Vec<u8> {
    let mut b: Vec<u8> = Vec::new();
    let sect = |b: &mut Vec<u8>| {
        b.extend_from_slice(declared);
        b.extend_from_slice(sec);
    };
    let b1 = match place {
        "Connect" | "Will" => {
            b.extend([0, 4, 77, 81, 84, 84, 5, if place == "Will" { 6 } else { 2 }, 0, 10]);
            if place == "Connect" {
                sect(&mut b);
            } else {
                b.push(0);
            }
            b.extend([0, 1, b'c']);
            if place == "Will" {
                sect(&mut b);
                b.extend([0, 1, b'w', 0, 2, 1, 2]);
            }
            0x10
        }
        "ConnAck" => {
            b.extend([0, 0]);
            sect(&mut b);
            0x20
        }
        "Publish" => {
            let q = r.below(3) as u8;
            b.extend([0, 1, b't']);
            if q > 0 {
                b.extend([0, 7]);
            }
            sect(&mut b);
            b.extend_from_slice(*r.pick(&[&[][..], &[1, 2, 3], &[38, 0, 1, 97, 0, 1, 98], &[0, 0, 0, 0, 0, 0]]));
            0x30 | q << 1
        }
        "PubAck" | "PubRec" | "PubRel" | "PubComp" => {
            b.extend([0, 7, 0]);
            sect(&mut b);
            match place {
                "PubAck" => 0x40,
                "PubRec" => 0x50,
                "PubRel" => 0x62,
                _ => 0x70,
            }
        }
        "Subscribe" => {
            b.extend([0, 7]);
            sect(&mut b);
            b.extend([0, 1, b'f', 1]);
            0x82
        }
        "SubAck" => {
            b.extend([0, 7]);
            sect(&mut b);
            b.push(1);
            0x90
        }
        "Unsubscribe" => {
            b.extend([0, 7]);
            sect(&mut b);
            b.extend([0, 1, b'f']);
            0xa2
        }
        "UnsubAck" => {
            b.extend([0, 7]);
            sect(&mut b);
            b.push(0);
            0xb0
        }
        _ => {
            b.push(0);
            sect(&mut b);
            0xe0
        }
    };
    frame(b1, &b).0
}

pub fn prop_bytes(r: &mut Rng, id: u8) -> Vec<u8> {
    let mut b = vec![id];
    // a zero where the standard allows one
    let zero = r.one_in(3);
    let nonzero = matches!(id, 33 | 35 | 39);
    match prop_by_id(id).map(|p| p.2) {
        Some(Ty::U8) => b.push(!zero as u8),
        Some(Ty::U16) if zero && !nonzero => b.extend([0, 0]),
        Some(Ty::U16) => b.extend(*r.pick(&[[0, 5], [0, 1], [1, 0], [255, 255], [0, 38]])),
        Some(Ty::U32) if zero && !nonzero => b.extend([0; 4]),
        Some(Ty::U32) => b.extend(*r.pick(&[[0, 0, 1, 0], [0, 0, 0, 1], [255; 4], [1, 2, 3, 4], [38, 0, 0, 31]])),
        Some(Ty::Var) => {
            let n = varnum(r);
            put_var(&mut b, n);
        }
        Some(Ty::Text) if zero && id != 8 => b.extend([0, 0]),
        Some(Ty::Data) if zero => b.extend([0, 0]),
        Some(Ty::Text) | Some(Ty::Data) => b.extend(*r.pick(&[[0, 2, b'x', b'y'], [0, 2, b'a', b'/']])),
        Some(Ty::Pair) => match r.below(5) {
            0 => b.extend([0, 0, 0, 0]),
            1 => b.extend([0, 0, 0, 1, b'v']),
            2 => b.extend([0, 1, b'k', 0, 0]),
            _ => b.extend([0, 1, b'k', 0, 1, b'v']),
        },
        None => b.extend(*r.pick(&[[0, 0, 0, 0], [0, 0, 0, 0], [1, 1, 1, 1], [0, 2, b'a', b'b'], [38, 0, 0, 0], [255; 4]])),
    }
    b
}

/// Every place with every identifier: idx = place * 256 + id.
fn props_grid(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let place = PLACES[(idx / 256) % PLACES.len()];
    let id = (idx % 256) as u8;
    let mut sec = prop_bytes(r, id);
    // alone, or between allowed ones
    let ok: Vec<u8> = allowed(place).iter().copied().filter(|x| *x != id && *x != 22).collect();
    match (idx / (256 * PLACES.len()) + r.below(2)) % 4 {
        0 => {}
        1 if !ok.is_empty() => {
            let x = *r.pick(&ok);
            let mut p = prop_bytes(r, x);
            p.extend_from_slice(&sec);
            sec = p;
        }
        2 if !ok.is_empty() => {
            let x = *r.pick(&ok);
            let p = prop_bytes(r, x);
            sec.extend_from_slice(&p);
        }
        _ => {}
    }
    // authentication data never comes without a method
    if sec.first() == Some(&22) && allowed(place).contains(&22) {
        let mut p = prop_bytes(r, 21);
        p.extend_from_slice(&sec);
        sec = p;
    }
    let mut d = Vec::new();
    put_var(&mut d, sec.len());
    let f = with_section(r, place, &d, &sec);
    out(dec_rec(w, idx, 5, &f, NOMAX, vec![("place", s(place))]).0);
}

/// Every place with every assigned identifier beside every property that the
/// place allows, before (even idx) and behind it.
fn pairs(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let place = PLACES[idx / 2 % PLACES.len()];
    let ok = allowed(place);
    let all: Vec<u8> = (0..=255).filter(|x| prop_by_id(*x).is_some()).collect();
    let k = idx / 2 / PLACES.len();
    let (id, x) = (all[k % all.len()], k / all.len());
    // the last round: all allowed properties at once
    let beside: Vec<u8> = if x < ok.len() { vec![ok[x]] } else if x == ok.len() { ok.to_vec() } else { return };
    let forms = if x < ok.len() && (ok[x] != id || repeatable(place, id)) { prop_forms(ok[x]) } else { vec![vec![]] };
    for form in forms {
        let mut sec = Vec::new();
        let one = prop_bytes(r, id);
        if idx % 2 == 1 {
            sec.extend_from_slice(&one);
        }
        sec.extend_from_slice(&form);
        if x == ok.len() {
            for b in &beside {
                if *b != id || repeatable(place, *b) {
                    let p = prop_bytes(r, *b);
                    sec.extend(p);
                }
            }
        }
        if idx % 2 == 0 {
            sec.extend_from_slice(&one);
        }
        let mut d = Vec::new();
        put_var(&mut d, sec.len());
        let f = with_section(r, place, &d, &sec);
        out(dec_rec(w, idx, 5, &f, NOMAX, vec![("place", s(place))]).0);
    }
}

/// A property with each of its telling values.
fn prop_forms(id: u8) -> Vec<Vec<u8>> {
    let all: Vec<Vec<u8>> = match prop_by_id(id).map(|p| p.2) {
        Some(Ty::U8) => vec![vec![0], vec![1]],
        Some(Ty::U16) => vec![vec![0, 0], vec![0, 1], vec![1, 0], vec![255, 255]],
        Some(Ty::U32) => vec![vec![0; 4], vec![0, 0, 0, 1], vec![0, 0, 1, 0], vec![255; 4]],
        Some(Ty::Var) => vec![vec![1], vec![127], vec![128, 1], vec![255, 255, 255, 127]],
        Some(Ty::Text) | Some(Ty::Data) => vec![vec![0, 0], vec![0, 2, b'x', b'y']],
        _ => vec![vec![0, 0, 0, 0], vec![0, 1, b'k', 0, 1, b'v']],
    };
    all.into_iter()
        .filter(|v| !(matches!(id, 33 | 35 | 39) && v.iter().all(|b| *b == 0)) && !(id == 8 && v == &[0, 0]))
        .map(|v| {
            let mut b = vec![id];
            b.extend(v);
            b
        })
        .collect()
}

/// Sections whose declared length and content disagree.
fn section(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let place = PLACES[idx % PLACES.len()];
    let ids = allowed(place);
    let mut sec = Vec::new();
    // each property as the last one of the section in turn
    let last = ids[(idx / PLACES.len()) % ids.len()];
    let mut used = Vec::new();
    for _ in 0..r.below(3) {
        let x = *r.pick(ids);
        if x != last && x != 22 && (!used.contains(&x) || repeatable(place, x)) {
            used.push(x);
            sec.extend(prop_bytes(r, x));
        }
    }
    if last == 22 {
        sec.extend(prop_bytes(r, 21));
    }
    sec.extend(prop_bytes(r, last));
    let n = sec.len();
    let m = match r.below(7) {
        0 => n,
        1 | 2 => n - 1,
        3 => n + 1,
        4 => r.below(n + 1),
        5 => n + r.below(12),
        _ => n - r.below(n.min(5) + 1),
    };
    let mut d = Vec::new();
    put_var(&mut d, m);
    let mut f = with_section(r, place, &d, &sec);
    if r.one_in(6) {
        // the packet ends with, or in, the section
        if let Some(p) = f.windows(sec.len()).rposition(|x| x == &sec[..]) {
            let (h, _) = header(&f).unwrap();
            let end = p + r.below(sec.len() + 1);
            if end >= h {
                f = rebody(&f, &f[h..end].to_vec());
            }
        }
    }
    out(dec_rec(w, idx, 5, &f, NOMAX, vec![("place", s(place))]).0);
}

// ------------------------------------------------------------ codes (C19) --

/// Every coded field with every byte; idx = field * 256 + byte.
pub const FIELDS: usize = 27;
fn codes_grid(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let c = (idx % 256) as u8;
    let two = r.coin();
    let (ver, f): (i64, Vec<u8>) = match (idx / 256) % FIELDS {
        0 => (4, frame(0x20, &[0, c]).0),
        1 => (4, frame(0x90, &if two { vec![0, 9, 1, c] } else { vec![0, 9, c] }).0),
        2 => (5, frame(0x20, &[1, c, 0]).0),
        3 => (5, frame(0x40, &if two { vec![0, 9, c] } else { vec![0, 9, c, 0] }).0),
        4 => (5, frame(0x50, &if two { vec![0, 9, c] } else { vec![0, 9, c, 0] }).0),
        5 => (5, frame(0x62, &if two { vec![0, 9, c] } else { vec![0, 9, c, 0] }).0),
        6 => (5, frame(0x70, &if two { vec![0, 9, c] } else { vec![0, 9, c, 0] }).0),
        7 => (5, frame(0x90, &if two { vec![0, 9, 0, 128, c] } else { vec![0, 9, 0, c] }).0),
        8 => (5, frame(0xb0, &if two { vec![0, 9, 0, 0, c] } else { vec![0, 9, 0, c] }).0),
        9 => (5, frame(0xe0, &if two { vec![c] } else { vec![c, 0] }).0),
        // levels
        10 => (4, frame(0x10, &[0, 4, 77, 81, 84, 84, c, 2, 0, 1, 0, 1, b'c']).0),
        11 => (5, frame(0x10, &[0, 4, 77, 81, 84, 84, c, 2, 0, 1, 0, 0, 1, b'c']).0),
        // subscription options: QoS and retain handling
        12 => (4, frame(0x82, &[0, 9, 0, 1, b'f', c]).0),
        13 => (5, frame(0x82, &[0, 9, 0, 0, 1, b'f', c]).0),
        14 => (5, frame(0x82, &[0, 9, 0, 0, 1, b'f', c, 0, 1, b'g', 1]).0),
        // first byte: type, publish QoS
        15 => (4, vec![c, 0]),
        16 => (5, vec![c, 0]),
        17 => (4, frame(0x30 | c & 15, &[0, 1, b't', 0, 9]).0),
        18 => (5, frame(0x30 | c & 15, &[0, 1, b't', 0, 9, 0]).0),
        // connect flags: will QoS
        19 => (4, frame(0x10, &[0, 4, 77, 81, 84, 84, 4, c, 0, 1, 0, 1, b'c', 0, 1, b'1', 0, 1, b'2', 0, 1, b'3', 0, 1, b'4']).0),
        20 => (5, frame(0x10, &[0, 4, 77, 81, 84, 84, 5, c, 0, 1, 0, 0, 1, b'c', 0, 0, 1, b'1', 0, 1, b'2', 0, 1, b'3', 0, 1, b'4']).0),
        21 => (4, frame(c, &[0, 9]).0),
        22 => (5, frame(c, &[0, 9]).0),
        // connect flags with exactly the fields they announce
        23 | 24 => {
            let ver = if (idx / 256) % FIELDS == 23 { 4 } else { 5 };
            let mut b = vec![0, 4, 77, 81, 84, 84, ver as u8, c, 0, 1];
            if ver == 5 {
                b.push(0);
            }
            b.extend([0, 1, b'c']);
            if c & 4 != 0 {
                if ver == 5 {
                    b.push(0);
                }
                b.extend([0, 1, b'w', 0, 1, b'm']);
            }
            if c & 128 != 0 {
                b.extend([0, 1, b'u']);
            }
            if c & 64 != 0 {
                b.extend([0, 1, b'p']);
            }
            (ver, frame(0x10, &b).0)
        }
        // acknowledge flags
        25 => (4, frame(0x20, &[c, 0]).0),
        _ => (5, frame(0x20, &[c, 0, 0]).0),
    };
    out(dec_rec(w, idx, ver, &f, NOMAX, vec![]).0);
}

/// Every reason, written. idx counts through all of them.
pub fn all_codes() -> Vec<(i64, &'static str, &'static str)> {
    let mut l = Vec::new();
    for (ver, t) in [(4, "ConnAck"), (4, "SubAck"), (5, "ConnAck"), (5, "PubAck"), (5, "PubRec"), (5, "PubRel"),
        (5, "PubComp"), (5, "SubAck"), (5, "UnsubAck"), (5, "Disconnect")] {
        for c in codes(ver, t) {
            l.push((ver, t, c.0));
        }
    }
    // QoS, retain handling and level, by packets that carry them
    for k in 0..3 {
        for t in ["Publish", "Subscribe", "Will"] {
            for ver in [4, 5] {
                l.push((ver, t, ["0", "1", "2"][k]));
            }
        }
        l.push((5, "Rule", ["OnEverySubscribe", "OnNewSubscribe", "Never"][k]));
    }
    for (v, n) in [(4, "V4"), (4, "V5"), (5, "V4"), (5, "V5")] {
        l.push((v, "Level", n));
    }
    for t in TYPES {
        for ver in [4, 5] {
            l.push((ver, "Type", t));
        }
    }
    l
}

fn codew(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let l = all_codes();
    let (ver, t, c) = l[idx % l.len()];
    let bare = |r: &mut Rng, t: &str| {
        let mut p = packet(r, ver, t);
        if p.opt("props").is_some() && !r.one_in(3) {
            p.set("props", J::A(vec![]));
        }
        p
    };
    let p = match t {
        "ConnAck" => {
            let mut p = bare(r, t);
            p.set("code", s(c));
            p
        }
        "SubAck" | "UnsubAck" => {
            let mut p = bare(r, t);
            let mut l = p.get("codes").arr().to_vec();
            let k = r.below(l.len());
            l[k] = s(c);
            p.set("codes", J::A(l));
            p
        }
        "Publish" => {
            let mut p = bare(r, t);
            let q: i64 = c.parse().unwrap();
            p.set("qos", J::I(q));
            p.set("pkid", i(if q == 0 { 0 } else { 9 }));
            p
        }
        "Subscribe" | "Rule" => {
            let mut p = bare(r, "Subscribe");
            let mut l = p.get("filters").arr().to_vec();
            let k = r.below(l.len());
            if t == "Rule" {
                l[k].set("rh", s(c));
            } else {
                l[k].set("qos", J::I(c.parse().unwrap()));
            }
            p.set("filters", J::A(l));
            p
        }
        "Will" => loop {
            let mut p = packet(r, ver, "Connect");
            let mut l = p.get("will").arr().to_vec();
            if l.is_empty() {
                continue;
            }
            l[0].set("qos", J::I(c.parse().unwrap()));
            p.set("will", J::A(l));
            break p;
        },
        "Level" => loop {
            let p = packet(r, ver, "Connect");
            if p.get("proto").str() == c {
                break p;
            }
        },
        "Type" => packet(r, ver, c),
        _ => {
            let mut p = bare(r, t);
            p.set("reason", s(c));
            p
        }
    };
    let pre = before(r);
    out(enc_rec(w, idx, ver, &p, 0, &pre));
}

// --------------------------------------------------- length fields (C05) --

/// Packets and sections whose length sits on a boundary of the
/// representation, written and read.
fn edge(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    const E: [usize; 18] = [0, 1, 2, 63, 64, 125, 126, 127, 128, 129, 130, 255, 256, 257, 16382, 16383, 16384, 16385];
    let target = E[idx % E.len()];
    match (idx / E.len()) % 4 {
        // header
        0 | 1 => {
            let ver = *r.pick(&[4, 5]);
            let t = *r.pick(&["Publish", "Publish", "Connect", "SubAck", "Subscribe", "Unsubscribe"]);
            let mut p = packet(r, ver, t);
            if p.opt("props").is_some() {
                p.set("props", J::A(vec![]));
            }
            if t == "Publish" {
                p.set("topic", y(b"t"));
                p.set("payload", y(b""));
            }
            let (f, _) = encode(&mut Rng::new(1), ver, &p);
            let n = header(&f).unwrap().1;
            if n < target {
                pad(r, ver, &mut p, target - n);
            }
            out(enc_rec(w, idx, ver, &p, 0, &[]));
        }
        // property section
        2 => {
            let t = *r.pick(&["Connect", "ConnAck", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe",
                "SubAck", "Unsubscribe", "UnsubAck", "Disconnect"]);
            let mut p = packet(r, 5, t);
            if t == "Connect" {
                p.set("proto", s("V5"));
            }
            p.set("props", J::A(vec![]));
            pad_props(&mut p, target);
            out(enc_rec(w, idx, 5, &p, 0, &[]));
        }
        // subscription identifiers
        _ => {
            let t = *r.pick(&["Publish", "Subscribe"]);
            let mut p = packet(r, 5, t);
            let n = if r.coin() { target.max(1) } else { varnum(r) };
            let mut l: Vec<J> = p.get("props").arr().iter().filter(|q| q.arr()[0].str() != "SubscriptionIdentifier").cloned().collect();
            let at = l.iter().position(|q| prop(q.arr()[0].str()).0 > 11).unwrap_or(l.len());
            l.insert(at, J::A(vec![s("SubscriptionIdentifier"), J::A(vec![i(n)])]));
            if t == "Publish" && r.coin() {
                l.insert(at, J::A(vec![s("SubscriptionIdentifier"), J::A(vec![i(varnum(r))])]));
            }
            p.set("props", J::A(l));
            out(enc_rec(w, idx, 5, &p, 0, &[]));
        }
    }
}

/// Packets too large to be logged in full.
#[allow(dead_code)]
pub const BIGS: usize = 20;
fn big(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let ver = if idx % 2 == 0 { 4 } else { 5 };
    let dec = [16383, 16384, 65535, 65536, 2097150, 2097151, 2097152, 268435455, 268435456, 268435457][(idx / 2) % 10];
    let over = if ver == 4 { 2 + 1 } else { 2 + 1 + 1 };
    let payload = Bytes::from(vec![0x5a; dec - over]);
    let pk = if ver == 4 {
        Pk::V4(mqttbytes::v4::Packet::Publish(mqttbytes::v4::Publish::from_bytes("t", mqttbytes::QoS::AtMostOnce, payload)))
    } else {
        Pk::V5(mqttbytes::v5::Packet::Publish(mqttbytes::v5::Publish::from_bytes("t", mqttbytes::QoS::AtMostOnce, payload)))
    };
    big_rec(w, idx, r, ver, "publish", dec, pk, out)
}

fn big_rec(w: &Watch, idx: usize, r: &mut Rng, ver: i64, what: &str, dec: usize, pk: Pk, out: Sink) {
    // one that is refused leaves everything as it was, whatever there was
    let few = r.below(9);
    let all = [0, 1, few, 100, 600, 1025, 5000, 70_000, 1 << 20];
    let some = [*r.pick(&all)];
    for n in if dec > 268_435_455 { &all[..] } else { &some[..] } {
        big_one(w, idx, r, ver, what, dec, &pk, *n, out);
    }
}

fn big_one(w: &Watch, idx: usize, r: &mut Rng, ver: i64, what: &str, dec: usize, pk: &Pk, n: usize, out: Sink) {
    let pre: Vec<u8> = (0..n).map(|_| r.byte()).collect();
    let base = o(vec![("k", s("big")), ("ver", i(ver as usize)), ("what", s(what)), ("dec", i(dec)), ("pre", i(n))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("ret", crash("abort"));
        b.set("head", y(&[]));
        b.set("size", i(0));
        b.set("own", J::I(-1));
        b.set("kept", J::B(true));
        b.set("back", J::B(false));
        b.set("left", i(0));
        b.set("behind", i(0));
        b.set("tail", J::B(true));
        b
    });
    let mut b = buffer(&pre);
    let ret = write_buf(pk, &mut b);
    let own = guard(|| own_len(pk)).unwrap_or(None);
    let kept = b.len() >= pre.len() && b[..pre.len()] == pre[..];
    let size = b.len().saturating_sub(pre.len());
    let head = b[pre.len().min(b.len())..].iter().take(6).copied().collect::<Vec<u8>>();
    let (mut back, mut left) = (false, 0);
    let behind = [0xc0u8, 0, 0x30, 0x7f, 1];
    let mut tail = true;
    if let Some(Ok(_)) = ret {
        b.advance(pre.len());
        b.extend_from_slice(&behind);
        let r = read_buf(ver, &mut b, NOMAX);
        left = b.len();
        tail = b[..].ends_with(&behind) || behind.ends_with(&b[..]);
        back = matches!(&r, Some(Ok(q)) if q == pk);
    }
    let mut rec = base;
    rec.set("behind", i(behind.len()));
    rec.set("tail", J::B(tail));
    rec.set("ret", out_num(&ret));
    rec.set("head", y(&head));
    rec.set("size", i(size));
    rec.set("own", own.map(i).unwrap_or(J::I(-1)));
    rec.set("kept", J::B(kept));
    rec.set("back", J::B(back));
    rec.set("left", i(left));
    out(rec);
}

// ----------------------------------------------------------------- topics --

/// The idx-th text over an alphabet, shortest first.
fn nth_text(alpha: &[&str], mut n: usize) -> String {
    let k = alpha.len();
    let mut len = 0;
    let mut count = 1;
    while n >= count {
        n -= count;
        len += 1;
        count *= k;
    }
    let mut l = Vec::new();
    for _ in 0..len {
        l.push(alpha[n % k]);
        n /= k;
    }
    l.reverse();
    l.concat()
}

const ALPHA: [&str; 6] = ["a", "/", "+", "#", "$", "é"];

fn level(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "".into(),
        1 => "+".into(),
        2 => "#".into(),
        3 => r.pick(&["a+", "+a", "a#", "#a", "##", "++", "+#", "$", "$a", "a$"]).to_string(),
        4 => text(r, 12, false),
        5 => r.pick(&["é", "中", "😀", "ß", "a\u{0}b", " ", "é+"]).to_string(),
        _ => r.pick(&["a", "b", "aa", "ab", "sport", "tennis"]).to_string(),
    }
}
fn some_text(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    let l: Vec<String> = (0..n).map(|_| level(r)).collect();
    let t = l.join("/");
    if r.one_in(10) {
        format!("${}", t)
    } else {
        t
    }
}
/// How many levels: a few, sometimes very many.
fn depth(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => r.range(6, 20),
        1 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65]),
        2 if r.one_in(4) => *r.pick(&[127, 128, 129, 255, 256, 257, 300]),
        _ => r.range(1, 5),
    }
}
fn valid_level(r: &mut Rng, wild: bool) -> String {
    match r.below(8) {
        4 if r.one_in(10) => "x".repeat(*r.pick(&[15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257])),
        0 => "".into(),
        1 | 2 if wild => "+".into(),
        3 => r.pick(&["é", "中国", "😀", "ß$", " "]).to_string(),
        4 => text(r, 10, true).replace('/', "-"),
        _ => r.pick(&["a", "b", "aa", "ab", "$", "$x", "$SYS", "$share"]).to_string(),
    }
}
fn some_filter(r: &mut Rng) -> String {
    let n = depth(r);
    let mut l: Vec<String> = (0..n).map(|_| valid_level(r, true)).collect();
    if r.one_in(3) {
        if r.coin() {
            l.push("#".into());
        } else {
            l[n - 1] = "#".into();
        }
    }
    l.join("/")
}
/// Nearly the same level: another case, another normal form, something more or
/// less at either end.
fn nearly(r: &mut Rng, l: &str) -> String {
    let up: String = l.to_uppercase();
    let n = l.chars().count();
    let kinds = if r.one_in(3) { 14 } else { 12 };
    match r.below(kinds) {
        0 if up != l => up,
        0 | 1 => format!("{} ", l),
        2 => format!(" {}", l),
        3 => l.replace('é', "e\u{301}").replace('ß', "ss").replace('中', "\u{4e2d}\u{fe00}"),
        4 => format!("{}\u{0}", l),
        5 => format!("{}{}", l, r.pick(&["a", "x", "é", "\u{feff}", "\u{200d}", "\\", "*", "%", "."])),
        6 => format!("{}{}", r.pick(&["a", "x", "é", "\u{feff}", "$", "."]), l),
        7 => l.chars().take(n.saturating_sub(1)).collect(),
        8 => l.chars().skip(1).collect(),
        9 => l.chars().rev().collect(),
        10 => format!("{}{}", l, l),
        // longer by what a counter of one byte does not show
        13 if n > 1 => {
            // two neighbours exchanged
            let k = r.below(n - 1);
            let mut c: Vec<char> = l.chars().collect();
            c.swap(k, k + 1);
            c.into_iter().collect()
        }
        12 => format!("{}{}", l, "x".repeat(*r.pick(&[256, 255, 512]))),
        _ => {
            // one character replaced
            let k = r.below(n.max(1));
            l.chars().enumerate().map(|(x, c)| if x == k { *r.pick(&['a', 'b', 'A', 'é', 'è', '?', '*', ' ', '.']) } else { c }).collect()
        }
    }
}
fn some_topic(r: &mut Rng) -> String {
    let n = depth(r);
    let l: Vec<String> = (0..n).map(|_| valid_level(r, false)).collect();
    l.join("/")
}

/// 256 texts at a time: the enumeration over ALPHA first, then random ones.
fn tv(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let exhaustive = 37; // 256 * 37 > 1 + 6 + ... + 6^5
    let ss: Vec<String> = if idx < exhaustive {
        (0..256).map(|k| nth_text(&ALPHA, idx * 256 + k)).collect()
    } else {
        let mut l: Vec<String> = (0..256).map(|k| if k % 4 == 0 { some_filter(r) } else { some_text(r) }).collect();
        // one level out of the ordinary among many
        for _ in 0..64 {
            let n = if r.one_in(4) { depth(r) } else { r.range(1, 24) };
            let mut m: Vec<String> = (0..n).map(|_| valid_level(r, true)).collect();
            let at = match r.below(4) {
                0 => 0,
                1 => r.below(n),
                _ => n - 1,
            };
            m[at] = match r.below(4) {
                0 => level(r),
                1 => {
                    let mut z = valid_level(r, false);
                    let mut ks: Vec<usize> = z.char_indices().map(|x| x.0).collect();
                    ks.push(z.len());
                    z.insert(*r.pick(&ks), *r.pick(&['+', '#']));
                    z
                }
                _ => r.pick(&["#", "+", "##", "++", "#+", "+#", "a#", "#a", "a+", "+a", "", "+++", "#x#", "é#", "+é", " +", "# "]).to_string(),
            };
            l.push(m.join("/"));
        }
        // as long as a string on the wire can be, and longer
        if idx % 4 == 0 {
            let n = *r.pick(&[1023, 1024, 4096, 16384, 32767, 32768, 65534, 65535, 65536, 65537]);
            let mut x = r.pick(&["f", "/", "a/", "é"]).repeat(n);
            x.truncate(n - n % 2);
            let at = if r.coin() { 0 } else { x.len() };
            for c in ["", "#", "+", "/#", "/+", "#/", "+/"] {
                let mut z = x.clone();
                if n % 2 == 1 {
                    z.push('z');
                }
                z.insert_str(at.min(z.len()), c);
                l.push(z);
            }
        }
        l
    };
    out(tv_rec(w, idx, &ss));
}

/// Every text of up to `depth` levels from `alpha`; `open`: with and without
/// a # behind.
fn structured(alpha: &[&str], depth: usize, open: bool) -> Vec<String> {
    let mut all: Vec<Vec<&str>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|l| alpha.iter().map(move |x| { let mut m = l.clone(); m.push(x); m })).collect();
        all.extend(last.clone());
    }
    let mut out = Vec::new();
    for l in all {
        if open {
            let mut m = l.clone();
            m.push("#");
            out.push(m.join("/"));
        }
        if !l.is_empty() && !(l.len() == 1 && l[0].is_empty()) {
            out.push(l.join("/"));
        }
    }
    out
}

/// A block of topics against a block of filters.
fn tm(w: &Watch, idx: usize, r: &mut Rng, cover: bool, out: Sink) {
    // all texts of up to three characters against each other, in blocks
    const N: usize = 259; // 1 + 6 + 36 + 216
    const B: usize = 37; // 7 blocks
    let blocks = 49;
    let (ts, fs): (Vec<String>, Vec<String>) = if cover && idx == 0 {
        (structured(&["a", "b", ""], 4, false), structured(&["a", "b", "", "+"], 3, true))
    } else if cover && idx == 1 {
        (structured(&["a", "$s", "é"], 4, false), structured(&["a", "$s", "+"], 3, true))
    } else if cover && idx == 2 {
        (structured(&["a", "b"], 5, false), structured(&["a", "+"], 5, true))
    } else if !cover && idx >= blocks && idx < blocks + 8 {
        let all = structured(&["a", "b", "", "+"], 3, true);
        let n = (all.len() + 7) / 8;
        (structured(&["a", "b", "", "$s"], 3, false), all.chunks(n).nth(idx - blocks).unwrap().to_vec())
    } else if !cover && idx >= blocks + 8 && idx < blocks + 12 {
        let all = structured(&["a", "+"], 5, true);
        let n = (all.len() + 3) / 4;
        (structured(&["a", "b"], 6, false), all.chunks(n).nth(idx - blocks - 8).unwrap().to_vec())
    } else if !cover && idx < blocks {
        let (x, z) = (idx / 7, idx % 7);
        (
            (0..B).map(|k| nth_text(&ALPHA, (x * B + k) % N)).collect(),
            (0..B).map(|k| nth_text(&ALPHA, (z * B + k) % N)).collect(),
        )
    } else if idx % 24 == 14 {
        // levels, and numbers of levels, that agree but for their sizes
        let k = *r.pick(&[1, 3, 63, 127, 254]);
        let sizes: Vec<usize> = [0, 1, 2, 64, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513].iter().map(|n| n + k).collect();
        let one = *r.pick(&["x", "a", "é"]);
        let mut ts: Vec<String> = sizes.iter().map(|n| one.repeat(*n)).collect();
        ts.extend(sizes.iter().map(|n| format!("a/{}/b", one.repeat(*n))));
        if k < 4 {
            ts.extend(sizes.iter().map(|n| vec!["a"; *n].join("/")));
        }
        let mut fs = ts.clone();
        fs.push("a/+/b".into());
        fs.push(format!("{}/#", vec!["a"; 257].join("/")));
        (ts, fs)
    } else if idx % 8 == 5 {
        // long levels that are nearly the same
        let n: usize = *r.pick(&[3usize, 5, 8, 9, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 41, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300]);
        let base: Vec<u8> = (0..n).map(|k| if r.one_in(3) { b'a' + (k % 26) as u8 } else { r.range(0x61, 0x79) as u8 }).collect();
        let mut all = vec![base.clone()];
        let mut add = |l: &mut Vec<Vec<u8>>, f: &dyn Fn(&mut Vec<u8>)| {
            let mut x = base.clone();
            f(&mut x);
            l.push(x);
        };
        // one character other, at either end, in the middle and elsewhere
        for k in [0, 1, 2, 3, 4, 7, 8, n / 4, n / 2, n - n / 4, n.saturating_sub(5), n - 3, n - 2, n - 1, r.below(n), r.below(n)] {
            add(&mut all, &|x| if k < n { x[k] = b'z' });
        }
        // the same characters in another order; sums and differences alike
        for (k, m) in [(0, 1), (0, n - 1), (n - 2, n - 1), (n / 2, n / 2 - 1), (r.below(n), r.below(n)), (r.below(n), r.below(n))] {
            add(&mut all, &|x| x.swap(k, m));
            add(&mut all, &|x| if k != m { x[k] += 1; x[m] -= 1; });
            add(&mut all, &|x| if k != m { x[k] ^= 1; x[m] ^= 1; });
        }
        add(&mut all, &|x| x.reverse());
        add(&mut all, &|x| x.rotate_left(1));
        add(&mut all, &|x| x.rotate_right(1));
        let texts: Vec<String> = all.iter().map(|b| String::from_utf8_lossy(b).replace(|c| c == '/' || c == '+' || c == '#', "-")).collect();
        let (a, b) = *r.pick(&[("", ""), ("a/", ""), ("", "/b"), ("a/", "/b")]);
        let ts: Vec<String> = texts.iter().map(|x| format!("{}{}{}", a, x, b)).collect();
        let mut fs: Vec<String> = vec![ts[0].clone(), r.pick(&ts).clone(), r.pick(&ts).clone(), r.pick(&ts).clone()];
        fs.push(format!("+/{}{}", texts[0], b));
        fs.push(format!("{}{}/#", a, texts[0]));
        fs.push(format!("{}/{}", texts[0], texts[1]));
        (if cover { fs.iter().cloned().chain(ts).collect() } else { ts }, fs)
    } else if idx % 24 == 15 {
        // as many levels as a string can have
        let first = idx < 80;
        let n = if first { 32767 } else { *r.pick(&[1000, 4095, 4096, 16384, 30000, 32767]) };
        let x = if first { "/" } else { *r.pick(&["a/", "/", "é/"]) }.to_string();
        let n = if x.len() == 1 { 2 * n } else if x.len() == 3 { n / 3 * 2 } else { n };
        let t = x.repeat(n);
        (
            vec![t.clone(), format!("{}b", t), x.repeat(n - 1), format!("{}{}", x.repeat(n / 2), t)],
            vec![t.clone(), format!("{}+", t), format!("{}#", t), format!("{}#", x.repeat(n / 2)), format!("{}b", "+/".repeat(n))],
        )
    } else {
        let mut fs: Vec<String> = Vec::new();
        let mut ts: Vec<String> = Vec::new();
        while fs.len() < 24 {
            let f = if r.one_in(8) && !cover { some_text(r) } else { some_filter(r) };
            // filters that have something to do with each other
            fs.push(f.clone());
            if r.coin() {
                let mut l: Vec<&str> = f.split('/').collect();
                let k = r.below(l.len());
                let near = nearly(r, l[k]).replace(|c| c == '/' || c == '+' || c == '#', "-");
                match r.below(7) {
                    6 if l[k] != "#" => l[k] = &near,
                    0 => l[k] = "+",
                    1 => {
                        l.truncate(k + 1);
                        l[k] = "#"
                    }
                    2 => l.push("#"),
                    3 => l.push("a"),
                    4 => drop(l.pop()),
                    _ => l.truncate(k + 1),
                }
                let g = l.join("/");
                if !g.is_empty() {
                    fs.push(g);
                }
            }
        }
        while ts.len() < 24 {
            if r.one_in(4) {
                ts.push(if r.one_in(4) { some_text(r) } else { some_topic(r) });
            } else {
                // a topic made for one of the filters, nearly
                let f = r.pick(&fs).clone();
                let mut l: Vec<String> = Vec::new();
                for x in f.split('/') {
                    match x {
                        "+" => l.push(valid_level(r, false)),
                        "#" => {
                            for _ in 0..r.below(3) {
                                l.push(valid_level(r, false));
                            }
                        }
                        x => l.push(x.to_string()),
                    }
                }
                match r.below(9) {
                    0 => l.push(valid_level(r, false)),
                    1 => drop(l.pop()),
                    2..=4 if !l.is_empty() => {
                        let k = r.below(l.len());
                        l[k] = nearly(r, &l[k]).replace(|c| c == '/' || c == '+' || c == '#', "-");
                    }
                    5 if l.len() > 1 => {
                        let k = r.below(l.len() - 1);
                        l.swap(k, k + 1);
                    }
                    _ => {}
                }
                ts.push(l.join("/"));
            }
        }
        (ts, fs)
    };
    out(tm_rec(w, idx, &ts, &fs, cover));
}

// --------------------------------------------------------------- sessions --

struct Reader {
    ver: i64,
    max: usize,
    buf: BytesMut,
    held: Vec<(Pk, J)>,
}

impl Reader {
    /// One read; the event, and whether it makes sense to go on.
    fn read(&mut self) -> (J, J, bool) {
        let was = self.buf.to_vec();
        let r = read_buf(self.ver, &mut self.buf, self.max);
        let out = out_read(&r);
        let stop = match &r {
            None => true,
            Some(Err(e)) => matches!(e, mqttbytes::Error::InsufficientBytes(_)) || self.buf.len() == was.len(),
            Some(Ok(_)) => self.buf.len() == was.len(),
        };
        let ev = o(vec![
            ("e", s("read")), ("out", out.clone()), ("left", i(self.buf.len())), ("tail", J::B(was.ends_with(&self.buf))),
        ]);
        if let Some(Ok(p)) = r {
            let j = to_json(&p);
            self.held.push((p, j));
        }
        (ev, out, stop)
    }
}

fn is_more(out: &J) -> bool {
    out.get("r").str() == "err" && out.get("e").str() == "InsufficientBytes"
}
fn is_crash(out: &J) -> bool {
    matches!(out.get("r").str(), "panic")
}

#[derive(Clone)]
enum Op {
    Write(J, i64),
    Inject(Vec<u8>),
    Deliver(usize),
    Read,
    /// read until more is asked for
    Drain,
}

/// Carries out a session and records it.
fn session(w: &Watch, idx: usize, ver: i64, max: usize, ops: &[Op], name: &str, out: Sink) {
    let mut ev: Vec<J> = Vec::new();
    w.about(idx, || {
        o(vec![("k", s("sess")), ("ver", i(ver as usize)), ("max", i(max)), ("name", s(name)),
               ("whole", J::A(vec![])),
               ("ev", J::A(vec![o(vec![("e", s("read")), ("out", crash("abort")), ("left", i(0)), ("tail", J::B(true))])]))])
    });
    let mut wire = BytesMut::new();
    let mut sent: Vec<u8> = Vec::new();
    let mut rd = Reader { ver, max, buf: BytesMut::new(), held: Vec::new() };
    let mut end = false;
    let mut crashed = false;
    for op in ops {
        if end {
            break;
        }
        match op {
            Op::Write(p, pe) => {
                let pk = from_json(ver, p, *pe);
                let was = wire.to_vec();
                let ret = write_buf(&pk, &mut wire);
                let kept = wire.len() >= was.len() && wire[..was.len()] == was[..];
                let add = if wire.len() >= was.len() { wire[was.len()..].to_vec() } else { vec![] };
                if kept {
                    sent.extend_from_slice(&add);
                } else {
                    let n = sent.len() - was.len();
                    sent.truncate(n);
                    sent.extend_from_slice(&wire);
                }
                let mut e = vec![
                    ("e", s("write")), ("p", p.clone()), ("ret", out_num(&ret)), ("add", y(&add)), ("kept", J::B(kept)),
                ];
                if !kept {
                    e.push(("all", y(&wire)));
                }
                ev.push(o(e));
                if ret.is_none() {
                    end = true;
                    crashed = true;
                }
            }
            Op::Inject(b) => {
                wire.extend_from_slice(b);
                sent.extend_from_slice(b);
                ev.push(o(vec![("e", s("inject")), ("b", y(b))]));
            }
            Op::Deliver(n) => {
                let n = (*n).min(wire.len());
                if n > 0 {
                    let c = wire.split_to(n);
                    rd.buf.extend_from_slice(&c);
                    ev.push(o(vec![("e", s("deliver")), ("n", i(n))]));
                }
            }
            Op::Read | Op::Drain => loop {
                let (e, o1, stop) = rd.read();
                ev.push(e);
                if is_crash(&o1) {
                    end = true;
                    crashed = true;
                } else if stop && !is_more(&o1) {
                    end = true;
                }
                if stop || matches!(op, Op::Read) {
                    break;
                }
            },
        }
    }
    if !crashed {
        // deliver the rest and read it
        while !end && (!wire.is_empty() || !rd.buf.is_empty()) {
            let n = wire.len();
            if n > 0 {
                let c = wire.split_to(n);
                rd.buf.extend_from_slice(&c);
                ev.push(o(vec![("e", s("deliver")), ("n", i(n))]));
            }
            let (e, o1, stop) = rd.read();
            ev.push(e);
            if is_crash(&o1) {
                crashed = true;
                end = true;
            } else if stop && (!is_more(&o1) || wire.is_empty()) {
                end = true;
            }
        }
    }
    // the same stream at once
    let mut all = Reader { ver, max, buf: buffer(&sent), held: Vec::new() };
    let mut whole = Vec::new();
    loop {
        let (_, o1, stop) = all.read();
        if !is_more(&o1) {
            whole.push(o1);
        }
        if stop {
            break;
        }
    }
    if !crashed {
        // put other bytes where the packets came from, then look at them again
        let n = rd.buf.len();
        rd.buf.extend_from_slice(&vec![0xa5u8; 4096 + n]);
        for b in rd.buf.iter_mut() {
            *b = 0x5a;
        }
        let held = rd.held.iter().all(|(p, j)| to_json(p) == *j);
        ev.push(o(vec![("e", s("end")), ("held", J::B(held))]));
    }
    out(o(vec![
        ("k", s("sess")), ("ver", i(ver as usize)), ("max", i(max)), ("name", s(name)), ("whole", J::A(whole)), ("ev", J::A(ev)),
    ]));
}

fn sess(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let ver = *r.pick(&[4, 5]);
    let mut ops = Vec::new();
    let mode = idx % 4;
    // 0, 1: only packets of this library; 2: foreign bytes too; 3: foreign only, broken
    let large = mode < 3 && r.one_in(30);
    let n = if large { r.range(2, 4) } else { r.range(2, 9) };
    let mut bytes = 0;
    for _ in 0..n {
        let foreign = match mode {
            0 | 1 => false,
            2 => r.coin(),
            _ => true,
        };
        if foreign {
            let b = match r.below(8) {
                0..=2 => peer(r, ver).2,
                3 | 4 => broken(r, ver),
                5 => {
                    let mut f = peer(r, ver).2;
                    f.truncate(r.range(1, f.len()));
                    f
                }
                6 => (0..r.range(1, 8)).map(|_| r.byte()).collect(),
                _ => odd(r, ver),
            };
            bytes += b.len();
            ops.push(Op::Inject(b));
        } else {
            let t = if large && r.coin() { "Publish" } else { pick_type(r) };
            let mut p = packet(r, ver, t);
            if t == "Publish" && mode == 1 && r.one_in(5) {
                p.set("qos", i(1));
                p.set("pkid", i(0));
            } else {
                // only well-formed ones have to arrive
                if t == "Publish" && p.get("qos").int() == 0 {
                    p.set("pkid", i(0));
                }
            }
            bytes += 60;
            if large && t == "Publish" {
                let n = *r.pick(&[120, 127, 128, 200, 256, 1000, 1024, 2048, 4096, 4100, 8192, 16383, 16384, 17000]);
                p.set("payload", y(&(0..n).map(|_| r.byte()).collect::<Vec<u8>>()));
                bytes += n;
            }
            let pe = r.below(4) as i64;
            // now and then again and again
            if r.one_in(8) && bytes < 3000 {
                for _ in 0..r.range(1, 4) {
                    bytes += 60;
                    ops.push(Op::Write(p.clone(), pe));
                }
            }
            ops.push(Op::Write(p, pe));
        }
        // deliver some of it
        if r.coin() {
            ops.push(Op::Deliver(r.range(1, 30)));
            ops.push(if r.coin() { Op::Drain } else { Op::Read });
        }
    }
    // the rest in small chunks, chunk by chunk
    let style = r.below(4);
    let mut left = bytes + 200;
    while left > 0 && ops.len() < 400 {
        let n = match style {
            _ if large => match style {
                0 => r.range(500, 2000),
                1 => *r.pick(&[512, 1024, 1460, 4096, 8192]),
                2 => *r.pick(&[2048, 4096, 8192, 16384, 65536]),
                _ => r.range(1000, 20000),
            },
            0 => 1,
            1 => r.range(1, 3),
            2 => r.range(1, 20),
            _ => r.range(1, 200),
        };
        ops.push(Op::Deliver(n));
        if style != 2 || r.coin() {
            ops.push(Op::Drain);
        }
        left = left.saturating_sub(n);
    }
    let max = match r.below(5) {
        0 => r.range(0, 200),
        1 if r.coin() => wide_max(r, 100),
        _ => NOMAX,
    };
    let max = if mode < 2 && max < 1000 { NOMAX } else { max };
    session(w, idx, ver, max, &ops, "random", out);
}

// --------------------------------------------------------------- builders --

fn qos_of(n: i64) -> mqttbytes::QoS {
    qf(n)
}

fn build(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let ver = *r.pick(&[4i64, 5]);
    let mut ops: Vec<J> = Vec::new();
    let t = |r: &mut Rng| y(text(r, 20, false).as_bytes());
    // as long as a list can get before something might count in bytes
    let some = |r: &mut Rng, n: usize| match r.below(60) {
        0 => *r.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        1 if r.one_in(3) => *r.pick(&[127usize, 128, 129, 255, 256, 257, 300]),
        _ => r.below(n),
    };
    if idx % 25 == 7 {
        longer(3);
    }
    match if idx % 50 == 7 { 0 } else { r.below(11) } {
        0 | 1 => {
            ops.push(o(vec![("op", s("connect")), ("id", t(r))]));
            for _ in 0..r.below(4) {
                assigned(r, ver, "Connect", &mut ops);
                if r.coin() {
                    let (u, p) = (t(r), t(r));
                    ops.push(o(vec![("op", s("set_login")), ("u", u.clone()), ("p", p.clone())]));
                    for _ in 0..if ver == 4 { r.below(4) } else { 0 } {
                        let own = |x: &J| String::from_utf8(x.bytes()).unwrap();
                        let nearly = |r: &mut Rng, x: &J| {
                            let t = own(x);
                            let mut c: Vec<char> = t.chars().collect();
                            let n = c.len();
                            // one more, one less, and at that the same length
                            let up = |c: char| char::from_u32(c as u32 + 1).unwrap_or('?');
                            let down = |c: char| char::from_u32((c as u32).max(2) - 1).unwrap_or('?');
                            y(match r.below(12) {
                                0 => t.to_uppercase(),
                                1 => t.to_lowercase(),
                                2 => format!("{} ", t),
                                3 => format!(" {}", t),
                                4 => t.chars().rev().collect(),
                                5 => t.chars().skip(1).collect(),
                                6 => t.chars().take(n.max(1) - 1).collect(),
                                7 | 8 if n > 0 => {
                                    let k = *r.pick(&[0, n - 1, n / 2, n - 1]);
                                    c[k] = if r.coin() { up(c[k]) } else { 'q' };
                                    c.into_iter().collect()
                                }
                                9 if n > 1 => {
                                    let k = r.below(n - 1);
                                    c.swap(k, k + 1);
                                    c.into_iter().collect()
                                }
                                10 if n > 1 => {
                                    let k = r.below(n - 1);
                                    c[k] = up(c[k]);
                                    c[k + 1] = down(c[k + 1]);
                                    c.into_iter().collect()
                                }
                                _ => format!("{}\u{0}", t),
                            }.as_bytes())
                        };
                        let (a, b) = match r.below(13) {
                            6 | 7 => (nearly(r, &u), p.clone()),
                            8 | 12 => (u.clone(), nearly(r, &p)),
                            9 => (nearly(r, &u), nearly(r, &p)),
                            0 => (u.clone(), p.clone()),
                            1 => (u.clone(), t(r)),
                            2 => (t(r), p.clone()),
                            3 => (p.clone(), u.clone()),
                            4 => (u.clone(), y(b"")),
                            10 | 11 => {
                                // the same one behind the other
                                let all: Vec<char> = own(&u).chars().chain(own(&p).chars()).collect();
                                let k = r.below(all.len() + 1);
                                let part = |l: &[char]| y(l.iter().collect::<String>().as_bytes());
                                (part(&all[..k]), part(&all[k..]))
                            }
                            _ => (y(b""), p.clone()),
                        };
                        ops.push(o(vec![("op", s("validate")), ("u", a), ("p", b)]));
                    }
                } else {
                    ops.push(o(vec![
                        ("op", s("set_will")), ("topic", t(r)), ("msg", y(&data(r, 30))), ("qos", i(r.below(3))),
                        ("retain", J::B(r.coin())),
                    ]));
                }
            }
        }
        2 => {
            let c = r.pick(codes(ver, "ConnAck")).0;
            ops.push(o(vec![("op", s("connack")), ("sp", J::B(r.coin())), ("code", s(c))]));
            if ver == 5 && r.coin() {
                ops.push(o(vec![("op", s("empty_props"))]));
            }
        }
        3 | 4 => {
            let op = *r.pick(&["publish", "publish_bytes"]);
            ops.push(o(vec![("op", s(op)), ("topic", t(r)), ("qos", i(r.below(3))), ("payload", y(&data(r, 40)))]));
            assigned(r, ver, "Publish", &mut ops);
        }
        5 => {
            let a = *r.pick(&["PubAck", "PubRec", "PubRel", "PubComp"]);
            ops.push(o(vec![("op", s("ack")), ("t", s(a)), ("pkid", i(pkid(r)))]));
        }
        6 | 7 => {
            match r.below(3) {
                0 => ops.push(o(vec![("op", s("subscribe")), ("path", t(r)), ("qos", i(r.below(3)))])),
                1 if ver == 5 => ops.push(o(vec![("op", s("subscribe_empty"))])),
                _ => {
                    let n = some(r, 5);
                    let mut f: Vec<J> = (0..n)
                        .map(|_| {
                            let mut set = Vec::new();
                            if ver == 5 {
                                for _ in 0..r.below(5) {
                                    set.push(match r.below(3) {
                                        0 => o(vec![("op", s("nolocal")), ("b", J::B(r.coin()))]),
                                        1 => o(vec![("op", s("preserve_retain")), ("b", J::B(r.coin()))]),
                                        _ => {
                                            let x = *r.pick(&["OnEverySubscribe", "OnNewSubscribe", "Never"]);
                                            o(vec![("op", s("retain_forward_rule")), ("rule", s(x))])
                                        }
                                    });
                                }
                            }
                            o(vec![("path", t(r)), ("qos", i(r.below(3))), ("set", J::A(set))])
                        })
                        .collect();
                    again(r, &mut f);
                    ops.push(o(vec![("op", s("subscribe_many")), ("filters", J::A(f))]));
                }
            }
            let some_set = |r: &mut Rng| (0..r.range(1, 3)).map(|_| match r.below(3) {
                0 => o(vec![("op", s("nolocal")), ("b", J::B(r.coin()))]),
                1 => o(vec![("op", s("preserve_retain")), ("b", J::B(r.coin()))]),
                _ => o(vec![("op", s("retain_forward_rule")), ("rule", s(*r.pick(&["OnEverySubscribe", "OnNewSubscribe", "Never"])))]),
            }).collect::<Vec<J>>();
            let mut have = match ops[0].get("op").str() {
                "subscribe" => 1,
                "subscribe_many" => ops[0].get("filters").arr().len(),
                _ => 0,
            };
            let refused = ver == 4 && have == 0;
            let mut paths: Vec<J> = Vec::new();
            for _ in 0..if refused { 0 } else { some(r, 4).min(70) } {
                assigned(r, ver, "Subscribe", &mut ops);
                if ver == 5 && have > 0 && r.one_in(4) {
                    ops.push(o(vec![("op", s("tune")), ("at", i(r.range(1, have))), ("set", J::A(some_set(r)))]));
                }
                // now and then a path that was added before
                let path = if !paths.is_empty() && r.one_in(4) { r.pick(&paths).clone() } else { t(r) };
                paths.push(path.clone());
                ops.push(o(vec![("op", s("add")), ("path", path), ("qos", i(r.below(3)))]));
                have += 1;
            }
        }
        8 => {
            let c = (0..some(r, 6)).map(|_| s(r.pick(codes(ver, "SubAck")).0)).collect();
            ops.push(o(vec![("op", s("suback")), ("pkid", i(pkid(r))), ("codes", J::A(c))]));
        }
        9 => {
            if r.coin() {
                ops.push(o(vec![("op", s("unsuback")), ("pkid", i(pkid(r)))]));
            } else {
                ops.push(o(vec![("op", s("unsubscribe")), ("topic", t(r))]));
            }
        }
        _ => {
            ops.push(o(vec![("op", s("disconnect"))]));
            if ver == 5 && r.coin() {
                ops.push(o(vec![("op", s("empty_props"))]));
            }
        }
    }
    out(build_ops(w, idx, ver, ops));
}

fn build_ops(w: &Watch, idx: usize, ver: i64, ops: Vec<J>) -> J {
    let base = o(vec![("k", s("build")), ("ver", i(ver as usize)), ("ops", J::A(ops.clone()))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("outs", J::A(ops.iter().map(|_| crash("abort")).collect()));
        b
    });
    let mut outs = Vec::new();
    let mut draft: Option<Pk> = None;
    for c in &ops {
        let r = guard(|| apply(ver, &mut draft, c));
        let oc = match r {
            None => crash("panic"),
            Some(Err(e)) => err_json(&e),
            Some(Ok(Some(b))) => o(vec![("r", s("is")), ("b", J::B(b))]),
            Some(Ok(None)) => o(vec![("r", s("pkt")), ("p", to_json(draft.as_ref().unwrap()))]),
        };
        let go = oc.get("r").str() == "pkt" || oc.get("r").str() == "is";
        outs.push(oc);
        if !go {
            break;
        }
    }
    let mut rec = base;
    rec.set("outs", J::A(outs));
    rec
}

/// Under which name a call holds the value for the field `f`.
fn slot(f: &str) -> &'static str {
    match f {
        "ka" | "pkid" => "n",
        "id" => "x",
        "props" => "l",
        _ => "b",
    }
}

/// An assignment to a field of the draft.
fn assign(ver: i64, d: &mut Option<Pk>, f: &str, v: &J) {
    use mqttbytes::{v4, v5};
    macro_rules! fields {
        ($p:expr, $($name:literal => $field:ident = $x:expr),+) => { match f { $($name => $p.$field = $x,)+ _ => panic!("harness: field") } };
    }
    // the properties of a packet made for them
    let donor = |t: &str| {
        let p = match t {
            "Connect" => o(vec![("t", s(t)), ("proto", s("V5")), ("ka", i(0)), ("id", y(b"")), ("clean", J::B(true)),
                                ("will", J::A(vec![])), ("login", J::A(vec![])), ("props", v.clone())]),
            "Subscribe" => o(vec![("t", s(t)), ("pkid", i(1)), ("filters", J::A(vec![])), ("props", v.clone())]),
            _ => o(vec![("t", s(t)), ("pkid", i(1)), ("topics", J::A(vec![])), ("props", v.clone())]),
        };
        from_json(ver, &p, 0)
    };
    match d {
        Some(Pk::V4(v4::Packet::Connect(x))) => fields!(x, "ka" => keep_alive = v.int() as u16, "clean" => clean_session = v.bool(), "id" => client_id = v.text()),
        Some(Pk::V4(v4::Packet::Subscribe(x))) => fields!(x, "pkid" => pkid = v.int() as u16),
        Some(Pk::V4(v4::Packet::Unsubscribe(x))) => fields!(x, "pkid" => pkid = v.int() as u16),
        Some(Pk::V4(v4::Packet::Publish(x))) => fields!(x, "pkid" => pkid = v.int() as u16, "dup" => dup = v.bool(), "retain" => retain = v.bool()),
        Some(Pk::V5(v5::Packet::Connect(x))) if f == "props" => {
            if let Pk::V5(v5::Packet::Connect(q)) = donor("Connect") { x.properties = q.properties }
        }
        Some(Pk::V5(v5::Packet::Subscribe(x))) if f == "props" => {
            if let Pk::V5(v5::Packet::Subscribe(q)) = donor("Subscribe") { x.properties = q.properties }
        }
        Some(Pk::V5(v5::Packet::Unsubscribe(x))) if f == "props" => {
            if let Pk::V5(v5::Packet::Unsubscribe(q)) = donor("Unsubscribe") { x.properties = q.properties }
        }
        Some(Pk::V5(v5::Packet::Connect(x))) => fields!(x, "ka" => keep_alive = v.int() as u16, "clean" => clean_session = v.bool(), "id" => client_id = v.text()),
        Some(Pk::V5(v5::Packet::Subscribe(x))) => fields!(x, "pkid" => pkid = v.int() as u16),
        Some(Pk::V5(v5::Packet::Unsubscribe(x))) => fields!(x, "pkid" => pkid = v.int() as u16),
        Some(Pk::V5(v5::Packet::Publish(x))) => fields!(x, "pkid" => pkid = v.int() as u16, "dup" => dup = v.bool(), "retain" => retain = v.bool()),
        _ => panic!("harness: assignment"),
    }
}

/// Now and then an assignment to a field of the packet under construction.
fn assigned(r: &mut Rng, ver: i64, t: &str, ops: &mut Vec<J>) {
    if !r.one_in(3) {
        return;
    }
    let put = |f: &str, v: J| o(vec![("op", s("put")), ("f", s(f)), (slot(f), v)]);
    ops.push(match (t, r.below(4)) {
        ("Connect", 0) => put("ka", i(pkid(r).max(1) - 1)),
        ("Connect", 1) => put("clean", J::B(r.coin())),
        ("Connect", 2) => put("id", y(text(r, 20, false).as_bytes())),
        ("Connect", _) if ver == 4 => put("clean", J::B(false)),
        ("Publish", 0) => put("dup", J::B(r.coin())),
        ("Publish", 1) => put("retain", J::B(r.coin())),
        ("Publish", _) => put("pkid", i(pkid(r))),
        (_, 0 | 1) => put("pkid", i(pkid(r))),
        _ if ver == 4 => put("pkid", i(0)),
        _ => put("props", props(r, t)),
    });
}

/// Calls with an argument of many lengths; see `made` in Trace.tla.
fn made(w: &Watch, idx: usize, r: &mut Rng, tier: &str, out: Sink) {
    let ver = if idx % 2 == 0 { 4 } else { 5 };
    let e = || y(b"");
    let con = || o(vec![("op", s("connect")), ("id", e())]);
    let login = || o(vec![("op", s("set_login")), ("u", e()), ("p", e())]);
    let will = || o(vec![("op", s("set_will")), ("topic", e()), ("msg", e()), ("qos", i(1)), ("retain", J::B(true))]);
    let publish = |op: &str| o(vec![("op", s(op)), ("topic", e()), ("qos", i(2)), ("payload", e())]);
    let add = || o(vec![("op", s("add")), ("path", y(b"b")), ("qos", i(1))]);
    let sub = || o(vec![("op", s("subscribe")), ("path", e()), ("qos", i(1))]);
    // the calls; which one varies, and in what; where that ends up
    let (ops, k, arg, path): (Vec<J>, usize, &str, Vec<J>) = match idx / 2 % 16 {
        0 => (vec![con()], 0, "id", vec![s("id")]),
        1 => (vec![con(), login()], 1, "u", vec![s("login"), i(1), s("u")]),
        2 => (vec![con(), login()], 1, "p", vec![s("login"), i(1), s("p")]),
        3 => (vec![con(), will(), login()], 1, "topic", vec![s("will"), i(1), s("topic")]),
        4 => (vec![con(), will()], 1, "msg", vec![s("will"), i(1), s("msg")]),
        5 => (vec![publish("publish")], 0, "topic", vec![s("topic")]),
        6 => (vec![publish("publish")], 0, "payload", vec![s("payload")]),
        7 => (vec![publish("publish_bytes")], 0, "payload", vec![s("payload")]),
        8 => (vec![publish("publish_bytes")], 0, "topic", vec![s("topic")]),
        9 => (vec![sub(), add()], 0, "path", vec![s("filters"), i(1), s("path")]),
        10 => (vec![sub(), add()], 1, "path", vec![s("filters"), i(2), s("path")]),
        11 => (vec![o(vec![("op", s("unsubscribe")), ("topic", e())])], 0, "topic", vec![s("topics"), i(1)]),
        // lists
        12 => (vec![o(vec![("op", s("subscribe_many")), ("filters", J::A(vec![o(vec![("path", e()), ("qos", i(0)), ("set", J::A(vec![]))])]))])], 0, "filters", vec![s("filters")]),
        13 => (vec![o(vec![("op", s("suback")), ("pkid", i(9)), ("codes", J::A(vec![]))])], 0, "codes", vec![s("codes")]),
        14 => (vec![sub(), o(vec![("op", s("put")), ("f", s("pkid")), ("n", i(3))])], 2, "add", vec![s("filters")]),
        _ => (vec![con(), login(), will()], 2, "msg", vec![s("will"), i(1), s("msg")]),
    };
    let list = matches!(arg, "filters" | "codes" | "add");
    let mut ns: Vec<usize> = if list { (1..300).collect() } else { (0..1280).collect() };
    for k in 11..if list { 16 } else { 23 } {
        ns.extend((1usize << k) - 3..(1usize << k) + 4);
    }
    for _ in 0..if tier == "quick" { 30 } else { 400 } {
        ns.push(r.range(1, 70_000) / if list { 20 } else { 1 } + 1);
    }
    if !list {
        ns.extend([1_000_000, 5_000_000, 16_777_217]);
        if tier != "quick" {
            ns.extend([268_435_455, 268_435_456, 300_000_000]);
        }
    }
    ns.sort();
    ns.dedup();
    let base = o(vec![("k", s("made")), ("ver", i(ver as usize)), ("ops", J::A(ops.clone())), ("path", J::A(path.clone()))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("runs", J::A(vec![]));
        b.set("crashed", J::B(true));
        b
    });
    let mut runs: Vec<(usize, usize, (i64, bool), J)> = Vec::new();
    let mut crashed = false;
    for n in ns {
        // the argument, and what it should have become
        let (given, want): (J, J) = match arg {
            "filters" | "add" => {
                let f = |k: usize| o(vec![("path", y(format!("f{}", k % 7).as_bytes())), ("qos", i(k % 3))]);
                let g = (0..n).map(|k| { let mut x = f(k); x.set("set", J::A(vec![])); x }).collect();
                let plain = |k: usize| o(vec![("path", f(k).get("path").clone()), ("qos", i(k % 3)), ("nl", J::B(false)), ("rap", J::B(false)), ("rh", s("OnEverySubscribe"))]);
                let mut l: Vec<J> = (0..n).map(plain).collect();
                if arg == "add" {
                    l.insert(0, o(vec![("path", e()), ("qos", i(1)), ("nl", J::B(false)), ("rap", J::B(false)), ("rh", s("OnEverySubscribe"))]));
                }
                (J::A(g), J::A(l))
            }
            "codes" => {
                let c = codes(ver, "SubAck");
                let l = J::A((0..n).map(|k| s(c[k % c.len()].0)).collect());
                (l.clone(), l)
            }
            _ => {
                let l = J::Y((0..n).map(|k| b'a' + (k % 23) as u8).collect());
                (l.clone(), l)
            }
        };
        let mut calls = ops.clone();
        if arg == "add" {
            calls.extend(given.arr().iter().map(|f| o(vec![("op", s("add")), ("path", f.get("path").clone()), ("qos", f.get("qos").clone())])));
        } else {
            calls[k].set(arg, given);
        }
        let mut d: Option<Pk> = None;
        let done = guard(|| calls.iter().all(|c| apply(ver, &mut d, c).is_ok())).unwrap_or(false);
        tick();
        if !done {
            crashed = true;
            break;
        }
        let mut p = to_json(d.as_ref().unwrap());
        let got = blank(&mut p, &path);
        let size = |j: &J| match j { J::Y(b) => b.len(), J::A(l) => l.len(), _ => usize::MAX };
        let v = (size(&got) as i64 - size(&want) as i64, got == want);
        match runs.last_mut() {
            Some(x) if (x.2, &x.3) == (v, &p) => x.1 = n,
            _ => runs.push((n, n, v, p)),
        }
    }
    idle();
    let mut rec = base;
    runs.truncate(20);
    rec.set("runs", J::A(runs.into_iter().map(|(a, b, v, p)| {
        o(vec![("from", i(a)), ("to", i(b)), ("d", J::I(v.0)), ("same", J::B(v.1)), ("rest", p)])
    }).collect()));
    rec.set("crashed", J::B(crashed));
    out(rec);
}

/// What lies at `path`, which is empty afterwards.
fn blank(p: &mut J, path: &[J]) -> J {
    let slot = match (p, &path[0]) {
        (J::O(l), J::S(k)) => match l.iter_mut().find(|x| x.0 == *k) {
            Some(x) => &mut x.1,
            None => return J::I(0),
        },
        (J::A(l), J::I(k)) if *k as usize <= l.len() => &mut l[*k as usize - 1],
        _ => return J::I(0),
    };
    if path.len() == 1 {
        std::mem::replace(slot, J::A(vec![]))
    } else {
        blank(slot, &path[1..])
    }
}

/// One call of a constructor or setter.
fn apply(ver: i64, d: &mut Option<Pk>, c: &J) -> Result<Option<bool>, mqttbytes::Error> {
    use mqttbytes::{v4, v5};
    let q = || qos_of(c.get("qos").int());
    let n16 = |k: &str| c.get(k).int() as u16;
    macro_rules! put {
        ($v:ident, $t:ident, $x:expr) => {
            *d = Some(put_packet!($v, $t, $x))
        };
    }
    macro_rules! put_packet {
        (v4, $t:ident, $x:expr) => {
            Pk::V4(v4::Packet::$t($x))
        };
        (v5, $t:ident, $x:expr) => {
            Pk::V5(v5::Packet::$t($x))
        };
    }
    match (c.get("op").str(), ver) {
        ("connect", 4) => put!(v4, Connect, v4::Connect::new(c.get("id").text())),
        ("connect", _) => put!(v5, Connect, v5::Connect::new(c.get("id").text())),
        ("set_login", _) => match d {
            Some(Pk::V4(v4::Packet::Connect(x))) => drop(x.set_login(c.get("u").text(), c.get("p").text())),
            Some(Pk::V5(v5::Packet::Connect(x))) => drop(x.set_login(c.get("u").text(), c.get("p").text())),
            _ => {}
        },
        ("set_will", _) => match d {
            Some(Pk::V4(v4::Packet::Connect(x))) => {
                x.last_will = Some(v4::LastWill::new(c.get("topic").text(), c.get("msg").bytes(), q(), c.get("retain").bool()))
            }
            Some(Pk::V5(v5::Packet::Connect(x))) => {
                x.last_will = Some(v5::LastWill::new(c.get("topic").text(), c.get("msg").bytes(), q(), c.get("retain").bool()))
            }
            _ => {}
        },
        ("validate", _) => {
            let (u, p) = (c.get("u").text(), c.get("p").text());
            return Ok(Some(match d {
                Some(Pk::V4(v4::Packet::Connect(x))) => {
                    let l = x.login.as_ref().unwrap();
                    v4::Login::new(l.username.clone(), l.password.clone()).validate(&u, &p)
                }
                _ => false,
            }));
        }
        ("connack", 4) => put!(v4, ConnAck, v4::ConnAck::new(ca4f(c.get("code").str()), c.get("sp").bool())),
        ("connack", _) => put!(v5, ConnAck, v5::ConnAck::new(ca5f(c.get("code").str()), c.get("sp").bool())),
        ("publish", 4) => put!(v4, Publish, v4::Publish::new(c.get("topic").text(), q(), c.get("payload").bytes())),
        ("publish", _) => put!(v5, Publish, v5::Publish::new(c.get("topic").text(), q(), c.get("payload").bytes())),
        ("publish_bytes", 4) => {
            put!(v4, Publish, v4::Publish::from_bytes(c.get("topic").text(), q(), Bytes::from(c.get("payload").bytes())))
        }
        ("publish_bytes", _) => {
            put!(v5, Publish, v5::Publish::from_bytes(c.get("topic").text(), q(), Bytes::from(c.get("payload").bytes())))
        }
        ("ack", v) => match (c.get("t").str(), v) {
            ("PubAck", 4) => put!(v4, PubAck, v4::PubAck::new(n16("pkid"))),
            ("PubRec", 4) => put!(v4, PubRec, v4::PubRec::new(n16("pkid"))),
            ("PubRel", 4) => put!(v4, PubRel, v4::PubRel::new(n16("pkid"))),
            ("PubComp", 4) => put!(v4, PubComp, v4::PubComp::new(n16("pkid"))),
            ("PubAck", _) => put!(v5, PubAck, v5::PubAck::new(n16("pkid"))),
            ("PubRec", _) => put!(v5, PubRec, v5::PubRec::new(n16("pkid"))),
            ("PubRel", _) => put!(v5, PubRel, v5::PubRel::new(n16("pkid"))),
            _ => put!(v5, PubComp, v5::PubComp::new(n16("pkid"))),
        },
        ("subscribe", 4) => put!(v4, Subscribe, v4::Subscribe::new(c.get("path").text(), q())),
        ("subscribe", _) => put!(v5, Subscribe, v5::Subscribe::new(c.get("path").text(), q())),
        ("subscribe_empty", _) => put!(v5, Subscribe, v5::Subscribe::empty_subscribe()),
        ("subscribe_many", 4) => {
            let f: Vec<_> = c.get("filters").arr().iter()
                .map(|f| v4::SubscribeFilter::new(f.get("path").text(), qos_of(f.get("qos").int()))).collect();
            // with an iterator that knows its length, and with one that does not
            let known = f.len() % 2 == 0;
            put!(v4, Subscribe, if known { v4::Subscribe::new_many(f)? } else { v4::Subscribe::new_many(f.into_iter().filter(|_| true))? })
        }
        ("subscribe_many", _) => {
            let f: Vec<_> = c.get("filters").arr().iter()
                .map(|f| {
                    let mut x = v5::SubscribeFilter::new(f.get("path").text(), qos_of(f.get("qos").int()));
                    for z in f.get("set").arr() {
                        match z.get("op").str() {
                            "nolocal" => drop(x.set_nolocal(z.get("b").bool())),
                            "preserve_retain" => drop(x.set_preserve_retain(z.get("b").bool())),
                            _ => drop(x.set_retain_forward_rule(rh5f(z.get("rule").str()))),
                        }
                    }
                    x
                })
                .collect();
            let known = f.len() % 2 == 0;
            put!(v5, Subscribe, if known { v5::Subscribe::new_many(f) } else { v5::Subscribe::new_many(f.into_iter().filter(|_| true)) })
        }
        ("add", _) => match d {
            Some(Pk::V4(v4::Packet::Subscribe(x))) => drop(x.add(c.get("path").text(), q())),
            Some(Pk::V5(v5::Packet::Subscribe(x))) => drop(x.add(c.get("path").text(), q())),
            _ => {}
        },
        ("suback", 4) => {
            put!(v4, SubAck, v4::SubAck::new(n16("pkid"), c.get("codes").arr().iter().map(|x| sa4f(x.str())).collect()))
        }
        ("suback", _) => {
            put!(v5, SubAck, v5::SubAck::new(n16("pkid"), c.get("codes").arr().iter().map(|x| sa5f(x.str())).collect()))
        }
        ("unsuback", 4) => put!(v4, UnsubAck, v4::UnsubAck::new(n16("pkid"))),
        ("unsuback", _) => put!(v5, UnsubAck, v5::UnsubAck::new(n16("pkid"))),
        ("unsubscribe", 4) => put!(v4, Unsubscribe, v4::Unsubscribe::new(c.get("topic").text())),
        ("unsubscribe", _) => put!(v5, Unsubscribe, v5::Unsubscribe::new(c.get("topic").text())),
        ("disconnect", 4) => *d = Some(Pk::V4(v4::Packet::Disconnect)),
        ("disconnect", _) => put!(v5, Disconnect, v5::Disconnect::new()),
        ("empty_props", _) => match d {
            Some(Pk::V5(v5::Packet::ConnAck(x))) => x.properties = Some(v5::ConnAckProperties::new()),
            Some(Pk::V5(v5::Packet::Disconnect(x))) => x.properties = Some(v5::DisconnectProperties::new()),
            _ => {}
        },
        ("put", _) => assign(ver, d, c.get("f").str(), c.get(slot(c.get("f").str()))),
        ("tune", _) => {
            if let Some(Pk::V5(v5::Packet::Subscribe(x))) = d {
                let f = &mut x.filters[c.get("at").int() as usize - 1];
                for z in c.get("set").arr() {
                    match z.get("op").str() {
                        "nolocal" => drop(f.set_nolocal(z.get("b").bool())),
                        "preserve_retain" => drop(f.set_preserve_retain(z.get("b").bool())),
                        _ => drop(f.set_retain_forward_rule(rh5f(z.get("rule").str()))),
                    }
                }
            }
        }
        (x, _) => panic!("harness: op {}", x),
    }
    Ok(None)
}

// ----------------------------------------------------------------- purity --

#[derive(Clone)]
enum Call {
    Read(i64, Vec<u8>, usize),
    Check(Vec<u8>, usize),
    Write(i64, J, i64),
    Topic(String, String),
}

/// Makes the call in one of several circumstances that must not matter.
fn call(c: &Call, how: usize) -> String {
    match c {
        Call::Read(ver, b, max) => {
            let mut x = match how % 4 {
                0 => buffer(b),
                1 => {
                    // a part of a larger buffer, with something else around it
                    let mut big = BytesMut::with_capacity(b.len() + 128);
                    big.extend_from_slice(&[0xee; 17]);
                    big.extend_from_slice(b);
                    big.extend_from_slice(&[0x82; 9]);
                    let mut mine = big.split_off(17);
                    let _rest = mine.split_off(b.len());
                    mine
                }
                2 => {
                    let mut x = BytesMut::with_capacity(4 * b.len() + 64);
                    x.extend_from_slice(&[1; 30]);
                    x.extend_from_slice(b);
                    x.advance(30);
                    x
                }
                _ => {
                    let mut x = BytesMut::new();
                    for k in b {
                        x.extend_from_slice(&[*k]);
                    }
                    x
                }
            };
            let r = read_buf(*ver, &mut x, *max);
            let mut j = out_read(&r);
            j.set("left", y(&x));
            j.dump()
        }
        Call::Check(b, max) => {
            let r = guard(|| mqttbytes::check(b.iter(), *max).map(|h| h.frame_length()));
            out_num(&r).dump()
        }
        Call::Write(ver, p, pe) => {
            let pk = from_json(*ver, p, *pe);
            let pre: usize = [0, 3, 64, 0][how % 4];
            let mut b = if how % 2 == 0 { BytesMut::new() } else { BytesMut::with_capacity(1000) };
            b.extend_from_slice(&vec![0x77; pre]);
            let r = write_buf(&pk, &mut b);
            let mut j = out_num(&r);
            j.set("add", y(&b[pre.min(b.len())..]));
            j.dump()
        }
        Call::Topic(a, b) => {
            let r = guard(|| {
                (mqttbytes::matches(a, b), mqttbytes::valid_filter(b), mqttbytes::valid_topic(a), mqttbytes::has_wildcards(b))
            });
            match r {
                None => crash("panic").dump(),
                Some((m, f, t, h)) => o(vec![
                    ("r", s("ok")), ("n", i(m as usize + 2 * f as usize + 4 * t as usize + 8 * h as usize)),
                ])
                .dump(),
            }
        }
    }
}

/// One batch of calls, made over and over in different orders, buffers and threads.
fn pure(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let n = 120;
    let mut calls: Vec<Call> = (0..n)
        .map(|k| {
            let ver = *r.pick(&[4i64, 5]);
            match k % 6 {
                0 => Call::Read(ver, peer(r, ver).2, NOMAX),
                1 => Call::Read(ver, broken(r, ver), NOMAX),
                2 => {
                    let mut f = peer(r, ver).2;
                    let m = some_max(r, &f);
                    if r.coin() {
                        f.truncate(r.below(f.len() + 1));
                    } else {
                        f.extend(tail(r));
                    }
                    if r.one_in(4) {
                        Call::Check(f, m)
                    } else {
                        Call::Read(ver, f, m)
                    }
                }
                3 | 4 => {
                    let t = pick_type(r);
                    let mut p = packet(r, ver, t);
                    if t == "Publish" && r.one_in(4) {
                        p.set("qos", i(2));
                        p.set("pkid", i(0));
                    }
                    Call::Write(ver, p, r.below(4) as i64)
                }
                _ => Call::Topic(some_topic(r), some_filter(r)),
            }
        })
        .collect();
    // next to each of some calls, one that is nearly the same
    for k in (0..n).step_by(2) {
        if r.coin() {
            continue;
        }
        let c = match &calls[k] {
            Call::Read(..) => {
                let ver = *r.pick(&[4i64, 5, 5]);
                let (_, mut p, f, z) = peer(r, ver);
                if r.one_in(3) {
                    // the same, but longer by so much that its length field
                    // begins alike
                    if f.len() < 130 {
                        let extra = 130 - f.len() + r.below(120);
                        pad(r, ver, &mut p, extra);
                    }
                    let f = encode(r, ver, &p).0;
                    let step = *r.pick(&[128, 128, 256, 1280, 16256, 16384]);
                    pad(r, ver, &mut p, step);
                    let g = encode(r, ver, &p).0;
                    if r.coin() {
                        calls[k] = Call::Check(f, NOMAX);
                        Call::Check(g, NOMAX)
                    } else {
                        calls[k] = Call::Read(ver, f, NOMAX);
                        Call::Read(ver, g, NOMAX)
                    }
                } else {
                    let g = sibling(r, &f, &z);
                    if r.one_in(4) {
                        // a part of the one, then the other
                        let mut h = f;
                        h.truncate(r.below(h.len() + 1));
                        calls[k] = Call::Read(ver, h, NOMAX);
                    } else {
                        calls[k] = Call::Read(ver, f, NOMAX);
                    }
                    Call::Read(ver, g, NOMAX)
                }
            }
            Call::Write(v, p, pe) => Call::Write(*v, twist(r, p), *pe),
            Call::Check(f, m) => {
                let mut f = f.clone();
                if f.len() > 1 {
                    f[1] ^= 1;
                }
                Call::Check(f, *m)
            }
            Call::Topic(a, b) => {
                let rev = |x: &str| x.split('/').rev().collect::<Vec<_>>().join("/");
                if r.coin() {
                    Call::Topic(rev(a), b.clone())
                } else {
                    Call::Topic(a.clone(), rev(b))
                }
            }
        };
        calls[k + 1] = c;
    }
    w.about(idx, || o(vec![("k", s("pure")), ("outs", J::A(vec![crash("abort")]))]));
    let calls = Arc::new(calls);
    let mut seen: Vec<Vec<String>> = (0..n).map(|k| vec![call(&calls[k], 0)]).collect();
    let mut note = |k: usize, x: String| {
        if !seen[k].contains(&x) {
            seen[k].push(x);
        }
    };
    // backwards; each twice; in a random order; between failures
    for k in (0..n).rev() {
        note(k, call(&calls[k], 1));
        note(k, call(&calls[k], 2));
    }
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for k in &order {
        let junk = broken(r, 5);
        call(&Call::Read(4 + r.below(2) as i64, junk, NOMAX), 0);
        note(*k, call(&calls[*k], 3));
    }
    // all at once in many threads
    let th = 6;
    let bar = Arc::new(Barrier::new(th));
    let hs: Vec<_> = (0..th)
        .map(|x| {
            let (calls, bar) = (calls.clone(), bar.clone());
            let mut order: Vec<usize> = (0..n).collect();
            Rng::new(x as u64 ^ idx as u64).shuffle(&mut order);
            std::thread::spawn(move || {
                bar.wait();
                let mut res = Vec::new();
                for round in 0..2 {
                    for k in &order {
                        res.push((*k, call(&calls[*k], x + round)));
                    }
                }
                res
            })
        })
        .collect();
    for h in hs {
        for (k, x) in h.join().expect("harness: thread") {
            note(k, x);
        }
    }
    // one and the same call very often
    for kind in 0..4 {
        let small = |c: &Call| match c {
            Call::Read(_, b, _) => kind == 0 && b.len() < 40,
            Call::Check(b, _) => kind == 1 && b.len() < 40,
            Call::Write(_, p, _) => kind == 2 && p.dump().len() < 300,
            Call::Topic(a, b) => kind == 3 && a.len() + b.len() < 60,
        };
        if let Some(k) = order.iter().copied().find(|k| small(&calls[*k])) {
            for _ in 0..66000 {
                let x = call(&calls[k], 0);
                if x != seen[k][0] {
                    seen[k].push(x);
                    break;
                }
            }
        }
    }
    for (k, l) in seen.iter().enumerate() {
        let what = match &calls[k] {
            Call::Read(v, b, m) => o(vec![("call", s("read")), ("ver", i(*v as usize)), ("s", y(b)), ("max", i(*m))]),
            Call::Check(b, m) => o(vec![("call", s("check")), ("s", y(b)), ("max", i(*m))]),
            Call::Write(v, p, pe) => o(vec![("call", s("write")), ("ver", i(*v as usize)), ("p", p.clone()), ("pe", i(*pe as usize))]),
            Call::Topic(a, b) => o(vec![("call", s("topic")), ("topic", y(a.as_bytes())), ("filter", y(b.as_bytes()))]),
        };
        out(o(vec![("k", s("pure")), ("what", what), ("outs", J::A(l.iter().map(|x| J::parse(x)).collect()))]));
    }
}

// ------------------------------------------------------------------- fuzz --

/// Very many reads; only what crashed, or depended on the bytes behind the
/// frame, is recorded, and one of every few thousand for the specification to
/// look at. idx is a batch.
pub const BATCH: usize = 20_000;
fn fuzz(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let mut kept = 0;
    for k in 0..BATCH {
        let ver = *r.pick(&[4i64, 5]);
        let mut f = match r.below(8) {
            0..=2 => made_up(r),
            3 => peer(r, ver).2,
            _ => broken(r, ver),
        };
        if r.one_in(6) {
            // wrong frame for the version
            f = if ver == 4 { broken(r, 5) } else { broken(r, 4) };
        }
        let max = if r.one_in(10) { r.below(100) } else { NOMAX };
        let behind = r.coin();
        if behind {
            f.extend(tail(r));
        }
        let mut head = format!("{} {} {} ", idx, ver, max).into_bytes();
        head.push(f.len() as u8);
        head.push((f.len() >> 8) as u8);
        head.extend_from_slice(&f);
        w.raw(&head);
        let mut b = buffer(&f);
        let o1 = read_buf(ver, &mut b, max);
        let mut odd = o1.is_none();
        if let Some(n) = frame_len(&f) {
            if n < f.len() && behind {
                let mut b = buffer(&f[..n]);
                let o2 = read_buf(ver, &mut b, max);
                odd |= match (&o1, &o2) {
                    (Some(Ok(a)), Some(Ok(b))) => a != b,
                    (Some(Err(a)), Some(Err(b))) => a != b,
                    _ => true,
                };
            }
            let d = guard(|| read_direct(ver, &f[..n]));
            odd |= d.is_none();
            // the parsers of the other types, one by one
            let num = (k % 16) as u8;
            odd |= guard(|| read_as(ver, num, &f[..n])).is_none();
        }
        if (odd && kept < 20) || k % 400 == 0 {
            kept += odd as usize;
            out(dec_rec(w, idx, ver, &f, max, vec![]).0);
        }
    }
}

/// Frames one small step away from those of the input file (lines of kind
/// "frame"): a byte changed, a slice cut out, doubled or put in.
fn near(a: &Args, w: &Watch, out: Sink) {
    let text = std::fs::read_to_string(a.input.as_ref().expect("harness: --in")).expect("harness: input");
    let frames: Vec<(i64, Vec<u8>)> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| {
        let j = J::parse(l);
        (j.get("ver").int(), j.get("s").bytes())
    }).collect();
    for idx in a.from..a.to {
        let mut r = rng(a, idx);
        layout(idx);
        let (ver, f) = r.pick(&frames).clone();
        let (h, n) = header(&f).expect("harness: frame");
        let mut s2 = f.clone();
        match r.below(10) {
            0..=5 => {
                // one byte
                let k = if n == 0 || r.one_in(12) { 0 } else { r.range(h, f.len() - 1) };
                s2[k] = match r.below(4) {
                    0 => r.byte(),
                    1 => f[k] ^ (1 << r.below(8)),
                    2 => (f[k] as usize + *r.pick(&[1, 255, 2, 254])) as u8,
                    _ => *r.pick(&[0, 1, 2, 3, 4, 5, 11, 38, 31, 127, 128, 255]),
                };
            }
            6 => s2 = rebody(&f, &f[h..h + r.below(n + 1)]),
            7 if n > 0 => {
                let at = r.range(h, f.len() - 1);
                let len = r.range(1, (f.len() - at).min(6));
                let mut b = f[h..].to_vec();
                b.drain(at - h..at - h + len);
                s2 = rebody(&f, &b);
            }
            8 if n > 0 => {
                let at = r.range(h, f.len() - 1);
                let len = r.range(1, (f.len() - at).min(8));
                let mut b = f[h..at + len].to_vec();
                b.extend_from_slice(&f[at..]);
                s2 = rebody(&f, &b);
            }
            _ => {
                let mut b = f[h..].to_vec();
                let k = r.below(n + 1);
                for _ in 0..r.range(1, 3) {
                    b.insert(k, *r.pick(&[0, 0, 1, 2, 31, 38, 97, 128, 255]));
                }
                s2 = rebody(&f, &b);
            }
        }
        out(dec_rec(w, idx, ver, &s2, NOMAX, vec![]).0);
    }
}

// ------------------------------------------------- behaviours from the spec --

/// Replays what the specification generated: frames, packets, sessions,
/// builder calls; one JSON record per line of the input file.
fn from_file(a: &Args, w: &Watch, out: Sink) {
    let text = std::fs::read_to_string(a.input.as_ref().expect("harness: --in")).expect("harness: input");
    for (idx, line) in text.lines().enumerate() {
        if idx < a.from || (a.to > 0 && idx >= a.to) || line.trim().is_empty() {
            continue;
        }
        let j = J::parse(line);
        layout(idx);
        match j.get("k").str() {
            "frame" => {
                let max = j.opt("max").map(|m| m.int() as usize).unwrap_or(NOMAX);
                out(dec_rec(w, idx, j.get("ver").int(), &j.get("s").bytes(), max, vec![]).0)
            }
            "packet" => {
                let mut r = rng(a, idx);
                let pre = before(&mut r);
                out(enc_rec(w, idx, j.get("ver").int(), j.get("p"), r.below(4) as i64, &pre))
            }
            "reframe" => {
                let ver = j.get("ver").int();
                let f = j.get("s").bytes();
                if let (_, Some(pk)) = dec_rec(w, idx, ver, &f, NOMAX, vec![]) {
                    out(re_rec(w, idx, ver, &f, &pk));
                }
            }
            "session" => {
                let ops: Vec<Op> = j.get("ops").arr().iter()
                    .map(|x| match x.get("a").str() {
                        "write" => Op::Write(x.get("p").clone(), 0),
                        "inject" => Op::Inject(x.get("b").bytes()),
                        "deliver" => Op::Deliver(x.get("n").int() as usize),
                        _ => Op::Read,
                    })
                    .collect();
                session(w, idx, j.get("ver").int(), j.get("max").int() as usize, &ops, "spec", out);
            }
            "build" => out(build_ops(w, idx, j.get("ver").int(), j.get("ops").arr().to_vec())),
            x => panic!("harness: input {}", x),
        }
    }
}

/// The functions that map a number, on every byte.
fn api(w: &Watch, idx: usize, out: Sink) {
    use mqttbytes::{v4, v5, FixedHeader};
    use std::convert::TryFrom;
    let names = ["qos", "v4SubAck", "v5SubAck", "v5Disconnect", "type"];
    let what = names[idx % names.len()];
    let base = o(vec![("k", s("api")), ("what", s(what))]);
    let rep = |outs: Vec<J>| {
        let mut b = base.clone();
        b.set("outs", J::A(outs));
        b
    };
    w.about(idx, || rep((0..256).map(|_| crash("abort")).collect()));
    fn is<T>(r: Option<Result<T, mqttbytes::Error>>, name: impl Fn(&T) -> String) -> J {
        match &r {
            Some(Ok(x)) => o(vec![("r", s("is")), ("b", s(&name(x)))]),
            Some(Err(_)) => o(vec![("r", s("err"))]),
            None => crash("panic"),
        }
    }
    let one = |k: u8| match what {
        "qos" => is(guard(|| mqttbytes::qos(k)), |q| format!("{:?}", q)),
        "v4SubAck" => is(guard(|| v4::SubscribeReasonCode::try_from(k)), |c| sa4(c).to_string()),
        "v5SubAck" => is(guard(|| v5::SubscribeReasonCode::try_from(k)), |c| sa5(c).to_string()),
        "v5Disconnect" => is(guard(|| v5::DisconnectReasonCode::try_from(k)), |c| di5(c).to_string()),
        _ => is(
            guard(|| {
                let a = FixedHeader::new(k, 1, 0);
                let b = FixedHeader::new(k, 4, 268435455);
                let z = mqttbytes::check([k, 0].iter(), 0)?;
                let (x, y) = (a.packet_type()?, b.packet_type()?);
                let same = x == y && z.packet_type()? == x && a.frame_length() == 2 && b.frame_length() == 268435460;
                Ok((x, same))
            }),
            |(t, same)| if *same { format!("{:?}", t) } else { "?".into() },
        ),
    };
    out(rep((0..=255).map(one).collect()));
}
