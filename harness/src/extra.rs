//! Texts of every ill-formed shape, sections and packets with something left
//! over, and what follows a refusal.
use crate::gen::*;
use crate::json::{i, o, s, y, J};
use crate::map::*;
use crate::obs::*;
use crate::rng::Rng;
use crate::suites::*;
use bytes::BytesMut;

type Sink<'a> = &'a mut dyn FnMut(J);

/// Byte sequences at and around everything that UTF-8 forbids.
pub fn sequences() -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<u8>> = Vec::new();
    // lone bytes
    for b in 0x80..=0xffu8 {
        l.push(vec![b]);
    }
    // two bytes: each lead with what may and may not follow
    for a in [0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5u8] {
        for b in [0x00, 0x2f, 0x7f, 0x80, 0xaf, 0xbf, 0xc0, 0xffu8] {
            l.push(vec![a, b]);
        }
    }
    // three bytes
    for (a, bs) in [
        (0xe0u8, &[0x80u8, 0x9f, 0xa0, 0xbf][..]), (0xe1, &[0x7f, 0x80, 0xbf, 0xc0]), (0xec, &[0x80, 0xbf]),
        (0xed, &[0x80, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf]), (0xee, &[0x80, 0xbf]), (0xef, &[0x80, 0xb7, 0xbb, 0xbf]), (0xf0, &[0x90]), (0xf4, &[0x8f]),
    ] {
        for b in bs {
            for c in [0x80, 0x90, 0xaf, 0xbd, 0xbe, 0xbf, 0x41, 0xc0] {
                l.push(vec![a, *b, c]);
            }
        }
    }
    // four bytes and more
    for (a, bs) in [
        (0xf0u8, &[0x80u8, 0x8f, 0x90, 0x9f, 0xbf][..]), (0xf1, &[0x80, 0xbf]), (0xf3, &[0xa0, 0xbf]),
        (0xf4, &[0x80, 0x8f, 0x90, 0xbf]), (0xf5, &[0x80]), (0xf8, &[0x88]), (0xfc, &[0x84]),
    ] {
        for b in bs {
            for c in [&[0x80u8, 0x80][..], &[0xbf, 0xbf], &[0x80, 0x41], &[0x80, 0xaf], &[0xbf, 0xbe]] {
                let mut x = vec![a, *b];
                x.extend_from_slice(c);
                l.push(x);
            }
        }
    }
    // a character beyond the first plane as two surrogates, and halves of it
    for x in [
        &[0xed, 0xa0, 0x80, 0xed, 0xb0, 0x80][..], &[0xed, 0xa0, 0xbd, 0xed, 0xb8, 0x80], &[0xed, 0xaf, 0xbf, 0xed, 0xbf, 0xbf],
        &[0xed, 0xb0, 0x80, 0xed, 0xa0, 0x80], &[0xed, 0xa0, 0x80, 0xed, 0xa0, 0x80],
        // overlong / + # $ a
        &[0xc0, 0xaf], &[0xe0, 0x80, 0xaf], &[0xf0, 0x80, 0x80, 0xaf], &[0xc0, 0xab], &[0xc0, 0xa3], &[0xc0, 0xa4], &[0xc1, 0xa1],
        &[0xf8, 0x80, 0x80, 0x80, 0xaf], &[0xfc, 0x80, 0x80, 0x80, 0x80, 0xaf], &[0xc0, 0xc0], &[0xfe, 0xff], &[0xff, 0xfe],
        &[0xff, 0xfe, 0x61, 0x00], &[0x61, 0xe9], &[0xe9, 0x74, 0xe9], &[0xa0], &[0x93, 0x94],
        // and what is fine
        b"a", &[0x7f], &[0x01], &[0xc2, 0xa0], &[0xef, 0xbb, 0xbf], &[0xef, 0xbf, 0xbd], &[0xf0, 0x9f, 0x98, 0x80],
    ] {
        l.push(x.to_vec());
    }
    l
}

/// Every text (and binary) field with each of them as the whole of it, at its
/// beginning, at its end and within.
pub fn texts(w: &crate::obs::Watch, idx: usize, r: &mut Rng, ver: i64, out: Sink) {
    let fields: Vec<_> = long_fields().into_iter().filter(|f| f.0 == ver).collect();
    let all = sequences();
    let q = &all[idx % all.len()];
    let k = idx / all.len();
    let (_, place, field) = fields[k % fields.len()];
    // every position once in four rounds
    let x = match (k / fields.len() + idx + k) % 4 {
        0 => q.clone(),
        1 => [&q[..], b"x/y"].concat(),
        2 => [b"x/y", &q[..]].concat(),
        _ => [b"a", &q[..], b"b"].concat(),
    };
    let p = with_field(r, ver, place, field, x);
    let (f, _) = encode(r, ver, &p);
    let what = format!("{} {}", place, field);
    out(dec_rec(w, idx, ver, &f, NOMAX, vec![("what", s(&what))]).0);
}

/// Properties with bytes left over in their section: idx = place * 256 + byte,
/// then how many, and behind what.
pub fn trail(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let place = PLACES[(idx / 256) % PLACES.len()];
    let b = (idx % 256) as u8;
    let round = idx / 256 / PLACES.len();
    let b = if round > 0 && r.one_in(4) { 0 } else { b };
    let ids: Vec<u8> = allowed(place).iter().copied().filter(|x| *x != 22).collect();
    let mut sec = Vec::new();
    let mut used: Vec<u8> = Vec::new();
    for _ in 0..(if round == 0 { 1 } else { r.below(3) }) {
        let x = *r.pick(&ids);
        if !used.contains(&x) || repeatable(place, x) {
            used.push(x);
            sec.extend(prop_bytes(r, x));
        }
    }
    let n = if round == 0 { 1 } else { r.range(1, 5) };
    for k in 0..n {
        sec.push(if k == 0 || r.coin() { b } else { r.byte() });
    }
    let mut d = Vec::new();
    put_var(&mut d, sec.len());
    let f = with_section(r, place, &d, &sec);
    out(dec_rec(w, idx, 5, &f, NOMAX, vec![("place", s(place))]).0);
}

/// Packets with bytes left over behind their last field, the length field in
/// agreement: idx = type * 256 + byte.
pub fn padded(w: &Watch, idx: usize, r: &mut Rng, ver: i64, out: Sink) {
    let t = TYPES[(idx / 256) % 14];
    let p = packet(r, ver, t);
    let (f, _) = encode(r, ver, &p);
    let (h, _) = crate::fault::header(&f).unwrap();
    let mut b = f[h..].to_vec();
    let n = if idx < 14 * 256 { 1 } else { r.range(1, 6) };
    for k in 0..n {
        b.push(if k == 0 || r.coin() { (idx % 256) as u8 } else { r.byte() });
    }
    out(dec_rec(w, idx, ver, &crate::fault::rebody(&f, &b), NOMAX, vec![]).0);
}

/// What a write that is refused leaves behind: the same packet written before
/// and after it, into the same buffer.
pub fn refusal(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    const KINDS: usize = 8;
    let ver = if idx % KINDS < 2 { 4 } else { 5 };
    let mut bad;
    let what = match idx % KINDS {
        k if k < 4 => {
            bad = packet(r, ver, "Publish");
            bad.set("qos", i(1 + k % 2));
            bad.set("pkid", i(0));
            "identifier"
        }
        k => {
            // among good ones, or alone
            bad = packet(r, 5, if k % 2 == 0 { "Publish" } else { "Subscribe" });
            let big = *r.pick(&[268435456, 268435457, 1 << 30]);
            let id = |n: usize| J::A(vec![s("SubscriptionIdentifier"), J::A(vec![i(n)])]);
            let mut l: Vec<J> = bad.get("props").arr().iter().filter(|x| x.arr()[0].str() != "SubscriptionIdentifier").cloned().collect();
            let at = l.iter().position(|x| prop(x.arr()[0].str()).0 > 11).unwrap_or(l.len());
            l.insert(at, id(big));
            if k == 6 {
                l.insert(at, id(1));
            }
            bad.set("props", J::A(l));
            if bad.opt("qos").is_some() && bad.get("qos").int() > 0 && bad.get("pkid").int() == 0 {
                bad.set("pkid", i(9));
            }
            "subscription identifier"
        }
    };
    let t = bad.get("t").str().to_string();
    let t = match (idx / KINDS) % 4 {
        0 => TYPES.iter().find(|x| **x == t).unwrap(),
        1 => "Publish",
        _ => TYPES[(idx / KINDS / 4) % 14],
    };
    let mut p = packet(r, ver, t);
    if t == "Publish" {
        p.set("qos", i(r.range(1, 2)));
        p.set("pkid", i(r.range(1, 65535)));
    }
    let base = o(vec![("k", s("refusal")), ("ver", i(ver as usize)), ("what", s(&what)), ("p", p.clone())]);
    w.about(idx, || {
        let mut b = base.clone();
        for k in ["w1", "bad", "w2"] {
            b.set(k, crash("abort"));
        }
        for k in ["b1", "b2"] {
            b.set(k, y(&[]));
        }
        b.set("kept", J::B(false));
        b.set("first", J::B(false));
        b
    });
    let pk = from_json(ver, &p, 0);
    let bad = from_json(ver, &bad, 0);
    let one = |b: &mut BytesMut, pk: &Pk| {
        let n = b.len();
        let ret = write_buf(pk, b);
        (ret, b.get(n..).map(|x| x.to_vec()).unwrap_or_default())
    };
    let mut b = BytesMut::new();
    // whatever an earlier case left behind is not this one's
    one(&mut b, &pk);
    let (w1, b1) = one(&mut b, &pk);
    let was = b.to_vec();
    let ret = write_buf(&bad, &mut b);
    let kept = b[..] == was[..];
    let (w2, b2) = one(&mut b, &pk);
    let first = b.len() >= was.len() && b[..was.len()] == was[..];
    let mut rec = base;
    rec.set("w1", out_num(&w1));
    rec.set("b1", y(&b1));
    rec.set("bad", out_num(&ret));
    rec.set("w2", out_num(&w2));
    rec.set("b2", y(&b2));
    rec.set("kept", J::B(kept));
    rec.set("first", J::B(first));
    out(rec);
}

/// Where `grid` puts every byte: the first byte, bytes of the body, the last one.
fn grid_places() -> Vec<(&'static str, usize)> {
    let mut l = Vec::new();
    for t in TYPES {
        l.push((t, 0));
        let n = match t {
            "Connect" => 12,
            "PingReq" | "PingResp" => 0,
            _ => 5,
        };
        l.extend((1..=n).map(|k| (t, k)));
        if n > 0 {
            l.push((t, 99));
        }
    }
    l
}
pub fn grid_size() -> usize {
    256 * grid_places().len()
}

/// A well-formed packet with one byte replaced: each of the first bytes of each
/// type by each value.
pub fn grid(w: &Watch, idx: usize, r: &mut Rng, ver: i64, out: Sink) {
    let l = grid_places();
    let (t, at) = l[(idx / 256) % l.len()];
    let c = (idx % 256) as u8;
    let p = packet(r, ver, t);
    let mut f = encode(r, ver, &p).0;
    for _ in 0..2 {
        let p = packet(r, ver, t);
        let g = encode(r, ver, &p).0;
        if g.len() < f.len() && r.coin() {
            f = g;
        }
    }
    let (h, _) = crate::fault::header(&f).unwrap();
    let k = match at {
        0 => 0,
        99 => f.len() - 1,
        k => h + k - 1,
    };
    if k < f.len() {
        f[k] = c;
    }
    out(dec_rec(w, idx, ver, &f, NOMAX, vec![]).0);
}

/// What lies behind the last field of a frame, of every size: nothing of it may
/// stay behind, all that follows the frame must.
pub fn pads(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let ver = if idx % 2 == 0 { 4 } else { 5 };
    let k = (idx / 2) % 17;
    let block = idx / 34 % 6;
    let (f, what) = match k {
        14 => (vec![0x00, 0], "type 0"),
        15 => (vec![0xf0, 0], "type 15"),
        16 => (vec![0x30, 2, 0, 9], "no topic"),
        k => {
            let p = packet(r, ver, TYPES[k]);
            (encode(r, ver, &p).0, TYPES[k])
        }
    };
    let (h, _) = crate::fault::header(&f).unwrap();
    let body = f[h..].to_vec();
    let ns: Vec<usize> = if block < 5 {
        (block * 256..block * 256 + 256).collect()
    } else {
        let mut l: Vec<usize> = (11..18).flat_map(|k| (1usize << k) - 4..(1usize << k) + 4).collect();
        l.extend((0..40).map(|_| r.range(1280, 70000)));
        l.sort();
        l.dedup();
        l
    };
    let fill = r.byte();
    let behind = [0xc0u8, 0, 0x30];
    let base = o(vec![
        ("k", s("pads")), ("ver", i(ver as usize)), ("what", s(what)), ("s", y(&f)), ("fill", i(fill as usize)),
        ("from", i(ns[0])), ("to", i(*ns.last().unwrap())), ("count", i(ns.len())), ("behind", i(behind.len())),
    ]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("runs", J::A(vec![]));
        b
    });
    // <<from, how many, bytes left, outcome>>
    let mut runs: Vec<(usize, usize, usize, &'static str)> = Vec::new();
    for n in ns {
        let mut b = body.clone();
        b.extend(std::iter::repeat(fill).take(n));
        let mut g = crate::gen::frame(f[0], &b).0;
        g.extend_from_slice(&behind);
        let mut x = buffer(&g);
        let got = read_buf(ver, &mut x, NOMAX);
        let left = if g.ends_with(&x) { x.len() } else { 999_999 };
        let res = match got {
            None => "panic",
            Some(Ok(_)) => "pkt",
            Some(Err(mqttbytes::Error::InsufficientBytes(_))) => "more",
            Some(Err(_)) => "err",
        };
        match runs.last_mut() {
            Some(z) if z.0 + z.1 == n && z.2 == left && z.3 == res => z.1 += 1,
            _ => runs.push((n, 1, left, res)),
        }
    }
    let mut rec = base;
    rec.set("runs", J::A(runs.iter().map(|z| J::A(vec![i(z.0), i(z.1), i(z.2), s(z.3)])).collect()));
    out(rec);
}

// ------------------------------------------------------------------- soak --

/// Something that can be done over and over, and what came of it.
enum Deed {
    Read(i64, Vec<u8>, usize),
    Check(Vec<u8>, usize),
    Write(Pk),
    Topic(String, String),
}
#[derive(PartialEq, Debug)]
enum Res {
    Read(Option<Result<Pk, mqttbytes::Error>>, usize),
    Check(Result<usize, mqttbytes::Error>),
    Write(Option<Result<usize, mqttbytes::Error>>, Vec<u8>),
    Topic([bool; 4]),
}
impl Deed {
    fn once(&self, room: &mut BytesMut) -> Res {
        room.clear();
        match self {
            Deed::Read(v, b, max) => {
                room.extend_from_slice(b);
                let r = read_buf(*v, room, *max);
                Res::Read(r, room.len())
            }
            Deed::Check(b, max) => Res::Check(mqttbytes::check(b.iter(), *max).map(|h| h.frame_length())),
            Deed::Write(p) => {
                let r = write_buf(p, room);
                Res::Write(r, room.to_vec())
            }
            Deed::Topic(t, f) => Res::Topic([
                mqttbytes::matches(t, f), mqttbytes::valid_filter(f), mqttbytes::valid_topic(t), mqttbytes::has_wildcards(f),
            ]),
        }
    }
}

/// Deeds of all kinds: one of each type read and written, and each way to fail.
fn deeds(r: &mut Rng, ver: i64) -> Vec<(String, Deed)> {
    let mut l: Vec<(String, Deed)> = Vec::new();
    let small = |r: &mut Rng, t: &str| {
        let mut p = packet(r, ver, t);
        for _ in 0..6 {
            let q = packet(r, ver, t);
            if q.dump().len() < p.dump().len() {
                p = q;
            }
        }
        p
    };
    for t in TYPES {
        let p = small(r, t);
        l.push((format!("read {}", t), Deed::Read(ver, encode(r, ver, &p).0, NOMAX)));
        let p = small(r, t);
        l.push((format!("write {}", t), Deed::Write(from_json(ver, &p, 0))));
    }
    let mut p = small(r, "Publish");
    p.set("qos", i(1));
    p.set("pkid", i(0));
    l.push(("write refused".into(), Deed::Write(from_json(ver, &p, 0))));
    let mut bad = |w: &str, b: &[u8], max: usize| l.push((format!("read {}", w), Deed::Read(ver, b.to_vec(), max)));
    bad("unknown type", &[0xf0, 0], NOMAX);
    bad("nothing", &[], NOMAX);
    bad("one byte", &[0x30], NOMAX);
    bad("incomplete", &[0x30, 9, 0, 1], NOMAX);
    bad("length without end", &[0x30, 0x80], NOMAX);
    bad("bad length", &[0x30, 0xff, 0xff, 0xff, 0xff, 1], NOMAX);
    bad("too large", &[0x30, 9, 0, 1], 8);
    bad("empty body", &[0x30, 0], NOMAX);
    bad("cut text", &[0x30, 3, 0, 9, b'a'], NOMAX);
    bad("bad text", &[0x30, 3, 0, 1, 0xff], NOMAX);
    bad("bad qos", &[0x36, 4, 0, 1, b'a', 0], NOMAX);
    bad("zero identifier", &[0x32, 6, 0, 1, b'a', 0, 0, 0], NOMAX);
    bad("bad level", &[0x10, 12, 0, 4, 77, 81, 84, 84, 9, 2, 0, 0, 0, 0], NOMAX);
    bad("bad name", &[0x10, 12, 0, 4, 77, 81, 84, 85, 4, 2, 0, 0, 0, 0], NOMAX);
    bad("no filters", &[0x82, 2, 0, 1], NOMAX);
    bad("bad code", &[0x20, 2, 0, 77], NOMAX);
    bad("ping with a body", &[0xc0, 2, 0, 77], NOMAX);
    if ver == 5 {
        bad("bad property", &[0x20, 5, 0, 0, 2, 99, 1], NOMAX);
        bad("property twice", &[0x20, 7, 0, 0, 4, 37, 1, 37, 1], NOMAX);
        bad("section too long", &[0x20, 5, 0, 0, 9, 37, 1], NOMAX);
        bad("section without end", &[0x20, 4, 0, 0, 0x80, 0x80], NOMAX);
    }
    for (t, f) in [("a/b/c", "a/+/c"), ("a/b", "a/#/b"), ("$SYS/a", "#"), ("x", "y"), ("a+", "")] {
        l.push((format!("topic {} {}", t, f), Deed::Topic(t.into(), f.into())));
    }
    l.push(("check frame".into(), Deed::Check(vec![0xc0, 0], NOMAX)));
    l.push(("check incomplete".into(), Deed::Check(vec![0x30, 9, 0], NOMAX)));
    l.push(("check too large".into(), Deed::Check(vec![0x30, 9, 0], 1)));
    l
}

/// idx: which deed (of either version) is done over and over; then others follow
/// runs of it of every length; then threads do it and one like it at once.
pub fn soak(w: &Watch, idx: usize, r: &mut Rng, out: Sink) {
    let ver = if idx % 2 == 0 { 4 } else { 5 };
    let l = deeds(r, ver);
    let (name, deed) = &l[(idx / 2) % l.len()];
    let thorough = idx >= 2 * l.len();
    let base = o(vec![("k", s("pure")), ("what", o(vec![("call", s("soak")), ("ver", i(ver as usize)), ("of", s(name))]))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("outs", J::A(vec![crash("abort")]));
        b
    });
    let mut room = BytesMut::with_capacity(1 << 16);
    let first = deed.once(&mut room);
    let mut bad: Option<String> = None;
    // over and over
    let times = if thorough { 1_100_000 } else { 66_000 };
    for n in 1..times {
        if deed.once(&mut room) != first {
            bad = Some(format!("{} differs after {} times", name, n));
            break;
        }
        tick();
    }
    // runs of every length, then something else
    let others: Vec<usize> = (0..4).map(|_| r.below(l.len())).chain(
        ["read PingReq", "read Publish", "write Publish", "check frame"].iter().map(|n| l.iter().position(|x| x.0 == *n).unwrap())).collect();
    let want: Vec<Res> = others.iter().map(|k| l[*k].1.once(&mut room)).collect();
    let mut ns: Vec<usize> = (1..if thorough { 3000 } else { 1030 }).collect();
    ns.extend([4095, 4096, 4097, 65534, 65535, 65536, 65537]);
    for n in ns {
        if bad.is_some() {
            break;
        }
        for _ in 0..n {
            deed.once(&mut room);
        }
        let k = n % others.len();
        if l[others[k]].1.once(&mut room) != want[k] {
            bad = Some(format!("{} differs behind {} times {}", l[others[k]].0, n, name));
        }
        tick();
    }
    idle();
    // the same by many at once, each its own
    if bad.is_none() {
        let th = 8;
        let bar = std::sync::Arc::new(std::sync::Barrier::new(th));
        let hs: Vec<_> = (0..th).map(|x| {
            let mut r = Rng::new(0x50a4 + (idx * th + x) as u64);
            let (bar, name, k) = (bar.clone(), name.clone(), (idx / 2) % l.len());
            let mine = deeds(&mut r, ver);
            std::thread::spawn(move || {
                // some of them something else
                let (name, deed) = if x % 4 == 3 { let l = &mine[(k * 7 + x * 5) % mine.len()]; (l.0.clone(), &l.1) } else { (name, &mine[k].1) };
                let mut room = BytesMut::with_capacity(1 << 16);
                let first = deed.once(&mut room);
                bar.wait();
                for n in 0..(if thorough { 2_000_000 } else { 150_000 }) {
                    if deed.once(&mut room) != first {
                        return Some(format!("{} by thread {} differs after {} times", name, x, n));
                    }
                }
                None
            })
        }).collect();
        for h in hs {
            bad = h.join().expect("harness: thread").or(bad);
        }
    }
    let mut rec = base;
    let same = o(vec![("r", s("ok")), ("n", i(0))]);
    let mut outs = vec![same];
    if let Some(b) = bad {
        outs.push(o(vec![("r", s("differs")), ("how", s(&b))]));
    }
    rec.set("outs", J::A(outs));
    out(rec);
}
