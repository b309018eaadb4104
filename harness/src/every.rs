//! Every character there is: in texts given to the topic functions (`uni`) and
//! in every text field of every packet (`chars`). NUL, which no text may
//! contain, is left out.
use crate::gen::*;
use crate::json::*;
use crate::map::*;
use crate::obs::*;
use crate::rng::Rng;
use crate::suites::{long_fields, with_field, Sink};
use bytes::BytesMut;
use mqttbytes::{has_wildcards, matches, valid_filter, valid_topic};

const NOMAX: usize = usize::MAX;

/// [start, how many, value] for stretches of code points.
struct Runs {
    l: Vec<(u32, u32, usize)>,
}
impl Runs {
    fn add(&mut self, from: u32, n: u32, v: usize) {
        if let Some((st, c, x)) = self.l.last_mut() {
            if *st + *c == from && *x == v {
                *c += n;
                return;
            }
        }
        self.l.push((from, n, v));
    }
    fn json(&self) -> J {
        J::A(self.l.iter().map(|(a, c, v)| J::A(vec![i(*a as usize), i(*c as usize), i(*v)])).collect())
    }
}

// ----------------------------------------------------------------- topics --

const BEFORE: [&str; 7] = ["", "a", "/", "a/", "+", "#", "$"];
const BEHIND: [&str; 8] = ["", "a", "/", "/a", "+", "#", "/#", "/+"];
const TOPICS: [(&str, &str); 8] = [("", ""), ("a", ""), ("", "a"), ("a/", ""), ("", "/a"), ("a/", "/b"), ("$", ""), ("a/b", "")];
const FIXED: [&str; 13] = ["+", "#", "a", "a/+", "+/a", "+/+", "a/#", "+/#", "a/+/b", "a/b", "/", "/+", "a/"];
pub const UNI: usize = 7 * 8 + 8 * (8 + 13);

pub fn uni(w: &Watch, idx: usize, out: Sink) {
    let k = idx % UNI;
    let pair = |x: (&str, &str)| J::A(vec![y(x.0.as_bytes()), y(x.1.as_bytes())]);
    let (what, t, f): (_, _, Vec<&str>) = if k < 56 {
        ("v", (BEFORE[k / 8], BEHIND[k % 8]), vec![])
    } else {
        let k = k - 56;
        let (t, f) = (TOPICS[k / 21], k % 21);
        ("m", t, if f < 8 { vec![TOPICS[f].0, TOPICS[f].1] } else { vec![FIXED[f - 8]] })
    };
    let base = o(vec![
        ("k", s("uni")), ("what", s(what)), ("t", pair(t)),
        ("f", J::A(f.iter().map(|x| y(x.as_bytes())).collect())),
    ]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("runs", J::A(vec![]));
        b
    });
    let mut rs = Runs { l: Vec::new() };
    let (mut a, mut b) = (String::new(), String::new());
    for c in 1..=0x10ffffu32 {
        let Some(ch) = char::from_u32(c) else { continue };
        a.clear();
        a.push_str(t.0);
        a.push(ch);
        a.push_str(t.1);
        b.clear();
        for (n, x) in f.iter().enumerate() {
            b.push_str(x);
            if n == 0 && f.len() == 2 {
                b.push(ch);
            }
        }
        let v = guard(|| {
            if what == "v" {
                has_wildcards(&a) as usize + 2 * valid_topic(&a) as usize + 4 * valid_filter(&a) as usize
            } else {
                matches(&a, &b) as usize
            }
        });
        rs.add(c, 1, v.unwrap_or(8));
    }
    let mut rec = base;
    rec.set("runs", rs.json());
    out(rec);
}

// ---------------------------------------------------------------- packets --

/// The characters that stand alone, and those that come 64 at a time.
fn alone() -> impl Iterator<Item = u32> {
    (1..0x3000u32).chain(0xe000..0x10000).filter(|c| *c != 35 && *c != 43)
}
fn together() -> impl Iterator<Item = u32> {
    (0x3000..0xd800u32).step_by(64).chain((0x10000..0x110000).step_by(64))
}
fn text(c: u32, n: u32) -> Vec<u8> {
    (c..c + n).map(|x| char::from_u32(x).expect("harness: character")).collect::<String>().into_bytes()
}

struct Form {
    len: usize,
    first: Vec<u8>,
    at: usize,
    frame: Vec<u8>,
    fat: usize,
}

pub fn chars(w: &Watch, idx: usize, of: i64, out: Sink) {
    let fields: Vec<_> = long_fields().into_iter().filter(|f| f.0 == of).collect();
    let (ver, place, field) = fields[idx % fields.len()];
    let make = |x: Vec<u8>| with_field(&mut Rng::new(79), ver, place, field, x);
    let mut forms: Vec<Form> = Vec::new();
    let mut crashed = false;
    let reps: Vec<(u32, u32, u32)> = vec![(0x71, 0x66, 1), (0x3c0, 0x5d0, 1), (0x20ac, 0xfb00, 1), (0x4e00, 0xa000, 64), (0x1f600, 0x2a080, 64)];
    let base = o(vec![
        ("k", s("chars")), ("ver", i(ver as usize)), ("what", s(&format!("v{} {} {}", ver, place, field))),
        ("ps", J::A(reps.iter().map(|x| make(text(x.0, x.2))).collect())),
    ]);
    w.about(idx, || {
        let mut b = base.clone();
        for k in ["fs", "ws", "wrote1", "back1", "theirs1", "wrote64", "back64", "theirs64"] {
            b.set(k, J::A(vec![]));
        }
        b.set("crashed", J::B(true));
        b
    });
    for (c, _, n) in &reps {
        let (x, other) = (text(*c, *n), vec![b'~'; text(*c, *n).len()]);
        let at = |a: &[u8], b: &[u8]| a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len());
        let written = |x: &[u8], crashed: &mut bool| {
            let mut b = BytesMut::new();
            *crashed |= write_buf(&from_json(ver, &make(x.to_vec()), 0), &mut b).is_none();
            b.to_vec()
        };
        let (first, second) = (written(&x, &mut crashed), written(&other, &mut crashed));
        let frame = encode(&mut Rng::new(1), ver, &make(x.clone())).0;
        let fother = encode(&mut Rng::new(1), ver, &make(other)).0;
        forms.push(Form { len: x.len(), at: at(&first, &second), fat: at(&frame, &fother), first, frame });
    }
    let ok = || Runs { l: Vec::new() };
    let mut l: Vec<Runs> = (0..6).map(|_| ok()).collect();
    let mut one = |c: u32, n: u32, l: &mut [Runs]| {
        let x = text(c, n);
        let f = forms.iter().find(|f| f.len == x.len()).expect("harness: form");
        let put = |b: &[u8], at: usize| {
            let mut b = b.to_vec();
            if at + x.len() <= b.len() {
                b[at..at + x.len()].copy_from_slice(&x);
            }
            b
        };
        let p = make(x.clone());
        let pk = from_json(ver, &p, 0);
        let mut b = BytesMut::new();
        let ret = write_buf(&pk, &mut b);
        crashed |= ret.is_none();
        if b[..] == put(&f.first, f.at)[..] {
            l[0].add(c, n, 0);
        }
        let back = read_buf(ver, &mut b, NOMAX);
        crashed |= back.is_none();
        if matches!(&back, Some(Ok(q)) if to_json(q) == p) && b.is_empty() {
            l[1].add(c, n, 0);
        }
        let mut b = buffer(&put(&f.frame, f.fat));
        let theirs = read_buf(ver, &mut b, NOMAX);
        crashed |= theirs.is_none();
        if matches!(&theirs, Some(Ok(q)) if to_json(q) == p) && b.is_empty() {
            l[2].add(c, n, 0);
        }
    };
    for c in alone() {
        one(c, 1, &mut l[..3]);
    }
    for c in together() {
        one(c, 64, &mut l[3..]);
    }
    let mut rec = base;
    rec.set("ws", J::A(forms.iter().map(|f| y(&f.first)).collect()));
    rec.set("fs", J::A(forms.iter().map(|f| y(&f.frame)).collect()));
    for (k, n) in ["wrote1", "back1", "theirs1", "wrote64", "back64", "theirs64"].iter().enumerate() {
        rec.set(n, l[k].json());
    }
    rec.set("crashed", J::B(crashed));
    out(rec);
}
