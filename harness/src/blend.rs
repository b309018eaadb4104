//! Packets whose fields take their values from short lists, so chosen that of
//! any three fields every three values occur together (a covering array of
//! strength three); further cases draw the values at random.
use crate::gen::*;
use crate::json::*;
use crate::rng::Rng;

#[derive(Clone)]
enum What {
    Num(&'static str, Vec<usize>),
    Flag(&'static str),
    Text(&'static str, Vec<Vec<u8>>),
    /// names, as of codes and reasons
    Name(&'static str, Vec<&'static str>),
    /// of the properties of the packet, or of its will
    Prop(bool, &'static str, Vec<Vec<J>>),
    Login,
    /// how many elements the list has
    Count(usize),
}
use What::*;

struct Shape {
    t: &'static str,
    /// where the factors of a will, and of each element of the list, belong
    f: Vec<(u8, What)>,
    will: bool,
}

const PACKET: u8 = 0;
const WILL: u8 = 1;
// 10, 11, 12: elements of the list

fn texts(empty: bool) -> Vec<Vec<u8>> {
    let mut l = vec![b"a".to_vec(), "é/𝄞".as_bytes().to_vec(), vec![b'q'; 130]];
    if empty {
        l.push(vec![]);
    }
    l
}
fn pair(k: &str, v: &str) -> J {
    let mut b = vec![(k.len() >> 8) as u8, k.len() as u8];
    b.extend_from_slice(k.as_bytes());
    b.extend_from_slice(v.as_bytes());
    J::Y(b)
}
fn values(place: &str, id: u8, ty: Ty) -> Vec<Vec<J>> {
    let one = |l: Vec<Vec<u8>>| l.into_iter().map(|x| vec![J::Y(x)]).collect::<Vec<_>>();
    let mut l = match ty {
        Ty::U8 => one(vec![vec![0], vec![1]]),
        Ty::U16 => {
            let mut l = vec![vec![0, 1], vec![1, 0], vec![255, 255]];
            if !matches!(id, 33 | 35) {
                l.push(vec![0, 0]);
            }
            one(l)
        }
        Ty::U32 => {
            let mut l = vec![vec![0, 0, 0, 1], vec![0, 1, 0, 0], vec![255; 4]];
            if id != 39 {
                l.push(vec![0; 4]);
            }
            one(l)
        }
        Ty::Var => {
            let n = |k: usize| J::A(vec![i(k)]);
            let mut l = vec![vec![n(1)], vec![n(128)], vec![n(16384)], vec![n(268435455)]];
            if place == "Publish" {
                l.push(vec![n(1), n(1)]);
                l.push(vec![n(300), n(2097152), n(7)]);
            }
            l
        }
        Ty::Text | Ty::Data => one(texts(true)),
        Ty::Pair => vec![
            vec![pair("a", "a")],
            vec![pair("", "")],
            vec![pair("k", "v"), pair("k", "w")],
            vec![pair("k", "v"), pair("k", "v")],
            vec![pair("b", ""), pair("a", "é"), pair("", "x")],
        ],
    };
    l.insert(0, vec![]);
    l
}

fn shapes(ver: i64) -> Vec<Shape> {
    let mut l = Vec::new();
    let props = |f: &mut Vec<(u8, What)>, place: &'static str, will: bool| {
        if ver == 5 {
            for id in allowed(place) {
                let (_, name, ty) = prop_by_id(*id).unwrap();
                f.push((PACKET, Prop(will, name, values(place, *id, ty))));
            }
        }
    };
    let ids = || vec![1usize, 255, 256, 65535];
    for will in [false, true] {
        let mut f = vec![
            (PACKET, Num("ka", vec![0, 1, 256, 65535])),
            (PACKET, Text("id", texts(true))),
            (PACKET, Flag("clean")),
            (PACKET, Login),
        ];
        if will {
            f.push((WILL, Text("topic", texts(false))));
            f.push((WILL, Text("msg", texts(true))));
            f.push((WILL, Num("qos", vec![0, 1, 2])));
            f.push((WILL, Flag("retain")));
            props(&mut f, "Will", true);
        }
        props(&mut f, "Connect", false);
        l.push(Shape { t: "Connect", f, will });
    }
    for t in &TYPES[1..] {
        let mut f: Vec<(u8, What)> = Vec::new();
        let names = || codes(ver, t).iter().map(|x| x.0).collect::<Vec<_>>();
        match *t {
            "ConnAck" => {
                f.push((PACKET, Flag("sp")));
                f.push((PACKET, Name("code", names())));
            }
            "Publish" => {
                f.push((PACKET, Num("qos", vec![0, 1, 2])));
                f.push((PACKET, Flag("dup")));
                f.push((PACKET, Flag("retain")));
                // without a topic there is an alias
                f.push((PACKET, Text("topic", texts(ver == 5))));
                f.push((PACKET, Num("pkid", ids())));
                let mut p = texts(true);
                p.push(vec![0]);
                f.push((PACKET, Text("payload", p)));
            }
            "PubAck" | "PubRec" | "PubRel" | "PubComp" => {
                f.push((PACKET, Num("pkid", ids())));
                if ver == 5 {
                    f.push((PACKET, Name("reason", names())));
                }
            }
            "Subscribe" | "Unsubscribe" => {
                f.push((PACKET, Num("pkid", ids())));
                f.push((PACKET, Count(3)));
                for k in 10..13 {
                    let mut p = texts(false);
                    p.push(b"+/#".to_vec());
                    f.push((k, Text("path", p)));
                    if *t == "Subscribe" {
                        f.push((k, Num("qos", vec![0, 1, 2])));
                        if ver == 5 {
                            f.push((k, Flag("nl")));
                            f.push((k, Flag("rap")));
                            f.push((k, Name("rh", vec!["OnEverySubscribe", "OnNewSubscribe", "Never"])));
                        }
                    }
                }
            }
            "SubAck" | "UnsubAck" => {
                f.push((PACKET, Num("pkid", ids())));
                if !(ver == 4 && *t == "UnsubAck") {
                    f.push((PACKET, Count(3)));
                    for k in 10..13 {
                        f.push((k, Name("code", names())));
                    }
                }
            }
            "Disconnect" if ver == 5 => f.push((PACKET, Name("reason", names()))),
            _ => {}
        }
        if !f.is_empty() {
            props(&mut f, t, false);
            l.push(Shape { t, f, will: false });
        }
    }
    l
}

fn levels(w: &What) -> usize {
    match w {
        Num(_, l) => l.len(),
        Flag(_) => 2,
        Text(_, l) => l.len(),
        Name(_, l) => l.len(),
        Prop(_, _, l) => l.len(),
        Login => 5,
        Count(n) => *n,
    }
}

/// Rows so that of any three factors all values occur together.
fn rows(n: &[usize]) -> Vec<Vec<u8>> {
    let k = n.len();
    let mut r = Rng::new(11);
    let full = |r: &mut Rng| n.iter().map(|x| r.below(*x) as u8).collect::<Vec<u8>>();
    if k <= 3 {
        let mut l: Vec<Vec<u8>> = vec![vec![]];
        for x in n {
            l = l.into_iter().flat_map(|a| (0..*x).map(move |v| { let mut b = a.clone(); b.push(v as u8); b })).collect();
        }
        return l;
    }
    // where the triple of factors (a, b, c), a < b < c, starts
    let mut at = vec![0usize; k * k * k];
    let mut triples = Vec::new();
    let mut total = 0;
    for a in 0..k {
        for b in a + 1..k {
            for c in b + 1..k {
                at[(a * k + b) * k + c] = total;
                triples.push((a, b, c, total));
                total += n[a] * n[b] * n[c];
            }
        }
    }
    let bit = |a: usize, b: usize, c: usize, v: &[u8]| at[(a * k + b) * k + c] + (v[a] as usize * n[b] + v[b] as usize) * n[c] + v[c] as usize;
    let mut seen = vec![false; total];
    let mut out = Vec::new();
    let mut next = 0;
    loop {
        while next < total && seen[next] {
            next += 1;
        }
        if next == total {
            return out;
        }
        let (a, b, c, base) = *triples.iter().rev().find(|t| t.3 <= next).unwrap();
        let off = next - base;
        let mut v = full(&mut r);
        v[a] = (off / (n[b] * n[c])) as u8;
        v[b] = (off / n[c] % n[b]) as u8;
        v[c] = (off % n[c]) as u8;
        let mut set = vec![a, b, c];
        let mut rest: Vec<usize> = (0..k).filter(|x| ![a, b, c].contains(x)).collect();
        r.shuffle(&mut rest);
        for x in rest {
            let mut best = (0, 0u8);
            let from = r.below(n[x]);
            for d in 0..n[x] {
                v[x] = ((from + d) % n[x]) as u8;
                let mut gain = 1;
                for p in 0..set.len() {
                    for q in p + 1..set.len() {
                        let mut t = [set[p], set[q], x];
                        t.sort();
                        gain += !seen[bit(t[0], t[1], t[2], &v)] as usize;
                    }
                }
                if gain > best.0 {
                    best = (gain, v[x]);
                }
            }
            v[x] = best.1;
            set.push(x);
        }
        for t in &triples {
            seen[bit(t.0, t.1, t.2, &v)] = true;
        }
        out.push(v);
    }
}

fn build(ver: i64, h: &Shape, v: &[u8]) -> J {
    let mut top: Vec<(&str, J)> = vec![("t", s(h.t))];
    let mut will: Vec<(&str, J)> = Vec::new();
    let (mut props, mut wprops) = (Vec::new(), Vec::new());
    let mut list: Vec<Vec<(&str, J)>> = vec![vec![]; 3];
    let mut count = 3;
    for ((place, w), x) in h.f.iter().zip(v) {
        let x = *x as usize;
        let (key, val) = match w {
            Num(k, l) => (*k, i(l[x])),
            Flag(k) => (*k, J::B(x == 1)),
            Text(k, l) => (*k, J::Y(l[x].clone())),
            Name(k, l) => (*k, s(l[x])),
            Login => {
                let l = |u: &[u8], p: &[u8]| vec![o(vec![("u", y(u)), ("p", y(p))])];
                ("login", J::A(match x {
                    0 => vec![],
                    1 => l(b"a", b""),
                    2 if ver == 5 => l(b"", b"a"),
                    2 => l(b"u", b"p"),
                    3 => l(&[b'q'; 130], "é/𝄞".as_bytes()),
                    _ => l(b"a", b"a"),
                }))
            }
            Count(_) => {
                count = x + 1;
                continue;
            }
            Prop(of_will, name, l) => {
                let to = if *of_will { &mut wprops } else { &mut props };
                for e in &l[x] {
                    to.push(J::A(vec![s(name), e.clone()]));
                }
                continue;
            }
        };
        match *place {
            PACKET => top.push((key, val)),
            WILL => will.push((key, val)),
            k => list[k as usize - 10].push((key, val)),
        }
    }
    list.truncate(count);
    let has = |l: &Vec<J>, n: &str| l.iter().any(|p| p.arr()[0].str() == n);
    if has(&props, "AuthenticationData") && !has(&props, "AuthenticationMethod") {
        props.retain(|p| p.arr()[0].str() != "AuthenticationData");
    }
    if h.t == "Publish" && ver == 5 && !has(&props, "TopicAlias") && top.iter().any(|x| x.0 == "topic" && x.1.bytes().is_empty()) {
        let at = props.iter().position(|p| prop(p.arr()[0].str()).0 > 35).unwrap_or(props.len());
        props.insert(at, J::A(vec![s("TopicAlias"), y(&[0, 1])]));
    }
    match h.t {
        "Connect" => {
            let w = if h.will {
                will.push(("props", J::A(wprops)));
                vec![o(will)]
            } else {
                vec![]
            };
            let get = |k: &str| top.iter().find(|x| x.0 == k).unwrap().1.clone();
            o(vec![("t", s(h.t)), ("proto", s(if ver == 5 { "V5" } else { "V4" })), ("ka", get("ka")), ("id", get("id")), ("clean", get("clean")),
                   ("will", J::A(w)), ("login", get("login")), ("props", J::A(props))])
        }
        t => {
            match t {
                "Subscribe" => {
                    let mut l = Vec::new();
                    for e in list {
                        let get = |k: &str, d: J| e.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or(d);
                        l.push(o(vec![("path", get("path", i(0))), ("qos", get("qos", i(0))), ("nl", get("nl", J::B(false))), ("rap", get("rap", J::B(false))),
                                      ("rh", get("rh", s("OnEverySubscribe")))]));
                    }
                    top.push(("filters", J::A(l)));
                }
                "Unsubscribe" => top.push(("topics", J::A(list.into_iter().map(|e| e[0].1.clone()).collect()))),
                "SubAck" => top.push(("codes", J::A(list.into_iter().map(|e| e[0].1.clone()).collect()))),
                "UnsubAck" => top.push(("codes", J::A(list.into_iter().filter(|e| !e.is_empty()).map(|e| e[0].1.clone()).collect()))),
                "PubAck" | "PubRec" | "PubRel" | "PubComp" if ver == 4 => top.push(("reason", s("Success"))),
                _ => {}
            }
            top.push(("props", J::A(props)));
            let mut p = o(top);
            if t == "Publish" && p.get("qos").int() == 0 {
                p.set("pkid", i(0));
                p.set("dup", J::B(false));
            }
            p
        }
    }
}

pub struct Blend {
    ver: i64,
    shapes: Vec<Shape>,
    rows: Vec<(usize, Vec<u8>)>,
}

impl Blend {
    pub fn new(ver: i64) -> Blend {
        let shapes = shapes(ver);
        let mut l = Vec::new();
        for (k, h) in shapes.iter().enumerate() {
            let n: Vec<usize> = h.f.iter().map(|x| levels(&x.1)).collect();
            l.extend(rows(&n).into_iter().map(|v| (k, v)));
        }
        // so that every slice has some of each
        Rng::new(5).shuffle(&mut l);
        Blend { ver, shapes, rows: l }
    }
    pub fn size(&self) -> usize {
        self.rows.len()
    }
    /// The packet of row `k`; behind the last row, one at random.
    pub fn packet(&self, r: &mut Rng, k: usize) -> (&'static str, J) {
        let (h, v) = match self.rows.get(k) {
            Some((h, v)) => (&self.shapes[*h], v.clone()),
            None => {
                // the row decides how likely a type is: the wider ones more often
                let h = &self.shapes[r.pick(&self.rows).0];
                (h, h.f.iter().map(|x| r.below(levels(&x.1)) as u8).collect())
            }
        };
        (h.t, build(self.ver, h, &v))
    }
}
