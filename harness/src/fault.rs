//! Faults planted in well-formed frames. What a faulty frame means is not
//! decided here but by the specification; this only aims.
use crate::gen::*;
use crate::rng::Rng;

/// The header size and the declared length of a frame (own computation).
pub fn header(f: &[u8]) -> Option<(usize, usize)> {
    let mut n = 0usize;
    for k in 0..4 {
        let b = *f.get(1 + k)? as usize;
        n += (b & 127) << (7 * k);
        if b < 128 {
            return Some((2 + k, n));
        }
    }
    None
}

/// How many bytes at the start of the buffer are a frame, if they are.
pub fn frame_len(f: &[u8]) -> Option<usize> {
    let (h, n) = header(f)?;
    if f.len() >= h + n {
        Some(h + n)
    } else {
        None
    }
}

/// The same type byte and body with a fresh length field.
pub fn rebody(f: &[u8], body: &[u8]) -> Vec<u8> {
    frame(f[0], body).0
}

const BAD_UTF8: [&[u8]; 22] = [
    &[0x80], &[0xbf], &[0xc0], &[0xc1], &[0xf5], &[0xff], &[0xfe], &[0xc3], &[0xe2], &[0xf0],
    &[0xc0, 0x80], &[0xc3, 0x28], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf], &[0xe2, 0x82], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf],
    &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x9f, 0x98], &[0xf8, 0x88, 0x80, 0x80],
];

fn unassigned_code(r: &mut Rng, ver: i64, t: &str) -> u8 {
    loop {
        let b = r.byte();
        if !codes(ver, t).iter().any(|c| c.1 == b) {
            return b;
        }
    }
}

pub struct Fault {
    pub s: Vec<u8>,
    pub max: usize,
    pub what: &'static str,
}

/// One defect that has a name.
pub fn single(r: &mut Rng, ver: i64, t: &str, f: &[u8], z: &Sites) -> Option<Fault> {
    let mut s = f.to_vec();
    let done = |s: Vec<u8>, what| Some(Fault { s, max: usize::MAX, what });
    let (h, n) = header(f)?;
    // sometimes a fault in the header, else at one of the sites
    if z.is_empty() || r.one_in(6) {
        return match r.below(4) {
            0 => {
                s[0] = (s[0] & 15) | if r.coin() { 0 } else { 0xf0 };
                done(s, "type")
            }
            1 => {
                let mut b = vec![f[0]];
                for _ in 0..4 {
                    b.push(0x80 | r.byte());
                }
                b.extend_from_slice(&f[h..]);
                done(b, "header")
            }
            2 if n > 0 => {
                let cut = r.range(h, f.len());
                Some(Fault { s: s[..cut].to_vec(), max: r.below(n), what: "header" })
            }
            _ if t == "Publish" => {
                s[0] |= 6;
                done(s, "qos")
            }
            _ => {
                s[0] = (s[0] & 15) | if r.coin() { 0 } else { 0xf0 };
                done(s, "type")
            }
        };
    }
    for _ in 0..20 {
        let (at, site) = r.pick(z).clone();
        match site {
            Site::Text(n) if n > 0 => {
                let bad = *r.pick(&BAD_UTF8);
                if bad.len() > n {
                    continue;
                }
                // incomplete sequences are invalid only at the end of the text
                let p = at + if r.coin() { n - bad.len() } else { r.below(n - bad.len() + 1) };
                s[p..p + bad.len()].copy_from_slice(bad);
                return done(s, "utf8");
            }
            Site::Level => {
                let b = r.byte();
                if b == 4 || b == 5 {
                    continue;
                }
                s[at] = b;
                return done(s, "level");
            }
            Site::Name if r.one_in(3) => {
                // another name, most of them of another length
                let mut n: Vec<u8> = match r.below(3) {
                    0 => r.pick(&["", "M", "MQT", "MQTT ", " MQTT", "MQTTT", "MQIsdp", "MQTT5", "MQTTv5", "MQTTMQTT", "mqtt", "TTQM", "AMQP", "HTTP/1.1"]).as_bytes().to_vec(),
                    1 => (0..r.below(40)).map(|_| r.range(0x20, 0x7e) as u8).collect(),
                    _ => [b"MQTT", &vec![b'T'; r.range(1, 300)][..]].concat(),
                };
                if n == b"MQTT" {
                    n.push(b'x');
                }
                let mut b = f[h..at - 2].to_vec();
                b.extend([(n.len() >> 8) as u8, n.len() as u8]);
                b.extend_from_slice(&n);
                b.extend_from_slice(&f[at + 4..]);
                return done(rebody(f, &b), "name");
            }
            Site::Name => {
                let k = at + r.below(4);
                let b = if r.coin() { s[k] ^ 0x20 } else { r.range(0x20, 0x7e) as u8 };
                if b == s[k] {
                    continue;
                }
                s[k] = b;
                return done(s, "name");
            }
            Site::Code => {
                s[at] = unassigned_code(r, ver, t);
                return done(s, "code");
            }
            Site::Pkid => {
                s[at] = 0;
                s[at + 1] = 0;
                return done(s, "pkid");
            }
            Site::Options => {
                if ver == 5 && r.coin() {
                    s[at] |= 0x30;
                } else {
                    s[at] |= 3;
                }
                return done(s, "options");
            }
            Site::Flags => {
                if s[at] & 4 != 0 {
                    s[at] |= 0x18;
                    return done(s, "willqos");
                }
                continue;
            }
            Site::PropId(id) => {
                let ty = prop_by_id(id).unwrap().2;
                let b = if r.coin() {
                    let same: Vec<u8> = PROPS.iter().filter(|p| p.2 == ty).map(|p| p.0).collect();
                    *r.pick(&same)
                } else {
                    let b = r.byte();
                    if prop_by_id(b).is_some() {
                        continue;
                    }
                    b
                };
                s[at] = b;
                return done(s, "property");
            }
            _ => continue,
        }
    }
    None
}

fn put_be(s: &mut [u8], at: usize, n: usize) {
    s[at] = (n >> 8) as u8;
    s[at + 1] = n as u8;
}

/// Some change of the frame, mostly one that breaks it.
pub fn mutate(r: &mut Rng, ver: i64, t: &str, f: &[u8], z: &Sites) -> Vec<u8> {
    let (h, n) = header(f).unwrap();
    let mut s = f.to_vec();
    match r.below(14) {
        // cut at the end, with the length field in agreement
        0 | 1 => {
            let k = if r.coin() { r.below(n + 1) } else { n.saturating_sub(r.range(1, 3)) };
            rebody(f, &f[h..h + k])
        }
        // wrong text or data length
        2 | 3 => {
            let l: Vec<_> = z.iter().filter(|(_, k)| matches!(k, Site::Text(_) | Site::Data(_))).collect();
            if l.is_empty() {
                return rebody(f, &f[h..h + r.below(n + 1)]);
            }
            let (at, k) = *r.pick(&l);
            let n = match k {
                Site::Text(n) | Site::Data(n) => *n,
                _ => 0,
            };
            let rest = s.len() - at;
            let m = match r.below(7) {
                0 => n + 1,
                1 => n.saturating_sub(1),
                2 => rest,
                3 => rest + 1,
                4 => 65535,
                5 => r.below(rest + 2),
                _ => 0,
            };
            put_be(&mut s, at - 2, m);
            s
        }
        // wrong property length
        4 | 5 | 6 => {
            let l: Vec<_> = z.iter().filter(|(_, k)| matches!(k, Site::PropLen(_, _))).collect();
            if l.is_empty() {
                return flip(r, s, h);
            }
            let (at, k) = r.pick(&l);
            let (size, n) = match k {
                Site::PropLen(a, b) => (*a, *b),
                _ => (0, 0),
            };
            let rest = f.len() - at - size;
            let mut v = Vec::new();
            match r.below(9) {
                0 => drop(put_var(&mut v, n + 1)),
                1 => drop(put_var(&mut v, n.saturating_sub(1))),
                2 => drop(put_var(&mut v, 0)),
                3 => drop(put_var(&mut v, rest)),
                4 => drop(put_var(&mut v, rest + 1)),
                5 => drop(put_var(&mut v, r.below(rest + 3))),
                6 => v = vec![0x80 | r.byte(), 0x80 | r.byte(), 0x80 | r.byte(), 0x80 | r.byte(), r.byte()],
                7 => v = vec![], // no property length at all
                _ => drop(put_var(&mut v, 268435455)),
            }
            let mut b = f[h..*at].to_vec();
            b.extend_from_slice(&v);
            b.extend_from_slice(&f[at + size..]);
            rebody(f, &b)
        }
        // a single-defect fault
        7 => match single(r, ver, t, f, z) {
            Some(x) => x.s,
            None => flip(r, s, h),
        },
        // cut at a site, exactly
        8 => {
            if z.is_empty() {
                return rebody(f, &[]);
            }
            let (at, k) = r.pick(z);
            let end = match k {
                Site::Text(n) | Site::Data(n) => {
                    if r.coin() {
                        at - r.below(3)
                    } else {
                        at + r.below(n + 1)
                    }
                }
                Site::Var(n) => at + r.below(n + 1),
                Site::PropLen(a, b) => at + r.below(a + b + 1),
                Site::PropId(_) => at + r.below(6),
                _ => at + r.below(2),
            };
            rebody(f, &f[h..end.clamp(h, f.len())])
        }
        // an identifier of more than four bytes
        9 => {
            let l: Vec<_> = z.iter().filter(|(_, k)| matches!(k, Site::Var(_))).collect();
            if l.is_empty() {
                return flip(r, s, h);
            }
            let (at, _) = *r.pick(&l);
            for k in 0..4 {
                if at + k < s.len() {
                    s[at + k] |= 0x80;
                }
            }
            s
        }
        // insert, delete
        10 => {
            let mut b = f[h..].to_vec();
            let k = r.below(b.len() + 1);
            b.insert(k, r.byte());
            rebody(f, &b)
        }
        11 => {
            let mut b = f[h..].to_vec();
            if !b.is_empty() {
                let k = r.below(b.len());
                b.remove(k);
            }
            rebody(f, &b)
        }
        // no body
        12 if r.one_in(3) => rebody(f, &[]),
        // the body under another type
        12 => {
            s[0] = (*r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0, 15]) << 4) | (s[0] & 15);
            s
        }
        _ => flip(r, s, h),
    }
}

/// A few bytes of the body (or the flags) changed.
fn flip(r: &mut Rng, mut s: Vec<u8>, h: usize) -> Vec<u8> {
    for _ in 0..r.range(1, 3) {
        if s.len() > h {
            let k = r.range(h, s.len() - 1);
            s[k] = match r.below(3) {
                0 => r.byte(),
                1 => s[k] ^ (1 << r.below(8)),
                _ => *r.pick(&[0, 1, 2, 3, 4, 11, 38, 31, 127, 128, 255]),
            };
        } else {
            s[0] ^= 1 << r.below(4);
        }
    }
    s
}
