//! Making a call of the library and noting everything observable about it.
use crate::fault::frame_len;
use crate::json::*;
use crate::map::*;
use bytes::{BufMut, BytesMut};
use mqttbytes::{matches, valid_filter, valid_topic, has_wildcards};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ---- survival: panics are caught; a hang or an abort ends the process, and
// ---- what was being done is found in the progress file

pub struct Watch {
    file: Option<File>,
}

static STARTED: AtomicU64 = AtomicU64::new(0); // ms since start + 1, 0 = idle
pub const HANG_MS: u64 = 20_000;

impl Watch {
    pub fn new(path: Option<&str>) -> Watch {
        let t0 = Instant::now();
        BASE.get_or_init(|| t0);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = STARTED.load(Ordering::Relaxed);
            let now = t0.elapsed().as_millis() as u64 + 1;
            if s != 0 && now > s + HANG_MS {
                std::process::exit(77);
            }
        });
        Watch { file: path.map(|p| File::create(p).expect("harness: progress file")) }
    }
    /// Notes what is about to be called; `rec` is the record to use should
    /// the call not come back.
    pub fn about(&self, idx: usize, rec: impl FnOnce() -> J) {
        if let Some(f) = &self.file {
            let t = format!("{}\n{}\n", idx, rec().dump());
            f.write_all_at(t.as_bytes(), 0).unwrap();
            f.set_len(t.len() as u64).unwrap();
        }
    }
    pub fn raw(&self, bytes: &[u8]) {
        if let Some(f) = &self.file {
            f.write_all_at(bytes, 0).unwrap();
        }
    }
}

static BASE: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

pub fn tick() {
    let t0 = BASE.get().unwrap();
    STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
}
pub fn idle() {
    STARTED.store(0, Ordering::Relaxed);
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    tick();
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    idle();
    r
}

// ---- outcomes

pub fn crash(r: &str) -> J {
    o(vec![("r", s(r))])
}
pub fn out_read(r: &Option<Result<Pk, mqttbytes::Error>>) -> J {
    match r {
        None => crash("panic"),
        Some(Err(e)) => err_json(e),
        Some(Ok(p)) => o(vec![("r", s("pkt")), ("p", to_json(p))]),
    }
}
pub fn out_num(r: &Option<Result<usize, mqttbytes::Error>>) -> J {
    match r {
        None => crash("panic"),
        Some(Err(e)) => err_json(e),
        Some(Ok(n)) => o(vec![("r", s("ok")), ("n", i(*n))]),
    }
}

thread_local! {
    static LAYOUT: std::cell::Cell<usize> = std::cell::Cell::new(0);
    static KEPT: std::cell::RefCell<Vec<BytesMut>> = std::cell::RefCell::new(Vec::new());
}
/// How buffers lie in memory from now on.
pub fn layout(n: usize) {
    LAYOUT.with(|l| l.set(n));
    KEPT.with(|k| k.borrow_mut().clear());
}

/// A buffer that holds `b`. How it lies in memory must not matter: with no room
/// behind, with much, behind bytes that were consumed, with its memory
/// shared with what comes before or behind it.
pub fn buffer(b: &[u8]) -> BytesMut {
    let n = LAYOUT.with(|l| l.get());
    let keep = |x| {
        KEPT.with(|k| {
            let mut k = k.borrow_mut();
            if k.len() > 500 {
                k.clear();
            }
            k.push(x)
        })
    };
    let odd = n / 6 % 40 + 1;
    match n % 6 {
        1 => {
            let mut x = BytesMut::with_capacity(b.len() + [1000, 9000, 70_000][n / 6 % 3]);
            x.extend_from_slice(b);
            x
        }
        2 => {
            let mut x = BytesMut::with_capacity(b.len() + odd);
            x.resize(odd, 0x30);
            x.extend_from_slice(b);
            let _ = x.split_to(odd);
            x
        }
        3 => {
            let mut x = BytesMut::with_capacity(b.len() + 2 * odd);
            x.extend_from_slice(b);
            x.resize(b.len() + odd, 0xc0);
            keep(x.split_off(b.len()));
            x
        }
        4 => {
            let mut x = BytesMut::with_capacity(b.len() + 2 * odd);
            x.resize(odd, 0xc0);
            x.extend_from_slice(b);
            keep(x.split_to(odd));
            x
        }
        5 => {
            let mut x = BytesMut::new();
            for c in b.chunks(7) {
                x.extend_from_slice(c);
            }
            x
        }
        _ => {
            let mut x = BytesMut::with_capacity(b.len());
            x.extend_from_slice(b);
            x
        }
    }
}

pub fn read_buf(ver: i64, b: &mut BytesMut, max: usize) -> Option<Result<Pk, mqttbytes::Error>> {
    guard(|| read(ver, b, max))
}

pub fn write_buf(p: &Pk, b: &mut BytesMut) -> Option<Result<usize, mqttbytes::Error>> {
    guard(|| write(p, b))
}

// ---- records

pub fn dec_rec(w: &Watch, idx: usize, ver: i64, bytes: &[u8], max: usize, extra: Vec<(&str, J)>) -> (J, Option<Pk>) {
    let mut f = vec![("k", s("dec")), ("ver", i(ver as usize)), ("s", y(bytes)), ("max", i(max))];
    f.extend(extra);
    let base = o(f);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("out", crash("abort"));
        b.set("left", i(0));
        b.set("tail", J::B(false));
        b
    });
    let mut b = buffer(bytes);
    let r = read_buf(ver, &mut b, max);
    let out = out_read(&r);
    let mut rec = base;
    rec.set("out", out.clone());
    rec.set("left", i(b.len()));
    rec.set("tail", J::B(bytes.ends_with(&b)));
    if let Some(n) = frame_len(bytes) {
        if n < bytes.len() {
            let mut b = buffer(&bytes[..n]);
            let alone = out_read(&read_buf(ver, &mut b, max));
            if alone != out {
                rec.set("alone", alone);
            }
        }
        // the packet's own parser
        if let Some(d) = guard(|| read_direct(ver, &bytes[..n])).unwrap_or(None).map(Some).or_else(|| {
            // a panic in it
            match guard(|| read_direct(ver, &bytes[..n])) {
                None => Some(None),
                Some(_) => None,
            }
        }) {
            let dir = out_read(&d);
            if dir != out {
                rec.set("dir", dir);
            }
        }
        if (1..15).any(|num| guard(|| read_as(ver, num, &bytes[..n])).is_none()) {
            rec.set("dir", crash("panic"));
        }
    }
    let pk = match r {
        Some(Ok(p)) => Some(p),
        _ => None,
    };
    (rec, pk)
}

pub fn enc_rec(w: &Watch, idx: usize, ver: i64, p: &J, pe: i64, pre: &[u8]) -> J {
    let pk = from_json(ver, p, pe);
    let base = o(vec![
        ("k", s("enc")), ("ver", i(ver as usize)), ("p", p.clone()), ("pe", i(pe as usize)), ("pre", y(pre)),
    ]);
    w.about(idx, || {
        let mut b = base.clone();
        for k in ["ret", "fret", "back"] {
            b.set(k, crash("abort"));
        }
        b.set("buf", y(&[]));
        b.set("fresh", y(&[]));
        b.set("own", J::I(-1));
        b.set("bleft", i(0));
        b
    });
    let mut b = buffer(pre);
    let ret = write_buf(&pk, &mut b);
    let mut f = BytesMut::new();
    let fret = write_buf(&pk, &mut f);
    let own = guard(|| own_len(&pk)).unwrap_or(None);
    let mut g = f.clone();
    let back = read_buf(ver, &mut g, usize::MAX);
    let mut rec = base;
    rec.set("ret", out_num(&ret));
    rec.set("buf", y(&b));
    rec.set("fret", out_num(&fret));
    rec.set("fresh", y(&f));
    rec.set("own", match own {
        Some(n) => i(n),
        None => J::I(-1),
    });
    rec.set("back", out_read(&back));
    rec.set("bleft", i(g.len()));
    rec
}

/// What was read, written and read again.
pub fn re_rec(w: &Watch, idx: usize, ver: i64, bytes: &[u8], pk: &Pk) -> J {
    let base = o(vec![("k", s("re")), ("ver", i(ver as usize)), ("s", y(bytes)), ("p", to_json(pk))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("w", crash("abort"));
        b.set("b1", y(&[]));
        b.set("back", crash("abort"));
        b.set("bleft", i(0));
        b.set("b2", y(&[]));
        b
    });
    let mut b1 = BytesMut::new();
    let r = write_buf(pk, &mut b1);
    let mut g = b1.clone();
    let back = read_buf(ver, &mut g, usize::MAX);
    let mut b2 = BytesMut::new();
    if let Some(Ok(q)) = &back {
        write_buf(q, &mut b2);
    }
    let mut rec = base;
    rec.set("w", out_num(&r));
    rec.set("b1", y(&b1));
    rec.set("back", out_read(&back));
    rec.set("bleft", i(g.len()));
    rec.set("b2", y(&b2));
    rec
}

pub fn hdr_rec(w: &Watch, idx: usize, bytes: &[u8], max: usize) -> J {
    let base = o(vec![("k", s("hdr")), ("s", y(bytes)), ("max", i(max))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("out", crash("abort"));
        b
    });
    let r = guard(|| mqttbytes::check(bytes.iter(), max).map(|h| h.frame_length()));
    let mut rec = base;
    rec.set("out", out_num(&r));
    rec
}

// ---- topics

fn tri(x: Option<bool>) -> J {
    J::I(match x {
        None => 2,
        Some(b) => b as i64,
    })
}

pub fn tv_rec(w: &Watch, idx: usize, ss: &[String]) -> J {
    let texts = J::A(ss.iter().map(|x| y(x.as_bytes())).collect());
    let base = o(vec![("k", s("tv")), ("ss", texts)]);
    w.about(idx, || {
        let mut b = base.clone();
        for k in ["hw", "vt", "vf"] {
            b.set(k, J::A(ss.iter().map(|_| J::I(2)).collect()));
        }
        b
    });
    let mut rec = base;
    rec.set("hw", J::A(ss.iter().map(|x| tri(guard(|| has_wildcards(x)))).collect()));
    rec.set("vt", J::A(ss.iter().map(|x| tri(guard(|| valid_topic(x)))).collect()));
    rec.set("vf", J::A(ss.iter().map(|x| tri(guard(|| valid_filter(x)))).collect()));
    rec
}

pub fn tm_rec(w: &Watch, idx: usize, ts: &[String], fs: &[String], cover: bool) -> J {
    let list = |l: &[String]| J::A(l.iter().map(|x| y(x.as_bytes())).collect());
    let base = o(vec![("k", s("tm")), ("ts", list(ts)), ("fs", list(fs))]);
    w.about(idx, || {
        let mut b = base.clone();
        b.set("m", J::A(ts.iter().map(|_| J::A(fs.iter().map(|_| J::I(2)).collect())).collect()));
        b.set("f", J::A(fs.iter().map(|_| J::A(fs.iter().map(|_| J::I(2)).collect())).collect()));
        b
    });
    let mat = |a: &[String], b: &[String]| {
        J::A(a.iter().map(|t| J::A(b.iter().map(|f| tri(guard(|| matches(t, f)))).collect())).collect())
    };
    let mut rec = base;
    rec.set("m", mat(ts, fs));
    if cover {
        rec.set("f", mat(fs, fs));
    }
    rec
}

#[allow(dead_code)]
pub fn put(b: &mut BytesMut, x: &[u8]) {
    b.put_slice(x);
}
