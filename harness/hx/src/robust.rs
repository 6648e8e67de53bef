//! writers that fail, files that are damaged
use crate::common::*;
use std::io::{self, Cursor, Write};

fn refuse() -> io::Error {
    io::Error::from(io::ErrorKind::PermissionDenied)
}

/// A writer of which every call up to a bound does something else
struct Scripted {
    got: Vec<u8>,
    steps: u64,
    refused: bool,
}

impl Write for Scripted {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len();
        if self.steps > 0 && n > 0 {
            self.steps -= 1;
            match choose(7, "step") {
                0 => {}
                1 => n = 1,
                2 => n = (n + 1) / 2,
                3 => n = (n - 1).max(1),
                4 => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                5 => {
                    self.refused = true;
                    return Ok(0);
                }
                _ => {
                    self.refused = true;
                    return Err(refuse());
                }
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A writer with room for so many bytes, taking so many at a time
struct Room {
    got: Vec<u8>,
    room: usize,
    chunk: usize,
    zero: bool,
    refused: bool,
}

impl Write for Room {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = b.len().min(self.chunk).min(self.room);
        if n == 0 {
            self.refused = true;
            return if self.zero { Ok(0) } else { Err(refuse()) };
        }
        self.room -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn write_to<W: Write>(f: &BloomFilter, w: &mut W) -> bool {
    if param("specific", 0) == 1 {
        match f {
            BloomFilter::V1(b) => b.write(w).is_ok(),
            BloomFilter::V2(b) => b.write(w).is_ok(),
        }
    } else {
        f.write(w).is_ok()
    }
}

fn with_data(c: &Cfg) -> (BloomFilter, Vec<u8>, Lay) {
    let (mut v, l) = any_bytes(c, "bits", "count");
    // more attached data than any buffer holds
    v.extend((0..param("data", 0)).map(|i| i as u8));
    v.extend_from_slice(&bytes::<3>("data"));
    (load(&v), v, l)
}

fn judge(ok: bool, refused: bool, got: &[u8], v: &[u8], l: &Lay) {
    observe("ok", ok as u64);
    observe("received", got.len() as u64);
    if refused {
        check(!ok, "a write that was refused is not reported as a success");
        cover("refused");
    } else {
        check(ok, "a write that was accepted is reported as a success");
    }
    if ok {
        check(got.len() == v.len(), "success means every byte was received");
        check_all(got, v, l, true, true, "success means the bytes received are the filter");
        cover("written");
    }
}

pub fn c07_script() {
    let c = cfg();
    let (f, v, l) = with_data(&c);
    let mut w = Scripted { got: vec![], steps: param("steps", 4), refused: false };
    let ok = write_to(&f, &mut w);
    judge(ok, w.refused, &w.got, &v, &l);
}

pub fn c07_room() {
    let c = cfg();
    let (f, v, l) = with_data(&c);
    let chunk = [usize::MAX, 4096, 1000, 8193, 7][param("chunk", 0) as usize];
    let n = v.len();
    let pts = if n <= 400 { (0..=n).collect() } else { around(&[0, 8, 48, l.cache.1, l.bits.0, 4096, 8192, 16384, l.data, n], n + 1) };
    let room = pts[choose(pts.len() as u64, "room") as usize];
    let zero = choose(2, "zero") == 1;
    let mut w = Room { got: vec![], room, chunk, zero, refused: false };
    let ok = write_to(&f, &mut w);
    check(w.refused == (room < n), "all of the filter is offered to the writer");
    judge(ok, w.refused, &w.got, &v, &l);
}

/// some positions up to `n`, with their neighbours
fn around(p: &[usize], n: usize) -> Vec<usize> {
    let mut r = vec![];
    for x in p {
        for y in [x.wrapping_sub(1), *x, x + 1] {
            if y < n && !r.contains(&y) {
                r.push(y);
            }
        }
    }
    r
}

// ---- damaged files ----

fn both(v: &[u8]) -> (Option<BloomFilter>, bool) {
    let r = BloomFilter::from_reader(Cursor::new(v));
    let p = BloomFilter::partial_from_reader(Cursor::new(v));
    observe("full", r.is_ok() as u64);
    observe("partial", p.is_ok() as u64);
    if let (Ok(f), Ok(g)) = (&r, &p) {
        check(f.capacity() == g.capacity(), "both readers read the same");
        check(f.count_estimate() == g.count_estimate(), "both readers read the same");
        check(bytes_eq(f.data(), g.data()), "both readers read the same");
    }
    check(r.is_err() || p.is_ok(), "what is fully readable is partially readable");
    if let Ok(g) = &p {
        observe("size", g.size_in_bytes() as u64);
        observe("is full", g.is_full() as u64);
    }
    (r.ok(), p.is_err())
}

const SIZES: &[u64] = &[0, 1, 8, 63, 64, 65, 128, 129, 192, 300, 448, 520, 4096, 1 << 20, 1 << 32, (1 << 53) + 1, 1 << 61, 1 << 63, u64::MAX - 63, u64::MAX - 7, u64::MAX];

/// any bytes at all
pub fn c08_any() {
    let mut v = vec![0u8; param("len", 8) as usize];
    fill(&mut v, "file");
    let n = v.len();
    if n > 1 && param("ver", 0) != 0 {
        assume(v[0] == param("ver", 0) as u8);
    }
    if param("sizes", 0) == 1 {
        let o = if param("ver", 0) == 1 { 32 } else { 40 };
        let l = SIZES[choose(SIZES.len() as u64, "size") as usize];
        v[o..o + 8].copy_from_slice(&l.to_le_bytes());
    }
    let (f, no) = both(&v);
    if n < 8 {
        check(f.is_none() && no, "a file without a header is refused");
    } else {
        check(implies(v[0] != 1 && v[0] != 2, f.is_none() && no), "an unknown version is refused");
        check(implies(v[1] > 3, f.is_none() && no), "an unknown optimisation level is refused");
    }
    if n >= 24 {
        let p = f64::from_bits(rd(&v, 16));
        check(implies(and(v[0] == 2, !and(p > 0.0, p <= 1.0)), f.is_none() && no), "a Poppy filter of impossible fpp is refused");
    }
    if param("sizes", 0) == 0 {
        // the readers of one format
        let a = v1::BloomFilter::from_reader(Cursor::new(&v)).is_ok();
        let b = v2::BloomFilter::from_reader(Cursor::new(&v)).is_ok();
        let ver = if n > 0 { v[0] } else { 0 };
        check(a == (f.is_some() && ver == 1), "the reader of DCSO filters reads those only");
        check(b == (f.is_some() && ver == 2), "the reader of Poppy filters reads those only");
    }
    if let Some(f) = &f {
        // what was read is there
        let w = ser(f);
        check(w.len() == n, "nothing of the file is lost");
        cover("accepted");
    } else {
        cover("refused");
    }
}

/// headers that say anything about bodies of a few sizes; what is accepted can be used
pub fn c08_use() {
    let ver = param("ver", 2) as u8;
    let mut v = vec![0u8; 8];
    v[0] = ver;
    v[1] = u8_("opt");
    let mut t = [0u8; 16];
    fill(&mut t, "capacity, fpp");
    v.extend_from_slice(&t);
    let k = below(param("hashes", 3), "hashes");
    v.extend_from_slice(&k.to_le_bytes());
    if ver == 1 {
        let m = [0, 1, 2, 63, 64, 65, 100, 128, 129][choose(9, "bits") as usize];
        v.extend_from_slice(&u64::to_le_bytes(m));
        v.extend_from_slice(&bytes::<8>("count"));
        let n = v.len();
        v.resize(n + param("body", 16) as usize, 0);
        fill(&mut v[n..], "body");
    } else {
        v.extend_from_slice(&bytes::<8>("count"));
        let cb = [0, 1, 3, 8, 9, 16, 20, 31][choose(8, "cache bits") as usize];
        v.extend_from_slice(&u64::to_le_bytes(cb));
        let c = (cb + 7) / 8;
        let n = v.len();
        v.resize(n + c as usize, 0);
        fill(&mut v[n..], "cache");
        let nb = choose(param("buckets", 2) + 1, "buckets");
        v.extend_from_slice(&nb.to_le_bytes());
        let n = v.len();
        v.resize(n + param("body", 4100) as usize, 0);
        fill(&mut v[n..], "body");
    }
    let f = match both(&v).0 {
        None => {
            cover("refused");
            return;
        }
        Some(f) => f,
    };
    cover("accepted");
    let x = bytes::<5>("x");
    let mut f = f;
    match param("what", 0) {
        0 => {
            let had = f.contains_bytes(x);
            observe("had", had as u64);
        }
        1 => {
            let r = f.insert_bytes(x);
            observe("r", seen(&r));
            if r.is_ok() {
                check(f.contains_bytes(x), "what was inserted is contained");
            }
        }
        _ => {
            let g = f.clone();
            check(f.has_same_params(&g) || f.fpp().is_nan(), "same parameters");
            let _ = f.is_full();
            f.clear();
            check(f.count_estimate() == 0, "cleared");
            let _ = ser(&f);
        }
    }
}

/// files cut short
pub fn c08_cut() {
    let c = cfg();
    let (v, l) = any_bytes(&c, "bits", "count");
    let n = l.data;
    let pts = if n <= 400 { (0..n).collect() } else { around(&[0, 1, 8, 16, 24, 32, 40, 48, (l.cache.0 + l.cache.1) / 2, l.cache.1, l.bits.0, l.bits.0 + 4096, (l.bits.0 + l.bits.1) / 2, n - 4096, n], n) };
    let k = pts[choose(pts.len() as u64, "cut") as usize];
    let v = &v[..k];
    check(BloomFilter::from_reader(Cursor::new(v)).is_err(), "a file cut short is refused");
    check(v1::BloomFilter::from_reader(Cursor::new(v)).is_err(), "a file cut short is refused");
    check(v2::BloomFilter::from_reader(Cursor::new(v)).is_err(), "a file cut short is refused");
    let p = BloomFilter::partial_from_reader(Cursor::new(v));
    observe("partial", p.is_ok() as u64);
    cover("cut");
}
