//! reading and writing
use crate::common::*;
use std::io::{Cursor, Read, Seek};

/// attached data of one of the first `n` lengths
fn attached(n: u64) -> Vec<u8> {
    let nd = [0usize, 1, 13, 9000][choose(n, "datalen") as usize];
    let mut d = vec![0u8; nd];
    if nd < 100 {
        fill(&mut d, "data");
    } else {
        for (i, x) in d.iter_mut().enumerate() {
            *x = i as u8;
        }
        fill(&mut d[..3], "data");
        fill(&mut d[nd - 3..], "data end");
    }
    d
}

/// gives at most `chunk` bytes at a time and is interrupted now and then
struct Slow<'a> {
    c: Cursor<&'a [u8]>,
    chunk: usize,
    calls: usize,
}
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 3 == 2 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.chunk);
        self.c.read(&mut b[..n])
    }
}
impl Seek for Slow<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

/// how the reader delivers the bytes, and where in it the filter starts, does not matter
pub fn c05_reader() {
    let c = cfg();
    let (mut v, l) = any_bytes(&c, "bits", "count");
    let d = attached(4);
    v.extend_from_slice(&d);
    let k = param("prefix", 0) as usize;
    let mut all = vec![2u8; k];
    all.extend_from_slice(&v);
    let slow = || {
        let mut c = Cursor::new(&all[..]);
        c.set_position(k as u64);
        Slow { c, chunk: param("chunk", 1000) as usize, calls: 0 }
    };
    let f = BloomFilter::from_reader(slow());
    check(f.is_ok(), "the filter is read");
    let f = f.unwrap();
    let w = ser(&f);
    check_all(&w, &v, &l, true, true, "the filter is written back byte for byte");
    let g = BloomFilter::partial_from_reader(slow());
    check(g.is_ok(), "its metadata is read");
    let g = g.unwrap();
    check(g.count_estimate() == f.count_estimate(), "same count");
    check(g.size_in_bytes() == f.size_in_bytes(), "same size");
    check(bytes_eq(g.data(), &d), "same data");
    cover("done");
}

/// what is read is written back, and a copy behaves as the original
pub fn c05_bytes() {
    let c = cfg();
    let (mut v, l) = any_bytes(&c, "bits", "count");
    fill(&mut v[8..16], "capacity");
    let d = attached(3);
    v.extend_from_slice(&d);
    let f = load(&v);
    check(bytes_eq(f.data(), &d), "the attached data is what follows the filter");
    let w = ser(&f);
    check(w.len() == v.len(), "the filter is written back in the same size");
    check_all(&w, &v, &l, true, true, "the filter is written back byte for byte");
    let g = load(&w);
    let x = value("x");
    let a = f.contains_bytes(&x);
    observe("contained", a as u64);
    check(g.contains_bytes(&x) == a, "the copy answers lookups alike");
    check(g.version() == f.version(), "same version");
    check(g.capacity() == f.capacity(), "same capacity");
    check(g.fpp().to_bits() == f.fpp().to_bits(), "same fpp");
    check(g.count_estimate() == f.count_estimate(), "same count");
    check(g.size_in_bytes() == f.size_in_bytes(), "same size");
    check(bytes_eq(g.data(), f.data()), "same data");
    check(f.has_same_params(&g), "same parameters");
    let (mut f, mut g) = (f, g);
    let r = f.insert_bytes(&x);
    let s = g.insert_bytes(&x);
    observe("r", seen(&r));
    check(seen(&r) == seen(&s), "the copy accepts the same insertions");
    check(f.count_estimate() == g.count_estimate(), "and counts them alike");
    let (p, q) = (ser(&f), ser(&g));
    check_all(&p, &q, &l, true, true, "and stay identical");
    cover("done");
}

/// from the public calls: create, attach data, insert, write, read
pub fn c05_fresh() {
    let c = cfg();
    let mut f = fresh(&c);
    let d = bytes::<5>("data");
    match &mut f {
        BloomFilter::V1(b) => b.data = d.to_vec(),
        BloomFilter::V2(b) => b.data = d.to_vec(),
    }
    let x = value("x");
    let y = value2("y");
    let r = f.insert_bytes(&x);
    observe("r", seen(&r));
    let w = ser(&f);
    let mut g = load(&w);
    check(g.version() == c.ver, "same version");
    check(g.capacity() == c.cap, "same capacity");
    check(g.fpp() == c.fpp, "same fpp");
    check(g.count_estimate() == f.count_estimate(), "same count");
    check(g.size_in_bytes() == f.size_in_bytes(), "same size");
    check(bytes_eq(g.data(), &d), "same data");
    check(f.has_same_params(&g), "same parameters");
    check(f.contains_bytes(&y) == g.contains_bytes(&y), "same answers");
    let mut f = f;
    let r = f.insert_bytes(&y);
    let s = g.insert_bytes(&y);
    observe("s", seen(&s));
    check(seen(&r) == seen(&s), "same acceptance");
    let (p, q) = (ser(&f), ser(&g));
    let l = lay(&p);
    check_all(&p, &q, &l, true, true, "same bytes after insertion");
    // the format-specific readers
    match &f {
        BloomFilter::V1(_) => {
            let h = v1::BloomFilter::from_reader(Cursor::new(&p)).unwrap();
            let mut o = vec![];
            h.write(&mut o).unwrap();
            check_all(&o, &p, &l, true, true, "the DCSO reader reads the same");
            check(v2::BloomFilter::from_reader(Cursor::new(&p)).is_err(), "the Poppy reader refuses DCSO files");
        }
        BloomFilter::V2(_) => {
            let h = v2::BloomFilter::from_reader(Cursor::new(&p)).unwrap();
            let mut o = vec![];
            h.write(&mut o).unwrap();
            check_all(&o, &p, &l, true, true, "the Poppy reader reads the same");
            check(v1::BloomFilter::from_reader(Cursor::new(&p)).is_err(), "the DCSO reader refuses Poppy files");
        }
    }
    cover("done");
}

pub fn c06() {
    let c = cfg();
    let (mut v, _) = any_bytes(&c, "bits", "count");
    fill(&mut v[8..16], "capacity");
    let d = attached(4);
    v.extend_from_slice(&d);
    let f = load(&v);
    let g = BloomFilter::partial_from_reader(Cursor::new(&v));
    check(g.is_ok(), "a well-formed file is readable for its metadata");
    let g = g.unwrap();
    check(g.version() == f.version(), "same version");
    check(g.capacity() == f.capacity(), "same capacity");
    check(g.fpp().to_bits() == f.fpp().to_bits(), "same fpp");
    check(g.count_estimate() == f.count_estimate(), "same count");
    check(g.size_in_bytes() == f.size_in_bytes(), "same size");
    check(bytes_eq(g.data(), f.data()), "same data");
    check(bytes_eq(g.data(), &d), "the data is what follows the filter");
    check(g.is_full() == f.is_full(), "as full");
    observe("size", g.size_in_bytes() as u64);
    observe("count", g.count_estimate());
    cover("done");
}
