//! the two file formats: positions of a value and byte layout, against independent definitions
use crate::common::*;
use std::io::Cursor;

// ---- DCSO ----

fn fnv1(d: &[u8]) -> u64 {
    let mut h: u64 = 14695981039346656037;
    for &b in d {
        h = h.wrapping_mul(1099511628211);
        h ^= b as u64;
    }
    h
}

const DM: u64 = 18446744073709551557;
const DG: u64 = 18446744073709550147;

fn dcso(d: &[u8], k: u64, m: u64) -> Vec<u64> {
    let mut h = fnv1(d) % DM;
    let mut r = vec![];
    for _ in 0..k {
        h = h.wrapping_mul(DG) % DM;
        r.push(h % m);
    }
    r
}

// ---- Poppy ----

const P: [u64; 6] = [0xa0761d6478bd642f, 0xe7037ed1a0b428db, 0x8ebc6af09c88c6e3, 0x589965cc75374cc3, 0x1d8e4e27c47d124f, 0xeb44accab455d165];

fn mum(a: u64, b: u64) -> u64 {
    let r = a as u128 * b as u128;
    (r >> 64) as u64 ^ r as u64
}
fn le(d: &[u8], o: usize, n: usize) -> u64 {
    let mut v = 0u64;
    for i in 0..n {
        v |= (d[o + i] as u64) << (8 * i);
    }
    v
}
fn r64(d: &[u8], o: usize) -> u64 {
    le(d, o, 8)
}
/// eight bytes with the two halves exchanged
fn r64s(d: &[u8], o: usize) -> u64 {
    le(d, o, 4) << 32 | le(d, o + 4, 4)
}
/// 1 to 8 bytes
fn rest(d: &[u8], o: usize, n: usize) -> u64 {
    match n {
        1 => le(d, o, 1),
        2 => le(d, o, 2),
        3 => le(d, o, 2) << 8 | le(d, o + 2, 1),
        4 => le(d, o, 4),
        5 => le(d, o, 4) << 8 | le(d, o + 4, 1),
        6 => le(d, o, 4) << 16 | le(d, o + 4, 2),
        7 => le(d, o, 4) << 24 | le(d, o + 4, 2) << 8 | le(d, o + 6, 1),
        _ => r64s(d, o),
    }
}
/// 64-bit WyHash (final version 1) of a non-empty byte string with the filters' seed
pub fn wy(d: &[u8]) -> u64 {
    let mut s: u64 = 0x706f707079533d42;
    let n = d.len();
    let mut o = 0;
    while n - o >= 32 {
        s = mum(s ^ P[0], mum(r64(d, o) ^ P[1], r64(d, o + 8) ^ P[2]) ^ mum(r64(d, o + 16) ^ P[3], r64(d, o + 24) ^ P[4]));
        o += 32;
    }
    s ^= P[0];
    let l = n - o;
    s = match l {
        0 => s,
        1..=8 => mum(s, rest(d, o, l) ^ P[1]),
        9..=16 => mum(r64s(d, o) ^ s, rest(d, o + 8, l - 8) ^ P[2]),
        17..=24 => mum(r64s(d, o) ^ s, r64s(d, o + 8) ^ P[2]) ^ mum(s, rest(d, o + 16, l - 16) ^ P[3]),
        _ => mum(r64s(d, o) ^ s, r64s(d, o + 8) ^ P[2]) ^ mum(r64s(d, o + 16) ^ s, rest(d, o + 24, l - 24) ^ P[4]),
    };
    mum(s, n as u64 ^ P[5])
}

fn xs(mut x: u64) -> u64 {
    x ^= x << 12;
    x ^= x >> 25;
    x ^= x << 27;
    x.wrapping_mul(2685821657736338717)
}

pub struct Pos {
    pub bucket: u64,
    pub hash: u64,
    pub bits: Vec<u64>,
}

pub fn poppy(d: &[u8], k: u64, nb: u64) -> Pos {
    let mut h1 = if d.len() <= 8 { le(d, 0, d.len()) } else { wy(d) };
    let hash = xs(h1);
    let mut h2 = 0;
    let mut bits = vec![];
    for i in 0..k {
        if i > 0 {
            if i == 1 {
                h2 = wy(&h1.to_be_bytes());
            }
            h1 = h1.wrapping_add(h2);
            h2 = h2.wrapping_add(i);
        }
        bits.push(h1 % 32768);
    }
    Pos { bucket: if nb.is_power_of_two() { hash & (nb - 1) } else { hash % nb }, hash, bits }
}

/// (hashes, buckets, bytes of index cache)
const DIMS: &[(u64, u64, usize)] = &[(0, 1, 1), (1, 1, 0), (2, 2, 0), (3, 3, 8), (5, 4, 512), (7, 5, 0), (10, 8, 1024), (7, 1, 16), (12, 1, 0), (4, 6, 1), (20, 1, 0), (2, 16, 256), (40, 2, 4)];

fn put(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes());
}

fn any_head(ver: u8, opt: u8) -> Vec<u8> {
    let mut v = vec![ver, opt, 0, 0, 0, 0, 0, 0];
    let c = u64_("capacity");
    put(&mut v, c);
    v
}

/// A value of one given length; which one is chosen by the run
fn val() -> Vec<u8> {
    let n = param("len", 8) as usize;
    let mut v: Vec<u8> = (0..n).map(|i| (i * 73 + i / 256) as u8).collect();
    if n <= 128 {
        fill(&mut v, "x");
    } else {
        // long ones: the first, the middle and the last bytes
        for i in [0, n / 2, n - 3] {
            fill(&mut v[i..i + 3], "x");
        }
    }
    v
}

/// A Poppy file put together by hand, with anything in it: lookups answer and insertions write
/// what the definition of the format says.
pub fn c12_pos() {
    let (k, nb, cb) = DIMS[param("dim", 0) as usize];
    let opt = choose(4, "opt") as u8;
    let mut v = any_head(2, opt);
    let fpp = [1.0, 0.5, 1e-9][choose(3, "fpp") as usize];
    v.extend_from_slice(&f64::to_le_bytes(fpp));
    put(&mut v, k);
    let n = u64_("count");
    put(&mut v, n);
    put(&mut v, 8 * cb as u64);
    let c0 = v.len();
    v.resize(c0 + cb, 0);
    fill(&mut v[c0..], "cache");
    put(&mut v, nb);
    let b0 = v.len();
    v.resize(b0 + 4096 * nb as usize, 0);
    fill(&mut v[b0..], "bits");
    let b1 = v.len();
    v.extend_from_slice(&bytes::<2>("data"));
    let cap = rd(&v, 8);
    assume(cap > 0);
    let r = BloomFilter::from_reader(Cursor::new(&v));
    check(r.is_ok(), "a well-formed Poppy file is readable");
    let mut f = r.unwrap();
    check(f.version() == 2, "version");
    check(f.capacity() as u64 == cap, "capacity");
    check(f.fpp() == fpp, "fpp");
    check(f.count_estimate() == n, "count");
    check(f.size_in_bytes() == cb + 4096 * nb as usize, "size");
    check(bytes_eq(f.data(), &v[b1..]), "data");
    let x = val();
    let e = poppy(&x, k, nb);
    observe("bucket", e.bucket);
    let base = 4096 * e.bucket as usize;
    let bits = &v[b0..b1];
    let cache = &v[c0..c0 + cb];
    let cbit = e.hash & (8 * cb as u64).wrapping_sub(1);
    let mut all = true;
    if cb > 0 {
        all = peek(cache, (cbit / 8) as usize) >> (cbit % 8) & 1 == 1;
    }
    let mut every = true;
    for p in &e.bits {
        every = and(every, peek(bits, base + (*p / 8) as usize) >> (p % 8) & 1 == 1);
    }
    all = and(all, every);
    match param("what", 0) {
        0 => {
            let had = f.contains_bytes(&x);
            observe("had", had as u64);
            check(had == all, "a value is contained exactly when its positions are set");
            cover("looked up");
        }
        _ => {
            let r = f.insert_bytes(&x);
            observe("r", seen(&r));
            if r.is_err() {
                check(!every, "a value whose positions are set is not refused");
                check(n >= cap, "refused only at capacity");
                return;
            }
            cover("inserted");
            check(matches!(r, Ok(false)) == every, "a value is new exactly when one of its positions is not set");
            let w = ser(&f);
            check(w.len() == v.len(), "an insertion keeps the size");
            check_same(&w, &v, 0, 32, "an insertion keeps the header");
            check_same(&w, &v, 40, c0, "an insertion keeps the header");
            check_same(&w, &v, c0 + cb, b0, "an insertion keeps the header");
            check_same(&w, &v, b1, v.len(), "an insertion keeps the data");
            if cb > 0 {
                let i = below(cb as u64, "ic");
                let m = ite(i == cbit / 8, 1 << (cbit % 8), 0) as u8;
                check(peek(&w[c0..], i as usize) == peek(cache, i as usize) | m, "an insertion sets exactly its cache bit");
            }
            let i = below(4096 * nb, "ib") as usize;
            let mut m = 0u64;
            for p in &e.bits {
                m |= ite(i == base + (*p / 8) as usize, 1 << (p % 8), 0);
            }
            check(peek(&w[b0..], i) == peek(bits, i) | m as u8, "an insertion sets exactly the positions of the value");
        }
    }
}

/// (hashes, bits)
const DDIMS: &[(u64, u64)] = &[(1, 1), (1, 64), (2, 5), (3, 65), (7, 96), (4, 1000), (10, 1438), (20, 288), (2, 4096), (40, 575)];

pub fn c11_pos() {
    let (k, m) = DDIMS[param("dim", 0) as usize];
    let mut v = any_head(1, 0);
    let fpp = f64_("fpp");
    v.extend_from_slice(&fpp.to_le_bytes());
    put(&mut v, k);
    put(&mut v, m);
    let n = u64_("count");
    put(&mut v, n);
    let b0 = v.len();
    let nw = ((m + 63) / 64) as usize;
    v.resize(b0 + 8 * nw, 0);
    fill(&mut v[b0..], "bits");
    let b1 = v.len();
    v.extend_from_slice(&bytes::<2>("data"));
    let cap = rd(&v, 8);
    assume(cap > 0);
    let r = BloomFilter::from_reader(Cursor::new(&v));
    check(r.is_ok(), "a well-formed DCSO file is readable");
    let mut f = r.unwrap();
    check(f.version() == 1, "version");
    check(f.capacity() as u64 == cap, "capacity");
    check(f.fpp().to_bits() == fpp.to_bits(), "fpp");
    check(f.count_estimate() == n, "count");
    check(f.size_in_bytes() == 8 * nw, "size");
    check(bytes_eq(f.data(), &v[b1..]), "data");
    if let BloomFilter::V1(b) = &f {
        check(b.n_hash_fn() == k, "hashes");
        check(b.n_bits() == m, "bits");
    }
    let x = val();
    let e = dcso(&x, k, m);
    observe("first", e[0]);
    let mut every = true;
    for p in &e {
        every = and(every, peek8(&v, b0 + 8 * (*p / 64) as usize) >> (p % 64) & 1 == 1);
    }
    match param("what", 0) {
        0 => {
            let had = f.contains_bytes(&x);
            observe("had", had as u64);
            check(had == every, "a value is contained exactly when its positions are set");
            cover("looked up");
        }
        _ => {
            let r = f.insert_bytes(&x);
            observe("r", seen(&r));
            if r.is_err() {
                check(!every, "a value whose positions are set is not refused");
                check(n >= cap, "refused only at capacity");
                return;
            }
            cover("inserted");
            check(matches!(r, Ok(false)) == every, "a value is new exactly when one of its positions is not set");
            let w = ser(&f);
            check(w.len() == v.len(), "an insertion keeps the size");
            check_same(&w, &v, 0, 40, "an insertion keeps the header");
            check_same(&w, &v, b1, v.len(), "an insertion keeps the data");
            let bit = below(64, "bit");
            let i = if nw <= 64 { choose(nw as u64, "word") } else { below(nw as u64, "word") };
            let mut s = peek8(&v, b0 + 8 * i as usize) >> bit & 1 == 1;
            for p in &e {
                s = or(s, and(*p / 64 == i, *p % 64 == bit));
            }
            check((peek8(&w, b0 + 8 * i as usize) >> bit & 1 == 1) == s, "an insertion sets exactly the positions of the value");
        }
    }
}

fn k_of(m: u64, n: u64) -> u64 {
    (std::f64::consts::LN_2 * m as f64 / n as f64).ceil() as u64
}

/// What a new filter writes, field by field
pub fn c12_new() {
    let c = cfg();
    let f = fresh(&c);
    let v = ser(&f);
    check(v[0] == c.ver, "the first byte is the version");
    check(v[1] == if c.ver == 1 { 0 } else { c.opt }, "the second byte is the optimisation level");
    check(v[2..8] == [0; 6], "the reserved bytes are zero");
    check(rd(&v, 8) == c.cap as u64, "then the capacity");
    check(rd(&v, 16) == c.fpp.to_bits(), "then the false positive probability");
    let ln2 = std::f64::consts::LN_2;
    if c.ver == 1 {
        let m = (c.cap as f64 * c.fpp.ln() / ln2.powf(2.0)).ceil().abs() as u64;
        check(rd(&v, 32) == m, "the number of bits");
        if c.cap > 0 {
            check(rd(&v, 24) == k_of(m, c.cap as u64), "the number of hash functions");
        }
        check(rd(&v, 40) == 0, "no element");
        check(v.len() as u64 == 48 + (m + 63) / 64 * 8, "then the bit words");
        check(v[48..].iter().all(|b| *b == 0), "all zero");
    } else {
        let bc = (32768.0 * ln2.powf(2.0) / c.fpp.ln()).abs() as u64;
        let mut nb = (c.cap as f64 / bc as f64).ceil() as u64;
        let mut k = k_of(32768, bc);
        let mut cache = 0;
        if c.opt >= 2 {
            let bits = (c.cap as u64).next_power_of_two();
            cache = (bits + 7) / 8;
            if c.opt == 2 {
                nb = nb.next_power_of_two();
            }
            let n = c.cap as f64;
            let kc = k_of(bits, c.cap as u64);
            let p = (1.0 - (-(kc as f64) * n / bits as f64).exp()).powf(kc as f64);
            k = (ln2 * p * (32768.0 / bc as f64).round()).ceil() as u64;
        }
        if c.cap > 0 {
            check(rd(&v, 24) == k, "the number of hash functions");
        }
        check(rd(&v, 32) == 0, "no element");
        check(rd(&v, 40) == 8 * cache, "the bits of the index cache");
        check(rd(&v, 48 + cache as usize) == nb, "the number of buckets");
        check(v.len() as u64 == 56 + cache + 4096 * nb, "then the buckets");
        check(v[48..48 + cache as usize].iter().all(|b| *b == 0), "an empty cache");
        check(v[56 + cache as usize..].iter().all(|b| *b == 0), "empty buckets");
    }
    cover("done");
}
