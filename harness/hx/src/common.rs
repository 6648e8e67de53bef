//! Filters in arbitrary states, arbitrary values, and byte-level views of a filter.
pub use poppy_filters::*;
pub use symrt::*;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub ver: u8,
    pub cap: usize,
    pub fpp: f64,
    pub opt: u8,
}

/// the parameter sets filters are made from
pub const CFGS: &[Cfg] = &[
    // Poppy format
    Cfg { ver: 2, cap: 100, fpp: 0.5, opt: 0 },    // 0: 1 bucket, 1 hash
    Cfg { ver: 2, cap: 1000, fpp: 0.01, opt: 1 },  // 1: 1 bucket, 7 hashes
    Cfg { ver: 2, cap: 6000, fpp: 0.01, opt: 0 },  // 2: 2 buckets
    Cfg { ver: 2, cap: 10000, fpp: 0.001, opt: 0 }, // 3: 5 buckets, 10 hashes
    Cfg { ver: 2, cap: 100, fpp: 0.01, opt: 2 },   // 4: speed, cache
    Cfg { ver: 2, cap: 100, fpp: 0.01, opt: 3 },   // 5: best, cache
    Cfg { ver: 2, cap: 10000, fpp: 0.001, opt: 2 }, // 6: speed, 8 buckets
    Cfg { ver: 2, cap: 10000, fpp: 0.001, opt: 3 }, // 7: best, 5 buckets
    Cfg { ver: 2, cap: 3, fpp: 1.0, opt: 0 },      // 8: everything is positive
    Cfg { ver: 2, cap: 3, fpp: 1.0, opt: 2 },      // 9: no hash, cache only
    Cfg { ver: 2, cap: 0, fpp: 0.1, opt: 0 },      // 10: nothing fits
    Cfg { ver: 2, cap: 0, fpp: 0.1, opt: 3 },      // 11: nothing fits, cache
    // DCSO format
    Cfg { ver: 1, cap: 10, fpp: 0.01, opt: 0 },    // 12: 95 bits, 7 hashes
    Cfg { ver: 1, cap: 3, fpp: 0.5, opt: 0 },      // 13: 4 bits, 1 hash
    Cfg { ver: 1, cap: 100, fpp: 0.001, opt: 0 },  // 14: 1437 bits, 10 hashes
    Cfg { ver: 1, cap: 3, fpp: 1.0, opt: 0 },      // 15: no bit at all
    Cfg { ver: 1, cap: 0, fpp: 0.1, opt: 0 },      // 16: nothing fits
    Cfg { ver: 1, cap: 64, fpp: 0.3, opt: 0 },     // 17: 160 bits, 2 hashes
    Cfg { ver: 2, cap: 5, fpp: 0.9, opt: 3 },      // 18: cache only, no hash
    Cfg { ver: 1, cap: 1000, fpp: 0.01, opt: 0 },  // 19: 9585 bits
    Cfg { ver: 2, cap: 13000, fpp: 0.01, opt: 3 }, // 20: best, 4 buckets
    Cfg { ver: 2, cap: 9000, fpp: 0.01, opt: 0 },  // 21: 3 buckets
    Cfg { ver: 2, cap: 100, fpp: 1e-6, opt: 0 },   // 22: 1 bucket, 20 hashes
    Cfg { ver: 1, cap: 10, fpp: 1e-6, opt: 0 },    // 23: 288 bits, 20 hashes
    Cfg { ver: 2, cap: 100, fpp: 1e-12, opt: 1 },  // 24: 1 bucket, 40 hashes
    Cfg { ver: 2, cap: 1000, fpp: 1e-12, opt: 3 }, // 25: best, 2 buckets, cache, many hashes
    // sizes that divide evenly
    Cfg { ver: 1, cap: 45, fpp: 0.5, opt: 0 },     // 26: 64 bits, 1 hash
    Cfg { ver: 1, cap: 107, fpp: 0.1, opt: 0 },    // 27: 512 bits, 4 hashes
    Cfg { ver: 2, cap: 64, fpp: 0.1, opt: 2 },     // 28: speed, cache of 64 bits
    Cfg { ver: 2, cap: 1, fpp: 0.1, opt: 3 },      // 29: best, cache of one bit
    Cfg { ver: 1, cap: 10, fpp: 1e-12, opt: 0 },   // 30: 575 bits, 40 hashes
];

pub fn cfg() -> Cfg {
    CFGS[param("cfg", 0) as usize]
}

pub fn opt_of(o: u8) -> OptLevel {
    OptLevel::try_from(o).unwrap()
}

pub fn fresh(c: &Cfg) -> BloomFilter {
    BloomFilter::with_version_capacity_opt(c.ver, c.cap, c.fpp, opt_of(c.opt)).unwrap()
}

pub fn ser(f: &BloomFilter) -> Vec<u8> {
    let mut v = Vec::new();
    f.write(&mut v).unwrap();
    v
}

pub fn load(v: &[u8]) -> BloomFilter {
    BloomFilter::from_reader(std::io::Cursor::new(v)).unwrap()
}

pub fn rd(v: &[u8], o: usize) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&v[o..o + 8]);
    u64::from_le_bytes(b)
}

/// where things are in a serialized filter
pub struct Lay {
    pub ver: u8,
    pub count: usize,
    pub cache: (usize, usize),
    pub bits: (usize, usize),
    pub n_hash: u64,
    /// number of bits (DCSO) or buckets (Poppy)
    pub n: u64,
    pub data: usize,
}

pub fn lay(v: &[u8]) -> Lay {
    if v[0] == 1 {
        let m = rd(v, 32);
        let n = ((m + 63) / 64 * 8) as usize;
        Lay { ver: 1, count: 40, cache: (48, 48), bits: (48, 48 + n), n_hash: rd(v, 24), n: m, data: 48 + n }
    } else {
        let c = ((rd(v, 40) + 7) / 8) as usize;
        let nb = rd(v, 48 + c);
        let b0 = 56 + c;
        let b1 = b0 + nb as usize * 4096;
        Lay { ver: 2, count: 32, cache: (48, 48 + c), bits: (b0, b1), n_hash: rd(v, 24), n: nb, data: b1 }
    }
}

/// Serialized form of a filter of these parameters holding anything: every stored bit, every
/// cache bit and the element count are arbitrary.
pub fn any_bytes(c: &Cfg, bits: &'static str, count: &'static str) -> (Vec<u8>, Lay) {
    let mut v = ser(&fresh(c));
    let l = lay(&v);
    fill(&mut v[l.cache.0..l.cache.1], "cache");
    fill(&mut v[l.bits.0..l.bits.1], bits);
    if l.ver == 1 && l.n % 64 != 0 {
        // the bits past the last one are never set
        let last = l.bits.1 - 8;
        let w = rd(&v, last) & ((1u64 << (l.n % 64)) - 1);
        v[last..last + 8].copy_from_slice(&w.to_le_bytes());
    }
    fill(&mut v[l.count..l.count + 8], count);
    (v, l)
}

pub fn any_filter(c: &Cfg) -> (BloomFilter, Vec<u8>, Lay) {
    let (v, l) = any_bytes(c, "bits", "count");
    (load(&v), v, l)
}

pub const LENS: &[usize] = &[0, 1, 8, 9, 16, 3, 7, 12, 17, 24, 25, 32, 33, 40, 48, 49, 64, 65, 2, 4, 5, 6, 10, 11, 13, 14, 15, 18, 20, 23, 28, 31, 36, 63, 66, 72, 80, 96, 97, 128];

/// An arbitrary byte string. Its length is one of the first `nlen` of LENS.
pub fn value(name: &'static str) -> Vec<u8> {
    let n = param("nlen", 5);
    let k = if n == 1 { LENS[0] } else { LENS[choose(n, "len") as usize] };
    let mut v = vec![0u8; k];
    fill(&mut v, name);
    v
}

/// An arbitrary byte string of one of two lengths
pub fn value2(name: &'static str) -> Vec<u8> {
    let k = if choose(2, "len2") == 0 { 5 } else { 11 };
    let mut v = vec![0u8; k];
    fill(&mut v, name);
    v
}

pub fn same(a: &[u8], b: &[u8], i: usize) -> bool {
    peek(a, i) == peek(b, i)
}
/// An arbitrary position in `lo..hi` holds the same byte in both
pub fn check_same(a: &[u8], b: &[u8], lo: usize, hi: usize, m: &'static str) {
    if hi <= lo {
        return;
    }
    if hi - lo <= 400 {
        check(bytes_eq(&a[lo..hi], &b[lo..hi]), m);
    } else {
        let i = lo + below((hi - lo) as u64, "i") as usize;
        check(same(a, b, i), m);
    }
}
/// Two serialized filters laid out like `l` are the same; the index cache and the count are
/// left out on demand
pub fn check_all(a: &[u8], b: &[u8], l: &Lay, cache: bool, count: bool, m: &'static str) {
    check(a.len() == b.len(), m);
    check_same(a, b, 0, l.count, m);
    if count {
        check_same(a, b, l.count, l.count + 8, m);
    }
    check_same(a, b, l.count + 8, l.cache.0, m);
    if cache {
        check_same(a, b, l.cache.0, l.cache.1, m);
    }
    check_same(a, b, l.cache.1, l.bits.0, m);
    if l.ver == 1 && l.bits.0 < l.bits.1 {
        // stored as words: one arbitrary bit of each
        let k = 1u64 << below(64, "bit");
        let n = (l.bits.1 - l.bits.0) / 8;
        if n <= 48 {
            let mut ok = true;
            for i in 0..n {
                let (x, y) = (rd(a, l.bits.0 + 8 * i), rd(b, l.bits.0 + 8 * i));
                ok = and(ok, (x & k == 0) == (y & k == 0));
            }
            check(ok, m);
        } else {
            let i = l.bits.0 + 8 * below(n as u64, "word") as usize;
            check((peek8(a, i) & k == 0) == (peek8(b, i) & k == 0), m);
        }
    } else {
        check_same(a, b, l.bits.0, l.bits.1, m);
    }
    check_same(a, b, l.data, a.len(), m);
}
pub fn seen(r: &Result<bool, Error>) -> u64 {
    match r {
        Ok(true) => 1,
        Ok(false) => 0,
        Err(_) => 2,
    }
}
