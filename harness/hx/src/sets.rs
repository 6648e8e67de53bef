//! bitsets, byte sizes, counts of merged filters
use crate::common::*;
use poppy_filters::bitset::{array::BitSet, vec::VecBitSet};
use poppy_filters::utils::ByteSize;
use std::hash::{Hash, Hasher};

fn bit(v: &[u8], i: usize) -> bool {
    peek(v, i / 8) >> (i % 8) & 1 == 1
}
/// number of ones, bit by bit
fn ones(v: &[u8]) -> u64 {
    let mut n = 0;
    for b in v {
        for j in 0..8 {
            n += (b >> j & 1) as u64;
        }
    }
    n
}

macro_rules! one_bit {
    ($s:expr, $n:expr) => {{
        let mut s = $s;
        let n = $n;
        fill(s.as_mut_slice(), "bits");
        let v = s.as_slice().to_vec();
        check(v.len() == n, "as many bytes as asked for");
        check(s.byte_len() == n && s.bit_len() == 8 * n, "the lengths agree");
        let i = usize_("i");
        let inside = i < 8 * n;
        if !inside {
            panic_ok(true);
            cover("outside");
        }
        let old = match choose(4, "op") {
            0 => {
                let r = s.set_nth_bit(i);
                check(inside, "a bit out of range is refused");
                check(s.get_nth_bit(i), "a bit set is set");
                r
            }
            1 => {
                let r = s.unset_nth_bit(i);
                check(inside, "a bit out of range is refused");
                check(!s.get_nth_bit(i), "a bit unset is not set");
                r
            }
            2 => {
                let r = s.get_nth_bit(i);
                check(inside, "a bit out of range is refused");
                check(bytes_eq(s.as_slice(), &v), "reading changes nothing");
                r
            }
            _ => {
                s.clear();
                for b in s.as_slice() {
                    check(*b == 0, "clearing clears everything");
                }
                check(s.count_ones() == 0, "clearing clears everything");
                cover("cleared");
                return;
            }
        };
        check(old == bit(&v, i), "the previous value is returned");
        observe("old", old as u64);
        let j = below(8 * n as u64, "j") as usize;
        if j != i {
            check(bit(s.as_slice(), j) == bit(&v, j), "no other bit is affected");
            check(s.get_nth_bit(j) == bit(&v, j), "no other bit is affected");
        }
        cover("inside");
    }};
}

macro_rules! two_sets {
    ($a:expr, $b:expr) => {{
        let (mut s, mut t) = ($a, $b);
        fill(s.as_mut_slice(), "a");
        fill(t.as_mut_slice(), "b");
        let (a, b) = (s.as_slice().to_vec(), t.as_slice().to_vec());
        let same = a.len() == b.len();
        if !same {
            panic_ok(true);
            cover("mismatched");
        }
        match choose(3, "op") {
            0 => {
                s.union(&t);
                check(same, "sets of different lengths are not merged");
                for i in 0..a.len() {
                    check(s.as_slice()[i] == a[i] | b[i], "union is bit by bit");
                }
            }
            1 => {
                s.intersection(&t);
                check(same, "sets of different lengths are not merged");
                for i in 0..a.len() {
                    check(s.as_slice()[i] == a[i] & b[i], "intersection is bit by bit");
                }
            }
            _ => {
                let n = s.count_ones_in_common(&t);
                check(same, "sets of different lengths are not compared");
                let c: Vec<u8> = a.iter().zip(&b).map(|(x, y)| x & y).collect();
                check(n as u64 == ones(&c), "the common ones are counted");
                observe("common", n as u64);
                check(bytes_eq(s.as_slice(), &a), "counting changes nothing");
            }
        }
        check(bytes_eq(t.as_slice(), &b), "the other set is left alone");
        cover("merged");
    }};
}

macro_rules! counts {
    ($s:expr) => {{
        let mut s = $s;
        fill(s.as_mut_slice(), "bits");
        let v = s.as_slice().to_vec();
        let n = s.count_ones();
        observe("ones", n as u64);
        check(n as u64 == ones(&v), "the ones are counted");
        check(n + s.count_zeros() == s.bit_len(), "ones and zeros add up to the length");
        cover("counted");
    }};
}

/// Larger sets: any background, some arbitrary bytes somewhere
fn sparse(v: &mut [u8], name: &'static str) {
    let n = v.len();
    let back = choose(3, "background");
    for i in 0..n {
        v[i] = [0, 0xff, (i * 37) as u8][back as usize];
    }
    let p = [0, n / 2, n - 1, n & !7, n & !15, n & !31, n & !63][param("at", 0) as usize];
    for i in [p.min(n - 1), (p + 1).min(n - 1)] {
        fill(&mut v[i..i + 1], name);
    }
}
fn pop(v: &[u8]) -> u64 {
    v.iter().map(|b| b.count_ones() as u64).sum()
}

macro_rules! large {
    ($a:expr, $b:expr) => {{
        let (mut s, mut t) = ($a, $b);
        sparse(s.as_mut_slice(), "a");
        sparse(t.as_mut_slice(), "b");
        let (a, b) = (s.as_slice().to_vec(), t.as_slice().to_vec());
        let n = s.count_ones();
        observe("ones", n as u64);
        check(n as u64 == pop(&a), "the ones are counted");
        check(n + s.count_zeros() == 8 * a.len(), "ones and zeros add up to the length");
        let c: Vec<u8> = a.iter().zip(&b).map(|(x, y)| x & y).collect();
        check(s.count_ones_in_common(&t) as u64 == pop(&c), "the common ones are counted");
        match choose(3, "op") {
            0 => {
                s.union(&t);
                for i in 0..a.len() {
                    check(s.as_slice()[i] == a[i] | b[i], "union is bit by bit");
                }
            }
            1 => {
                s.intersection(&t);
                for i in 0..a.len() {
                    check(s.as_slice()[i] == a[i] & b[i], "intersection is bit by bit");
                }
            }
            _ => {
                s.clear();
                for b in s.as_slice() {
                    check(*b == 0, "clearing clears everything");
                }
            }
        }
        cover("merged");
    }};
}
pub fn c14_array_large() {
    match param("n", 64) {
        13 => large!(BitSet::<13>::new(), BitSet::<13>::new()),
        31 => large!(BitSet::<31>::new(), BitSet::<31>::new()),
        64 => large!(BitSet::<64>::new(), BitSet::<64>::new()),
        100 => large!(BitSet::<100>::new(), BitSet::<100>::new()),
        _ => large!(BitSet::<4096>::new(), BitSet::<4096>::new()),
    }
}
pub fn c14_vec_large() {
    let c = param("bits", 128) as usize;
    large!(VecBitSet::with_bit_capacity(c), VecBitSet::with_bit_capacity(c));
}

pub fn c14_array_bit() {
    match param("n", 1) {
        1 => one_bit!(BitSet::<1>::new(), 1),
        2 => one_bit!(BitSet::<2>::new(), 2),
        3 => one_bit!(BitSet::<3>::new(), 3),
        8 => one_bit!(BitSet::<8>::new(), 8),
        13 => one_bit!(BitSet::<13>::new(), 13),
        64 => one_bit!(BitSet::<64>::new(), 64),
        _ => one_bit!(BitSet::<4096>::new(), 4096),
    }
}
pub fn c14_array_two() {
    match param("n", 1) {
        1 => two_sets!(BitSet::<1>::new(), BitSet::<1>::new()),
        2 => two_sets!(BitSet::<2>::new(), BitSet::<2>::new()),
        3 => two_sets!(BitSet::<3>::new(), BitSet::<3>::new()),
        8 => two_sets!(BitSet::<8>::new(), BitSet::<8>::new()),
        13 => two_sets!(BitSet::<13>::new(), BitSet::<13>::new()),
        _ => two_sets!(BitSet::<17>::new(), BitSet::<17>::new()),
    }
}
pub fn c14_array_count() {
    match param("n", 1) {
        1 => counts!(BitSet::<1>::new()),
        2 => counts!(BitSet::<2>::new()),
        3 => counts!(BitSet::<3>::new()),
        8 => counts!(BitSet::<8>::new()),
        13 => counts!(BitSet::<13>::new()),
        _ => counts!(BitSet::<17>::new()),
    }
}
pub fn c14_vec_bit() {
    let c = param("bits", 8) as usize;
    one_bit!(VecBitSet::with_bit_capacity(c), (c + 7) / 8);
}
pub fn c14_vec_two() {
    let (c, d) = (param("bits", 8) as usize, param("other", 8) as usize);
    two_sets!(VecBitSet::with_bit_capacity(c), VecBitSet::with_bit_capacity(d));
}
pub fn c14_vec_count() {
    let c = param("bits", 8) as usize;
    let s = VecBitSet::with_bit_capacity(c);
    check(s.is_empty() == (c == 0), "empty when without bits");
    check(s.count_ones() == 0, "new sets are empty");
    counts!(s);
}

// ---- byte sizes ----

struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn unit(which: u64, n: usize) -> ByteSize {
    match which {
        0 => ByteSize::Bytes(n),
        1 => ByteSize::Kilo(n),
        2 => ByteSize::Mega(n),
        3 => ByteSize::Giga(n),
        _ => ByteSize::from_bytes(n),
    }
}
fn hashed(b: &ByteSize) -> Vec<u8> {
    let mut h = Rec(vec![]);
    b.hash(&mut h);
    h.0
}

pub fn c21_compare() {
    let (n, m) = (usize_("n"), usize_("m"));
    let a = unit(choose(5, "a"), n);
    let b = unit(choose(5, "b"), m);
    check(a.in_bytes() == n, "conversion to bytes is lossless");
    check((a == b) == (n == m), "equal when as many bytes");
    check((a != b) == (n != m), "different when not as many bytes");
    check((a < b) == (n < m), "ordered by the number of bytes");
    check((a <= b) == (n <= m), "ordered by the number of bytes");
    check((a > b) == (n > m), "ordered by the number of bytes");
    check((a >= b) == (n >= m), "ordered by the number of bytes");
    check(implies(n == m, bytes_eq(&hashed(&a), &hashed(&b))), "equal sizes have equal hashes");
    cover("compared");
}

pub fn c21_convert() {
    let n = usize_("n");
    let a = ByteSize::from_bytes(n);
    check(a.in_bytes() == n, "conversion to bytes is lossless");
    let (k, m, g) = (1 << 10, 1 << 20, 1 << 30);
    match &a {
        ByteSize::Bytes(_) => {
            check(n < k, "the unit is the largest not exceeding the size");
            check(a.in_unit() == n as f64, "the amount in the unit");
            cover("bytes");
        }
        ByteSize::Kilo(_) => {
            check(n >= k && n < m, "the unit is the largest not exceeding the size");
            check(a.in_unit() == n as f64 / 1024.0, "the amount in the unit");
            cover("kilo");
        }
        ByteSize::Mega(_) => {
            check(n >= m && n < g, "the unit is the largest not exceeding the size");
            check(a.in_unit() == n as f64 / 1048576.0, "the amount in the unit");
            cover("mega");
        }
        ByteSize::Giga(_) => {
            check(n >= g, "the unit is the largest not exceeding the size");
            check(a.in_unit() == n as f64 / 1073741824.0, "the amount in the unit");
            cover("giga");
        }
    }
    check(a.in_mb() == n as f64 / 1048576.0, "the amount in megabytes");
    let b = unit(choose(4, "b"), n);
    check(b.in_mb() == n as f64 / 1048576.0, "the amount in megabytes");
    let w = b.as_bytes();
    check(w.in_bytes() == n, "kept in bytes");
    check(matches!(w, ByteSize::Bytes(_)), "kept in bytes");
    let c = ByteSize::from_bits(n);
    check(c.in_bytes() == n / 8, "a byte is eight bits");
    let d = ByteSize::from_mb(n);
    check(d.in_bytes() == if n > usize::MAX / m { usize::MAX } else { n * m }, "a megabyte is 2^20 bytes");
}

const SHOWN: &[(usize, &str)] = &[
    (0, "0.0B"),
    (1, "1.0B"),
    (1023, "1023.0B"),
    (1024, "1.0KB"),
    (1536, "1.5KB"),
    (1 << 19, "512.0KB"),
    ((1 << 20) - 1, "1024.0KB"),
    (1 << 20, "1.0MB"),
    (5 << 19, "2.5MB"),
    ((1 << 30) - 1, "1024.0MB"),
    (1 << 30, "1.0GB"),
    (10 << 30, "10.0GB"),
    (1 << 40, "1024.0GB"),
];

pub fn c21_display() {
    let (n, s) = SHOWN[choose(SHOWN.len() as u64, "case") as usize];
    let t = ByteSize::from_bytes(n).to_string();
    check(t == s, "shown in the largest unit not exceeding the size");
    cover("shown");
}

// ---- counts of merged filters ----

fn estimate(m: u64, ones: u64, k: u64) -> u64 {
    let x = ones as f64 / m as f64;
    (-(m as f64 * f64::ln(1.0 - x)) / k as f64) as u64
}

/// a serialized filter with a given background and some arbitrary bytes
fn partly(c: &Cfg, back: u64, name: &'static str, pos: &[usize]) -> (Vec<u8>, Lay) {
    let mut v = ser(&fresh(c));
    let l = lay(&v);
    for i in l.bits.0..l.bits.1 {
        v[i] = match back {
            0 => 0,
            1 => 0xff,
            2 => (i * 37) as u8 & (i >> 3) as u8,
            _ => {
                if (i - l.bits.0) / 4096 == 0 {
                    0xff
                } else {
                    (i * 29) as u8
                }
            }
        };
    }
    for i in l.cache.0..l.cache.1 {
        v[i] = (i * 13) as u8;
    }
    let mut t = vec![0u8; pos.len()];
    fill(&mut t, name);
    for (i, p) in pos.iter().enumerate() {
        v[l.bits.0 + p] = t[i];
    }
    if l.ver == 1 && l.n % 64 != 0 {
        let last = l.bits.1 - 8;
        let w = rd(&v, last) & ((1u64 << (l.n % 64)) - 1);
        v[last..last + 8].copy_from_slice(&w.to_le_bytes());
    }
    fill(&mut v[l.count..l.count + 8], "count");
    (v, l)
}

/// the estimate over the stored bits, bucket by bucket in Poppy format
fn expected(v: &[u8], l: &Lay) -> u64 {
    if l.ver == 1 {
        return estimate(l.n, pop(&v[l.bits.0..l.bits.1]), l.n_hash);
    }
    let mut n = 0u64;
    for b in 0..l.n as usize {
        let s = l.bits.0 + 4096 * b;
        n = n.saturating_add(estimate(32768, pop(&v[s..s + 4096]), l.n_hash));
    }
    n
}

pub fn c16_merge() {
    let c = cfg();
    let f = fresh(&c);
    let size = {
        let l = lay(&ser(&f));
        l.bits.1 - l.bits.0
    };
    let at = param("at", 0) as usize;
    let mut pos = vec![];
    for p in [size / 3, size.saturating_sub(1)] {
        if p < size && !pos.contains(&p) && pos.len() < 2 {
            pos.push((p + at) % size);
        }
    }
    pos.sort();
    pos.dedup();
    let backs = [(0, 0), (0, 1), (1, 1), (2, 3), (3, 3), (2, 2), (3, 1)];
    let (ba, bb) = backs[choose(backs.len() as u64, "background") as usize];
    let (va, l) = partly(&c, ba, "a", &pos);
    let (vb, _) = partly(&c, bb, "b", &pos);
    let (mut f, g) = (load(&va), load(&vb));
    let mut both = va.clone();
    let mut common = va.clone();
    for i in l.bits.0..l.bits.1 {
        both[i] |= vb[i];
        common[i] &= vb[i];
    }
    match param("what", 0) {
        0 => {
            check(f.union_merge(&g).is_ok(), "same parameters merge");
            let e = expected(&both, &l);
            observe("count", f.count_estimate());
            check(f.count_estimate() == e, "the count is the estimate over the merged bits");
            check(f.is_full() == (e as usize >= c.cap), "full when the estimate reaches the capacity");
            cover("merged");
        }
        1 => {
            if let (BloomFilter::V2(f), BloomFilter::V2(g)) = (&mut f, &g) {
                check(f.intersection_merge(g).is_ok(), "same parameters merge");
                let e = expected(&common, &l);
                observe("count", f.count_estimate());
                check(f.count_estimate() == e, "the count is the estimate over the common bits");
                cover("merged");
            }
        }
        _ => {
            let a = f.count_common_entries(&g);
            let b = g.count_common_entries(&f);
            check(a.is_ok() && b.is_ok(), "same parameters compare");
            let (a, b) = (a.unwrap(), b.unwrap());
            observe("common", a as u64);
            check(a == b, "the common count is symmetric");
            check(a as u64 == expected(&common, &l), "the common count is the estimate over the common bits");
            let w = ser(&f);
            check(bytes_eq(&w[..40], &va[..40]), "counting changes nothing");
            cover("merged");
        }
    }
}

/// filters of different parameters have no common count
pub fn c16_differ() {
    let n = 22;
    let (i, j) = (choose(n, "a"), choose(n, "b"));
    assume(i != j);
    let (f, g) = (fresh(&CFGS[i as usize]), fresh(&CFGS[j as usize]));
    check(f.count_common_entries(&g).is_err(), "filters of different parameters have no common count");
    cover("refused");
}

/// statistics count what they are told
pub fn c25_stats() {
    let mut s = poppy_filters::utils::Stats::new();
    let k = choose(param("max", 6) + 1, "events");
    let mut n = [0u64; 4];
    for _ in 0..k {
        let e = choose(4, "event") as usize;
        n[e] += 1;
        match e {
            0 => s.inc_tp(),
            1 => s.inc_tn(),
            2 => s.inc_fp(),
            _ => s.inc_fn(),
        }
    }
    check(s.total() as u64 == k, "every event is counted");
    let r = s.fp_rate();
    if n[1] + n[2] == 0 {
        check(r.is_nan(), "no rate without negatives");
        cover("none");
    } else {
        check(r == n[2] as f64 / (n[1] + n[2]) as f64, "the rate is that of the wrong answers among the negatives");
        cover("rate");
    }
}

/// a function is measured as often as asked for
pub fn c25_benchmark() {
    let k = 1 + choose(param("max", 6), "runs") as u32;
    let mut calls = 0u32;
    let start = std::time::Instant::now();
    let d = poppy_filters::utils::benchmark(|| calls += 1, k);
    let all = start.elapsed();
    check(calls == k, "called as often as asked for");
    check(d <= all, "no call takes longer than all calls");
    poppy_filters::utils::time_it_once(|| calls += 1);
    check(calls == k + 1, "called once");
    cover("measured");
}

// ---- inspection ----

/// A stored filter with a constant background and some arbitrary bytes around `at`
fn windowed(c: &Cfg) -> (Vec<u8>, Lay) {
    let mut v = ser(&fresh(c));
    let l = lay(&v);
    let n = l.bits.1 - l.bits.0;
    if n > 0 {
        let back = choose(3, "background");
        for i in 0..n {
            v[l.bits.0 + i] = [0, 0xff, (i * 37) as u8][back as usize];
        }
        let p = [0, n / 2, n - 2, n & !8, (n - 1) & !4095][param("at", 0) as usize];
        let p = l.bits.0 + p.min(n - 2);
        fill(&mut v[p..p + 2], "bits");
    }
    fill(&mut v[l.cache.0..l.cache.1], "cache");
    if l.ver == 1 && l.n % 64 != 0 {
        let last = l.bits.1 - 8;
        let w = rd(&v, last) & ((1u64 << (l.n % 64)) - 1);
        v[last..last + 8].copy_from_slice(&w.to_le_bytes());
    }
    fill(&mut v[l.count..l.count + 8], "count");
    v.extend_from_slice(&[1, 2, 3]);
    (v, l)
}

/// The numbers of set and unset bits and the dimensions are those of what is stored
pub fn c26_numbers() {
    let (v, l) = windowed(&cfg());
    let n = l.bits.1 - l.bits.0;
    let (a, z, size) = match load(&v) {
        BloomFilter::V1(f) => {
            check(f.n_bits() == l.n, "the number of bits is the stored one");
            check(f.n_hash_fn() == l.n_hash, "the number of hash functions is the stored one");
            check(f.size_in_u64() * 8 == n, "the number of words is the stored one");
            (f.count_ones(), f.count_zeros(), f.size_in_bytes())
        }
        BloomFilter::V2(f) => (f.count_ones(), f.count_zeros(), f.size_in_bytes() - (l.cache.1 - l.cache.0)),
    };
    observe("ones", a as u64);
    check(size == n, "the size is the stored one");
    check(a as u64 == pop(&v[l.bits.0..l.bits.1]), "the set bits are counted");
    check(a + z == 8 * n, "set and unset bits add up to the size");
    cover("counted");
}

/// The bits of a DCSO filter, in any state
pub fn c26_bits() {
    let (f, v, l) = any_filter(&cfg());
    let f = match f {
        BloomFilter::V1(f) => f,
        _ => return,
    };
    let b = f.bits();
    check(b.len() as u64 == l.n, "as many bits as there are");
    for i in 0..b.len() {
        let w = rd(&v, l.bits.0 + i / 64 * 8);
        check(b[i] == (w >> (i % 64) & 1 == 1), "every bit is the stored one");
    }
    let mut w = Vec::new();
    f.write(&mut w).unwrap();
    check_all(&w, &v, &l, true, true, "looking changes nothing");
    cover("listed");
}

/// The estimated false positive probability follows the count
pub fn c26_estimate() {
    let c = cfg();
    let v = ser(&fresh(&c));
    let l = lay(&v);
    let at = |n: u64| {
        let mut w = v.clone();
        w[l.count..l.count + 8].copy_from_slice(&n.to_le_bytes());
        match load(&w) {
            BloomFilter::V1(f) => f.estimated_p(),
            _ => 0.0,
        }
    };
    let mut last = 0.0;
    for q in 0..=8 {
        let p = at(c.cap as u64 * q / 4);
        check(p >= last && p <= 1.0, "more elements, more false positives");
        last = p;
    }
    check(at(0) == 0.0, "none in an empty filter");
    let p = at(c.cap as u64);
    check(p < c.fpp * 1.15 && p > c.fpp * 0.85, "at capacity it is the one asked for");
    cover("estimated");
}
