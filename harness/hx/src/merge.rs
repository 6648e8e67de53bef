//! union, intersection
use crate::common::*;

fn two(c: &Cfg) -> (Vec<u8>, Vec<u8>, Lay) {
    let (mut a, l) = any_bytes(c, "bits_a", "count_a");
    let (mut b, _) = any_bytes(c, "bits_b", "count_b");
    fill(&mut a[l.cache.0..l.cache.1], "cache_a");
    a.extend_from_slice(&bytes::<2>("data_a"));
    b.extend_from_slice(&bytes::<3>("data_b"));
    (a, b, l)
}

fn combine(inter: bool) {
    let c = cfg();
    let (a, b, l) = two(&c);
    let (f, g) = (load(&a), load(&b));
    let x = value("x");
    let old = f.clone();
    // who contained the value
    let who = choose(if inter { 2 } else { 3 }, "who");
    if inter {
        if who == 0 {
            assume(f.contains_bytes(&x));
            assume(g.contains_bytes(&x));
        }
    } else if who == 0 {
        assume(f.contains_bytes(&x));
    } else if who == 1 {
        assume(g.contains_bytes(&x));
    }
    let mut f = f;
    let r = match (&mut f, &g) {
        (BloomFilter::V2(s), BloomFilter::V2(o)) if inter => s.intersection_merge(o),
        _ => f.union_merge(&g),
    };
    check(r.is_ok(), "filters of equal parameters merge");
    cover("merged");
    let w = ser(&f);
    let gw = ser(&g);
    check(w.len() == a.len(), "a merge does not change the size");
    check(gw.len() == b.len(), "a merge does not change the size of the other filter");
    for (lo, hi) in [l.cache, l.bits] {
        if l.ver == 1 && hi - lo <= 2000 {
            // an arbitrary bit of every word
            let k = 1u64 << below(64, "bit");
            let mut ok = true;
            for i in (lo..hi).step_by(8) {
                let (p, q) = (rd(&a, i) & k != 0, rd(&b, i) & k != 0);
                ok = and(ok, (rd(&w, i) & k != 0) == or(p, q));
            }
            check(ok, "the result stores exactly the merged bits");
        } else if l.ver == 1 && lo < hi {
            let k = 1u64 << below(64, "bit");
            let i = lo + 8 * below((hi - lo) as u64 / 8, "word") as usize;
            let (p, q) = (peek8(&a, i) & k != 0, peek8(&b, i) & k != 0);
            check((peek8(&w, i) & k != 0) == or(p, q), "the result stores exactly the merged bits");
        } else if lo < hi {
            let i = lo + below((hi - lo) as u64, "i") as usize;
            let (p, q) = (peek(&a, i), peek(&b, i));
            let e = if inter { p & q } else { p | q };
            observe("byte", peek(&w, i) as u64);
            check(peek(&w, i) == e, "the result stores exactly the merged bits");
        }
    }
    let m = "a merge keeps parameters and data of the target";
    check_same(&w, &a, 0, l.count, m);
    check_same(&w, &a, l.count + 8, l.cache.0, m);
    check_same(&w, &a, l.cache.1, l.bits.0, m);
    check_same(&w, &a, l.data, a.len(), m);
    check_all(&gw, &b, &l, true, true, "a merge leaves the other filter alone");
    match (inter, who) {
        (false, 0) | (false, 1) => {
            check(f.contains_bytes(&x), "a value either contained is contained in the union");
            cover("contained");
        }
        (true, 0) => {
            check(f.contains_bytes(&x), "a value both contained is contained in the intersection");
            cover("contained");
        }
        (true, _) => {
            assume(f.contains_bytes(&x));
            check(old.contains_bytes(&x), "a value of the intersection was contained in the first");
            check(g.contains_bytes(&x), "a value of the intersection was contained in the second");
            cover("contained by both");
        }
        _ => {
            // merging with itself changes nothing but the count
            let mut o = old.clone();
            let r = o.union_merge(&old);
            check(r.is_ok(), "a filter merges with itself");
            let z = ser(&o);
            check_same(&z, &a, l.cache.0, l.cache.1, "merging with itself changes nothing");
            check_same(&z, &a, l.bits.0, l.bits.1, "merging with itself changes nothing");
            cover("with itself");
        }
    }
}

pub fn c03_union() {
    combine(false)
}
pub fn c04_inter() {
    combine(true)
}

/// The consuming forms do the same as the in-place ones (Poppy format)
fn consuming(inter: bool) {
    let c = cfg();
    let (a, b, _) = two(&c);
    let (f, g) = (load(&a), load(&b));
    let mut f2 = f.clone();
    let (f, g) = match (f, g) {
        (BloomFilter::V2(f), BloomFilter::V2(g)) => (f, g),
        _ => return,
    };
    let m = match &mut f2 {
        BloomFilter::V2(m) => m,
        _ => return,
    };
    let r = if inter {
        m.intersection_merge(&g).unwrap();
        f.intersection(g)
    } else {
        m.union_merge(&g).unwrap();
        f.union(g)
    };
    cover("merged");
    let (mut p, mut q) = (vec![], vec![]);
    r.unwrap().write(&mut p).unwrap();
    m.write(&mut q).unwrap();
    check_all(&p, &q, &lay(&p), true, true, "both forms give the same filter");
}
pub fn c03_owned() {
    consuming(false)
}
pub fn c04_owned() {
    consuming(true)
}

/// Filters that differ in one parameter are refused and left alone
fn differ(inter: bool) {
    let c = CFGS[if inter { choose(4, "cfg") as usize + 4 } else { [4, 5, 12, 17, 0][choose(5, "cfg") as usize] }];
    let (mut a, l) = any_bytes(&c, "bits_a", "count_a");
    let mut d = c;
    let how = choose(7, "how");
    match how {
        0 => d.cap += 1,
        1 => d.fpp = c.fpp * 0.999,
        2 => {
            if c.ver == 1 {
                return;
            }
            d.opt = (c.opt + 1) % 4
        }
        3 => {
            if inter {
                return;
            }
            d.ver = 3 - c.ver
        }
        // different dimensions under the same header
        4 => {}
        5 => {}
        _ => {}
    }
    let (mut b, m) = any_bytes(&d, "bits_b", "count_b");
    match how {
        4 => b[24..32].copy_from_slice(&(m.n_hash + 1).to_le_bytes()),
        5 => {
            if c.ver == 2 {
                // one more bucket
                b[48 + (m.cache.1 - m.cache.0)..][..8].copy_from_slice(&(m.n + 1).to_le_bytes());
                b.resize(b.len() + 4096, 0);
            } else {
                b[32..40].copy_from_slice(&(m.n + 64).to_le_bytes());
                b.resize(b.len() + 8, 0);
            }
        }
        6 => {
            if m.cache.0 == m.cache.1 {
                return;
            }
            // a smaller index cache
            a[40..48].copy_from_slice(&(8 * (m.cache.1 - m.cache.0 + 1) as u64).to_le_bytes());
            a.insert(48, 0);
        }
        _ => {}
    }
    let _ = l;
    let (mut f, g) = (load(&a), load(&b));
    let r = match (&mut f, &g) {
        (BloomFilter::V2(s), BloomFilter::V2(o)) if inter => s.intersection_merge(o),
        _ => f.union_merge(&g),
    };
    match how {
        0 => cover("capacity"),
        1 => cover("fpp"),
        2 => cover("opt"),
        3 => cover("version"),
        4 => cover("hashes"),
        5 => cover("dimensions"),
        _ => cover("cache"),
    }
    check(r.is_err(), "filters of different parameters do not merge");
    check(!f.has_same_params(&g), "and do not have the same parameters");
    check(f.count_common_entries(&g).is_err(), "and have no count of common entries");
    let (p, q) = (ser(&f), ser(&g));
    check_all(&p, &a, &lay(&a), true, true, "a refused merge does not change the target");
    check_all(&q, &b, &lay(&b), true, true, "a refused merge does not change the other filter");
}
pub fn c03_differ() {
    differ(false)
}
pub fn c04_differ() {
    differ(true)
}
