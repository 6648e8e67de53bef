//! entry points, construction, merged counts
use crate::common::*;
use std::io::Cursor;

type F2 = v2::BloomFilter;

fn insert_via(f: &mut BloomFilter, how: u64, x: &[u8]) -> Result<bool, Error> {
    // the string entry points only when the bytes are text
    match how {
        0 => f.insert_bytes(x),
        1 => f.insert_bytes(x.to_vec()),
        2 => f.insert_bytes(std::str::from_utf8(x).unwrap()),
        3 => f.insert_bytes(String::from_utf8(x.to_vec()).unwrap()),
        4 => match f {
            BloomFilter::V1(b) => b.insert_bytes(x),
            BloomFilter::V2(b) => b.insert_bytes(x),
        },
        _ => match f {
            BloomFilter::V1(b) => b.insert_bytes(x.to_vec()),
            BloomFilter::V2(b) => match how {
                5 => b.insert(&x),
                6 => b.insert(&x.to_vec()),
                7 => b.insert(&std::str::from_utf8(x).unwrap()),
                8 => b.insert(&String::from_utf8(x.to_vec()).unwrap()),
                9 => b.insert_iter(F2::build_index_iter(&x)),
                10 => b.insert_iter(F2::build_index_iter(&x.to_vec())),
                11 => b.insert_iter(F2::build_index_iter(&std::str::from_utf8(x).unwrap())),
                _ => b.insert_iter(F2::build_index_iter(&String::from_utf8(x.to_vec()).unwrap())),
            },
        },
    }
}

fn contains_via(f: &BloomFilter, how: u64, x: &[u8]) -> bool {
    match how {
        0 => f.contains_bytes(x),
        1 => f.contains_bytes(x.to_vec()),
        2 => f.contains_bytes(std::str::from_utf8(x).unwrap()),
        3 => f.contains_bytes(String::from_utf8(x.to_vec()).unwrap()),
        4 => match f {
            BloomFilter::V1(b) => b.contains_bytes(x),
            BloomFilter::V2(b) => b.contains_bytes(x),
        },
        _ => match f {
            BloomFilter::V1(b) => b.contains_bytes(x.to_vec()),
            BloomFilter::V2(b) => match how {
                5 => b.contains(&x),
                6 => b.contains(&x.to_vec()),
                7 => b.contains(&std::str::from_utf8(x).unwrap()),
                8 => b.contains(&String::from_utf8(x.to_vec()).unwrap()),
                9 => b.contains_iter(F2::build_index_iter(&x)).unwrap(),
                10 => b.contains_iter(F2::build_index_iter(&x.to_vec())).unwrap(),
                11 => b.contains_iter(F2::build_index_iter(&std::str::from_utf8(x).unwrap())).unwrap(),
                _ => b.contains_iter(F2::build_index_iter(&String::from_utf8(x.to_vec()).unwrap())).unwrap(),
            },
        },
    }
}

const TEXT: &[u64] = &[2, 3, 7, 8, 11, 12];

/// An arbitrary value; text of one-byte characters when the entry point asks for text
fn subject(how: u64) -> Vec<u8> {
    let x = value("x");
    if TEXT.contains(&how) {
        for b in &x {
            assume(*b < 128);
        }
    }
    x
}

/// every way to insert has the effect of inserting the bytes
pub fn c13_insert() {
    let c = cfg();
    let (mut f, v, l) = any_filter(&c);
    let mut g = load(&v);
    let how = 1 + choose(if c.ver == 1 { 4 } else { 12 }, "how");
    let x = subject(how);
    let r = f.insert_bytes(&x[..]);
    let s = insert_via(&mut g, how, &x);
    observe("r", seen(&r));
    check(seen(&r) == seen(&s), "same result through every entry point");
    let (p, q) = (ser(&f), ser(&g));
    check_all(&p, &q, &l, true, true, "same bits set through every entry point");
    cover("inserted");
}

/// every way to look up gives the same answer
pub fn c13_contains() {
    let c = cfg();
    let (f, _, _) = any_filter(&c);
    let how = 1 + choose(if c.ver == 1 { 4 } else { 12 }, "how");
    let x = subject(how);
    let a = f.contains_bytes(&x[..]);
    let b = contains_via(&f, how, &x);
    observe("a", a as u64);
    check(a == b, "same answer through every entry point");
    cover("looked up");
}

/// inserting a list is inserting its values one after the other
pub fn c13_fill() {
    let c = cfg();
    let (mut f, v, l) = any_filter(&c);
    let mut g = load(&v);
    let x = value("x");
    let y = value2("y");
    let n = choose(3, "n");
    let s = match n {
        0 => f.fill(Vec::<Vec<u8>>::new()),
        1 => f.fill(vec![&x[..]]),
        _ => f.fill(vec![x.clone(), y.clone()]),
    };
    let mut r = true;
    if n > 0 {
        r = g.insert_bytes(&x).is_ok();
    }
    if n > 1 && r {
        r = g.insert_bytes(&y).is_ok();
    }
    observe("r", r as u64);
    check(r == s.is_ok(), "filling succeeds when all insertions do");
    check(f.count_estimate() == g.count_estimate(), "same count");
    if r {
        let (p, q) = (ser(&f), ser(&g));
        check_all(&p, &q, &l, true, true, "same bits set");
        cover("filled");
    }
}

/// a prepared iterator is a value: it can be used again and elsewhere
pub fn c13_iter() {
    let c = cfg();
    let (f, _, l) = any_filter(&c);
    let mut f = match f {
        BloomFilter::V2(b) => b,
        _ => unreachable!(),
    };
    let mut g = f.clone();
    let mut h = fresh(&Cfg { ver: 2, cap: 20, fpp: 0.1, opt: 3 });
    let x = value("x");
    let y = value2("y");
    let it = F2::build_index_iter(&&x[..]);
    let a = f.contains_iter(it);
    if let BloomFilter::V2(h) = &mut h {
        check(h.insert_iter(it).is_ok(), "usable on another filter");
    }
    // used between
    let r = g.insert_iter(it);
    let s = f.insert_bytes(&x);
    observe("r", seen(&r));
    check(a.is_ok(), "usable for a lookup");
    check(seen(&r) == seen(&s), "usable after other uses");
    if r.is_ok() {
        check(matches!(g.contains_iter(it), Ok(true)), "contained when looked up with the same iterator");
        check(g.contains_bytes(&x), "contained when looked up with the value");
        check(matches!(g.insert_iter(it), Ok(false)), "present when inserted again");
        cover("inserted");
    }
    let _ = y;
    let (mut p, mut q) = (vec![], vec![]);
    f.write(&mut p).unwrap();
    g.write(&mut q).unwrap();
    check_all(&p, &q, &l, true, true, "same bits set");
    check(h.contains_bytes(&x), "inserted into the other filter");
}

/// an iterator that was not prepared
pub fn c13_uninit() {
    let c = cfg();
    let (f, v, l) = any_filter(&c);
    let mut f = match f {
        BloomFilter::V2(b) => b,
        _ => unreachable!(),
    };
    check(f.insert_iter(Default::default()).is_err(), "an iterator without value is not insertable");
    check(f.contains_iter(Default::default()).is_err(), "an iterator without value cannot be looked up");
    let mut p = vec![];
    f.write(&mut p).unwrap();
    check_all(&p, &v, &l, true, true, "and nothing has changed");
    cover("refused");
}

macro_rules! each {
    ($f:ident, $how:ident; $($n:literal $e:expr),* $(,)?) => {
        match $how {
            $($n => {
                let e = $e;
                let it = F2::build_index_iter(&e);
                let a = $f.contains(&e);
                check(matches!($f.contains_iter(it), Ok(b) if b == a), "same answer with a prepared iterator");
                let mut g = $f.clone();
                let r = $f.insert(&e);
                let s = g.insert_iter(it);
                check(seen(&r) == seen(&s), "same result with a prepared iterator");
                observe("r", seen(&r));
                if r.is_ok() {
                    check($f.contains(&e), "an inserted value is contained");
                    check(matches!($f.insert(&e), Ok(false)), "and not new again");
                    check(matches!($f.contains_iter(it), Ok(true)), "also with a prepared iterator");
                    cover("inserted");
                }
                (r, g)
            })*
            _ => unreachable!(),
        }
    };
}

/// values that are not byte strings
pub fn c13_other() {
    let c = cfg();
    let (f, _, l) = any_filter(&c);
    let mut f = match f {
        BloomFilter::V2(b) => b,
        _ => unreachable!(),
    };
    let n = u64_("n");
    let how = choose(12, "how");
    let (_, g) = each!(f, how;
        0 n as u8, 1 n as u16, 2 n as u32, 3 n, 4 n as u128 * 3, 5 n as usize,
        6 n as i8, 7 n as i32, 8 n as i64, 9 (n as i128) << 3,
        10 if n & 1 == 0 { None } else { Some(n) },
        11 if n & 1 == 0 { None } else { Some(n as u16) },
    );
    let (mut p, mut q) = (vec![], vec![]);
    f.write(&mut p).unwrap();
    g.write(&mut q).unwrap();
    check_all(&p, &q, &l, true, true, "same bits set");
}

// ---- construction ----

fn bad(p: f64) -> bool {
    !and(p >= f64::MIN_POSITIVE, p <= 1.0)
}

/// impossible probabilities are refused by every constructor
pub fn c15_fpp() {
    let p = f64_("fpp");
    assume(bad(p));
    let cap = [0usize, 1, 7, 1000, usize::MAX][choose(5, "cap") as usize];
    let o = opt_of(choose(4, "opt") as u8);
    let ver = 1 + choose(2, "ver") as u8;
    let r = match choose(8, "ctor") {
        0 => BloomFilter::with_version_capacity_opt(ver, cap, p, o),
        1 => BloomFilter::with_version_capacity(ver, cap, p),
        2 => BloomFilter::with_capacity(cap, p),
        3 => BloomFilter::try_from(Params::new(cap, p).version(ver).opt(o)),
        4 => v1::BloomFilter::with_capacity(cap as u64, p).map(BloomFilter::V1),
        5 => v2::BloomFilter::with_capacity(cap as u64, p).map(BloomFilter::V2),
        6 => Params::new(cap, p).version(ver).opt(o).try_into_v1().map(BloomFilter::V1),
        _ => Params::new(cap, p).version(ver).opt(o).try_into_v2().map(BloomFilter::V2),
    };
    check(matches!(r, Err(Error::WrongFpp(q)) if q.to_bits() == p.to_bits()), "an impossible probability is refused");
    cover("refused");
}

/// every byte as version, every byte as optimisation level
pub fn c15_bytes() {
    let b = u8_("byte");
    let cap = [0usize, 1, 7, 1000][choose(4, "cap") as usize];
    let fpp = [1.0, 0.5, 0.01, 1e-9][choose(4, "fpp") as usize];
    if choose(2, "which") == 0 {
        let r = match choose(3, "ctor") {
            0 => BloomFilter::with_version_capacity_opt(b, cap, fpp, OptLevel::Space),
            1 => BloomFilter::with_version_capacity(b, cap, fpp),
            _ => BloomFilter::try_from(Params::new(cap, fpp).version(b)),
        };
        observe("ok", r.is_ok() as u64);
        match r {
            Ok(f) => {
                check(b == 1 || b == 2, "only versions 1 and 2 exist");
                check(f.version() == b, "the version asked for");
                cover("version");
            }
            Err(e) => {
                check(b != 1 && b != 2, "versions 1 and 2 exist");
                check(matches!(e, Error::InvalidVersion(v) if v == b), "the error names the version");
            }
        }
    } else {
        match OptLevel::try_from(b) {
            Ok(o) => {
                check(b <= 3, "only levels 0 to 3 exist");
                let f = BloomFilter::with_version_capacity_opt(2, cap, fpp, o).unwrap();
                let v = ser(&f);
                check(v[1] == b, "the level asked for");
                cover("level");
            }
            Err(e) => {
                check(b > 3, "levels 0 to 3 exist");
                check(matches!(e, OptLevelError::Invalid(v) if v == b), "the error names the level");
            }
        }
    }
}

/// a new filter is empty and what was asked for, whatever the probability
pub fn c15_new() {
    let cap = CAPS[param("cap", 0) as usize];
    let ver = param("ver", 2) as u8;
    let fpp = FPPS[choose(FPPS.len() as u64, "fpp") as usize];
    let o = choose(4, "opt") as u8;
    let oo = opt_of(o);
    let r = match choose(if ver == 2 && o == 0 { 6 } else if ver == 2 || o == 0 { 4 } else { 2 }, "ctor") {
        0 => BloomFilter::with_version_capacity_opt(ver, cap, fpp, oo),
        1 => BloomFilter::try_from(Params::new(cap, fpp).version(ver).opt(oo)),
        2 if ver == 1 => v1::BloomFilter::with_capacity(cap as u64, fpp).map(BloomFilter::V1),
        3 if ver == 1 => Params::new(cap, fpp).try_into_v1().map(BloomFilter::V1),
        2 => Params::new(cap, fpp).opt(oo).try_into_v2().map(BloomFilter::V2),
        3 => Params::new(cap, fpp).version(1).opt(oo).try_into_v2().map(BloomFilter::V2),
        4 => BloomFilter::with_capacity(cap, fpp),
        _ => v2::BloomFilter::with_capacity(cap as u64, fpp).map(BloomFilter::V2),
    };
    check(r.is_ok(), "a possible probability is accepted");
    let f = r.unwrap();
    check(f.version() == ver, "the version asked for");
    check(f.capacity() == cap, "the capacity asked for");
    check(f.fpp().to_bits() == fpp.to_bits(), "the probability asked for");
    check(f.count_estimate() == 0, "no element");
    check(f.is_full() == (cap == 0), "not full");
    check(f.data().is_empty(), "no data");
    let v = ser(&f);
    let l = lay(&v);
    check(f.size_in_bytes() == l.cache.1 - l.cache.0 + l.bits.1 - l.bits.0, "the size is that of the bit storage");
    check(v.len() == l.data, "nothing else is stored");
    check(v[0] == ver, "the version asked for");
    check(v[1] == if ver == 2 { o } else { 0 }, "the optimisation level asked for");
    observe("size", f.size_in_bytes() as u64);
    for b in &v[l.cache.0..l.cache.1] {
        check(*b == 0, "no bit is set");
    }
    for b in &v[l.bits.0..l.bits.1] {
        check(*b == 0, "no bit is set");
    }
    check(l.cache.1 - l.cache.0 == if ver == 2 && o >= 2 { (cap.next_power_of_two() + 7) / 8 } else { 0 }, "an index cache at the levels that have one");
    cover("made");
}

const CAPS: &[usize] = &[0, 1, 2, 3, 7, 22, 100, 1000, 5000, 30000];
const FPPS: &[f64] = &[1.0, 1.0 - f64::EPSILON / 2.0, 0.9999999, 0.95, 0.75, 0.5, 0.3, 0.1, 0.01, 0.001, 1e-6, 1e-12, f64::EPSILON, 1e-20, 1e-100, 3e-308, f64::MIN_POSITIVE];

/// sharing parameters is being made from the same ones
pub fn c15_same() {
    let n = 22;
    let (i, j) = (choose(n, "a"), choose(n, "b"));
    let (a, b) = (CFGS[i as usize], CFGS[j as usize]);
    let (f, g) = (fresh(&a), fresh(&b));
    let same = a.ver == b.ver && a.cap == b.cap && a.fpp == b.fpp && (a.ver == 1 || a.opt == b.opt);
    check(f.has_same_params(&g) == same, "filters have the same parameters when made from the same ones");
    check(f.has_same_params(&f), "a filter has the parameters of itself");
    let p = BloomFilter::from_reader(Cursor::new(ser(&f))).unwrap();
    check(p.has_same_params(&g) == same, "also when read from a file");
    cover("compared");
}
