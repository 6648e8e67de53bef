//! insertion, lookup, counting, clearing
use crate::common::*;

fn cov(r: &Result<bool, Error>) {
    match r {
        Ok(true) => cover("new"),
        Ok(false) => cover("already there"),
        Err(_) => cover("refused"),
    }
}

/// A successful insertion into a filter in any state makes the value found.
pub fn c01_insert() {
    let c = cfg();
    let (mut f, _, _) = any_filter(&c);
    let x = value("x");
    let r = f.insert_bytes(&x);
    observe("r", seen(&r));
    cov(&r);
    if r.is_ok() {
        check(f.contains_bytes(&x), "an inserted value is contained");
    }
}

/// A contained value stays contained whatever is inserted or refused afterwards.
pub fn c01_keep() {
    let c = cfg();
    let (mut f, _, _) = any_filter(&c);
    let x = value("x");
    assume(f.contains_bytes(&x));
    let y = value2("y");
    let r = f.insert_bytes(&y);
    observe("r", seen(&r));
    cov(&r);
    check(f.contains_bytes(&x), "a contained value stays contained after another insertion");
}

/// Through the public calls only, starting from a new filter.
pub fn c01_fresh() {
    let c = cfg();
    let mut f = fresh(&c);
    let x = value("x");
    let y = value2("y");
    let r = f.insert_bytes(&x);
    let s = f.insert_bytes(&y);
    observe("r", seen(&r));
    observe("s", seen(&s));
    cov(&r);
    if r.is_ok() {
        check(f.contains_bytes(&x), "the first inserted value is contained");
    }
    if s.is_ok() {
        check(f.contains_bytes(&y), "the second inserted value is contained");
    }
}

/// contained => inserting again is Ok(false) and changes nothing; no cache: absent => never Ok(false)
pub fn c02() {
    let c = cfg();
    let (mut f, v, l) = any_filter(&c);
    let x = value("x");
    let had = f.contains_bytes(&x);
    let r = f.insert_bytes(&x);
    observe("had", had as u64);
    observe("r", seen(&r));
    if had {
        cover("reported present");
        check(matches!(r, Ok(false)), "a value reported present is accepted as already present");
        let w = ser(&f);
        check_all(&w, &v, &l, true, true, "its insertion changes nothing");
    } else {
        cover("reported absent");
        if l.cache.0 == l.cache.1 {
            check(!matches!(r, Ok(false)), "a value reported absent is never accepted as already present");
        }
    }
}

/// Counting and capacity, for any capacity, count and content
pub fn c09() {
    let c = cfg();
    let (mut v, l) = any_bytes(&c, "bits", "count");
    if c.cap > 0 {
        fill(&mut v[8..16], "capacity");
    }
    let mut f = load(&v);
    let cap = rd(&v, 8);
    let n = rd(&v, l.count);
    check(f.count_estimate() == n, "the count is the stored one");
    check(f.capacity() as u64 == cap, "the capacity is the stored one");
    let full = f.is_full();
    observe("full", full as u64);
    let x = value("x");
    let r = f.insert_bytes(&x);
    observe("r", seen(&r));
    cov(&r);
    let w = ser(&f);
    check(w.len() == v.len(), "insertion does not change the size");
    check(full == (n >= cap), "full exactly when the count has reached the capacity");
    match r {
        Ok(true) => {
            check(n < cap, "new elements are accepted only below capacity");
            check(f.count_estimate() == n + 1, "a new element adds one to the count");
            let m = "insertion leaves the parameters alone";
            check_same(&v, &w, 0, l.count, m);
            check_same(&v, &w, l.count + 8, l.cache.0, m);
            check_same(&v, &w, l.cache.1, l.bits.0, m);
        }
        Ok(false) => {
            check(cap > 0, "a filter of capacity zero refuses everything");
            check(f.count_estimate() == n, "a present element leaves the count alone");
            check_all(&v, &w, &l, false, true, "a present element leaves the filter alone");
        }
        Err(e) => {
            check(matches!(e, Error::TooManyEntries), "the error says there are too many entries");
            check(n >= cap, "insertion is refused only at capacity");
            check(f.count_estimate() == n, "a refused element leaves the count alone");
            check_all(&v, &w, &l, true, true, "a refused element leaves the filter alone");
        }
    }
}

/// Clearing a filter in any state gives a new filter
pub fn c10() {
    let c = cfg();
    let (mut v, _) = any_bytes(&c, "bits", "count");
    let d = bytes::<3>("data");
    v.extend_from_slice(&d);
    let mut f = load(&v);
    f.clear();
    let g = fresh(&c);
    check(f.count_estimate() == 0, "a cleared filter counts no element");
    check(f.is_full() == g.is_full(), "a cleared filter is as full as a new one");
    let w = ser(&f);
    let z = ser(&g);
    check(w.len() >= z.len(), "a cleared filter has the size of a new one");
    check_all(&w[..z.len()], &z, &lay(&z), true, true, "a cleared filter stores what a new one stores");
    let x = value("x");
    let (a, b) = (f.contains_bytes(&x), g.contains_bytes(&x));
    observe("a", a as u64);
    check(a == b, "a cleared filter answers like a new one");
    let (mut f, mut g) = (f, g);
    let r = f.insert_bytes(&x);
    let s = g.insert_bytes(&x);
    check(seen(&r) == seen(&s), "a cleared filter accepts what a new one accepts");
    check(f.count_estimate() == g.count_estimate(), "and counts it the same");
    cover("done");
}
