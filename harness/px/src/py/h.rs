use super::BloomFilter as Py;
use crate::common::*;
use pyo3::{PyModule, PyResult, Python};

fn raw(f: &Py) -> Vec<u8> {
    let r = f.dumps(Python::assume());
    check(r.is_ok(), "dumping succeeds");
    r.unwrap().as_bytes().to_vec()
}
fn of_bytes(v: &[u8]) -> Py {
    let r = super::loads(v.to_vec());
    check(r.is_ok(), "what was dumped can be loaded");
    r.unwrap()
}

fn check_eq(a: &[u8], b: &[u8], m: &'static str) {
    check(a.len() == b.len(), m);
    let mut ok = true;
    for i in 0..a.len() {
        ok = and(ok, a[i] == b[i]);
    }
    check(ok, m);
}

/// inserting and looking up means the same in the library
pub fn c20_value() {
    let c = cfg();
    let (v, _) = any_bytes(&c, "bits", "count");
    let mut f = of_bytes(&v);
    let mut g = load(&v);
    let x = value("x");
    let text = param("text", 0) == 1;
    if text {
        for b in &x {
            assume(*b < 0x80);
        }
    }
    let s = || unsafe { std::str::from_utf8_unchecked(&x) };
    let there = g.contains_bytes(&x);
    observe("there", there as u64);
    check(f.contains_bytes(&x) == there, "bytes are found as in the library");
    if text {
        check(f.contains_str(s()) == there, "text is found as in the library");
    }
    check(f.is_full() == g.is_full(), "full as in the library");
    let want = g.insert_bytes(&x);
    let got = if text { f.insert_str(s()) } else { f.insert_bytes(&x) };
    match (&got, &want) {
        (Ok(a), Ok(b)) => {
            check(a == b, "insertion reports what the library reports");
            cover("inserted");
        }
        (Err(e), Err(w)) => {
            check(e.kind == "ValueError", "errors of the library are value errors");
            check(e.msg == w.to_string(), "errors of the library keep their message");
            cover("refused");
        }
        _ => check(false, "insertion succeeds when the library does"),
    }
    check(f.count_estimate() as u64 == g.count_estimate(), "the count is that of the library");
    check_eq(&raw(&f), &ser(&g), "the filter is that of the library");
}

fn same(got: PyResult<Py>, want: Result<BloomFilter, Error>) {
    match (got, want) {
        (Ok(f), Ok(g)) => {
            check(f.version() == g.version(), "the version");
            check(f.capacity() == g.capacity(), "the capacity");
            check(f.fpp().to_bits() == g.fpp().to_bits(), "the probability");
            check(f.count_estimate() == 0 && f.data().is_empty() && f.is_full() == g.is_full(), "empty");
            check(raw(&f) == ser(&g), "the filter is that of the library");
            cover("made");
        }
        (Err(e), Err(w)) => {
            check(e.kind == "ValueError", "errors of the library are value errors");
            check(e.msg == w.to_string(), "errors of the library keep their message");
            cover("refused");
        }
        _ => check(false, "made when the library makes it"),
    }
}

/// constructors
pub fn c20_new() {
    let cap = [0usize, 1, 5, 100, 4000][choose(5, "cap") as usize];
    let fpp = [1.0f64, 0.5, 0.1, 0.001, 0.0, -0.1, 1.5, f64::NAN, f64::INFINITY][choose(9, "fpp") as usize];
    match param("what", 0) {
        0 => same(Py::new(cap, fpp), BloomFilter::with_capacity(cap, fpp)),
        1 => {
            let ver = u8_("version");
            same(Py::with_version(ver, cap, fpp), BloomFilter::with_version_capacity(ver, cap, fpp))
        }
        _ => {
            let ver = [1u8, 2, 0, 3][choose(4, "version") as usize];
            let o = u8_("opt");
            let want = match OptLevel::try_from(o) {
                Ok(o) => BloomFilter::with_version_capacity_opt(ver, cap, fpp, o),
                Err(e) => Err(e.into()),
            };
            same(Py::with_params(ver, cap, fpp, o), want)
        }
    }
}

/// merging and counting
pub fn c20_merge() {
    let c = cfg();
    let mut d = c;
    match param("differ", 0) {
        1 => d.cap += 1,
        2 => d.fpp *= 0.75,
        3 => d.ver = 3 - d.ver,
        4 => d.opt = (d.opt + 1) % 4,
        _ => {}
    }
    let (va, _) = any_bytes(&c, "a", "na");
    let vb = any_bytes(&d, "b", "nb").0;
    let (mut f, f2) = (of_bytes(&va), of_bytes(&vb));
    let (mut g, g2) = (load(&va), load(&vb));
    let (r, w) = if param("count", 0) == 1 {
        let (r, w) = (f.count_common_entries(&f2), g.count_common_entries(&g2));
        if let (Ok(a), Ok(b)) = (&r, &w) {
            check(a == b, "the common count is that of the library");
        }
        (r.map(|_| ()), w.map(|_| ()))
    } else {
        (f.union_merge(&f2), g.union_merge(&g2))
    };
    match (r, w) {
        (Ok(_), Ok(_)) => cover("merged"),
        (Err(e), Err(w)) => {
            check(e.kind == "ValueError", "errors of the library are value errors");
            check(e.msg == w.to_string(), "errors of the library keep their message");
            cover("refused");
        }
        _ => check(false, "succeeds when the library does"),
    }
    check_eq(&raw(&f), &ser(&g), "the filter is that of the library");
    check_eq(&raw(&f2), &vb, "the other filter is left alone");
}

/// reading and writing
pub fn c20_io() {
    let c = cfg();
    let (mut v, _) = any_bytes(&c, "bits", "count");
    let mut data = vec![0u8; param("data", 3) as usize];
    fill(&mut data, "data");
    v.extend_from_slice(&data);
    let f = of_bytes(&v);
    let g = load(&v);
    check(f.version() == g.version(), "the version");
    check(f.capacity() == g.capacity(), "the capacity");
    check(f.fpp().to_bits() == g.fpp().to_bits(), "the probability");
    check(f.count_estimate() as u64 == g.count_estimate(), "the count");
    check(f.is_full() == g.is_full(), "full");
    check(bytes_eq(&f.data(), g.data()), "the data");
    check_eq(&raw(&f), &v, "dumping gives what was loaded");
    check(f.save("f.pop".into()).is_ok(), "saving succeeds");
    let w = file_read("f.pop");
    check(w.is_some(), "the file is there");
    check_eq(&w.unwrap(), &v, "the file is what was loaded");
    let h = super::load("f.pop".into());
    check(h.is_ok(), "the file can be loaded");
    let h = h.unwrap_or_else(|_| unreachable!());
    check_eq(&raw(&h), &v, "loading gives what was saved");
    // over a longer file
    file_write("g.pop", &[0xa5; 9000]);
    check(h.save("g.pop".into()).is_ok(), "saving over a file succeeds");
    check(file_read("g.pop").unwrap().len() == v.len(), "nothing of the old file is left");
    cover("done");
}

/// what is no filter
pub fn c20_bad() {
    let n = [0usize, 1, 8, 9, 24, 40, 47][choose(7, "len") as usize];
    let mut v = vec![0u8; n];
    fill(&mut v, "bytes");
    if n >= 24 {
        // the message names the probability
        let p = [0.5f64, 2.0, f64::NAN, 0.0][choose(4, "fpp") as usize];
        v[16..24].copy_from_slice(&p.to_le_bytes());
    }
    let w = BloomFilter::from_reader(std::io::Cursor::new(&v)).err();
    let r = super::loads(v.clone()).err();
    check(w.is_some() && r.is_some(), "malformed bytes are refused");
    let (w, r) = (w.unwrap(), r.unwrap());
    check(r.kind == "ValueError" && r.msg == w.to_string(), "errors of the library keep their message");
    file_write("f.pop", &v);
    let r = super::load("f.pop".into()).err();
    check(r.is_some(), "a malformed file is refused");
    let r = r.unwrap();
    check(r.kind == "ValueError" && r.msg == w.to_string(), "errors of the library keep their message");
    check(super::load("none.pop".into()).is_err(), "a missing file is refused");
    check(super::load(".".into()).is_err(), "a directory is refused");
    let f = Py::new(1, 0.1).unwrap_or_else(|_| unreachable!());
    check(f.save("no/f.pop".into()).is_err(), "an impossible file is refused");
    check(f.save(".".into()).is_err(), "an impossible file is refused");
    cover("refused");
}

/// everything is reachable from Python
pub fn c20_module() {
    let m = PyModule::default();
    check(super::poppy_py(Python::assume(), &m).is_ok(), "the module is made");
    let n = m.names.borrow();
    for x in ["BloomFilter", "load", "loads"] {
        check(n.iter().any(|y| y == x), "everything is in the module");
    }
    cover("made");
}
