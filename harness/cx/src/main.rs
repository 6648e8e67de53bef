//! The command line program, run as a process on files, standard input and arguments.
#[path = "../../hx/src/common.rs"]
#[allow(dead_code)]
mod common;
use common::*;

#[allow(dead_code, unused_imports)]
mod cli {
    include!("/repo/poppy/src/bin/poppy.rs");

    /// what the runtime makes of `main`
    pub extern "C" fn entry() -> i32 {
        let c = std::process::Termination::report(main());
        let _ = std::io::Write::flush(&mut std::io::stdout());
        let s: u8 = unsafe { std::mem::transmute(c) };
        s as i32
    }
}

fn poppy(args: &[&str], stdin: &[u8]) -> bool {
    let mut a: Vec<&[u8]> = vec![b"poppy"];
    for x in args {
        a.push(x.as_bytes());
    }
    let r = run_proc(cli::entry, &a, stdin);
    observe("ok", (r == 0) as u64);
    check(r != 101, "the program does not panic");
    r == 0
}

const NAMES: &[&str] = &["a.txt", "b.txt", "c.txt", "d.txt", "e.txt", "f.txt"];
const WORDS: &[&[u8]] = &[b"alpha", b"", b"gamma delta", b"x", b"a much longer line than the others", b"\xc3\xa9t\xc3\xa9", b"7", b"zz"];

/// an arbitrary line: bytes of one character each, none of them ends the line
fn line(n: usize, name: &'static str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, name);
    for b in &v {
        assume(and(*b < 0x80, and(*b != b'\n', *b != b'\r')));
    }
    v
}

/// `files` inputs of some lines, one arbitrary line among them. Returns the lines of each.
fn inputs(files: usize) -> Vec<Vec<Vec<u8>>> {
    let per = param("per", 2) as usize;
    let x = line(param("len", 5) as usize, "line");
    let at = if files * per > 0 { choose((files * per) as u64, "at") as usize } else { 0 };
    let mut r = vec![];
    let mut k = 0;
    for _ in 0..files {
        let mut f = vec![];
        for _ in 0..per {
            f.push(if k == at { x.clone() } else { WORDS[k % WORDS.len()].to_vec() });
            k += 1;
        }
        r.push(f);
    }
    r
}

/// with some way of ending lines, the last one possibly unfinished
fn text(lines: &[Vec<u8>], how: u64) -> Vec<u8> {
    let mut v = vec![];
    for (i, l) in lines.iter().enumerate() {
        v.extend_from_slice(l);
        if how == 1 && i + 1 == lines.len() && !l.is_empty() {
            break;
        }
        if how == 2 {
            v.push(b'\r');
        }
        v.push(b'\n');
    }
    v
}

fn jobs() -> &'static str {
    ["0", "1", "2", "3", "4", "7", "100"][param("jobs", 2) as usize]
}

fn version(c: &Cfg) -> &'static str {
    if c.ver == 1 {
        "1"
    } else {
        "2"
    }
}

/// what the program wrote
fn written(p: &str) -> Vec<u8> {
    let v = file_read(p);
    check(v.is_some(), "the filter is written");
    v.unwrap()
}

/// the bytes where inserting all the lines into the filter leads
fn with_lines(mut f: BloomFilter, fs: &[Vec<Vec<u8>>]) -> Vec<u8> {
    for ls in fs {
        for l in ls {
            let r = f.insert_bytes(l);
            check(r.is_ok(), "the line fits");
        }
    }
    ser(&f)
}

/// every bit of `b` is one of `a`
fn check_bits(a: &[u8], b: &[u8], m: &'static str) {
    check(a.len() == b.len(), m);
    let l = lay(b);
    for (lo, hi) in [l.cache, l.bits] {
        let mut ok = true;
        for i in lo..hi {
            ok = and(ok, b[i] & !a[i] == 0);
        }
        check(ok, m);
    }
}

/// the lines are found; the filter is what inserting them into `f` gives, or has more
fn check_lines(v: &[u8], f: BloomFilter, fs: &[Vec<Vec<u8>>]) {
    let w = with_lines(f, fs);
    check_bits(v, &w, "every line is in the filter");
    if v[0] == 1 {
        let f = load(v);
        let mut ok = true;
        for ls in fs {
            for l in ls {
                ok = and(ok, f.contains_bytes(l));
            }
        }
        check(ok, "every line is found");
    }
}

/// create from a dataset
pub fn c17_create() {
    let n = param("files", 2) as usize;
    let fs = inputs(n);
    let how = param("how", 0);
    for i in 0..n {
        file_write(NAMES[i], &text(&fs[i], how));
    }
    let c = cfg();
    let p = format!("{:?}", c.fpp);
    let o = ["0", "1", "2", "3"][c.opt as usize];
    let mut a = vec!["-j", jobs(), "create", "--version", version(&c), "-p", &p, "-O", o, "out.pop"];
    a.extend_from_slice(&NAMES[..n]);
    check(poppy(&a, b""), "creating from files succeeds");
    let v = written("out.pop");
    let f = load(&v);
    let total: usize = fs.iter().map(|x| x.len()).sum();
    check(f.capacity() == total, "the capacity is the number of lines");
    check(f.version() == c.ver && f.fpp() == c.fpp, "made as asked");
    check(file_count() == n as u64 + 1, "no other file");
    check_lines(&v, fresh(&Cfg { cap: total, ..c }), &fs);
    cover("created");
}

/// a filter file with something in it: anything at all (DCSO), or some words (Poppy)
fn base(c: &Cfg, room: usize) -> Vec<u8> {
    if c.ver == 1 {
        let (v, l) = any_bytes(c, "bits", "count");
        let n = rd(&v, l.count);
        assume(n <= c.cap.saturating_sub(room) as u64);
        v
    } else {
        let mut f = fresh(c);
        for w in [&b"before"[..], b"", b"something longer than that"] {
            f.insert_bytes(w).unwrap();
        }
        ser(&f)
    }
}

/// insert into an existing filter, from files, standard input or both
pub fn c17_insert() {
    let n = param("files", 2) as usize;
    let std = param("stdin", 0) == 1 || n == 0;
    let mut fs = inputs(n + std as usize);
    let how = param("how", 0);
    for i in 0..n {
        file_write(NAMES[i], &text(&fs[i], how));
    }
    let sin = if std { text(&fs[n], how) } else { vec![] };
    let c = cfg();
    let total: usize = fs.iter().map(|x| x.len()).sum();
    let old = base(&c, total);
    file_write("f.pop", &old);
    let mut a = vec!["-j", jobs(), "insert"];
    if std && n > 0 {
        a.push("--stdin");
    }
    a.push("f.pop");
    a.extend_from_slice(&NAMES[..n]);
    check(poppy(&a, &sin), "inserting succeeds");
    let v = written("f.pop");
    check(file_count() == n as u64 + 1, "no other file");
    check_bits(&v, &old, "what was there before is kept");
    check(rd(&v, 8) == rd(&old, 8) && rd(&v, 16) == rd(&old, 16), "parameters are kept");
    // standard input comes first, which does not matter
    fs.rotate_right(std as usize);
    check_lines(&v, load(&old), &fs);
    cover("inserted");
}

/// lines of arbitrary bytes
fn split(v: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut cur = vec![];
    for (i, b) in v.iter().enumerate() {
        if *b == b'\n' {
            if cur.last() == Some(&b'\r') {
                cur.pop();
            }
            r.push(std::mem::take(&mut cur));
        } else {
            cur.push(*b);
            if i + 1 == v.len() {
                r.push(std::mem::take(&mut cur));
            }
        }
    }
    r
}

/// files of arbitrary bytes
pub fn c17_any() {
    let (n, k) = (param("n", 2) as usize, param("k", 0) as usize);
    let mut d = vec![0u8; n];
    fill(&mut d, "file");
    let mut e = vec![0u8; k];
    fill(&mut e, "other");
    if param("ascii", 0) == 1 {
        for b in d.iter().chain(&e) {
            assume(*b < 0x80);
        }
    }
    let files = if k > 0 { 2 } else { 1 };
    file_write("a.txt", &d);
    file_write("b.txt", &e);
    let c = cfg();
    let p = format!("{:?}", c.fpp);
    let ins = param("insert", 0) == 1;
    let mut a = vec!["-j", jobs()];
    if ins {
        file_write("f.pop", &ser(&fresh(&c)));
        a.extend_from_slice(&["insert", "f.pop"]);
    } else {
        a.extend_from_slice(&["create", "--version", version(&c), "-p", &p, "f.pop"]);
    }
    a.extend_from_slice(&NAMES[..files]);
    let r = poppy(&a, b"");
    let fs = vec![split(&d), split(&e)];
    let total: usize = fs.iter().map(|x| x.len()).sum();
    if !r {
        let ok = std::str::from_utf8(&d).is_ok() && std::str::from_utf8(&e).is_ok();
        check(!ok || total == 0 && !ins || ins && total > c.cap, "text files are accepted");
        cover("refused");
        return;
    }
    let v = written("f.pop");
    if !ins {
        check(rd(&v, 8) == total as u64, "the capacity is the number of lines");
    }
    let f = if ins { fresh(&c) } else { fresh(&Cfg { cap: total, ..c }) };
    check_lines(&v, f, &fs);
    cover("taken");
}

/// lines of the output
fn out_lines(v: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut cur = vec![];
    for b in v {
        if *b == b'\n' {
            r.push(std::mem::take(&mut cur));
        } else {
            cur.push(*b);
        }
    }
    check(cur.is_empty(), "the output consists of lines");
    r
}

/// the same lines in any order
fn same_lines(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    let mut ok = a.len() == b.len();
    for x in b {
        let n = |s: &[Vec<u8>]| s.iter().map(|y| ite(bytes_eq(x, y), 1, 0)).sum::<u64>();
        ok = and(ok, n(a) == n(b));
    }
    ok
}

/// check prints what is contained
pub fn c18_check() {
    let n = param("files", 2) as usize;
    let std = param("stdin", 0) == 1 || n == 0;
    let fs = inputs(n + std as usize);
    let how = param("how", 0);
    for i in 0..n {
        file_write(NAMES[i], &text(&fs[i], how));
    }
    let sin = if std { text(&fs[n], how) } else { vec![] };
    let c = cfg();
    let v = if c.ver == 1 {
        any_bytes(&c, "bits", "count").0
    } else {
        let mut f = fresh(&c);
        for w in [WORDS[0], WORDS[1], WORDS[4], b"other"] {
            f.insert_bytes(w).unwrap();
        }
        ser(&f)
    };
    file_write("f.pop", &v);
    let (verify, silent) = (param("verify", 0) == 1, param("silent", 0) == 1);
    let mut a = vec!["-j", jobs(), "check"];
    if std && n > 0 {
        a.push("--stdin");
    }
    if verify {
        a.push("--verify");
    }
    if silent {
        a.push("--silent");
    }
    a.push("f.pop");
    a.extend_from_slice(&NAMES[..n]);
    check(poppy(&a, &sin), "checking succeeds");
    let out = proc_out(0);
    let now = written("f.pop");
    check(now.len() == v.len() && bytes_eq(&now, &v), "the filter file is not touched");
    check(file_count() == n as u64 + 1, "no other file");
    if silent {
        check(out.is_empty(), "silent prints nothing");
        cover("silent");
        return;
    }
    let f = load(&v);
    let mut want = vec![];
    for l in fs.iter().flatten() {
        let there = f.contains_bytes(l);
        if there != verify {
            let mut l = l.clone();
            if verify {
                l.extend_from_slice(b": NOK");
            }
            want.push(l);
        }
    }
    observe("printed", want.len() as u64);
    let got = out_lines(&out);
    check(same_lines(&got, &want), "exactly the right lines are printed");
    cover("printed");
}

fn same_file(p: &str, old: &Option<Vec<u8>>, m: &'static str) {
    let now = file_read(p);
    match (&now, old) {
        (Some(a), Some(b)) => check(bytes_eq(a, b), m),
        (None, None) => {}
        _ => check(false, m),
    }
}

/// one of the inputs cannot be read
pub fn c19_input() {
    let n = param("files", 2) as usize;
    let fs = inputs(n);
    let bad = choose(n as u64, "which") as usize;
    let why = choose(3, "why");
    let mut names = NAMES[..n].to_vec();
    for i in 0..n {
        if i != bad {
            file_write(NAMES[i], &text(&fs[i], 0));
        } else {
            match why {
                0 => {}
                1 => names[i] = ".",
                _ => {
                    let mut t = text(&fs[i], 0);
                    t.extend_from_slice(b"\xff\xfe");
                    file_write(NAMES[i], &t);
                }
            }
        }
    }
    let c = cfg();
    let create = param("create", 0) == 1;
    // create with no file, with a filter there, insert
    let old = if create && choose(2, "exists") == 0 { None } else { Some(base(&c, 2 * n)) };
    if let Some(v) = &old {
        file_write("f.pop", v);
    }
    let before = file_count();
    let mut a = vec!["-j", jobs(), if create { "create" } else { "insert" }, "f.pop"];
    a.extend_from_slice(&names);
    check(!poppy(&a, b""), "an unreadable input is a failure");
    check(file_count() == before, "no file is made or removed");
    same_file("f.pop", &old, "the filter file is not touched");
    cover("refused");
}

/// parameters nothing can be made from
pub fn c19_params() {
    const BAD: &[(&str, &str)] = &[
        ("-p", "0"), ("-p", "1.5"), ("-p", "nan"), ("-p", "inf"), ("-p", "1e-320"), ("-p", "abc"), ("-p", "1.0000000000000002"),
        ("--version", "0"), ("--version", "3"), ("--version", "255"), ("--version", "256"),
        ("-O", "4"), ("-O", "255"), ("-O", "x"), ("-c", "-1"), ("-c", "x"), ("--what", "1"),
    ];
    let (k, v) = BAD[choose(BAD.len() as u64, "params") as usize];
    let c = cfg();
    let fs = inputs(1);
    file_write("a.txt", &text(&fs[0], 0));
    let old = if choose(2, "exists") == 0 { None } else { Some(base(&c, 2)) };
    if let Some(v) = &old {
        file_write("f.pop", v);
    }
    let before = file_count();
    let mut a = vec!["create", k, v, "f.pop"];
    if choose(2, "dataset") == 1 {
        a.push("a.txt");
    }
    check(!poppy(&a, b""), "impossible parameters are a failure");
    check(file_count() == before, "no file is made or removed");
    same_file("f.pop", &old, "the filter file is not touched");
    cover("refused");
}

/// more than fits
pub fn c19_full() {
    let n = param("files", 1) as usize;
    let std = param("stdin", 0) == 1 || n == 0;
    let fs = inputs(n + std as usize);
    for i in 0..n {
        file_write(NAMES[i], &text(&fs[i], 0));
    }
    let sin = if std { text(&fs[n], 0) } else { vec![] };
    let c = cfg();
    let (old, l) = if c.ver == 1 {
        any_bytes(&c, "bits", "count")
    } else {
        let mut v = base(&c, 0);
        let l = lay(&v);
        fill(&mut v[l.count..l.count + 8], "count");
        (v, l)
    };
    let had = rd(&old, l.count);
    let cap = c.cap as u64;
    assume(had < 1 << 32);
    file_write("f.pop", &old);
    let mut a = vec!["-j", jobs(), "insert"];
    if std && n > 0 {
        a.push("--stdin");
    }
    a.push("f.pop");
    a.extend_from_slice(&NAMES[..n]);
    let r = poppy(&a, &sin);
    let mut f = load(&old);
    if param("jobs", 2) == 1 {
        let mut fits = true;
        for l in fs.iter().rev().take(std as usize).chain(fs.iter().take(n)).flatten() {
            if f.insert_bytes(l).is_err() {
                fits = false;
                break;
            }
        }
        observe("fits", fits as u64);
        check(r == fits, "succeeds when everything fits");
    } else if had >= cap {
        // nothing new fits at all
        let mut known = true;
        for l in fs.iter().flatten() {
            known = and(known, f.contains_bytes(l));
        }
        check(r == known, "nothing new is taken by a full filter");
    }
    if !r {
        same_file("f.pop", &Some(old), "the filter file is not touched");
        cover("refused");
    } else {
        cover("taken");
    }
}

/// the file to write is not a filter
pub fn c19_other() {
    let n = param("n", 10) as usize;
    let mut d = vec![0u8; n];
    fill(&mut d, "file");
    if n >= 24 {
        // error messages with any number in them are too much
        let p = [0.5f64, 2.0, f64::NAN, 0.0][choose(4, "fpp") as usize];
        d[16..24].copy_from_slice(&p.to_le_bytes());
    }
    let valid = BloomFilter::from_reader(std::io::Cursor::new(&d)).is_ok();
    let fs = inputs(1);
    file_write("a.txt", &text(&fs[0], 0));
    file_write("f.pop", &d);
    let r = match choose(4, "command") {
        0 => poppy(&["create", "f.pop"], b""),
        1 => poppy(&["create", "--version", "1", "f.pop", "a.txt"], b""),
        2 => poppy(&["insert", "f.pop", "a.txt"], b""),
        _ => poppy(&["insert", "f.pop"], b"x\n"),
    };
    if !valid {
        check(!r, "a file that is not a filter is not accepted");
        cover("refused");
    }
    if !r {
        same_file("f.pop", &Some(d), "the file is not touched");
    } else {
        cover("taken");
    }
    check(file_count() == 2, "no file is made or removed");
}

/// the file to write is a filter cut short
pub fn c19_cut() {
    let c = cfg();
    let v = if c.ver == 1 { any_bytes(&c, "bits", "count").0 } else { ser(&fresh(&c)) };
    let l = lay(&v);
    let mut cuts: Vec<usize> = (0..l.bits.0.min(64)).step_by(4).collect();
    cuts.extend_from_slice(&[47, 48, 49, 55, 56, 57, l.bits.0 + 1, l.bits.1 - 1]);
    cuts.retain(|x| *x < l.bits.1);
    cuts.sort();
    cuts.dedup();
    let d = v[..cuts[choose(cuts.len() as u64, "cut") as usize]].to_vec();
    file_write("a.txt", b"line\n");
    file_write("f.pop", &d);
    let r = match choose(4, "command") {
        0 => poppy(&["create", "f.pop"], b""),
        1 => poppy(&["create", "--version", "1", "f.pop", "a.txt"], b""),
        2 => poppy(&["insert", "f.pop", "a.txt"], b""),
        _ => poppy(&["insert", "f.pop"], b"x\n"),
    };
    check(!r, "a file that is not a filter is not accepted");
    same_file("f.pop", &Some(d), "the file is not touched");
    check(file_count() == 2, "no file is made or removed");
    cover("refused");
}

/// there is no filter
pub fn c19_absent() {
    let fs = inputs(1);
    file_write("a.txt", &text(&fs[0], 0));
    let (cmd, ok) = match choose(6, "command") {
        0 => (vec!["insert", "f.pop", "a.txt"], false),
        1 => (vec!["insert", "f.pop"], false),
        2 => (vec!["check", "f.pop", "a.txt"], false),
        3 => (vec!["show", "f.pop"], false),
        4 => (vec!["insert", ".", "a.txt"], false),
        _ => (vec!["create", ".", "a.txt"], false),
    };
    check(poppy(&cmd, b"x\n") == ok, "a missing filter is a failure");
    check(file_count() == 1, "no file is made");
    cover("refused");
}

fn digits(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        v.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    v.reverse();
    v
}
fn human(n: usize) -> Vec<u8> {
    let (k, m, g) = (1usize << 10, 1usize << 20, 1usize << 30);
    let (x, u) = if n < k {
        (n as f64, "B")
    } else if n < m {
        (n as f64 / k as f64, "KB")
    } else if n < g {
        (n as f64 / m as f64, "MB")
    } else {
        (n as f64 / g as f64, "GB")
    };
    format!("{:.1}{}", x, u).into_bytes()
}

/// show prints what the file says
pub fn c23_show() {
    let c = cfg();
    let (mut v, l) = any_bytes(&c, "bits", "count");
    let number = |v: &mut [u8], at: usize, what: &'static str| {
        // the low bytes of the number are symbolic, the others are one of these
        let n = [0u64, 256 * 256, 99_999, u32::MAX as u64, u64::MAX][choose(5, what) as usize];
        v[at..at + 8].copy_from_slice(&n.to_le_bytes());
        if n <= 65536 {
            fill(&mut v[at..at + param("wide", 1) as usize], what);
        }
        rd(v, at)
    };
    let mut cap = c.cap as u64;
    let mut n = 0;
    if param("cap", 0) == 1 {
        cap = number(&mut v, 8, "capacity");
    } else {
        n = number(&mut v, l.count, "count");
    }
    if param("cap", 0) == 1 {
        v[l.count..l.count + 8].copy_from_slice(&n.to_le_bytes());
    }
    let fpp = [c.fpp, 1.0, 0.25, 1e-9][choose(4, "fpp") as usize];
    v[16..24].copy_from_slice(&fpp.to_le_bytes());
    let k = [0usize, 1, 5, 1023, 1024, 1500][choose(6, "data") as usize];
    v.extend(std::iter::repeat(7u8).take(k));
    file_write("f.pop", &v);
    check(poppy(&["show", "f.pop"], b""), "showing succeeds");
    let out = proc_out(0);
    same_file("f.pop", &Some(v.clone()), "the file is not touched");
    check(file_count() == 1, "no other file");
    let got = out_lines(&out);
    let size = (l.bits.1 - l.bits.0) + (l.cache.1 - l.cache.0);
    let want = [
        digits(c.ver as u64),
        digits(cap),
        digits(n),
        format!("{}", fpp).into_bytes(),
        human(k),
        human(size),
    ];
    check(got.len() == want.len() + 1, "one line for the name and each property");
    check(got[0] == b"File: f.pop", "the name of the file");
    for (g, w) in got[1..].iter().zip(&want) {
        let ok = g.len() > w.len() + 2 && {
            let at = g.len() - w.len();
            bytes_eq(&g[at..], w) && g[at - 2..at] == *b": "
        };
        check(ok, "each property has its value");
    }
    cover("shown");
}

/// a filter without some of the entries cannot be benchmarked with them
pub fn c24_bench() {
    let c = cfg();
    let v = any_bytes(&c, "bits", "count").0;
    file_write("f.pop", &v);
    let f = load(&v);
    let all: Vec<&[u8]> = vec![b"alpha", b"beta", b"gamma", b"beta", b"delta"];
    let lines = &all[..param("lines", 2) as usize];
    let mut sin = vec![];
    for l in lines {
        sin.extend_from_slice(l);
        sin.push(b'\n');
    }
    let r = poppy(&["bench", "--fp-tol", "1000000", "-r", "1", "f.pop"], &sin);
    let mut there = true;
    for l in lines {
        there = and(there, f.contains_bytes(l));
    }
    check(r == there, "benchmarked when every entry is contained");
    same_file("f.pop", &Some(v), "the file is not touched");
    if r {
        cover("measured");
    } else {
        cover("refused");
    }
}

/// a filter with too many false positives does not pass the benchmark
pub fn c24_rate() {
    let c = cfg();
    let mut v = ser(&fresh(&c));
    let l = lay(&v);
    v[l.bits.0..l.bits.1].fill(0xff);
    v[l.cache.0..l.cache.1].fill(0xff);
    let fpp = [0.01, 0.25, 0.5, 1.0][choose(4, "fpp") as usize];
    v[16..24].copy_from_slice(&f64::to_le_bytes(fpp));
    file_write("f.pop", &v);
    let (tol, t) = [(0.0, "0"), (0.5, "0.5"), (1.0, "1"), (2.5, "2.5"), (200.0, "200")][choose(5, "tolerance") as usize];
    let mut sin = vec![];
    for i in 0..param("lines", 60) {
        sin.extend_from_slice(format!("line {}\n", i).as_bytes());
    }
    let r = poppy(&["bench", "--fp-tol", t, "-r", "1", "f.pop"], &sin);
    // everything is contained, whatever was inserted
    check(r == (1.0 <= fpp * (1.0 + tol)), "the benchmark passes when the rate is tolerated");
    same_file("f.pop", &Some(v), "the file is not touched");
    if r {
        cover("passed");
    } else {
        cover("failed");
    }
}

symrt::harnesses!(c17_create, c17_insert, c17_any, c18_check, c19_input, c19_params, c19_full, c19_other, c19_cut, c19_absent, c23_show, c24_bench, c24_rate);
