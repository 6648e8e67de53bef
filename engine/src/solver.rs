//! SMT-LIB2 pipe to an external solver, query slicing, model extraction, lemma refinement.
use crate::term::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};

pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

struct Proc {
    child: Child,
    tx: Sender<String>,
    rx: Receiver<String>,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cut_unsat: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub lemmas: u64,
    pub guided: u64,
    pub time: f64,
    pub max_time: f64,
    pub max_nodes: usize,
}

pub struct Solver {
    cmd: Vec<Vec<String>>,
    procs: Vec<Option<Proc>>,
    pub st: Stats,
    pub timeout_ms: u64,
    pub soft_ms: u64,
    pub seed: u64,
    vars: FxMap<T, Rc<Vec<T>>>,
    cache: FxMap<Vec<T>, Option<Rc<Model>>>,
    lemmas: FxMap<T, Vec<T>>,
    pub recent: Vec<Rc<Model>>,
    pub dump: Option<String>,
    dumped: u64,
}

fn spawn(cmd: &[String]) -> Proc {
    let mut child = Command::new(&cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start solver {:?}: {}", cmd, e));
    let mut sin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        let mut l = String::new();
        loop {
            l.clear();
            match r.read_line(&mut l) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    if tx.send(l.clone()).is_err() {
                        break;
                    }
                }
            }
        }
    });
    // written from a thread of its own: a solver busy with what it has got does not read on
    let (wtx, wrx) = channel::<String>();
    std::thread::spawn(move || {
        for s in wrx {
            if sin.write_all(s.as_bytes()).is_err() || sin.flush().is_err() {
                break;
            }
        }
    });
    Proc { child, tx: wtx, rx }
}

fn cst(v: u128, w: u8) -> String {
    if w == 1 {
        return if v != 0 { "true".into() } else { "false".into() };
    }
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = w as usize / 4)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}
fn sort(w: u8) -> String {
    match w {
        0 => "(Array (_ BitVec 64) (_ BitVec 8))".into(),
        1 => "Bool".into(),
        w => format!("(_ BitVec {})", w),
    }
}

pub struct Printed {
    text: String,
    vars: Vec<T>,
    sels: Vec<(T, T)>, // (array variable, index term)
    cuts: usize,
    fns: Vec<T>,
    nodes: usize,
}

impl Solver {
    pub fn new(cmd: Vec<Vec<String>>, timeout_ms: u64) -> Self {
        let n = cmd.len();
        Solver {
            cmd,
            procs: (0..n).map(|_| None).collect(),
            st: Default::default(),
            timeout_ms,
            soft_ms: 400,
            seed: 0x1234567,
            vars: Default::default(),
            cache: Default::default(),
            lemmas: Default::default(),
            recent: vec![],
            dump: None,
            dumped: 0,
        }
    }

    /// free variables (scalar and array) of a term
    pub fn vars_of(&mut self, ts: &Terms, t: T) -> Rc<Vec<T>> {
        if let Some(v) = self.vars.get(&t) {
            return v.clone();
        }
        let mut seen: FxSet<T> = Default::default();
        let mut st = vec![t];
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            match ts.n[x as usize].op {
                Op::Var | Op::ArrVar => out.push(x),
                _ => {
                    let (k, n) = ts.kids(x);
                    st.extend_from_slice(&k[..n]);
                }
            }
        }
        out.sort();
        let r = Rc::new(out);
        self.vars.insert(t, r.clone());
        r
    }

    pub fn slice(&mut self, ts: &Terms, pc: &[T], extra: &[T]) -> Vec<T> {
        let mut vs: FxSet<T> = Default::default();
        for e in extra {
            vs.extend(self.vars_of(ts, *e).iter().copied());
        }
        let mut out: Vec<T> = extra.to_vec();
        let mut rest: Vec<T> = pc.to_vec();
        loop {
            let mut nrest = vec![];
            let mut changed = false;
            for c in rest {
                let cv = self.vars_of(ts, c);
                if cv.iter().any(|v| vs.contains(v)) {
                    vs.extend(cv.iter().copied());
                    out.push(c);
                    changed = true;
                } else {
                    nrest.push(c);
                }
            }
            rest = nrest;
            if !changed {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }

    fn is_cut(ts: &Terms, t: T) -> bool {
        let n = &ts.n[t as usize];
        match n.op {
            Op::Mul => match ts.cv(n.b) {
                Some(c) => n.w >= 12 && c.count_ones() > 3 && (mask(n.w) & !c).count_ones() > 3,
                None => n.w >= 6,
            },
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => n.w >= 6,
            Op::Fn1 => n.k == F::PopCnt as u8,
            _ => false,
        }
    }

    fn print(&self, ts: &Terms, cs: &[T], cut: bool) -> Printed {
        let mut p = Printed { text: String::new(), vars: vec![], sels: vec![], cuts: 0, fns: vec![], nodes: 0 };
        let mut done: FxSet<T> = Default::default();
        let mut decl_fn: FxSet<(u8, u8, u8, u8)> = Default::default();
        let mut out = String::new();
        let mut roots: Vec<T> = cs.to_vec();
        let mut i = 0;
        let mut extra_assert: Vec<T> = vec![];
        while i < roots.len() {
            let r = roots[i];
            i += 1;
            let mut stack = vec![(r, false)];
            while let Some((t, ready)) = stack.pop() {
                let n = ts.n[t as usize];
                if n.op == Op::Const || done.contains(&t) {
                    continue;
                }
                let cutit = cut && Self::is_cut(ts, t);
                if !ready && !cutit {
                    stack.push((t, true));
                    let (k, kn) = ts.kids(t);
                    for x in &k[..kn] {
                        if !done.contains(x) {
                            stack.push((*x, false));
                        }
                    }
                    continue;
                }
                done.insert(t);
                p.nodes += 1;
                if cutit {
                    p.cuts += 1;
                    let _ = writeln!(out, "(declare-fun t{} () {})", t, sort(n.w));
                    if n.w <= 64 {
                        if ts.umax(t) as u128 != mask(n.w) {
                            let _ = writeln!(out, "(assert (bvule t{} {}))", t, cst(ts.umax(t) as u128, n.w));
                        }
                        if ts.umin(t) != 0 {
                            let _ = writeln!(out, "(assert (bvuge t{} {}))", t, cst(ts.umin(t) as u128, n.w));
                        }
                    }
                    continue;
                }
                let nm = |x: T| -> String {
                    let m = &ts.n[x as usize];
                    if m.op == Op::Const {
                        cst(ts.consts[m.a as usize], m.w)
                    } else {
                        format!("t{}", x)
                    }
                };
                let bv = |x: T| -> String {
                    if ts.w(x) == 1 {
                        match ts.cv(x) {
                            Some(v) => format!("#b{}", v),
                            None => format!("(ite {} #b1 #b0)", nm(x)),
                        }
                    } else {
                        nm(x)
                    }
                };
                let e = match n.op {
                    Op::Const => unreachable!(),
                    Op::Var | Op::ArrVar => {
                        p.vars.push(t);
                        let _ = writeln!(out, "(declare-fun t{} () {})", t, sort(n.w));
                        if n.w > 0 && n.w <= 64 && ts.umax(t) as u128 != mask(n.w) {
                            let _ = writeln!(out, "(assert (bvule t{} {}))", t, cst(ts.umax(t) as u128, n.w));
                        }
                        continue;
                    }
                    Op::Add => format!("(bvadd {} {})", nm(n.a), nm(n.b)),
                    Op::Sub => format!("(bvsub {} {})", nm(n.a), nm(n.b)),
                    Op::Mul => format!("(bvmul {} {})", nm(n.a), nm(n.b)),
                    Op::UDiv => format!("(bvudiv {} {})", nm(n.a), nm(n.b)),
                    Op::URem => format!("(bvurem {} {})", nm(n.a), nm(n.b)),
                    Op::SDiv => format!("(bvsdiv {} {})", nm(n.a), nm(n.b)),
                    Op::SRem => format!("(bvsrem {} {})", nm(n.a), nm(n.b)),
                    Op::And => format!("({} {} {})", if n.w == 1 { "and" } else { "bvand" }, nm(n.a), nm(n.b)),
                    Op::Or => format!("({} {} {})", if n.w == 1 { "or" } else { "bvor" }, nm(n.a), nm(n.b)),
                    Op::Xor => format!("({} {} {})", if n.w == 1 { "xor" } else { "bvxor" }, nm(n.a), nm(n.b)),
                    Op::Shl => format!("(bvshl {} {})", nm(n.a), nm(n.b)),
                    Op::LShr => format!("(bvlshr {} {})", nm(n.a), nm(n.b)),
                    Op::AShr => format!("(bvashr {} {})", nm(n.a), nm(n.b)),
                    Op::Not => format!("(not {})", nm(n.a)),
                    Op::Eq => format!("(= {} {})", nm(n.a), nm(n.b)),
                    Op::Ult => format!("(bvult {} {})", nm(n.a), nm(n.b)),
                    Op::Slt => format!("(bvslt {} {})", nm(n.a), nm(n.b)),
                    Op::Ite => format!("(ite {} {} {})", nm(n.a), nm(n.b), nm(n.c)),
                    Op::Concat => format!("(concat {} {})", bv(n.a), bv(n.b)),
                    Op::Extract => {
                        let x = format!("((_ extract {} {}) {})", n.b + n.w as u32 - 1, n.b, nm(n.a));
                        if n.w == 1 {
                            format!("(= {} #b1)", x)
                        } else {
                            x
                        }
                    }
                    Op::Sext => format!("((_ sign_extend {}) {})", n.w - ts.w(n.a), nm(n.a)),
                    Op::Sel => {
                        let mut a = n.a;
                        let mut todo = vec![];
                        loop {
                            let an = &ts.n[a as usize];
                            match an.op {
                                Op::ArrVar => {
                                    p.sels.push((a, n.b));
                                }
                                Op::Store => {
                                    a = an.a;
                                    continue;
                                }
                                Op::Ite => {
                                    todo.push(an.c);
                                    a = an.b;
                                    continue;
                                }
                                _ => {}
                            }
                            match todo.pop() {
                                Some(x) => a = x,
                                None => break,
                            }
                        }
                        format!("(select {} {})", nm(n.a), nm(n.b))
                    }
                    Op::ArrConst => format!("((as const (Array (_ BitVec 64) (_ BitVec 8))) {})", nm(n.a)),
                    Op::Store if n.k == 1 => {
                        format!("(store {} {} (bvor (select {} {}) {}))", nm(n.a), nm(n.b), nm(n.a), nm(n.b), nm(n.c))
                    }
                    Op::Store => format!("(store {} {} {})", nm(n.a), nm(n.b), nm(n.c)),
                    Op::Fn1 if n.k == F::PopCnt as u8 => {
                        let w = n.w;
                        if decl_fn.insert((n.k, w, 0, w)) {
                            let bits: Vec<String> =
                                (0..w).map(|i| format!("((_ zero_extend {}) ((_ extract {} {}) x))", w - 1, i, i)).collect();
                            let _ = writeln!(out, "(define-fun pop{} ((x {})) {} (bvadd {}))", w, sort(w), sort(w), bits.join(" "));
                        }
                        format!("(pop{} {})", w, nm(n.a))
                    }
                    Op::Fn1 => {
                        p.fns.push(t);
                        let (aw, w) = (ts.w(n.a), n.w);
                        if decl_fn.insert((n.k, aw, 0, w)) {
                            let _ = writeln!(out, "(declare-fun f{}_{}_{} ({}) {})", n.k, aw, w, sort(aw), sort(w));
                        }
                        format!("(f{}_{}_{} {})", n.k, aw, w, nm(n.a))
                    }
                    Op::Fn2 => {
                        p.fns.push(t);
                        let (aw, bw, w) = (ts.w(n.a), ts.w(n.b), n.w);
                        if decl_fn.insert((n.k, aw, bw, w)) {
                            let _ = writeln!(
                                out,
                                "(declare-fun f{}_{}_{}_{} ({} {}) {})",
                                n.k,
                                aw,
                                bw,
                                w,
                                sort(aw),
                                sort(bw),
                                sort(w)
                            );
                        }
                        format!("(f{}_{}_{}_{} {} {})", n.k, aw, bw, w, nm(n.a), nm(n.b))
                    }
                };
                let _ = writeln!(out, "(define-fun t{} () {} {})", t, sort(n.w), e);
                if matches!(n.op, Op::Fn1 | Op::Fn2) && n.k != F::PopCnt as u8 {
                    if let Some(ls) = self.lemmas.get(&t) {
                        for l in ls {
                            extra_assert.push(*l);
                            roots.push(*l);
                        }
                    }
                }
            }
        }
        for r in cs.iter().chain(extra_assert.iter()) {
            match ts.cv(*r) {
                Some(v) => {
                    let _ = writeln!(out, "(assert {})", if v != 0 { "true" } else { "false" });
                }
                None => {
                    let _ = writeln!(out, "(assert t{})", r);
                }
            }
        }
        p.text = out;
        p
    }

    fn ask(&mut self, which: usize, text: &str, gets: &[String], timeout: u64) -> Result<(String, Vec<u128>), String> {
        if self.procs[which].is_none() {
            self.procs[which] = Some(spawn(&self.cmd[which]));
        }
        let is_z3 = self.cmd[which][0].contains("z3");
        let p = self.procs[which].as_mut().unwrap();
        let mut s = String::new();
        s.push_str("(reset)\n");
        if is_z3 {
            let _ = writeln!(s, "(set-option :timeout {})", timeout);
        }
        s.push_str("(set-option :produce-models true)\n(set-logic QF_AUFBV)\n");
        s.push_str(text);
        s.push_str("(check-sat)\n(echo \"DONE\")\n");
        if std::env::var("LLSYM_BIG").is_ok() {
            let _ = std::fs::write("/tmp/big.smt2", &s);
        }
        let fail = |me: &mut Self, m: &str| -> Result<(String, Vec<u128>), String> {
            if let Some(mut p) = me.procs[which].take() {
                let _ = p.child.kill();
                let _ = p.child.wait();
            }
            Err(m.to_string())
        };
        if p.tx.send(s).is_err() {
            return fail(self, "solver pipe closed");
        }
        let deadline = Instant::now() + Duration::from_millis(timeout + 5000);
        let mut ans = String::new();
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            match p.rx.recv_timeout(left) {
                Ok(l) => {
                    let l = l.trim();
                    if l == "DONE" || l == "\"DONE\"" {
                        break;
                    }
                    if l.starts_with("(error") {
                        let l = l.to_string();
                        return fail(self, &format!("solver error: {}", l));
                    }
                    if !l.is_empty() {
                        ans = l.to_string();
                    }
                }
                Err(_) => return fail(self, "timeout"),
            }
        }
        let mut vals = vec![];
        if ans == "sat" && !gets.is_empty() {
            let q = format!("(get-value ({}))\n(echo \"DONE\")\n", gets.join(" "));
            if p.tx.send(q).is_err() {
                return fail(self, "solver pipe closed");
            }
            let mut buf = String::new();
            loop {
                match p.rx.recv_timeout(Duration::from_millis(60000)) {
                    Ok(l) => {
                        let lt = l.trim();
                        if lt == "DONE" || lt == "\"DONE\"" {
                            break;
                        }
                        if lt.starts_with("(error") {
                            let l = l.to_string();
                            return fail(self, &format!("solver error: {}", l));
                        }
                        buf.push_str(&l);
                    }
                    Err(_) => return fail(self, "timeout in get-value"),
                }
            }
            vals = parse_values(&buf)?;
            if vals.len() != gets.len() {
                return Err(format!("get-value count {} != {}", vals.len(), gets.len()));
            }
        }
        Ok((ans, vals))
    }

    /// Decide the conjunction of cs (already sliced). A Sat answer carries a model that was
    /// re-evaluated natively.
    pub fn solve(&mut self, ts: &mut Terms, cs: &[T], hard: bool) -> Res {
        let key = cs.to_vec();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat((**m).clone()),
                None => Res::Unsat,
            };
        }
        // recent models
        for m in self.recent.iter().rev().take(12) {
            let mut memo = Default::default();
            if cs.iter().all(|c| ts.eval(m, &mut memo, *c) != 0) {
                self.st.model_hits += 1;
                let m = m.clone();
                // restrict to variables of cs
                return Res::Sat((*m).clone());
            }
        }
        let t0 = Instant::now();
        let r = self.solve_(ts, cs, hard);
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        self.st.queries += 1;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        match &r {
            Res::Sat(m) => {
                self.st.sat += 1;
                let m = Rc::new(m.clone());
                self.cache.insert(key, Some(m.clone()));
                self.recent.push(m);
                if self.recent.len() > 64 {
                    self.recent.drain(0..32);
                }
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Unknown(_) => self.st.unknown += 1,
        }
        r
    }

    fn solve_(&mut self, ts: &mut Terms, cs: &[T], hard: bool) -> Res {
        // abstraction first: multiplications / divisions as free variables
        let pc = self.print(ts, cs, true);
        self.st.max_nodes = self.st.max_nodes.max(pc.nodes);
        if pc.cuts > 0 {
            for (round, tmo) in [1500, self.timeout_ms.min(20000)].into_iter().enumerate() {
                if round == 1 {
                    if let Some(m) = self.guided(ts, cs, hard) {
                        self.st.guided += 1;
                        return Res::Sat(m);
                    }
                    if !hard {
                        break;
                    }
                }
                match self.ask(0, &pc.text, &[], tmo) {
                    Ok((a, _)) if a == "unsat" => {
                        self.st.cut_unsat += 1;
                        self.do_dump(&pc.text, "unsat");
                        return Res::Unsat;
                    }
                    Ok((a, _)) if a == "sat" && round == 0 => {
                        // the abstraction is satisfiable: asking it longer is no use
                        if let Some(m) = self.guided(ts, cs, hard) {
                            self.st.guided += 1;
                            return Res::Sat(m);
                        }
                        break;
                    }
                    _ => {}
                }
            }
        }
        let (full_ms, solvers) = if pc.cuts > 0 && !hard { (self.soft_ms, 1) } else { (self.timeout_ms, self.cmd.len()) };
        for _round in 0..200 {
            let mut p = self.print(ts, cs, false);
            let mut gets: Vec<String> = vec![];
            let svars: Vec<T> = p.vars.iter().copied().filter(|v| ts.w(*v) != 0).collect();
            for v in &svars {
                gets.push(format!("t{}", v));
            }
            p.sels.sort();
            p.sels.dedup();
            let mut extra = String::new();
            for (i, (a, idx)) in p.sels.iter().enumerate() {
                let ix = match ts.cv(*idx) {
                    Some(v) => cst(v, 64),
                    None => format!("t{}", idx),
                };
                let _ = writeln!(extra, "(define-fun qi{} () (_ BitVec 64) {})\n(define-fun qv{} () (_ BitVec 8) (select t{} {}))", i, ix, i, a, ix);
                gets.push(format!("qi{}", i));
                gets.push(format!("qv{}", i));
            }
            p.text.push_str(&extra);
            let mut last = String::new();
            let mut got = None;
            for which in 0..solvers {
                match self.ask(which, &p.text, &gets, full_ms) {
                    Ok((a, v)) if a == "sat" || a == "unsat" => {
                        got = Some((a, v));
                        break;
                    }
                    Ok((a, _)) => last = a,
                    Err(e) => last = e,
                }
            }
            let (a, v) = match got {
                Some(x) => x,
                None => {
                    self.do_dump(&p.text, "unknown");
                    return Res::Unknown(last);
                }
            };
            self.do_dump(&p.text, &a);
            if a == "unsat" {
                return Res::Unsat;
            }
            let mut m = Model::default();
            for (i, x) in svars.iter().enumerate() {
                m.vars.insert(*x, v[i]);
            }
            for (i, (a, _)) in p.sels.iter().enumerate() {
                let ix = v[svars.len() + 2 * i] as u64;
                let b = v[svars.len() + 2 * i + 1] as u8;
                m.arrs.entry(*a).or_insert((0, Default::default())).1.insert(ix, b);
            }
            let mut memo: FxMap<T, u128> = Default::default();
            if cs.iter().all(|c| ts.eval(&m, &mut memo, *c) != 0) {
                return Res::Sat(m);
            }
            if p.fns.is_empty() {
                return Res::Unknown("model does not satisfy the query under native evaluation".into());
            }
            // refine the native functions at this point
            let mut added = 0;
            for f in p.fns.clone() {
                let n = ts.n[f as usize];
                let r = ts.eval(&m, &mut memo, f);
                let mut cond = {
                    let x = ts.eval(&m, &mut memo, n.a);
                    let c = ts.c(x, ts.w(n.a));
                    ts.eq(n.a, c)
                };
                if n.op == Op::Fn2 {
                    let y = ts.eval(&m, &mut memo, n.b);
                    let c = ts.c(y, ts.w(n.b));
                    let e = ts.eq(n.b, c);
                    cond = ts.and(cond, e);
                }
                let rc = ts.c(r, n.w);
                let e = ts.eq(f, rc);
                let nc = ts.not(cond);
                let l = ts.or(nc, e);
                let mut ls = vec![l];
                // a monotone function is bounded on both sides by its value at the point
                if let Some((arg, incr, fin, fout, positive)) = mono(ts, f) {
                    let x = ts.eval(&m, &mut memo, arg);
                    let isnan = |v: u128, fl: bool| fl && f64::from_bits(v as u64).is_nan();
                    if !isnan(x, fin) && !isnan(r, fout) && (!positive || f64::from_bits(x as u64) > 0.0) {
                        let xc = ts.c(x, ts.w(arg));
                        let le = |ts: &mut Terms, a: T, b: T, fl: bool| if fl { ts.fcmp("ole", a, b) } else { let g = ts.ult(b, a); ts.not(g) };
                        let mut up = le(ts, xc, arg, fin);
                        let mut down = le(ts, arg, xc, fin);
                        if positive {
                            let z = ts.c(0, 64);
                            let inf = ts.c(0x7ff0 << 48, 64);
                            let gz = ts.fcmp("olt", z, arg);
                            let li = ts.fcmp("ole", arg, inf);
                            let dom = ts.and(gz, li);
                            up = ts.and(up, dom);
                            down = ts.and(down, dom);
                        }
                        let (hi, lo) = (le(ts, rc, f, fout), le(ts, f, rc, fout));
                        let (cu, cd) = if incr { (hi, lo) } else { (lo, hi) };
                        let nu = ts.not(up);
                        let nd = ts.not(down);
                        ls.push(ts.or(nu, cu));
                        ls.push(ts.or(nd, cd));
                    }
                }
                let v = self.lemmas.entry(f).or_default();
                for l in ls {
                    if !v.contains(&l) && ts.cv(l) != Some(1) {
                        v.push(l);
                        added += 1;
                        self.st.lemmas += 1;
                    }
                }
            }
            if added == 0 {
                return Res::Unknown("refinement made no progress".into());
            }
        }
        Res::Unknown("refinement limit".into())
    }

    /// Look for a model with the variables below multiplications and divisions (the hashed
    /// values) fixed first, so that the solver never has to invert them.
    fn guided(&mut self, ts: &mut Terms, cs: &[T], hard: bool) -> Option<Model> {
        let mut hv: Vec<T> = vec![];
        let mut seen: FxSet<T> = Default::default();
        let mut st: Vec<T> = cs.to_vec();
        let mut pops = false;
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if ts.n[t as usize].op == Op::Fn1 && ts.n[t as usize].k == F::PopCnt as u8 {
                pops = true;
            } else if Self::is_cut(ts, t) {
                hv.extend(self.vars_of(ts, t).iter().copied().filter(|v| ts.w(*v) != 0));
            }
            let (k, n) = ts.kids(t);
            st.extend_from_slice(&k[..n]);
        }
        hv.sort();
        hv.dedup();
        if pops {
            // bit counts: try arrays of one value
            let mut vs: Vec<T> = vec![];
            for c in cs {
                vs.extend(self.vars_of(ts, *c).iter());
            }
            vs.sort();
            vs.dedup();
            for i in 0..24 {
                let mut m = Model::default();
                for v in &vs {
                    let w = ts.w(*v);
                    if w == 0 {
                        let d = [0, 255, 0x0f, 1, 0x7f, 0x55][i % 6];
                        m.arrs.insert(*v, (d, Default::default()));
                    } else {
                        let x = if i < 6 { 0 } else { self.rnd() as u128 & mask(w) };
                        m.vars.insert(*v, if w <= 64 { x.min(ts.umax(*v) as u128) } else { x });
                    }
                }
                let mut memo: FxMap<T, u128> = Default::default();
                if cs.iter().all(|c| ts.eval(&m, &mut memo, *c) != 0) {
                    return Some(m);
                }
            }
        }
        if hv.is_empty() {
            return None;
        }
        let hs: FxSet<T> = hv.iter().copied().collect();
        // constraints over these variables alone are evaluated first
        let mut own = vec![];
        for c in cs {
            if self.vars_of(ts, *c).iter().all(|v| hs.contains(v)) {
                own.push(*c);
            }
        }
        let t0 = Instant::now();
        let mut asked = 0;
        let mut tries = 0;
        let mut pat = [0u8; 160];
        while tries < 4000 && asked < 8 && t0.elapsed().as_millis() < if hard { 2500 } else { 500 } {
            let kind = if tries < 6 { tries % 3 } else { 3 + tries % 5 };
            tries += 1;
            for b in pat.iter_mut() {
                *b = self.rnd() as u8;
            }
            let mut fix: FxMap<T, u128> = Default::default();
            let short = self.rnd() as usize % 9;
            for v in &hv {
                let name = ts.names[ts.n[*v as usize].a as usize].clone();
                let off: usize = name.rsplit('_').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                let nb = ts.w(*v) as usize / 8;
                let mut x = 0u128;
                for j in 0..nb {
                    let o = (off + j) % pat.len();
                    let b = match kind {
                        0 => 0,
                        1 => {
                            if o < short.max(1) {
                                pat[o]
                            } else {
                                0
                            }
                        }
                        2 => pat[o],
                        3 => {
                            if o < short {
                                self.rnd() as u8
                            } else {
                                0
                            }
                        }
                        4 => b'a' + (self.rnd() % 26) as u8,
                        _ => self.rnd() as u8,
                    };
                    x |= (b as u128) << (8 * j);
                }
                let mut x = x & mask(ts.w(*v));
                if ts.w(*v) <= 64 && x > ts.umax(*v) as u128 {
                    x %= ts.umax(*v) as u128 + 1;
                }
                fix.insert(*v, x);
            }
            let mut m = Model::default();
            m.vars = fix.clone();
            let mut memo: FxMap<T, u128> = Default::default();
            if own.iter().any(|c| ts.eval(&m, &mut memo, *c) == 0) {
                continue;
            }
            if own.len() == cs.len() {
                return Some(m);
            }
            let mut sm: FxMap<T, T> = Default::default();
            let mut rest: Vec<T> = vec![];
            let mut dead = false;
            for c in cs {
                let r = ts.subst(&fix, &mut sm, *c);
                match ts.cv(r) {
                    Some(0) => {
                        dead = true;
                        break;
                    }
                    Some(_) => {}
                    None => rest.push(r),
                }
            }
            if dead {
                continue;
            }
            rest.sort();
            rest.dedup();
            let mut got = Model::default();
            if !rest.is_empty() {
                asked += 1;
                let mut p = self.print(ts, &rest, false);
                if !p.fns.is_empty() {
                    return None;
                }
                let svars: Vec<T> = p.vars.iter().copied().filter(|v| ts.w(*v) != 0).collect();
                let mut gets: Vec<String> = svars.iter().map(|v| format!("t{}", v)).collect();
                p.sels.sort();
                p.sels.dedup();
                let mut extra = String::new();
                for (i, (a, idx)) in p.sels.iter().enumerate() {
                    let ix = match ts.cv(*idx) {
                        Some(v) => cst(v, 64),
                        None => format!("t{}", idx),
                    };
                    let _ = writeln!(extra, "(define-fun qi{} () (_ BitVec 64) {})\n(define-fun qv{} () (_ BitVec 8) (select t{} {}))", i, ix, i, a, ix);
                    gets.push(format!("qi{}", i));
                    gets.push(format!("qv{}", i));
                }
                p.text.push_str(&extra);
                match self.ask(0, &p.text, &gets, 3000) {
                    Ok((a, v)) if a == "sat" => {
                        for (i, x) in svars.iter().enumerate() {
                            got.vars.insert(*x, v[i]);
                        }
                        for (i, (a, _)) in p.sels.iter().enumerate() {
                            let ix = v[svars.len() + 2 * i] as u64;
                            let b = v[svars.len() + 2 * i + 1] as u8;
                            got.arrs.entry(*a).or_insert((0, Default::default())).1.insert(ix, b);
                        }
                    }
                    _ => continue,
                }
            }
            for (k, v) in fix {
                got.vars.insert(k, v);
            }
            let mut memo: FxMap<T, u128> = Default::default();
            if cs.iter().all(|c| ts.eval(&got, &mut memo, *c) != 0) {
                return Some(got);
            }
        }
        None
    }

    fn rnd(&mut self) -> u64 {
        let s = &mut self.seed;
        *s ^= *s << 13;
        *s ^= *s >> 7;
        *s ^= *s << 17;
        s.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }

    fn do_dump(&mut self, text: &str, ans: &str) {
        if let Some(d) = &self.dump {
            self.dumped += 1;
            let f = format!("{}/q{:06}.smt2", d, self.dumped);
            let _ = std::fs::write(
                f,
                format!("(set-logic QF_AUFBV)\n(set-info :status {})\n{}(check-sat)\n", ans, text),
            );
        }
    }
}

/// The argument in which a native function is monotone: (argument, increasing, argument is a
/// float, result is a float, only for positive arguments)
fn mono(ts: &Terms, f: T) -> Option<(T, bool, bool, bool, bool)> {
    let n = ts.n[f as usize];
    let is = |k: F| n.k == k as u8;
    if n.op == Op::Fn1 {
        if n.w != 64 || ts.w(n.a) != 64 {
            return None;
        }
        if is(F::UToF) {
            return Some((n.a, true, false, true, false));
        }
        if is(F::FToUSat) {
            return Some((n.a, true, true, false, false));
        }
        if is(F::Ceil) || is(F::Floor) || is(F::Round) || is(F::RoundEven) || is(F::Trunc) {
            return Some((n.a, true, true, true, false));
        }
        if is(F::Log) || is(F::Sqrt) {
            return Some((n.a, true, true, true, true));
        }
        if is(F::Exp) {
            return Some((n.a, true, true, true, false));
        }
        return None;
    }
    if n.w != 64 {
        return None;
    }
    let (arg, k, left) = match (ts.cv(n.a), ts.cv(n.b)) {
        (None, Some(k)) => (n.a, k, true),
        (Some(k), None) => (n.b, k, false),
        _ => return None,
    };
    let k = f64::from_bits(k as u64);
    if !k.is_finite() || k == 0.0 {
        return None;
    }
    if is(F::FAdd) {
        return Some((arg, true, true, true, false));
    }
    if is(F::FSub) {
        return Some((arg, left, true, true, false));
    }
    if is(F::FMul) || (is(F::FDiv) && left) {
        return Some((arg, k > 0.0, true, true, false));
    }
    if is(F::FDiv) {
        return Some((arg, k < 0.0, true, true, true));
    }
    None
}

impl Drop for Solver {
    fn drop(&mut self) {
        for p in self.procs.iter_mut() {
            if let Some(mut p) = p.take() {
                let _ = p.child.kill();
                let _ = p.child.wait();
            }
        }
    }
}

fn parse_values(s: &str) -> Result<Vec<u128>, String> {
    // ((name val) (name val) ...)
    let b = s.as_bytes();
    let mut i = 0;
    let mut depth = 0;
    let mut out = vec![];
    let mut toks: Vec<String> = vec![];
    while i < b.len() {
        match b[i] {
            b'(' => {
                depth += 1;
                if depth == 2 {
                    toks.clear();
                }
                i += 1;
            }
            b')' => {
                if depth == 2 {
                    // toks = name, value tokens
                    let v = match toks.get(1).map(|s| s.as_str()) {
                        Some("true") => 1,
                        Some("false") => 0,
                        Some("_") => toks
                            .get(2)
                            .and_then(|x| x.strip_prefix("bv"))
                            .and_then(|x| x.parse().ok())
                            .ok_or("bad bv value")?,
                        Some(x) if x.starts_with("#x") => u128::from_str_radix(&x[2..], 16).map_err(|e| e.to_string())?,
                        Some(x) if x.starts_with("#b") => u128::from_str_radix(&x[2..], 2).map_err(|e| e.to_string())?,
                        x => return Err(format!("cannot parse model value {:?}", x)),
                    };
                    out.push(v);
                }
                depth -= 1;
                i += 1;
            }
            c if c.is_ascii_whitespace() => i += 1,
            _ => {
                let st = i;
                while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'(' && b[i] != b')' {
                    i += 1;
                }
                toks.push(s[st..i].to_string());
            }
        }
    }
    Ok(out)
}
