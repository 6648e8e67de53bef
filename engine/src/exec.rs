//! The symbolic interpreter.
use crate::ir::*;
use crate::jesc;
use crate::solver::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Config {
    pub entry: String,
    pub timeout_ms: u64,
    pub max_secs: u64,
    pub out: String,
    pub max_paths: u64,
    pub max_steps: u64,
    pub alloc_limit: u64,
    pub enum_limit: u32,
    pub dump: Option<String>,
    pub seed: u64,
    pub solvers: Vec<Vec<String>>,
    pub trace: bool,
    pub verbose: bool,
    pub threads_at: String,
    pub params: BTreeMap<String, u64>,
}

pub enum Stop {
    End(End),
    Again,
}

pub enum Flow {
    Next,
    Jumped,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
}

pub struct PathRec {
    pub outcome: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub obs: Vec<(String, u64)>,
    pub covers: Vec<String>,
}

pub struct Exec {
    pub m: Module,
    pub ts: Terms,
    pub sol: Solver,
    pub cfg: Config,
    pub work: Vec<State>,
    pub viol: Vec<Violation>,
    pub viol_keys: BTreeSet<String>,
    pub incon: BTreeMap<String, u64>,
    pub paths: Vec<PathRec>,
    pub npaths: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub nchecks: u64,
    pub funcs_used: BTreeMap<Rc<str>, u64>,
    pub steps: u64,
    pub forks: u64,
    pub enum_count: FxMap<T, u32>,
    pub t0: Instant,
    pub init_mem: Vec<Option<Rc<Obj>>>,
    pub fcache: HashMap<Rc<str>, Option<Rc<Func>>>,
    pub kinds: HashMap<Rc<str>, crate::libc::Kind>,
    pub unsupported: BTreeSet<String>,
    pub max_frames: usize,
}

pub fn demangle(s: &str) -> String {
    // crude v0 demangling: collect the identifiers
    let b = s.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 0;
    if !s.starts_with("_R") {
        return s.to_string();
    }
    i += 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            let n: usize = s[st..i].parse().unwrap_or(0);
            let k = if i < b.len() && b[i] == b'_' { i + 1 } else { i };
            if n > 0 && k + n <= b.len() && n < 200 {
                out.push(&s[k..k + n]);
                i = k + n;
                continue;
            }
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backref: skip base62 number
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 {
                j += 1
            }
            if j < b.len() && b[j] == b'_' && j > i {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Exec {
    pub fn new(text: String, cfg: Config) -> Self {
        let mut cfg = cfg;
        if cfg.timeout_ms == 0 {
            cfg.timeout_ms = 60000;
        }
        if cfg.max_secs == 0 {
            cfg.max_secs = 600;
        }
        if cfg.max_paths == 0 {
            cfg.max_paths = 1_000_000;
        }
        if cfg.max_steps == 0 {
            cfg.max_steps = 300_000_000;
        }
        if cfg.alloc_limit == 0 {
            cfg.alloc_limit = 64 << 20;
        }
        if cfg.enum_limit == 0 {
            cfg.enum_limit = 300;
        }
        if cfg.threads_at.is_empty() {
            cfg.threads_at = "spawn".into();
        }
        let mut sol = Solver::new(cfg.solvers.clone(), cfg.timeout_ms);
        sol.dump = cfg.dump.clone();
        Exec {
            m: Module::load(text),
            ts: Terms::new(),
            sol,
            cfg,
            work: vec![],
            viol: vec![],
            viol_keys: Default::default(),
            incon: Default::default(),
            paths: vec![],
            npaths: 0,
            outcomes: Default::default(),
            covers: Default::default(),
            checks: Default::default(),
            nchecks: 0,
            funcs_used: Default::default(),
            steps: 0,
            forks: 0,
            enum_count: Default::default(),
            t0: Instant::now(),
            init_mem: vec![],
            fcache: Default::default(),
            kinds: Default::default(),
            unsupported: Default::default(),
            max_frames: 0,
        }
    }

    pub fn initial_state(&mut self) -> State {
        let n = self.m.globals.len();
        let mut mem: Vec<Option<Rc<Obj>>> = vec![None];
        for i in 0..n {
            let ty = self.m.globals[i].ty.clone();
            let mut size = ty.size();
            let init = self.m.init_of(&mut self.ts, i);
            if init.is_none() {
                size = size.max(64);
            }
            let mut bytes = vec![0 as T; size as usize];
            if let Some(v) = init {
                self.init_bytes(&ty, &v, &mut bytes);
            }
            mem.push(Some(Rc::new(Obj { b: bytes, heap: false, log: vec![] })));
        }
        self.init_mem = mem.clone();
        let mut st = State {
            frames: vec![],
            mem,
            free: vec![],
            pc: vec![],
            lits: Default::default(),
            ors: vec![],
            conc: Default::default(),
            ptr_obj: Default::default(),
            model: Rc::new(Model::default()),
            unsure: false,
            inputs: vec![],
            obs: vec![],
            covers: vec![],
            panic_ok: false,
            tid: 1,
            tls: Default::default(),
            os: Default::default(),
            procs: vec![],
            alloc_limit: self.cfg.alloc_limit,
            steps: 0,
            forks: 0,
            parked: Default::default(),
        };
        st.os.fds = crate::libc::std_fds();
        st.os.next_tid = 2;
        st.os.next_key = 1;
        let e = self.alloc(&mut st, 8, false);
        st.os.errno = (e >> 32) as u32;
        st
    }

    pub fn func(&mut self, name: &Rc<str>) -> Option<Rc<Func>> {
        if let Some(f) = self.fcache.get(name) {
            return f.clone();
        }
        let f = self.m.func(&mut self.ts, name);
        self.fcache.insert(name.clone(), f.clone());
        f
    }

    pub fn new_frame(&mut self, f: Rc<Func>, args: Vec<Val>, dest: u32, normal: Option<u32>, on_ret: OnRet) -> Frame {
        let mut regs = args;
        regs.resize(f.nslots as usize, Val::T(0));
        *self.funcs_used.entry(f.name.clone()).or_default() += 1;
        Frame { func: f, blk: 0, ip: 0, prev: u32::MAX, regs, allocas: vec![], dest, normal, on_ret }
    }

    pub fn run_all(&mut self) {
        let mut st = self.initial_state();
        let entry: Rc<str> = self.cfg.entry.as_str().into();
        let f = match self.func(&entry) {
            Some(f) => f,
            None => panic!("no entry function {}", entry),
        };
        let fr = self.new_frame(f, vec![], u32::MAX, None, OnRet::Plain);
        st.frames.push(fr);
        self.work.push(st);
        self.t0 = Instant::now();
        while let Some(st) = self.work.pop() {
            if self.t0.elapsed().as_secs() > self.cfg.max_secs {
                *self.incon.entry("time limit reached with unexplored paths".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            if self.npaths >= self.cfg.max_paths {
                *self.incon.entry("path limit reached with unexplored paths".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            self.run_path(st);
        }
    }

    pub fn eval(&mut self, m: &Model, t: T) -> u128 {
        if let Some(v) = self.ts.cv(t) {
            return v;
        }
        let mut memo = Default::default();
        self.ts.eval(m, &mut memo, t)
    }

    // ---------- constraints ----------
    pub fn add_constraint(&mut self, st: &mut State, c: T) {
        if self.ts.is_const(c) {
            return;
        }
        let n = self.ts.n[c as usize];
        match n.op {
            Op::And if n.w == 1 => {
                self.add_constraint(st, n.a);
                self.add_constraint(st, n.b);
                return;
            }
            Op::Not => {
                st.lits.insert(n.a, false);
                let m = self.ts.n[n.a as usize];
                if m.op == Op::Or && m.w == 1 {
                    let (x, y) = (self.ts.not(m.a), self.ts.not(m.b));
                    self.add_constraint(st, x);
                    self.add_constraint(st, y);
                    return;
                }
            }
            Op::Eq => {
                st.lits.insert(c, true);
                if self.ts.is_const(n.b) {
                    st.conc.insert(n.a, n.b);
                }
            }
            _ => {
                st.lits.insert(c, true);
            }
        }
        st.pc.push(c);
        let inner = if n.op == Op::Not { self.ts.n[n.a as usize] } else { n };
        if inner.w == 1 && (n.op == Op::Or || (n.op == Op::Not && inner.op == Op::And)) {
            st.ors.push(c);
        }
        self.propagate(st);
    }

    /// disjunctions with one side known to be false give the other side
    fn propagate(&mut self, st: &mut State) {
        let mut i = 0;
        while i < st.ors.len() {
            let c = st.ors[i];
            let n = self.ts.n[c as usize];
            let (a, b) = if n.op == Op::Not {
                let m = self.ts.n[n.a as usize];
                (self.ts.not(m.a), self.ts.not(m.b))
            } else {
                (n.a, n.b)
            };
            let (ka, kb) = (self.known(st, a), self.known(st, b));
            if ka == Some(true) || kb == Some(true) {
                st.ors.swap_remove(i);
                continue;
            }
            let unit = match (ka, kb) {
                (Some(false), None) => Some(b),
                (None, Some(false)) => Some(a),
                _ => None,
            };
            match unit {
                Some(u) => {
                    st.ors.swap_remove(i);
                    self.add_constraint(st, u);
                    i = 0;
                }
                None => i += 1,
            }
        }
    }

    pub fn known(&self, st: &State, c: T) -> Option<bool> {
        if let Some(v) = self.ts.cv(c) {
            return Some(v != 0);
        }
        if let Some(v) = st.lits.get(&c) {
            return Some(*v);
        }
        let n = &self.ts.n[c as usize];
        match n.op {
            Op::Not => self.known(st, n.a).map(|v| !v),
            Op::Eq => {
                // x == const with x concretised
                if let (Some(k), Some(v)) = (st.conc.get(&n.a), self.ts.cv(n.b)) {
                    return self.ts.cv(*k).map(|kv| kv == v);
                }
                None
            }
            Op::And if n.w == 1 => match (self.known(st, n.a), self.known(st, n.b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or if n.w == 1 => match (self.known(st, n.a), self.known(st, n.b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }

    pub fn merge_model(&mut self, st: &State, cs: &[T], m: Model) -> Rc<Model> {
        let mut r = (*st.model).clone();
        for c in cs {
            let vs = self.sol.vars_of(&self.ts, *c);
            for v in vs.iter() {
                if self.ts.w(*v) == 0 {
                    match m.arrs.get(v) {
                        Some(a) => {
                            r.arrs.insert(*v, a.clone());
                        }
                        None => {
                            r.arrs.remove(v);
                        }
                    }
                } else {
                    match m.vars.get(v) {
                        Some(x) => {
                            r.vars.insert(*v, *x);
                        }
                        None => {
                            r.vars.remove(v);
                        }
                    }
                }
            }
        }
        Rc::new(r)
    }

    /// is pc && c satisfiable? Some(model) / None=unsat / Err=unknown. A soft question gives up early
    /// when it would have to invert a hash.
    pub fn feasible(&mut self, st: &State, c: T, hard: bool) -> Result<Option<Rc<Model>>, String> {
        match self.ts.cv(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        let cs = self.sol.slice(&self.ts, &st.pc, &[c]);
        match self.sol.solve(&mut self.ts, &cs, hard) {
            Res::Sat(m) => Ok(Some(self.merge_model(st, &cs, m))),
            Res::Unsat => Ok(None),
            Res::Unknown(e) => Err(e),
        }
    }

    /// a path of unknown feasibility whose model happens to satisfy it is feasible
    pub fn reconfirm(&mut self, st: &mut State) {
        if st.unsure {
            let mut memo: FxMap<T, u128> = Default::default();
            if st.pc.iter().all(|c| self.ts.eval(&st.model, &mut memo, *c) != 0) {
                st.unsure = false;
            }
        }
    }

    /// find a model of the whole path condition; false when there is none
    pub fn confirm(&mut self, st: &mut State) -> bool {
        if !st.unsure {
            return true;
        }
        let mut cs = st.pc.clone();
        cs.sort();
        cs.dedup();
        match self.sol.solve(&mut self.ts, &cs, true) {
            Res::Sat(m) => {
                st.model = self.merge_model(st, &cs, m);
                st.unsure = false;
                true
            }
            Res::Unsat => false,
            Res::Unknown(_) => true,
        }
    }

    pub fn decide(&mut self, st: &mut State, c: T) -> Result<bool, Stop> {
        if let Some(v) = self.known(st, c) {
            return Ok(v);
        }
        let m = st.model.clone();
        let v = self.eval(&m, c) != 0;
        self.decide_prefer(st, c, v)
    }

    /// Decide c, forking the other side; the current state continues with `pref` when that is feasible.
    pub fn decide_prefer(&mut self, st: &mut State, c: T, pref: bool) -> Result<bool, Stop> {
        if let Some(v) = self.known(st, c) {
            return Ok(v);
        }
        let m = st.model.clone();
        let v = self.eval(&m, c) != 0;
        let nc = self.ts.not(c);
        let (cv, other) = if v { (c, nc) } else { (nc, c) };
        let of = self.feasible(st, other, false);
        if let Ok(None) = of {
            // implied
            st.lits.insert(c, v);
            return Ok(v);
        }
        if st.unsure {
            match self.feasible(st, cv, false) {
                Ok(None) => {
                    st.lits.insert(c, !v);
                    if let Ok(Some(om)) = of {
                        st.model = om;
                        self.reconfirm(st);
                    }
                    return Ok(!v);
                }
                Ok(Some(m)) => st.model = m,
                Err(_) => {}
            }
        }
        self.forks += 1;
        let mut o = st.clone();
        o.forks += 1;
        match of {
            Ok(Some(om)) => o.model = om,
            _ => o.unsure = true,
        }
        self.add_constraint(&mut o, other);
        self.add_constraint(st, cv);
        self.reconfirm(st);
        self.reconfirm(&mut o);
        if v == pref {
            self.work.push(o);
            Ok(v)
        } else {
            std::mem::swap(st, &mut o);
            self.work.push(o);
            Ok(pref)
        }
    }

    /// Force a term to a single value, forking over all its feasible values.
    pub fn concretize(&mut self, st: &mut State, t: T) -> Result<u128, Stop> {
        let t = self.simp(st, t);
        if let Some(v) = self.ts.cv(t) {
            return Ok(v);
        }
        let m = st.model.clone();
        let v = self.eval(&m, t);
        let c = self.ts.c(v, self.ts.w(t));
        let e = self.ts.eq(t, c);
        let k = self.enum_count.entry(t).or_default();
        *k += 1;
        if *k > self.cfg.enum_limit {
            return Err(Stop::End(End::Stuck("too many values to enumerate".into())));
        }
        if !self.decide_prefer(st, e, true)? {
            // only on a path whose model was not confirmed; the model has another value now
            if self.eval(&st.model.clone(), t) == v {
                return Err(Stop::End(End::Stuck("no value found on a path the solver could not confirm".into())));
            }
            return self.concretize(st, t);
        }
        if !st.conc.contains_key(&t) {
            st.conc.insert(t, c);
        }
        Ok(v)
    }

    // ---------- path ----------
    pub fn inputs_of(&mut self, st: &State) -> Vec<(String, Vec<u8>)> {
        let mut memo: FxMap<T, u128> = Default::default();
        st.inputs
            .iter()
            .map(|i| (i.name.clone(), i.bytes.iter().map(|b| self.ts.eval(&st.model, &mut memo, *b) as u8).collect()))
            .collect()
    }

    pub fn stack_of(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.func.name)).collect()
    }

    pub fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{}|{}", kind, msg);
        if self.viol_keys.contains(&key) {
            return;
        }
        let mut st = st.clone();
        if !self.confirm(&mut st) {
            return;
        }
        if st.unsure {
            *self.incon.entry(format!("{} '{}' on a path the solver could not confirm", kind, msg)).or_default() += 1;
            return;
        }
        let st = &st;
        self.viol_keys.insert(key);
        let inputs = self.inputs_of(st);
        let stack = self.stack_of(st);
        if self.cfg.verbose {
            eprintln!("VIOLATION {} {} {:?}", kind, msg, stack);
        }
        self.viol.push(Violation { kind: kind.into(), msg: msg.into(), inputs, stack });
        // the driver may stop the run once there is something to replay
        if !self.cfg.out.is_empty() {
            let r = self.report(self.t0.elapsed().as_secs_f64());
            let t = format!("{}.part", self.cfg.out);
            if std::fs::write(&t, r).is_ok() {
                let _ = std::fs::rename(&t, &self.cfg.out);
            }
        }
    }

    fn run_path(&mut self, mut st: State) {
        let end = loop {
            match self.run_frame(&mut st) {
                Ok(()) => {}
                Err(Stop::Again) => {}
                Err(Stop::End(e)) => {
                    // a modelled process ends without ending the path
                    if !st.procs.is_empty() {
                        let code = match &e {
                            End::Exit(c) => Some(*c),
                            End::Panic(m) => {
                                let m = format!("panic: {}", m);
                                let bytes: Vec<T> = m.bytes().map(|b| b as T).collect();
                                st.os.stderr.extend(bytes);
                                Some(101)
                            }
                            _ => None,
                        };
                        if let Some(c) = code {
                            self.end_proc(&mut st, c);
                            continue;
                        }
                    }
                    break e;
                }
            }
        };
        self.npaths += 1;
        let mut outcome = match &end {
            End::Done => "done".to_string(),
            End::Exit(c) => format!("exit {}", c),
            End::Panic(_) => "panic".into(),
            End::Mem(_) => "memory error".into(),
            End::Pruned => "pruned".into(),
            End::Stuck(_) => "stuck".into(),
        };
        match &end {
            End::Panic(m) => {
                if !st.panic_ok {
                    self.violation(&st, "panic", m);
                } else {
                    outcome = "allowed panic".into();
                }
            }
            End::Mem(m) => self.violation(&st, "memory", m),
            End::Exit(c) => {
                self.violation(&st, "exit", &format!("process exit {}", c));
            }
            // replayed natively, where it has to run into the time limit
            End::Stuck(m) if m == "step limit" => self.violation(&st, "hang", "does not come to an end"),
            End::Stuck(m) => {
                let s = self.stack_of(&st);
                *self.incon.entry(format!("{} at {}", m, s.first().cloned().unwrap_or_default())).or_default() += 1;
            }
            _ => {}
        }
        if st.unsure {
            outcome = format!("{}, feasibility not confirmed", outcome);
        }
        *self.outcomes.entry(outcome.clone()).or_default() += 1;
        if !st.unsure && !matches!(end, End::Pruned | End::Stuck(_)) {
            for c in st.covers.clone() {
                *self.covers.entry(c).or_default() += 1;
            }
            if self.npaths <= 600 && matches!(end, End::Done) {
                self.randomise(&mut st);
            }
            let inputs = self.inputs_of(&st);
            let mut memo: FxMap<T, u128> = Default::default();
            let obs = st.obs.iter().map(|(n, t)| (n.clone(), self.ts.eval(&st.model, &mut memo, *t) as u64)).collect();
            if self.paths.len() < 20000 {
                self.paths.push(PathRec { outcome, inputs, obs, covers: st.covers.clone() });
            }
        }
    }

    /// Replace the model by a random one of the same path: start from random values and put the
    /// variables of every failing constraint back to the solver's values.
    fn randomise(&mut self, st: &mut State) {
        let mut seed = self.cfg.seed ^ (self.npaths << 20) ^ 0x9E3779B97F4A7C15;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed.wrapping_mul(0x2545F4914F6CDD1D)
        };
        let mut vars: BTreeSet<T> = Default::default();
        for i in &st.inputs {
            let first = i.bytes.clone();
            for b in first {
                for v in self.sol.vars_of(&self.ts, b).iter() {
                    vars.insert(*v);
                }
                if self.ts.n[b as usize].op == Op::Sel {
                    break;
                }
            }
        }
        let mut m = (*st.model).clone();
        for v in &vars {
            let w = self.ts.w(*v);
            if w == 0 {
                let mut a: FxMap<u64, u8> = Default::default();
                for i in &st.inputs {
                    for b in &i.bytes {
                        let n = self.ts.n[*b as usize];
                        if n.op == Op::Sel && n.a == *v {
                            if let Some(k) = self.ts.cv(n.b) {
                                a.insert(k as u64, rnd() as u8);
                            }
                        }
                    }
                }
                m.arrs.insert(*v, (0, a));
            } else {
                m.vars.insert(*v, (rnd() as u128 | (rnd() as u128) << 64) & mask(w));
            }
        }
        {
            let mut memo: FxMap<T, u128> = Default::default();
            for c in &st.pc {
                if self.ts.eval(&st.model, &mut memo, *c) == 0 {
                    *self.incon.entry("a path's model does not satisfy its constraints".into()).or_default() += 1;
                    return;
                }
            }
        }
        let mut tries: BTreeMap<T, u32> = Default::default();
        loop {
            let mut memo: FxMap<T, u128> = Default::default();
            let mut bad: BTreeSet<T> = Default::default();
            for c in &st.pc {
                if self.ts.eval(&m, &mut memo, *c) == 0 {
                    for v in self.sol.vars_of(&self.ts, *c).iter() {
                        bad.insert(*v);
                    }
                }
            }
            if bad.is_empty() {
                break;
            }
            let mut changed = false;
            for v in bad {
                if self.ts.w(v) == 0 {
                    let o = st.model.arrs.get(&v).cloned().unwrap_or_default();
                    if m.arrs.get(&v) != Some(&o) {
                        changed = true;
                        m.arrs.insert(v, o);
                    }
                } else {
                    let k = tries.entry(v).or_default();
                    *k += 1;
                    if *k < 6 {
                        let cur = m.vars.get(&v).copied().unwrap_or(0);
                        changed = true;
                        m.vars.insert(v, cur >> 11);
                        continue;
                    }
                    let o = st.model.vars.get(&v).copied().unwrap_or(0);
                    if m.vars.get(&v) != Some(&o) {
                        changed = true;
                        m.vars.insert(v, o);
                    }
                }
            }
            if !changed {
                return; // not a model after all: keep the solver's
            }
        }
        st.model = Rc::new(m);
    }

    #[inline]
    pub fn get(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(i) => st.frames.last().unwrap().regs[*i as usize].clone(),
            Opnd::C(v) => v.clone(),
        }
    }
    #[inline]
    pub fn gt(&self, st: &State, o: &Opnd) -> T {
        match o {
            Opnd::R(i) => st.frames.last().unwrap().regs[*i as usize].t(),
            Opnd::C(v) => v.t(),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.prev = from;
        fr.blk = to;
        let f = fr.func.clone();
        let b = &f.blocks[to as usize];
        if b.nphi > 0 {
            let mut vals = Vec::with_capacity(b.nphi);
            for (d, i) in &b.insts[..b.nphi] {
                if let Inst::Phi(v) = i {
                    let o = &v.iter().find(|(_, l)| *l == from).expect("phi edge").0;
                    let x = match o {
                        Opnd::R(i) => fr.regs[*i as usize].clone(),
                        Opnd::C(v) => v.clone(),
                    };
                    vals.push((*d, x));
                }
            }
            for (d, x) in vals {
                fr.regs[d as usize] = x;
            }
        }
        fr.ip = b.nphi;
    }

    pub fn ret_from(&mut self, st: &mut State, v: Option<Val>) -> Result<(), Stop> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            self.release(st, *a);
        }
        match fr.on_ret {
            OnRet::Plain => {
                if st.frames.is_empty() {
                    return Err(Stop::End(End::Done));
                }
                self.finish_call(st, fr.dest, fr.normal, v);
            }
            OnRet::Discard => {}
            OnRet::Thread => {
                let me = st.tid;
                let rv = match v {
                    Some(Val::T(t)) => self.ts.cv(t).unwrap_or(0) as u64,
                    _ => 0,
                };
                st.os.thread_rets.insert(me, rv);
                st.os.done.push(me);
                for (_, (_, w)) in st.parked.iter_mut() {
                    if *w == Wait::Join(me) {
                        *w = Wait::Ready;
                    }
                }
                return self.switch(st);
            }
            OnRet::Proc => {
                let code = match v {
                    Some(Val::T(t)) => self.concretize(st, t)? as i32,
                    _ => 0,
                };
                self.end_proc(st, code);
            }
        }
        Ok(())
    }

    pub fn finish_call(&mut self, st: &mut State, dest: u32, normal: Option<u32>, v: Option<Val>) {
        let fr = st.frames.last_mut().unwrap();
        if dest != u32::MAX {
            if let Some(v) = v {
                fr.regs[dest as usize] = v;
            }
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => fr.ip += 1,
        }
    }

    fn run_frame(&mut self, st: &mut State) -> Result<(), Stop> {
        let depth = st.frames.len();
        self.max_frames = self.max_frames.max(depth);
        if depth > 4000 {
            return Err(Stop::End(End::Stuck("call depth".into())));
        }
        let f = st.frames[depth - 1].func.clone();
        loop {
            let (blk, ip) = {
                let fr = &st.frames[depth - 1];
                (fr.blk, fr.ip)
            };
            let (dest, inst) = &f.blocks[blk as usize].insts[ip];
            st.steps += 1;
            self.steps += 1;
            if self.steps & 0xfffff == 0 {
                if self.t0.elapsed().as_secs() > self.cfg.max_secs {
                    return Err(Stop::End(End::Stuck("time limit".into())));
                }
            }
            if st.steps > self.cfg.max_steps {
                return Err(Stop::End(End::Stuck("step limit".into())));
            }
            if self.cfg.trace {
                eprintln!("{} b{} i{} {:?}", demangle(&f.name), blk, ip, inst);
            }
            macro_rules! set {
                ($v:expr) => {{
                    let v = $v;
                    let fr = &mut st.frames[depth - 1];
                    if *dest != u32::MAX {
                        fr.regs[*dest as usize] = v;
                    }
                    fr.ip += 1;
                }};
            }
            match inst {
                Inst::Bin(op, ty, a, b) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let v = self.bin(*op, ty, &x, &y);
                    set!(v)
                }
                Inst::ICmp(p, _, a, b) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let v = self.icmp(*p, &x, &y);
                    set!(v)
                }
                Inst::Load(ty, p) => {
                    let a = self.gt(st, p);
                    let v = self.load(st, a, ty)?;
                    set!(v)
                }
                Inst::Store(ty, v, p) => {
                    let v = self.get(st, v);
                    let a = self.gt(st, p);
                    self.store(st, a, ty, &v)?;
                    st.frames[depth - 1].ip += 1;
                }
                Inst::Gep(base, off, var) => {
                    let mut a = self.gt(st, base);
                    if *off != 0 {
                        let c = self.ts.c(*off as u128, 64);
                        a = self.ts.add(a, c);
                    }
                    for (scale, o, w) in var {
                        let i = self.gt(st, o);
                        let i = if *w < 64 { self.ts.sext(i, 64) } else { self.ts.trunc(i, 64) };
                        let s = self.ts.c(*scale as u128, 64);
                        let p = self.ts.mul(i, s);
                        a = self.ts.add(a, p);
                    }
                    set!(Val::T(a))
                }
                Inst::Cast(op, from, o, to) => {
                    let v = self.get(st, o);
                    let r = self.cast(*op, from, &v, to);
                    set!(r)
                }
                Inst::Select(c, _, a, b) => {
                    let (c, a, b) = (self.get(st, c), self.get(st, a), self.get(st, b));
                    let v = self.select(st, &c, &a, &b);
                    set!(v)
                }
                Inst::Br(b) => self.jump(st, *b),
                Inst::CondBr(c, a, b) => {
                    let c = self.gt(st, c);
                    let v = self.decide(st, c)?;
                    self.jump(st, if v { *a } else { *b });
                }
                Inst::Switch(c, d, cases) => {
                    let t = self.gt(st, c);
                    let t = self.simp(st, t);
                    if let Some(v) = self.ts.cv(t) {
                        let l = cases.iter().find(|(k, _)| *k == v).map(|x| x.1).unwrap_or(*d);
                        self.jump(st, l);
                    } else {
                        let w = self.ts.w(t);
                        let mut done = false;
                        // group the cases by target
                        let mut tg: Vec<(u32, Vec<u128>)> = vec![];
                        for (k, l) in cases {
                            match tg.iter_mut().find(|x| x.0 == *l) {
                                Some(x) => x.1.push(*k),
                                None => tg.push((*l, vec![*k])),
                            }
                        }
                        for (l, ks) in tg {
                            if l == *d {
                                continue;
                            }
                            let mut c = self.ts.b(false);
                            for k in ks {
                                let kc = self.ts.c(k, w);
                                let e = self.ts.eq(t, kc);
                                c = self.ts.or(c, e);
                            }
                            if self.decide(st, c)? {
                                self.jump(st, l);
                                done = true;
                                break;
                            }
                        }
                        if !done {
                            self.jump(st, *d);
                        }
                    }
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| self.get(st, o));
                    return self.ret_from(st, v);
                }
                Inst::Call { callee, args, ret, normal } => {
                    return self.call(st, *dest, callee, args, ret, *normal);
                }
                Inst::Phi(_) => st.frames[depth - 1].ip += 1,
                Inst::Alloca(sz, n) => {
                    let mut size = *sz;
                    if let Some(n) = n {
                        let k = self.gt(st, n);
                        size *= self.concretize(st, k)? as u64;
                    }
                    let a = self.alloc(st, size, false);
                    st.frames[depth - 1].allocas.push((a >> 32) as u32);
                    let t = self.ts.c(a as u128, 64);
                    set!(Val::T(t))
                }
                Inst::ExtractValue(a, ix) => {
                    let mut v = self.get(st, a);
                    for i in ix {
                        v = match v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => panic!("extractvalue"),
                        };
                    }
                    set!(v)
                }
                Inst::InsertValue(a, b, ix) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let v = insert_value(&x, &y, ix);
                    set!(v)
                }
                Inst::ExtractElem(a, i) => {
                    let v = self.get(st, a);
                    let i = self.gt(st, i);
                    let i = self.concretize(st, i)? as usize;
                    let r = match v {
                        Val::A(x) => x[i].clone(),
                        _ => panic!("extractelement"),
                    };
                    set!(r)
                }
                Inst::InsertElem(a, v, i) => {
                    let x = self.get(st, a);
                    let v = self.get(st, v);
                    let i = self.gt(st, i);
                    let i = self.concretize(st, i)? as u32;
                    let r = insert_value(&x, &v, &[i]);
                    set!(r)
                }
                Inst::Shuffle(a, b, mask, n) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (x, y) = match (x, y) {
                        (Val::A(x), Val::A(y)) => (x, y),
                        _ => panic!("shuffle"),
                    };
                    let v: Vec<Val> = mask
                        .iter()
                        .map(|m| match m {
                            Some(i) if (*i as u64) < *n => x[*i as usize].clone(),
                            Some(i) => y[(*i as u64 - n) as usize].clone(),
                            None => x[0].clone(),
                        })
                        .collect();
                    set!(Val::A(Rc::new(v)))
                }
                Inst::FNeg(_, a) => {
                    let v = self.get(st, a);
                    let r = self.map1(&v, &mut |s, t| {
                        let w = s.ts.w(t);
                        let c = s.ts.c(1u128 << (w - 1), w);
                        s.ts.xor(t, c)
                    });
                    set!(r)
                }
                Inst::FCmp(p, _, a, b) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let p = p.clone();
                    let r = self.map2(&x, &y, &mut |s, a, b| s.ts.fcmp(&p, a, b));
                    set!(r)
                }
                Inst::Freeze(a) => {
                    let v = self.get(st, a);
                    set!(v)
                }
                Inst::Nop => st.frames[depth - 1].ip += 1,
                Inst::Rmw(op, ty, p, v) => {
                    let a = self.gt(st, p);
                    let v = self.gt(st, v);
                    let old = self.load(st, a, ty)?.t();
                    let new = match &**op {
                        "xchg" => v,
                        "add" => self.ts.add(old, v),
                        "sub" => self.ts.sub(old, v),
                        "and" => self.ts.and(old, v),
                        "or" => self.ts.or(old, v),
                        "xor" => self.ts.xor(old, v),
                        "umax" => {
                            let c = self.ts.ult(old, v);
                            self.ts.ite(c, v, old)
                        }
                        "umin" => {
                            let c = self.ts.ult(old, v);
                            self.ts.ite(c, old, v)
                        }
                        o => return Err(Stop::End(End::Stuck(format!("atomicrmw {}", o)))),
                    };
                    self.store(st, a, ty, &Val::T(new))?;
                    set!(Val::T(old))
                }
                Inst::CmpXchg(ty, p, a, b) => {
                    let p = self.gt(st, p);
                    let (a, b) = (self.gt(st, a), self.gt(st, b));
                    let old = self.load(st, p, ty)?.t();
                    let e = self.ts.eq(old, a);
                    let new = self.ts.ite(e, b, old);
                    self.store(st, p, ty, &Val::T(new))?;
                    set!(Val::A(Rc::new(vec![Val::T(old), Val::T(e)])))
                }
                Inst::Unreachable => return Err(Stop::End(End::Panic("unreachable code reached".into()))),
                Inst::Landing => return Err(Stop::End(End::Stuck("landing pad reached".into()))),
            }
        }
    }

    pub fn map1(&mut self, v: &Val, f: &mut dyn FnMut(&mut Self, T) -> T) -> Val {
        match v {
            Val::T(t) => Val::T(f(self, *t)),
            Val::A(a) => Val::A(Rc::new(a.iter().map(|x| self.map1(x, f)).collect())),
        }
    }
    pub fn map2(&mut self, x: &Val, y: &Val, f: &mut dyn FnMut(&mut Self, T, T) -> T) -> Val {
        match (x, y) {
            (Val::T(a), Val::T(b)) => Val::T(f(self, *a, *b)),
            (Val::A(a), Val::A(b)) => Val::A(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| self.map2(p, q, f)).collect())),
            _ => panic!("map2 shape"),
        }
    }

    fn bin(&mut self, op: BinOp, _ty: &Ty, x: &Val, y: &Val) -> Val {
        self.map2(x, y, &mut |s, a, b| {
            let w = s.ts.w(a);
            match op {
                BinOp::Add => s.ts.add(a, b),
                BinOp::Sub => s.ts.sub(a, b),
                BinOp::Mul => s.ts.mul(a, b),
                BinOp::UDiv => s.ts.udiv(a, b),
                BinOp::SDiv => s.ts.sdiv(a, b),
                BinOp::URem => s.ts.urem(a, b),
                BinOp::SRem => s.ts.srem(a, b),
                BinOp::Shl => s.ts.shl(a, b),
                BinOp::LShr => s.ts.lshr(a, b),
                BinOp::AShr => s.ts.ashr(a, b),
                BinOp::And => s.ts.and(a, b),
                BinOp::Or => s.ts.or(a, b),
                BinOp::Xor => s.ts.xor(a, b),
                BinOp::FAdd => s.ts.fn2(F::FAdd, a, b, w),
                BinOp::FSub => s.ts.fn2(F::FSub, a, b, w),
                BinOp::FMul => s.ts.fn2(F::FMul, a, b, w),
                BinOp::FDiv => s.ts.fn2(F::FDiv, a, b, w),
                BinOp::FRem => s.ts.fn2(F::FRem, a, b, w),
            }
        })
    }
    pub fn icmp(&mut self, p: Pred, x: &Val, y: &Val) -> Val {
        self.map2(x, y, &mut |s, a, b| match p {
            Pred::Eq => s.ts.eq(a, b),
            Pred::Ne => {
                let e = s.ts.eq(a, b);
                s.ts.not(e)
            }
            Pred::Ugt => s.ts.ult(b, a),
            Pred::Uge => s.ts.ule(b, a),
            Pred::Ult => s.ts.ult(a, b),
            Pred::Ule => s.ts.ule(a, b),
            Pred::Sgt => s.ts.slt(b, a),
            Pred::Sge => {
                let e = s.ts.slt(a, b);
                s.ts.not(e)
            }
            Pred::Slt => s.ts.slt(a, b),
            Pred::Sle => {
                let e = s.ts.slt(b, a);
                s.ts.not(e)
            }
        })
    }
    fn cast(&mut self, op: CastOp, from: &Ty, v: &Val, to: &Ty) -> Val {
        if op == CastOp::BitCast {
            // flatten to bits and rebuild
            if from.width().is_some() && to.width().is_some() {
                return v.clone();
            }
            let mut bits: Option<T> = None;
            let parts: Vec<T> = match v {
                Val::T(t) => vec![*t],
                Val::A(a) => a.iter().map(|x| x.t()).collect(),
            };
            for p in parts {
                bits = Some(match bits {
                    None => p,
                    Some(b) => self.ts.concat(p, b),
                });
            }
            let bits = bits.unwrap();
            return match to {
                Ty::Vec(n, e) => {
                    let w = e.width().unwrap();
                    Val::A(Rc::new((0..*n).map(|i| Val::T(self.ts.extract(bits, i as u32 * w as u32, w))).collect()))
                }
                _ => Val::T(bits),
            };
        }
        let te = match to {
            Ty::Vec(_, e) => (**e).clone(),
            t => t.clone(),
        };
        let w = te.width().expect("cast target");
        self.map1(v, &mut |s, a| match op {
            CastOp::Trunc => s.ts.trunc(a, w),
            CastOp::ZExt => s.ts.zext(a, w),
            CastOp::SExt => s.ts.sext(a, w),
            CastOp::FpTrunc => s.ts.fn1(F::FTrunc, a, w),
            CastOp::FpExt => s.ts.fn1(F::FExt, a, w),
            CastOp::FpToUi => s.ts.fn1(F::FToU, a, w),
            CastOp::FpToSi => s.ts.fn1(F::FToS, a, w),
            CastOp::UiToFp => {
                let a = if s.ts.w(a) == 1 { s.ts.zext(a, 8) } else { a };
                s.ts.fn1(F::UToF, a, w)
            }
            CastOp::SiToFp => {
                let a = if s.ts.w(a) == 1 { s.ts.sext(a, 8) } else { a };
                s.ts.fn1(F::SToF, a, w)
            }
            CastOp::PtrToInt | CastOp::IntToPtr => s.ts.zresize(a, w),
            CastOp::BitCast => unreachable!(),
        })
    }
    fn select(&mut self, st: &State, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::T(c) => match self.known(st, *c) {
                Some(true) => a.clone(),
                Some(false) => b.clone(),
                None => {
                    let c = *c;
                    self.map2(a, b, &mut |s, x, y| s.ts.ite(c, x, y))
                }
            },
            Val::A(cs) => {
                let (x, y) = match (a, b) {
                    (Val::A(x), Val::A(y)) => (x, y),
                    _ => panic!("select"),
                };
                Val::A(Rc::new(
                    cs.iter()
                        .enumerate()
                        .map(|(i, c)| Val::T(self.ts.ite(c.t(), x[i].t(), y[i].t())))
                        .collect(),
                ))
            }
        }
    }

    fn call(&mut self, st: &mut State, dest: u32, callee: &Callee, args: &[(Ty, Opnd)], ret: &Ty, normal: Option<u32>) -> Result<(), Stop> {
        let name: Rc<str> = match callee {
            Callee::Direct(n) => n.clone(),
            Callee::Asm => {
                let v = match ret {
                    Ty::Void => None,
                    t => Some(self.m.zero(&mut self.ts, t)),
                };
                // processor features: none, the answer of `cpuid` for each leaf is zero
                let at = self.stack_of(st).first().cloned().unwrap_or_default();
                if !matches!(ret, Ty::Void) && !at.contains("std_detect") {
                    return Err(Stop::End(End::Stuck("inline assembly with result".into())));
                }
                self.finish_call(st, dest, normal, v);
                return Ok(());
            }
            Callee::Indirect(o) => {
                let t = self.gt(st, o);
                let mut t = self.simp(st, t);
                // function chosen by condition
                while !self.ts.is_const(t) {
                    let n = self.ts.n[t as usize];
                    if n.op == Op::Ite {
                        t = if self.decide(st, n.a)? { n.b } else { n.c };
                    } else {
                        let v = self.concretize(st, t)?;
                        t = self.ts.c(v, 64);
                    }
                }
                let a = self.ts.cv(t).unwrap() as u64;
                if a <= FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 > self.m.fn_by_addr.len() as u64 {
                    return Err(Stop::End(End::Mem(format!("call of non-function {:#x}", a))));
                }
                self.m.fn_by_addr[((a - FN_BASE) / 16 - 1) as usize].clone()
            }
        };
        let argv: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
        self.call_named(st, dest, &name, argv, ret, normal)
    }

    pub fn panic_message(&mut self, st: &mut State, name: &str, argv: &[Val]) -> String {
        // the location is normally the last pointer argument
        let mut loc = String::new();
        for v in argv.iter().rev() {
            if let Val::T(t) = v {
                if let Some(a) = self.ts.cv(*t) {
                    let id = (a >> 32) as u32;
                    if a < FN_BASE as u128 && id > 0 && self.size_of_obj(st, id).map(|s| s - (a as u64 & 0xffffffff).min(s) >= 24) == Some(true) {
                        let (i, o) = (id, a as u64 & 0xffffffff);
                        let p = self.load_c(st, i, o, 64);
                        let n = self.load_c(st, i, o + 8, 64);
                        let l = self.load_c(st, i, o + 16, 32);
                        if let (Some(_), Some(n), Some(l)) = (self.ts.cv(p), self.ts.cv(n), self.ts.cv(l)) {
                            if n < 400 {
                                if let Ok(s) = self.read_range(st, p, n as u64) {
                                    if s.iter().all(|t| *t < 127 && *t >= 32) {
                                        let s: String = s.iter().map(|t| *t as u8 as char).collect();
                                        if s.ends_with(".rs") {
                                            loc = format!(" at {}:{}", s, l);
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let site = self
            .stack_of(st)
            .into_iter()
            .find(|s| s.contains("poppy") || s.contains("cli"))
            .unwrap_or_default();
        let what = demangle(name);
        let what = what.rsplit("::").next().unwrap_or("").to_string();
        // which core helper raised it
        let helper = self
            .stack_of(st)
            .into_iter()
            .find(|s| s.contains("core::panicking") || s.contains("unwrap_failed") || s.contains("expect_failed"))
            .map(|s| s.rsplit("::").next().unwrap_or("").to_string())
            .unwrap_or_default();
        format!("{} {}{} in {}", what, helper, loc, site)
    }

    pub fn report(&mut self, wall: f64) -> String {
        let mut s = String::new();
        let st = self.sol.st.clone();
        s.push_str("{\n");
        let _ = writeln!(s, " \"entry\": \"{}\",", self.cfg.entry);
        let _ = writeln!(s, " \"wall_s\": {:.3},", wall);
        let _ = writeln!(
            s,
            " \"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cut_unsat\": {}, \"cache_hits\": {}, \"model_hits\": {}, \"lemmas\": {}, \"guided\": {}, \"time_s\": {:.3}, \"max_time_s\": {:.3}, \"max_nodes\": {}}},",
            st.queries, st.sat, st.unsat, st.unknown, st.cut_unsat, st.cache_hits, st.model_hits, st.lemmas, st.guided, st.time, st.max_time, st.max_nodes
        );
        let _ = writeln!(s, " \"paths\": {}, \"forks\": {}, \"steps\": {}, \"terms\": {}, \"unexplored\": {},", self.npaths, self.forks, self.steps, self.ts.n.len(), self.work.len());
        let _ = writeln!(s, " \"checks_proved\": {},", self.nchecks);
        let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\": {}", jesc(k), v)).collect::<Vec<_>>().join(", ");
        let _ = writeln!(s, " \"outcomes\": {{{}}},", kv(&self.outcomes));
        let _ = writeln!(s, " \"covers\": {{{}}},", kv(&self.covers));
        let _ = writeln!(s, " \"checks\": {{{}}},", kv(&self.checks));
        let _ = writeln!(s, " \"inconclusive\": {{{}}},", kv(&self.incon));
        let fu: Vec<String> = self.funcs_used.iter().map(|(k, v)| format!("\"{}\": {}", jesc(&demangle(k)), v)).collect();
        let _ = writeln!(s, " \"functions\": {{{}}},", fu.join(", "));
        let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        let inp = |i: &Vec<(String, Vec<u8>)>| {
            i.iter().map(|(n, b)| format!("[\"{}\", \"{}\"]", jesc(n), hex(b))).collect::<Vec<_>>().join(", ")
        };
        s.push_str(" \"violations\": [");
        for (i, v) in self.viol.iter().enumerate() {
            let _ = write!(
                s,
                "{}\n  {{\"kind\": \"{}\", \"msg\": \"{}\", \"stack\": [{}], \"inputs\": [{}]}}",
                if i > 0 { "," } else { "" },
                jesc(&v.kind),
                jesc(&v.msg),
                v.stack.iter().map(|x| format!("\"{}\"", jesc(x))).collect::<Vec<_>>().join(", "),
                inp(&v.inputs)
            );
        }
        s.push_str("],\n \"path_records\": [");
        // a spread of path records for native comparison
        let n = self.paths.len();
        let keep = 40usize;
        let mut idx: BTreeSet<usize> = BTreeSet::new();
        // one per distinct cover set first
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for (i, p) in self.paths.iter().enumerate() {
            let k = format!("{}|{}", p.outcome, p.covers.join(","));
            if seen.insert(k) && idx.len() < keep {
                idx.insert(i);
            }
        }
        let mut rng = self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        while idx.len() < keep.min(n) {
            rng ^= rng << 13;
            rng ^= rng >> 7;
            rng ^= rng << 17;
            idx.insert((rng % n as u64) as usize);
        }
        for (j, i) in idx.iter().enumerate() {
            let p = &self.paths[*i];
            let _ = write!(
                s,
                "{}\n  {{\"outcome\": \"{}\", \"inputs\": [{}], \"obs\": [{}]}}",
                if j > 0 { "," } else { "" },
                jesc(&p.outcome),
                inp(&p.inputs),
                p.obs.iter().map(|(n, v)| format!("[\"{}\", {}]", jesc(n), v)).collect::<Vec<_>>().join(", ")
            );
        }
        s.push_str("]\n}\n");
        s
    }

    pub fn exit_code(&self) -> i32 {
        if !self.viol.is_empty() {
            1
        } else if !self.incon.is_empty() {
            2
        } else {
            0
        }
    }
}

pub fn insert_value(x: &Val, y: &Val, ix: &[u32]) -> Val {
    match x {
        Val::A(a) => {
            let mut v = (**a).clone();
            let i = ix[0] as usize;
            v[i] = if ix.len() == 1 { y.clone() } else { insert_value(&v[i], y, &ix[1..]) };
            Val::A(Rc::new(v))
        }
        _ => panic!("insertvalue"),
    }
}
