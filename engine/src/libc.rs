//! Intrinsics, C library and operating system models, and the harness interface.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum Kind {
    Panic,
    Abort,
    Fn(Rc<Func>),
    Ext,
}

pub fn std_fds() -> Vec<Option<Fd>> {
    let f = |k: u8| Some(Fd { path: "".into(), pos: 0, append: false, kind: k, dir: false });
    vec![f(1), f(2), f(3)]
}

fn stuck<X>(m: impl Into<String>) -> Result<X, Stop> {
    Err(Stop::End(End::Stuck(m.into())))
}

const ENOENT: u32 = 2;
const EBADF: u32 = 9;
const EAGAIN: u32 = 11;
const EACCES: u32 = 13;
const EEXIST: u32 = 17;
const EISDIR: u32 = 21;
const EINVAL: u32 = 22;
const ENOTTY: u32 = 25;
const ENOSYS: u32 = 38;

impl Exec {
    fn kind_of(&mut self, name: &Rc<str>) -> Kind {
        if let Some(k) = self.kinds.get(name) {
            return k.clone();
        }
        let n: &str = name;
        let k = if n.contains("4core9panicking9panic_fmt")
            || n.contains("4core9panicking18panic_nounwind_fmt")
            || n.contains("panic_nounwind_fmt")
            || n.contains("rust_begin_unwind")
            || n.contains("9panicking20rust_panic_with_hook")
            || n.contains("core9panicking30panic_null_pointer_dereference")
            || n.contains("core9panicking36panic_misaligned_pointer_dereference")
        {
            Kind::Panic
        } else if n.contains("18handle_alloc_error") || n.contains("rust_oom") || n.contains("rust_alloc_error_handler") {
            Kind::Abort
        } else {
            match self.func(name) {
                Some(f) => Kind::Fn(f),
                None => Kind::Ext,
            }
        };
        self.kinds.insert(name.clone(), k.clone());
        k
    }

    pub fn call_named(&mut self, st: &mut State, dest: u32, name: &Rc<str>, argv: Vec<Val>, ret: &Ty, normal: Option<u32>) -> Result<(), Stop> {
        match self.kind_of(name) {
            Kind::Fn(f) => {
                let mut a = argv;
                a.truncate(f.nparams);
                let fr = self.new_frame(f, a, dest, normal, OnRet::Plain);
                st.frames.push(fr);
                Ok(())
            }
            Kind::Panic => {
                let m = self.panic_message(st, name, &argv);
                Err(Stop::End(End::Panic(m)))
            }
            Kind::Abort => {
                let site = self.stack_of(st).into_iter().find(|s| s.contains("poppy") || s.contains("cli")).unwrap_or_default();
                Err(Stop::End(End::Panic(format!("allocation failure in {}", site))))
            }
            Kind::Ext => {
                let n: &str = name;
                if let Some(rest) = n.strip_prefix("llvm.") {
                    let v = self.intrinsic(st, rest, &argv, ret)?;
                    self.finish_call(st, dest, normal, v);
                    return Ok(());
                }
                if n.starts_with("sym_") {
                    return self.sym_call(st, n, &argv, dest, normal);
                }
                self.libc_call(st, n, &argv, ret, dest, normal)
            }
        }
    }

    fn k(&mut self, v: u128, w: u8) -> Val {
        Val::T(self.ts.c(v, w))
    }

    fn bits_tree(&mut self, a: T, f: &mut dyn FnMut(&mut Self, T, u32) -> T) -> Vec<T> {
        let w = self.ts.w(a) as u32;
        (0..w)
            .map(|i| {
                let b = self.ts.extract(a, i, 1);
                f(self, b, i)
            })
            .collect()
    }

    fn ctpop(&mut self, a: T) -> T {
        let w = self.ts.w(a);
        if w == 1 {
            return a;
        }
        if self.ts.cv(a).is_some() || w == 8 || w == 16 || w == 32 || w == 64 {
            return self.ts.fn1(F::PopCnt, a, w);
        }
        // SWAR for power of two widths
        if [8u8, 16, 32, 64].contains(&w) {
            let rep = |b: u128| -> u128 {
                let mut v = 0u128;
                for _ in 0..w / 8 {
                    v = (v << 8) | b;
                }
                v
            };
            let (c55, c33, c0f, c1, c2, c4) =
                (self.ts.c(rep(0x55), w), self.ts.c(rep(0x33), w), self.ts.c(rep(0x0f), w), self.ts.c(1, w), self.ts.c(2, w), self.ts.c(4, w));
            let s = self.ts.lshr(a, c1);
            let s = self.ts.and(s, c55);
            let x = self.ts.sub(a, s);
            let s = self.ts.lshr(x, c2);
            let s = self.ts.and(s, c33);
            let y = self.ts.and(x, c33);
            let x = self.ts.add(y, s);
            let s = self.ts.lshr(x, c4);
            let x = self.ts.add(x, s);
            let x = self.ts.and(x, c0f);
            // add bytes
            let mut r = self.ts.c(0, w);
            for i in 0..w / 8 {
                let b = self.ts.extract(x, 8 * i as u32, 8);
                let b = self.ts.zext(b, w);
                r = self.ts.add(r, b);
            }
            return r;
        }
        let bits = self.bits_tree(a, &mut |s, b, _| s.ts.zext(b, w));
        let mut r = self.ts.c(0, w);
        for b in bits {
            r = self.ts.add(r, b);
        }
        r
    }
    fn cttz(&mut self, a: T) -> T {
        let w = self.ts.w(a);
        let mut r = self.ts.c(w as u128, w);
        for i in (0..w as u32).rev() {
            let b = self.ts.extract(a, i, 1);
            let c = self.ts.c(i as u128, w);
            r = self.ts.ite(b, c, r);
        }
        r
    }
    fn ctlz(&mut self, a: T) -> T {
        let w = self.ts.w(a);
        let mut r = self.ts.c(w as u128, w);
        for i in 0..w as u32 {
            let b = self.ts.extract(a, i, 1);
            let c = self.ts.c((w as u32 - 1 - i) as u128, w);
            r = self.ts.ite(b, c, r);
        }
        r
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], ret: &Ty) -> Result<Option<Val>, Stop> {
        let base = n.split('.').next().unwrap();
        let t = |i: usize| a[i].t();
        match base {
            "lifetime" | "assume" | "dbg" | "prefetch" | "donothing" | "invariant" | "sideeffect" => return Ok(None),
            "va_start" | "va_end" => return stuck("varargs"),
            "experimental" => return Ok(None),
            "x86" if n.contains("pause") => return Ok(None),
            "memcpy" | "memmove" => {
                let len = self.concretize(st, t(2))? as u64;
                let bs = self.read_range(st, t(1), len)?;
                self.store_bytes(st, t(0), &bs)?;
                return Ok(None);
            }
            "memset" => {
                let len = self.concretize(st, t(2))? as u64;
                let bs = vec![t(1); len as usize];
                self.store_bytes(st, t(0), &bs)?;
                return Ok(None);
            }
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::End(End::Panic("trap".into()))),
            "threadlocal" => {
                let g = self.ts.cv(t(0)).unwrap() as u64;
                let id = (g >> 32) as u32;
                let key = (st.tid, id);
                let o = match st.tls.get(&key) {
                    Some(o) => *o,
                    None => {
                        let init = self.init_mem[id as usize].clone().unwrap();
                        let p = self.alloc(st, init.b.len() as u64, false);
                        let o = (p >> 32) as u32;
                        st.mem[o as usize] = Some(init);
                        st.tls.insert(key, o);
                        o
                    }
                };
                return Ok(Some(self.k((o as u128) << 32, 64)));
            }
            "is" => return Ok(Some(Val::T(self.ts.b(false)))),
            "objectsize" => return Ok(Some(self.k(u64::MAX as u128, 64))),
            "expect" | "launder" | "strip" | "ssa" | "ptrmask" if base == "expect" => return Ok(Some(a[0].clone())),
            _ => {}
        }
        let with_of = n.contains("with.overflow");
        if with_of {
            let (x, y) = (t(0), t(1));
            let w = self.ts.w(x);
            let (r, o) = match base {
                "uadd" => {
                    let r = self.ts.add(x, y);
                    let o = if w <= 64 && self.ts.umax(x) as u128 + self.ts.umax(y) as u128 <= mask(w) {
                        self.ts.b(false)
                    } else {
                        self.ts.ult(r, x)
                    };
                    (r, o)
                }
                "usub" => {
                    let r = self.ts.sub(x, y);
                    let o = self.ts.ult(x, y);
                    (r, o)
                }
                "umul" => {
                    let r = self.ts.mul(x, y);
                    let (a, b) = (self.ts.umax(x) as u128, self.ts.umax(y) as u128);
                    let o = if w <= 64 && a * b <= mask(w) {
                        self.ts.b(false)
                    } else if w <= 64 {
                        let (xx, yy) = (self.ts.zext(x, 2 * w), self.ts.zext(y, 2 * w));
                        let p = self.ts.mul(xx, yy);
                        let h = self.ts.extract(p, w as u32, w);
                        let z = self.ts.c(0, w);
                        let e = self.ts.eq(h, z);
                        self.ts.not(e)
                    } else {
                        // x*y overflows iff y != 0 && (x*y)/y != x
                        let z = self.ts.c(0, w);
                        let q = self.ts.udiv(r, y);
                        let e = self.ts.eq(q, x);
                        let e = self.ts.not(e);
                        let nz = self.ts.eq(y, z);
                        let nz = self.ts.not(nz);
                        self.ts.and(e, nz)
                    };
                    (r, o)
                }
                "sadd" | "ssub" | "smul" => {
                    let ww = (2 * w as u16).min(128) as u8;
                    if base == "smul" && w > 64 {
                        return stuck("smul.with.overflow");
                    }
                    let ww = if base == "smul" { ww } else { (w + 1).min(128) };
                    let (xx, yy) = (self.ts.sext(x, ww), self.ts.sext(y, ww));
                    let p = match base {
                        "sadd" => self.ts.add(xx, yy),
                        "ssub" => self.ts.sub(xx, yy),
                        _ => self.ts.mul(xx, yy),
                    };
                    let r = self.ts.trunc(p, w);
                    let back = self.ts.sext(r, ww);
                    let e = self.ts.eq(back, p);
                    let o = self.ts.not(e);
                    (r, o)
                }
                _ => return stuck(format!("intrinsic {}", n)),
            };
            return Ok(Some(Val::A(Rc::new(vec![Val::T(r), Val::T(o)]))));
        }
        let f1 = |f: F| Some(f);
        let un: Option<F> = match base {
            "ceil" => f1(F::Ceil),
            "floor" => f1(F::Floor),
            "round" => f1(F::Round),
            "roundeven" | "rint" | "nearbyint" => f1(F::RoundEven),
            "trunc" => f1(F::Trunc),
            "log" => f1(F::Log),
            "log2" => f1(F::Log2),
            "log10" => f1(F::Log10),
            "exp" => f1(F::Exp),
            "sqrt" => f1(F::Sqrt),
            _ => None,
        };
        if let Some(f) = un {
            return Ok(Some(self.map1(&a[0], &mut |s, x| {
                let w = s.ts.w(x);
                s.ts.fn1(f, x, w)
            })));
        }
        let bi: Option<F> = match base {
            "pow" => Some(F::Pow),
            "maxnum" | "maximumnum" => Some(F::FMax),
            "minnum" | "minimumnum" => Some(F::FMin),
            "copysign" => Some(F::CopySign),
            _ => None,
        };
        if let Some(f) = bi {
            return Ok(Some(self.map2(&a[0], &a[1], &mut |s, x, y| {
                let w = s.ts.w(x);
                s.ts.fn2(f, x, y, w)
            })));
        }
        if n.starts_with("fptoui.sat") || n.starts_with("fptosi.sat") {
            let f = if n.starts_with("fptoui") { F::FToUSat } else { F::FToSSat };
            let w = ret.width().unwrap();
            return Ok(Some(Val::T(self.ts.fn1(f, t(0), w))));
        }
        let v = match base {
            "umax" | "umin" | "smax" | "smin" => self.map2(&a[0], &a[1], &mut |s, x, y| {
                let c = match base {
                    "umax" | "umin" => s.ts.ult(x, y),
                    _ => s.ts.slt(x, y),
                };
                if base.ends_with("max") {
                    s.ts.ite(c, y, x)
                } else {
                    s.ts.ite(c, x, y)
                }
            }),
            "abs" => self.map1(&a[0], &mut |s, x| {
                let w = s.ts.w(x);
                let z = s.ts.c(0, w);
                let c = s.ts.slt(x, z);
                let m = s.ts.neg(x);
                s.ts.ite(c, m, x)
            }),
            "fabs" => self.map1(&a[0], &mut |s, x| {
                let w = s.ts.w(x);
                let c = s.ts.c(mask(w) >> 1, w);
                s.ts.and(x, c)
            }),
            "uadd" | "usub" | "sadd" | "ssub" => self.map2(&a[0], &a[1], &mut |s, x, y| {
                let w = s.ts.w(x);
                match base {
                    "uadd" => {
                        let r = s.ts.add(x, y);
                        let o = s.ts.ult(r, x);
                        let m = s.ts.c(mask(w), w);
                        s.ts.ite(o, m, r)
                    }
                    "usub" => {
                        let r = s.ts.sub(x, y);
                        let o = s.ts.ult(x, y);
                        let m = s.ts.c(0, w);
                        s.ts.ite(o, m, r)
                    }
                    _ => {
                        let (xx, yy) = (s.ts.sext(x, w + 1), s.ts.sext(y, w + 1));
                        let p = if base == "sadd" { s.ts.add(xx, yy) } else { s.ts.sub(xx, yy) };
                        let r = s.ts.trunc(p, w);
                        let back = s.ts.sext(r, w + 1);
                        let ok = s.ts.eq(back, p);
                        let neg = s.ts.extract(p, w as u32, 1);
                        let mn = s.ts.c(1u128 << (w - 1), w);
                        let mx = s.ts.c(mask(w) >> 1, w);
                        let sat = s.ts.ite(neg, mn, mx);
                        s.ts.ite(ok, r, sat)
                    }
                }
            }),
            "ucmp" | "scmp" => {
                let w = ret.width().unwrap_or(8);
                self.map2(&a[0], &a[1], &mut |s, x, y| {
                    let (l, g) = if base == "ucmp" { (s.ts.ult(x, y), s.ts.ult(y, x)) } else { (s.ts.slt(x, y), s.ts.slt(y, x)) };
                    let (m1, z, p1) = (s.ts.c(mask(w), w), s.ts.c(0, w), s.ts.c(1, w));
                    let r = s.ts.ite(g, p1, z);
                    s.ts.ite(l, m1, r)
                })
            }
            "fshl" | "fshr" => {
                let (x, y, z) = (t(0), t(1), t(2));
                let w = self.ts.w(x);
                let wc = self.ts.c(w as u128, w);
                let s = if w.is_power_of_two() {
                    let m = self.ts.c(w as u128 - 1, w);
                    self.ts.and(z, m)
                } else {
                    self.ts.urem(z, wc)
                };
                let inv = self.ts.sub(wc, s);
                let r = if base == "fshl" {
                    let h = self.ts.shl(x, s);
                    let l = self.ts.lshr(y, inv);
                    self.ts.or(h, l)
                } else {
                    let h = self.ts.shl(x, inv);
                    let l = self.ts.lshr(y, s);
                    self.ts.or(h, l)
                };
                // shift by w yields 0 in the term language, which is what s == 0 needs
                Val::T(r)
            }
            "ctpop" => self.map1(&a[0], &mut |s, x| s.ctpop(x)),
            "cttz" => self.map1(&a[0], &mut |s, x| s.cttz(x)),
            "ctlz" => self.map1(&a[0], &mut |s, x| s.ctlz(x)),
            "bswap" => self.map1(&a[0], &mut |s, x| {
                let bs = s.split(x);
                let mut r = bs[0];
                for b in &bs[1..] {
                    r = s.ts.concat(r, *b);
                }
                r
            }),
            "bitreverse" => self.map1(&a[0], &mut |s, x| {
                let w = s.ts.w(x) as u32;
                let mut r = s.ts.extract(x, 0, 1);
                for i in 1..w {
                    let b = s.ts.extract(x, i, 1);
                    r = s.ts.concat(r, b);
                }
                r
            }),
            "vector" => {
                // reductions
                let v = match &a[a.len() - 1] {
                    Val::A(v) => v.clone(),
                    _ => return stuck(n),
                };
                let op = n.split('.').nth(2).unwrap_or("");
                let mut r = v[0].t();
                for x in &v[1..] {
                    let x = x.t();
                    r = match op {
                        "add" => self.ts.add(r, x),
                        "or" => self.ts.or(r, x),
                        "and" => self.ts.and(r, x),
                        "xor" => self.ts.xor(r, x),
                        "umax" => {
                            let c = self.ts.ult(r, x);
                            self.ts.ite(c, x, r)
                        }
                        "umin" => {
                            let c = self.ts.ult(r, x);
                            self.ts.ite(c, r, x)
                        }
                        _ => return stuck(n),
                    };
                }
                Val::T(r)
            }
            _ => return stuck(format!("intrinsic llvm.{}", n)),
        };
        Ok(Some(v))
    }

    fn errno(&mut self, st: &mut State, e: u32) {
        let id = st.os.errno;
        let bs = e.to_le_bytes();
        let o = self.obj_mut(st, id);
        for i in 0..4 {
            o.b[i] = bs[i] as T;
        }
    }

    fn do_malloc(&mut self, st: &mut State, n: T, zero: bool) -> Result<u64, Stop> {
        let lim = self.ts.c(st.alloc_limit as u128 + 1, 64);
        let ok = self.ts.ult(n, lim);
        if !self.decide(st, ok)? {
            self.errno(st, 12);
            return Ok(0);
        }
        let n = self.concretize(st, n)? as u64;
        let _ = zero;
        Ok(self.alloc(st, n.max(1), true))
    }

    fn do_free(&mut self, st: &mut State, p: T) -> Result<(), Stop> {
        let p = self.concretize(st, p)? as u64;
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32) as u32;
        let ok = p & 0xffff_ffff == 0 && st.mem.get(id as usize).and_then(|o| o.as_ref()).map(|o| o.heap) == Some(true);
        if !ok {
            return Err(Stop::End(End::Mem(format!("free of invalid pointer {:#x}", p))));
        }
        self.release(st, id);
        Ok(())
    }

    // ---- threads ----
    pub fn switch(&mut self, st: &mut State) -> Result<(), Stop> {
        // newest ready thread first or oldest first
        let ready: Vec<u32> = st.parked.iter().filter(|(_, (_, w))| *w == Wait::Ready).map(|(t, _)| *t).collect();
        let pick = match self.cfg.threads_at.as_str() {
            "join-rev" => ready.last(),
            _ => ready.first(),
        };
        match pick {
            Some(t) => {
                let (fr, _) = st.parked.remove(t).unwrap();
                st.frames = fr;
                st.tid = *t;
                Ok(())
            }
            None => stuck("all threads are blocked"),
        }
    }
    fn park(&mut self, st: &mut State, w: Wait) {
        let fr = std::mem::take(&mut st.frames);
        st.parked.insert(st.tid, (fr, w));
    }

    // ---- files ----
    fn norm(p: &[u8]) -> String {
        let s = String::from_utf8_lossy(p).to_string();
        let s = s.strip_prefix("./").unwrap_or(&s).to_string();
        s
    }
    fn parent_ok(&self, p: &str) -> bool {
        match p.rfind('/') {
            None => true,
            Some(_) => false,
        }
    }
    fn open(&mut self, st: &mut State, path: &[u8], flags: u32) -> Result<i64, u32> {
        let p: Rc<str> = Self::norm(path).into();
        let (creat, excl, trunc, app) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
        let mut kind = 0;
        let mut dir = false;
        if &*p == "/dev/null" {
            kind = 4;
        } else if p.is_empty() {
            return Err(ENOENT);
        } else if &*p == "." || &*p == "/" {
            if flags & 3 != 0 || creat {
                return Err(EISDIR);
            }
            dir = true;
        } else if st.os.unreadable.iter().any(|u| *u == p) {
            return Err(EACCES);
        } else if st.os.files.contains_key(&p) {
            if creat && excl {
                return Err(EEXIST);
            }
            if trunc {
                st.os.files.insert(p.clone(), Rc::new(vec![]));
            }
        } else {
            if !creat || !self.parent_ok(&p) {
                return Err(ENOENT);
            }
            st.os.files.insert(p.clone(), Rc::new(vec![]));
        }
        let fd = Fd { path: p, pos: 0, append: app, kind, dir };
        for (i, s) in st.os.fds.iter_mut().enumerate() {
            if s.is_none() {
                *s = Some(fd);
                return Ok(i as i64);
            }
        }
        st.os.fds.push(Some(fd));
        Ok(st.os.fds.len() as i64 - 1)
    }
    fn fread(&mut self, st: &mut State, fd: i64, n: usize) -> Result<Vec<T>, u32> {
        let f = match st.os.fds.get(fd as usize) {
            Some(Some(f)) => f.clone(),
            _ => return Err(EBADF),
        };
        match f.kind {
            1 => {
                let e = (st.os.stdin_pos + n).min(st.os.stdin.len());
                let v = st.os.stdin[st.os.stdin_pos..e].to_vec();
                st.os.stdin_pos = e;
                Ok(v)
            }
            4 => Ok(vec![]),
            0 => {
                if f.dir {
                    return Err(EISDIR);
                }
                let data = match st.os.files.get(&f.path) {
                    Some(d) => d.clone(),
                    None => return Err(ENOENT),
                };
                let s = f.pos.min(data.len());
                let e = (s + n).min(data.len());
                st.os.fds[fd as usize].as_mut().unwrap().pos = e;
                Ok(data[s..e].to_vec())
            }
            _ => Err(EBADF),
        }
    }
    fn fwrite(&mut self, st: &mut State, fd: i64, bs: &[T]) -> Result<i64, u32> {
        let f = match st.os.fds.get(fd as usize) {
            Some(Some(f)) => f.clone(),
            _ => return Err(EBADF),
        };
        match f.kind {
            2 => st.os.stdout.extend_from_slice(bs),
            3 => st.os.stderr.extend_from_slice(bs),
            4 => {}
            0 => {
                let mut rc = match st.os.files.get(&f.path) {
                    Some(d) => d.clone(),
                    None => return Err(EBADF),
                };
                st.os.files.remove(&f.path);
                let data = Rc::make_mut(&mut rc);
                let pos = if f.append { data.len() } else { f.pos };
                if data.len() < pos + bs.len() {
                    data.resize(pos + bs.len(), 0);
                }
                data[pos..pos + bs.len()].copy_from_slice(bs);
                st.os.files.insert(f.path.clone(), rc);
                st.os.fds[fd as usize].as_mut().unwrap().pos = pos + bs.len();
            }
            _ => return Err(EBADF),
        }
        Ok(bs.len() as i64)
    }

    /// (mode, size) of a path
    fn stat_path(&self, st: &State, p: &[u8]) -> Result<(u32, u64), u32> {
        let p = Self::norm(p);
        if p == "." || p == "/" {
            return Ok((0o040755, 4096));
        }
        if p == "/dev/null" {
            return Ok((0o020666, 0));
        }
        match st.os.files.get(p.as_str()) {
            Some(d) => Ok((0o100644, d.len() as u64)),
            None => Err(ENOENT),
        }
    }
    fn stat_fd(&self, st: &State, fd: i64) -> Result<(u32, u64), u32> {
        match st.os.fds.get(fd as usize) {
            Some(Some(f)) => match f.kind {
                0 if f.dir => Ok((0o040755, 4096)),
                0 => self.stat_path(st, f.path.as_bytes()),
                _ => Ok((0o010600, 0)),
            },
            _ => Err(EBADF),
        }
    }

    fn libc_call(&mut self, st: &mut State, n: &str, a: &[Val], ret: &Ty, dest: u32, normal: Option<u32>) -> Result<(), Stop> {
        let t = |i: usize| a[i].t();
        macro_rules! ret64 {
            ($v:expr) => {{
                let v = $v;
                let w = ret.width().unwrap_or(64);
                let x = self.k((v as u128) & mask(w), w);
                self.finish_call(st, dest, normal, Some(x));
                return Ok(());
            }};
        }
        macro_rules! errret {
            ($e:expr) => {{
                let e = $e;
                self.errno(st, e);
                ret64!(-1i64 as u64)
            }};
        }
        macro_rules! io {
            ($r:expr) => {{
                match $r {
                    Ok(v) => ret64!(v as u64),
                    Err(e) => errret!(e),
                }
            }};
        }
        match n {
            "malloc" => {
                let p = self.do_malloc(st, t(0), false)?;
                ret64!(p)
            }
            "calloc" => {
                let s = self.ts.mul(t(0), t(1));
                let p = self.do_malloc(st, s, true)?;
                ret64!(p)
            }
            "aligned_alloc" => {
                let p = self.do_malloc(st, t(1), false)?;
                ret64!(p)
            }
            "posix_memalign" => {
                let p = self.do_malloc(st, t(2), false)?;
                if p == 0 {
                    ret64!(12)
                }
                let pv = self.k(p as u128, 64);
                self.store(st, t(0), &Ty::Ptr, &pv)?;
                ret64!(0)
            }
            "realloc" => {
                let old = self.concretize(st, t(0))? as u64;
                let p = self.do_malloc(st, t(1), false)?;
                if p != 0 && old != 0 {
                    let (oi, ni) = ((old >> 32) as u32, (p >> 32) as u32);
                    if self.size_of_obj(st, oi).is_some() {
                        self.flush(st, oi);
                    }
                    let ob = match &st.mem[oi as usize] {
                        Some(o) if o.heap => o.clone(),
                        _ => return Err(Stop::End(End::Mem("realloc of invalid pointer".into()))),
                    };
                    let no = self.obj_mut(st, ni);
                    let k = ob.b.len().min(no.b.len());
                    no.b[..k].copy_from_slice(&ob.b[..k]);
                    self.release(st, oi);
                }
                ret64!(p)
            }
            "free" => {
                self.do_free(st, t(0))?;
                self.finish_call(st, dest, normal, None);
                Ok(())
            }
            "memcpy" | "memmove" => {
                let len = self.concretize(st, t(2))? as u64;
                let bs = self.read_range(st, t(1), len)?;
                self.store_bytes(st, t(0), &bs)?;
                self.finish_call(st, dest, normal, Some(a[0].clone()));
                Ok(())
            }
            "memset" => {
                let len = self.concretize(st, t(2))? as u64;
                let b = self.ts.trunc(t(1), 8);
                self.store_bytes(st, t(0), &vec![b; len as usize])?;
                self.finish_call(st, dest, normal, Some(a[0].clone()));
                Ok(())
            }
            "bcmp" | "memcmp" => {
                let len = self.concretize(st, t(2))? as u64;
                let x = self.read_range(st, t(0), len)?;
                let y = self.read_range(st, t(1), len)?;
                let z = self.ts.c(0, 32);
                let mut r = z;
                if n == "bcmp" {
                    let mut e = self.ts.b(true);
                    for (p, q) in x.iter().zip(&y) {
                        if p == q {
                            continue;
                        }
                        let (p, q) = (self.resel(*p), self.resel(*q));
                        let c = self.ts.eq(p, q);
                        e = self.ts.and(e, c);
                        if self.ts.cv(e) == Some(0) {
                            break;
                        }
                    }
                    let one = self.ts.c(1, 32);
                    r = self.ts.ite(e, z, one);
                } else {
                    for (p, q) in x.iter().zip(&y).rev() {
                        let (p, q) = (self.resel(*p), self.resel(*q));
                        let c = self.ts.eq(p, q);
                        let (p, q) = (self.ts.zext(p, 32), self.ts.zext(q, 32));
                        let d = self.ts.sub(p, q);
                        r = self.ts.ite(c, r, d);
                    }
                }
                self.finish_call(st, dest, normal, Some(Val::T(r)));
                Ok(())
            }
            "memchr" | "memrchr" => {
                let len = self.concretize(st, t(2))? as u64;
                let x = self.read_range(st, t(0), len)?;
                let c = self.ts.trunc(t(1), 8);
                let order: Vec<usize> = if n == "memchr" { (0..x.len()).collect() } else { (0..x.len()).rev().collect() };
                for i in order {
                    let b = self.resel(x[i]);
                    let e = self.ts.eq(b, c);
                    if self.decide(st, e)? {
                        let o = self.ts.c(i as u128, 64);
                        let p = self.ts.add(t(0), o);
                        self.finish_call(st, dest, normal, Some(Val::T(p)));
                        return Ok(());
                    }
                }
                ret64!(0)
            }
            "strlen" => {
                let s = self.read_cstr(st, t(0))?;
                ret64!(s.len())
            }
            "abort" => Err(Stop::End(End::Panic("abort".into()))),
            "exit" | "_exit" => {
                let c = self.concretize(st, t(0))? as u32 as i32;
                Err(Stop::End(End::Exit(c)))
            }
            "__errno_location" => ret64!((st.os.errno as u64) << 32),
            "getenv" | "secure_getenv" => ret64!(0),
            "__cxa_thread_atexit_impl" | "atexit" => ret64!(0),
            "pthread_key_create" => {
                let k = st.os.next_key;
                st.os.next_key += 1;
                let v = self.k(k as u128, 32);
                self.store(st, t(0), &Ty::Int(32), &v)?;
                ret64!(0)
            }
            "pthread_key_delete" => ret64!(0),
            "pthread_setspecific" => {
                let k = self.concretize(st, t(0))? as u32;
                let v = self.concretize(st, t(1))? as u64;
                st.os.keys.insert((st.tid, k), v);
                ret64!(0)
            }
            "pthread_getspecific" => {
                let k = self.concretize(st, t(0))? as u32;
                let v = st.os.keys.get(&(st.tid, k)).copied().unwrap_or(0);
                ret64!(v)
            }
            "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np" | "pthread_detach" | "sched_yield"
            | "sigaltstack" | "sigaction" | "pthread_attr_setguardsize" | "pthread_sigmask" | "sigemptyset" | "sigaddset" | "prctl" => ret64!(0),
            "dlsym" => ret64!(0),
            "__pthread_get_minstack" => ret64!(16384),
            "pthread_self" => ret64!(st.tid),
            "gettid" | "getpid" => ret64!(1000 + st.tid),
            "pthread_getattr_np" => ret64!(EINVAL),
            "signal" => ret64!(0),
            "pthread_create" => {
                let start = self.concretize(st, t(2))? as u64;
                let arg = a[3].clone();
                let tid = st.os.next_tid;
                st.os.next_tid += 1;
                let tv = self.k(tid as u128, 64);
                self.store(st, t(0), &Ty::Int(64), &tv)?;
                let fname = self.m.fn_by_addr[((start - FN_BASE) / 16 - 1) as usize].clone();
                let f = match self.func(&fname) {
                    Some(f) => f,
                    None => return stuck("thread start routine"),
                };
                let z = self.k(0, 32);
                self.finish_call(st, dest, normal, Some(z));
                let fr = self.new_frame(f, vec![arg], u32::MAX, None, OnRet::Thread);
                if self.cfg.threads_at == "spawn" {
                    self.park(st, Wait::Ready);
                    st.tid = tid;
                    st.frames = vec![fr];
                } else {
                    st.parked.insert(tid, (vec![fr], Wait::Ready));
                }
                Ok(())
            }
            "pthread_join" => {
                let tid = self.concretize(st, t(0))? as u32;
                if st.os.done.contains(&tid) {
                    let p = self.concretize(st, t(1))?;
                    if p != 0 {
                        let r = st.os.thread_rets.get(&tid).copied().unwrap_or(0);
                        let rv = self.k(r as u128, 64);
                        self.store(st, t(1), &Ty::Ptr, &rv)?;
                    }
                    ret64!(0)
                }
                self.park(st, Wait::Join(tid));
                self.switch(st)
            }
            "syscall" => {
                let nr = self.concretize(st, t(0))? as u64;
                match nr {
                    318 => {
                        // getrandom
                        let len = self.concretize(st, t(2))? as u64;
                        self.store_bytes(st, t(1), &vec![0x5a; len as usize])?;
                        ret64!(len)
                    }
                    202 => {
                        let op = self.concretize(st, t(2))? as u32 & 0x7f;
                        let addr = self.concretize(st, t(1))? as u64;
                        match op {
                            0 | 9 => {
                                let cur = self.load(st, t(1), &Ty::Int(32))?.t();
                                let cur = self.concretize(st, cur)?;
                                let want = self.ts.trunc(t(3), 32);
                                let want = self.concretize(st, want)?;
                                if cur != want {
                                    errret!(EAGAIN)
                                }
                                let z = self.k(0, 64);
                                self.finish_call(st, dest, normal, Some(z));
                                self.park(st, Wait::Futex(addr));
                                self.switch(st)
                            }
                            1 | 10 => {
                                let mut cnt = 0u64;
                                let max = self.concretize(st, t(3))? as u32 as u64;
                                for (_, (_, w)) in st.parked.iter_mut() {
                                    if cnt < max && *w == Wait::Futex(addr) {
                                        *w = Wait::Ready;
                                        cnt += 1;
                                    }
                                }
                                ret64!(cnt)
                            }
                            _ => stuck(format!("futex op {}", op)),
                        }
                    }
                    _ => errret!(ENOSYS),
                }
            }
            "getrandom" => {
                let len = self.concretize(st, t(1))? as u64;
                self.store_bytes(st, t(0), &vec![0x5a; len as usize])?;
                ret64!(len)
            }
            "sysconf" => {
                let k = self.concretize(st, t(0))? as u32;
                match k {
                    30 => ret64!(4096),
                    83 | 84 => ret64!(self.cfg.params.get("nproc").copied().unwrap_or(2)),
                    _ => errret!(EINVAL),
                }
            }
            "sched_getaffinity" => errret!(EINVAL),
            "isatty" => {
                self.errno(st, ENOTTY);
                ret64!(0)
            }
            "ioctl" => errret!(ENOTTY),
            "clock_gettime" => {
                st.os.now += 1_000_000;
                let (s, ns) = (1_700_000_000 + st.os.now / 1_000_000_000, st.os.now % 1_000_000_000);
                let sv = self.k(s as u128, 64);
                let nv = self.k(ns as u128, 64);
                self.store(st, t(1), &Ty::Int(64), &sv)?;
                let e = self.ts.c(8, 64);
                let p = self.ts.add(t(1), e);
                self.store(st, p, &Ty::Int(64), &nv)?;
                ret64!(0)
            }
            "getcwd" => {
                let p = b"/work\0";
                let bs: Vec<T> = p.iter().map(|b| *b as T).collect();
                self.store_bytes(st, t(0), &bs)?;
                let v = self.concretize(st, t(0))? as u64;
                ret64!(v)
            }
            "open64" | "open" => {
                let p = self.read_cstr(st, t(0))?;
                let fl = self.concretize(st, t(1))? as u32;
                io!(self.open(st, &p, fl))
            }
            "close" => {
                let fd = self.concretize(st, t(0))? as u32 as usize;
                match st.os.fds.get_mut(fd) {
                    Some(s) if s.is_some() => {
                        *s = None;
                        ret64!(0)
                    }
                    _ => errret!(EBADF),
                }
            }
            "read" => {
                let fd = self.concretize(st, t(0))? as u32 as i32 as i64;
                let len = self.concretize(st, t(2))? as usize;
                match self.fread(st, fd, len) {
                    Ok(bs) => {
                        self.store_bytes(st, t(1), &bs)?;
                        ret64!(bs.len())
                    }
                    Err(e) => errret!(e),
                }
            }
            "readv" => {
                let fd = self.concretize(st, t(0))? as u32 as i32 as i64;
                let cnt = self.concretize(st, t(2))? as u64;
                let mut tot = 0;
                for i in 0..cnt {
                    let (p, l) = self.iov(st, t(1), i)?;
                    match self.fread(st, fd, l as usize) {
                        Ok(bs) => {
                            self.store_bytes(st, p, &bs)?;
                            tot += bs.len();
                            if (bs.len() as u64) < l {
                                break;
                            }
                        }
                        Err(e) => errret!(e),
                    }
                }
                ret64!(tot)
            }
            "write" => {
                let fd = self.concretize(st, t(0))? as u32 as i32 as i64;
                let len = self.concretize(st, t(2))? as u64;
                let bs = self.read_range(st, t(1), len)?;
                io!(self.fwrite(st, fd, &bs))
            }
            "writev" => {
                let fd = self.concretize(st, t(0))? as u32 as i32 as i64;
                let cnt = self.concretize(st, t(2))? as u32 as u64;
                let mut bs = vec![];
                for i in 0..cnt {
                    let (p, l) = self.iov(st, t(1), i)?;
                    bs.extend(self.read_range(st, p, l)?);
                }
                io!(self.fwrite(st, fd, &bs))
            }
            "lseek64" | "lseek" => {
                let fd = self.concretize(st, t(0))? as u32 as i32 as i64;
                let off = self.concretize(st, t(1))? as u64 as i64;
                let wh = self.concretize(st, t(2))? as u32;
                let size = match self.stat_fd(st, fd) {
                    Ok((m, s)) if m & 0o170000 == 0o100000 => s as i64,
                    Ok(_) => errret!(29),
                    Err(e) => errret!(e),
                };
                let f = st.os.fds[fd as usize].as_mut().unwrap();
                let np = match wh {
                    0 => off,
                    1 => f.pos as i64 + off,
                    _ => size + off,
                };
                if np < 0 {
                    errret!(EINVAL)
                }
                f.pos = np as usize;
                ret64!(np as u64)
            }
            "ftruncate64" | "ftruncate" => {
                let fd = self.concretize(st, t(0))? as u32 as usize;
                let len = self.concretize(st, t(1))? as usize;
                let p = match st.os.fds.get(fd) {
                    Some(Some(f)) if f.kind == 0 => f.path.clone(),
                    _ => errret!(EBADF),
                };
                let mut d = (**st.os.files.get(&p).unwrap()).clone();
                d.resize(len, 0);
                st.os.files.insert(p, Rc::new(d));
                ret64!(0)
            }
            "fsync" | "fdatasync" | "fcntl" | "fcntl64" | "flock" | "fchmod" | "chmod" => ret64!(0),
            "unlink" => {
                let p = Self::norm(&self.read_cstr(st, t(0))?);
                match st.os.files.remove(p.as_str()) {
                    Some(_) => ret64!(0),
                    None => errret!(ENOENT),
                }
            }
            "rename" => {
                let p = Self::norm(&self.read_cstr(st, t(0))?);
                let q = Self::norm(&self.read_cstr(st, t(1))?);
                match st.os.files.remove(p.as_str()) {
                    Some(d) => {
                        st.os.files.insert(q.as_str().into(), d);
                        ret64!(0)
                    }
                    None => errret!(ENOENT),
                }
            }
            "access" => {
                let p = self.read_cstr(st, t(0))?;
                match self.stat_path(st, &p) {
                    Ok(_) => ret64!(0),
                    Err(e) => errret!(e),
                }
            }
            "realpath" => {
                let p = self.read_cstr(st, t(0))?;
                match self.stat_path(st, &p) {
                    Ok(_) => {
                        let mut full = if p.starts_with(b"/") { vec![] } else { b"/work/".to_vec() };
                        full.extend(Self::norm(&p).bytes());
                        full.push(0);
                        let m = self.alloc(st, full.len() as u64, true);
                        let mt = self.ts.c(m as u128, 64);
                        let bs: Vec<T> = full.iter().map(|b| *b as T).collect();
                        self.store_bytes(st, mt, &bs)?;
                        ret64!(m)
                    }
                    Err(e) => {
                        self.errno(st, e);
                        ret64!(0)
                    }
                }
            }
            "readlink" => errret!(EINVAL),
            "stat64" | "lstat64" | "fstat64" => {
                let r = if n == "fstat64" {
                    let fd = self.concretize(st, t(0))? as u32 as i64;
                    self.stat_fd(st, fd)
                } else {
                    let p = self.read_cstr(st, t(0))?;
                    self.stat_path(st, &p)
                };
                match r {
                    Ok((mode, size)) => {
                        let mut b = vec![0u8; 144];
                        b[16] = 1;
                        b[24..28].copy_from_slice(&mode.to_le_bytes());
                        b[48..56].copy_from_slice(&size.to_le_bytes());
                        b[56..64].copy_from_slice(&4096u64.to_le_bytes());
                        let bs: Vec<T> = b.iter().map(|x| *x as T).collect();
                        self.store_bytes(st, t(1), &bs)?;
                        ret64!(0)
                    }
                    Err(e) => errret!(e),
                }
            }
            "statx" => {
                let fd = self.concretize(st, t(0))? as u32 as i32;
                let p = self.concretize(st, t(1))?;
                if p == 0 {
                    errret!(14)
                }
                let p = self.read_cstr(st, t(1))?;
                let r = if p.is_empty() { self.stat_fd(st, fd as i64) } else { self.stat_path(st, &p) };
                match r {
                    Ok((mode, size)) => {
                        let mut b = vec![0u8; 256];
                        b[0..4].copy_from_slice(&0xfffu32.to_le_bytes());
                        b[4..8].copy_from_slice(&4096u32.to_le_bytes());
                        b[16] = 1;
                        b[28..30].copy_from_slice(&(mode as u16).to_le_bytes());
                        b[40..48].copy_from_slice(&size.to_le_bytes());
                        let bs: Vec<T> = b.iter().map(|x| *x as T).collect();
                        self.store_bytes(st, t(4), &bs)?;
                        ret64!(0)
                    }
                    Err(e) => errret!(e),
                }
            }
            "copy_file_range" | "sendfile64" | "splice" => errret!(ENOSYS),
            "__xpg_strerror_r" | "strerror_r" => {
                let e = self.concretize(st, t(0))? as u32;
                let s: &str = match e {
                    ENOENT => "No such file or directory\0",
                    EACCES => "Permission denied\0",
                    EEXIST => "File exists\0",
                    EISDIR => "Is a directory\0",
                    EINVAL => "Invalid argument\0",
                    _ => "Error\0",
                };
                let bs: Vec<T> = s.bytes().map(|b| b as T).collect();
                self.store_bytes(st, t(1), &bs)?;
                ret64!(0)
            }
            "log" | "exp" | "sqrt" | "ceil" | "floor" | "round" | "trunc" | "log2" | "log10" | "log1p" | "expm1" | "exp2" => {
                let f = match n {
                    "log" => F::Log,
                    "exp" => F::Exp,
                    "sqrt" => F::Sqrt,
                    "ceil" => F::Ceil,
                    "floor" => F::Floor,
                    "round" => F::Round,
                    "trunc" => F::Trunc,
                    "log2" => F::Log2,
                    "log10" => F::Log10,
                    _ => return stuck(format!("external {}", n)),
                };
                let v = self.ts.fn1(f, t(0), 64);
                self.finish_call(st, dest, normal, Some(Val::T(v)));
                Ok(())
            }
            "pow" => {
                let v = self.ts.fn2(F::Pow, t(0), t(1), 64);
                self.finish_call(st, dest, normal, Some(Val::T(v)));
                Ok(())
            }
            _ => stuck(format!("unsupported external function {}", n)),
        }
    }

    fn iov(&mut self, st: &mut State, base: T, i: u64) -> Result<(T, u64), Stop> {
        let o = self.ts.c(16 * i as u128, 64);
        let a = self.ts.add(base, o);
        let p = self.load(st, a, &Ty::Ptr)?.t();
        let o8 = self.ts.c(8, 64);
        let a8 = self.ts.add(a, o8);
        let l = self.load(st, a8, &Ty::Int(64))?.t();
        let l = self.concretize(st, l)? as u64;
        Ok((p, l))
    }

    // ---- harness interface ----
    fn name_arg(&mut self, st: &mut State, a: &[Val], i: usize) -> Result<String, Stop> {
        let n = self.concretize(st, a[i + 1].t())? as u64;
        let b = self.read_conc(st, a[i].t(), n)?;
        Ok(String::from_utf8_lossy(&b).to_string())
    }

    fn sym_call(&mut self, st: &mut State, n: &str, a: &[Val], dest: u32, normal: Option<u32>) -> Result<(), Stop> {
        let t = |i: usize| a[i].t();
        let mut out: Option<Val> = None;
        match n {
            "sym_bytes" => {
                let len = self.concretize(st, t(1))? as u64;
                let name = self.name_arg(st, a, 2)?;
                let uid = st.inputs.len();
                let vname = format!("{}_{}", uid, name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"));
                let mut bs: Vec<T> = vec![];
                if len > 160 {
                    let arr = self.ts.arr_var(&format!("a{}", vname));
                    for i in 0..len {
                        let idx = self.ts.c(i as u128, 64);
                        bs.push(self.ts.sel_raw(arr, idx));
                    }
                } else {
                    let mut i = 0;
                    while i < len {
                        let k = (len - i).min(8);
                        let v = self.ts.var(&format!("v{}_{}_{}", vname, i, len), (8 * k) as u8);
                        for j in 0..k {
                            bs.push(self.ts.extract(v, 8 * j as u32, 8));
                        }
                        i += k;
                    }
                }
                self.store_bytes(st, t(0), &bs)?;
                st.inputs.push(Input { name, bytes: bs });
            }
            "sym_below" => {
                let n = self.concretize(st, t(0))? as u64;
                let name = self.name_arg(st, a, 1)?;
                let vname = format!("v{}_{}_0_8", st.inputs.len(), name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"));
                let v = self.ts.var_below(&vname, 64, n);
                let bytes = self.split(v);
                st.inputs.push(Input { name, bytes });
                out = Some(Val::T(v));
            }
            "sym_assume" => {
                let c = t(0);
                match self.known(st, c) {
                    Some(true) => {}
                    Some(false) => return Err(Stop::End(End::Pruned)),
                    None => {
                        let m = st.model.clone();
                        if !st.unsure && self.eval(&m, c) != 0 {
                            self.add_constraint(st, c);
                        } else {
                            match self.feasible(st, c, false) {
                                Ok(Some(m)) => {
                                    st.model = m;
                                    self.add_constraint(st, c);
                                    self.reconfirm(st);
                                }
                                Ok(None) => return Err(Stop::End(End::Pruned)),
                                Err(_) => {
                                    self.add_constraint(st, c);
                                    st.unsure = true;
                                }
                            }
                        }
                    }
                }
            }
            "sym_check" => {
                let c = t(0);
                let msg = self.name_arg(st, a, 1)?;
                self.nchecks += 1;
                *self.checks.entry(msg.clone()).or_default() += 1;
                match self.known(st, c) {
                    Some(true) => {}
                    Some(false) => {
                        self.violation(st, "check", &msg);
                        return Err(Stop::End(End::Done));
                    }
                    None => {
                        let m = st.model.clone();
                        let nc = self.ts.not(c);
                        if !st.unsure && self.eval(&m, c) == 0 {
                            self.violation(st, "check", &msg);
                            match self.feasible(st, c, false) {
                                Ok(Some(m)) => {
                                    st.model = m;
                                    self.add_constraint(st, c);
                                }
                                _ => return Err(Stop::End(End::Done)),
                            }
                        } else {
                            match self.feasible(st, nc, true) {
                                Ok(None) => {
                                    st.lits.insert(c, true);
                                }
                                Ok(Some(bad)) => {
                                    let mut o = st.clone();
                                    o.model = bad;
                                    self.add_constraint(&mut o, nc);
                                    self.violation(&o, "check", &msg);
                                    self.add_constraint(st, c);
                                }
                                Err(e) => {
                                    *self.incon.entry(format!("solver on check '{}': {}", msg, e)).or_default() += 1;
                                    self.add_constraint(st, c);
                                }
                            }
                        }
                    }
                }
            }
            "sym_cover" => {
                let name = self.name_arg(st, a, 0)?;
                if !st.covers.contains(&name) {
                    st.covers.push(name);
                }
            }
            "sym_observe" => {
                let name = self.name_arg(st, a, 0)?;
                st.obs.push((name, t(2)));
            }
            "sym_concretize" => {
                let v = self.concretize(st, t(0))?;
                let w = self.ts.w(t(0));
                out = Some(self.k(v, w));
            }
            "sym_param" => {
                let name = self.name_arg(st, a, 0)?;
                let v = match self.cfg.params.get(&name) {
                    Some(v) => *v,
                    None => self.concretize(st, t(2))? as u64,
                };
                out = Some(self.k(v as u128, 64));
            }
            "sym_panic_ok" => {
                st.panic_ok = self.concretize(st, t(0))? != 0;
            }
            "sym_ite64" => {
                let v = self.ts.ite(t(0), t(1), t(2));
                out = Some(Val::T(v));
            }
            "sym_implies" => {
                let x = self.ts.not(t(0));
                let v = self.ts.or(x, t(1));
                out = Some(Val::T(v));
            }
            "sym_and" => {
                let v = self.ts.and(t(0), t(1));
                out = Some(Val::T(v));
            }
            "sym_or" => {
                let v = self.ts.or(t(0), t(1));
                out = Some(Val::T(v));
            }
            "sym_bytes_eq" => {
                // equality of two byte ranges without branching
                let len = self.concretize(st, t(2))? as u64;
                let x = self.read_range(st, t(0), len)?;
                let y = self.read_range(st, t(1), len)?;
                let mut e = self.ts.b(true);
                for (p, q) in x.iter().zip(&y) {
                    if p == q {
                        continue;
                    }
                    let (p, q) = (self.resel(*p), self.resel(*q));
                    let c = self.ts.eq(p, q);
                    e = self.ts.and(e, c);
                }
                out = Some(Val::T(e));
            }
            "sym_peek" => {
                // byte at a symbolic index, branch free
                let p = self.ts.add(t(0), t(1));
                let v = self.load(st, p, &Ty::Int(8))?;
                out = Some(v);
            }
            "sym_peek8" => {
                let p = self.ts.add(t(0), t(1));
                let v = self.load(st, p, &Ty::Int(64))?;
                out = Some(v);
            }
            "sym_engine" => {
                out = Some(Val::T(self.ts.b(true)));
            }
            "sym_file_write" => {
                let p = self.name_arg(st, a, 0)?;
                let len = self.concretize(st, t(3))? as u64;
                let bs = self.read_range(st, t(2), len)?;
                st.os.files.insert(p.as_str().into(), Rc::new(bs));
            }
            "sym_file_len" => {
                let p = self.name_arg(st, a, 0)?;
                let v = match st.os.files.get(p.as_str()) {
                    Some(d) => d.len() as u64,
                    None => u64::MAX,
                };
                out = Some(self.k(v as u128, 64));
            }
            "sym_file_read" => {
                let p = self.name_arg(st, a, 0)?;
                let d = st.os.files.get(p.as_str()).cloned();
                if let Some(d) = d {
                    let len = self.concretize(st, t(3))? as usize;
                    let k = len.min(d.len());
                    let d: Vec<T> = d[..k].to_vec();
                    self.store_bytes(st, t(2), &d)?;
                }
            }
            "sym_file_count" => {
                let v = st.os.files.len() as u128;
                out = Some(self.k(v, 64));
            }
            "sym_proc_len" | "sym_proc_read" => {
                let which = self.concretize(st, t(0))?;
                let d = if which == 0 { st.os.proc_out.clone() } else { st.os.proc_err.clone() };
                if n == "sym_proc_len" {
                    out = Some(self.k(d.len() as u128, 64));
                } else {
                    let len = self.concretize(st, t(2))? as usize;
                    let k = len.min(d.len());
                    let d: Vec<T> = d[..k].to_vec();
                    self.store_bytes(st, t(1), &d)?;
                }
            }
            "sym_proc" => return self.start_proc(st, a, dest, normal),
            _ => return stuck(format!("unknown harness function {}", n)),
        }
        self.finish_call(st, dest, normal, out);
        Ok(())
    }

    /// sym_proc(entry: fn() -> i32, argv: *const (ptr, len), argc, stdin, stdin_len) -> i32
    fn start_proc(&mut self, st: &mut State, a: &[Val], dest: u32, normal: Option<u32>) -> Result<(), Stop> {
        let t = |i: usize| a[i].t();
        let _ = dest;
        let entry = self.concretize(st, t(0))? as u64;
        let argc = self.concretize(st, t(2))? as u64;
        let mut args: Vec<Vec<T>> = vec![];
        for i in 0..argc {
            let (p, l) = self.iov(st, t(1), i)?;
            let mut b = self.read_range(st, p, l)?;
            b.push(0);
            args.push(b);
        }
        let slen = self.concretize(st, t(4))? as u64;
        let sin = self.read_range(st, t(3), slen)?;
        let fname = self.m.fn_by_addr[((entry - FN_BASE) / 16 - 1) as usize].clone();
        let f = match self.func(&fname) {
            Some(f) => f,
            None => return stuck("process entry"),
        };
        let init = self.m.fn_by_addr.iter().find(|n| n.contains("really_init") || n.contains("ARGV_INIT_ARRAY12init_wrapper")).cloned();
        let init = match init {
            Some(i) => i,
            None => return stuck("no argument initialiser in the image"),
        };
        let initf = match self.func(&init) {
            Some(f) => f,
            None => return stuck("argument initialiser has no body"),
        };
        // fresh process image
        let mut saved = vec![];
        for (i, g) in self.m.globals.iter().enumerate() {
            if !g.constant && !g.name.starts_with("llvm.") {
                let id = i + 1;
                saved.push((id as u32, st.mem[id].clone().unwrap()));
                st.mem[id] = self.init_mem[id].clone();
            }
        }
        let ctx = ProcCtx {
            depth: st.frames.len(),
            saved,
            tls: std::mem::take(&mut st.tls),
            fds: std::mem::replace(&mut st.os.fds, std_fds()),
            tid: st.tid,
            stdin: std::mem::replace(&mut st.os.stdin, Rc::new(sin)),
            stdin_pos: std::mem::replace(&mut st.os.stdin_pos, 0),
        };
        let _ = normal;
        st.os.stdout.clear();
        st.os.stderr.clear();
        st.procs.push(ctx);
        // argument block
        let av = self.alloc(st, 8 * (argc + 2), true);
        for (i, b) in args.iter().enumerate() {
            let p = self.alloc(st, b.len() as u64, true);
            let pt = self.ts.c(p as u128, 64);
            self.store_bytes(st, pt, b)?;
            let slot = self.ts.c(av as u128 + 8 * i as u128, 64);
            self.store(st, slot, &Ty::Ptr, &Val::T(pt))?;
        }
        let fr = self.new_frame(f, vec![], u32::MAX, None, OnRet::Proc);
        st.frames.push(fr);
        let (c, p, z) = (self.k(argc as u128, 32), self.k(av as u128, 64), self.k(av as u128 + 8 * (argc as u128 + 1), 64));
        // the initialiser may have lost unused parameters
        let mut iargs = vec![];
        if initf.nparams >= 2 {
            // argc is 32 or 64 bits wide depending on the initialiser
            iargs.push(c);
            iargs.push(p);
            if initf.nparams > 2 {
                iargs.push(z);
            }
        } else {
            return stuck("argument initialiser signature");
        }
        let hdr = self.m.funcs[&init].header.clone();
        if hdr.contains("(i64") {
            iargs[0] = self.k(argc as u128, 64);
        }
        let fr = self.new_frame(initf, iargs, u32::MAX, None, OnRet::Discard);
        st.frames.push(fr);
        Ok(())
    }

    pub fn end_proc(&mut self, st: &mut State, code: i32) {
        let ctx = st.procs.pop().unwrap();
        if st.tid != ctx.tid {
            let (fr, _) = st.parked.remove(&ctx.tid).unwrap();
            st.frames = fr;
            st.tid = ctx.tid;
        }
        st.parked = BTreeMap::new();
        while st.frames.len() > ctx.depth {
            let fr = st.frames.pop().unwrap();
            for a in fr.allocas {
                self.release(st, a);
            }
        }
        for (id, o) in ctx.saved {
            st.mem[id as usize] = Some(o);
        }
        st.tls = ctx.tls;
        st.os.fds = ctx.fds;
        st.os.stdin = ctx.stdin;
        st.os.stdin_pos = ctx.stdin_pos;
        st.os.proc_out = Rc::new(std::mem::take(&mut st.os.stdout));
        st.os.proc_err = Rc::new(std::mem::take(&mut st.os.stderr));
        let v = self.k(code as u32 as u128, 32);
        // continue after the sym_proc call
        let (dest, normal) = {
            let fr = st.frames.last().unwrap();
            let (d, i) = &fr.func.blocks[fr.blk as usize].insts[fr.ip];
            match i {
                Inst::Call { normal, .. } => (*d, *normal),
                _ => panic!("process call site"),
            }
        };
        self.finish_call(st, dest, normal, Some(v));
    }
}
