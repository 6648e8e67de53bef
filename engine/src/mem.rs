//! Memory access with concrete and symbolic addresses.
use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

pub enum Place {
    C(u32, u64),
    S { obj: u32, off: T, lo: u64, hi: u64 },
    /// zero length access anywhere
    Nothing,
}

impl Exec {
    pub fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u64 {
        let o = Rc::new(Obj { b: vec![0; size as usize], heap, log: vec![] });
        let id = match st.free.pop() {
            Some(i) => {
                st.mem[i as usize] = Some(o);
                i
            }
            None => {
                st.mem.push(Some(o));
                st.mem.len() as u32 - 1
            }
        };
        (id as u64) << 32
    }
    pub fn release(&mut self, st: &mut State, id: u32) {
        st.mem[id as usize] = None;
        st.free.push(id);
    }
    pub fn size_of_obj(&self, st: &State, id: u32) -> Option<u64> {
        st.mem.get(id as usize).and_then(|o| o.as_ref()).map(|o| o.b.len() as u64)
    }

    pub fn simp(&self, st: &State, t: T) -> T {
        match st.conc.get(&t) {
            Some(c) => *c,
            None => t,
        }
    }

    /// Resolve an access of len bytes.
    pub fn resolve(&mut self, st: &mut State, addr: T, len: u64) -> Result<Place, Stop> {
        let mut addr = self.simp(st, addr);
        // pointer chosen by a condition: decide the condition
        loop {
            if self.ts.is_const(addr) {
                break;
            }
            let (base, c) = self.ts.split_add(addr);
            let b = match base {
                Some(b) => b,
                None => break,
            };
            let n = self.ts.n[b as usize];
            if n.op == Op::Ite {
                // objects differ?
                let (x, y) = (self.objrange(n.b), self.objrange(n.c));
                if x.is_some() && x == y && self.objrange(addr).is_some() {
                    break;
                }
                let v = self.decide(st, n.a)?;
                let p = if v { n.b } else { n.c };
                let cc = self.ts.c(c, 64);
                addr = self.ts.add(p, cc);
                addr = self.simp(st, addr);
            } else {
                break;
            }
        }
        if len == 0 {
            return Ok(Place::Nothing);
        }
        if let Some(a) = self.ts.cv(addr) {
            let a = a as u64;
            let id = (a >> 32) as u32;
            let off = a & 0xffff_ffff;
            return match self.size_of_obj(st, id) {
                Some(sz) if off + len <= sz && a < FN_BASE => Ok(Place::C(id, off)),
                Some(sz) => Err(Stop::End(End::Mem(format!("access of {} bytes at offset {} of object of size {}", len, off, sz)))),
                None => Err(Stop::End(End::Mem(format!("access of {} bytes at invalid address {:#x}", len, a)))),
            };
        }
        let id = match st.ptr_obj.get(&addr) {
            Some(i) => *i,
            None => {
                let id = match self.objrange(addr) {
                    Some(i) if self.size_of_obj(st, i).is_some() => i,
                    _ => {
                        // ask the model, then make sure it is the only object (or fork)
                        if st.unsure && !self.confirm(st) {
                            return Err(Stop::End(End::Pruned));
                        }
                        let m = st.model.clone();
                        let v = self.eval(&m, addr) as u64;
                        let id = (v >> 32) as u32;
                        let sz = match self.size_of_obj(st, id) {
                            Some(s) => s,
                            None => return Err(Stop::End(End::Mem(format!("symbolic access at invalid address {:#x}", v)))),
                        };
                        let lo = self.ts.c((id as u128) << 32, 64);
                        let d = self.ts.sub(addr, lo);
                        let lim = self.ts.c(sz as u128 + 1, 64);
                        let inside = self.ts.ult(d, lim);
                        if !self.decide_prefer(st, inside, true)? {
                            return Err(Stop::Again);
                        }
                        id
                    }
                };
                st.ptr_obj.insert(addr, id);
                id
            }
        };
        let sz = self.size_of_obj(st, id).unwrap();
        let base = self.ts.c((id as u128) << 32, 64);
        let off = self.ts.sub(addr, base);
        if len > sz {
            return Err(Stop::End(End::Mem("access larger than object".into())));
        }
        let (lo, mut hi) = (self.ts.umin(off), self.ts.umax(off));
        if hi > sz - len {
            // need a proof that it stays inside
            let lim = self.ts.c((sz - len + 1) as u128, 64);
            let ok = self.ts.ult(off, lim);
            if !self.decide_prefer(st, ok, true)? {
                return Err(Stop::End(End::Mem(format!("symbolic access of {} bytes outside object of size {}", len, sz))));
            }
            hi = sz - len;
        }
        // a single possible offset?
        if lo == hi {
            return Ok(Place::C(id, lo));
        }
        Ok(Place::S { obj: id, off, lo, hi })
    }

    fn objrange(&self, addr: T) -> Option<u32> {
        let (a, b) = (self.ts.umin(addr) >> 32, self.ts.umax(addr) >> 32);
        if a == b && a != 0 {
            Some(a as u32)
        } else {
            None
        }
    }

    pub fn byte(&mut self, st: &State, id: u32, off: u64) -> T {
        let t = st.mem[id as usize].as_ref().unwrap().b[off as usize];
        self.resel(t)
    }
    pub fn resel(&mut self, t: T) -> T {
        if t < 256 {
            return t;
        }
        let n = self.ts.n[t as usize];
        if n.op == Op::Sel {
            self.ts.sel(n.a, n.b)
        } else {
            t
        }
    }

    pub fn load_c(&mut self, st: &State, id: u32, off: u64, w: u8) -> T {
        let n = (w as usize + 7) / 8;
        let o = st.mem[id as usize].as_ref().unwrap();
        let bs = &o.b[off as usize..off as usize + n];
        if bs.iter().all(|t| *t < 256) {
            let mut v: u128 = 0;
            for (i, t) in bs.iter().enumerate() {
                v |= (*t as u128) << (8 * i);
            }
            return self.ts.c(v, w);
        }
        let bs: Vec<T> = bs.to_vec();
        self.join(&bs, w)
    }
    pub fn join(&mut self, bs: &[T], w: u8) -> T {
        let mut acc = self.resel(bs[0]);
        for t in &bs[1..] {
            let t = self.resel(*t);
            acc = self.ts.concat(t, acc);
        }
        self.ts.trunc(acc, w)
    }
    pub fn split(&mut self, v: T) -> Vec<T> {
        let w = self.ts.w(v);
        let n = (w as usize + 7) / 8;
        if let Some(c) = self.ts.cv(v) {
            return (0..n).map(|i| ((c >> (8 * i)) & 0xff) as T).collect();
        }
        let v = self.ts.zext(v, (n * 8) as u8);
        (0..n).map(|i| self.ts.extract(v, 8 * i as u32, 8)).collect()
    }

    /// View bytes [lo, hi] (inclusive, absolute offsets) of an object as an array term indexed by
    /// (offset + delta): returns (array, delta).
    /// the bytes are consecutive elements of one array
    fn uniform(&self, st: &State, id: u32, lo: u64, hi: u64) -> bool {
        let o = st.mem[id as usize].as_ref().unwrap();
        let mut at: Option<(T, u64)> = None;
        for i in lo..=hi {
            let n = &self.ts.n[o.b[i as usize] as usize];
            let c = match (n.op, self.ts.cv(n.b)) {
                (Op::Sel, Some(c)) => c as u64,
                _ => return false,
            };
            let k = (n.a, c.wrapping_sub(i));
            if *at.get_or_insert(k) != k {
                return false;
            }
        }
        true
    }

    /// `t`, which is the byte at `from`, moved to `to`: the elements of arrays in it move along
    fn moved(&mut self, t: T, from: u64, to: T, fuel: &mut u32) -> Option<T> {
        if *fuel == 0 {
            return None;
        }
        *fuel -= 1;
        let n = self.ts.n[t as usize];
        Some(match n.op {
            Op::Const => t,
            Op::Sel => {
                let c = self.ts.cv(n.b)? as u64;
                let d = self.ts.c(c.wrapping_sub(from) as u128, 64);
                let i = self.ts.add(to, d);
                if self.ts.is_const(i) {
                    self.ts.sel_raw(n.a, i)
                } else {
                    self.ts.sel(n.a, i)
                }
            }
            Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub => {
                let (a, b) = (self.moved(n.a, from, to, fuel)?, self.moved(n.b, from, to, fuel)?);
                match n.op {
                    Op::And => self.ts.and(a, b),
                    Op::Or => self.ts.or(a, b),
                    Op::Xor => self.ts.xor(a, b),
                    Op::Add => self.ts.add(a, b),
                    _ => self.ts.sub(a, b),
                }
            }
            _ => return None,
        })
    }
    /// the byte at a symbolic offset when all of them are the same function of array elements
    fn pattern(&mut self, st: &State, id: u32, off: T, lo: u64, hi: u64) -> Option<T> {
        let o = st.mem[id as usize].as_ref().unwrap().clone();
        let t0 = o.b[lo as usize];
        if self.ts.n[t0 as usize].op == Op::Sel || self.ts.is_const(t0) {
            return None;
        }
        for i in lo + 1..=hi {
            let ic = self.ts.c(i as u128, 64);
            if self.moved(t0, lo, ic, &mut 32)? != o.b[i as usize] {
                return None;
            }
        }
        self.moved(t0, lo, off, &mut 32)
    }

    fn as_array(&mut self, st: &State, id: u32, lo: u64, hi: u64) -> (T, u64) {
        let o = st.mem[id as usize].as_ref().unwrap().clone();
        let bs = &o.b[lo as usize..=hi as usize];
        // majority array
        let mut cand: Option<(T, u64)> = None;
        let mut all = true;
        let mut counts: FxMap<(T, u64), usize> = Default::default();
        for (i, t) in bs.iter().enumerate() {
            let n = self.ts.n[*t as usize];
            if n.op == Op::Sel {
                if let Some(c) = self.ts.cv(n.b) {
                    let d = (c as u64).wrapping_sub(lo + i as u64);
                    let k = (n.a, d);
                    if cand == Some(k) || cand.is_none() {
                        cand = Some(k);
                    } else {
                        all = false;
                    }
                    *counts.entry(k).or_default() += 1;
                    continue;
                }
            }
            all = false;
        }
        if all {
            if let Some(k) = cand {
                return k;
            }
        }
        // most frequent constant vs most frequent array
        let mut ccnt: FxMap<T, usize> = Default::default();
        for t in bs {
            if *t < 256 {
                *ccnt.entry(*t).or_default() += 1;
            }
        }
        let bestc = ccnt.iter().max_by_key(|(t, n)| (**n, 256 - **t)).map(|(t, n)| (*t, *n));
        let besta = counts.iter().max_by_key(|(k, n)| (**n, k.0)).map(|(k, n)| (*k, *n));
        let (mut arr, delta) = match (bestc, besta) {
            (Some((_, nc)), Some((k, na))) if na > nc => k,
            (None, Some((k, _))) => k,
            (Some((c, _)), _) => (self.ts.arr_const(c), 0),
            (None, None) => (self.ts.arr_const(0), 0),
        };
        for (i, t) in bs.iter().enumerate() {
            let off = lo + i as u64;
            let idx = self.ts.c(off.wrapping_add(delta) as u128, 64);
            let n = self.ts.n[*t as usize];
            if n.op == Op::Sel && n.a == arr && n.b == idx {
                continue;
            }
            let cur = self.ts.sel(arr, idx);
            let tv = self.resel(*t);
            if cur != tv {
                arr = self.ts.store(arr, idx, tv);
            }
        }
        (arr, delta)
    }

    pub fn load(&mut self, st: &mut State, addr: T, ty: &Ty) -> Result<Val, Stop> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                if let Ty::Vec(n, e) = ty {
                    if **e == Ty::Int(1) {
                        let w = (*n as u8 + 7) / 8 * 8;
                        let v = self.load(st, addr, &Ty::Int(w))?.t();
                        return Ok(Val::A(Rc::new((0..*n).map(|i| Val::T(self.ts.extract(v, i as u32, 1))).collect())));
                    }
                }
                let (_, offs) = ty.fields();
                let mut v = vec![];
                for (i, o) in offs.iter().enumerate() {
                    let oc = self.ts.c(*o as u128, 64);
                    let a = self.ts.add(addr, oc);
                    v.push(self.load(st, a, &ty.elem(i as u64))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = ty.width().expect("load type");
                let n = (w as u64 + 7) / 8;
                match self.resolve(st, addr, n)? {
                    Place::C(id, off) => {
                        if self.logged(st, id) == 0 {
                            return Ok(Val::T(self.load_c(st, id, off, w)));
                        }
                        let t = self.load_logged(st, id, off, n);
                        Ok(Val::T(self.ts.trunc(t, w)))
                    }
                    Place::S { obj, off, lo, hi } => {
                        if self.logged(st, obj) as u64 == n && self.aligned(off, n) {
                            let t = self.log_word(st, obj, off, lo, hi, n);
                            return Ok(Val::T(self.ts.trunc(t, w)));
                        }
                        self.flush(st, obj);
                        let bs = self.load_s(st, obj, off, lo, hi, n);
                        Ok(Val::T(self.join(&bs, w)))
                    }
                    Place::Nothing => unreachable!(),
                }
            }
        }
    }
    fn load_s(&mut self, st: &State, obj: u32, off: T, lo: u64, hi: u64, n: u64) -> Vec<T> {
        // few candidates with constants: ite chain; otherwise array
        let tz = (!self.ts.kz(off)).trailing_zeros().min(12);
        let stride = 1u64 << tz;
        let cnt = (hi - lo) / stride + 1;
        if cnt <= 48 && lo % stride == 0 && (cnt <= 4 || !self.uniform(st, obj, lo, hi + n - 1)) {
            let mut out = vec![];
            for j in 0..n {
                let mut cur = None;
                let mut o = lo + ((hi - lo) / stride) * stride;
                loop {
                    let b = self.byte(st, obj, o + j);
                    cur = Some(match cur {
                        None => b,
                        Some(rest) => {
                            let oc = self.ts.c(o as u128, 64);
                            let c = self.ts.eq(off, oc);
                            self.ts.ite(c, b, rest)
                        }
                    });
                    if o < lo + stride {
                        break;
                    }
                    o -= stride;
                }
                out.push(cur.unwrap());
            }
            return out;
        }
        if n == 1 && cnt > 48 {
            if let Some(t) = self.pattern(st, obj, off, lo, hi) {
                return vec![t];
            }
        }
        let (arr, delta) = self.as_array(st, obj, lo, hi + n - 1);
        (0..n)
            .map(|j| {
                let d = self.ts.c((delta.wrapping_add(j)) as u128, 64);
                let idx = self.ts.add(off, d);
                self.ts.sel(arr, idx)
            })
            .collect()
    }

    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> &'a mut Obj {
        Rc::make_mut(st.mem[id as usize].as_mut().unwrap())
    }

    /// width of the words in the write log of an object, 0 if the log is empty
    fn logged(&self, st: &State, id: u32) -> u8 {
        st.mem[id as usize].as_ref().unwrap().log.last().map_or(0, |e| e.n)
    }
    fn aligned(&self, off: T, n: u64) -> bool {
        n.is_power_of_two() && n <= 8 && self.ts.kz(off) & (n - 1) == n - 1
    }
    /// word at an aligned offset, seen through the write log
    fn log_word(&mut self, st: &State, id: u32, off: T, lo: u64, hi: u64, n: u64) -> T {
        let w = 8 * n as u8;
        let mut r = match self.ts.cv(off) {
            Some(o) => self.load_c(st, id, o as u64, w),
            None => {
                let bs = self.load_s(st, id, off, lo, hi, n);
                self.join(&bs, w)
            }
        };
        let zero = self.ts.c(0, w);
        let o = st.mem[id as usize].as_ref().unwrap().clone();
        for e in &o.log {
            let c = self.ts.eq(e.off, off);
            // writes known to change nothing are of use only to the same place
            if self.ts.cv(c) != Some(1) && e.noop != 0 && self.known(st, e.noop) == Some(true) {
                continue;
            }
            if e.or {
                let x = self.ts.ite(c, e.v, zero);
                r = self.ts.or(r, x);
            } else {
                r = self.ts.ite(c, e.v, r);
            }
        }
        r
    }
    /// load at a concrete offset of an object with a write log
    fn load_logged(&mut self, st: &mut State, id: u32, off: u64, n: u64) -> T {
        let wn = self.logged(st, id) as u64;
        let first = off / wn * wn;
        let last = (off + n - 1) / wn * wn;
        if last + wn > self.size_of_obj(st, id).unwrap() || last + wn - first > 16 {
            self.flush(st, id);
            return self.load_c(st, id, off, 8 * n as u8);
        }
        let mut acc: Option<T> = None;
        let mut o = first;
        while o <= last {
            let oc = self.ts.c(o as u128, 64);
            let t = self.log_word(st, id, oc, o, o, wn);
            acc = Some(match acc {
                None => t,
                Some(a) => self.ts.concat(t, a),
            });
            o += wn;
        }
        self.ts.extract(acc.unwrap(), 8 * (off - first) as u32, 8 * n as u8)
    }
    /// x such that v = cur | x
    fn or_delta(&mut self, v: T, cur: T, depth: u32) -> Option<T> {
        if self.ts.cv(cur) == Some(0) {
            return Some(v);
        }
        let n = self.ts.n[v as usize];
        if n.op != Op::Or || depth > 40 {
            return None;
        }
        if n.a == cur {
            return Some(n.b);
        }
        if n.b == cur {
            return Some(n.a);
        }
        if let Some(x) = self.or_delta(n.a, cur, depth + 1) {
            return Some(self.ts.or(x, n.b));
        }
        if let Some(x) = self.or_delta(n.b, cur, depth + 1) {
            return Some(self.ts.or(x, n.a));
        }
        None
    }
    fn push_log(&mut self, st: &mut State, id: u32, off: T, lo: u64, hi: u64, bs: &[T], v: Option<T>) {
        let n = bs.len() as u64;
        let v = match v {
            Some(v) => self.ts.zext(v, 8 * n as u8),
            None => self.join(bs, 8 * n as u8),
        };
        let cur = self.log_word(st, id, off, lo, hi, n);
        if v == cur {
            return;
        }
        let e = match self.or_delta(v, cur, 0) {
            Some(x) => {
                let noop = match self.ts.one_bit(x) {
                    Some(i) => self.ts.bit_at(cur, i),
                    None => 0,
                };
                W { off, lo, hi, n: n as u8, v: x, or: true, noop }
            }
            None => W { off, lo, hi, n: n as u8, v, or: false, noop: 0 },
        };
        self.obj_mut(st, id).log.push(e);
        if st.mem[id as usize].as_ref().unwrap().log.len() > 96 {
            self.flush(st, id);
        }
    }
    /// apply the write log to the bytes
    pub fn flush(&mut self, st: &mut State, id: u32) {
        if self.logged(st, id) == 0 {
            return;
        }
        let log = std::mem::take(&mut self.obj_mut(st, id).log);
        for e in log {
            if e.noop != 0 && self.known(st, e.noop) == Some(true) {
                continue;
            }
            let (n, w) = (e.n as u64, 8 * e.n);
            if let Some(o) = self.ts.cv(e.off) {
                let v = if e.or {
                    let cur = self.load_c(st, id, o as u64, w);
                    self.ts.or(cur, e.v)
                } else {
                    e.v
                };
                let bs = self.split(v);
                self.obj_mut(st, id).b[o as usize..o as usize + n as usize].copy_from_slice(&bs);
                continue;
            }
            let tz = (!self.ts.kz(e.off)).trailing_zeros().min(12);
            let stride = 1u64 << tz;
            let cnt = (e.hi - e.lo) / stride + 1;
            if cnt <= 48 && e.lo % stride == 0 && (cnt <= 4 || !self.uniform(st, id, e.lo, e.hi + n - 1)) {
                let zero = self.ts.c(0, w);
                let mut o = e.lo;
                while o <= e.hi {
                    let oc = self.ts.c(o as u128, 64);
                    let c = self.ts.eq(e.off, oc);
                    let old = self.load_c(st, id, o, w);
                    let nv = if e.or {
                        let x = self.ts.ite(c, e.v, zero);
                        self.ts.or(old, x)
                    } else {
                        self.ts.ite(c, e.v, old)
                    };
                    let bs = self.split(nv);
                    self.obj_mut(st, id).b[o as usize..(o + n) as usize].copy_from_slice(&bs);
                    o += stride;
                }
                continue;
            }
            let bs = self.split(e.v);
            self.store_s(st, id, e.off, e.lo, e.hi, &bs, e.or);
        }
    }

    pub fn store_bytes(&mut self, st: &mut State, addr: T, bs: &[T]) -> Result<(), Stop> {
        self.store_bytes_(st, addr, bs, None)
    }
    /// `v` is the value the bytes were split from
    fn store_bytes_(&mut self, st: &mut State, addr: T, bs: &[T], v: Option<T>) -> Result<(), Stop> {
        let n = bs.len() as u64;
        match self.resolve(st, addr, n)? {
            Place::Nothing => Ok(()),
            Place::C(id, off) => {
                let wn = self.logged(st, id) as u64;
                if wn != 0 {
                    if off == 0 && self.size_of_obj(st, id) == Some(n) {
                        self.obj_mut(st, id).log.clear();
                    } else if n == wn && off % n == 0 {
                        let oc = self.ts.c(off as u128, 64);
                        self.push_log(st, id, oc, off, off, bs, v);
                        return Ok(());
                    } else {
                        self.flush(st, id);
                    }
                }
                let o = self.obj_mut(st, id);
                o.b[off as usize..off as usize + bs.len()].copy_from_slice(bs);
                Ok(())
            }
            Place::S { obj, off, lo, hi } => {
                let wn = self.logged(st, obj) as u64;
                if self.aligned(off, n) && (wn == 0 || wn == n) {
                    self.push_log(st, obj, off, lo, hi, bs, v);
                } else {
                    self.flush(st, obj);
                    self.store_s(st, obj, off, lo, hi, bs, false);
                }
                Ok(())
            }
        }
    }
    fn store_s(&mut self, st: &mut State, obj: u32, off: T, lo: u64, hi: u64, bs: &[T], or: bool) {
        let n = bs.len() as u64;
        let tz = (!self.ts.kz(off)).trailing_zeros().min(12);
        let stride = 1u64 << tz;
        let cnt = (hi - lo) / stride + 1;
        if cnt <= 48 && lo % stride == 0 && !or && (cnt <= 4 || !self.uniform(st, obj, lo, hi + n - 1)) {
            let mut o = lo;
            while o <= hi {
                let oc = self.ts.c(o as u128, 64);
                let c = self.ts.eq(off, oc);
                for j in 0..n {
                    let old = self.byte(st, obj, o + j);
                    let nv = self.ts.ite(c, bs[j as usize], old);
                    self.obj_mut(st, obj).b[(o + j) as usize] = nv;
                }
                o += stride;
            }
            return;
        }
        let end = hi + n - 1;
        let (mut arr, delta) = self.as_array(st, obj, lo, end);
        for (j, b) in bs.iter().enumerate() {
            let d = self.ts.c((delta.wrapping_add(j as u64)) as u128, 64);
            let idx = self.ts.add(off, d);
            arr = if or { self.ts.or_store(arr, idx, *b) } else { self.ts.store(arr, idx, *b) };
        }
        for o in lo..=end {
            let idx = self.ts.c(o.wrapping_add(delta) as u128, 64);
            let t = self.ts.sel_raw(arr, idx);
            self.obj_mut(st, obj).b[o as usize] = t;
        }
    }

    pub fn store(&mut self, st: &mut State, addr: T, ty: &Ty, v: &Val) -> Result<(), Stop> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                if let (Ty::Vec(n, e), Val::A(v)) = (ty, v) {
                    if **e == Ty::Int(1) {
                        let mut acc = v[0].t();
                        for x in &v[1..] {
                            acc = self.ts.concat(x.t(), acc);
                        }
                        let w = (*n as u8 + 7) / 8 * 8;
                        let acc = self.ts.zext(acc, w);
                        let bs = self.split(acc);
                        return self.store_bytes(st, addr, &bs);
                    }
                }
                let (_, offs) = ty.fields();
                let vs = match v {
                    Val::A(v) => v.clone(),
                    _ => panic!("store aggregate"),
                };
                for (i, o) in offs.iter().enumerate() {
                    let oc = self.ts.c(*o as u128, 64);
                    let a = self.ts.add(addr, oc);
                    self.store(st, a, &ty.elem(i as u64), &vs[i])?;
                }
                Ok(())
            }
            _ => {
                let t = v.t();
                let bs = self.split(t);
                self.store_bytes_(st, addr, &bs, Some(t))
            }
        }
    }

    /// bytes of a memory range (concrete length)
    pub fn read_range(&mut self, st: &mut State, addr: T, len: u64) -> Result<Vec<T>, Stop> {
        if len == 0 {
            return Ok(vec![]);
        }
        match self.resolve(st, addr, len)? {
            Place::C(id, off) => {
                self.flush(st, id);
                let o = st.mem[id as usize].as_ref().unwrap();
                Ok(o.b[off as usize..(off + len) as usize].to_vec())
            }
            Place::S { obj, off, lo, hi } => {
                self.flush(st, obj);
                Ok(self.load_s(st, obj, off, lo, hi, len))
            }
            Place::Nothing => Ok(vec![]),
        }
    }
    pub fn read_conc(&mut self, st: &mut State, addr: T, len: u64) -> Result<Vec<u8>, Stop> {
        let v = self.read_range(st, addr, len)?;
        let mut out = vec![];
        for t in v {
            let t = self.resel(t);
            let t = self.concretize(st, t)?;
            out.push(t as u8);
        }
        Ok(out)
    }
    pub fn read_cstr(&mut self, st: &mut State, addr: T) -> Result<Vec<u8>, Stop> {
        let mut out = vec![];
        let mut i = 0u64;
        loop {
            let o = self.ts.c(i as u128, 64);
            let a = self.ts.add(addr, o);
            let b = self.read_conc(st, a, 1)?[0];
            if b == 0 {
                return Ok(out);
            }
            out.push(b);
            i += 1;
        }
    }
    pub fn init_bytes(&mut self, ty: &Ty, v: &Val, out: &mut [T]) {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let (_, offs) = ty.fields();
                if let Val::A(vs) = v {
                    for (i, o) in offs.iter().enumerate() {
                        let et = ty.elem(i as u64);
                        let sz = et.size() as usize;
                        self.init_bytes(&et, &vs[i], &mut out[*o as usize..*o as usize + sz]);
                    }
                }
            }
            _ => {
                let bs = self.split(v.t());
                out[..bs.len()].copy_from_slice(&bs);
            }
        }
    }
}
