//! Hash-consed bit-vector / array terms with local simplification, known-zero bits and
//! unsigned ranges per node, and a native evaluator.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type T = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Not,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    Sext,
    Sel,
    ArrVar,
    ArrConst,
    Store,
    // floating point and other native functions, uninterpreted for the solver
    Fn1,
    Fn2,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum F {
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    UToF,
    SToF,
    FToU,
    FToS,
    FToUSat,
    FToSSat,
    Log,
    Exp,
    Pow,
    Sqrt,
    Ceil,
    Floor,
    Round,
    RoundEven,
    Trunc,
    FExt,
    FTrunc,
    FMax,
    FMin,
    Log2,
    Log10,
    CopySign,
    PopCnt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub k: u8, // F kind for Fn1/Fn2
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Copy)]
struct Info {
    kz: u64,
    umin: u64,
    umax: u64,
}

pub struct Terms {
    pub n: Vec<Node>,
    info: Vec<Info>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u128, u8), T>,
    map: FxMap<Node, T>,
    pub names: Vec<String>,
    pub nfresh: u32,
    exc: FxMap<(T, u32, u8), T>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn mask64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

#[derive(Default, Clone, Debug)]
pub struct Model {
    pub vars: FxMap<T, u128>,
    pub arrs: FxMap<T, (u8, FxMap<u64, u8>)>,
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            n: vec![],
            info: vec![],
            consts: vec![],
            cmap: Default::default(),
            map: Default::default(),
            names: vec![],
            nfresh: 0,
            exc: Default::default(),
        };
        for i in 0..256u128 {
            let x = t.c(i, 8);
            assert_eq!(x as u128, i);
        }
        t
    }
    #[inline]
    pub fn w(&self, t: T) -> u8 {
        self.n[t as usize].w
    }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u128> {
        let n = &self.n[t as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    #[inline]
    pub fn is_const(&self, t: T) -> bool {
        self.n[t as usize].op == Op::Const
    }
    pub fn c(&mut self, v: u128, w: u8) -> T {
        let v = v & mask(w);
        if let Some(t) = self.cmap.get(&(v, w)) {
            return *t;
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.n.len() as u32;
        self.n.push(Node { op: Op::Const, w, k: 0, a: i, b: 0, c: 0 });
        self.info.push(if w <= 64 {
            Info { kz: !(v as u64) & mask64(w), umin: v as u64, umax: v as u64 }
        } else {
            Info { kz: 0, umin: 0, umax: u64::MAX }
        });
        self.cmap.insert((v, w), id);
        id
    }
    pub fn b(&mut self, v: bool) -> T {
        self.c(v as u128, 1)
    }
    pub fn var(&mut self, name: &str, w: u8) -> T {
        let i = self.names.len() as u32;
        self.names.push(name.to_string());
        self.mk(Node { op: Op::Var, w, k: 0, a: i, b: 0, c: 0 })
    }
    /// a variable with a value below `n`
    pub fn var_below(&mut self, name: &str, w: u8, n: u64) -> T {
        if n == 1 {
            return self.c(0, w);
        }
        let t = self.var(name, w);
        let max = n - 1;
        self.info[t as usize] = Info { kz: !(u64::MAX >> max.leading_zeros()) & mask64(w), umin: 0, umax: max };
        t
    }
    pub fn arr_var(&mut self, name: &str) -> T {
        let i = self.names.len() as u32;
        self.names.push(name.to_string());
        self.mk(Node { op: Op::ArrVar, w: 0, k: 0, a: i, b: 0, c: 0 })
    }
    pub fn arr_const(&mut self, byte: T) -> T {
        self.mk(Node { op: Op::ArrConst, w: 0, k: 0, a: byte, b: 0, c: 0 })
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let id = self.n.len() as u32;
        let inf = self.compute_info(&n);
        self.n.push(n);
        self.info.push(inf);
        self.map.insert(n, id);
        // a node whose range is a single value is that constant
        if n.w <= 64 && n.w > 0 && inf.umin == inf.umax && n.op != Op::Const {
            let c = self.c(inf.umin as u128, n.w);
            self.map.insert(n, c);
            return c;
        }
        id
    }
    fn mk3(&mut self, op: Op, w: u8, a: T, b: T, c: T) -> T {
        self.mk(Node { op, w, k: 0, a, b, c })
    }
    pub fn umin(&self, t: T) -> u64 {
        self.info[t as usize].umin
    }
    pub fn umax(&self, t: T) -> u64 {
        self.info[t as usize].umax
    }
    /// bits known to be zero (only meaningful for w <= 64)
    pub fn kz(&self, t: T) -> u64 {
        self.info[t as usize].kz
    }
    fn compute_info(&self, n: &Node) -> Info {
        let w = n.w;
        if w == 0 || w > 64 {
            return Info { kz: 0, umin: 0, umax: u64::MAX };
        }
        let m = mask64(w);
        let top = Info { kz: 0, umin: 0, umax: m };
        let i = |t: T| self.info[t as usize];
        let aw = |t: T| self.n[t as usize].w;
        let mut r = match n.op {
            Op::Add => {
                let (x, y) = (i(n.a), i(n.b));
                let hi = x.umax as u128 + y.umax as u128;
                if hi <= m as u128 {
                    let tz = (x.kz & y.kz).trailing_ones();
                    Info { kz: mask64(tz.min(64) as u8) & m, umin: x.umin + y.umin, umax: hi as u64 }
                } else if x.umin as u128 + y.umin as u128 > m as u128 {
                    Info { kz: 0, umin: x.umin.wrapping_add(y.umin) & m, umax: x.umax.wrapping_add(y.umax) & m }
                } else {
                    let tz = (x.kz & y.kz).trailing_ones();
                    Info { kz: mask64(tz.min(64) as u8) & m, ..top }
                }
            }
            Op::Sub => {
                let (x, y) = (i(n.a), i(n.b));
                if x.umin >= y.umax {
                    Info { kz: 0, umin: x.umin - y.umax, umax: x.umax - y.umin }
                } else {
                    top
                }
            }
            Op::Mul => {
                let (x, y) = (i(n.a), i(n.b));
                let hi = x.umax as u128 * y.umax as u128;
                let tz = (x.kz.trailing_ones() + y.kz.trailing_ones()).min(64);
                let kz = mask64(tz as u8) & m;
                if hi <= m as u128 {
                    Info { kz, umin: x.umin * y.umin, umax: hi as u64 }
                } else {
                    Info { kz, ..top }
                }
            }
            Op::UDiv => {
                let (x, y) = (i(n.a), i(n.b));
                if y.umin > 0 {
                    Info { kz: 0, umin: x.umin / y.umax.max(1), umax: x.umax / y.umin }
                } else {
                    top
                }
            }
            Op::URem => {
                let (x, y) = (i(n.a), i(n.b));
                if y.umin > 0 {
                    Info { kz: 0, umin: 0, umax: x.umax.min(y.umax - 1) }
                } else {
                    top
                }
            }
            Op::And => {
                let (x, y) = (i(n.a), i(n.b));
                Info { kz: x.kz | y.kz, umin: 0, umax: x.umax.min(y.umax) }
            }
            Op::Or => {
                let (x, y) = (i(n.a), i(n.b));
                Info { kz: x.kz & y.kz, umin: x.umin.max(y.umin), umax: m }
            }
            Op::Xor => {
                let (x, y) = (i(n.a), i(n.b));
                Info { kz: x.kz & y.kz, ..top }
            }
            Op::LShr => {
                let x = i(n.a);
                Info { kz: 0, umin: 0, umax: x.umax }
            }
            Op::Ite => {
                let (x, y) = (i(n.b), i(n.c));
                Info { kz: x.kz & y.kz, umin: x.umin.min(y.umin), umax: x.umax.max(y.umax) }
            }
            Op::Concat => {
                let (x, y) = (i(n.a), i(n.b));
                let lw = aw(n.b);
                Info {
                    kz: (x.kz << lw) | y.kz,
                    umin: (x.umin << lw) | y.umin,
                    umax: (x.umax << lw) | y.umax,
                }
            }
            Op::Extract => {
                if aw(n.a) <= 64 {
                    let x = i(n.a);
                    let lo = n.b;
                    let kz = (x.kz >> lo) & m;
                    let (hi_, lo_) = (x.umax >> lo, x.umin >> lo);
                    if hi_ <= m {
                        Info { kz, umin: lo_, umax: hi_ }
                    } else {
                        Info { kz, ..top }
                    }
                } else {
                    top
                }
            }
            Op::Fn1 if n.k == F::PopCnt as u8 => Info { umax: (aw(n.a) as u64).min(m), ..top },
            _ => top,
        };
        // combine known zeros with range
        let kzmax = m & !r.kz;
        if r.umax > kzmax {
            r.umax = kzmax;
        }
        // high bits above umax are zero
        let lz = r.umax.leading_zeros();
        if lz > 0 {
            let hm = if lz == 64 { u64::MAX } else { !(u64::MAX >> lz) };
            r.kz |= hm & m;
        }
        if r.umin > r.umax {
            // only possible for infeasible/degenerate terms; stay sound
            r.umin = 0;
            r.umax = m;
        }
        r
    }

    // ---------- boolean ----------
    pub fn not(&mut self, a: T) -> T {
        if let Some(v) = self.cv(a) {
            return self.b(v == 0);
        }
        let n = self.n[a as usize];
        if n.op == Op::Not && n.w == 1 {
            return n.a;
        }
        self.mk3(Op::Not, 1, a, 0, 0)
    }
    pub fn and1(&mut self, a: T, b: T) -> T {
        self.and(a, b)
    }
    pub fn or1(&mut self, a: T, b: T) -> T {
        self.or(a, b)
    }

    // ---------- arithmetic ----------
    /// split into (base, const) with t = base + const
    pub fn split_add(&self, t: T) -> (Option<T>, u128) {
        let n = &self.n[t as usize];
        match n.op {
            Op::Const => (None, self.consts[n.a as usize]),
            Op::Add => {
                if let Some(c) = self.cv(n.b) {
                    (Some(n.a), c)
                } else {
                    (Some(t), 0)
                }
            }
            _ => (Some(t), 0),
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.xor(a, b);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            _ => {}
        }
        // constants to the right
        let (ba, ca) = self.split_add(a);
        let (bb, cb) = self.split_add(b);
        if bb.is_none() {
            if ca != 0 {
                let c = self.c(ca.wrapping_add(cb), w);
                return self.add(ba.unwrap(), c);
            }
            // Concat(x, k) + c  where no carry leaves the low const part
            if let Some(r) = self.disjoint_or(a, b) {
                return r;
            }
            // Concat(const, l) + c: the high part of c folds
            let na = self.n[a as usize];
            if na.op == Op::Concat {
                let lw = self.w(na.b);
                let chi = (cb & mask(w)) >> lw;
                if let (Some(h), true) = (self.cv(na.a), chi != 0) {
                    let h = self.c(h.wrapping_add(chi), w - lw);
                    let t = self.concat(h, na.b);
                    let c = self.c(cb & mask(lw), w);
                    return self.add(t, c);
                }
            }
            return self.mk3(Op::Add, w, a, b, 0);
        }
        if ca != 0 || cb != 0 {
            let c = self.c(ca.wrapping_add(cb), w);
            let s = self.add(ba.unwrap(), bb.unwrap());
            return self.add(s, c);
        }
        // x + (y - x) = y
        let nb = self.n[b as usize];
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        let na = self.n[a as usize];
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if let Some(r) = self.disjoint_or(a, b) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk3(Op::Add, w, a, b, 0)
    }
    /// if a and b have no possibly-common bit and split at a bit position, a|b as a Concat
    fn disjoint_or(&mut self, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        if w > 64 || w < 2 {
            return None;
        }
        let m = mask64(w);
        let (pa, pb) = (!self.kz(a) & m, !self.kz(b) & m);
        if pa & pb != 0 || pa == 0 || pb == 0 {
            return None;
        }
        let (hi, lo, pl) = if pa.trailing_zeros() > 63 - pb.leading_zeros() {
            (a, b, pb)
        } else if pb.trailing_zeros() > 63 - pa.leading_zeros() {
            (b, a, pa)
        } else {
            return None;
        };
        let k = 64 - pl.leading_zeros(); // bits of lo
        let h = self.extract(hi, k, w - k as u8);
        let l = self.extract(lo, 0, k as u8);
        Some(self.concat(h, l))
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.c(0, w);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.c(0, w);
        }
        if let Some(y) = self.cv(b) {
            let c = self.c(y.wrapping_neg(), w);
            return self.add(a, c);
        }
        let (ba, ca) = self.split_add(a);
        let (bb, cb) = self.split_add(b);
        if ba.is_some() && ba == bb {
            return self.c(ca.wrapping_sub(cb), w);
        }
        // (x+y)-x
        if let Some(p) = ba {
            let n = self.n[p as usize];
            if n.op == Op::Add && bb.is_some() {
                let bb = bb.unwrap();
                let other = if n.a == bb {
                    Some(n.b)
                } else if n.b == bb {
                    Some(n.a)
                } else {
                    None
                };
                if let Some(o) = other {
                    let c = self.c(ca.wrapping_sub(cb), w);
                    return self.add(o, c);
                }
            }
        }
        if ca != 0 && ba.is_some() {
            let s = self.sub(ba.unwrap(), b);
            let c = self.c(ca, w);
            return self.add(s, c);
        }
        if cb != 0 && ba.is_some() {
            let s = self.sub(a, bb.unwrap());
            let c = self.c(cb.wrapping_neg(), w);
            return self.add(s, c);
        }
        self.mk3(Op::Sub, w, a, b, 0)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
            (None, Some(y)) => {
                let n = self.n[a as usize];
                if n.op == Op::Mul {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.c(y.wrapping_mul(z), w);
                        return self.mul(n.a, c);
                    }
                }
                return self.mk3(Op::Mul, w, a, b, 0);
            }
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk3(Op::Mul, w, a, b, 0)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return if y == 0 { self.c(u128::MAX, w) } else { self.c(x / y, w) };
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
        }
        self.mk3(Op::UDiv, w, a, b, 0)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return if y == 0 { a } else { self.c(x % y, w) };
            }
            if y == 1 {
                return self.c(0, w);
            }
            if y.is_power_of_two() {
                let k = y.trailing_zeros() as u8;
                let e = self.extract(a, 0, k);
                return self.zext(e, w);
            }
            if y != 0 && w <= 64 {
                if (self.umax(a) as u128) < y {
                    return a;
                }
                if y > mask(w) / 2 {
                    let lt = self.ult(a, b);
                    let s = self.sub(a, b);
                    return self.ite(lt, a, s);
                }
            }
        }
        self.mk3(Op::URem, w, a, b, 0)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
            }
        }
        self.mk3(Op::SDiv, w, a, b, 0)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
            }
        }
        self.mk3(Op::SRem, w, a, b, 0)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return b;
                }
                if y == mask(w) {
                    return a;
                }
                // contiguous mask -> extract + concat
                let tz = y.trailing_zeros();
                let sh = y >> tz;
                if (sh & (sh + 1)) == 0 {
                    let len = 128 - sh.leading_zeros();
                    let e = self.extract(a, tz, len as u8);
                    let lo = if tz > 0 {
                        let z = self.c(0, tz as u8);
                        self.concat(e, z)
                    } else {
                        e
                    };
                    return self.zext(lo, w);
                }
                let n = self.n[a as usize];
                if n.op == Op::And {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.c(y & z, w);
                        return self.and(n.a, c);
                    }
                }
                if n.op == Op::Concat {
                    let lw = self.w(n.b);
                    let (ch, cl) = (self.c(y >> lw, w - lw), self.c(y, lw));
                    let (h, l) = (self.and(n.a, ch), self.and(n.b, cl));
                    return self.concat(h, l);
                }
                if w <= 64 && (self.kz(a) as u128 | y) & mask(w) == mask(w) {
                    return a;
                }
                return self.mk3(Op::And, w, a, b, 0);
            }
            _ => {}
        }
        if w == 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.b(false);
            }
        }
        if w <= 64 && w > 1 && (self.kz(a) | self.kz(b)) == mask64(w) {
            return self.c(0, w);
        }
        if let Some(r) = self.split_bitwise(Op::And, a, b) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk3(Op::And, w, a, b, 0)
    }
    /// bitwise op on two concats split at the same position, one half of which folds
    fn split_bitwise(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        if w < 2 {
            return None;
        }
        let lw = if na.op == Op::Concat {
            self.w(na.b)
        } else if nb.op == Op::Concat {
            self.w(nb.b)
        } else {
            return None;
        };
        // only when one of the halves is constant on one side
        let halves = |s: &Self, n: &Node| -> bool {
            n.op == Op::Concat && s.w(n.b) == lw && (s.is_const(n.a) || s.is_const(n.b))
        };
        if !(halves(self, &na) || halves(self, &nb)) {
            return None;
        }
        let (ah, al) = (self.extract(a, lw as u32, w - lw), self.extract(a, 0, lw));
        let (bh, bl) = (self.extract(b, lw as u32, w - lw), self.extract(b, 0, lw));
        let (h, l) = match op {
            Op::And => (self.and(ah, bh), self.and(al, bl)),
            Op::Or => (self.or(ah, bh), self.or(al, bl)),
            _ => (self.xor(ah, bh), self.xor(al, bl)),
        };
        Some(self.concat(h, l))
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return a;
                }
                if y == mask(w) {
                    return b;
                }
            }
            _ => {}
        }
        if w == 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.b(true);
            }
        }
        if let Some(r) = self.disjoint_or(a, b) {
            return r;
        }
        if let Some(r) = self.split_bitwise(Op::Or, a, b) {
            return r;
        }
        let (a, b) = if a < b || self.is_const(b) { (a, b) } else { (b, a) };
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        self.mk3(Op::Or, w, a, b, 0)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(0, w);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(1)) if w == 1 => return self.not(a),
            (None, Some(y)) => {
                let n = self.n[a as usize];
                if n.op == Op::Xor {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.c(y ^ z, w);
                        return self.xor(n.a, c);
                    }
                }
            }
            _ => {}
        }
        if let Some(r) = self.disjoint_or(a, b) {
            return r;
        }
        if let Some(r) = self.split_bitwise(Op::Xor, a, b) {
            return r;
        }
        if self.n[a as usize].op == Op::Xor || self.n[b as usize].op == Op::Xor {
            let mut v = vec![];
            if self.xor_leaves(a, &mut v) && self.xor_leaves(b, &mut v) {
                return self.xor_of(v, w);
            }
        }
        let (a, b) = if (a < b || self.is_const(b)) && !self.is_const(a) { (a, b) } else { (b, a) };
        self.mk3(Op::Xor, w, a, b, 0)
    }
    fn xor_leaves(&self, t: T, v: &mut Vec<T>) -> bool {
        let n = self.n[t as usize];
        if n.op == Op::Xor {
            return self.xor_leaves(n.a, v) && self.xor_leaves(n.b, v);
        }
        v.push(t);
        v.len() <= 24
    }
    /// exclusive or of some terms in a canonical order
    fn xor_of(&mut self, mut v: Vec<T>, w: u8) -> T {
        let mut k = 0u128;
        v.retain(|t| match self.cv(*t) {
            Some(x) => {
                k ^= x;
                false
            }
            None => true,
        });
        v.sort();
        let mut o: Vec<T> = vec![];
        for t in v {
            if o.last() == Some(&t) {
                o.pop();
            } else {
                o.push(t);
            }
        }
        let c = self.c(k, w);
        let mut r = match o.first() {
            None => return c,
            Some(t) => *t,
        };
        for t in &o[1..] {
            r = self.mk3(Op::Xor, w, r, *t, 0);
        }
        if k == 0 {
            r
        } else if w == 1 {
            self.not(r)
        } else {
            self.mk3(Op::Xor, w, r, c, 0)
        }
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let e = self.extract(a, 0, w - k as u8);
            let z = self.c(0, k as u8);
            return self.concat(e, z);
        }
        self.mk3(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let e = self.extract(a, k as u32, w - k as u8);
            return self.zext(e, w);
        }
        self.mk3(Op::LShr, w, a, b, 0)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            let k = (k.min(w as u128 - 1)) as u8;
            let e = self.extract(a, k as u32, w - k);
            return self.sext(e, w);
        }
        self.mk3(Op::AShr, w, a, b, 0)
    }
    /// t is 1 << c with c < width: returns c (of some width)
    pub fn one_bit(&self, t: T) -> Option<T> {
        let mut n = self.n[t as usize];
        let w = n.w;
        if n.op == Op::Extract && n.b == 0 {
            n = self.n[n.a as usize];
        }
        if n.op == Op::Shl && self.cv(n.a) == Some(1) && self.umax(n.b) < w as u64 {
            Some(n.b)
        } else {
            None
        }
    }
    /// bit number `i` of t, where `i` is below the width of t and below 2^8
    pub fn bit_at(&mut self, t: T, i: T) -> T {
        let n = self.n[t as usize];
        if let Some(c) = self.cv(i) {
            return self.extract(t, c as u32, 1);
        }
        match n.op {
            Op::Or | Op::And | Op::Xor => {
                let (x, y) = (self.bit_at(n.a, i), self.bit_at(n.b, i));
                return match n.op {
                    Op::Or => self.or(x, y),
                    Op::And => self.and(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Ite => {
                if self.is_const(n.b) || self.is_const(n.c) || self.one_bit(n.b).is_some() || self.one_bit(n.c).is_some() {
                    let (x, y) = (self.bit_at(n.b, i), self.bit_at(n.c, i));
                    return self.ite(n.a, x, y);
                }
            }
            Op::Const => {
                let v = self.consts[n.a as usize];
                if v == 0 {
                    return self.b(false);
                }
                if v == mask(n.w) {
                    return self.b(true);
                }
                if v & (v - 1) == 0 {
                    let c = self.c(v.trailing_zeros() as u128, self.w(i));
                    return self.eq(i, c);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if self.umax(i) < lw as u64 {
                    return self.bit_at(n.b, i);
                }
            }
            _ => {
                if let Some(c) = self.one_bit(t) {
                    let (x, y) = (self.zresize(c, 8), self.zresize(i, 8));
                    return self.eq(x, y);
                }
            }
        }
        let iw = self.zresize(i, n.w.max(8));
        let tw = self.zresize(t, n.w.max(8));
        let s = self.mk3(Op::LShr, n.w.max(8), tw, iw, 0);
        self.mk3(Op::Extract, 1, s, 0, 0)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(true);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // (x & 1<<c) compared with 0 or with 1<<c
        if w > 1 {
            for (p, q) in [(a, b), (b, a)] {
                let n = self.n[p as usize];
                if n.op == Op::And {
                    for (m, x) in [(n.a, n.b), (n.b, n.a)] {
                        if let Some(c) = self.one_bit(m) {
                            if q == m {
                                return self.bit_at(x, c);
                            }
                            if self.cv(q) == Some(0) {
                                let t = self.bit_at(x, c);
                                return self.not(t);
                            }
                        }
                    }
                }
                if self.cv(q) == Some(0) && self.one_bit(p).is_some() {
                    return self.b(false);
                }
            }
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.b(x == y),
            (Some(_), None) => return self.eq(b, a),
            _ => {}
        }
        if w == 1 {
            if let Some(y) = self.cv(b) {
                return if y == 1 { a } else { self.not(a) };
            }
        }
        if w <= 64 {
            if self.umax(a) < self.umin(b) || self.umax(b) < self.umin(a) {
                return self.b(false);
            }
            if let Some(y) = self.cv(b) {
                if (self.kz(a) & y as u64) != 0 {
                    return self.b(false);
                }
            }
        }
        let (ba, ca) = self.split_add(a);
        let (bb, cb) = self.split_add(b);
        if ba.is_some() && ba == bb {
            return self.b(ca == cb);
        }
        if let Some(y) = self.cv(b) {
            let n = self.n[a as usize];
            match n.op {
                Op::Concat => {
                    let lw = self.w(n.b);
                    let ch = self.c(y >> lw, w - lw);
                    let cl = self.c(y, lw);
                    let l = self.eq(n.b, cl);
                    if self.cv(l) == Some(0) {
                        return l;
                    }
                    let h = self.eq(n.a, ch);
                    return self.and(h, l);
                }
                Op::Ite => {
                    if let (Some(p), Some(q)) = (self.cv(n.b), self.cv(n.c)) {
                        return match (p == y, q == y) {
                            (true, true) => self.b(true),
                            (true, false) => n.a,
                            (false, true) => self.not(n.a),
                            (false, false) => self.b(false),
                        };
                    }
                    // nested ite with constant leaves: push when one branch folds
                    if self.is_const(n.b) || self.is_const(n.c) {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.c, b);
                        return self.ite(n.a, p, q);
                    }
                }
                Op::Add => {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.c(y.wrapping_sub(z), w);
                        return self.eq(n.a, c);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.cv(n.b) {
                        let c = self.c(y ^ z, w);
                        return self.eq(n.a, c);
                    }
                }
                _ => {}
            }
        } else {
            // concat = concat with the same low split
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.op == Op::Concat && nb.op == Op::Concat {
                let (la, lb) = (self.w(na.b), self.w(nb.b));
                if la == lb {
                    let l = self.eq(na.b, nb.b);
                    if self.cv(l) == Some(0) {
                        return l;
                    }
                    let h = self.eq(na.a, nb.a);
                    return self.and(h, l);
                }
            }
        }
        let (a, b) = if a < b || self.is_const(b) { (a, b) } else { (b, a) };
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        self.mk3(Op::Eq, 1, a, b, 0)
    }
    /// t + c as (low part of t) + constant, where the high part of t is constant
    fn low_part(&self, t: T, c: u128) -> (T, u128) {
        let n = self.n[t as usize];
        if n.op == Op::Concat {
            if let Some(h) = self.cv(n.a) {
                return (n.b, c + (h << self.w(n.b)));
            }
        }
        (t, c)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(false);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(x < y);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some(0) = self.cv(b) {
            return self.b(false);
        }
        if let Some(0) = self.cv(a) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if let Some(1) = self.cv(b) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if w <= 64 {
            if self.umax(a) < self.umin(b) {
                return self.b(true);
            }
            if self.umin(a) >= self.umax(b) {
                return self.b(false);
            }
        }
        // x + y against x, where the addition cannot wrap
        if w <= 64 {
            for (s_, o, less) in [(a, b, false), (b, a, true)] {
                let n = self.n[s_ as usize];
                if n.op != Op::Add || (n.a != o && n.b != o) {
                    continue;
                }
                let y = if n.a == o { n.b } else { n.a };
                if self.umax(o) as u128 + self.umax(y) as u128 <= mask(w) {
                    if !less {
                        return self.b(false);
                    }
                    let z = self.c(0, w);
                    let e = self.eq(y, z);
                    return self.not(e);
                }
            }
        }
        // x + c against x + d, where neither wraps
        if w <= 64 {
            if let ((Some(x), c), (Some(y), d)) = (self.split_add(a), self.split_add(b)) {
                let (x, c) = self.low_part(x, c);
                let (y, d) = self.low_part(y, d);
                if x == y && self.umax(x) as u128 + c.max(d) <= mask(w) {
                    return self.b(c < d);
                }
            }
        }
        // both have zero high parts: narrow
        let hz = |s: &Self, t: T| -> u8 {
            let n = &s.n[t as usize];
            match n.op {
                Op::Const => {
                    let v = s.consts[n.a as usize];
                    ((v.leading_zeros() as i32) - (128 - w as i32)) as u8
                }
                Op::Concat if s.cv(n.a) == Some(0) => s.w(n.a),
                _ => 0,
            }
        };
        let z = hz(self, a).min(hz(self, b));
        if z > 0 && z < w {
            let x = self.extract(a, 0, w - z);
            let y = self.extract(b, 0, w - z);
            return self.ult(x, y);
        }
        if let Some(y) = self.cv(b) {
            // x < 2^k  <=> high bits zero
            if y.is_power_of_two() {
                let k = y.trailing_zeros();
                let e = self.extract(a, k, w - k as u8);
                let z = self.c(0, w - k as u8);
                return self.eq(e, z);
            }
        }
        if let Some(x) = self.cv(a) {
            // 2^k-1 < b  <=> high bits nonzero
            let y = x + 1;
            if y.is_power_of_two() && y < mask(w) {
                let k = y.trailing_zeros();
                let e = self.extract(b, k, w - k as u8);
                let z = self.c(0, w - k as u8);
                let q = self.eq(e, z);
                return self.not(q);
            }
        }
        self.mk3(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(false);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(sx(x, w) < sx(y, w));
        }
        if w == 1 {
            // signed: 1 is -1
            let nb = self.not(b);
            return self.and(a, nb);
        }
        if w <= 64 {
            let sb = 1u64 << (w - 1);
            if self.umax(a) < sb && self.umax(b) < sb {
                return self.ult(a, b);
            }
            if self.umax(a) < sb && self.cv(b).map(|v| v as u64 >= sb) == Some(true) {
                return self.b(false);
            }
        }
        if let Some(0) = self.cv(b) {
            let e = self.extract(a, w as u32 - 1, 1);
            return e;
        }
        self.mk3(Op::Slt, 1, a, b, 0)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let n = self.n[c as usize];
        if n.op == Op::Not {
            return self.ite(n.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // shared high/low halves
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && (na.a == nb.a || na.b == nb.b) {
            let h = self.ite(c, na.a, nb.a);
            let l = self.ite(c, na.b, nb.b);
            return self.concat(h, l);
        }
        self.mk3(Op::Ite, w, c, a, b)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        assert!(wh as u32 + wl as u32 <= 128, "concat too wide");
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.c((x << wl) | y, w);
        }
        let nh = self.n[h as usize];
        if nh.op == Op::Concat {
            let lo = self.concat(nh.b, l);
            return self.concat(nh.a, lo);
        }
        let nl = self.n[l as usize];
        if nl.op == Op::Concat {
            if let Some(m) = self.merge(h, nl.a) {
                return self.concat(m, nl.b);
            }
        } else if let Some(m) = self.merge(h, l) {
            return m;
        }
        self.mk3(Op::Concat, w, h, l, 0)
    }
    fn merge(&mut self, h: T, l: T) -> Option<T> {
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            let wl = self.w(l);
            let w = self.w(h) + wl;
            return Some(self.c((x << wl) | y, w));
        }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Extract {
            let (x, hlo, hw) = (nh.a, nh.b, nh.w);
            if nl.op == Op::Extract && nl.a == x && nl.b + nl.w as u32 == hlo {
                return Some(self.extract(x, nl.b, hw + nl.w));
            }
            // the low part has been simplified on its own
            let wl = self.w(l);
            if wl as u32 <= hlo && self.extract(x, hlo - wl as u32, wl) == l {
                return Some(self.extract(x, hlo - wl as u32, hw + wl));
            }
        }
        // xor with a constant, taken apart
        if nh.op == Op::Xor && nl.op == Op::Xor {
            let split = |n: &Node| match (self.cv(n.a), self.cv(n.b)) {
                (None, Some(c)) => Some((n.a, c)),
                (Some(c), None) => Some((n.b, c)),
                _ => None,
            };
            if let (Some((x, cx)), Some((y, cy))) = (split(&nh), split(&nl)) {
                if let Some(m) = self.merge(x, y) {
                    let c = self.c((cx << nl.w) | cy, nh.w + nl.w);
                    return Some(self.xor(m, c));
                }
            }
        }
        None
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u8) -> T {
        let aw = self.w(a);
        assert!(w > 0 && lo + w as u32 <= aw as u32, "extract {} {} of {}", lo, w, aw);
        if w == aw {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(v >> lo, w);
        }
        if let Some(t) = self.exc.get(&(a, lo, w)) {
            return *t;
        }
        let r = self.extract_(a, lo, w);
        self.exc.insert((a, lo, w), r);
        r
    }
    fn extract_(&mut self, a: T, lo: u32, w: u8) -> T {
        let n = self.n[a as usize];
        if n.w <= 64 {
            // all bits known zero
            let m = mask64(w) << lo;
            if self.kz(a) & m == m {
                return self.c(0, w);
            }
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b) as u32;
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w as u32 <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, (lw - lo) as u8);
                let h = self.extract(n.a, 0, (lo + w as u32 - lw) as u8);
                return self.concat(h, l);
            }
            Op::Sext => {
                let iw = self.w(n.a) as u32;
                if lo + w as u32 <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
                if lo < iw {
                    let e = self.extract(n.a, lo, (iw - lo) as u8);
                    return self.sext(e, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                if self.is_const(x) || self.is_const(y) || n.w > 64 || w == 1 {
                    return match n.op {
                        Op::And => self.and(x, y),
                        Op::Or => self.or(x, y),
                        _ => self.xor(x, y),
                    };
                }
            }
            Op::LShr if lo == 0 && w == 1 && n.w >= 8 && self.umax(n.b) < n.w as u64 => {
                return self.bit_at(n.a, n.b);
            }
            // higher bits do not reach down
            Op::Add | Op::Sub | Op::Mul if lo > 0 && lo + (w as u32) < (n.w as u32).min(if n.op == Op::Mul { 33 } else { 255 }) => {
                let t = self.extract(a, 0, lo as u8 + w);
                return self.extract(t, lo, w);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            Op::Ite => {
                if self.is_const(n.b) || self.is_const(n.c) || w == 1 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk3(Op::Extract, w, a, lo, 0)
    }
    pub fn zext(&mut self, a: T, w: u8) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.c(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: T, w: u8) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(sx(v, aw) as u128, w);
        }
        if aw == 1 {
            let o = self.c(u128::MAX, w);
            let z = self.c(0, w);
            return self.ite(a, o, z);
        }
        if aw <= 64 && self.kz(a) >> (aw - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        self.mk3(Op::Sext, w, a, 0, 0)
    }
    pub fn trunc(&mut self, a: T, w: u8) -> T {
        self.extract(a, 0, w)
    }
    /// resize zero-extending or truncating
    pub fn zresize(&mut self, a: T, w: u8) -> T {
        if self.w(a) > w {
            self.trunc(a, w)
        } else {
            self.zext(a, w)
        }
    }

    // ---------- arrays (64 bit index, byte values) ----------
    pub fn sel_raw(&mut self, arr: T, idx: T) -> T {
        self.mk3(Op::Sel, 8, arr, idx, 0)
    }
    pub fn sel(&mut self, arr: T, idx: T) -> T {
        let mut cur = arr;
        let mut steps = 0;
        loop {
            let n = self.n[cur as usize];
            match n.op {
                Op::ArrConst => return n.a,
                Op::Store => {
                    let e = self.eq(n.b, idx);
                    match self.cv(e) {
                        Some(0) => cur = n.a,
                        x if n.k == 1 => {
                            let old = self.sel(n.a, idx);
                            let zero = self.c(0, 8);
                            let v = if x.is_some() { n.c } else { self.ite(e, n.c, zero) };
                            return self.or(old, v);
                        }
                        Some(_) => return n.c,
                        None => break,
                    }
                }
                Op::Ite => break,
                _ => break,
            }
            steps += 1;
            if steps > 100000 {
                break;
            }
        }
        if let Some(v) = self.sel_few(cur, idx, 24) {
            return v;
        }
        if let Some(v) = self.sel_table(cur, idx) {
            return v;
        }
        self.mk3(Op::Sel, 8, cur, idx, 0)
    }
    /// the byte at `idx` of a constant array with few stores on top, as a case distinction
    fn sel_few(&mut self, arr: T, idx: T, left: u32) -> Option<T> {
        let n = self.n[arr as usize];
        match n.op {
            Op::ArrConst => Some(n.a),
            Op::Store if left > 0 => {
                let old = self.sel_few(n.a, idx, left - 1)?;
                let e = self.eq(n.b, idx);
                let new = if n.k == 1 { self.or(old, n.c) } else { n.c };
                Some(self.ite(e, new, old))
            }
            _ => None,
        }
    }
    /// the byte at an index of few bits of an array of constants, as a decision tree over these bits
    fn sel_table(&mut self, arr: T, idx: T) -> Option<T> {
        let n = self.n[idx as usize];
        if n.op != Op::Concat || self.cv(n.a) != Some(0) || self.w(n.b) > 8 {
            return None;
        }
        let w = self.w(n.b);
        let mut table: Vec<Option<T>> = vec![None; 1 << w];
        let mut cur = arr;
        loop {
            let n = self.n[cur as usize];
            match n.op {
                Op::ArrConst => {
                    self.cv(n.a)?;
                    let rest = n.a;
                    let mut row: Vec<T> = table.iter().map(|x| x.unwrap_or(rest)).collect();
                    for i in 0..w {
                        let bit = self.extract(idx, i as u32, 1);
                        row = row.chunks(2).map(|x| self.ite(bit, x[1], x[0])).collect();
                    }
                    return Some(row[0]);
                }
                Op::Store if n.k == 0 => {
                    let at = self.cv(n.b)?;
                    self.cv(n.c)?;
                    if at < 1 << w {
                        table[at as usize].get_or_insert(n.c);
                    }
                    cur = n.a;
                }
                _ => return None,
            }
        }
    }
    pub fn store(&mut self, arr: T, idx: T, v: T) -> T {
        debug_assert_eq!(self.w(v), 8);
        // storing what is there already
        let nv = self.n[v as usize];
        if nv.op == Op::Sel && nv.a == arr && nv.b == idx {
            return arr;
        }
        let n = self.n[arr as usize];
        if n.op == Op::Store && n.b == idx {
            return self.store(n.a, idx, v);
        }
        self.mk3(Op::Store, 0, arr, idx, v)
    }
    /// the array with `v` or-ed into the byte at `idx`
    pub fn or_store(&mut self, arr: T, idx: T, v: T) -> T {
        if self.cv(v) == Some(0) {
            return arr;
        }
        let n = self.n[arr as usize];
        if n.op == Op::Store && n.b == idx {
            let x = self.or(n.c, v);
            return if n.k == 1 { self.or_store(n.a, idx, x) } else { self.store(n.a, idx, x) };
        }
        self.mk(Node { op: Op::Store, w: 0, k: 1, a: arr, b: idx, c: v })
    }

    // ---------- native functions ----------
    pub fn fn1(&mut self, f: F, a: T, w: u8) -> T {
        if let Some(x) = self.cv(a) {
            let aw = self.w(a);
            let r = native1(f, x, aw, w);
            return self.c(r, w);
        }
        if f == F::PopCnt {
            let n = self.n[a as usize];
            if n.w == 1 {
                return a;
            }
            // the ones of the parts
            if n.op == Op::Concat {
                let (x, y) = (self.fn1(f, n.a, self.w(n.a)), self.fn1(f, n.b, self.w(n.b)));
                let (x, y) = (self.zext(x, w), self.zext(y, w));
                return self.add(x, y);
            }
            // the ones of the complement
            if n.op == Op::Not || (n.op == Op::Xor && self.cv(n.b) == Some(mask(w))) {
                let x = self.fn1(f, n.a, w);
                let c = self.c(w as u128, w);
                return self.sub(c, x);
            }
        }
        self.mk(Node { op: Op::Fn1, w, k: f as u8, a, b: 0, c: 0 })
    }
    pub fn fn2(&mut self, f: F, a: T, b: T, w: u8) -> T {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = native2(f, x, y, w);
            return self.c(r, w);
        }
        self.mk(Node { op: Op::Fn2, w, k: f as u8, a, b, c: 0 })
    }

    /// f64/f32 comparison as pure bit-vector logic
    pub fn fcmp(&mut self, pred: &str, a: T, b: T) -> T {
        let w = self.w(a);
        let (mw, ew) = if w == 64 { (52u8, 11u8) } else { (23u8, 8u8) };
        let nan = |s: &mut Self, x: T| -> T {
            let m = s.extract(x, 0, w - 1);
            let inf = s.c(mask(ew) << mw, w - 1);
            s.ult(inf, m)
        };
        let na = nan(self, a);
        let nb = nan(self, b);
        let uno = self.or(na, nb);
        let ord = self.not(uno);
        // order-preserving key: negative -> ~x, positive -> x | sign ; -0 == +0 handled by mapping zero
        let key = |s: &mut Self, x: T| -> T {
            let m = s.extract(x, 0, w - 1);
            let z = s.c(0, w - 1);
            let isz = s.eq(m, z);
            let sign = s.extract(x, w as u32 - 1, 1);
            let ones = s.c(u128::MAX, w);
            let inv = s.xor(x, ones);
            let top = s.c(1u128 << (w - 1), w);
            let pos = s.xor(x, top);
            let k = s.ite(sign, inv, pos);
            s.ite(isz, top, k)
        };
        let ka = key(self, a);
        let kb = key(self, b);
        let eq = self.eq(ka, kb);
        let lt = self.ult(ka, kb);
        let gt = self.ult(kb, ka);
        let base = match &pred[1..] {
            "eq" => eq,
            "ne" => self.not(eq),
            "lt" => lt,
            "gt" => gt,
            "le" => self.not(gt),
            "ge" => self.not(lt),
            "rd" => return ord,
            "no" => return uno,
            "rue" => return self.b(true),
            "alse" => return self.b(false),
            _ => panic!("fcmp {}", pred),
        };
        if pred.starts_with('o') {
            self.and(ord, base)
        } else {
            self.or(uno, base)
        }
    }

    // ---------- evaluation ----------
    pub fn eval(&self, m: &Model, memo: &mut FxMap<T, u128>, t: T) -> u128 {
        let n = self.n[t as usize];
        if n.op == Op::Const {
            return self.consts[n.a as usize];
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let w = n.w;
        macro_rules! e {
            ($x:expr) => {
                self.eval(m, memo, $x)
            };
        }
        let r = match n.op {
            Op::Const => unreachable!(),
            Op::Var => {
                let x = m.vars.get(&t).copied().unwrap_or(0) & mask(w);
                let max = if w <= 64 { self.umax(t) as u128 } else { u128::MAX };
                // a variable of limited range
                if x > max {
                    x % (max + 1)
                } else {
                    x
                }
            }
            Op::Add => e!(n.a).wrapping_add(e!(n.b)),
            Op::Sub => e!(n.a).wrapping_sub(e!(n.b)),
            Op::Mul => e!(n.a).wrapping_mul(e!(n.b)),
            Op::UDiv => {
                let (x, y) = (e!(n.a), e!(n.b));
                if y == 0 {
                    u128::MAX
                } else {
                    x / y
                }
            }
            Op::URem => {
                let (x, y) = (e!(n.a), e!(n.b));
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (x, y) = (sx(e!(n.a), w), sx(e!(n.b), w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        u128::MAX
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let (x, y) = (sx(e!(n.a), w), sx(e!(n.b), w));
                if y == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::And => e!(n.a) & e!(n.b),
            Op::Or => e!(n.a) | e!(n.b),
            Op::Xor => e!(n.a) ^ e!(n.b),
            Op::Shl => {
                let (x, y) = (e!(n.a), e!(n.b));
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                let (x, y) = (e!(n.a), e!(n.b));
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let (x, y) = (sx(e!(n.a), w), e!(n.b));
                (x >> y.min(w as u128 - 1)) as u128
            }
            Op::Not => e!(n.a) ^ 1,
            Op::Eq => (e!(n.a) == e!(n.b)) as u128,
            Op::Ult => (e!(n.a) < e!(n.b)) as u128,
            Op::Slt => {
                let aw = self.w(n.a);
                (sx(e!(n.a), aw) < sx(e!(n.b), aw)) as u128
            }
            Op::Ite => {
                if e!(n.a) != 0 {
                    e!(n.b)
                } else {
                    e!(n.c)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (e!(n.a) << lw) | e!(n.b)
            }
            Op::Extract => e!(n.a) >> n.b,
            Op::Sext => sx(e!(n.a), self.w(n.a)) as u128,
            Op::Sel => {
                let idx = e!(n.b) as u64;
                let mut cur = n.a;
                let mut ors = 0;
                ors | loop {
                    let an = self.n[cur as usize];
                    match an.op {
                        Op::ArrVar => {
                            break match m.arrs.get(&cur) {
                                Some((d, mm)) => mm.get(&idx).copied().unwrap_or(*d) as u128,
                                None => 0,
                            }
                        }
                        Op::ArrConst => break e!(an.a),
                        Op::Store => {
                            if e!(an.b) as u64 == idx {
                                if an.k == 0 {
                                    break e!(an.c);
                                }
                                ors |= e!(an.c);
                            }
                            cur = an.a;
                        }
                        Op::Ite => {
                            cur = if e!(an.a) != 0 { an.b } else { an.c };
                        }
                        _ => panic!("array op"),
                    }
                }
            }
            Op::Fn1 => {
                let x = e!(n.a);
                native1(kind(n.k), x, self.w(n.a), w)
            }
            Op::Fn2 => {
                let (x, y) = (e!(n.a), e!(n.b));
                native2(kind(n.k), x, y, w)
            }
            Op::ArrVar | Op::ArrConst | Op::Store => panic!("eval of array"),
        } & mask(w);
        memo.insert(t, r);
        r
    }

    /// rebuild t with the scalar variables of m replaced by their values
    pub fn subst(&mut self, m: &FxMap<T, u128>, memo: &mut FxMap<T, T>, t: T) -> T {
        let n = self.n[t as usize];
        match n.op {
            Op::Const | Op::ArrVar => return t,
            Op::Var => {
                return match m.get(&t) {
                    Some(v) => self.c(*v, n.w),
                    None => t,
                }
            }
            _ => {}
        }
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let (k, kn) = self.kids(t);
        let mut s = [0 as T; 3];
        for i in 0..kn {
            s[i] = self.subst(m, memo, k[i]);
        }
        let r = if s[..kn] == k[..kn] {
            t
        } else {
            let (a, b, c) = (s[0], s[1], s[2]);
            match n.op {
                Op::Add => self.add(a, b),
                Op::Sub => self.sub(a, b),
                Op::Mul => self.mul(a, b),
                Op::UDiv => self.udiv(a, b),
                Op::URem => self.urem(a, b),
                Op::SDiv => self.sdiv(a, b),
                Op::SRem => self.srem(a, b),
                Op::And => self.and(a, b),
                Op::Or => self.or(a, b),
                Op::Xor => self.xor(a, b),
                Op::Shl => self.shl(a, b),
                Op::LShr => self.lshr(a, b),
                Op::AShr => self.ashr(a, b),
                Op::Not => self.not(a),
                Op::Eq => self.eq(a, b),
                Op::Ult => self.ult(a, b),
                Op::Slt => self.slt(a, b),
                Op::Ite => self.ite(a, b, c),
                Op::Concat => self.concat(a, b),
                Op::Extract => self.extract(a, n.b, n.w),
                Op::Sext => self.sext(a, n.w),
                Op::Sel => self.sel(a, b),
                Op::ArrConst => self.arr_const(a),
                Op::Store if n.k == 1 => self.or_store(a, b, c),
                Op::Store => self.store(a, b, c),
                Op::Fn1 => self.fn1(kind(n.k), a, n.w),
                Op::Fn2 => self.fn2(kind(n.k), a, b, n.w),
                Op::Const | Op::Var | Op::ArrVar => unreachable!(),
            }
        };
        memo.insert(t, r);
        r
    }

    /// children of a node
    pub fn kids(&self, t: T) -> ([T; 3], usize) {
        let n = &self.n[t as usize];
        match n.op {
            Op::Const | Op::Var | Op::ArrVar => ([0; 3], 0),
            Op::Not | Op::Extract | Op::Sext | Op::Fn1 | Op::ArrConst => ([n.a, 0, 0], 1),
            Op::Ite | Op::Store => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
}

pub fn kind(k: u8) -> F {
    unsafe { std::mem::transmute::<u8, F>(k) }
}

fn f_of(x: u128, w: u8) -> f64 {
    if w == 64 {
        f64::from_bits(x as u64)
    } else {
        f32::from_bits(x as u32) as f64
    }
}
fn bits_of(x: f64, w: u8) -> u128 {
    if w == 64 {
        x.to_bits() as u128
    } else {
        (x as f32).to_bits() as u128
    }
}
pub fn native1(f: F, x: u128, aw: u8, w: u8) -> u128 {
    match f {
        F::PopCnt => x.count_ones() as u128,
        F::UToF => {
            if w == 64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        F::SToF => {
            let v = sx(x, aw);
            if w == 64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        }
        F::FToU | F::FToUSat => {
            let v = f_of(x, aw);
            let hi = mask(w);
            if v.is_nan() || v <= 0.0 {
                0
            } else {
                (v as u128).min(hi)
            }
        }
        F::FToS | F::FToSSat => {
            let v = f_of(x, aw);
            let hi = (mask(w) >> 1) as i128;
            let lo = -hi - 1;
            if v.is_nan() {
                0
            } else {
                ((v as i128).clamp(lo, hi) as u128) & mask(w)
            }
        }
        F::Log => bits_of(f_of(x, aw).ln(), w),
        F::Log2 => bits_of(f_of(x, aw).log2(), w),
        F::Log10 => bits_of(f_of(x, aw).log10(), w),
        F::Exp => bits_of(f_of(x, aw).exp(), w),
        F::Sqrt => bits_of(f_of(x, aw).sqrt(), w),
        F::Ceil => bits_of(f_of(x, aw).ceil(), w),
        F::Floor => bits_of(f_of(x, aw).floor(), w),
        F::Round => bits_of(f_of(x, aw).round(), w),
        F::RoundEven => bits_of(f_of(x, aw).round_ties_even(), w),
        F::Trunc => bits_of(f_of(x, aw).trunc(), w),
        F::FExt | F::FTrunc => bits_of(f_of(x, aw), w),
        _ => panic!("native1 {:?}", f),
    }
}
pub fn native2(f: F, x: u128, y: u128, w: u8) -> u128 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match f {
            F::FAdd => a + b,
            F::FSub => a - b,
            F::FMul => a * b,
            F::FDiv => a / b,
            F::FRem => a % b,
            F::Pow => a.powf(b),
            F::FMax => a.max(b),
            F::FMin => a.min(b),
            F::CopySign => a.copysign(b),
            _ => panic!("native2"),
        };
        return r.to_bits() as u128;
    }
    let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
    let r = match f {
        F::FAdd => a + b,
        F::FSub => a - b,
        F::FMul => a * b,
        F::FDiv => a / b,
        F::FRem => a % b,
        F::Pow => a.powf(b),
        F::FMax => a.max(b),
        F::FMin => a.min(b),
        F::CopySign => a.copysign(b),
        _ => panic!("native2"),
    };
    r.to_bits() as u128
}

pub type RModel = Rc<Model>;
