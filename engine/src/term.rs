//! Hash-consed bit-vector terms: construction, rewriting, intervals and random
//! simulation.  Rewrites are the usual bit-vector identities; every value
//! a term can take is preserved.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Input,  // a = input number
    Cut,    // a = definition
    UfByte, // a = application, b = byte index
    Free,   // a = number: unconstrained value (state outside the model)
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl, // symbolic shift amounts only
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract, // a = term, b = low bit
    Concat,  // a = high part, b = low part
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub fl: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}
pub const FL_TRIED: u16 = 2; // has been looked up among the cut points
pub const FL_DEF: u16 = 1; // is the definition of a cut point

/// unsigned [lo,hi] and signed [slo,shi] bounds; only for widths <= 64
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Iv {
    pub lo: u64,
    pub hi: u64,
    pub slo: i64,
    pub shi: i64,
    /// possible values of the two low bits, one bit each
    pub ls: u8,
}
pub const LS_ALL: u8 = 15;

pub const LANES: usize = 64;
pub type Lanes = [u32; LANES];
const RING: usize = 1 << 21;

#[derive(Clone)]
pub struct App {
    pub f: u32,
    pub args: Box<[T]>,
    pub outlen: u32,
}

pub struct Terms {
    pub n: Vec<Node>,
    iv: Vec<u32>,
    ivs: Vec<Iv>,
    ivmap: FxMap<Iv, u32>,
    tab: Vec<u32>,
    mask: usize,
    big: Vec<u128>,
    bigmap: FxMap<u128, u32>,
    pub apps: Vec<App>,
    appmap: FxMap<u128, u32>,
    ring: Vec<Lanes>,
    ringid: Vec<u32>,
    /// signatures that were expensive to recompute, and the cost so far
    pinned: FxMap<T, Box<Lanes>>,
    cost: u32,
    wide: FxMap<u32, Box<[u128; LANES]>>,
    pub cut_of: FxMap<T, T>,
    /// first >= second
    ge: FxMap<(T, T), ()>,
    pub ninputs: u32,
    pub nfree: u32,
    /// matching of new terms against the cut points of the reference
    pub matching: bool,
    pub targets: FxMap<u64, u32>,
    /// (name, value it stands for, next entry)
    pub tnext: Vec<(T, T, u32)>,
    /// cut points that have been matched
    found: std::collections::HashSet<T>,
    pub modw: u32,
    pub pending: Option<Box<dyn FnMut(&mut Terms, T, T) -> bool>>,
    pub stat_match: u64,
    pub stat_cand: u64,
    /// a named value is replaced by its name when it is computed again
    pub subst: bool,
    pub in_match: u32,
    in_twin: u32,
    pub seed: u64,
    /// names are simulated with the values of their definitions
    pub deep: bool,
}

#[inline]
pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
#[inline]
pub fn sx128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
#[inline]
fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// concrete semantics of one operator on `w`-bit results
pub fn eval_op(op: Op, w: u32, wa: u32, wb: u32, x: u128, y: u128, z: u128, b: u32) -> u128 {
    let m = mask128(w);
    match op {
        Add => x.wrapping_add(y) & m,
        Sub => x.wrapping_sub(y) & m,
        Mul => x.wrapping_mul(y) & m,
        UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        SDiv => {
            let (s, t) = (sx128(x, w), sx128(y, w));
            if t == 0 {
                (if s < 0 { 1 } else { m }) & m
            } else {
                (s.wrapping_div(t)) as u128 & m
            }
        }
        SRem => {
            let (s, t) = (sx128(x, w), sx128(y, w));
            if t == 0 {
                x
            } else {
                (s.wrapping_rem(t)) as u128 & m
            }
        }
        Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        AShr => {
            let s = sx128(x, w);
            (if y >= w as u128 { s >> (w - 1) } else { s >> y }) as u128 & m
        }
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        Eq => (x == y) as u128,
        Ult => (x < y) as u128,
        Slt => (sx128(x, wa) < sx128(y, wa)) as u128,
        Ite => {
            if x != 0 {
                y
            } else {
                z
            }
        }
        ZExt => x,
        SExt => sx128(x, wa) as u128 & m,
        Extract => (x >> b) & m,
        Concat => ((x << wb) | y) & m,
        _ => unreachable!(),
    }
}

impl Terms {
    pub fn new(seed: u64) -> Terms {
        let mut t = Terms {
            n: Vec::with_capacity(1 << 20),
            iv: Vec::with_capacity(1 << 20),
            ivs: vec![Iv { lo: 0, hi: 0, slo: 0, shi: 0, ls: LS_ALL }],
            ivmap: Default::default(),
            tab: vec![u32::MAX; 1 << 20],
            mask: (1 << 20) - 1,
            big: vec![],
            bigmap: Default::default(),
            apps: vec![],
            appmap: Default::default(),
            ring: vec![],
            ringid: vec![],
            pinned: FxMap::default(),
            cost: 0,
            wide: Default::default(),
            cut_of: Default::default(),
            ge: Default::default(),
            ninputs: 0,
            nfree: 0,
            matching: false,
            targets: Default::default(),
            tnext: vec![],
            found: Default::default(),
            modw: 0,
            pending: None,
            stat_match: 0,
            stat_cand: 0,
            subst: true,
            in_match: 0,
            in_twin: 0,
            seed,
            deep: false,
        };
        // term 0: the 1-bit constant 0, term 1: the 1-bit constant 1
        t.cst(1, 0);
        t.cst(1, 1);
        t
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.n[t as usize].w as u32
    }
    #[inline]
    pub fn op(&self, t: T) -> Op {
        self.n[t as usize].op
    }

    #[inline(always)]
    fn hash(nd: &Node) -> u64 {
        let mut h = (nd.op as u64) | ((nd.w as u64) << 8) | ((nd.c as u64) << 16);
        h = (h ^ (nd.a as u64).wrapping_mul(0x9E3779B97F4A7C15)).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
        h = (h ^ (nd.b as u64)).wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^ h >> 29
    }
    fn intern(&mut self, nd: Node) -> (T, bool) {
        let mut i = Self::hash(&nd) as usize & self.mask;
        loop {
            let e = self.tab[i];
            if e == u32::MAX {
                break;
            }
            let o = &self.n[e as usize];
            if o.op == nd.op && o.w == nd.w && o.a == nd.a && o.b == nd.b && o.c == nd.c {
                return (e, false);
            }
            i = (i + 1) & self.mask;
        }
        let id = self.n.len() as u32;
        if id >= u32::MAX - 2 {
            panic!("term table full");
        }
        self.n.push(nd);
        self.tab[i] = id;
        if self.n.len() * 2 > self.tab.len() {
            self.grow();
        }
        (id, true)
    }
    fn grow(&mut self) {
        let size = self.tab.len() * 2;
        self.mask = size - 1;
        self.tab = vec![u32::MAX; size];
        for (id, nd) in self.n.iter().enumerate() {
            let mut i = Self::hash(nd) as usize & self.mask;
            while self.tab[i] != u32::MAX {
                i = (i + 1) & self.mask;
            }
            self.tab[i] = id as u32;
        }
    }

    // ------------------------------------------------------------ constants
    pub fn cst(&mut self, w: u32, v: u128) -> T {
        let v = v & mask128(w);
        let nd = if w <= 64 {
            Node { op: Const, w: w as u8, fl: 0, a: v as u32, b: (v >> 32) as u32, c: 0 }
        } else {
            let k = match self.bigmap.get(&v) {
                Some(&k) => k,
                None => {
                    self.big.push(v);
                    self.bigmap.insert(v, self.big.len() as u32);
                    self.big.len() as u32
                }
            };
            Node { op: Const, w: w as u8, fl: 0, a: 0, b: 0, c: k }
        };
        let (id, new) = self.intern(nd);
        if new {
            self.set_iv_const(v, w);
        }
        id
    }
    fn set_iv_const(&mut self, v: u128, w: u32) {
        if w <= 64 {
            let v = v as u64;
            let s = sx64(v, w);
            let i = self.iv_id(Iv { lo: v, hi: v, slo: s, shi: s, ls: 1 << (v & 3) }, w);
            self.iv.push(i);
        } else {
            self.iv.push(0);
        }
    }
    #[inline]
    pub fn val(&self, t: T) -> Option<u128> {
        let n = &self.n[t as usize];
        if n.op != Const {
            return None;
        }
        Some(if n.c == 0 {
            n.a as u128 | ((n.b as u128) << 32)
        } else {
            self.big[n.c as usize - 1]
        })
    }

    // ------------------------------------------------------------ intervals
    fn iv_id(&mut self, mut v: Iv, w: u32) -> u32 {
        // tighten each view by the other
        let half = 1u64 << (w - 1);
        if v.hi < half {
            v.slo = v.slo.max(v.lo as i64);
            v.shi = v.shi.min(v.hi as i64);
        }
        if v.slo >= 0 {
            v.lo = v.lo.max(v.slo as u64);
            v.hi = v.hi.min(v.shi as u64);
        }
        if v.hi <= 3 {
            for k in 0..4 {
                if k < v.lo || k > v.hi {
                    v.ls &= !(1 << k);
                }
            }
            if v.ls != 0 {
                v.lo = v.ls.trailing_zeros() as u64;
                v.hi = 7 - v.ls.leading_zeros() as u64;
            }
        } else if v.lo == v.hi {
            v.ls = 1 << (v.lo & 3);
        }
        if w == 1 {
            v.ls &= 3;
        }
        if v.ls == (if w == 1 { 3 } else { LS_ALL })
            && v.lo == 0
            && v.hi == mask64(w)
            && v.slo == sx64(half, w)
            && v.shi == (half - 1) as i64
        {
            return 0;
        }
        match self.ivmap.get(&v) {
            Some(&i) => i,
            None => {
                let i = self.ivs.len() as u32;
                self.ivs.push(v);
                self.ivmap.insert(v, i);
                i
            }
        }
    }
    pub fn full(w: u32) -> Iv {
        let half = 1u64 << (w - 1);
        Iv {
            lo: 0,
            hi: mask64(w),
            slo: sx64(half, w),
            shi: (half - 1) as i64,
            ls: if w == 1 { 3 } else { LS_ALL },
        }
    }
    #[inline]
    pub fn iv(&self, t: T) -> Iv {
        let i = self.iv[t as usize];
        if i == 0 {
            Terms::full(self.w(t).min(64))
        } else {
            self.ivs[i as usize]
        }
    }
    fn compute_iv(&mut self, nd: &Node) -> u32 {
        let w = nd.w as u32;
        if w > 64 {
            return 0;
        }
        let m = mask64(w);
        let mut r = Terms::full(w);
        let full = r;
        r.ls = self.low_set(nd, w);
        match nd.op {
            Add => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                if let Some(h) = x.hi.checked_add(y.hi) {
                    if h <= m {
                        r.lo = x.lo + y.lo;
                        r.hi = h;
                    }
                }
                let (l, h) = (x.slo as i128 + y.slo as i128, x.shi as i128 + y.shi as i128);
                if l >= full.slo as i128 && h <= full.shi as i128 {
                    r.slo = l as i64;
                    r.shi = h as i64;
                }
            }
            Sub => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                if x.lo >= y.hi {
                    r.lo = x.lo - y.hi;
                    r.hi = x.hi - y.lo;
                }
                let (l, h) = (x.slo as i128 - y.shi as i128, x.shi as i128 - y.slo as i128);
                if l >= full.slo as i128 && h <= full.shi as i128 {
                    r.slo = l as i64;
                    r.shi = h as i64;
                }
            }
            Mul => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                let h = x.hi as u128 * y.hi as u128;
                if h <= m as u128 {
                    r.lo = x.lo * y.lo;
                    r.hi = h as u64;
                }
                let c = [
                    x.slo as i128 * y.slo as i128,
                    x.slo as i128 * y.shi as i128,
                    x.shi as i128 * y.slo as i128,
                    x.shi as i128 * y.shi as i128,
                ];
                let (l, h) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                if l >= full.slo as i128 && h <= full.shi as i128 {
                    r.slo = l as i64;
                    r.shi = h as i64;
                }
            }
            UDiv => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                if y.lo > 0 {
                    r.lo = x.lo / y.hi;
                    r.hi = x.hi / y.lo;
                }
            }
            URem => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                if y.lo > 0 {
                    r.hi = x.hi.min(y.hi - 1);
                    if x.hi < y.lo {
                        r.lo = x.lo;
                    }
                } else {
                    r.hi = x.hi.max(y.hi);
                }
            }
            And => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                r.hi = x.hi.min(y.hi);
            }
            Or | Xor => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                let b = 64 - (x.hi | y.hi).leading_zeros();
                r.hi = mask64(b).min(m);
                if b == 0 {
                    r.hi = 0;
                }
                if nd.op == Or {
                    r.lo = x.lo.max(y.lo);
                }
            }
            Ite => {
                let (x, y) = (self.iv(nd.b), self.iv(nd.c));
                r.lo = x.lo.min(y.lo);
                r.hi = x.hi.max(y.hi);
                r.slo = x.slo.min(y.slo);
                r.shi = x.shi.max(y.shi);
            }
            ZExt => {
                let x = self.iv(nd.a);
                r.lo = x.lo;
                r.hi = x.hi;
            }
            SExt => {
                let x = self.iv(nd.a);
                r.slo = x.slo;
                r.shi = x.shi;
                if x.shi < 0 {
                    r.lo = (x.slo as u64) & m;
                    r.hi = (x.shi as u64) & m;
                }
            }
            Extract => {
                if self.w(nd.a) <= 64 {
                    let x = self.iv(nd.a);
                    let (l, h) = (x.lo >> nd.b, x.hi >> nd.b);
                    if l & !m == h & !m {
                        r.lo = l & m;
                        r.hi = h & m;
                    }
                    if nd.b == 0 && x.slo >= full.slo && x.shi <= full.shi {
                        r.slo = x.slo;
                        r.shi = x.shi;
                    }
                }
            }
            Concat => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                let wb = self.w(nd.b);
                r.lo = (x.lo << wb) | y.lo;
                r.hi = (x.hi << wb) | y.hi;
                r.slo = ((x.slo as u64) << wb | y.lo) as i64;
                r.shi = ((x.shi as u64) << wb | y.hi) as i64;
            }
            LShr => {
                let (x, y) = (self.iv(nd.a), self.iv(nd.b));
                r.hi = if y.lo >= 64 { 0 } else { x.hi >> y.lo };
            }
            Cut => {
                let i = self.iv[nd.a as usize];
                let wd = self.w(nd.a);
                if wd == w {
                    return i;
                }
                let x = self.iv(nd.a);
                r.lo = x.lo;
                r.hi = x.hi.min(m);
            }
            _ => {}
        }
        self.iv_id(r, w)
    }

    fn ls(&self, t: T) -> u8 {
        if self.w(t) > 64 {
            LS_ALL
        } else {
            self.iv(t).ls
        }
    }
    fn low_set(&self, nd: &Node, w: u32) -> u8 {
        if w == 1 {
            return match nd.op {
                Extract if nd.b == 0 => {
                    let x = self.ls(nd.a);
                    (x & 3) | (x >> 2)
                }
                _ => 3,
            };
        }
        match nd.op {
            Add | Sub | Mul | And | Or | Xor => {
                let (x, y) = (self.ls(nd.a), self.ls(nd.b));
                if x == LS_ALL && y == LS_ALL {
                    return LS_ALL;
                }
                let mut r = 0;
                for i in 0..4u8 {
                    for j in 0..4u8 {
                        if x >> i & 1 == 1 && y >> j & 1 == 1 {
                            let k = match nd.op {
                                Add => i + j,
                                Sub => i.wrapping_sub(j),
                                Mul => i * j,
                                And => i & j,
                                Or => i | j,
                                _ => i ^ j,
                            };
                            r |= 1 << (k & 3);
                        }
                    }
                }
                r
            }
            Ite => self.ls(nd.b) | self.ls(nd.c),
            ZExt => self.ls(nd.a),
            SExt if self.w(nd.a) > 1 => self.ls(nd.a),
            SExt => {
                let x = self.ls(nd.a);
                (x & 1) | (x & 2) << 2
            }
            Extract if nd.b == 0 => self.ls(nd.a),
            Concat => {
                if self.w(nd.b) >= 2 {
                    self.ls(nd.b)
                } else {
                    let (h, l) = (self.ls(nd.a), self.ls(nd.b));
                    let h = (h & 3) | (h >> 2);
                    let mut r = 0;
                    for i in 0..2 {
                        for j in 0..2 {
                            if h >> i & 1 == 1 && l >> j & 1 == 1 {
                                r |= 1 << (2 * i + j);
                            }
                        }
                    }
                    r
                }
            }
            Cut => self.ls(nd.a),
            _ => LS_ALL,
        }
    }

    // ------------------------------------------------------------ node creation
    fn raw(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> T {
        debug_assert!(w >= 1 && w <= 128);
        let nd = Node { op, w: w as u8, fl: 0, a, b, c };
        let (id, new) = self.intern(nd);
        if !new {
            let iv = self.iv[id as usize];
            if iv != 0 {
                let v = self.ivs[iv as usize];
                if v.lo == v.hi {
                    return self.cst(w, v.lo as u128);
                }
            }
            if self.subst && self.n[id as usize].fl & FL_DEF != 0 {
                let cut = self.cut_of[&id];
                return if self.w(cut) <= w { self.zext(cut, w) } else { self.extract(cut, 0, w) };
            }
            if self.matching
                && self.in_match == 0
                && op as u8 > Free as u8
                && op != ZExt
                && self.n[id as usize].fl & FL_TRIED == 0
                && self.cheap(id, &mut 48)
            {
                return self.try_match(id);
            }
            return id;
        }
        let iv = self.compute_iv(&nd);
        self.iv.push(iv);
        if iv != 0 {
            let v = self.ivs[iv as usize];
            if v.lo == v.hi {
                return self.cst(w, v.lo as u128);
            }
        }
        if self.matching && op as u8 > Free as u8 && op != ZExt {
            let r = self.try_match(id);
            if r == id && self.in_match == 0 {
                return self.try_twin(id);
            }
            return r;
        }
        id
    }

    fn arg_of(&self, d: T, q: T, depth: u32) -> bool {
        let n = self.n[d as usize];
        let k = self.nargs(n.op);
        for (i, a) in [n.a, n.b, n.c].iter().enumerate() {
            if i < k {
                let a = self.strip(*a);
                if a == q || (depth > 0 && self.arg_of(a, q, depth - 1)) {
                    return true;
                }
            }
        }
        false
    }

    /// A name hides how its value relates to the other operand (x ^ c with
    /// c = x & y): look again with the definition in the place of the name.
    fn try_twin(&mut self, id: T) -> T {
        let n = self.n[id as usize];
        let w = n.w as u32;
        if w > 32 || self.in_twin > 1 || !matches!(n.op, Add | Sub | And | Or | Xor) {
            return id;
        }
        for (c, q) in [(n.a, n.b), (n.b, n.a)] {
            let k = self.strip(c);
            if self.op(k) != Cut {
                continue;
            }
            let d = self.n[k as usize].a;
            let sq = self.strip(q);
            if self.val(q).is_some() || !self.arg_of(d, sq, 1) {
                continue;
            }
            let wd = self.w(d);
            self.in_twin += 1;
            let e = if wd > w { self.extract(d, 0, w) } else { self.zext(d, w) };
            let r = if c == n.a { self.bin(n.op, e, q) } else { self.bin(n.op, q, e) };
            self.in_twin -= 1;
            if r != id && matches!(self.op(self.strip(r)), Cut | Const) {
                self.n[id as usize].fl |= FL_DEF;
                self.cut_of.insert(id, r);
                return r;
            }
        }
        id
    }

    pub fn input(&mut self, w: u32) -> T {
        let k = self.ninputs;
        self.ninputs += 1;
        let (id, new) = self.intern(Node { op: Input, w: w as u8, fl: 0, a: k, b: 0, c: 0 });
        if new {
            self.iv.push(0);
        }
        id
    }
    pub fn free(&mut self, w: u32) -> T {
        let k = self.nfree;
        self.nfree += 1;
        let (id, new) = self.intern(Node { op: Free, w: w as u8, fl: 0, a: k, b: 0, c: 0 });
        if new {
            self.iv.push(0);
        }
        id
    }
    pub fn app(&mut self, f: u32, args: Vec<T>, outlen: u32) -> u32 {
        let mut h1 = Fx(f as u64 + 77);
        let mut h2 = Fx(0xabcdef ^ outlen as u64);
        for &a in &args {
            h1.write_u32(a);
            h2.write_u64(a as u64 ^ 0x55aa);
        }
        let key = (h1.0 as u128) << 64 | h2.0 as u128;
        if let Some(&k) = self.appmap.get(&key) {
            assert!(self.apps[k as usize].args[..] == args[..], "hash collision");
            return k;
        }
        let k = self.apps.len() as u32;
        self.apps.push(App { f, args: args.into_boxed_slice(), outlen });
        self.appmap.insert(key, k);
        k
    }
    pub fn ufbyte(&mut self, app: u32, i: u32) -> T {
        let (id, new) = self.intern(Node { op: UfByte, w: 8, fl: 0, a: app, b: i, c: 0 });
        if new {
            self.iv.push(0);
        }
        id
    }

    // ------------------------------------------------------------ cut points
    /// Give the value `x` of the reference a name.  Returns the term to be
    /// used instead of `x`.
    pub fn cut(&mut self, x: T) -> T {
        let w = self.w(x);
        let n = self.n[x as usize];
        match n.op {
            Const | Cut | Input | UfByte | Free => return x,
            ZExt => {
                let c = self.cut(n.a);
                return self.zext(c, w);
            }
            _ => {}
        }
        if n.fl & FL_DEF != 0 {
            let c = self.cut_of[&x];
            return self.zext(c, w);
        }
        // a name for a negated or sliced name hides more than it helps
        if self.nargs(self.op(n.a)) == 0 && ((n.op == Xor && n.b == 1) || n.op == Extract) {
            return x;
        }
        let iv = self.iv(x);
        let mut wc = w;
        if w <= 64 {
            wc = (64 - iv.hi.leading_zeros()).max(1);
        }
        let nd = Node { op: Cut, w: wc as u8, fl: 0, a: x, b: 0, c: 0 };
        let (id, new) = self.intern(nd);
        if new {
            let i = self.compute_iv(&nd);
            self.iv.push(i);
        }
        self.n[x as usize].fl |= FL_DEF;
        self.cut_of.insert(x, id);
        if w <= 32 {
            // found by the simulated value of the definition and by its own
            for y in [x, id].into_iter().take(2 - self.deep as usize) {
                let s = self.sig(y, !0);
                let k = self.tnext.len() as u32;
                let prev = self.targets.insert(s, k).unwrap_or(u32::MAX);
                self.tnext.push((id, y, prev));
            }
        }
        self.zext(id, w)
    }

    /// the node of byte `i` of application `app`, if it exists
    pub fn find_ufbyte(&self, app: u32, i: u32) -> Option<T> {
        self.lookup(&Node { op: UfByte, w: 8, fl: 0, a: app, b: i, c: 0 })
    }
    fn lookup(&self, nd: &Node) -> Option<T> {
        let mut i = Self::hash(nd) as usize & self.mask;
        loop {
            let e = self.tab[i];
            if e == u32::MAX {
                return None;
            }
            let o = &self.n[e as usize];
            if o.op == nd.op && o.w == nd.w && o.a == nd.a && o.b == nd.b && o.c == nd.c {
                return Some(e);
            }
            i = (i + 1) & self.mask;
        }
    }

    pub fn nameable(&self, x: T) -> bool {
        let n = self.n[x as usize];
        match n.op {
            Const | Cut | Input | UfByte | Free => false,
            ZExt => self.nameable(n.a),
            _ => n.fl & FL_DEF == 0,
        }
    }
    /// a cut point outside of matching; the value is known to be at most `hi`
    pub fn name(&mut self, x: T, hi: u64) -> T {
        let w = self.w(x);
        let n = self.n[x as usize];
        if n.op == ZExt {
            let c = self.name(n.a, hi);
            return self.zext(c, w);
        }
        let mut v = self.iv(x);
        v.hi = v.hi.min(hi);
        let wc = (64 - v.hi.leading_zeros()).max(1);
        let nd = Node { op: Cut, w: wc as u8, fl: 0, a: x, b: 0, c: 0 };
        let (id, new) = self.intern(nd);
        if new {
            let mut r = Terms::full(wc);
            r.lo = v.lo;
            r.hi = v.hi;
            r.ls = v.ls;
            if wc == w {
                r.slo = v.slo;
                r.shi = v.shi;
            }
            let i = self.iv_id(r, wc);
            self.iv.push(i);
        }
        self.n[x as usize].fl |= FL_DEF;
        self.cut_of.insert(x, id);
        self.zext(id, w)
    }

    fn sig(&mut self, x: T, m: u32) -> u64 {
        let l = self.lanes(x);
        let mut h: u64 = 0x1234_5678_9abc_def1;
        for i in 0..LANES / 2 {
            let v = ((l[2 * i] & m) as u64) << 32 | (l[2 * i + 1] & m) as u64;
            h = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 32;
        }
        h
    }

    fn try_match(&mut self, id: T) -> T {
        let w = self.w(id);
        if w > 32 {
            return id;
        }
        if self.in_match > 0 {
            return id;
        }
        self.n[id as usize].fl |= FL_TRIED;
        let s = self.sig(id, !0);
        if let Some(&k) = self.targets.get(&s) {
            if let Some(c) = self.prove_target(id, k) {
                let wc = self.w(c);
                return if wc <= w { self.zext(c, w) } else { self.extract(c, 0, w) };
            }
        }
        let l = self.lanes(id);
        if l.iter().all(|v| *v == l[0]) {
            // perhaps a constant
            let c = self.cst(w, l[0] as u128);
            let mut p = self.pending.take();
            let ok = match p.as_mut() {
                Some(f) => f(self, id, c),
                None => false,
            };
            self.pending = p;
            if ok {
                self.n[id as usize].fl |= FL_DEF;
                self.cut_of.insert(id, c);
                return c;
            }
        }
        let mw = self.modw;
        if mw != 0
            && w > mw
            && !matches!(self.op(id), Concat | Extract)
            && self.iv(id).hi >> mw != 0
        {
            let s = self.sig(id, mask64(mw) as u32);
            if let Some(&k) = self.targets.get(&s) {
                // the low part, pushed through the arithmetic, is matched there
                let lowpart = self.extract(id, 0, mw);
                let mut k = k;
                while k != u32::MAX {
                    let (c, _, nx) = self.tnext[k as usize];
                    let wc = self.w(c);
                    if wc <= mw {
                        let z = self.zext(c, mw);
                        if z == lowpart {
                            let hi = self.raw(Extract, w - mw, id, mw, 0);
                            let r = self.concat(hi, lowpart);
                            self.n[id as usize].fl |= FL_DEF;
                            self.cut_of.insert(id, r);
                            return r;
                        }
                    }
                    k = nx;
                }
            }
        }
        id
    }

    /// `x` zero extended to `w` bits, the extension pushed into sums that do
    /// not wrap
    fn widen(&mut self, x: T, w: u32) -> T {
        let n = self.n[x as usize];
        if n.w as u32 == w {
            return x;
        }
        if n.op == Add {
            let (p, q) = (self.iv(n.a), self.iv(n.b));
            if p.hi as u128 + q.hi as u128 <= mask64(n.w as u32) as u128 {
                let a = self.widen(n.a, w);
                let b = self.widen(n.b, w);
                return self.bin(Add, a, b);
            }
        }
        self.zext(x, w)
    }

    fn prove_target(&mut self, id: T, mut k: u32) -> Option<T> {
        // the oldest first, those already found after the others
        let mut list = vec![];
        while k != u32::MAX {
            let (c, d, nx) = self.tnext[k as usize];
            list.push((c, d));
            k = nx;
        }
        list.reverse();
        if list.len() > 1 {
            list.sort_by_key(|(c, _)| self.found.contains(c));
        }
        for (c, d) in list.into_iter().take(8) {
            self.stat_cand += 1;
            let (mut x, mut y) = (id, d);
            let (wx, wy) = (self.w(x), self.w(y));
            if wx != wy && (self.op(x) == Add || self.op(y) == Add) {
                self.in_match += 1;
                x = self.widen(x, wx.max(wy));
                y = self.widen(y, wx.max(wy));
                self.in_match -= 1;
            }
            let ok = if x == y || self.strip(x) == c {
                true
            } else {
                let mut p = self.pending.take();
                let ok = match p.as_mut() {
                    Some(f) => f(self, x, y),
                    None => false,
                };
                self.pending = p;
                ok
            };
            if ok {
                self.stat_match += 1;
                // `id` is from now on just another name of the cut point
                self.n[id as usize].fl |= FL_DEF;
                self.cut_of.insert(id, c);
                self.found.insert(c);
                return Some(c);
            }
        }
        None
    }

    // ------------------------------------------------------------ simulation
    fn leaf_lanes(&self, t: T, out: &mut Lanes) {
        let w = self.w(t);
        let iv = self.iv(t);
        let m = mask64(w) as u32;
        let base = mix(self.seed ^ (t as u64).wrapping_mul(0xD6E8FEB86659FD93));
        let i = self.iv[t as usize];
        if i == 0 {
            for k in 0..LANES {
                out[k] = (mix(base.wrapping_add(k as u64)) >> 16) as u32 & m;
            }
            out[0] = 0;
            if self.deep && self.op(t) == Input {
                // numbers about to overflow into their first byte
                let last = self.n[t as usize].a & 15 == 15;
                (1..32).for_each(|k| out[k] = if last { m - (k as u32 - 1) } else { m });
            }
        } else {
            let span = iv.hi - iv.lo;
            let sspan = (iv.shi - iv.slo) as u64;
            let (from, span) = if span <= sspan { (iv.lo, span) } else { (iv.slo as u64, sspan) };
            for k in 0..LANES {
                let r = mix(base.wrapping_add(k as u64)) >> 32;
                let mut d = (r * (span + 1)) >> 32;
                // next admissible value with respect to the low bits
                for _ in 0..4 {
                    if iv.ls >> (from.wrapping_add(d) & 3) & 1 == 1 {
                        break;
                    }
                    d = if d == span { 0 } else { d + 1 };
                }
                out[k] = from.wrapping_add(d) as u32 & m;
            }
            if iv.lo == 0 && iv.ls & 1 == 1 {
                out[0] = 0;
            }
        }
    }

    /// can the signature be had without recomputing more than `left` nodes?
    fn cheap(&self, t: T, left: &mut i32) -> bool {
        if self.w(t) > 32 || self.ringid.get(t as usize & (RING - 1)) == Some(&t) {
            return true;
        }
        *left -= 1;
        if *left < 0 {
            return false;
        }
        let n = self.n[t as usize];
        let k = self.nargs(n.op);
        (k < 1 || self.cheap(n.a, left)) && (k < 2 || self.cheap(n.b, left)) && (k < 3 || self.cheap(n.c, left))
    }

    pub fn lanes(&mut self, t: T) -> Lanes {
        if self.ring.is_empty() {
            self.ring = vec![[0; LANES]; RING];
            self.ringid = vec![u32::MAX; RING];
        }
        let slot = t as usize & (RING - 1);
        if self.ringid[slot] == t {
            return self.ring[slot];
        }
        if let Some(l) = self.pinned.get(&t) {
            return **l;
        }
        let before = std::mem::replace(&mut self.cost, 0);
        let mut out = [0u32; LANES];
        let n = self.n[t as usize];
        let w = n.w as u32;
        assert!(w <= 32);
        let m = mask64(w) as u32;
        match n.op {
            Const => {
                let v = self.val(t).unwrap() as u32;
                out = [v; LANES];
            }
            Cut if self.deep => {
                let x = self.lanes128(n.a);
                (0..LANES).for_each(|k| out[k] = x[k] as u32 & m);
            }
            Input | Cut | UfByte | Free => self.leaf_lanes(t, &mut out),
            Add | Sub | Mul | And | Or | Xor => {
                let x = self.lanes(n.a);
                let y = self.lanes(n.b);
                match n.op {
                    Add => (0..LANES).for_each(|k| out[k] = x[k].wrapping_add(y[k]) & m),
                    Sub => (0..LANES).for_each(|k| out[k] = x[k].wrapping_sub(y[k]) & m),
                    Mul => (0..LANES).for_each(|k| out[k] = x[k].wrapping_mul(y[k]) & m),
                    And => (0..LANES).for_each(|k| out[k] = x[k] & y[k]),
                    Or => (0..LANES).for_each(|k| out[k] = x[k] | y[k]),
                    _ => (0..LANES).for_each(|k| out[k] = x[k] ^ y[k]),
                }
            }
            Ite => {
                let c = self.lanes(n.a);
                let x = self.lanes(n.b);
                let y = self.lanes(n.c);
                (0..LANES).for_each(|k| out[k] = if c[k] != 0 { x[k] } else { y[k] });
            }
            ZExt => out = self.lanes(n.a),
            Extract if self.w(n.a) <= 32 => {
                let x = self.lanes(n.a);
                (0..LANES).for_each(|k| out[k] = (x[k] >> n.b) & m);
            }
            Concat => {
                let x = self.lanes(n.a);
                let y = self.lanes(n.b);
                let wb = self.w(n.b);
                (0..LANES).for_each(|k| out[k] = (x[k] << wb) | y[k]);
            }
            _ => {
                let (wa, wb) = self.arg_widths(&n);
                let x = self.lanes128(n.a);
                let y = if self.nargs(n.op) >= 2 { self.lanes128(n.b) } else { [0; LANES] };
                for k in 0..LANES {
                    out[k] = eval_op(n.op, w, wa, wb, x[k], y[k], 0, n.b) as u32;
                }
            }
        }
        self.ring[slot] = out;
        self.ringid[slot] = t;
        self.cost += 1;
        if self.cost > 64 {
            if self.pinned.len() > 1 << 19 {
                self.pinned.clear();
            }
            self.pinned.insert(t, Box::new(out));
            self.cost = 0;
        }
        self.cost = self.cost.saturating_add(before);
        out
    }
    fn arg_widths(&self, n: &Node) -> (u32, u32) {
        let k = self.nargs(n.op);
        (
            if k >= 1 { self.w(n.a) } else { 0 },
            if k >= 2 { self.w(n.b) } else { 0 },
        )
    }
    pub fn nargs(&self, op: Op) -> usize {
        match op {
            Const | Input | Cut | UfByte | Free => 0,
            ZExt | SExt | Extract => 1,
            Ite => 3,
            _ => 2,
        }
    }
    fn lanes128(&mut self, t: T) -> [u128; LANES] {
        if self.w(t) <= 32 {
            let l = self.lanes(t);
            let mut o = [0u128; LANES];
            for k in 0..LANES {
                o[k] = l[k] as u128;
            }
            return o;
        }
        if let Some(l) = self.wide.get(&t) {
            return **l;
        }
        let n = self.n[t as usize];
        let w = n.w as u32;
        let mut o = [0u128; LANES];
        match n.op {
            Const => o = [self.val(t).unwrap(); LANES],
            Cut if self.deep => {
                let x = self.lanes128(n.a);
                (0..LANES).for_each(|k| o[k] = x[k] & mask128(w));
            }
            Input | Cut | UfByte | Free => {
                let base = mix(self.seed ^ (t as u64).wrapping_mul(0xD6E8FEB86659FD93));
                for k in 0..LANES {
                    let a = mix(base.wrapping_add(k as u64)) as u128;
                    let b = mix(base.wrapping_add(k as u64 + 1000)) as u128;
                    o[k] = (a << 64 | b) & mask128(w);
                }
                if w <= 64 && self.iv[t as usize] != 0 {
                    let iv = self.iv(t);
                    let span = (iv.hi - iv.lo) as u128 + 1;
                    for k in 0..LANES {
                        o[k] = iv.lo as u128 + o[k] % span;
                    }
                }
            }
            _ => {
                let (wa, wb) = self.arg_widths(&n);
                let x = self.lanes128(n.a);
                let na = self.nargs(n.op);
                let y = if na >= 2 { self.lanes128(n.b) } else { [0; LANES] };
                let z = if na >= 3 { self.lanes128(n.c) } else { [0; LANES] };
                for k in 0..LANES {
                    o[k] = eval_op(n.op, w, wa, wb, x[k], y[k], z[k], n.b);
                }
            }
        }
        if self.wide.len() > 200_000 {
            self.wide.clear();
        }
        self.wide.insert(t, Box::new(o));
        o
    }

    // ------------------------------------------------------------ constructors
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let wt = self.w(t);
        if wt == w {
            return t;
        }
        debug_assert!(wt < w);
        if let Some(v) = self.val(t) {
            return self.cst(w, v);
        }
        if self.op(t) == ZExt {
            let a = self.n[t as usize].a;
            return self.zext(a, w);
        }
        self.raw(ZExt, w, t, 0, 0)
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let wt = self.w(t);
        if wt == w {
            return t;
        }
        if let Some(v) = self.val(t) {
            return self.cst(w, sx128(v, wt) as u128);
        }
        if wt <= 64 && self.iv(t).slo >= 0 {
            return self.zext(t, w);
        }
        if self.op(t) == SExt {
            let a = self.n[t as usize].a;
            return self.sext(a, w);
        }
        self.raw(SExt, w, t, 0, 0)
    }
    pub fn trunc(&mut self, t: T, w: u32) -> T {
        self.extract(t, 0, w)
    }
    pub fn extract(&mut self, t: T, lo: u32, w: u32) -> T {
        let n = self.n[t as usize];
        let wt = n.w as u32;
        if lo == 0 && w == wt {
            return t;
        }
        debug_assert!(lo + w <= wt);
        if let Some(v) = self.val(t) {
            return self.cst(w, v >> lo);
        }
        // bits above the unsigned bound are zero
        if wt <= 64 {
            let hb = 64 - self.iv(t).hi.leading_zeros();
            if lo >= hb {
                return self.cst(w, 0);
            }
        }
        match n.op {
            Extract => return self.extract(n.a, n.b + lo, w),
            ZExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo < wa {
                    let p = self.extract(n.a, lo, wa - lo);
                    return self.zext(p, w);
                }
                return self.cst(w, 0);
            }
            SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo < wa {
                    let p = self.extract(n.a, lo, wa - lo);
                    return self.sext(p, w);
                }
                let p = self.extract(n.a, wa - 1, 1);
                return self.sext(p, w);
            }
            Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            And | Or | Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Add | Sub | Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            // higher bits do not matter
            Add | Sub | Mul if lo + w < wt => {
                let x = self.extract(n.a, 0, lo + w);
                let y = self.extract(n.b, 0, lo + w);
                let r = self.bin(n.op, x, y);
                return self.extract(r, lo, w);
            }
            Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.raw(Extract, w, t, lo, 0)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let Some(v) = self.val(h) {
            if v == 0 {
                return self.zext(l, w);
            }
            if let Some(u) = self.val(l) {
                return self.cst(w, v << wl | u);
            }
        }
        let nh = self.n[h as usize];
        let nl = self.n[l as usize];
        // adjacent slices of one term
        if nh.op == Extract && nl.op == Extract && nh.a == nl.a && nh.b == nl.b + wl {
            return self.extract(nl.a, nl.b, w);
        }
        if nh.op == Extract && nh.a == l && nh.b == wl {
            return self.extract(l, 0, w);
        }
        // slices starting at bit 0 of a wider term whose low part is `l`
        if nh.op == Concat {
            // right-nest
            let inner = self.concat(nh.b, l);
            return self.concat(nh.a, inner);
        }
        if nh.op == ZExt {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        if nl.op == Concat {
            let m = nl.a;
            let nm = self.n[m as usize];
            if nh.op == Extract && nm.op == Extract && nh.a == nm.a && nh.b == nm.b + self.w(m) {
                let wm = self.w(m);
                let j = self.extract(nm.a, nm.b, wh + wm);
                return self.concat(j, nl.b);
            }
            if let (Some(x), Some(y)) = (self.val(h), self.val(m)) {
                let wm = self.w(m);
                let j = self.cst(wh + wm, x << wm | y);
                return self.concat(j, nl.b);
            }
        }
        if nl.op == ZExt {
            if let Some(v) = self.val(h) {
                // constant : 0 : x
                let wa = self.w(nl.a);
                let k = self.cst(wh + wl - wa, v << (wl - wa));
                return self.raw_concat(k, nl.a);
            }
        }
        self.raw_concat(h, l)
    }
    fn raw_concat(&mut self, h: T, l: T) -> T {
        let w = self.w(h) + self.w(l);
        self.raw(Concat, w, h, l, 0)
    }

    /// slices of `t`, least significant first: (None, len) is zero
    fn pieces(&mut self, t: T, out: &mut Vec<(Option<T>, u32)>) -> bool {
        if out.len() > 80 {
            return false;
        }
        let n = self.n[t as usize];
        match n.op {
            Const => {
                let v = self.val(t).unwrap();
                let w = n.w as u32;
                let mut i = 0;
                while i < w {
                    let one = v >> i & 1;
                    let s = i;
                    while i < w && v >> i & 1 == one {
                        i += 1;
                    }
                    if one == 0 {
                        out.push((None, i - s));
                    } else {
                        let k = self.cst(i - s, !0);
                        out.push((Some(k), i - s));
                    }
                }
                true
            }
            ZExt => {
                let wa = self.w(n.a);
                let r = self.pieces(n.a, out);
                out.push((None, n.w as u32 - wa));
                r
            }
            Concat => self.pieces(n.b, out) && self.pieces(n.a, out),
            _ => {
                out.push((Some(t), n.w as u32));
                true
            }
        }
    }

    fn low_zero(&self, mut t: T) -> bool {
        while matches!(self.op(t), Concat) {
            t = self.n[t as usize].b;
        }
        self.op(t) == Const && self.val(t).unwrap() & 1 == 0
    }

    /// x|y, x^y, x+y where at every bit position one side is known zero
    fn disjoint(&mut self, x: T, y: T) -> Option<T> {
        let (ox, oy) = (self.op(x), self.op(y));
        let zx = matches!(ox, ZExt | Concat | Const);
        let zy = matches!(oy, ZExt | Concat | Const);
        if !zx && !zy {
            return None;
        }
        if !self.low_zero(x) && !self.low_zero(y) {
            return None;
        }
        let (mut p, mut q) = (vec![], vec![]);
        if !self.pieces(x, &mut p) || !self.pieces(y, &mut q) {
            return None;
        }
        if !p.iter().any(|e| e.0.is_none()) && !q.iter().any(|e| e.0.is_none()) {
            return None;
        }
        let mut res: Vec<T> = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u32, 0u32);
        while i < p.len() && j < q.len() {
            let (a, la) = p[i];
            let (b, lb) = q[j];
            let len = (la - oi).min(lb - oj);
            let piece = match (a, b) {
                (Some(a), None) => self.extract(a, oi, len),
                (None, Some(b)) => self.extract(b, oj, len),
                (None, None) => self.cst(len, 0),
                _ => return None,
            };
            res.push(piece);
            oi += len;
            oj += len;
            if oi == la {
                i += 1;
                oi = 0;
            }
            if oj == lb {
                j += 1;
                oj = 0;
            }
        }
        let stack: Vec<T> = res.iter().rev().copied().collect();
        // merge adjacent pieces (stack is msb..lsb)
        let mut merged: Vec<T> = vec![stack[0]];
        for &l in &stack[1..] {
            let h = *merged.last().unwrap();
            let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
            let wl = nl.w as u32;
            let adj = (nh.op == Extract && nl.op == Extract && nh.a == nl.a && nh.b == nl.b + wl)
                || (nh.op == Extract && nh.a == l && nh.b == wl)
                || (nh.op == Const && nl.op == Const);
            if adj {
                *merged.last_mut().unwrap() = self.concat(h, l);
            } else {
                merged.push(l);
            }
        }
        let mut acc = merged.pop().unwrap();
        while let Some(h) = merged.pop() {
            acc = self.concat(h, acc);
        }
        Some(acc)
    }

    pub fn not(&mut self, t: T) -> T {
        let w = self.w(t);
        let m = self.cst(w, !0);
        self.bin(Xor, t, m)
    }
    pub fn neg(&mut self, t: T) -> T {
        let z = self.cst(self.w(t), 0);
        self.bin(Sub, z, t)
    }

    pub fn bin(&mut self, op: Op, x: T, y: T) -> T {
        let r = self.bin_(op, x, y);
        if op == Add && self.matching && !matches!(self.op(r), Add | Const) {
            // a sum that got another name: remember that it did not wrap
            let w = self.w(x);
            if w <= 64 {
                let (p, q) = (self.iv(x), self.iv(y));
                if p.hi as u128 + q.hi as u128 <= mask64(w) as u128 {
                    let (r, x, y) = (self.strip(r), self.strip(x), self.strip(y));
                    self.ge.insert((r, x), ());
                    self.ge.insert((r, y), ());
                }
            }
        }
        r
    }
    fn strip(&self, t: T) -> T {
        let n = self.n[t as usize];
        if n.op == ZExt {
            n.a
        } else {
            t
        }
    }
    /// number of low bits that are constant zeros
    fn trailing_zeros(&self, t: T) -> u32 {
        let n = self.n[t as usize];
        match n.op {
            ZExt => self.trailing_zeros(n.a),
            Concat => self.trailing_zeros(n.b),
            Const => match self.val(t).unwrap() {
                0 => n.w as u32,
                v => v.trailing_zeros(),
            },
            _ => 0,
        }
    }

    fn bin_(&mut self, op: Op, mut x: T, mut y: T) -> T {
        let w = self.w(x);
        debug_assert_eq!(w, self.w(y), "{:?}", op);
        let m = mask128(w);
        let (mut vx, mut vy) = (self.val(x), self.val(y));
        if let (Some(a), Some(b)) = (vx, vy) {
            let r = eval_op(op, w, w, w, a, b, 0, 0);
            let wr = if matches!(op, Eq | Ult | Slt) { 1 } else { w };
            return self.cst(wr, r);
        }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            // constants to the right, otherwise by age
            if vx.is_some() || (vy.is_none() && x > y) {
                std::mem::swap(&mut x, &mut y);
                std::mem::swap(&mut vx, &mut vy);
            }
        }
        let nx = self.n[x as usize];
        let ny = self.n[y as usize];
        match op {
            Add => {
                if w == 1 {
                    return self.bin(Xor, x, y);
                }
                if let Some(c) = vy {
                    if c == 0 {
                        return x;
                    }
                    if nx.op == Add {
                        if let Some(d) = self.val(nx.b) {
                            let k = self.cst(w, c.wrapping_add(d));
                            return self.bin(Add, nx.a, k);
                        }
                    }
                    if nx.op == Sub {
                        if let Some(d) = self.val(nx.a) {
                            let k = self.cst(w, c.wrapping_add(d));
                            return self.bin(Sub, k, nx.b);
                        }
                    }
                    if nx.op == Xor && c == 1 && self.val(nx.b) == Some(m) {
                        return self.neg(nx.a);
                    }
                }
                if nx.op == Sub && self.val(nx.a) == Some(0) {
                    return self.bin(Sub, y, nx.b);
                }
                if ny.op == Sub && self.val(ny.a) == Some(0) {
                    return self.bin(Sub, x, ny.b);
                }
                if let Some(r) = self.disjoint(x, y) {
                    return r;
                }
                let k = self.trailing_zeros(x).min(self.trailing_zeros(y));
                if k > 0 && k < w {
                    let a = self.extract(x, k, w - k);
                    let b = self.extract(y, k, w - k);
                    let s = self.bin(Add, a, b);
                    let z = self.cst(k, 0);
                    return self.concat(s, z);
                }
            }
            Sub => {
                if w == 1 {
                    return self.bin(Xor, x, y);
                }
                if x == y {
                    return self.cst(w, 0);
                }
                if let Some(c) = vy {
                    let k = self.cst(w, c.wrapping_neg());
                    return self.bin(Add, x, k);
                }
                if vx == Some(0) {
                    if ny.op == Sub {
                        return self.bin(Sub, ny.b, ny.a);
                    }
                    if ny.op == ZExt && self.w(ny.a) == 1 {
                        return self.sext(ny.a, w);
                    }
                }
                if vx == Some(m) {
                    return self.not(y);
                }
                if ny.op == Sub && self.val(ny.a) == Some(0) {
                    return self.bin(Add, x, ny.b);
                }
            }
            Mul => {
                if w == 1 {
                    return self.bin(And, x, y);
                }
                if let Some(c) = vy {
                    if c == 0 {
                        return y;
                    }
                    if c == 1 {
                        return x;
                    }
                    if c == m {
                        return self.neg(x);
                    }
                    if c.is_power_of_two() {
                        return self.shl_c(x, c.trailing_zeros());
                    }
                    if nx.op == Mul {
                        if let Some(d) = self.val(nx.b) {
                            let k = self.cst(w, c.wrapping_mul(d));
                            return self.bin(Mul, nx.a, k);
                        }
                    }
                }
                // multiplication by a single bit
                if nx.op == ZExt && self.w(nx.a) == 1 {
                    let z = self.cst(w, 0);
                    return self.ite(nx.a, y, z);
                }
                if ny.op == ZExt && self.w(ny.a) == 1 {
                    let z = self.cst(w, 0);
                    return self.ite(ny.a, x, z);
                }
            }
            UDiv => {
                if let Some(c) = vy {
                    if c == 1 {
                        return x;
                    }
                    if c != 0 && c.is_power_of_two() {
                        return self.lshr_c(x, c.trailing_zeros());
                    }
                }
            }
            URem => {
                if let Some(c) = vy {
                    if c == 1 {
                        return self.cst(w, 0);
                    }
                    if c != 0 && c.is_power_of_two() {
                        let k = self.cst(w, c - 1);
                        return self.bin(And, x, k);
                    }
                    if w <= 64 && c > self.iv(x).hi as u128 {
                        return x;
                    }
                }
            }
            And => {
                if x == y {
                    return x;
                }
                if let Some(c) = vy {
                    if c == 0 {
                        return y;
                    }
                    if c == m {
                        return x;
                    }
                    if let Some(r) = self.and_mask(x, c) {
                        return r;
                    }
                }
                if let Some(r) = self.mask_bit(x, y) {
                    return r;
                }
                if let Some(r) = self.mask_bit(y, x) {
                    return r;
                }
                if w > 1 {
                    if let Some(r) = self.narrow_logic(op, x, y) {
                        return r;
                    }
                }
                if w == 1 && self.is_not_of(x, y) {
                    return self.cst(1, 0);
                }
            }
            Or => {
                if x == y {
                    return x;
                }
                if let Some(c) = vy {
                    if c == 0 {
                        return x;
                    }
                    if c == m {
                        return y;
                    }
                }
                if w == 1 && self.is_not_of(x, y) {
                    return self.cst(1, 1);
                }
                if w > 1 {
                    if let Some(r) = self.disjoint(x, y) {
                        return r;
                    }
                    if let Some(r) = self.narrow_logic(op, x, y) {
                        return r;
                    }
                }
            }
            Xor => {
                if x == y {
                    return self.cst(w, 0);
                }
                if let Some(c) = vy {
                    if c == 0 {
                        return x;
                    }
                    if nx.op == Xor {
                        if let Some(d) = self.val(nx.b) {
                            let k = self.cst(w, c ^ d);
                            return self.bin(Xor, nx.a, k);
                        }
                    }
                }
                if nx.op == Xor && (nx.a == y || nx.b == y) {
                    return if nx.a == y { nx.b } else { nx.a };
                }
                if ny.op == Xor && (ny.a == x || ny.b == x) {
                    return if ny.a == x { ny.b } else { ny.a };
                }
                // x ^ (c ? x^z : 0)  =  c ? z : x
                for (p, q) in [(x, y), (y, x)] {
                    let nq = self.n[q as usize];
                    if nq.op == Ite && self.val(nq.c) == Some(0) {
                        let nb = self.n[nq.b as usize];
                        if nb.op == Xor && (nb.a == p || nb.b == p) {
                            let z = if nb.a == p { nb.b } else { nb.a };
                            return self.ite(nq.a, z, p);
                        }
                    }
                    if w == 1 && nq.op == And {
                        for (s, e) in [(nq.a, nq.b), (nq.b, nq.a)] {
                            let ne = self.n[e as usize];
                            if ne.op == Xor && (ne.a == p || ne.b == p) {
                                let z = if ne.a == p { ne.b } else { ne.a };
                                return self.ite(s, z, p);
                            }
                        }
                    }
                }
                if w > 1 {
                    if let Some(r) = self.disjoint(x, y) {
                        return r;
                    }
                    if let Some(r) = self.narrow_logic(op, x, y) {
                        return r;
                    }
                }
            }
            Eq => return self.eq(x, y),
            Ult => return self.ult(x, y),
            Slt => return self.slt(x, y),
            Shl => {
                if let Some(c) = vy {
                    return if c >= w as u128 { self.cst(w, 0) } else { self.shl_c(x, c as u32) };
                }
            }
            LShr => {
                if let Some(c) = vy {
                    return if c >= w as u128 { self.cst(w, 0) } else { self.lshr_c(x, c as u32) };
                }
            }
            AShr => {
                if let Some(c) = vy {
                    let c = (c as u32).min(w - 1);
                    let e = self.extract(x, c, w - c);
                    return self.sext(e, w);
                }
            }
            _ => {}
        }
        self.raw(op, w, x, y, 0)
    }

    fn is_not_of(&self, x: T, y: T) -> bool {
        let nx = self.n[x as usize];
        let ny = self.n[y as usize];
        (nx.op == Xor && nx.a == y && nx.b == 1) || (ny.op == Xor && ny.a == x && ny.b == 1)
    }

    /// s is a sign-extended bit: s & y = bit ? y : 0
    fn mask_bit(&mut self, s: T, y: T) -> Option<T> {
        let n = self.n[s as usize];
        if n.op == SExt && self.w(n.a) == 1 {
            let z = self.cst(n.w as u32, 0);
            return Some(self.ite(n.a, y, z));
        }
        // ~(sext bit)
        if n.op == Xor && self.val(n.b) == Some(mask128(n.w as u32)) {
            let k = self.n[n.a as usize];
            if k.op == SExt && self.w(k.a) == 1 {
                let z = self.cst(n.w as u32, 0);
                return Some(self.ite(k.a, z, y));
            }
        }
        None
    }

    /// logic on two zero-extended values happens on the narrow part
    fn narrow_logic(&mut self, op: Op, x: T, y: T) -> Option<T> {
        let nx = self.n[x as usize];
        let ny = self.n[y as usize];
        let w = nx.w as u32;
        let wx = if nx.op == ZExt { self.w(nx.a) } else { w };
        let wy = match ny.op {
            ZExt => self.w(ny.a),
            Const if w <= 64 => (128 - self.val(y).unwrap().leading_zeros()).max(1),
            _ => w,
        };
        let k = if op == And { wx.min(wy) } else { wx.max(wy) };
        if k < w {
            let a = self.extract(x, 0, k);
            let b = self.extract(y, 0, k);
            let r = self.bin(op, a, b);
            return Some(self.zext(r, w));
        }
        None
    }

    fn and_mask(&mut self, x: T, c: u128) -> Option<T> {
        let w = self.w(x);
        // runs of ones
        let mut runs = vec![];
        let mut i = 0;
        while i < w {
            if c >> i & 1 == 1 {
                let s = i;
                while i < w && c >> i & 1 == 1 {
                    i += 1;
                }
                runs.push((s, i - s));
            } else {
                i += 1;
            }
        }
        if runs.len() > 3 {
            return None;
        }
        let mut acc: Option<T> = None;
        let mut pos = 0;
        for (s, l) in runs {
            if s > pos {
                let z = self.cst(s - pos, 0);
                acc = Some(match acc {
                    None => z,
                    Some(a) => self.concat(z, a),
                });
            }
            let e = self.extract(x, s, l);
            acc = Some(match acc {
                None => e,
                Some(a) => self.concat(e, a),
            });
            pos = s + l;
        }
        let a = acc.unwrap();
        Some(self.zext(a, w))
    }

    pub fn shl_c(&mut self, x: T, s: u32) -> T {
        if s == 0 {
            return x;
        }
        let w = self.w(x);
        let h = self.extract(x, 0, w - s);
        let z = self.cst(s, 0);
        self.concat(h, z)
    }
    pub fn lshr_c(&mut self, x: T, s: u32) -> T {
        if s == 0 {
            return x;
        }
        let w = self.w(x);
        let h = self.extract(x, s, w - s);
        self.zext(h, w)
    }

    /// equality with a constant on the right if there is one
    pub fn eq_sorted(&mut self, x: T, y: T) -> T {
        if self.w(x) == 1 || self.val(x).is_none() {
            if self.w(x) == 1 && self.val(x).is_some() {
                return self.eq(y, x);
            }
            self.eq(x, y)
        } else if self.val(y).is_some() {
            (self.val(x) == self.val(y)) as u32
        } else {
            self.eq(y, x)
        }
    }
    pub fn eq(&mut self, x: T, y: T) -> T {
        if x == y {
            return 1;
        }
        let w = self.w(x);
        if w <= 64 {
            let (a, b) = (self.iv(x), self.iv(y));
            if a.hi < b.lo || b.hi < a.lo || a.shi < b.slo || b.shi < a.slo {
                return 0;
            }
        }
        let nx = self.n[x as usize];
        if let Some(c) = self.val(y) {
            if w == 1 {
                return if c == 1 { x } else { self.not(x) };
            }
            match nx.op {
                ZExt => {
                    let wa = self.w(nx.a);
                    if c >> wa != 0 {
                        return 0;
                    }
                    let k = self.cst(wa, c);
                    return self.eq(nx.a, k);
                }
                SExt => {
                    let wa = self.w(nx.a);
                    let k = self.cst(wa, c);
                    if sx128(c & mask128(wa), wa) as u128 & mask128(w) != c {
                        return 0;
                    }
                    return self.eq(nx.a, k);
                }
                Concat => {
                    let wb = self.w(nx.b);
                    let kl = self.cst(wb, c);
                    let kh = self.cst(w - wb, c >> wb);
                    let l = self.eq(nx.b, kl);
                    let h = self.eq(nx.a, kh);
                    return self.bin(And, h, l);
                }
                Xor => {
                    if let Some(d) = self.val(nx.b) {
                        let k = self.cst(w, c ^ d);
                        return self.eq(nx.a, k);
                    }
                }
                Add => {
                    if let Some(d) = self.val(nx.b) {
                        let k = self.cst(w, c.wrapping_sub(d));
                        return self.eq(nx.a, k);
                    }
                }
                Or if c == 0 => {
                    let z = self.cst(w, 0);
                    let l = self.eq(nx.a, z);
                    let h = self.eq(nx.b, z);
                    return self.bin(And, l, h);
                }
                Ite => {
                    if let (Some(p), Some(q)) = (self.val(nx.b), self.val(nx.c)) {
                        return match (p == c, q == c) {
                            (true, true) => 1,
                            (true, false) => nx.a,
                            (false, true) => self.not(nx.a),
                            _ => 0,
                        };
                    }
                }
                _ => {}
            }
        }
        if w == 1 {
            let r = self.bin(Xor, x, y);
            return self.not(r);
        }
        let ny = self.n[y as usize];
        if nx.op == ZExt && ny.op == ZExt {
            let k = self.w(nx.a).max(self.w(ny.a));
            let a = self.extract(x, 0, k);
            let b = self.extract(y, 0, k);
            return self.eq(a, b);
        }
        let (x, y) = if x > y && self.val(y).is_none() { (y, x) } else { (x, y) };
        self.raw(Eq, 1, x, y, 0)
    }
    pub fn ult(&mut self, x: T, y: T) -> T {
        if x == y {
            return 0;
        }
        let w = self.w(x);
        if let (Some(a), Some(b)) = (self.val(x), self.val(y)) {
            return (a < b) as u32;
        }
        if w <= 64 {
            // p + q < p  only if the sum wraps
            if !self.ge.is_empty() && self.ge.contains_key(&(self.strip(x), self.strip(y))) {
                return 0;
            }
            let n = self.n[x as usize];
            if n.op == Add && (n.a == y || n.b == y) {
                let (p, q) = (self.iv(n.a), self.iv(n.b));
                if p.hi as u128 + q.hi as u128 <= mask64(w) as u128 {
                    return 0;
                }
            }
            let o = self.n[y as usize];
            if n.op == Concat && o.op == Concat && n.b == o.b {
                return self.ult(n.a, o.a);
            }
            let (a, b) = (self.iv(x), self.iv(y));
            if a.hi < b.lo {
                return 1;
            }
            if a.lo >= b.hi {
                return 0;
            }
            let nb = (64 - (a.hi | b.hi).leading_zeros()).max(1);
            if nb < w {
                let p = self.extract(x, 0, nb);
                let q = self.extract(y, 0, nb);
                return self.ult(p, q);
            }
        }
        if let Some(c) = self.val(y) {
            if c == 1 {
                let z = self.cst(w, 0);
                return self.eq(x, z);
            }
            if c.is_power_of_two() {
                let k = c.trailing_zeros();
                let h = self.extract(x, k, w - k);
                let z = self.cst(w - k, 0);
                return self.eq(h, z);
            }
        }
        if let Some(c) = self.val(x) {
            if c == 0 {
                let z = self.cst(w, 0);
                let e = self.eq(y, z);
                return self.not(e);
            }
            if (c + 1).is_power_of_two() {
                let k = (c + 1).trailing_zeros();
                if k < w {
                    let h = self.extract(y, k, w - k);
                    let z = self.cst(w - k, 0);
                    let e = self.eq(h, z);
                    return self.not(e);
                }
            }
        }
        self.raw(Ult, 1, x, y, 0)
    }
    pub fn slt(&mut self, x: T, y: T) -> T {
        if x == y {
            return 0;
        }
        let w = self.w(x);
        if let (Some(a), Some(b)) = (self.val(x), self.val(y)) {
            return (sx128(a, w) < sx128(b, w)) as u32;
        }
        if w <= 64 {
            let (a, b) = (self.iv(x), self.iv(y));
            if a.shi < b.slo {
                return 1;
            }
            if a.slo >= b.shi {
                return 0;
            }
            if a.slo >= 0 && b.slo >= 0 {
                return self.ult(x, y);
            }
        }
        if self.val(y) == Some(0) {
            return self.extract(x, w - 1, 1);
        }
        if self.val(x) == Some(mask128(w)) {
            let s = self.extract(y, w - 1, 1);
            return self.not(s);
        }
        self.raw(Slt, 1, x, y, 0)
    }
    pub fn ite(&mut self, c: T, x: T, y: T) -> T {
        if let Some(v) = self.val(c) {
            return if v == 1 { x } else { y };
        }
        if x == y {
            return x;
        }
        let w = self.w(x);
        let nc = self.n[c as usize];
        if nc.op == Xor && nc.b == 1 {
            return self.ite(nc.a, y, x);
        }
        if w == 1 {
            if x == c {
                return self.ite(c, 1, y);
            }
            if y == c {
                return self.ite(c, x, 0);
            }
            match (self.val(x), self.val(y)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Or, c, y),
                (_, Some(0)) => return self.bin(And, c, x),
                (Some(0), _) => {
                    let k = self.not(c);
                    return self.bin(And, k, y);
                }
                (_, Some(1)) => {
                    let k = self.not(c);
                    return self.bin(Or, k, x);
                }
                _ => {}
            }
        }
        let nx = self.n[x as usize];
        let ny = self.n[y as usize];
        if nx.op == Ite && nx.a == c {
            return self.ite(c, nx.b, y);
        }
        if ny.op == Ite && ny.a == c {
            return self.ite(c, x, ny.c);
        }
        // zero-extended alternatives: choose on the narrow part
        let wx = match nx.op {
            ZExt => self.w(nx.a),
            Const if w <= 64 => (128 - self.val(x).unwrap().leading_zeros()).max(1),
            _ => w,
        };
        let wy = match ny.op {
            ZExt => self.w(ny.a),
            Const if w <= 64 => (128 - self.val(y).unwrap().leading_zeros()).max(1),
            _ => w,
        };
        let k = wx.max(wy);
        if k < w {
            let a = self.extract(x, 0, k);
            let b = self.extract(y, 0, k);
            let r = self.ite(c, a, b);
            return self.zext(r, w);
        }
        // sign-extended bits
        if w > 1 && self.val(x) == Some(mask128(w)) && self.val(y) == Some(0) {
            return self.sext(c, w);
        }
        if w > 1 && self.val(x) == Some(0) && self.val(y) == Some(mask128(w)) {
            let k = self.not(c);
            return self.sext(k, w);
        }
        self.raw(Ite, w, c, x, y)
    }
    pub fn show(&self, x: T, depth: u32) -> String {
        let n = self.n[x as usize];
        let iv = if n.w <= 64 { self.iv(x) } else { Terms::full(1) };
        let r = format!("[{}..{}/{:x}]", iv.lo, iv.hi, iv.ls);
        if let Some(v) = self.val(x) {
            return format!("{}:{}", v, n.w);
        }
        if depth == 0 || self.nargs(n.op) == 0 {
            return format!("{:?}{}:{}{}", n.op, x, n.w, r);
        }
        let mut a = vec![self.show(n.a, depth - 1)];
        if self.nargs(n.op) > 1 {
            a.push(self.show(n.b, depth - 1));
        } else if n.op == Extract {
            a.push(format!("@{}", n.b));
        }
        if self.nargs(n.op) > 2 {
            a.push(self.show(n.c, depth - 1));
        }
        format!("{:?}:{}{}({})", n.op, n.w, r, a.join(", "))
    }
    pub fn stats(&self) -> String {
        format!(
            "terms={} cuts={} targets={} cand={} matched={}",
            self.n.len(),
            self.cut_of.len(),
            self.tnext.len(),
            self.stat_cand,
            self.stat_match
        )
    }
}
