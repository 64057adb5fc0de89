//! Symbolic interpreter for the decoded IR.

use crate::ir::*;
use crate::smt::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    C(u64),
    N(T),
    U,
}

const SYMB: u64 = 1 << 62;
const UNINIT: u64 = 1 << 63;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Const,
    Mut,
    Mem,
}
struct Obj {
    cells: Vec<u64>,
    kind: Kind,
    live: bool,
    name: u32, // global number for globals
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: &'static str,
    pub site: String,
    pub term: Option<T>,
    pub pc: Vec<T>,
    pub detail: String,
    pub verdict: &'static str,
    pub phase: u32,
    pub model: Vec<(T, u128)>,
}

#[derive(Debug)]
pub enum Stop {
    Panic(String),
    Error(String),
    Assume,
}
type R<X> = Result<X, Stop>;

fn err<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Error(s.into()))
}

enum Exit {
    Ret(Vec<V>),
    Reach(u32),
}

pub struct Assertion {
    pub label: u32,
    pub index: usize,
    pub verdict: &'static str,
    pub a: Option<T>,
    pub b: Option<T>,
    pub model: Vec<(T, u128)>,
}

pub struct Eng<'m> {
    pub m: &'m Module,
    pub t: Terms,
    pub s: Rc<RefCell<Solver>>,
    objs: Vec<Obj>,
    gaddr: Vec<u64>,
    pub phase: u32,
    pub events: Vec<Event>,
    pub asserts: Vec<Assertion>,
    pub proved_label: BTreeMap<u32, u64>,
    pub proved_bytes: u64,
    pub proved_struct: u64,
    pub inputs: BTreeMap<u32, Vec<T>>, // symbolic buffers
    pub input_name: FxMap<T, (u32, u32)>,
    pub preset: HashMap<u32, Vec<Option<u8>>>,
    pub outputs: BTreeMap<u32, Vec<u8>>,
    log: Option<Vec<(u32, u32, u64)>>,
    pub pc: Vec<T>,
    pub steps: u64,
    pub depth: u32,
    pub seen: HashSet<(u32, u32, u32, u8)>,
    pub funcs_run: HashSet<u32>,
    pub branch_sym: u64,
    ticks: u64,
    pub ct: bool,
    pub verbose: bool,
    pub panic_checks: u64,
    given_up: u32,
    pub panic_decided: u64,
    pub cuts_on: bool,
    pub out_terms: BTreeMap<u32, Vec<T>>,
    /// no comparison on the way: one question at the end
    pub search: bool,
    pub pairs: Vec<(T, T)>,
    pub conds: Vec<T>,
    /// applications of SHA-3 or AES to known arguments
    pub known: Vec<(u32, Vec<T>, Vec<T>)>,
    pub limit: Option<std::time::Instant>,
}

fn nbytes(w: u32) -> u32 {
    (w + 7) / 8
}

impl<'m> Eng<'m> {
    pub fn new(m: &'m Module, s: Rc<RefCell<Solver>>, seed: u64) -> Eng<'m> {
        let mut e = Eng {
            m,
            t: Terms::new(seed),
            s,
            objs: vec![],
            gaddr: vec![],
            phase: 2,
            events: vec![],
            asserts: vec![],
            proved_label: Default::default(),
            proved_bytes: 0,
            proved_struct: 0,
            inputs: Default::default(),
            input_name: Default::default(),
            preset: Default::default(),
            outputs: Default::default(),
            log: None,
            pc: vec![],
            steps: 0,
            depth: 0,
            seen: Default::default(),
            funcs_run: Default::default(),
            branch_sym: 0,
            ticks: 0,
            ct: false,
            verbose: false,
            panic_checks: 0,
            given_up: 0,
            panic_decided: 0,
            cuts_on: true,
            out_terms: Default::default(),
            search: false,
            pairs: vec![],
            conds: vec![],
            known: vec![],
            limit: None,
        };
        for (i, g) in m.globals.iter().enumerate() {
            let cells = g.bytes.iter().map(|b| *b as u64).collect();
            let kind = if g.constant && !g.external { Kind::Const } else { Kind::Mut };
            e.objs.push(Obj { cells, kind, live: true, name: i as u32 });
            e.gaddr.push((i as u64 + 1) << 32);
        }
        for (i, g) in m.globals.iter().enumerate() {
            for (off, name, add) in &g.relocs {
                let a = if let Some(&k) = m.gidx.get(name) {
                    e.gaddr[k as usize].wrapping_add(*add as u64)
                } else if let Some(&k) = m.fidx.get(name) {
                    0xF000_0000_0000_0000 | k as u64
                } else {
                    0xF100_0000_0000_0000 | m.eidx.get(name).copied().unwrap_or(0) as u64
                };
                for b in 0..8 {
                    e.objs[i].cells[off + b] = (a >> (8 * b)) & 255;
                }
            }
        }
        for o in e.objs.iter_mut() {
            if o.kind == Kind::Mut {
                for c in o.cells.iter_mut() {
                    *c = UNINIT;
                }
            }
        }
        e
    }

    /// is the code under test running?
    fn real(&self) -> bool {
        self.phase == 1 || self.phase == 3
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, n: usize) -> u64 {
        self.objs.push(Obj { cells: vec![UNINIT; n], kind: Kind::Mem, live: true, name: 0 });
        (self.objs.len() as u64) << 32
    }
    fn place(&self, a: u64, n: u32) -> R<(usize, usize)> {
        let o = (a >> 32) as usize;
        let off = (a & 0xffff_ffff) as usize;
        if o == 0 || o > self.objs.len() {
            if n == 0 {
                return Ok((usize::MAX, 0));
            }
            return err(format!("wild pointer {:x}", a));
        }
        let ob = &self.objs[o - 1];
        if !ob.live && n > 0 {
            return err("use after free");
        }
        if off + n as usize > ob.cells.len() {
            if n == 0 {
                return Ok((o - 1, 0));
            }
            return err(format!("out of bounds access at {}+{} of {}", off, n, ob.cells.len()));
        }
        Ok((o - 1, off))
    }
    #[inline]
    fn put(&mut self, o: usize, i: usize, c: u64) {
        if let Some(l) = self.log.as_mut() {
            l.push((o as u32, i as u32, self.objs[o].cells[i]));
        }
        self.objs[o].cells[i] = c;
    }
    fn byte(&mut self, o: usize, i: usize) -> V {
        let c = self.objs[o].cells[i];
        if c < 256 {
            return V::C(c);
        }
        if c & UNINIT != 0 {
            // unwritten memory or mutable state: any value
            let f = self.t.free(8);
            if self.objs[o].kind == Kind::Mut && self.real() {
                let n = self.m.globals[self.objs[o].name as usize].name.clone();
                self.event("hidden-state", n, None, "reads mutable global");
            }
            self.objs[o].cells[i] = SYMB | (f as u64) << 8;
            return V::N(f);
        }
        let n = (c >> 8) as u32;
        let k = (c & 255) as u32;
        let w = self.t.w(n);
        let t = if 8 * k + 8 <= w {
            self.t.extract(n, 8 * k, 8)
        } else if 8 * k < w {
            let e = self.t.extract(n, 8 * k, w - 8 * k);
            self.t.zext(e, 8)
        } else {
            self.t.cst(8, 0)
        };
        self.norm(t)
    }
    fn norm(&self, t: T) -> V {
        match self.t.val(t) {
            Some(v) if self.t.w(t) <= 64 => V::C(v as u64),
            _ => V::N(t),
        }
    }
    fn tm(&mut self, v: V, w: u32) -> T {
        match v {
            V::C(c) => self.t.cst(w, c as u128),
            V::N(t) => {
                debug_assert_eq!(self.t.w(t), w);
                t
            }
            V::U => self.t.cst(w, 0),
        }
    }
    fn load(&mut self, a: u64, w: u32) -> R<V> {
        let nb = nbytes(w);
        let (o, i) = self.place(a, nb)?;
        let cells = &self.objs[o].cells[i..i + nb as usize];
        let c0 = cells[0];
        if c0 < 256 {
            let mut v: u64 = 0;
            let mut ok = nb <= 8;
            for (k, c) in cells.iter().enumerate() {
                if *c >= 256 {
                    ok = false;
                    break;
                }
                if k < 8 {
                    v |= c << (8 * k);
                }
            }
            if ok {
                return Ok(V::C(v & mask64(w)));
            }
        } else if c0 & SYMB != 0 {
            let n = (c0 >> 8) as u32;
            if c0 & 255 == 0 && self.t.w(n) <= 8 * nb {
                let mut ok = true;
                for (k, c) in cells.iter().enumerate() {
                    if *c != c0 + k as u64 {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    let wn = self.t.w(n);
                    return Ok(if wn == w {
                        V::N(n)
                    } else if wn < w {
                        V::N(self.t.zext(n, w))
                    } else {
                        let x = self.t.extract(n, 0, w);
                        self.norm(x)
                    });
                }
            }
        } else if self.objs[o].kind == Kind::Mem && cells.iter().all(|c| *c == UNINIT) {
            return Ok(V::U);
        }
        let mut acc: Option<T> = None;
        for k in 0..nb as usize {
            let b = self.byte(o, i + k);
            let b = self.tm(b, 8);
            acc = Some(match acc {
                None => b,
                Some(l) => self.t.concat(b, l),
            });
        }
        let x = acc.unwrap();
        let x = self.t.extract(x, 0, w);
        Ok(self.norm(x))
    }
    fn store(&mut self, a: u64, w: u32, v: V) -> R<()> {
        let nb = nbytes(w);
        let (o, i) = self.place(a, nb)?;
        if self.objs[o].kind == Kind::Const {
            return err("write to constant");
        }
        if self.objs[o].kind == Kind::Mut && self.real() {
            let n = self.m.globals[self.objs[o].name as usize].name.clone();
            self.event("hidden-state", n, None, "writes mutable global");
        }
        match v {
            V::C(c) => {
                for k in 0..nb as usize {
                    let b = if k < 8 { (c >> (8 * k)) & 255 } else { 0 };
                    self.put(o, i + k, b);
                }
            }
            V::N(t) => {
                let t = if self.phase == 3 && w <= 32 { self.name(t) } else { t };
                if self.t.matching && w > 64 && w % 8 == 0 {
                    // each byte may be one the reference has a name for
                    for k in 0..nb as usize {
                        let b = self.t.extract(t, 8 * k as u32, 8);
                        match self.norm(b) {
                            V::C(c) => self.put(o, i + k, c),
                            V::N(b) => self.put(o, i + k, SYMB | (b as u64) << 8),
                            V::U => {}
                        }
                    }
                    return Ok(());
                }
                for k in 0..nb as usize {
                    self.put(o, i + k, SYMB | (t as u64) << 8 | k as u64);
                }
            }
            V::U => {
                for k in 0..nb as usize {
                    self.put(o, i + k, UNINIT);
                }
            }
        }
        Ok(())
    }
    /// A stored value gets a name of its own, so that later questions see it as
    /// an unknown within its bounds; definitions are put back on demand.
    fn name(&mut self, t: T) -> T {
        if self.t.op(t) == Op::ZExt {
            let w = self.t.w(t);
            let c = self.name(self.t.n[t as usize].a);
            return self.t.zext(c, w);
        }
        if !self.t.nameable(t) {
            return match self.t.cut_of.get(&t) {
                Some(&c) => {
                    let w = self.t.w(t);
                    self.t.zext(c, w)
                }
                None => t,
            };
        }
        let iv = self.t.iv(t);
        let w = self.t.w(t);
        let mut hi = iv.hi;
        let top = self.t.lanes(t).iter().copied().max().unwrap_or(0) as u64;
        for b in [2, (1u64 << self.t.modw) - 1] {
            if top <= b && b < hi {
                let c = self.t.cst(w, b as u128);
                let q = self.t.ult(c, t);
                let s = self.s.clone();
                let mut s = s.borrow_mut();
                if s.can_be_true_refine(&self.t, q, 1, 200) == Res::Unsat {
                    hi = b;
                    break;
                }
            }
        }
        self.t.name(t, hi)
    }
    fn name_operand(&mut self, t: T) -> T {
        match self.t.op(t) {
            Op::Xor | Op::And | Op::Or | Op::Ite if self.t.iv(t).hi > 255 => self.name(t),
            _ => t,
        }
    }
    /// long sums get a name before anything but arithmetic is done with them
    fn name_sum(&mut self, t: T) -> T {
        let mut x = t;
        for _ in 0..40 {
            let n = self.t.n[x as usize];
            if n.op != Op::Add {
                return t;
            }
            x = if self.t.op(n.b) == Op::Add { n.b } else { n.a };
        }
        self.name(t)
    }
    fn copy(&mut self, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, si) = self.place(src, n as u32)?;
        let (d, di) = self.place(dst, n as u32)?;
        if self.objs[so].kind == Kind::Mut {
            for k in 0..n {
                self.byte(so, si + k);
            }
        }
        let tmp: Vec<u64> = self.objs[so].cells[si..si + n].to_vec();
        if self.log.is_some() {
            for (k, c) in tmp.into_iter().enumerate() {
                self.put(d, di + k, c);
            }
        } else {
            self.objs[d].cells[di..di + n].copy_from_slice(&tmp);
        }
        Ok(())
    }
    fn bytes(&mut self, a: u64, n: usize) -> R<Vec<T>> {
        let (o, i) = self.place(a, n as u32)?;
        let mut r = Vec::with_capacity(n);
        for k in 0..n {
            let b = self.byte(o, i + k);
            r.push(self.tm(b, 8));
        }
        Ok(r)
    }
    fn put_bytes(&mut self, a: u64, b: &[T]) -> R<()> {
        for (k, t) in b.iter().enumerate() {
            let v = self.norm(*t);
            self.store(a + k as u64, 8, v)?;
        }
        Ok(())
    }

    pub fn event(&mut self, kind: &'static str, site: String, term: Option<T>, detail: &str) {
        if self.events.len() < 400 {
            let (pc, phase) = (self.pc.clone(), self.phase);
            self.events.push(Event {
                kind,
                site,
                term,
                pc,
                detail: detail.to_string(),
                verdict: "",
                phase,
                model: vec![],
            });
        }
    }

    // ------------------------------------------------------------ scalars
    #[inline]
    fn opd(&mut self, fr: &[V], o: Opd) -> V {
        match o {
            Opd::S(s) => fr[s as usize],
            Opd::C(c) => V::C(c),
            Opd::G(g, off) => V::C(self.gaddr[g as usize].wrapping_add(off as u64)),
            Opd::F(f) => V::C(if f & 0x8000_0000 != 0 {
                0xF100_0000_0000_0000 | (f & 0x7fff_ffff) as u64
            } else {
                0xF000_0000_0000_0000 | f as u64
            }),
            Opd::K(k) => {
                let (w, v) = self.m.wide[k as usize];
                V::N(self.t.cst(w, v))
            }
            Opd::U => V::U,
        }
    }
    fn addr(&mut self, v: V) -> R<u64> {
        match v {
            V::C(c) => Ok(c),
            V::N(_) => err("symbolic address in unsupported place"),
            V::U => err("undefined address"),
        }
    }

    fn bin_c(op: BinOp, w: u32, x: u64, y: u64) -> Option<u64> {
        let m = mask64(w);
        let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
        Some(match op {
            BinOp::Add => x.wrapping_add(y) & m,
            BinOp::Sub => x.wrapping_sub(y) & m,
            BinOp::Mul => x.wrapping_mul(y) & m,
            BinOp::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            BinOp::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            BinOp::SDiv => {
                if y == 0 {
                    return None;
                }
                sx(x).wrapping_div(sx(y)) as u64 & m
            }
            BinOp::SRem => {
                if y == 0 {
                    return None;
                }
                sx(x).wrapping_rem(sx(y)) as u64 & m
            }
            BinOp::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    (x << y) & m
                }
            }
            BinOp::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            BinOp::AShr => (sx(x) >> y.min(w as u64 - 1)) as u64 & m,
            BinOp::And => x & y,
            BinOp::Or => x | y,
            BinOp::Xor => x ^ y,
        })
    }
    fn bin(&mut self, op: BinOp, w: u32, x: V, y: V) -> R<V> {
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 {
                return match Self::bin_c(op, w, a, b) {
                    Some(r) => Ok(V::C(r)),
                    None => err("division by zero"),
                };
            }
        }
        if let (V::U, V::U) = (x, y) {
            return Ok(V::U);
        }
        let mut a = self.tm(x, w);
        let mut b = self.tm(y, w);
        if self.phase == 3 && w <= 32 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul) {
            a = self.name_operand(a);
            b = self.name_operand(b);
        } else if self.phase == 3 && w <= 64 && matches!(op, BinOp::LShr | BinOp::AShr) {
            a = self.name_sum(a);
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
        };
        let r = self.t.bin(o, a, b);
        Ok(self.norm(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, x: V, y: V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 {
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                return V::C(match p {
                    Pred::Eq => a == b,
                    Pred::Ne => a != b,
                    Pred::Ult => a < b,
                    Pred::Ule => a <= b,
                    Pred::Ugt => a > b,
                    Pred::Uge => a >= b,
                    Pred::Slt => sx(a) < sx(b),
                    Pred::Sle => sx(a) <= sx(b),
                    Pred::Sgt => sx(a) > sx(b),
                    Pred::Sge => sx(a) >= sx(b),
                } as u64);
            }
        }
        let mut a = self.tm(x, w);
        let b = self.tm(y, w);
        if self.phase == 3 && w <= 64 && matches!(p, Pred::Slt | Pred::Sgt) {
            if let V::C(_) = y {
                a = self.name_sum(a);
            }
        }
        let t = &mut self.t;
        let r = match p {
            Pred::Eq => t.eq_sorted(a, b),
            Pred::Ne => {
                let e = t.eq_sorted(a, b);
                t.not(e)
            }
            Pred::Ult => t.ult(a, b),
            Pred::Ugt => t.ult(b, a),
            Pred::Ule => {
                let e = t.ult(b, a);
                t.not(e)
            }
            Pred::Uge => {
                let e = t.ult(a, b);
                t.not(e)
            }
            Pred::Slt => t.slt(a, b),
            Pred::Sgt => t.slt(b, a),
            Pred::Sle => {
                let e = t.slt(b, a);
                t.not(e)
            }
            Pred::Sge => {
                let e = t.slt(a, b);
                t.not(e)
            }
        };
        self.norm(r)
    }
    fn cast(&mut self, op: CastOp, f: u32, to: u32, x: V) -> V {
        match x {
            V::U => V::U,
            V::C(c) if to <= 64 => match op {
                CastOp::Trunc => V::C(c & mask64(to)),
                CastOp::SExt => V::C((((c << (64 - f)) as i64) >> (64 - f)) as u64 & mask64(to)),
                _ => V::C(c),
            },
            _ => {
                let a = self.tm(x, f);
                let r = match op {
                    CastOp::Trunc => self.t.extract(a, 0, to),
                    CastOp::ZExt => self.t.zext(a, to),
                    CastOp::SExt => self.t.sext(a, to),
                    CastOp::Copy => a,
                };
                self.norm(r)
            }
        }
    }
    fn ite_v(&mut self, c: T, w: u32, a: V, b: V) -> V {
        if a == b {
            return a;
        }
        if a == V::U {
            return b;
        }
        if b == V::U {
            return a;
        }
        let x = self.tm(a, w);
        let y = self.tm(b, w);
        let r = self.t.ite(c, x, y);
        self.norm(r)
    }

    fn site(&self, f: u32, b: u32, k: usize) -> String {
        let fun = &self.m.funcs[f as usize];
        format!("{}:{}:{}", fun.name, fun.blocks[b as usize].name, k)
    }

    /// is `cond` satisfiable together with the current path condition?
    fn feasible(&mut self, cond: T, quick: bool) -> Res {
        let mut c = cond;
        for i in 0..self.pc.len() {
            let p = self.pc[i];
            c = self.t.bin(Op::And, p, c);
        }
        if quick && self.t.val(c).is_none() {
            // some random assignment of the leaves reaches it
            let l = self.t.lanes(c);
            if l.iter().any(|x| *x == 1) {
                return Res::Sat;
            }
        }
        let s = self.s.clone();
        let mut s = s.borrow_mut();
        s.last_model.clear();
        s.can_be_true_refine(&self.t, c, 5, 4000)
    }

    // ------------------------------------------------------------ running
    pub fn call(&mut self, f: u32, args: Vec<V>) -> R<Vec<V>> {
        self.depth += 1;
        if self.depth > 2000 {
            return err("call depth");
        }
        self.funcs_run.insert(f);
        let m = self.m;
        let fun = &m.funcs[f as usize];
        let mut fr = vec![V::U; fun.nslots as usize];
        fr[..args.len()].copy_from_slice(&args);
        let first = self.objs.len();
        let mut cleanup = vec![];
        let r = self.run(f, &mut fr, 0, None, &mut cleanup);
        let _ = first;
        for o in cleanup {
            // keep cells when a log could still refer to them
            if self.log.is_none() {
                self.objs[o as usize].cells = vec![];
            }
            self.objs[o as usize].live = false;
        }
        self.depth -= 1;
        match r? {
            Exit::Ret(v) => Ok(v),
            Exit::Reach(_) => err("internal: reach"),
        }
    }

    fn edge(&mut self, f: u32, e: u32, fr: &mut [V]) -> u32 {
        let m = self.m;
        let ed = &m.funcs[f as usize].edges[e as usize];
        match ed.copies.len() {
            0 => {}
            1 => {
                let v = self.opd(fr, ed.copies[0].1);
                fr[ed.copies[0].0 as usize] = v;
            }
            _ => {
                let mut tmp: [V; 16] = [V::U; 16];
                if ed.copies.len() <= 16 {
                    for (i, c) in ed.copies.iter().enumerate() {
                        tmp[i] = self.opd(fr, c.1);
                    }
                    for (i, c) in ed.copies.iter().enumerate() {
                        fr[c.0 as usize] = tmp[i];
                    }
                } else {
                    let vals: Vec<V> = ed.copies.iter().map(|c| self.opd(fr, c.1)).collect();
                    for (i, c) in ed.copies.iter().enumerate() {
                        fr[c.0 as usize] = vals[i];
                    }
                }
            }
        }
        ed.to
    }

    fn run(
        &mut self,
        f: u32,
        fr: &mut Vec<V>,
        mut bb: u32,
        stop: Option<u32>,
        cleanup: &mut Vec<u32>,
    ) -> R<Exit> {
        let m = self.m;
        let fun = &m.funcs[f as usize];
        let mut first = true;
        loop {
            if !first && stop == Some(bb) {
                return Ok(Exit::Reach(bb));
            }
            first = false;
            let block = &fun.blocks[bb as usize];
            let mut next = u32::MAX;
            self.steps += block.insts.len() as u64;
            if self.steps >> 16 != self.ticks {
                self.ticks = self.steps >> 16;
                if self.limit.is_some_and(|l| std::time::Instant::now() > l) {
                    return err("time limit");
                }
            }
            for (k, ins) in block.insts.iter().enumerate() {
                match ins {
                    Inst::Bin(op, w, d, a, b) => {
                        let x = self.opd(fr, *a);
                        let y = self.opd(fr, *b);
                        if self.ct
                            && self.real()
                            && matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem)
                        {
                            if let V::N(t) = y {
                                self.ct_event("division", f, bb, k, t);
                            }
                        }
                        fr[*d as usize] = self.bin(*op, *w, x, y)?;
                    }
                    Inst::Icmp(p, w, d, a, b) => {
                        let x = self.opd(fr, *a);
                        let y = self.opd(fr, *b);
                        fr[*d as usize] = self.icmp(*p, *w, x, y);
                    }
                    Inst::Cast(op, from, to, d, a) => {
                        let mut x = self.opd(fr, *a);
                        if self.phase == 3 && *from <= 32 {
                            if let V::N(t) = x {
                                x = V::N(self.name_operand(t));
                            }
                        }
                        fr[*d as usize] = self.cast(*op, *from, *to, x);
                    }
                    Inst::Copy(d, a, _) => {
                        fr[*d as usize] = self.opd(fr, *a);
                    }
                    Inst::Select(w, d, c, a, b) => {
                        let cv = self.opd(fr, *c);
                        let x = self.opd(fr, *a);
                        let y = self.opd(fr, *b);
                        fr[*d as usize] = match cv {
                            V::C(1) => x,
                            V::C(_) => y,
                            V::U => y,
                            V::N(t) => self.ite_v(t, *w, x, y),
                        };
                    }
                    Inst::Gep(d, base, off, idx) => {
                        let b = self.opd(fr, *base);
                        let mut acc = match b {
                            V::C(a) => V::C(a.wrapping_add(*off as u64)),
                            V::U => V::U,
                            V::N(_) => self.bin(BinOp::Add, 64, b, V::C(*off as u64))?,
                        };
                        for (o, w, sc) in idx.iter() {
                            let i = self.opd(fr, *o);
                            let i = self.cast(CastOp::SExt, *w, 64, i);
                            acc = match (acc, i) {
                                (V::C(a), V::C(c)) => V::C(a.wrapping_add(c.wrapping_mul(*sc as u64))),
                                (V::U, _) | (_, V::U) => V::U,
                                _ => {
                                    let p = self.bin(BinOp::Mul, 64, i, V::C(*sc as u64))?;
                                    self.bin(BinOp::Add, 64, acc, p)?
                                }
                            };
                        }
                        fr[*d as usize] = acc;
                    }
                    Inst::Load(p, d, fl) => {
                        let pv = self.opd(fr, *p);
                        match pv {
                            V::C(a) => {
                                for (i, (o, w)) in fl.iter().enumerate() {
                                    fr[*d as usize + i] = self.load(a + *o as u64, *w)?;
                                }
                            }
                            V::N(t) => {
                                self.ct_event("address", f, bb, k, t);
                                for (i, (o, w)) in fl.iter().enumerate() {
                                    fr[*d as usize + i] = self.load_sym(t, *o as u64, *w)?;
                                }
                            }
                            V::U => return err("load from undefined address"),
                        }
                    }
                    Inst::Store(p, fl) => {
                        let pv = self.opd(fr, *p);
                        match pv {
                            V::C(a) => {
                                for (o, w, val) in fl.iter() {
                                    let v = self.opd(fr, *val);
                                    self.store(a + *o as u64, *w, v)?;
                                }
                            }
                            V::N(t) => {
                                self.ct_event("address", f, bb, k, t);
                                for (o, w, val) in fl.iter() {
                                    let v = self.opd(fr, *val);
                                    self.store_sym(t, *o as u64, *w, v)?;
                                }
                            }
                            V::U => return err("store to undefined address"),
                        }
                    }
                    Inst::Alloca(d, n) => {
                        let a = self.alloc(*n as usize);
                        cleanup.push((a >> 32) as u32 - 1);
                        fr[*d as usize] = V::C(a);
                    }
                    Inst::Call(c, args, d, rw) => {
                        let mut av: Vec<V> = Vec::with_capacity(args.len());
                        for a in args.iter() {
                            av.push(self.opd(fr, a.0));
                        }
                        let r = match c {
                            Callee::Fn(g) => self.call(*g, av)?,
                            Callee::Ext(e) => self.external(*e, &av, args, rw, f, bb, k)?,
                            Callee::Ind(o) => {
                                let p = self.opd(fr, *o);
                                match p {
                                    V::C(a) if a >> 56 == 0xF0 => {
                                        self.call((a & 0xffff_ffff) as u32, av)?
                                    }
                                    V::C(a) if a >> 56 == 0xF1 => {
                                        self.external((a & 0xffff_ffff) as u32, &av, args, rw, f, bb, k)?
                                    }
                                    _ => return err("indirect call to unknown target"),
                                }
                            }
                        };
                        for (i, v) in r.into_iter().enumerate() {
                            fr[*d as usize + i] = v;
                        }
                    }
                    Inst::Br(e) => {
                        next = self.edge(f, *e, fr);
                    }
                    Inst::CondBr(c, x, y) => match self.opd(fr, *c) {
                        V::C(1) => next = self.edge(f, *x, fr),
                        V::C(_) => next = self.edge(f, *y, fr),
                        V::U => return err("branch on undefined value"),
                        V::N(t) => {
                            let edges = [(Some(t), *x), (None, *y)];
                            match self.fork(f, fr, bb, k, t, &edges, stop, cleanup)? {
                                Exit::Reach(b) => next = b,
                                r => return Ok(r),
                            }
                        }
                    },
                    Inst::Switch(v, w, d, cases) => match self.opd(fr, *v) {
                        V::C(c) => {
                            let e = cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*d);
                            next = self.edge(f, e, fr);
                        }
                        V::U => return err("switch on undefined value"),
                        V::N(t) => {
                            let mut edges = vec![];
                            for (c, e) in cases.iter() {
                                let kc = self.t.cst(*w, *c as u128);
                                let q = self.t.eq_sorted(t, kc);
                                if self.t.val(q) == Some(0) {
                                    continue;
                                }
                                edges.push((Some(q), *e));
                            }
                            edges.push((None, *d));
                            match self.fork(f, fr, bb, k, t, &edges, stop, cleanup)? {
                                Exit::Reach(b) => next = b,
                                r => return Ok(r),
                            }
                        }
                    },
                    Inst::Ret(v) => {
                        let mut r = Vec::with_capacity(v.len());
                        for x in v.iter() {
                            r.push(self.opd(fr, x.0));
                        }
                        return Ok(Exit::Ret(r));
                    }
                    Inst::Unreachable => {
                        return Err(Stop::Panic(format!("unreachable at {}", self.site(f, bb, k))));
                    }
                }
            }
            bb = next;
        }
    }

    fn ct_event(&mut self, kind: &'static str, f: u32, bb: u32, k: usize, t: T) {
        if self.real() {
            let tag = kind.as_bytes()[0];
            if self.seen.insert((f, bb, k as u32, tag)) {
                let s = self.site(f, bb, k);
                self.event(kind, s, Some(t), "");
            }
        }
    }

    /// A branch on a symbolic value.  `edges`: (condition, edge) tried in order,
    /// the last one without condition.
    fn fork(
        &mut self,
        f: u32,
        fr: &mut Vec<V>,
        bb: u32,
        k: usize,
        cond: T,
        edges: &[(Option<T>, u32)],
        stop: Option<u32>,
        cleanup: &mut Vec<u32>,
    ) -> R<Exit> {
        let m = self.m;
        let fun = &m.funcs[f as usize];
        // effective conditions
        let mut none = 1u32; // conjunction of negations so far
        let mut alts: Vec<(T, u32)> = vec![];
        for (c, e) in edges {
            let g = match c {
                Some(c) => {
                    let g = self.t.bin(Op::And, none, *c);
                    let n = self.t.not(*c);
                    none = self.t.bin(Op::And, none, n);
                    g
                }
                None => none,
            };
            if self.t.val(g) == Some(0) {
                continue;
            }
            alts.push((g, *e));
        }
        // panic sides
        let mut live: Vec<(T, u32)> = vec![];
        for (g, e) in alts {
            let to = fun.edges[e as usize].to;
            if fun.blocks[to as usize].dead {
                self.panic_checks += 1;
                if self.verbose && self.panic_checks % 100 == 50 {
                    eprintln!("panic? {} {}", self.site(f, bb, k), self.t.show(g, 5));
                }
                match self.feasible(g, false) {
                    Res::Unsat => self.panic_decided += 1,
                    r => {
                        if self.seen.insert((f, bb, k as u32, b'p')) || self.events.len() < 60 {
                            let what = self.describe(f, to);
                            let site = self.site(f, bb, k);
                            let model = self.s.borrow().last_model.clone();
                            self.event("panic", site, Some(g), &what);
                            if let Some(e) = self.events.last_mut() {
                                e.verdict = if r == Res::Sat { "sat" } else { "unknown" };
                                e.model = model;
                            }
                        }
                    }
                }
            } else {
                live.push((g, e));
            }
        }
        if live.is_empty() {
            return Err(Stop::Panic(format!("every continuation of {} panics", self.site(f, bb, k))));
        }
        if live.len() > 1 {
            self.ct_event("branch", f, bb, k, cond);
            self.branch_sym += 1;
            if self.verbose && self.branch_sym < 20 {
                eprintln!("fork at {} {}", self.site(f, bb, k), self.t.show(cond, 3));
            }
            let mut l2 = vec![];
            for (g, e) in live.iter() {
                if self.feasible(*g, true) != Res::Unsat {
                    l2.push((*g, *e));
                }
            }
            if l2.is_empty() {
                return Err(Stop::Assume);
            }
            live = l2;
        }
        if live.len() == 1 {
            let b = self.edge(f, live[0].1, fr);
            return Ok(Exit::Reach(b));
        }
        // explore every side up to the join point and merge
        let join = fun.blocks[bb as usize].ipdom;
        let base = fr.clone();
        let outer = self.log.take();
        let inner = outer.is_some();
        let mut merged: Option<(Vec<V>, HashMap<(u32, u32), u64>, Option<Vec<V>>)> = None;
        let mut rest = live.clone();
        let mut all_writes: Vec<(u32, u32, u64)> = vec![];
        let mut failure: Option<Stop> = None;
        rest.reverse(); // merge from the last alternative backwards
        for (g, e) in rest {
            let mut side = base.clone();
            self.log = Some(vec![]);
            self.pc.push(g);
            let b = self.edge(f, e, &mut side);
            let r = if join == Some(b) {
                Ok(Exit::Reach(b))
            } else {
                self.run_side(f, &mut side, b, join, cleanup)
            };
            self.pc.pop();
            let log = self.log.take().unwrap();
            let mut fin: HashMap<(u32, u32), u64> = HashMap::new();
            for (o, i, _) in log.iter() {
                fin.insert((*o, *i), self.objs[*o as usize].cells[*i as usize]);
            }
            for (o, i, old) in log.iter().rev() {
                self.objs[*o as usize].cells[*i as usize] = *old;
            }
            let first_old: HashMap<(u32, u32), u64> =
                log.iter().rev().map(|(o, i, v)| ((*o, *i), *v)).collect();
            for ((o, i), v) in first_old {
                all_writes.push((o, i, v));
            }
            let ret = match r {
                Ok(Exit::Reach(_)) => None,
                Ok(Exit::Ret(v)) => Some(v),
                Err(Stop::Assume) => continue,
                Err(Stop::Panic(p)) => {
                    // a reachable panic on this side
                    if self.feasible(g, false) == Res::Unsat {
                        continue;
                    }
                    let site = self.site(f, bb, k);
                    self.event("panic", site, Some(g), &p);
                    self.events.last_mut().map(|e| e.verdict = "sat");
                    continue;
                }
                Err(x) => {
                    failure = Some(x);
                    break;
                }
            };
            // what is merged again further out is matched there
            self.t.in_match += inner as u32;
            merged = Some(match merged {
                None => (side, fin, ret),
                Some((fr0, mem0, ret0)) => {
                    let mut fr1 = Vec::with_capacity(fr0.len());
                    for (i, (a, b)) in side.iter().zip(fr0.iter()).enumerate() {
                        fr1.push(if a == b {
                            *a
                        } else {
                            let w = fun.slot_w[i];
                            self.ite_v(g, w, *a, *b)
                        });
                    }
                    let mut mem1: HashMap<(u32, u32), u64> = HashMap::new();
                    let keys: HashSet<(u32, u32)> =
                        fin.keys().chain(mem0.keys()).copied().collect();
                    let mut keys: Vec<_> = keys.into_iter().collect();
                    keys.sort();
                    for kk in keys {
                        let cur = self.objs[kk.0 as usize].cells[kk.1 as usize];
                        let a = *fin.get(&kk).unwrap_or(&cur);
                        let b = *mem0.get(&kk).unwrap_or(&cur);
                        let v = self.merge_cell(g, a, b);
                        mem1.insert(kk, v);
                    }
                    let ret1 = match (ret, ret0) {
                        (Some(a), Some(b)) => {
                            let mut v = vec![];
                            for (x, y) in a.iter().zip(b.iter()) {
                                match self.ret_merge(g, *x, *y) {
                                    Ok(z) => v.push(z),
                                    Err(x) => failure = Some(x),
                                }
                            }
                            Some(v)
                        }
                        (None, None) => None,
                        _ => {
                            failure = Some(Stop::Error("merge of return and join".into()));
                            None
                        }
                    };
                    (fr1, mem1, ret1)
                }
            });
            self.t.in_match -= inner as u32;
        }
        self.log = outer;
        if let Some(x) = failure {
            return Err(x);
        }
        let (fr1, mem, ret) = match merged {
            Some(x) => x,
            None => return Err(Stop::Panic(format!("every continuation of {} panics", self.site(f, bb, k)))),
        };
        for ((o, i), v) in mem {
            self.put(o as usize, i as usize, v);
        }
        *fr = fr1;
        let _ = stop;
        match ret {
            Some(v) => Ok(Exit::Ret(v)),
            None => Ok(Exit::Reach(join.unwrap())),
        }
    }

    fn ret_merge(&mut self, g: T, x: V, y: V) -> R<V> {
        if x == y || y == V::U {
            return Ok(x);
        }
        if x == V::U {
            return Ok(y);
        }
        let w = match (x, y) {
            (V::N(t), _) | (_, V::N(t)) => self.t.w(t),
            _ => 64,
        };
        Ok(self.ite_v(g, w, x, y))
    }

    fn run_side(
        &mut self,
        f: u32,
        fr: &mut Vec<V>,
        bb: u32,
        stop: Option<u32>,
        cleanup: &mut Vec<u32>,
    ) -> R<Exit> {
        // `run` ignores the stop block at its very first step; here the first
        // block is never the stop block
        self.depth += 1;
        if self.depth > 3000 {
            return err("fork depth");
        }
        let r = self.run(f, fr, bb, stop, cleanup);
        self.depth -= 1;
        r
    }

    fn merge_cell(&mut self, g: T, a: u64, b: u64) -> u64 {
        if a == b {
            return a;
        }
        if a & UNINIT != 0 {
            return b;
        }
        if b & UNINIT != 0 {
            return a;
        }
        let x = self.cell_term(a);
        let y = self.cell_term(b);
        // keep multi-byte values together where both sides hold whole values
        if a & SYMB != 0 && b & SYMB != 0 && a & 255 == b & 255 {
            let (na, nb) = ((a >> 8) as u32, (b >> 8) as u32);
            if self.t.w(na) == self.t.w(nb) {
                let r = self.t.ite(g, na, nb);
                if self.t.val(r).is_none() {
                    return SYMB | ((r as u64) << 8) | (a & 255);
                }
            }
        }
        let r = self.t.ite(g, x, y);
        match self.t.val(r) {
            Some(v) => v as u64,
            None => SYMB | (r as u64) << 8,
        }
    }
    fn cell_term(&mut self, c: u64) -> T {
        if c < 256 {
            return self.t.cst(8, c as u128);
        }
        let n = ((c & !SYMB) >> 8) as u32;
        let k = (c & 255) as u32;
        let w = self.t.w(n);
        if 8 * k + 8 <= w {
            self.t.extract(n, 8 * k, 8)
        } else if 8 * k < w {
            let e = self.t.extract(n, 8 * k, w - 8 * k);
            self.t.zext(e, 8)
        } else {
            self.t.cst(8, 0)
        }
    }

    fn describe(&self, f: u32, b: u32) -> String {
        let fun = &self.m.funcs[f as usize];
        let mut b = b;
        for _ in 0..20 {
            for i in &fun.blocks[b as usize].insts {
                if let Inst::Call(Callee::Ext(e), ..) = i {
                    if self.is_panic(*e) {
                        return short(&self.m.exts[*e as usize]);
                    }
                }
                if let Inst::Call(Callee::Fn(g), ..) = i {
                    return short(&self.m.funcs[*g as usize].name);
                }
            }
            match fun.blocks[b as usize].insts.last() {
                Some(Inst::Br(e)) => b = fun.edges[*e as usize].to,
                _ => break,
            }
        }
        "unreachable".into()
    }
    fn is_panic(&self, e: u32) -> bool {
        let n = &self.m.exts[e as usize];
        self.m.noreturn[e as usize] || n.contains("panic") || n.contains("_fail")
    }

    /// a choice between few concrete values
    fn alts(&mut self, t: T) -> Option<Vec<(T, u64)>> {
        if let Some(v) = self.t.val(t) {
            return Some(vec![(1, v as u64)]);
        }
        let n = self.t.n[t as usize];
        match n.op {
            Op::Ite => {
                let mut r = vec![];
                let nc = self.t.not(n.a);
                for (g, v) in self.alts(n.b)? {
                    let h = self.t.bin(Op::And, g, n.a);
                    r.push((h, v));
                }
                for (g, v) in self.alts(n.c)? {
                    let h = self.t.bin(Op::And, g, nc);
                    r.push((h, v));
                }
                if r.len() > 64 {
                    return None;
                }
                Some(r)
            }
            Op::ZExt => self.alts(n.a),
            Op::Add | Op::Concat => {
                let (x, y) = (self.alts(n.a)?, self.alts(n.b)?);
                if x.len() * y.len() > 64 {
                    return None;
                }
                let wb = self.t.w(n.b);
                let m = mask64(n.w as u32);
                let mut r = vec![];
                for (g, v) in &x {
                    for (h, u) in &y {
                        let c = self.t.bin(Op::And, *g, *h);
                        if c == 0 {
                            continue;
                        }
                        let k = if n.op == Op::Add { v.wrapping_add(*u) } else { v << wb | u };
                        r.push((c, k & m));
                    }
                }
                Some(r)
            }
            _ => None,
        }
    }
    /// candidates for a symbolic address, with the condition selecting each
    fn choices(&mut self, a: T, nb: u32) -> R<Vec<(T, u64)>> {
        if let Some(v) = self.alts(a) {
            return Ok(v);
        }
        let mut r = vec![];
        for x in self.targets(a, nb)? {
            let kx = self.t.cst(64, x as u128);
            let q = self.t.eq_sorted(a, kx);
            if q != 0 {
                r.push((q, x));
            }
        }
        Ok(r)
    }
    fn read_any(&mut self, v: V, n: usize) -> R<Vec<V>> {
        match v {
            V::C(a) => {
                let b = self.bytes(a, n)?;
                Ok(b.into_iter().map(|t| self.norm(t)).collect())
            }
            V::N(t) => {
                let mut acc: Vec<V> = vec![V::U; n];
                for (g, a) in self.choices(t, n as u32)?.into_iter().rev() {
                    let b = self.bytes(a, n)?;
                    for i in 0..n {
                        let x = self.norm(b[i]);
                        acc[i] = self.ite_v(g, 8, x, acc[i]);
                    }
                }
                Ok(acc)
            }
            V::U => err("undefined address"),
        }
    }
    /// candidates for a symbolic address
    fn targets(&mut self, t: T, nb: u32) -> R<Vec<u64>> {
        let iv = self.t.iv(t);
        let (o1, o2) = (iv.lo >> 32, iv.hi >> 32);
        if o1 != o2 || o1 == 0 {
            return err("symbolic address not confined to one object");
        }
        let size = self.objs[o1 as usize - 1].cells.len() as u64;
        let lo = iv.lo & 0xffff_ffff;
        let hi = (iv.hi & 0xffff_ffff).min(size.saturating_sub(nb as u64));
        // stride: low bits known zero relative to the base
        let mut stride = 1u64;
        let n = self.t.n[t as usize];
        if n.op == Op::Add {
            if let Some(_) = self.t.val(n.b) {
                stride = 1u64 << self.low_zeros(n.a);
            }
        } else {
            stride = 1u64 << self.low_zeros(t);
        }
        if (hi - lo) / stride > 20_000 {
            return err("symbolic address range too large");
        }
        let mut v = vec![];
        let mut x = lo;
        while x <= hi {
            v.push(o1 << 32 | x);
            x += stride;
        }
        Ok(v)
    }
    fn low_zeros(&self, t: T) -> u32 {
        let n = self.t.n[t as usize];
        match n.op {
            Op::Const => (self.t.val(t).unwrap().trailing_zeros()).min(6),
            Op::Concat => {
                let z = self.low_zeros(n.b);
                if z >= self.t.w(n.b) {
                    (z + self.low_zeros(n.a)).min(6)
                } else {
                    z
                }
            }
            Op::ZExt | Op::SExt => self.low_zeros(n.a),
            Op::Add | Op::Sub => self.low_zeros(n.a).min(self.low_zeros(n.b)),
            Op::Mul => (self.low_zeros(n.a) + self.low_zeros(n.b)).min(6),
            _ => 0,
        }
    }
    fn load_sym(&mut self, t: T, o: u64, w: u32) -> R<V> {
        let k = self.t.cst(64, o as u128);
        let a = self.t.bin(Op::Add, t, k);
        let mut acc = V::U;
        for (q, x) in self.choices(a, nbytes(w))?.into_iter().rev() {
            let v = self.load(x, w)?;
            acc = self.ite_v(q, w, v, acc);
        }
        Ok(acc)
    }
    fn store_sym(&mut self, t: T, o: u64, w: u32, v: V) -> R<()> {
        let k = self.t.cst(64, o as u128);
        let a = self.t.bin(Op::Add, t, k);
        for (q, x) in self.choices(a, nbytes(w))? {
            let old = self.load(x, w)?;
            let nv = self.ite_v(q, w, v, old);
            self.store(x, w, nv)?;
        }
        Ok(())
    }
    fn copy_any(&mut self, d: V, s: V, n: usize, at: (u32, u32, usize)) -> R<()> {
        if let (V::C(d), V::C(s)) = (d, s) {
            return self.copy(d, s, n);
        }
        for v in [d, s] {
            if let V::N(t) = v {
                self.ct_event("address", at.0, at.1, at.2, t);
            }
        }
        let b = self.read_any(s, n)?;
        match d {
            V::C(d) => {
                for i in 0..n {
                    self.store(d + i as u64, 8, b[i])?;
                }
            }
            V::N(t) => {
                for (g, x) in self.choices(t, n as u32)? {
                    for i in 0..n {
                        let old = self.load(x + i as u64, 8)?;
                        let nv = self.ite_v(g, 8, b[i], old);
                        self.store(x + i as u64, 8, nv)?;
                    }
                }
            }
            V::U => return err("undefined address"),
        }
        Ok(())
    }

    // ------------------------------------------------------------ externals
    fn external(
        &mut self,
        e: u32,
        a: &[V],
        args: &[(Opd, u32)],
        rw: &[u32],
        f: u32,
        bb: u32,
        k: usize,
    ) -> R<Vec<V>> {
        let m = self.m;
        let name: &str = &m.exts[e as usize];
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(r, a, args, rw, (f, bb, k));
        }
        match name {
            "vp_symbolic" => {
                let p = self.addr(a[0])?;
                let n = self.addr(a[1])? as usize;
                let id = self.addr(a[2])? as u32;
                self.symbolic(p, n, id)?;
                return Ok(vec![]);
            }
            "vp_phase" => {
                let p = self.addr(a[0])? as u32;
                self.phase = p;
                if p == 1 || p == 3 {
                    // whatever earlier calls left in mutable statics
                    for o in self.objs.iter_mut().filter(|o| o.kind == Kind::Mut) {
                        o.cells.iter_mut().for_each(|c| *c = UNINIT);
                    }
                }
                self.t.matching = p == 1 && self.cuts_on;
                self.t.subst = p != 3;
                if self.verbose {
                    eprintln!("phase {} {}", p, self.t.stats());
                }
                return Ok(vec![]);
            }
            "vp_assert_eq" => {
                let p = self.addr(a[0])?;
                let q = self.addr(a[1])?;
                let n = self.addr(a[2])? as usize;
                let l = self.addr(a[3])? as u32;
                self.assert_eq(p, q, n, l)?;
                return Ok(vec![]);
            }
            "vp_assert" => {
                let l = self.addr(a[1])? as u32;
                self.assert_true(a[0], args[0].1, l)?;
                return Ok(vec![]);
            }
            "vp_assume" => {
                let w = args[0].1;
                match a[0] {
                    V::C(0) => return Err(Stop::Assume),
                    V::N(t) => {
                        let z = self.t.cst(w, 0);
                        let q = self.t.eq_sorted(t, z);
                        let q = self.t.not(q);
                        self.pc.push(q);
                    }
                    _ => {}
                }
                return Ok(vec![]);
            }
            "vp_mark8" | "vp_mark16" | "vp_mark32" => {
                if !self.cuts_on || self.phase != 0 {
                    return Ok(vec![]);
                }
                let w = match name {
                    "vp_mark8" => 8,
                    "vp_mark16" => 16,
                    _ => 32,
                };
                let p = self.addr(a[0])?;
                let n = self.addr(a[1])?;
                for i in 0..n {
                    let at = p + i * (w as u64 / 8);
                    if let V::N(t) = self.load(at, w)? {
                        let c = self.t.cut(t);
                        let v = self.norm(c);
                        self.store(at, w, v)?;
                    }
                }
                return Ok(vec![]);
            }
            "vp_sha3_256" => {
                let out = self.addr(a[0])?;
                let inp = self.addr(a[1])?;
                let n = self.addr(a[2])? as usize;
                self.uf(256, out, 32, &[(inp, n)])?;
                return Ok(vec![]);
            }
            "vp_aes256" => {
                let out = self.addr(a[0])?;
                let key = self.addr(a[1])?;
                let inp = self.addr(a[2])?;
                self.uf(10_256, out, 16, &[(key, 32), (inp, 16)])?;
                return Ok(vec![]);
            }
            "vp_hash" => {
                let alg = self.addr(a[0])? as u32;
                let out = self.addr(a[1])?;
                let ol = self.addr(a[2])? as usize;
                let inp = self.addr(a[3])?;
                let n = self.addr(a[4])? as usize;
                self.uf(alg, out, ol, &[(inp, n)])?;
                return Ok(vec![]);
            }
            "vp_aes" => {
                let bits = self.addr(a[0])? as u32;
                let dir = self.addr(a[1])? as u32;
                let out = self.addr(a[2])?;
                let key = self.addr(a[3])?;
                let inp = self.addr(a[4])?;
                self.uf(10_000 + bits + 1000 * dir, out, 16, &[(key, bits as usize / 8), (inp, 16)])?;
                return Ok(vec![]);
            }
            "vp_output" => {
                // remember the terms of a buffer under a label
                let p = self.addr(a[0])?;
                let n = self.addr(a[1])? as usize;
                let id = self.addr(a[2])? as u32;
                let b = self.bytes(p, n)?;
                self.out_terms.insert(id, b);
                return Ok(vec![]);
            }
            "memcpy" | "memmove" => {
                let n = self.addr(a[2])? as usize;
                self.copy_any(a[0], a[1], n, (f, bb, k))?;
                return Ok(vec![a[0]]);
            }
            "bcmp" | "memcmp" => {
                let n = self.addr(a[2])? as usize;
                let (p, q) = (self.addr(a[0])?, self.addr(a[1])?);
                let x = self.bytes(p, n)?;
                let y = self.bytes(q, n)?;
                if self.real() && x.iter().zip(&y).any(|(s, t)| s != t && (self.t.val(*s).is_none() || self.t.val(*t).is_none())) {
                    // comparison stops at the first difference
                    let mut d = 0u32;
                    for (s, t) in x.iter().zip(&y) {
                        let q = self.t.eq_sorted(*s, *t);
                        let q = self.t.not(q);
                        d = self.t.bin(Op::Or, d, q);
                    }
                    self.ct_event("branch", f, bb, k, d);
                }
                let w = rw[0];
                let mut acc = V::C(0);
                for i in (0..n).rev() {
                    let q = self.t.eq_sorted(x[i], y[i]);
                    let diff = if name == "bcmp" {
                        V::C(1)
                    } else {
                        let u = self.t.ult(x[i], y[i]);
                        match self.norm(u) {
                            V::N(u) => self.ite_v(u, w, V::C(mask64(w)), V::C(1)),
                            V::C(1) => V::C(mask64(w)),
                            _ => V::C(1),
                        }
                    };
                    acc = match self.norm(q) {
                        V::C(1) => acc,
                        V::C(_) => diff,
                        _ => self.ite_v(q, w, acc, diff),
                    };
                }
                return Ok(vec![acc]);
            }
            _ => {}
        }
        if name.contains("__rust_alloc_zeroed") || name.contains("__rust_alloc_zeroed") {
            let n = self.addr(a[0])? as usize;
            let p = self.alloc(n);
            let (o, _) = self.place(p, n as u32)?;
            for c in self.objs[o].cells.iter_mut() {
                *c = 0;
            }
            return Ok(vec![V::C(p)]);
        }
        if name.contains("__rust_realloc") {
            let p = self.addr(a[0])?;
            let old = self.addr(a[1])? as usize;
            let n = self.addr(a[3])? as usize;
            let q = self.alloc(n);
            self.copy(q, p, old.min(n))?;
            return Ok(vec![V::C(q)]);
        }
        if name.contains("no_alloc_shim") {
            return Ok(vec![]);
        }
        if name.contains("__rust_dealloc") {
            return Ok(vec![]);
        }
        if name.contains("__rust_alloc") {
            let n = self.addr(a[0])? as usize;
            let p = self.alloc(n);
            return Ok(vec![V::C(p)]);
        }
        if self.is_panic(e) {
            return Err(Stop::Panic(format!("{} at {}", short(name), self.site(f, bb, k))));
        }
        err(format!("call of unmodelled function {}", name))
    }

    fn symbolic(&mut self, p: u64, n: usize, id: u32) -> R<()> {
        let pre = self.preset.get(&id).cloned();
        let mut v = vec![];
        for i in 0..n {
            let fixed = pre.as_ref().and_then(|x| x.get(i).copied().flatten());
            let t = match fixed {
                Some(b) => self.t.cst(8, b as u128),
                None => {
                    let t = self.t.input(8);
                    self.input_name.insert(t, (id, i as u32));
                    t
                }
            };
            v.push(t);
        }
        self.put_bytes(p, &v)?;
        self.inputs.insert(id, v);
        Ok(())
    }

    fn uf(&mut self, fun: u32, out: u64, ol: usize, ins: &[(u64, usize)]) -> R<()> {
        let mut args = vec![];
        for (p, n) in ins {
            args.extend(self.bytes(*p, *n)?);
        }
        if args.iter().all(|x| self.t.val(*x).is_some()) {
            let b: Vec<u8> = args.iter().map(|x| self.t.val(*x).unwrap() as u8).collect();
            if let Some(r) = crate::concrete_uf(fun, &b, ol) {
                let ts: Vec<T> = r.iter().map(|x| self.t.cst(8, *x as u128)).collect();
                self.known.push((fun, args, ts.clone()));
                return self.put_bytes(out, &ts);
            }
        }
        let mut k = self.t.app(fun, args.clone(), ol as u32);
        if self.phase == 1 && k as usize + 1 == self.t.apps.len() {
            // congruence with an application of the reference
            'next: for j in 0..k {
                let ap = self.t.apps[j as usize].clone();
                if ap.f != fun || ap.args.len() != args.len() || ap.outlen as usize != ol {
                    continue;
                }
                let mut diff: Vec<(T, T)> = vec![];
                for (x, y) in args.iter().zip(ap.args.iter()) {
                    if x != y {
                        diff.push((*x, *y));
                        let (lx, ly) = (self.t.lanes(*x), self.t.lanes(*y));
                        if lx != ly {
                            continue 'next;
                        }
                    }
                }
                for (x, y) in diff {
                    if !self.s.borrow_mut().prove_eq(&self.t, x, y) {
                        continue 'next;
                    }
                }
                k = j;
                break;
            }
        }
        let ts: Vec<T> = (0..ol as u32).map(|i| self.t.ufbyte(k, i)).collect();
        self.put_bytes(out, &ts)
    }

    fn assert_eq(&mut self, p: u64, q: u64, n: usize, label: u32) -> R<()> {
        let x = self.bytes(p, n)?;
        let y = self.bytes(q, n)?;
        if x.iter().all(|t| self.t.val(*t).is_some()) {
            self.outputs.insert(label, x.iter().map(|t| self.t.val(*t).unwrap() as u8).collect());
        }
        self.out_terms.insert(label, x.clone());
        self.out_terms.insert(1000 + label, y.clone());
        if self.search {
            for (a, b) in x.into_iter().zip(y) {
                if a == b {
                    self.proved(label);
                    self.proved_struct += 1;
                } else {
                    self.pairs.push((a, b));
                }
            }
            return Ok(());
        }
        self.t.in_match += 1;
        for i in 0..n {
            let (a, b) = (x[i], y[i]);
            if a == b {
                self.proved(label);
                self.proved_struct += 1;
                continue;
            }
            let mut verdict = "refuted";
            let mut model = vec![];
            if self.t.val(a).is_none() || self.t.val(b).is_none() {
                let s = self.s.clone();
                let mut s = s.borrow_mut();
                let before = s.refuted.len();
                let shown = s.prove_eq(&self.t, a, b) || {
                    let mut c = self.t.eq_sorted(a, b);
                    c = self.t.not(c);
                    for i in 0..self.pc.len() {
                        c = self.t.bin(Op::And, self.pc[i], c);
                    }
                    self.given_up < 3
                        && (s.can_be_true_refine(&self.t, c, 5, 4000) == Res::Unsat
                            || s.can_be_true_refine(&self.t, c, 4, 100_000) == Res::Unsat)
                };
                if !shown {
                    self.given_up += 1;
                }
                if shown
                    || (self.given_up < 40
                        && s.search(&self.t, &[(a, b)], &[], &self.pc, &self.known, 3000).0 == Res::Unsat)
                {
                    drop(s);
                    self.proved(label);
                    continue;
                }
                if s.refuted.len() > before {
                    model = s.refuted.last().unwrap().model.clone();
                } else {
                    verdict = "unproved";
                }
            }
            if self.verbose && self.asserts.len() < 2 {
                eprintln!("{} [{}]: {} <> {}", label, i, self.t.show(a, 9), self.t.show(b, 9));
            }
            self.asserts.push(Assertion { label, index: i, verdict, a: Some(a), b: Some(b), model });
        }
        self.t.in_match -= 1;
        Ok(())
    }

    /// does `t` depend on no input but those of the given buffers?
    pub fn only_inputs(&self, t: T, ids: &[u32]) -> bool {
        let mut seen: HashSet<T> = Default::default();
        let mut apps: HashSet<u32> = Default::default();
        let mut todo = vec![t];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            if seen.len() > 20_000_000 {
                return false;
            }
            let n = self.t.n[x as usize];
            match n.op {
                Op::Const => {}
                Op::Free => return false,
                Op::Input => match self.input_name.get(&x) {
                    Some((id, _)) if ids.contains(id) => {}
                    _ => return false,
                },
                Op::UfByte => {
                    if apps.insert(n.a) {
                        todo.extend(self.t.apps[n.a as usize].args.iter());
                    }
                }
                Op::Cut => todo.push(n.a),
                _ => todo.extend([n.a, n.b, n.c].iter().take(self.t.nargs(n.op))),
            }
        }
        true
    }

    fn proved(&mut self, label: u32) {
        self.proved_bytes += 1;
        *self.proved_label.entry(label).or_insert(0) += 1;
    }

    fn assert_true(&mut self, v: V, w: u32, label: u32) -> R<()> {
        match v {
            V::C(c) => {
                if c == 0 {
                    self.asserts.push(Assertion {
                        label,
                        index: 0,
                        verdict: "refuted",
                        a: None,
                        b: None,
                        model: vec![],
                    });
                } else {
                    self.proved(label);
                    self.proved_struct += 1;
                }
            }
            V::N(t) => {
                let z = self.t.cst(w, 0);
                let q = self.t.eq_sorted(t, z);
                if self.search {
                    self.conds.push(q);
                    return Ok(());
                }
                match self.feasible(q, false) {
                    Res::Unsat => self.proved(label),
                    r => {
                        let model = self.s.borrow().last_model.clone();
                        self.asserts.push(Assertion {
                            label,
                            index: 0,
                            verdict: if r == Res::Sat { "refuted" } else { "unproved" },
                            a: Some(q),
                            b: None,
                            model,
                        })
                    }
                }
            }
            V::U => return err("assertion on undefined value"),
        }
        Ok(())
    }

    fn intrinsic(&mut self, n: &str, a: &[V], args: &[(Opd, u32)], rw: &[u32], at: (u32, u32, usize)) -> R<Vec<V>> {
        if n.starts_with("lifetime")
            || n.starts_with("assume")
            || n.starts_with("experimental.noalias")
            || n.starts_with("dbg")
            || n.starts_with("donothing")
            || n.starts_with("prefetch")
            || n.starts_with("inline.asm")
            || n.starts_with("sideeffect")
        {
            if !rw.is_empty() {
                return err(format!("intrinsic {}", n));
            }
            return Ok(vec![]);
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let len = self.addr(a[2])? as usize;
            self.copy_any(a[0], a[1], len, at)?;
            return Ok(vec![]);
        }
        if n.starts_with("memset") {
            let len = self.addr(a[2])?;
            let d = self.addr(a[0])?;
            for i in 0..len {
                self.store(d + i, 8, a[1])?;
            }
            return Ok(vec![]);
        }
        let w = args.first().map(|x| x.1).unwrap_or(0);
        // lane-wise on vectors: number of result scalars
        let lanes = rw.len();
        if n.contains(".with.overflow") {
            let l = lanes / 2;
            let mut vals = vec![];
            let mut ovs = vec![];
            for i in 0..l {
                let (v, o) = self.with_overflow(n, w, a[i], a[l + i])?;
                vals.push(v);
                ovs.push(o);
            }
            vals.extend(ovs);
            return Ok(vals);
        }
        let lane2 = |s: &mut Self, g: &mut dyn FnMut(&mut Self, V, V) -> R<V>| -> R<Vec<V>> {
            let mut r = vec![];
            for i in 0..lanes {
                r.push(g(s, a[i], a[lanes + i])?);
            }
            Ok(r)
        };
        let head = n.split('.').next().unwrap();
        match head {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match head {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                return lane2(self, &mut |s, x, y| {
                    let c = s.icmp(p, w, x, y);
                    Ok(match c {
                        V::C(1) => x,
                        V::N(t) => s.ite_v(t, w, x, y),
                        _ => y,
                    })
                });
            }
            "usub" | "uadd" | "ssub" | "sadd" if n.contains(".sat.") => {
                return lane2(self, &mut |s, x, y| {
                    let kind = format!("{}.with.overflow", head);
                    let (v, o) = s.with_overflow(&kind, w, x, y)?;
                    let lim = match head {
                        "usub" => V::C(0),
                        "uadd" => V::C(mask64(w)),
                        _ => {
                            // sign of x decides the limit
                            let neg = s.icmp(Pred::Slt, w, x, V::C(0));
                            let (lo, hi) = (V::C(1u64 << (w - 1)), V::C(mask64(w - 1)));
                            match neg {
                                V::C(1) => lo,
                                V::N(t) => s.ite_v(t, w, lo, hi),
                                _ => hi,
                            }
                        }
                    };
                    Ok(match o {
                        V::C(1) => lim,
                        V::N(t) => s.ite_v(t, w, lim, v),
                        _ => v,
                    })
                });
            }
            "abs" => {
                let mut r = vec![];
                for i in 0..lanes {
                    let neg = self.icmp(Pred::Slt, w, a[i], V::C(0));
                    let m = self.bin(BinOp::Sub, w, V::C(0), a[i])?;
                    r.push(match neg {
                        V::C(1) => m,
                        V::N(t) => self.ite_v(t, w, m, a[i]),
                        _ => a[i],
                    });
                }
                return Ok(r);
            }
            "bswap" => {
                let mut r = vec![];
                for i in 0..lanes {
                    let t = self.tm(a[i], w);
                    let mut acc = self.t.extract(t, 0, 8);
                    for b in 1..w / 8 {
                        let p = self.t.extract(t, 8 * b, 8);
                        acc = self.t.concat(acc, p);
                    }
                    r.push(self.norm(acc));
                }
                return Ok(r);
            }
            "bitreverse" => {
                let t = self.tm(a[0], w);
                let mut acc = self.t.extract(t, 0, 1);
                for b in 1..w {
                    let p = self.t.extract(t, b, 1);
                    acc = self.t.concat(acc, p);
                }
                return Ok(vec![self.norm(acc)]);
            }
            "fshl" | "fshr" => {
                let mut r = vec![];
                for i in 0..lanes {
                    let (h, l, s) = (a[i], a[lanes + i], a[2 * lanes + i]);
                    let s = match s {
                        V::C(s) => (s % w as u64) as u32,
                        _ => return err("symbolic funnel shift"),
                    };
                    let h = self.tm(h, w);
                    let l = self.tm(l, w);
                    let x = if head == "fshl" {
                        if s == 0 {
                            h
                        } else {
                            let p = self.t.extract(h, 0, w - s);
                            let q = self.t.extract(l, w - s, s);
                            self.t.concat(p, q)
                        }
                    } else if s == 0 {
                        l
                    } else {
                        let p = self.t.extract(h, 0, s);
                        let q = self.t.extract(l, s, w - s);
                        self.t.concat(p, q)
                    };
                    r.push(self.norm(x));
                }
                return Ok(r);
            }
            "ctpop" => {
                let mut r = vec![];
                for i in 0..lanes {
                    let t = self.tm(a[i], w);
                    let mut acc = self.t.cst(w, 0);
                    for b in 0..w {
                        let p = self.t.extract(t, b, 1);
                        let p = self.t.zext(p, w);
                        acc = self.t.bin(Op::Add, acc, p);
                    }
                    r.push(self.norm(acc));
                }
                return Ok(r);
            }
            "ctlz" | "cttz" => {
                let t = self.tm(a[0], w);
                let mut acc = self.t.cst(w, w as u128);
                for i in 0..w {
                    let (b, v) = if head == "ctlz" { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                    let p = self.t.extract(t, b, 1);
                    let k = self.t.cst(w, v as u128);
                    acc = self.t.ite(p, k, acc);
                }
                return Ok(vec![self.norm(acc)]);
            }
            "scmp" | "ucmp" => {
                let p = if head == "scmp" { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let lt = self.icmp(p.0, w, a[0], a[1]);
                let gt = self.icmp(p.1, w, a[0], a[1]);
                let rwid = rw[0];
                let g = match gt {
                    V::C(c) => V::C(c),
                    V::N(t) => self.ite_v(t, rwid, V::C(1), V::C(0)),
                    V::U => V::U,
                };
                return Ok(vec![match lt {
                    V::C(1) => V::C(mask64(rwid)),
                    V::N(t) => self.ite_v(t, rwid, V::C(mask64(rwid)), g),
                    _ => g,
                }]);
            }
            "expect" => return Ok(vec![a[0]]),
            "is" => return Ok(vec![V::C(0)]), // is.constant
            "vector" if n.starts_with("vector.reduce.") => {
                let op = n.split('.').nth(2).unwrap();
                let mut acc = a[0];
                for v in &a[1..] {
                    acc = match op {
                        "add" => self.bin(BinOp::Add, w, acc, *v)?,
                        "mul" => self.bin(BinOp::Mul, w, acc, *v)?,
                        "and" => self.bin(BinOp::And, w, acc, *v)?,
                        "or" => self.bin(BinOp::Or, w, acc, *v)?,
                        "xor" => self.bin(BinOp::Xor, w, acc, *v)?,
                        "umin" | "umax" | "smin" | "smax" => {
                            let p = match op {
                                "umin" => Pred::Ult,
                                "umax" => Pred::Ugt,
                                "smin" => Pred::Slt,
                                _ => Pred::Sgt,
                            };
                            match self.icmp(p, w, acc, *v) {
                                V::C(1) => acc,
                                V::N(t) => self.ite_v(t, w, acc, *v),
                                _ => *v,
                            }
                        }
                        _ => return err(format!("intrinsic {}", n)),
                    };
                }
                return Ok(vec![acc]);
            }
            "trap" | "ubsantrap" => return Err(Stop::Panic("trap".into())),
            _ => {}
        }
        err(format!("unmodelled intrinsic {}", n))
    }

    fn with_overflow(&mut self, n: &str, w: u32, x: V, y: V) -> R<(V, V)> {
        let signed = n.starts_with('s');
        let op = if n[1..].starts_with("add") {
            BinOp::Add
        } else if n[1..].starts_with("sub") {
            BinOp::Sub
        } else {
            BinOp::Mul
        };
        let v = self.bin(op, w, x, y)?;
        if w > 64 {
            // overflow of a wide sum: carry out
            let a = self.tm(x, w);
            let r = self.tm(v, w);
            let b = self.tm(y, w);
            let o = match (op, signed) {
                (BinOp::Add, false) => self.t.ult(r, a),
                (BinOp::Sub, false) => self.t.ult(a, b),
                _ => return err("wide overflow check"),
            };
            let o = self.norm(o);
            return Ok((v, o));
        }
        if let (V::C(a), V::C(b)) = (x, y) {
            let m = mask64(w);
            let sx = |v: u64| (((v << (64 - w)) as i64) >> (64 - w)) as i128;
            let (lo, hi) = if signed {
                (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
            } else {
                (0, m as i128)
            };
            let (p, q) = if signed { (sx(a), sx(b)) } else { (a as i128, b as i128) };
            let r = match op {
                BinOp::Add => p + q,
                BinOp::Sub => p - q,
                _ => match p.checked_mul(q) {
                    Some(r) => r,
                    None => hi + 1,
                },
            };
            return Ok((v, V::C((r < lo || r > hi) as u64)));
        }
        let a = self.tm(x, w);
        let b = self.tm(y, w);
        // by bounds
        let (i, j) = (self.t.iv(a), self.t.iv(b));
        let full = Terms::full(w);
        let fits = if signed {
            let c = match op {
                BinOp::Add => vec![i.slo as i128 + j.slo as i128, i.shi as i128 + j.shi as i128],
                BinOp::Sub => vec![i.slo as i128 - j.shi as i128, i.shi as i128 - j.slo as i128],
                _ => vec![
                    i.slo as i128 * j.slo as i128,
                    i.slo as i128 * j.shi as i128,
                    i.shi as i128 * j.slo as i128,
                    i.shi as i128 * j.shi as i128,
                ],
            };
            c.iter().all(|x| *x >= full.slo as i128 && *x <= full.shi as i128)
        } else {
            match op {
                BinOp::Add => i.hi as u128 + j.hi as u128 <= full.hi as u128,
                BinOp::Sub => i.lo >= j.hi,
                _ => i.hi as u128 * j.hi as u128 <= full.hi as u128,
            }
        };
        if fits {
            return Ok((v, V::C(0)));
        }
        // exact: compute on a wider type
        let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
        let keep = self.t.in_match;
        self.t.in_match += 1;
        let (xa, xb) = if signed {
            (self.t.sext(a, ww), self.t.sext(b, ww))
        } else {
            (self.t.zext(a, ww), self.t.zext(b, ww))
        };
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            _ => Op::Mul,
        };
        let r = self.t.bin(o, xa, xb);
        let lowp = self.t.extract(r, 0, w);
        let back = if signed { self.t.sext(lowp, ww) } else { self.t.zext(lowp, ww) };
        let e = self.t.eq_sorted(r, back);
        let ov = self.t.not(e);
        self.t.in_match = keep;
        Ok((v, self.norm(ov)))
    }
}

pub fn short(n: &str) -> String {
    // last readable part of a mangled name
    let mut parts = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if let Ok(l) = n[i..j].parse::<usize>() {
                let s = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
                if l > 0 && s + l <= b.len() {
                    parts.push(&n[s..s + l]);
                    i = s + l;
                    continue;
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.join("::")
    }
}
