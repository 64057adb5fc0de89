//! SMT back end: cones of terms are written as SMT-LIB and given to a solver.
//! Verdicts are remembered per *shape* (cone up to renaming of its leaves and
//! up to commutativity/associativity of +), so that the thousands of identical
//! lanes of a polynomial operation cost one query.

use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Unsat,
    Sat,
    Unknown,
}

pub struct Proc {
    child: Child,
    inp: ChildStdin,
    out: std::sync::mpsc::Receiver<String>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(cmd: &[String]) -> Proc {
    let mut child = Command::new(&cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start solver");
    let inp = child.stdin.take().unwrap();
    let out: ChildStdout = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l.trim().to_string()).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Proc { child, inp, out: rx }
}

pub struct Cone {
    pub nodes: Vec<T>, // children first
    pub leaves: Vec<T>,
    pub key: u128,
    /// the two roots agree up to AC of addition
    pub same: bool,
}

#[derive(Clone, Debug)]
pub struct Refuted {
    pub target: T,
    pub term: T,
    pub model: Vec<(T, u128)>,
}

pub struct Solver {
    proc: Option<Proc>,
    cmd: Vec<String>,
    cross: Option<Vec<String>>,
    pub timeout_ms: u64,
    pub cache: HashMap<u128, Res>,
    pub queries: u64,
    pub cached: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    /// large sums found equal by their normal form (see `prove_eq`)
    pub normal: u64,
    pub crossed: u64,
    pub cross_mismatch: u64,
    pub time: f64,
    pub refuted: Vec<Refuted>,
    pub max_cone: usize,
    pub trace: bool,
    pub dump: Option<std::fs::File>,
    /// comparisons with definitions that led nowhere
    pub vain: u32,
    pub last_model: Vec<(T, u128)>,
    /// a satisfiable question is asked again for its own model
    pub models: bool,
}

fn m64(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
fn h128(a: u128, b: u128) -> u128 {
    let (a0, a1) = (a as u64, (a >> 64) as u64);
    let (b0, b1) = (b as u64, (b >> 64) as u64);
    let x = m64(a0.wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(3) ^ m64(b0 ^ 0x1357));
    let y = m64(a1.wrapping_mul(5).wrapping_add(b1 ^ 0x2468) ^ m64(a0.wrapping_add(b0.rotate_left(31))));
    let z = m64(x ^ b1.rotate_left(17) ^ a1);
    ((z as u128) << 64) | m64(y ^ x.rotate_left(23)) as u128
}

/// bounds used for a leaf in a query (rounded outwards so that shapes repeat)
pub fn leaf_bounds(t: &Terms, l: T) -> (u64, u64, i64, i64, bool, u8) {
    let w = t.w(l);
    if w > 64 {
        return (0, 0, 0, 0, false, LS_ALL);
    }
    let iv = t.iv(l);
    let full = Terms::full(w);
    let mut hi = iv.hi;
    if hi > 15 && hi < full.hi {
        hi = (hi + 1).next_power_of_two() - 1;
    }
    let mut lo = iv.lo;
    if lo > 15 {
        lo = 0;
    }
    let (mut slo, mut shi) = (full.slo, full.shi);
    if iv.slo < 0 && (iv.slo > full.slo || iv.shi < full.shi) {
        slo = -((iv.slo.unsigned_abs()).next_power_of_two() as i64);
        shi = if iv.shi > 0 { (iv.shi as u64 + 1).next_power_of_two() as i64 } else { 1 };
        if slo <= full.slo || shi >= full.shi {
            slo = full.slo;
            shi = full.shi;
        }
    }
    // the set of low bits only where the bounds do not say it already
    let ls = if hi <= 3 && lo == iv.lo && hi == iv.hi && (lo..=hi).all(|v| iv.ls >> v & 1 == 1) {
        LS_ALL
    } else {
        iv.ls
    };
    let any = lo != 0 || hi != full.hi || slo != full.slo || shi != full.shi || (ls & full.ls) != full.ls;
    (lo, hi.min(full.hi), slo, shi, any, ls)
}

struct Walk<'a> {
    t: &'a Terms,
    key: FxMap<T, u128>,
    nodes: Vec<T>,
    leaves: Vec<T>,
    max: usize,
    expand: Option<&'a FxMap<T, ()>>,
    over: bool,
}
const NEG: u128 = 0x9d5c_71a3_0f00_1234_77aa_3141_5926_5358;
impl<'a> Walk<'a> {
    fn is_leaf(&self, x: T) -> bool {
        match self.t.op(x) {
            Op::Input | Op::UfByte | Op::Free => true,
            Op::Cut => match self.expand {
                Some(e) => !e.contains_key(&x),
                None => true,
            },
            _ => false,
        }
    }
    fn go(&mut self, x: T) -> u128 {
        if let Some(&k) = self.key.get(&x) {
            return k;
        }
        if self.nodes.len() > self.max {
            self.over = true;
            return 0;
        }
        let n = self.t.n[x as usize];
        let k = if self.is_leaf(x) {
            let b = leaf_bounds(self.t, x);
            let num = self.leaves.len() as u128;
            self.leaves.push(x);
            let mut h = h128(num + 1, (n.w as u128) << 8 | 1);
            if b.4 {
                h = h128(h, (b.0 as u128) << 64 | b.1 as u128);
                h = h128(h, b.5 as u128);
                h = h128(h, (b.2 as u64 as u128) << 64 | b.3 as u64 as u128);
            }
            h128(h, 0xabc)
        } else {
            let tag = (n.op as u128) << 32 | (n.w as u128) << 16;
            match n.op {
                Op::Const => h128(tag, self.t.val(x).unwrap()),
                Op::Cut => {
                    let a = self.go(n.a);
                    h128(tag, a)
                }
                Op::Add | Op::Sub => {
                    // additive hash: independent of the order of the summands
                    let s = self.lin(x);
                    h128(h128(s, n.w as u128), 0x5555)
                }
                Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                    let a = self.go(n.a);
                    let b = self.go(n.b);
                    h128(tag, h128(a, 1).wrapping_add(h128(b, 1)))
                }
                Op::ZExt | Op::SExt => {
                    let a = self.go(n.a);
                    h128(tag, a)
                }
                Op::Extract => {
                    let a = self.go(n.a);
                    h128(tag | n.b as u128 + 1, a)
                }
                Op::Ite => {
                    let a = self.go(n.a);
                    let b = self.go(n.b);
                    let c = self.go(n.c);
                    h128(tag, h128(a, h128(b, c)))
                }
                _ => {
                    let a = self.go(n.a);
                    let b = self.go(n.b);
                    h128(tag, h128(a, b))
                }
            }
        };
        self.key.insert(x, k);
        self.nodes.push(x);
        k
    }
    /// sum over the summands of `x`
    fn lin(&mut self, x: T) -> u128 {
        let n = self.t.n[x as usize];
        match n.op {
            Op::Add => {
                let a = self.lin_memo(n.a);
                let b = self.lin_memo(n.b);
                a.wrapping_add(b)
            }
            Op::Sub => {
                let a = self.lin_memo(n.a);
                let b = self.lin_memo(n.b);
                a.wrapping_sub(b)
            }
            _ => {
                let k = self.go(x);
                h128(k, NEG)
            }
        }
    }
    fn lin_memo(&mut self, x: T) -> u128 {
        match self.t.op(x) {
            Op::Add | Op::Sub => {
                // also registers x in `nodes`
                let l = self.lin_raw(x);
                l
            }
            Op::Const if self.t.val(x) == Some(0) => {
                self.go(x);
                0
            }
            _ => {
                let k = self.go(x);
                h128(k, NEG)
            }
        }
    }
    fn lin_raw(&mut self, x: T) -> u128 {
        // linear hash of an inner sum; memo under a distinct key space
        if let Some(&k) = self.key.get(&(x | 0x8000_0000)) {
            return k;
        }
        if self.nodes.len() > self.max {
            self.over = true;
            return 0;
        }
        let l = self.lin(x);
        self.key.insert(x | 0x8000_0000, l);
        if !self.key.contains_key(&x) {
            let w = self.t.w(x);
            self.key.insert(x, h128(h128(l, w as u128), 0x5555));
            self.nodes.push(x);
        }
        l
    }
}

impl Solver {
    pub fn new(cmd: Vec<String>, cross: Option<Vec<String>>, timeout_ms: u64) -> Solver {
        Solver {
            proc: None,
            cmd,
            cross,
            timeout_ms,
            cache: HashMap::new(),
            queries: 0,
            cached: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            normal: 0,
            crossed: 0,
            cross_mismatch: 0,
            time: 0.0,
            refuted: vec![],
            max_cone: 60_000,
            trace: false,
            dump: None,
            last_model: vec![],
            vain: 0,
            models: false,
        }
    }

    pub fn stop(&mut self) {
        self.proc = None;
    }

    pub fn cone(&self, t: &Terms, roots: &[T], expand: Option<&FxMap<T, ()>>) -> Option<Cone> {
        let mut w = Walk {
            t,
            key: Default::default(),
            nodes: vec![],
            leaves: vec![],
            max: self.max_cone,
            expand,
            over: false,
        };
        let mut key = 7u128;
        let mut ks = vec![];
        for &r in roots {
            let k = w.go(r);
            ks.push(k);
            key = h128(key, k ^ ((t.w(r) as u128) << 100));
        }
        if w.over {
            return None;
        }
        Some(Cone { nodes: w.nodes, leaves: w.leaves, key, same: ks.len() == 2 && ks[0] == ks[1] })
    }

    pub fn emit_term(t: &Terms, x: T, expanded: bool, s: &mut String) {
        let n = t.n[x as usize];
        let w = n.w as u32;
        let _ = write!(s, "(define-fun n{} () (_ BitVec {}) ", x, w);
        let b2 = |o: &str, s: &mut String| {
            let _ = write!(s, "({} n{} n{})", o, n.a, n.b);
        };
        match n.op {
            Op::Const => {
                let _ = write!(s, "(_ bv{} {})", t.val(x).unwrap(), w);
            }
            Op::Cut => {
                debug_assert!(expanded);
                let wa = t.w(n.a);
                if wa == w {
                    let _ = write!(s, "n{}", n.a);
                } else {
                    let _ = write!(s, "((_ extract {} 0) n{})", w - 1, n.a);
                }
            }
            Op::Add => b2("bvadd", s),
            Op::Sub => b2("bvsub", s),
            Op::Mul => b2("bvmul", s),
            Op::UDiv => b2("bvudiv", s),
            Op::URem => b2("bvurem", s),
            Op::SDiv => b2("bvsdiv", s),
            Op::SRem => b2("bvsrem", s),
            Op::Shl => b2("bvshl", s),
            Op::LShr => b2("bvlshr", s),
            Op::AShr => b2("bvashr", s),
            Op::And => b2("bvand", s),
            Op::Or => b2("bvor", s),
            Op::Xor => b2("bvxor", s),
            Op::Concat => b2("concat", s),
            Op::Eq | Op::Ult | Op::Slt => {
                let o = match n.op {
                    Op::Eq => "=",
                    Op::Ult => "bvult",
                    _ => "bvslt",
                };
                let _ = write!(s, "(ite ({} n{} n{}) #b1 #b0)", o, n.a, n.b);
            }
            Op::Ite => {
                let _ = write!(s, "(ite (= n{} #b1) n{} n{})", n.a, n.b, n.c);
            }
            Op::ZExt => {
                let _ = write!(s, "((_ zero_extend {}) n{})", w - t.w(n.a), n.a);
            }
            Op::SExt => {
                let _ = write!(s, "((_ sign_extend {}) n{})", w - t.w(n.a), n.a);
            }
            Op::Extract => {
                let _ = write!(s, "((_ extract {} {}) n{})", n.b + w - 1, n.b, n.a);
            }
            _ => unreachable!(),
        }
        s.push_str(")\n");
    }

    fn emit_cone(t: &Terms, c: &Cone) -> String {
        let mut s = String::new();
        let mut leaf: FxMap<T, ()> = Default::default();
        for &l in &c.leaves {
            leaf.insert(l, ());
            let w = t.w(l);
            let _ = write!(s, "(declare-const n{} (_ BitVec {}))\n", l, w);
            let b = leaf_bounds(t, l);
            if b.4 {
                let full = Terms::full(w);
                if w >= 2 {
                    for v in 0..4u32 {
                        if b.5 >> v & 1 == 0 {
                            let _ = write!(s, "(assert (not (= ((_ extract 1 0) n{}) (_ bv{} 2))))\n", l, v);
                        }
                    }
                }
                if b.0 > 0 {
                    let _ = write!(s, "(assert (bvuge n{} (_ bv{} {})))\n", l, b.0, w);
                }
                if b.1 < full.hi {
                    let _ = write!(s, "(assert (bvule n{} (_ bv{} {})))\n", l, b.1, w);
                }
                if b.2 > full.slo {
                    let v = (b.2 as u64) & mask64(w);
                    let _ = write!(s, "(assert (bvsge n{} (_ bv{} {})))\n", l, v, w);
                }
                if b.3 < full.shi {
                    let v = (b.3 as u64) & mask64(w);
                    let _ = write!(s, "(assert (bvsle n{} (_ bv{} {})))\n", l, v, w);
                }
            }
        }
        for &x in &c.nodes {
            if !leaf.contains_key(&x) {
                Solver::emit_term(t, x, true, &mut s);
            }
        }
        s
    }

    fn read_line(&mut self) -> Option<String> {
        // the solver's own limit is not always honoured: stop it from outside
        let limit = std::time::Duration::from_millis(self.timeout_ms + 3000);
        let p = self.proc.as_mut()?;
        p.out.recv_timeout(limit).ok()
    }

    /// one solver call; `vars` are read back if satisfiable
    pub fn ask(&mut self, body: &str, vars: &[T]) -> (Res, Vec<(T, u128)>) {
        let start = Instant::now();
        self.queries += 1;
        if let Some(f) = self.dump.as_mut() {
            let _ = writeln!(f, "(reset)\n{}\n(check-sat)", body);
        }
        if self.proc.is_none() {
            self.proc = Some(spawn(&self.cmd.clone()));
        }
        let q = format!(
            "(reset)\n(set-option :timeout {})\n{}\n(check-sat)\n(echo \"--\")\n",
            self.timeout_ms, body
        );
        let mut res = Res::Unknown;
        let mut model = vec![];
        if self.trace {
            eprintln!("query {} bytes {}", self.queries, body.len());
        }
        let ok = {
            let p = self.proc.as_mut().unwrap();
            p.inp.write_all(q.as_bytes()).and_then(|_| p.inp.flush()).is_ok()
        };
        if ok {
            let mut bad = false;
            loop {
                match self.read_line() {
                    None => {
                        self.proc = None;
                        bad = true;
                        break;
                    }
                    Some(l) if l == "--" || l == "\"--\"" => break,
                    Some(l) => match l.as_str() {
                        "sat" => res = Res::Sat,
                        "unsat" => res = Res::Unsat,
                        "unknown" | "timeout" => {}
                        _ => bad = true,
                    },
                }
            }
            if bad {
                res = Res::Unknown;
            }
            if res == Res::Sat && !vars.is_empty() && self.proc.is_some() {
                let mut g = String::from("(get-value (");
                for v in vars {
                    let _ = write!(g, "n{} ", v);
                }
                g.push_str("))\n(echo \"--\")\n");
                let p = self.proc.as_mut().unwrap();
                let _ = p.inp.write_all(g.as_bytes()).and_then(|_| p.inp.flush());
                let mut txt = String::new();
                loop {
                    match self.read_line() {
                        None => break,
                        Some(l) if l == "--" || l == "\"--\"" => break,
                        Some(l) => {
                            txt.push_str(&l);
                            txt.push(' ');
                        }
                    }
                }
                model = parse_values(&txt);
            }
        } else {
            self.proc = None;
        }
        match res {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        if res == Res::Unsat {
            if let Some(c) = self.cross.clone() {
                // second opinion by an independent solver
                match cross_check(&c, body) {
                    Res::Unsat => self.crossed += 1,
                    Res::Sat => {
                        self.cross_mismatch += 1;
                        res = Res::Unknown;
                    }
                    Res::Unknown => {}
                }
            }
        }
        self.time += start.elapsed().as_secs_f64();
        if self.trace {
            eprintln!("   {:?} {:.2}s", res, start.elapsed().as_secs_f64());
        }
        (res, model)
    }

    /// does the value of `x` equal the value of `d` (zero extended) always?
    pub fn prove_eq(&mut self, t: &Terms, x: T, d: T) -> bool {
        let c = match self.cone(t, &[d, x], None) {
            Some(c) => c,
            None => return false,
        };
        if let Some(&r) = self.cache.get(&c.key) {
            self.cached += 1;
            return r == Res::Unsat;
        }
        if t.val(d).is_some() && c.nodes.len() > 2000 {
            return false;
        }
        if t.val(d).is_none() && c.nodes.len() > 400 && !c.same {
            // equal by accident (a condition that nearly always holds) rather
            // than the same function, when they do not depend on as many values
            let size = |s: &mut Solver, y: T| s.cone(t, &[y], None).map(|c| c.leaves.len());
            let (p, q) = (size(self, x), size(self, d));
            if p != q {
                self.cache.insert(c.key, Res::Unknown);
                return false;
            }
        }
        if c.same && c.nodes.len() > 1000 {
            // the same multiset of summands on both sides; the first ones of
            // every run are also put to the solver
            if self.normal >= 12 {
                self.normal += 1;
                self.cache.insert(c.key, Res::Unsat);
                return true;
            }
            self.normal += 1;
        }
        let mut s = Solver::emit_cone(t, &c);
        let (wx, wd) = (t.w(x), t.w(d));
        let w = wx.max(wd);
        let ext = |v: T, wv: u32| {
            if wv == w {
                format!("n{}", v)
            } else {
                format!("((_ zero_extend {}) n{})", w - wv, v)
            }
        };
        let _ = write!(s, "(assert (not (= {} {})))\n", ext(x, wx), ext(d, wd));
        let (r, model) = self.ask(&s, &c.leaves);
        self.cache.insert(c.key, r);
        if r == Res::Sat && c.nodes.len() <= 600 && self.vain < 200 && self.equal_expanded(t, x, d, &c.leaves) {
            self.cache.remove(&c.key);
            return true;
        }
        if r == Res::Sat && self.refuted.len() < 200 {
            self.refuted.push(Refuted { target: d, term: x, model });
        }
        r == Res::Unsat
    }

    /// `prove_eq` with the names among `leaves` replaced by their definitions
    fn equal_expanded(&mut self, t: &Terms, x: T, d: T, leaves: &[T]) -> bool {
        let mut exp: FxMap<T, ()> = Default::default();
        for &l in leaves {
            if t.op(l) == Op::Cut {
                match self.cone(t, &[t.n[l as usize].a], None) {
                    Some(c) if c.nodes.len() <= 200 => {
                        exp.insert(l, ());
                    }
                    _ => {}
                }
            }
        }
        if exp.is_empty() || t.w(x) != t.w(d) {
            return false;
        }
        let c = match self.cone(t, &[d, x], Some(&exp)) {
            Some(c) if c.nodes.len() <= 4000 => c,
            _ => return false,
        };
        let key = h128(c.key, 0x5151);
        let r = match self.cache.get(&key) {
            Some(&r) => r,
            None => {
                let mut s = Solver::emit_cone(t, &c);
                let _ = write!(s, "(assert (not (= n{} n{})))\n", x, d);
                let (r, _) = self.ask(&s, &c.leaves);
                self.cache.insert(key, r);
                r
            }
        };
        if r != Res::Unsat {
            self.vain += 1;
        }
        r == Res::Unsat
    }

    /// As `can_be_true`; while satisfiable, cut points in the cone are replaced
    /// by their definitions, a level at a time.
    pub fn can_be_true_refine(&mut self, t: &Terms, cond: T, levels: u32, max: usize) -> Res {
        let mut exp: FxMap<T, ()> = Default::default();
        if levels <= 1 {
            match self.cone(t, &[cond], None) {
                Some(c) if c.nodes.len() <= max => {}
                _ => return Res::Unknown,
            }
        }
        let mut r = self.can_be_true(t, cond, None);
        for _ in 0..levels {
            if r == Res::Unsat {
                return r;
            }
            let c = match self.cone(t, &[cond], Some(&exp)) {
                Some(c) => c,
                None => return r,
            };
            let mut n = 0;
            for l in c.leaves {
                if t.op(l) != Op::Cut || exp.contains_key(&l) {
                    continue;
                }
                if levels > 1 {
                    // a long definition stays a name
                    match self.cone(t, &[t.n[l as usize].a], None) {
                        Some(c) if c.nodes.len() <= if max > 10_000 { max / 2 } else { max * 3 / 40 } => {}
                        _ => continue,
                    }
                }
                exp.insert(l, ());
                n += 1;
            }
            if n == 0 {
                return r;
            }
            match self.cone(t, &[cond], Some(&exp)) {
                Some(c) if c.nodes.len() <= max => {}
                _ => return r,
            }
            if self.trace {
                eprintln!("refining {}", t.show(cond, 7));
            }
            match self.can_be_true(t, cond, Some(&exp)) {
                Res::Unknown => return r,
                x => r = x,
            }
        }
        r
    }

    /// can `cond` (1 bit) be 1?  `expand`: cut points replaced by definitions
    pub fn can_be_true(&mut self, t: &Terms, cond: T, expand: Option<&FxMap<T, ()>>) -> Res {
        if let Some(v) = t.val(cond) {
            return if v == 1 { Res::Sat } else { Res::Unsat };
        }
        let c = match self.cone(t, &[cond], expand) {
            Some(c) => c,
            None => return Res::Unknown,
        };
        let key = h128(c.key, 0x7777);
        if let Some(&r) = self.cache.get(&key) {
            if r != Res::Sat || !self.models {
                self.cached += 1;
                return r;
            }
        }
        let mut s = Solver::emit_cone(t, &c);
        let _ = write!(s, "(assert (= n{} #b1))\n", cond);
        let (r, model) = self.ask(&s, &c.leaves);
        self.last_model = model;
        self.cache.insert(key, r);
        r
    }

    /// Can some of `conds` hold, or some pair differ, for some value of the
    /// inputs (all of `pre` holding)?  Names are replaced by definitions
    /// throughout; equal arguments of an uninterpreted function give equal
    /// results.  The model speaks about inputs only.
    pub fn search(
        &mut self,
        t: &Terms,
        pairs: &[(T, T)],
        conds: &[T],
        pre: &[T],
        known: &[(u32, Vec<T>, Vec<T>)],
        max: usize,
    ) -> (Res, Vec<(T, u128)>) {
        let mut nodes: Vec<T> = vec![];
        let mut state: FxMap<T, u8> = Default::default();
        let mut apps: Vec<u32> = vec![];
        let mut appseen: std::collections::HashSet<u32> = Default::default();
        let mut stack: Vec<T> = vec![];
        for (a, b) in pairs {
            stack.push(*a);
            stack.push(*b);
        }
        stack.extend(conds);
        stack.extend(pre);
        let mut later: Vec<T> = vec![];
        loop {
            let x = match stack.pop() {
                Some(x) => x,
                None => match later.pop() {
                    Some(x) => x,
                    None => break,
                },
            };
            match state.get(&x) {
                Some(2) => continue,
                Some(_) => {
                    state.insert(x, 2);
                    nodes.push(x);
                    continue;
                }
                None => {}
            }
            if state.len() > max {
                return (Res::Unknown, vec![]);
            }
            state.insert(x, 1);
            stack.push(x);
            let n = t.n[x as usize];
            match n.op {
                Op::Input | Op::Free | Op::Const => {}
                Op::UfByte => {
                    if appseen.insert(n.a) {
                        apps.push(n.a);
                        later.extend(t.apps[n.a as usize].args.iter());
                    }
                }
                Op::Cut => {
                    if state.get(&n.a) != Some(&2) {
                        stack.push(n.a)
                    }
                }
                _ => {
                    let k = t.nargs(n.op);
                    for (i, c) in [n.a, n.b, n.c].iter().enumerate() {
                        if i < k && state.get(c) != Some(&2) {
                            stack.push(*c);
                        }
                    }
                }
            }
        }
        let mut s = String::from("(set-logic QF_BV)\n");
        let mut inputs = vec![];
        let mut have: std::collections::HashSet<T> = Default::default();
        for &x in &nodes {
            have.insert(x);
            match t.op(x) {
                Op::Input | Op::Free => {
                    inputs.push(x);
                    let _ = write!(s, "(declare-const n{} (_ BitVec {}))\n", x, t.w(x));
                }
                Op::UfByte => {
                    let _ = write!(s, "(declare-const n{} (_ BitVec {}))\n", x, t.w(x));
                }
                _ => Solver::emit_term(t, x, true, &mut s),
            }
        }
        // functional consistency
        let eq = |x: T, y: T, s: &mut String| {
            let _ = write!(s, "(= n{} n{})", x, y);
        };
        let byte = |app: u32, i: u32| -> Option<T> { t.find_ufbyte(app, i).filter(|x| have.contains(x)) };
        let mut consts: std::collections::HashSet<T> = Default::default();
        for (i, &p) in apps.iter().enumerate() {
            let ap = &t.apps[p as usize];
            for &r in &apps[..i] {
                let aq = &t.apps[r as usize];
                if ap.f != aq.f || ap.args.len() != aq.args.len() || ap.outlen != aq.outlen {
                    continue;
                }
                let mut l = String::new();
                for (x, y) in ap.args.iter().zip(aq.args.iter()) {
                    if x != y {
                        eq(*x, *y, &mut l);
                    }
                }
                let mut o = String::new();
                for k in 0..ap.outlen {
                    if let (Some(x), Some(y)) = (byte(p, k), byte(r, k)) {
                        eq(x, y, &mut o);
                    }
                }
                if !o.is_empty() {
                    let _ = write!(s, "(assert (=> (and true {}) (and {})))\n", l, o);
                }
            }
            for (f, args, outs) in known {
                if ap.f != *f || ap.args.len() != args.len() || ap.outlen as usize != outs.len() {
                    continue;
                }
                let mut l = String::new();
                let mut possible = true;
                for (x, y) in ap.args.iter().zip(args.iter()) {
                    if x != y {
                        if t.val(*x).is_some() {
                            possible = false;
                            break;
                        }
                        if !have.contains(y) && consts.insert(*y) {
                            Solver::emit_term(t, *y, true, &mut s);
                        }
                        eq(*x, *y, &mut l);
                    }
                }
                if !possible {
                    continue;
                }
                let mut o = String::new();
                for (k, y) in outs.iter().enumerate() {
                    if let Some(x) = byte(p, k as u32) {
                        if !have.contains(y) && consts.insert(*y) {
                            Solver::emit_term(t, *y, true, &mut s);
                        }
                        eq(x, *y, &mut o);
                    }
                }
                if !o.is_empty() {
                    let _ = write!(s, "(assert (=> (and true {}) (and {})))\n", l, o);
                }
            }
        }
        for p in pre {
            let _ = write!(s, "(assert (= n{} #b1))\n", p);
        }
        s.push_str("(assert (or false ");
        for (a, b) in pairs {
            let _ = write!(s, "(not (= n{} n{}))", a, b);
        }
        for c in conds {
            let _ = write!(s, "(= n{} #b1)", c);
        }
        s.push_str("))\n");
        self.ask(&s, &inputs)
    }
}

pub fn parse_values(s: &str) -> Vec<(T, u128)> {
    let mut out = vec![];
    for part in s.split("(n").skip(1) {
        let mut it = part.split_whitespace();
        let name = it.next().unwrap_or("");
        let v = it.next().unwrap_or("").trim_end_matches(')');
        if let Ok(id) = name.parse::<u32>() {
            let val = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).unwrap_or(0)
            } else if let Some(b) = v.strip_prefix("#b") {
                u128::from_str_radix(b, 2).unwrap_or(0)
            } else {
                0
            };
            out.push((id, val));
        }
    }
    out
}

fn cross_check(cmd: &[String], body: &str) -> Res {
    let mut child = match Command::new(&cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return Res::Unknown,
    };
    let text = format!("(set-logic QF_BV)\n{}\n(check-sat)\n(exit)\n", body);
    {
        let mut i = child.stdin.take().unwrap();
        let _ = i.write_all(text.as_bytes());
    }
    let out = child.wait_with_output();
    match out {
        Ok(o) => {
            let s = String::from_utf8_lossy(&o.stdout);
            if s.contains("(error") {
                return Res::Unknown;
            }
            if s.lines().any(|l| l == "unsat") {
                Res::Unsat
            } else if s.lines().any(|l| l == "sat") {
                Res::Sat
            } else {
                Res::Unknown
            }
        }
        Err(_) => Res::Unknown,
    }
}
