//! Reader for textual LLVM IR.  Aggregates and vectors are flattened into
//! consecutive scalar slots while decoding.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Arr(usize, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(usize, Box<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> usize {
        match self {
            Ty::Int(w) => (((*w as usize) + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(v, p) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Ty::Int(w) => {
                let b = ((*w as usize) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as usize + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(v, p) => {
                let mut o = 0;
                for t in v {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> (usize, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(v, p) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field of scalar"),
        }
    }
    /// (byte offset, bit width)
    pub fn flat(&self) -> Vec<(usize, u32)> {
        let mut v = vec![];
        self.flat_into(0, &mut v);
        v
    }
    fn flat_into(&self, o: usize, v: &mut Vec<(usize, u32)>) {
        match self {
            Ty::Int(w) => v.push((o, *w)),
            Ty::Ptr => v.push((o, 64)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.flat_into(o + i * t.size(), v)
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (k, t) = self.field(i);
                    t.flat_into(o + k, v)
                }
            }
            Ty::Void | Ty::Other => {}
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Int(i128),
    Word(String),
    P(char),
    Str(Vec<u8>),
    Meta,
    Attr,
    Float,
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                // comment up to end of line
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let j = s[i + 2..].find('"').unwrap() + i + 2;
                    name = s[i + 2..j].to_string();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && ident(b[j]) {
                        j += 1
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                v.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && ident(b[j]) {
                    j += 1
                }
                i = j;
                v.push(Tok::Meta);
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && ident(b[j]) {
                    j += 1
                }
                i = j;
                v.push(Tok::Attr);
            }
            b'"' => {
                let j = s[i + 1..].find('"').unwrap() + i + 1;
                v.push(Tok::Word(s[i..=j].to_string()));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                let mut out = vec![];
                while b[j] != b'"' {
                    if b[j] == b'\\' && b[j + 1] == b'\\' {
                        out.push(b'\\');
                        j += 2;
                    } else if b[j] == b'\\' {
                        let h = u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap();
                        out.push(h);
                        j += 3;
                    } else {
                        out.push(b[j]);
                        j += 1;
                    }
                }
                v.push(Tok::Str(out));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+') {
                    j += 1
                }
                match s[i..j].parse::<i128>() {
                    Ok(n) => v.push(Tok::Int(n)),
                    Err(_) => match s[i..j].parse::<u128>() {
                        Ok(n) => v.push(Tok::Int(n as i128)),
                        Err(_) => v.push(Tok::Float),
                    },
                }
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && ident(b[j]) {
                    j += 1
                }
                v.push(Tok::Word(s[i..j].to_string()));
                i = j;
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

/// scalar operand
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    S(u32),      // slot
    C(u64),      // constant (<= 64 bits)
    K(u32),      // wide constant, index into Module.wide
    G(u32, i64), // address of a global + offset
    F(u32),      // address of a function
    U,           // undef / poison
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Copy,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, u32, u32, Opd, Opd),
    Icmp(Pred, u32, u32, Opd, Opd),
    Cast(CastOp, u32, u32, u32, Opd), // from, to, dst
    Select(u32, u32, Opd, Opd, Opd),  // w dst c a b
    Gep(u32, Opd, i64, Box<[(Opd, u32, i64)]>), // dst base const (idx,width,scale)
    Load(Opd, u32, Box<[(u32, u32)]>), // ptr, first dst, (off,width)
    Store(Opd, Box<[(u32, u32, Opd)]>), // ptr, (off,width,val)
    Alloca(u32, u32),
    Call(Callee, Box<[(Opd, u32)]>, u32, Box<[u32]>), // args(flat,width), dst, ret widths
    Copy(u32, Opd, u32),
    // terminators
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Box<[(u64, u32)]>), // val, width, default edge, cases
    Ret(Box<[(Opd, u32)]>),
    Unreachable,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32), // index into Module.exts
    Ind(Opd),
}

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub to: u32,
    pub copies: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
    pub dead: bool,
    pub ipdom: Option<u32>,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub nslots: u32,
    pub slot_w: Vec<u32>,
    pub params: Vec<(u32, u32)>, // first slot, count
    pub nparam_slots: u32,
    pub blocks: Vec<Block>,
    pub edges: Vec<Edge>,
}

pub struct GlobalVar {
    pub name: String,
    pub constant: bool,
    pub external: bool,
    pub bytes: Vec<u8>,
    pub relocs: Vec<(usize, String, i64)>,
}

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalVar>,
    pub gidx: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub eidx: HashMap<String, u32>,
    pub wide: Vec<(u32, u128)>,
    pub noreturn: Vec<bool>, // per ext
    pub types: HashMap<String, Ty>,
    pub lines: usize,
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<String, Ty>,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) {
        if !self.is_p(c) {
            panic!("expected {} at {:?}", c, &self.t[self.i.saturating_sub(4)..(self.i + 4).min(self.t.len())]);
        }
        self.i += 1;
    }
    fn word(&self) -> Option<&str> {
        match self.peek() {
            Some(Tok::Word(w)) => Some(w),
            _ => None,
        }
    }
    fn try_word(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        if self.is_p('(') {
            let mut d = 0;
            loop {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => {
                if w == "ptr" {
                    if self.try_word("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                } else if w == "void" {
                    Ty::Void
                } else if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1 {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    Ty::Other
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            Tok::P('[') => {
                let n = match self.next() {
                    Tok::Int(n) => n as usize,
                    x => panic!("array size {:?}", x),
                };
                assert!(self.try_word("x"));
                let t = self.ty();
                self.eat(']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.is_p('}') {
                    v.push(self.ty());
                    if self.is_p(',') {
                        self.i += 1
                    }
                }
                self.eat('}');
                Ty::Struct(v, false)
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let mut v = vec![];
                    while !self.is_p('}') {
                        v.push(self.ty());
                        if self.is_p(',') {
                            self.i += 1
                        }
                    }
                    self.eat('}');
                    self.eat('>');
                    Ty::Struct(v, true)
                } else {
                    let n = match self.next() {
                        Tok::Int(n) => n as usize,
                        x => panic!("vector size {:?}", x),
                    };
                    assert!(self.try_word("x"));
                    let t = self.ty();
                    self.eat('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            x => panic!("type expected, got {:?}", x),
        }
    }
}

const PARAM_ATTRS: &[&str] = &[
    "noalias", "nocapture", "nofree", "noundef", "nonnull", "readonly", "readnone", "writeonly",
    "writable", "dead_on_unwind", "signext", "zeroext", "inreg", "returned", "immarg", "nest",
    "noext", "swiftself", "inalloca", "dead_on_return", "allocptr", "allocalign",
];
const PARAM_ATTRS_P: &[&str] = &[
    "captures", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range",
    "initializes", "nofpclass", "elementtype", "preallocated", "dead_on_return",
];

impl<'a> P<'a> {
    fn param_attrs(&mut self) {
        loop {
            let w = match self.word() {
                Some(w) => w.to_string(),
                None => return,
            };
            if PARAM_ATTRS_P.contains(&w.as_str()) {
                self.i += 1;
                self.skip_parens();
            } else if PARAM_ATTRS.contains(&w.as_str()) {
                self.i += 1;
            } else if w == "align" {
                self.i += 1;
                if self.is_p('(') {
                    self.skip_parens();
                } else {
                    self.i += 1;
                }
            } else if w.starts_with('"') {
                self.i += 1;
                if self.is_p('=') {
                    self.i += 2;
                }
            } else {
                return;
            }
        }
    }
}

enum CV {
    Int(u128),
    Sym(String, i64),
    Undef,
    Agg(Vec<(Ty, CV)>),
    Zero,
    Local(String),
    Bytes(Vec<u8>),
}

impl<'a> P<'a> {
    fn value(&mut self, ty: &Ty) -> CV {
        match self.next() {
            Tok::Local(n) => CV::Local(n),
            Tok::Global(g) => CV::Sym(g, 0),
            Tok::Int(n) => CV::Int(n as u128),
            Tok::Float => CV::Undef,
            Tok::Str(b) => CV::Bytes(b),
            Tok::Meta => CV::Undef,
            Tok::P('{') => {
                let v = self.agg('}');
                CV::Agg(v)
            }
            Tok::P('[') => {
                let v = self.agg(']');
                CV::Agg(v)
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let v = self.agg('}');
                    self.eat('>');
                    CV::Agg(v)
                } else {
                    let v = self.agg('>');
                    CV::Agg(v)
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => CV::Int(1),
                "false" => CV::Int(0),
                "null" | "zeroinitializer" | "none" => CV::Zero,
                "undef" | "poison" => CV::Undef,
                "splat" => {
                    self.eat('(');
                    let t = self.ty();
                    let v = self.value(&t);
                    self.eat(')');
                    let n = match ty {
                        Ty::Vec(n, _) => *n,
                        _ => 1,
                    };
                    match v {
                        CV::Int(k) => CV::Agg((0..n).map(|_| (t.clone(), CV::Int(k))).collect()),
                        CV::Zero => CV::Zero,
                        _ => CV::Undef,
                    }
                }
                "getelementptr" => {
                    while self.word().is_some() {
                        let p = self.word() == Some("inrange");
                        self.i += 1;
                        if p {
                            self.skip_parens();
                        }
                    }
                    self.eat('(');
                    let t = self.ty();
                    self.eat(',');
                    let bt = self.ty();
                    let base = self.value(&bt);
                    let mut off: i64 = 0;
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.is_p(',') {
                        self.i += 1;
                        let it = self.ty();
                        let k = match self.value(&it) {
                            CV::Int(k) => k as i64,
                            CV::Zero => 0,
                            _ => panic!("gep const index"),
                        };
                        if first {
                            off += k * t.size() as i64;
                            first = false;
                        } else {
                            let (o, ft) = cur.field(k as usize);
                            off += o as i64;
                            cur = ft;
                        }
                    }
                    self.eat(')');
                    match base {
                        CV::Sym(g, o) => CV::Sym(g, o + off),
                        CV::Zero => CV::Int(off as u128),
                        CV::Int(k) => CV::Int(k.wrapping_add(off as u128)),
                        _ => panic!("gep base"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                    self.eat('(');
                    let t = self.ty();
                    let v = self.value(&t);
                    assert!(self.try_word("to"));
                    let _ = self.ty();
                    self.eat(')');
                    v
                }
                "add" | "sub" => {
                    while self.word().is_some() {
                        self.i += 1;
                    }
                    self.eat('(');
                    let t = self.ty();
                    let a = self.value(&t);
                    self.eat(',');
                    let t = self.ty();
                    let b = self.value(&t);
                    self.eat(')');
                    match (a, b) {
                        (CV::Sym(g, o), CV::Int(k)) => {
                            CV::Sym(g, if w == "add" { o + k as i64 } else { o - k as i64 })
                        }
                        _ => panic!("const expr"),
                    }
                }
                x => panic!("value expected, got {}", x),
            },
            x => panic!("value expected, got {:?}", x),
        }
    }
    fn agg(&mut self, end: char) -> Vec<(Ty, CV)> {
        let mut v = vec![];
        while !self.is_p(end) {
            let t = self.ty();
            let c = self.value(&t);
            v.push((t, c));
            if self.is_p(',') {
                self.i += 1
            }
        }
        self.eat(end);
        v
    }
}

fn put_const(ty: &Ty, c: &CV, off: usize, bytes: &mut Vec<u8>, rel: &mut Vec<(usize, String, i64)>) {
    match c {
        CV::Int(k) => {
            for i in 0..ty.size() {
                bytes[off + i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 };
            }
        }
        CV::Bytes(b) => bytes[off..off + b.len()].copy_from_slice(b),
        CV::Sym(g, o) => rel.push((off, g.clone(), *o)),
        CV::Agg(v) => {
            for (i, (t, x)) in v.iter().enumerate() {
                let (o, _) = ty.field(i);
                put_const(t, x, off + o, bytes, rel);
            }
        }
        _ => {}
    }
}

struct FnCtx<'a> {
    m: &'a mut Module,
    slots: HashMap<String, u32>,
    bidx: HashMap<String, u32>,
}

impl<'a> FnCtx<'a> {
    fn flat(&mut self, ty: &Ty, c: CV) -> Vec<(Opd, u32)> {
        let fl = ty.flat();
        match c {
            CV::Local(n) => {
                let s = *self.slots.get(&n).unwrap_or_else(|| panic!("unknown %{}", n));
                fl.iter().enumerate().map(|(i, f)| (Opd::S(s + i as u32), f.1)).collect()
            }
            CV::Int(k) => {
                let w = fl[0].1;
                vec![(self.int(k, w), w)]
            }
            CV::Zero => fl.iter().map(|f| (Opd::C(0), f.1)).collect(),
            CV::Undef => fl.iter().map(|f| (Opd::U, f.1)).collect(),
            CV::Sym(g, o) => vec![(self.sym(&g, o), 64)],
            CV::Agg(v) => {
                let mut r = vec![];
                for (t, c) in v {
                    r.extend(self.flat(&t, c));
                }
                r
            }
            CV::Bytes(b) => b.iter().map(|x| (Opd::C(*x as u64), 8)).collect(),
        }
    }
    fn int(&mut self, k: u128, w: u32) -> Opd {
        if w <= 64 {
            Opd::C(k as u64 & crate::term::mask64(w))
        } else {
            self.m.wide.push((w, k & crate::term::mask128(w)));
            Opd::K(self.m.wide.len() as u32 - 1)
        }
    }
    fn sym(&mut self, g: &str, o: i64) -> Opd {
        if let Some(&i) = self.m.gidx.get(g) {
            return Opd::G(i, o);
        }
        if let Some(&i) = self.m.fidx.get(g) {
            return Opd::F(i);
        }
        // external function or data
        let e = self.m.ext(g);
        Opd::F(0x8000_0000 | e)
    }
    fn one(&mut self, ty: &Ty, c: CV) -> Opd {
        self.flat(ty, c)[0].0
    }
}

impl Module {
    fn ext(&mut self, g: &str) -> u32 {
        if let Some(&e) = self.eidx.get(g) {
            return e;
        }
        let e = self.exts.len() as u32;
        self.exts.push(g.to_string());
        self.eidx.insert(g.to_string(), e);
        self.noreturn.push(false);
        e
    }

    pub fn parse(text: &str) -> Module {
        let mut m = Module::default();
        let lines: Vec<&str> = text.lines().collect();
        m.lines = lines.len();
        // attribute groups that contain noreturn
        let mut nr: HashMap<String, bool> = HashMap::new();
        for l in &lines {
            if let Some(r) = l.strip_prefix("attributes #") {
                let n = r.split_whitespace().next().unwrap();
                nr.insert(format!("#{}", n), r.split_whitespace().any(|w| w == "noreturn"));
            }
        }
        // type aliases
        let empty = HashMap::new();
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l);
                if let Tok::Local(n) = &t[0] {
                    let mut p = P { t: &t, i: 3, types: &empty };
                    let ty = p.ty();
                    m.types.insert(n.clone(), ty);
                }
            }
        }
        // function and declaration names
        for l in &lines {
            if l.starts_with("define ") || l.starts_with("declare ") {
                let t = lex(l);
                let name = t
                    .iter()
                    .find_map(|x| match x {
                        Tok::Global(g) => Some(g.clone()),
                        _ => None,
                    })
                    .unwrap();
                if l.starts_with("define ") {
                    let k = m.funcs.len() as u32;
                    m.funcs.push(Func { name: name.clone(), ..Default::default() });
                    m.fidx.insert(name, k);
                } else {
                    let e = m.ext(&name) as usize;
                    let attr = l.split_whitespace().filter(|w| w.starts_with('#')).last();
                    m.noreturn[e] = attr.map(|a| *nr.get(a).unwrap_or(&false)).unwrap_or(false)
                        || l.contains(" noreturn");
                }
            }
        }
        // globals
        let types = m.types.clone();
        let mut gl: Vec<(usize, Vec<Tok>)> = vec![];
        for l in &lines {
            if l.starts_with('@') && l.contains(" = ") {
                let t = lex(l);
                if let Tok::Global(n) = &t[0] {
                    if t.iter().any(|x| *x == Tok::Word("alias".into())) {
                        // @a = alias ty, ptr @b
                        continue;
                    }
                    let k = m.globals.len();
                    m.globals.push(GlobalVar {
                        name: n.clone(),
                        constant: false,
                        external: false,
                        bytes: vec![],
                        relocs: vec![],
                    });
                    m.gidx.insert(n.clone(), k as u32);
                    gl.push((k, t));
                }
            }
        }
        for (k, t) in gl {
            let pos = t
                .iter()
                .position(|x| *x == Tok::Word("global".into()) || *x == Tok::Word("constant".into()))
                .unwrap();
            let constant = t[pos] == Tok::Word("constant".into());
            let external = t[..pos].iter().any(|x| *x == Tok::Word("external".into()));
            let mut p = P { t: &t, i: pos + 1, types: &types };
            let ty = p.ty();
            let mut bytes = vec![0u8; ty.size()];
            let mut rel = vec![];
            if !external {
                let c = p.value(&ty);
                put_const(&ty, &c, 0, &mut bytes, &mut rel);
            }
            let g = &mut m.globals[k];
            g.constant = constant;
            g.external = external;
            g.bytes = bytes;
            g.relocs = rel;
        }
        // bodies
        let mut i = 0;
        while i < lines.len() {
            if lines[i].starts_with("define ") {
                let start = i;
                while lines[i] != "}" {
                    i += 1;
                }
                m.func(&lines[start..i], &types);
            }
            i += 1;
        }
        m
    }

    fn func(&mut self, lines: &[&str], types: &HashMap<String, Ty>) {
        let head = lex(lines[0]);
        let gi = head.iter().position(|x| matches!(x, Tok::Global(_))).unwrap();
        let name = match &head[gi] {
            Tok::Global(g) => g.clone(),
            _ => unreachable!(),
        };
        let fi = self.fidx[&name];
        let mut slots: HashMap<String, u32> = HashMap::new();
        let mut nslots = 0u32;
        let mut slot_w: Vec<u32> = vec![];
        let mut params = vec![];
        let mut unnamed = 0usize;
        {
            let mut p = P { t: &head, i: gi + 1, types };
            p.eat('(');
            while !p.is_p(')') {
                if p.is_p('.') || p.word() == Some("...") {
                    p.i += 1;
                    continue;
                }
                let ty = p.ty();
                p.param_attrs();
                let n = match p.peek() {
                    Some(Tok::Local(n)) => {
                        let n = n.clone();
                        p.i += 1;
                        n
                    }
                    _ => {
                        let n = format!("{}", unnamed);
                        n
                    }
                };
                unnamed += 1;
                let fl = ty.flat();
                slots.insert(n, nslots);
                params.push((nslots, fl.len() as u32));
                for f in &fl {
                    slot_w.push(f.1);
                }
                nslots += fl.len() as u32;
                if p.is_p(',') {
                    p.i += 1;
                }
            }
        }
        let nparam_slots = nslots;
        // split into blocks, join multi-line switches
        let mut blocks: Vec<(String, Vec<Vec<Tok>>)> = vec![];
        let mut k = 1;
        while k < lines.len() {
            let l = lines[k];
            k += 1;
            if l.is_empty() || l.trim_start().starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                let n = l.split(':').next().unwrap().trim_matches('"').to_string();
                blocks.push((n, vec![]));
                continue;
            }
            let mut s = l.to_string();
            if l.trim_start().starts_with("switch") && !s.contains(']') {
                while !lines[k].contains(']') {
                    s.push(' ');
                    s.push_str(lines[k]);
                    k += 1;
                }
                s.push(' ');
                s.push_str(lines[k]);
                k += 1;
            }
            if l.trim_start().starts_with('#') {
                continue; // debug records
            }
            if blocks.is_empty() {
                blocks.push((String::from("\u{0}entry"), vec![]));
            }
            blocks.last_mut().unwrap().1.push(lex(&s));
        }
        let bidx: HashMap<String, u32> =
            blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        // pass 1: result types
        for (_, ins) in &blocks {
            for t in ins {
                if let (Tok::Local(n), Some(Tok::P('='))) = (&t[0], t.get(1)) {
                    let ty = self.result_ty(&t[2..], types);
                    let fl = ty.flat();
                    slots.insert(n.clone(), nslots);
                    for f in &fl {
                        slot_w.push(f.1);
                    }
                    nslots += fl.len().max(1) as u32;
                    if fl.is_empty() {
                        slot_w.push(1);
                    }
                }
            }
        }
        // pass 2
        let mut f = Func { name, params, nparam_slots, ..Default::default() };
        let mut phis: Vec<Vec<(u32, Vec<(String, Vec<Opd>)>)>> = vec![];
        let mut terms: Vec<(usize, Vec<String>)> = vec![];
        let mut cx = FnCtx { m: self, slots, bidx };
        for (bi, (n, ins)) in blocks.iter().enumerate() {
            let mut b = Block { name: n.clone(), ..Default::default() };
            let mut ph = vec![];
            for t in ins {
                let (dst, rest) = match (&t[0], t.get(1)) {
                    (Tok::Local(n), Some(Tok::P('='))) => (cx.slots[n], &t[2..]),
                    _ => (0, &t[..]),
                };
                let mut p = P { t: rest, i: 0, types };
                if p.word() == Some("phi") {
                    p.i += 1;
                    while matches!(p.word(), Some("nnan" | "ninf" | "nsz" | "fast")) {
                        p.i += 1;
                    }
                    let ty = p.ty();
                    let mut inc = vec![];
                    loop {
                        p.eat('[');
                        let v = p.value(&ty);
                        let ops: Vec<Opd> = cx.flat(&ty, v).iter().map(|x| x.0).collect();
                        p.eat(',');
                        let from = match p.next() {
                            Tok::Local(n) => n,
                            _ => panic!("phi"),
                        };
                        p.eat(']');
                        inc.push((from, ops));
                        if p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('['))) {
                            p.i += 1;
                        } else {
                            break;
                        }
                    }
                    ph.push((dst, inc));
                    continue;
                }
                decode(&mut cx, &mut p, dst, &mut b.insts, &mut terms, bi);
            }
            phis.push(ph);
            f.blocks.push(b);
        }
        // edges: terminators hold block numbers so far; replace by edge numbers
        let mut edges: Vec<Edge> = vec![];
        let mut mk = |from: &str, to: u32| -> u32 {
            let mut e = Edge { to, copies: vec![] };
            for (dst, inc) in &phis[to as usize] {
                let v = inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi edge {}", from));
                for (i, o) in v.1.iter().enumerate() {
                    e.copies.push((dst + i as u32, *o));
                }
            }
            edges.push(e);
            edges.len() as u32 - 1
        };
        for b in f.blocks.iter_mut() {
            // the entry block may be referred to by its implicit number
            let n = if b.name == "\u{0}entry" { format!("{}", f.params.len()) } else { b.name.clone() };
            match b.insts.last_mut() {
                Some(Inst::Br(t)) => *t = mk(&n, *t),
                Some(Inst::CondBr(_, x, y)) => {
                    *x = mk(&n, *x);
                    *y = mk(&n, *y);
                }
                Some(Inst::Switch(_, _, d, c)) => {
                    *d = mk(&n, *d);
                    for e in c.iter_mut() {
                        e.1 = mk(&n, e.1);
                    }
                }
                _ => {}
            }
        }
        f.edges = edges;
        f.nslots = nslots;
        f.slot_w = slot_w;
        analyse(&mut f);
        self.funcs[fi as usize] = f;
    }

    fn result_ty(&self, t: &[Tok], types: &HashMap<String, Ty>) -> Ty {
        let mut p = P { t, i: 0, types };
        let w = match p.next() {
            Tok::Word(w) => w,
            x => panic!("instruction {:?}", x),
        };
        match w.as_str() {
            "icmp" => {
                while matches!(p.peek(), Some(Tok::Word(_))) {
                    let x = p.word().unwrap();
                    if x.starts_with('i') && x.len() > 1 && x[1..].chars().all(|c| c.is_ascii_digit()) {
                        break;
                    }
                    if x == "ptr" {
                        break;
                    }
                    p.i += 1;
                }
                match p.ty() {
                    Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                let pos = t.iter().position(|x| *x == Tok::Word("to".into())).unwrap();
                p.i = pos + 1;
                p.ty()
            }
            "getelementptr" | "alloca" => Ty::Ptr,
            "load" => {
                while matches!(p.word(), Some("volatile" | "atomic")) {
                    p.i += 1;
                }
                p.ty()
            }
            "call" | "tail" | "musttail" | "notail" => {
                p.i = 0;
                call_ret_ty(&mut p)
            }
            "extractvalue" => {
                let ty = p.ty();
                let _ = p.value(&ty);
                let mut cur = ty;
                while p.is_p(',') {
                    p.i += 1;
                    match p.peek() {
                        Some(Tok::Int(k)) => {
                            cur = cur.field(*k as usize).1;
                            p.i += 1;
                        }
                        _ => break,
                    }
                }
                cur
            }
            "select" => {
                let ct = p.ty();
                let _ = p.value(&ct);
                p.eat(',');
                p.ty()
            }
            "extractelement" => match p.ty() {
                Ty::Vec(_, t) => *t,
                _ => panic!(),
            },
            "shufflevector" => {
                let ty = p.ty();
                let _ = p.value(&ty);
                p.eat(',');
                let t2 = p.ty();
                let _ = p.value(&t2);
                p.eat(',');
                let mt = p.ty();
                match (ty, mt) {
                    (Ty::Vec(_, e), Ty::Vec(n, _)) => Ty::Vec(n, e),
                    _ => panic!(),
                }
            }
            _ => {
                // phi, freeze, binary, insertvalue, insertelement: type comes next
                while let Some(x) = p.word() {
                    if matches!(
                        x,
                        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "nnan" | "ninf" | "nsz" | "fast"
                    ) {
                        p.i += 1;
                    } else {
                        break;
                    }
                }
                p.ty()
            }
        }
    }
}

fn call_ret_ty(p: &mut P) -> Ty {
    loop {
        let w = match p.word() {
            Some(w) => w.to_string(),
            None => break,
        };
        if matches!(
            w.as_str(),
            "tail" | "musttail" | "notail" | "call" | "fastcc" | "ccc" | "coldcc" | "preserve_mostcc"
                | "unnamed_addr" | "nuw" | "nsw" | "fast" | "nnan"
        ) {
            p.i += 1;
        } else {
            let i = p.i;
            p.param_attrs();
            if p.i == i {
                break;
            }
        }
    }
    p.ty()
}

fn decode(
    cx: &mut FnCtx,
    p: &mut P,
    dst: u32,
    out: &mut Vec<Inst>,
    _terms: &mut Vec<(usize, Vec<String>)>,
    _bi: usize,
) {
    let w = match p.next() {
        Tok::Word(w) => w,
        x => panic!("instruction {:?}", x),
    };
    let skip_flags = |p: &mut P| {
        while let Some(x) = p.word() {
            if matches!(x, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw") {
                p.i += 1;
            } else if x == "inrange" {
                p.i += 1;
                p.skip_parens();
            } else {
                break;
            }
        }
    };
    let binop = match w.as_str() {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "sdiv" => Some(BinOp::SDiv),
        "urem" => Some(BinOp::URem),
        "srem" => Some(BinOp::SRem),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        _ => None,
    };
    if let Some(op) = binop {
        skip_flags(p);
        let ty = p.ty();
        let a = p.value(&ty);
        p.eat(',');
        let b = p.value(&ty);
        let a = cx.flat(&ty, a);
        let b = cx.flat(&ty, b);
        for i in 0..a.len() {
            out.push(Inst::Bin(op, a[i].1, dst + i as u32, a[i].0, b[i].0));
        }
        return;
    }
    match w.as_str() {
        "icmp" => {
            skip_flags(p);
            let pr = match p.next() {
                Tok::Word(x) => match x.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {}", x),
                },
                x => panic!("icmp {:?}", x),
            };
            let ty = p.ty();
            let a = p.value(&ty);
            p.eat(',');
            let b = p.value(&ty);
            let a = cx.flat(&ty, a);
            let b = cx.flat(&ty, b);
            for i in 0..a.len() {
                out.push(Inst::Icmp(pr, a[i].1, dst + i as u32, a[i].0, b[i].0));
            }
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
            skip_flags(p);
            let ty = p.ty();
            let a = p.value(&ty);
            assert!(p.try_word("to"));
            let to = p.ty();
            let a = cx.flat(&ty, a);
            let b = to.flat();
            if a.len() != b.len() {
                panic!("unsupported bitcast");
            }
            for i in 0..a.len() {
                let (f, t) = (a[i].1, b[i].1);
                let op = match w.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    _ => {
                        if f == t {
                            CastOp::Copy
                        } else if f < t {
                            CastOp::ZExt
                        } else {
                            CastOp::Trunc
                        }
                    }
                };
                out.push(Inst::Cast(op, f, t, dst + i as u32, a[i].0));
            }
        }
        "freeze" => {
            let ty = p.ty();
            let a = p.value(&ty);
            for (i, (o, w)) in cx.flat(&ty, a).into_iter().enumerate() {
                out.push(Inst::Copy(dst + i as u32, o, w));
            }
        }
        "select" => {
            let ct = p.ty();
            let c = p.value(&ct);
            p.eat(',');
            let ty = p.ty();
            let a = p.value(&ty);
            p.eat(',');
            let t2 = p.ty();
            let b = p.value(&t2);
            let c = cx.flat(&ct, c);
            let a = cx.flat(&ty, a);
            let b = cx.flat(&ty, b);
            for i in 0..a.len() {
                let ci = if c.len() == a.len() { c[i].0 } else { c[0].0 };
                out.push(Inst::Select(a[i].1, dst + i as u32, ci, a[i].0, b[i].0));
            }
        }
        "getelementptr" => {
            skip_flags(p);
            let t = p.ty();
            p.eat(',');
            let bt = p.ty();
            let base = p.value(&bt);
            let base = cx.one(&bt, base);
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t.clone();
            let mut first = true;
            while p.is_p(',') {
                p.i += 1;
                if matches!(p.peek(), Some(Tok::Meta)) {
                    break;
                }
                let it = p.ty();
                let v = p.value(&it);
                let w = match it {
                    Ty::Int(w) => w,
                    _ => panic!("gep index type"),
                };
                let scale: i64;
                let k = match &v {
                    CV::Int(k) => Some(*k as i64),
                    CV::Zero => Some(0),
                    _ => None,
                };
                if first {
                    scale = t.size() as i64;
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let (o, ft) = cur.field(k.unwrap() as usize);
                            off += o as i64;
                            cur = ft;
                            continue;
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            scale = e.size() as i64;
                            let e = (**e).clone();
                            cur = e;
                        }
                        _ => panic!("gep"),
                    }
                }
                match k {
                    Some(k) => off += k * scale,
                    None => {
                        let o = cx.one(&it, v);
                        idx.push((o, w, scale));
                    }
                }
            }
            out.push(Inst::Gep(dst, base, off, idx.into_boxed_slice()));
        }
        "load" => {
            while matches!(p.word(), Some("volatile" | "atomic")) {
                p.i += 1;
            }
            let ty = p.ty();
            p.eat(',');
            let pt = p.ty();
            let a = p.value(&pt);
            let a = cx.one(&pt, a);
            let fl: Vec<(u32, u32)> = ty.flat().iter().map(|x| (x.0 as u32, x.1)).collect();
            out.push(Inst::Load(a, dst, fl.into_boxed_slice()));
        }
        "store" => {
            while matches!(p.word(), Some("volatile" | "atomic")) {
                p.i += 1;
            }
            let ty = p.ty();
            let v = p.value(&ty);
            p.eat(',');
            let pt = p.ty();
            let a = p.value(&pt);
            let a = cx.one(&pt, a);
            let v = cx.flat(&ty, v);
            let fl: Vec<(u32, u32, Opd)> =
                ty.flat().iter().zip(v).map(|(x, o)| (x.0 as u32, x.1, o.0)).collect();
            out.push(Inst::Store(a, fl.into_boxed_slice()));
        }
        "alloca" => {
            while matches!(p.word(), Some("inalloca")) {
                p.i += 1;
            }
            let ty = p.ty();
            let mut n = 1u128;
            if p.is_p(',') {
                p.i += 1;
                if p.word() != Some("align") {
                    let t2 = p.ty();
                    if let CV::Int(k) = p.value(&t2) {
                        n = k;
                    } else {
                        panic!("dynamic alloca");
                    }
                }
            }
            out.push(Inst::Alloca(dst, (ty.size() * n as usize) as u32));
        }
        "extractvalue" => {
            let ty = p.ty();
            let v = p.value(&ty);
            let v = cx.flat(&ty, v);
            let mut cur = ty;
            let mut skip = 0usize;
            while p.is_p(',') {
                p.i += 1;
                match p.peek() {
                    Some(Tok::Int(k)) => {
                        let k = *k as usize;
                        p.i += 1;
                        for j in 0..k {
                            skip += cur.field(j).1.flat().len();
                        }
                        cur = cur.field(k).1;
                    }
                    _ => break,
                }
            }
            for i in 0..cur.flat().len() {
                out.push(Inst::Copy(dst + i as u32, v[skip + i].0, v[skip + i].1));
            }
        }
        "insertvalue" => {
            let ty = p.ty();
            let v = p.value(&ty);
            let v = cx.flat(&ty, v);
            p.eat(',');
            let et = p.ty();
            let e = p.value(&et);
            let e = cx.flat(&et, e);
            let mut cur = ty;
            let mut skip = 0usize;
            while p.is_p(',') {
                p.i += 1;
                match p.peek() {
                    Some(Tok::Int(k)) => {
                        let k = *k as usize;
                        p.i += 1;
                        for j in 0..k {
                            skip += cur.field(j).1.flat().len();
                        }
                        cur = cur.field(k).1;
                    }
                    _ => break,
                }
            }
            for i in 0..v.len() {
                let o = if i >= skip && i < skip + e.len() { e[i - skip] } else { v[i] };
                out.push(Inst::Copy(dst + i as u32, o.0, o.1));
            }
        }
        "insertelement" => {
            let ty = p.ty();
            let v = p.value(&ty);
            let v = cx.flat(&ty, v);
            p.eat(',');
            let et = p.ty();
            let e = p.value(&et);
            let e = cx.flat(&et, e);
            p.eat(',');
            let it = p.ty();
            let k = match p.value(&it) {
                CV::Int(k) => k as usize,
                CV::Zero => 0,
                _ => panic!("insertelement index"),
            };
            for i in 0..v.len() {
                let o = if i == k { e[0] } else { v[i] };
                out.push(Inst::Copy(dst + i as u32, o.0, o.1));
            }
        }
        "extractelement" => {
            let ty = p.ty();
            let v = p.value(&ty);
            let v = cx.flat(&ty, v);
            p.eat(',');
            let it = p.ty();
            let k = match p.value(&it) {
                CV::Int(k) => k as usize,
                CV::Zero => 0,
                _ => panic!("extractelement index"),
            };
            out.push(Inst::Copy(dst, v[k].0, v[k].1));
        }
        "shufflevector" => {
            let ty = p.ty();
            let v = p.value(&ty);
            let a = cx.flat(&ty, v);
            p.eat(',');
            let t2 = p.ty();
            let v = p.value(&t2);
            let b = cx.flat(&t2, v);
            p.eat(',');
            let mt = p.ty();
            let mk = p.value(&mt);
            let mk = cx.flat(&mt, mk);
            for (i, (o, _)) in mk.iter().enumerate() {
                let src = match o {
                    Opd::C(k) => {
                        let k = *k as usize;
                        if k < a.len() {
                            a[k]
                        } else {
                            b[k - a.len()]
                        }
                    }
                    _ => (Opd::U, a[0].1),
                };
                out.push(Inst::Copy(dst + i as u32, src.0, src.1));
            }
        }
        "call" | "tail" | "musttail" | "notail" => {
            p.i = 0;
            let rt = call_ret_ty(p);
            // an explicit function type may follow
            if p.is_p('(') {
                p.skip_parens();
            }
            let callee = match p.next() {
                Tok::Global(g) => {
                    if let Some(&f) = cx.m.fidx.get(&g) {
                        Callee::Fn(f)
                    } else {
                        Callee::Ext(cx.m.ext(&g))
                    }
                }
                Tok::Local(n) => Callee::Ind(Opd::S(cx.slots[&n])),
                Tok::Word(x) if x == "asm" => {
                    // inline assembly: only used as an optimisation barrier
                    while !matches!(p.peek(), Some(Tok::P('('))) {
                        p.i += 1;
                    }
                    Callee::Ext(cx.m.ext("llvm.inline.asm"))
                }
                x => panic!("callee {:?}", x),
            };
            p.eat('(');
            let mut args = vec![];
            while !p.is_p(')') {
                if p.word() == Some("metadata") {
                    p.i += 1;
                    // metadata operand: skip to comma or close paren
                    let mut d = 0;
                    loop {
                        match p.peek() {
                            Some(Tok::P('(' | '{' | '[')) => d += 1,
                            Some(Tok::P(')' | '}' | ']')) if d > 0 => d -= 1,
                            Some(Tok::P(')')) => break,
                            Some(Tok::P(',')) if d == 0 => break,
                            None => break,
                            _ => {}
                        }
                        p.i += 1;
                    }
                } else {
                    let ty = p.ty();
                    p.param_attrs();
                    let v = p.value(&ty);
                    args.extend(cx.flat(&ty, v));
                }
                if p.is_p(',') {
                    p.i += 1;
                }
            }
            let rw: Vec<u32> = rt.flat().iter().map(|x| x.1).collect();
            out.push(Inst::Call(callee, args.into_boxed_slice(), dst, rw.into_boxed_slice()));
        }
        "br" => {
            if p.try_word("label") {
                let t = label(cx, p);
                out.push(Inst::Br(t));
            } else {
                let ty = p.ty();
                let c = p.value(&ty);
                let c = cx.one(&ty, c);
                p.eat(',');
                assert!(p.try_word("label"));
                let a = label(cx, p);
                p.eat(',');
                assert!(p.try_word("label"));
                let b = label(cx, p);
                out.push(Inst::CondBr(c, a, b));
            }
        }
        "switch" => {
            let ty = p.ty();
            let w = match ty {
                Ty::Int(w) => w,
                _ => panic!("switch"),
            };
            let c = p.value(&ty);
            let c = cx.one(&ty, c);
            p.eat(',');
            assert!(p.try_word("label"));
            let d = label(cx, p);
            p.eat('[');
            let mut cases = vec![];
            while !p.is_p(']') {
                let t = p.ty();
                let v = match p.value(&t) {
                    CV::Int(k) => k as u64 & crate::term::mask64(w),
                    CV::Zero => 0,
                    _ => panic!("case"),
                };
                p.eat(',');
                assert!(p.try_word("label"));
                let l = label(cx, p);
                cases.push((v, l));
            }
            out.push(Inst::Switch(c, w, d, cases.into_boxed_slice()));
        }
        "ret" => {
            let ty = p.ty();
            if ty == Ty::Void {
                out.push(Inst::Ret(Box::new([])));
            } else {
                let v = p.value(&ty);
                let v = cx.flat(&ty, v);
                out.push(Inst::Ret(v.into_boxed_slice()));
            }
        }
        "unreachable" => out.push(Inst::Unreachable),
        "fence" => {}
        x => panic!("unsupported instruction {}", x),
    }
}

fn label(cx: &FnCtx, p: &mut P) -> u32 {
    match p.next() {
        Tok::Local(n) => match cx.bidx.get(&n) {
            Some(b) => *b,
            None => panic!("label {}", n),
        },
        x => panic!("label {:?}", x),
    }
}

/// dead blocks (lead to unreachable only) and immediate post-dominators
fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let succ: Vec<Vec<usize>> = f
        .blocks
        .iter()
        .map(|b| match b.insts.last() {
            Some(Inst::Br(e)) => vec![f.edges[*e as usize].to as usize],
            Some(Inst::CondBr(_, x, y)) => {
                vec![f.edges[*x as usize].to as usize, f.edges[*y as usize].to as usize]
            }
            Some(Inst::Switch(_, _, d, c)) => {
                let mut v = vec![f.edges[*d as usize].to as usize];
                v.extend(c.iter().map(|e| f.edges[e.1 as usize].to as usize));
                v
            }
            _ => vec![],
        })
        .collect();
    let mut dead: Vec<bool> =
        f.blocks.iter().map(|b| matches!(b.insts.last(), Some(Inst::Unreachable))).collect();
    loop {
        let mut ch = false;
        for b in 0..n {
            if !dead[b] && !succ[b].is_empty() && succ[b].iter().all(|s| dead[*s]) {
                dead[b] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // post-dominators on the live graph, with a virtual exit `n`
    let words = (n + 1 + 63) / 64;
    let mut pd: Vec<Vec<u64>> = vec![vec![!0u64; words]; n + 1];
    pd[n] = vec![0; words];
    pd[n][n / 64] |= 1 << (n % 64);
    let live_succ: Vec<Vec<usize>> = (0..n)
        .map(|b| {
            let s: Vec<usize> = succ[b].iter().copied().filter(|s| !dead[*s]).collect();
            if s.is_empty() {
                vec![n]
            } else {
                s
            }
        })
        .collect();
    let mut ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            let mut v = vec![!0u64; words];
            for &s in &live_succ[b] {
                for k in 0..words {
                    v[k] &= pd[s][k];
                }
            }
            v[b / 64] |= 1 << (b % 64);
            if v != pd[b] {
                pd[b] = v;
                ch = true;
            }
        }
    }
    let count = |v: &Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
    for b in 0..n {
        let mut best: Option<usize> = None;
        for k in 0..=n {
            if k != b && pd[b][k / 64] >> (k % 64) & 1 == 1 {
                // the immediate one has the largest set of its own
                if best.map(|x| count(&pd[k]) > count(&pd[x])).unwrap_or(true) {
                    best = Some(k);
                }
            }
        }
        f.blocks[b].ipdom = best.filter(|x| *x != n).map(|x| x as u32);
        f.blocks[b].dead = dead[b];
    }
}
