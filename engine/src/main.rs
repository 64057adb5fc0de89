mod exec;
mod ir;
mod smt;
mod term;

use std::cell::RefCell;
use std::rc::Rc;
use std::time::Instant;

/// real SHA-3 / AES when every argument is known
pub fn concrete_uf(f: u32, b: &[u8], ol: usize) -> Option<Vec<u8>> {
    match f {
        256 => {
            use tiny_keccak::{Hasher, Sha3};
            let mut h = Sha3::v256();
            h.update(b);
            let mut o = vec![0u8; 32];
            h.finalize(&mut o);
            o.truncate(ol);
            Some(o)
        }
        10_256 => {
            use aes::cipher::generic_array::GenericArray;
            use aes::cipher::{BlockEncrypt, NewBlockCipher};
            let c = aes::Aes256::new(GenericArray::from_slice(&b[..32]));
            let mut x = *GenericArray::from_slice(&b[32..48]);
            c.encrypt_block(&mut x);
            Some(x.to_vec())
        }
        _ => None,
    }
}

fn main() {
    let th = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = th.join().unwrap_or(3);
    std::process::exit(code);
}

struct Opts {
    file: String,
    entry: String,
    modw: u32,
    seed: u64,
    timeout: u64,
    limit: u64,
    out: Option<String>,
    preset: Vec<(u32, Vec<Option<u8>>)>,
    search: bool,
    cross: bool,
    deep: bool,
    verbose: bool,
    public: Vec<u32>,
    dump: Option<String>,
}

/// "id:hex", where ?? is a symbolic byte and a trailing * makes the rest symbolic
fn preset(s: &str) -> (u32, Vec<Option<u8>>) {
    let (id, h) = s.split_once(':').expect("preset");
    let mut v = vec![];
    let h = h.as_bytes();
    let mut i = 0;
    while i + 1 < h.len() {
        let x = std::str::from_utf8(&h[i..i + 2]).unwrap();
        v.push(if x == "??" { None } else { Some(u8::from_str_radix(x, 16).expect("preset")) });
        i += 2;
    }
    (id.parse().unwrap(), v)
}

fn options() -> Opts {
    let args: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        file: args[1].clone(),
        entry: String::new(),
        modw: 0,
        seed: 1,
        timeout: 20_000,
        limit: 0,
        out: None,
        preset: vec![],
        search: false,
        cross: false,
        deep: false,
        verbose: false,
        public: vec![],
        dump: None,
    };
    let mut i = 2;
    while i < args.len() {
        let name = args[i].clone();
        let mut arg = || {
            i += 1;
            args[i].clone()
        };
        match name.as_str() {
            "--entry" => o.entry = arg(),
            "--modw" => o.modw = arg().parse().unwrap(),
            "--seed" => o.seed = arg().parse().unwrap(),
            "--timeout" => o.timeout = arg().parse().unwrap(),
            "--limit" => o.limit = arg().parse().unwrap(),
            "--out" => o.out = Some(arg()),
            "--preset" => o.preset.push(preset(&arg())),
            "--presets" => {
                let f = std::fs::read_to_string(arg()).unwrap();
                o.preset.extend(f.lines().filter(|l| !l.is_empty()).map(preset));
            }
            "--public" => o.public = arg().split(',').map(|x| x.parse().unwrap()).collect(),
            "--search" => o.search = true,
            "--deep" => o.deep = true,
            "--cross" => o.cross = true,
            "--dump" => o.dump = Some(arg()),
            "-v" => o.verbose = true,
            x => panic!("argument {}", x),
        }
        i += 1;
    }
    o
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// the symbolic buffers under a model, bytes the model leaves open being zero
fn buffers(e: &exec::Eng, model: &[(u32, u128)]) -> String {
    let m: std::collections::HashMap<u32, u128> = model.iter().copied().collect();
    let mut r = vec![];
    for (id, v) in &e.inputs {
        let mut h = String::new();
        for t in v {
            let b = e.t.val(*t).or(m.get(t).copied()).unwrap_or(0);
            h.push_str(&format!("{:02x}", b as u8));
        }
        r.push(format!("\"{}\":\"{}\"", id, h));
    }
    format!("{{{}}}", r.join(","))
}

fn real_main() -> i32 {
    let o = options();
    let start = Instant::now();
    let text = std::fs::read_to_string(&o.file).expect("input file");
    let m = ir::Module::parse(&text);
    let solver = Rc::new(RefCell::new(smt::Solver::new(
        vec!["z3-new".into(), "-in".into(), "-smt2".into()],
        if o.cross {
            Some(vec!["cvc5".into(), "--lang=smt2".into(), "--tlimit=20000".into(), "-".into()])
        } else {
            None
        },
        o.timeout,
    )));
    let mut e = exec::Eng::new(&m, solver.clone(), o.seed);
    e.verbose = o.verbose;
    e.ct = true;
    if o.limit > 0 {
        e.limit = Some(start + std::time::Duration::from_secs(o.limit));
    }
    e.search = o.search;
    e.cuts_on = !o.search;
    for (k, v) in o.preset {
        e.preset.insert(k, v);
    }
    {
        let mut s = solver.borrow_mut();
        s.trace = std::env::var("TRACE").is_ok();
        s.models = o.search;
        s.dump = o.dump.map(|f| std::fs::File::create(f).unwrap());
    }
    e.t.modw = o.modw;
    e.t.deep = o.deep;
    let s2 = solver.clone();
    e.t.pending = Some(Box::new(move |t, x, d| s2.borrow_mut().prove_eq(t, x, d)));
    let f = match m.fidx.get(&o.entry) {
        Some(f) => *f,
        None => {
            eprintln!("no function {}", o.entry);
            return 4;
        }
    };
    let r = e.call(f, vec![]);
    let result = match &r {
        Ok(_) => "complete".to_string(),
        Err(exec::Stop::Panic(p)) => format!("panic {}", p),
        Err(exec::Stop::Assume) => "vacuous".to_string(),
        Err(exec::Stop::Error(x)) => format!("error {}", x),
    };
    let mut witness: Vec<String> = vec![];
    let mut verdict = "none";
    let pre = e.pc.clone();
    if o.search && r.is_ok() {
        if e.pairs.is_empty() && e.conds.is_empty() {
            verdict = "unsat";
        } else {
            let (v, model) = solver.borrow_mut().search(&e.t, &e.pairs, &e.conds, &pre, &e.known, 3_000_000);
            verdict = match v {
                smt::Res::Unsat => "unsat",
                smt::Res::Sat => "sat",
                smt::Res::Unknown => "unknown",
            };
            if v == smt::Res::Sat {
                witness.push(format!("{{\"kind\":\"assert\",\"buffers\":{}}}", buffers(&e, &model)));
            }
        }
    }
    // concrete inputs for what could not be shown
    let mut tries = 0;
    if !o.search {
        for k in 0..e.asserts.len() {
            let a = &e.asserts[k];
            if tries >= 3 {
                break;
            }
            tries += 1;
            let (pairs, conds) = match (a.a, a.b) {
                (Some(x), Some(y)) => (vec![(x, y)], vec![]),
                (Some(x), None) => (vec![], vec![x]),
                _ => (vec![], vec![1]),
            };
            let (v, model) = solver.borrow_mut().search(&e.t, &pairs, &conds, &pre, &e.known, 40_000);
            if v == smt::Res::Sat {
                witness.push(format!(
                    "{{\"kind\":\"assert\",\"label\":{},\"index\":{},\"buffers\":{}}}",
                    a.label,
                    a.index,
                    buffers(&e, &model)
                ));
                break;
            }
        }
    }
    tries = 0;
    let mut events = vec![];
    for k in 0..e.events.len() {
        let a = e.events[k].clone();
        let mut public = false;
        if let Some(t) = a.term {
            if !o.public.is_empty() {
                public = e.only_inputs(t, &o.public);
            }
        }
        let mut b = String::from("null");
        if let (Some(t), "panic", true) = (a.term, a.kind, tries < 6) {
            tries += 1;
            let mut pre = a.pc.clone();
            pre.extend(&e.pc);
            let (v, model) = solver.borrow_mut().search(&e.t, &[], &[t], &pre, &e.known, 40_000);
            if v == smt::Res::Sat {
                b = buffers(&e, &model);
            }
        }
        events.push(format!(
            "{{\"kind\":{},\"site\":{},\"detail\":{},\"verdict\":{},\"public\":{},\"buffers\":{}}}",
            js(a.kind),
            js(&a.site),
            js(&a.detail),
            js(a.verdict),
            public,
            b
        ));
    }
    let s = solver.borrow();
    let mut failed: std::collections::BTreeMap<(u32, &str), u64> = Default::default();
    for a in &e.asserts {
        *failed.entry((a.label, a.verdict)).or_insert(0) += 1;
    }
    let failed: Vec<String> =
        failed.iter().map(|((l, v), n)| format!("{{\"label\":{},\"verdict\":\"{}\",\"count\":{}}}", l, v, n)).collect();
    let proved: Vec<String> = e.proved_label.iter().map(|(l, n)| format!("\"{}\":{}", l, n)).collect();
    let funcs: Vec<String> = e.funcs_run.iter().map(|f| js(&m.funcs[*f as usize].name)).collect();
    let known: Vec<String> =
        e.outputs.iter().map(|(l, b)| format!("\"{}\":\"{}\"", l, b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect();
    let json = format!(
        "{{\"entry\":{},\"result\":{},\"search\":{},\"proved\":{{{}}},\"structural\":{},\"failed\":[{}],\"events\":[{}],\"witness\":[{}],\
\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"cached\":{},\"normal\":{},\"crossed\":{},\"cross_mismatch\":{},\"solver_s\":{:.2},\"wall_s\":{:.2},\
\"steps\":{},\"terms\":{},\"cuts\":{},\"compared\":{},\"matched\":{},\"panic_checks\":{},\"panic_excluded\":{},\"branches\":{},\"functions\":[{}],\"outputs\":{{{}}}}}\n",
        js(&o.entry),
        js(&result),
        js(verdict),
        proved.join(","),
        e.proved_struct,
        failed.join(","),
        events.join(","),
        witness.join(","),
        s.queries,
        s.unsat,
        s.sat,
        s.unknown,
        s.cached,
        s.normal,
        s.crossed,
        s.cross_mismatch,
        s.time,
        start.elapsed().as_secs_f64(),
        e.steps,
        e.t.n.len(),
        e.t.cut_of.len(),
        e.t.stat_cand,
        e.t.stat_match,
        e.panic_checks,
        e.panic_decided,
        e.branch_sym,
        funcs.join(","),
        known.join(",")
    );
    match &o.out {
        Some(f) => std::fs::write(f, json).unwrap(),
        None => print!("{}", json),
    }
    // the tables are large and need no tidy end
    use std::io::Write;
    let _ = std::io::stdout().flush();
    drop(s);
    solver.borrow_mut().stop();
    std::process::exit(0)
}
