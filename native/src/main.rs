//! Runs the real crate and the reference natively on concrete inputs.
//!
//! Requests, one per line on stdin (hex fields, "-" for empty), one answer line
//! each, starting with SAME or DIFF:
//!   keypair SEED PRF FILL      enc PK SEED FILL      dec CT SK FILL
//!   drbg KEY V COUNTER LEN     init KEY V COUNTER ENTROPY
//!   state KEY V COUNTER KEY V COUNTER
//!   requests keypair|enc A B   fault keypair|enc CALL CODE
//!   canon keypair|enc A B      trip SEED PRF SEED
//!   pure keypair|enc|dec A B ROUNDS
//!   run keypair|enc|dec A B    (the real code alone, inputs marked secret)
//! `hunt KIND SECONDS SEED` tries structured inputs until an answer is DIFF and
//! prints the request line that shows it.
use ntru_spec as spec;
use ntrust_native::*;
use std::error::Error;
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

mod hunt;

#[no_mangle]
extern "C" fn vp_mark8(_: *mut u8, _: usize) {}
#[no_mangle]
extern "C" fn vp_mark16(_: *mut u16, _: usize) {}
#[no_mangle]
extern "C" fn vp_mark32(_: *mut i32, _: usize) {}
#[no_mangle]
extern "C" fn vp_sha3_256(out: *mut u8, inp: *const u8, n: usize) {
    use tiny_keccak::{Hasher, Sha3};
    let mut h = Sha3::v256();
    let mut o = [0u8; 32];
    unsafe {
        h.update(std::slice::from_raw_parts(inp, n));
        h.finalize(&mut o);
        std::ptr::copy_nonoverlapping(o.as_ptr(), out, 32);
    }
}
#[no_mangle]
extern "C" fn vp_aes256(out: *mut u8, key: *const u8, inp: *const u8) {
    use aes::cipher::generic_array::GenericArray;
    use aes::cipher::{BlockEncrypt, NewBlockCipher};
    unsafe {
        let c = aes::Aes256::new(GenericArray::from_slice(std::slice::from_raw_parts(key, 32)));
        let mut x = *GenericArray::from_slice(std::slice::from_raw_parts(inp, 16));
        c.encrypt_block(&mut x);
        std::ptr::copy_nonoverlapping(x.as_ptr(), out, 16);
    }
}

#[derive(Debug)]
pub struct Refused(pub u32);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "refused by the test generator")
    }
}
impl Error for Refused {}

/// Serves a byte stream; records what was asked for.
pub struct Tape {
    pub stream: Vec<u8>,
    pub pos: usize,
    pub asked: Vec<usize>,
    pub fail_at: usize,
    pub code: u32,
    pub inits: usize,
}
impl Tape {
    pub fn new(parts: &[&[u8]]) -> Tape {
        Tape { stream: parts.concat(), pos: 0, asked: vec![], fail_at: usize::MAX, code: 0, inits: 0 }
    }
}
impl RNGState for Tape {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let i = self.asked.len();
        self.asked.push(x.len());
        if i == self.fail_at {
            return Err(Box::new(Refused(self.code)));
        }
        if x.len() <= self.stream.len() - self.pos {
            x.copy_from_slice(&self.stream[self.pos..self.pos + x.len()]);
            self.pos += x.len();
        } else {
            x.fill(0xA5);
        }
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {
        self.inits += 1;
    }
}

pub enum Out {
    Bytes(Vec<u8>),
    Failed(String),
}
impl Out {
    pub fn text(&self) -> String {
        match self {
            Out::Bytes(b) => hex::encode(b),
            Out::Failed(s) => s.clone(),
        }
    }
    pub fn is(&self, b: &[u8]) -> bool {
        matches!(self, Out::Bytes(x) if x == b)
    }
}

fn guard<F: FnOnce() -> Result<Vec<u8>, String>>(f: F) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(b)) => Out::Bytes(b),
        Ok(Err(e)) => Out::Failed(format!("error:{}", e)),
        Err(p) => Out::Failed(format!(
            "panic:{}",
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

fn arr<const K: usize>(b: &[u8]) -> [u8; K] {
    let mut r = [0u8; K];
    r.copy_from_slice(b);
    r
}

fn filled<const K: usize>(fill: &[u8]) -> [u8; K] {
    let mut r = [0u8; K];
    for i in 0..K {
        r[i] = if fill.is_empty() { 0 } else { fill[i % fill.len()] };
    }
    r
}

pub fn real_keypair(seed: &[u8], prf: &[u8], fill: &[u8]) -> Out {
    let mut t = Tape::new(&[seed, prf]);
    guard(|| {
        let mut pk = filled::<CRYPTO_PUBLICKEYBYTES>(fill);
        let mut sk = filled::<CRYPTO_SECRETKEYBYTES>(fill);
        crypto_kem_keypair(&mut pk, &mut sk, &mut t).map_err(|e| e.to_string())?;
        Ok([&pk[..], &sk[..]].concat())
    })
}
pub fn spec_keypair(seed: &[u8], prf: &[u8]) -> Vec<u8> {
    let mut pk = [0u8; spec::PK_BYTES];
    let mut sk = [0u8; spec::SK_BYTES];
    spec::keypair(&mut pk, &mut sk, &arr(seed), &arr(prf));
    [&pk[..], &sk[..]].concat()
}
pub fn real_enc(pk: &[u8], seed: &[u8], fill: &[u8]) -> Out {
    let mut t = Tape::new(&[seed]);
    guard(|| {
        let mut ct = filled::<CRYPTO_CIPHERTEXTBYTES>(fill);
        let mut key = filled::<CRYPTO_BYTES>(fill);
        crypto_kem_enc(&mut ct, &mut key, &arr(pk), &mut t).map_err(|e| e.to_string())?;
        Ok([&ct[..], &key[..]].concat())
    })
}
pub fn spec_enc(pk: &[u8], seed: &[u8]) -> Vec<u8> {
    let mut ct = [0u8; spec::CT_BYTES];
    let mut key = [0u8; 32];
    spec::encaps(&mut ct, &mut key, &arr(pk), &arr(seed));
    [&ct[..], &key[..]].concat()
}
pub fn real_dec(ct: &[u8], sk: &[u8], fill: &[u8]) -> Out {
    guard(|| {
        let mut key = filled::<CRYPTO_BYTES>(fill);
        crypto_kem_dec(&mut key, &arr(ct), &arr(sk)).map_err(|e| e.to_string())?;
        Ok(key.to_vec())
    })
}
/// (key, accepted)
pub fn spec_dec(ct: &[u8], sk: &[u8]) -> (Vec<u8>, bool) {
    let mut key = [0u8; 32];
    let ok = spec::decaps(&mut key, &arr(ct), &arr(sk));
    (key.to_vec(), ok)
}
pub fn real_drbg(key: &[u8], v: &[u8], ctr: i32, n: usize) -> Out {
    guard(|| {
        let mut s = AesState::new();
        s.key = arr(key);
        s.v = arr(v);
        s.reseed_counter = ctr;
        let mut o = vec![0x5Au8; n];
        s.randombytes(&mut o).map_err(|e| e.to_string())?;
        o.extend(s.key);
        o.extend(s.v);
        o.extend(s.reseed_counter.to_le_bytes());
        Ok(o)
    })
}
pub fn spec_drbg(key: &[u8], v: &[u8], ctr: i32, n: usize) -> Vec<u8> {
    let mut s = spec::Drbg { key: arr(key), v: arr(v), reseed_counter: ctr };
    let mut o = vec![0u8; n];
    s.generate(&mut o);
    o.extend(s.key);
    o.extend(s.v);
    o.extend(s.reseed_counter.to_le_bytes());
    o
}
pub fn real_init(key: &[u8], v: &[u8], ctr: i32, entropy: &[u8]) -> Out {
    guard(|| {
        let mut s = AesState::new();
        s.key = arr(key);
        s.v = arr(v);
        s.reseed_counter = ctr;
        s.randombytes_init(arr(entropy));
        let mut o = s.key.to_vec();
        o.extend(s.v);
        o.extend(s.reseed_counter.to_le_bytes());
        Ok(o)
    })
}
pub fn spec_init(entropy: &[u8]) -> Vec<u8> {
    let mut s = spec::Drbg { key: [0; 32], v: [0; 16], reseed_counter: 0 };
    s.init(&arr(entropy));
    let mut o = s.key.to_vec();
    o.extend(s.v);
    o.extend(s.reseed_counter.to_le_bytes());
    o
}

/// requests made during one call, and whether the call succeeded
fn requests(entry: &str, a: &[u8], b: &[u8]) -> (Vec<usize>, usize, Out) {
    let mut t = Tape::new(&if entry == "keypair" { vec![a, b] } else { vec![b] });
    let r = guard(|| {
        if entry == "keypair" {
            crypto_kem_keypair(&mut [0; CRYPTO_PUBLICKEYBYTES], &mut [0; CRYPTO_SECRETKEYBYTES], &mut t)
        } else {
            crypto_kem_enc(&mut [0; CRYPTO_CIPHERTEXTBYTES], &mut [0; CRYPTO_BYTES], &arr(a), &mut t)
        }
        .map_err(|e| e.to_string())?;
        Ok(vec![])
    });
    (t.asked, t.inits, r)
}

fn trits_ok(b: &[u8]) -> bool {
    let top = 3u32.pow(((spec::N - 1) % 5) as u32);
    let top = if top == 1 { 243 } else { top };
    b[..b.len() - 1].iter().all(|x| *x < 243) && (b[b.len() - 1] as u32) < top
}
fn pad_ok(b: &[u8]) -> bool {
    let free = 8 * b.len() - spec::LOGQ * (spec::N - 1);
    free == 0 || (b[b.len() - 1] as u32) >> (8 - free) == 0
}
/// are the outputs of this call in their documented encodings?
pub fn canon(entry: &str, a: &[u8], b: &[u8]) -> (bool, Out) {
    if entry == "keypair" {
        let r = real_keypair(a, b, &[0x5a]);
        let ok = match &r {
            Out::Bytes(o) => {
                let (pk, sk) = o.split_at(spec::PK_BYTES);
                let t = spec::TRIT_BYTES;
                pad_ok(pk) && trits_ok(&sk[..t]) && trits_ok(&sk[t..2 * t]) && pad_ok(&sk[2 * t..2 * t + spec::PK_BYTES])
            }
            _ => false,
        };
        (ok, r)
    } else {
        let r = real_enc(a, b, &[0x5a]);
        let ok = matches!(&r, Out::Bytes(o) if pad_ok(&o[..spec::CT_BYTES]));
        (ok, r)
    }
}

fn one(entry: &str, a: &[u8], b: &[u8], fill: &[u8]) -> Out {
    match entry {
        "keypair" => real_keypair(a, b, fill),
        "enc" => real_enc(a, b, fill),
        _ => real_dec(a, b, fill),
    }
}

/// the same call again and again, with other calls and other buffer contents
/// in between and on other threads
pub fn pure(entry: &str, a: &[u8], b: &[u8], rounds: usize) -> Result<usize, (usize, String, String)> {
    if entry == "honest" {
        // decapsulation of a ciphertext that is accepted: a, b are the coins
        let Out::Bytes(k) = real_keypair(a, &[1; 32], &[]) else { return Ok(0) };
        let (pk, sk) = k.split_at(spec::PK_BYTES);
        let Out::Bytes(c) = real_enc(pk, b, &[]) else { return Ok(0) };
        return pure("dec", &c[..spec::CT_BYTES], sk, rounds);
    }
    let first = one(entry, a, b, &[]).text();
    let start = std::time::Instant::now();
    for i in 0..rounds {
        if start.elapsed().as_secs() >= 60 {
            return Ok(i);
        }
        let fill = [0u8, 255, 0x5a, i as u8];
        let fill = &fill[i % 4..i % 4 + 1];
        match i % 5 {
            1 => {
                let seed = vec![i as u8; spec::SEED_BYTES];
                real_enc(&vec![!(i as u8); spec::PK_BYTES], &seed, fill);
            }
            2 => {
                real_dec(&vec![i as u8; spec::CT_BYTES], &vec![7; spec::SK_BYTES], fill);
            }
            3 if i % 50 == 3 => {
                real_keypair(&vec![i as u8; spec::SEED_BYTES], &[3; 32], fill);
            }
            _ => {}
        }
        let r = if i % 7 == 6 {
            let (e, a, b, f) = (entry.to_string(), a.to_vec(), b.to_vec(), fill.to_vec());
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || one(&e, &a, &b, &f).text());
            t.unwrap().join().unwrap()
        } else {
            one(entry, a, b, fill).text()
        };
        if r != first {
            return Err((i, first, r));
        }
    }
    Ok(rounds)
}

pub fn trip(seed: &[u8], prf: &[u8], seed2: &[u8]) -> (bool, String) {
    let k = real_keypair(seed, prf, &[]);
    let Out::Bytes(k) = k else { return (false, k.text()) };
    let (pk, sk) = k.split_at(spec::PK_BYTES);
    let c = real_enc(pk, seed2, &[]);
    let Out::Bytes(c) = c else { return (false, c.text()) };
    let (ct, key) = c.split_at(spec::CT_BYTES);
    let d = real_dec(ct, sk, &[]);
    (d.is(key), format!("enc={} dec={}", hex::encode(key), d.text()))
}

/// memcheck client request: the bytes count as undefined from here on
#[cfg(target_arch = "x86_64")]
fn secret(b: &mut [u8]) {
    let req: [u64; 6] = [0x4d43_0001, b.as_mut_ptr() as u64, b.len() as u64, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") req.as_ptr(), inout("rdx") 0u64 => _, options(nostack)
        );
    }
}

#[inline(never)]
fn run(entry: &str, a: &mut [u8], b: &mut [u8]) {
    match entry {
        "keypair" => {
            secret(a);
            secret(b);
            let mut t = Tape::new(&[a, b]);
            let mut pk = Box::new([0; CRYPTO_PUBLICKEYBYTES]);
            let mut sk = Box::new([0; CRYPTO_SECRETKEYBYTES]);
            let _ = crypto_kem_keypair(&mut pk, &mut sk, &mut t);
        }
        "enc" => {
            secret(b);
            let mut t = Tape::new(&[b]);
            let pk = arr(a);
            let _ = crypto_kem_enc(&mut [0; CRYPTO_CIPHERTEXTBYTES], &mut [0; CRYPTO_BYTES], &pk, &mut t);
        }
        _ => {
            secret(b);
            let (ct, sk) = (arr(a), arr(b));
            let _ = crypto_kem_dec(&mut [0; CRYPTO_BYTES], &ct, &sk);
        }
    }
}

fn answer(line: &str) -> String {
    let f: Vec<&str> = line.split_whitespace().collect();
    let h = |i: usize| -> Vec<u8> {
        if f[i] == "-" {
            vec![]
        } else {
            hex::decode(f[i]).unwrap()
        }
    };
    let num = |i: usize| -> i64 { f[i].parse().unwrap() };
    let tag = |ok: bool| if ok { "SAME" } else { "DIFF" };
    let verdict = |real: Out, want: Vec<u8>, extra: &str| {
        format!("{}{} real={} reference={}", tag(real.is(&want)), extra, real.text(), hex::encode(&want))
    };
    match f[0] {
        "keypair" => verdict(real_keypair(&h(1), &h(2), &h(3)), spec_keypair(&h(1), &h(2)), ""),
        "enc" => verdict(real_enc(&h(1), &h(2), &h(3)), spec_enc(&h(1), &h(2)), ""),
        "dec" => {
            let (k, ok) = spec_dec(&h(1), &h(2));
            verdict(real_dec(&h(1), &h(2), &h(3)), k, if ok { " accept" } else { " reject" })
        }
        "drbg" => verdict(
            real_drbg(&h(1), &h(2), num(3) as i32, num(4) as usize),
            spec_drbg(&h(1), &h(2), num(3) as i32, num(4) as usize),
            "",
        ),
        "init" => verdict(real_init(&h(1), &h(2), num(3) as i32, &h(4)), spec_init(&h(4)), ""),
        "state" => {
            let s = AesState { key: arr(&h(1)), v: arr(&h(2)), reseed_counter: num(3) as i32 };
            let o = AesState { key: arr(&h(4)), v: arr(&h(5)), reseed_counter: num(6) as i32 };
            let eq = (s.key, s.v, s.reseed_counter) == (o.key, o.v, o.reseed_counter);
            let c = s.clone();
            let n = AesState::new();
            let d = AesState::default();
            let zero = |x: &AesState| (x.key, x.v, x.reseed_counter) == ([0; 32], [0; 16], 0);
            let ok = (s == o) == eq
                && (c.key, c.v, c.reseed_counter) == (s.key, s.v, s.reseed_counter)
                && zero(&n)
                && zero(&d);
            format!("{} equal={} expected={} copy={:?} fresh={:?} default={:?}", tag(ok), s == o, eq, c, n, d)
        }
        "requests" => {
            let (asked, inits, r) = requests(f[1], &h(2), &h(3));
            let want: Vec<usize> = if f[1] == "keypair" { vec![spec::SEED_BYTES, 32] } else { vec![spec::SEED_BYTES] };
            let ok = asked == want && inits == 0 && matches!(r, Out::Bytes(_));
            format!("{} requests={:?} expected={:?} reinitialised={} {}", tag(ok), asked, want, inits, r.text())
        }
        "canon" => {
            let (ok, r) = canon(f[1], &h(2), &h(3));
            format!("{} outputs={}", tag(ok), r.text())
        }
        "trip" => {
            let (ok, t) = trip(&h(1), &h(2), &h(3));
            format!("{} {}", tag(ok), t)
        }
        "pure" => match pure(f[1], &h(2), &h(3), num(4) as usize) {
            Ok(n) => format!("SAME {} repetitions", n),
            Err((i, a, b)) => format!("DIFF repetition={} first={} later={}", i, a, b),
        },
        "run" => {
            let (mut a, mut b) = (h(2), h(3));
            run(f[1], &mut a, &mut b);
            "SAME ran".into()
        }
        "fault" => {
            let at = num(2) as usize;
            let code = num(3) as u32;
            let mut t = Tape::new(&[&[7; spec::SEED_BYTES], &[9; 32]]);
            t.fail_at = at;
            t.code = code;
            let r = guard(|| {
                let r = if f[1] == "keypair" {
                    crypto_kem_keypair(&mut [0; CRYPTO_PUBLICKEYBYTES], &mut [0; CRYPTO_SECRETKEYBYTES], &mut t)
                } else {
                    crypto_kem_enc(&mut [0; CRYPTO_CIPHERTEXTBYTES], &mut [0; CRYPTO_BYTES], &[3; CRYPTO_PUBLICKEYBYTES], &mut t)
                };
                match r {
                    Ok(()) => Ok(vec![]),
                    Err(e) => Err(match e.downcast_ref::<Refused>() {
                        Some(x) if x.0 == code => "refused".into(),
                        _ => format!("another error: {}", e),
                    }),
                }
            });
            let good = matches!(&r, Out::Failed(s) if s == "error:refused") && t.asked.len() == at + 1;
            let text = if matches!(r, Out::Bytes(_)) { "reported success".to_string() } else { r.text() };
            format!("{} {} requests={:?}", tag(good), text, t.asked)
        }
        x => panic!("request {}", x),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        if a.len() > 1 && a[1] == "hunt" {
            hunt::hunt(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            return;
        }
        if a.len() > 1 && a[1] == "sizes" {
            println!(
                "pk={} sk={} ct={} seed={} trits={}",
                spec::PK_BYTES, spec::SK_BYTES, spec::CT_BYTES, spec::SEED_BYTES, spec::TRIT_BYTES
            );
            return;
        }
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            if !l.trim().is_empty() {
                println!("{}", answer(&l));
            }
        }
    });
    th.unwrap().join().unwrap();
}
