//! Entry points of the symbolic executions.  Buffers get symbolic contents
//! through `vp_symbolic`; what the code under test computes is compared by
//! `vp_assert*`.  Nothing here names a private item of the crate.
#![no_std]
extern crate std;
use ntru_spec as spec;
use ntrust_native::*;
use std::boxed::Box;
use std::error::Error;

extern "C" {
    /// fill with symbolic bytes (or the bytes prepared for this buffer)
    fn vp_symbolic(p: *mut u8, n: usize, id: u32);
    /// 0 reference, 1 code under test (compared with the reference as it runs),
    /// 3 code under test on its own, 2 neither
    fn vp_phase(p: u32);
    fn vp_assert_eq(a: *const u8, b: *const u8, n: usize, label: u32);
    fn vp_assert(c: u32, label: u32);
    fn vp_assume(c: u32);
}

const OK: u32 = 1;
const REQUESTS: u32 = 2;
const ERROR: u32 = 3;
const FIRST: u32 = 10; // public key, ciphertext
const SECOND: u32 = 11; // secret key, shared key
const STATE: u32 = 12;

fn sym(p: &mut [u8], id: u32) {
    unsafe { vp_symbolic(p.as_mut_ptr(), p.len(), id) }
}
/// a parameter of the run itself; prepared, never symbolic
fn param(id: u32) -> u32 {
    let mut b = [0u8; 4];
    sym(&mut b, id);
    u32::from_le_bytes(b)
}
fn phase(p: u32) {
    unsafe { vp_phase(p) }
}
fn assert_eq(a: &[u8], b: &[u8], label: u32) {
    unsafe { vp_assert_eq(a.as_ptr(), b.as_ptr(), a.len(), label) }
}
fn check(c: bool, label: u32) {
    unsafe { vp_assert(c as u32, label) }
}
fn assume(c: bool) {
    unsafe { vp_assume(c as u32) }
}

#[derive(Debug)]
struct RngFailure([u8; 4]);
impl std::fmt::Display for RngFailure {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl Error for RngFailure {}

const TAPE: usize = spec::SEED_BYTES + spec::PRF_BYTES;

/// Serves a symbolic byte string; fails at the `fail_at`-th request.
struct Tape {
    tape: [u8; TAPE],
    len: usize,
    pos: usize,
    calls: usize,
    inits: usize,
    lens: [usize; 4],
    fail_at: usize,
    code: [u8; 4],
}
impl Tape {
    fn new(parts: &[&[u8]], fail_at: usize) -> Tape {
        let mut t = Tape {
            tape: [0; TAPE],
            len: 0,
            pos: 0,
            calls: 0,
            inits: 0,
            lens: [0; 4],
            fail_at,
            code: [0; 4],
        };
        for p in parts {
            t.tape[t.len..t.len + p.len()].copy_from_slice(p);
            t.len += p.len();
        }
        t
    }
    fn asked(&self, lens: &[usize]) -> bool {
        self.inits == 0 && self.calls == lens.len() && self.lens[..lens.len()] == *lens
    }
}
impl RNGState for Tape {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let i = self.calls;
        self.calls += 1;
        if i < 4 {
            self.lens[i] = x.len();
        }
        if i == self.fail_at {
            return Err(Box::new(RngFailure(self.code)));
        }
        if x.len() <= self.len - self.pos {
            x.copy_from_slice(&self.tape[self.pos..self.pos + x.len()]);
            self.pos += x.len();
        } else {
            sym(x, 100 + i as u32);
        }
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {
        self.inits += 1;
    }
}

fn settle(r: Result<(), Box<dyn Error>>) {
    let ok = r.is_ok();
    core::mem::forget(r);
    check(ok, OK);
}

/// parameter 61: 1 makes the expected value wrong, so that the run must fail
fn spoil(b: &mut [u8]) {
    if param(61) == 1 {
        b[0] ^= 1;
    }
}

// ---------------------------------------------------------------- conformance

#[no_mangle]
pub fn vp_keypair() {
    let mut seed = [0u8; spec::SEED_BYTES];
    let mut prf = [0u8; spec::PRF_BYTES];
    sym(&mut seed, 1);
    sym(&mut prf, 2);
    let mut pk0 = [0u8; spec::PK_BYTES];
    let mut sk0 = [0u8; spec::SK_BYTES];
    phase(0);
    spec::keypair(&mut pk0, &mut sk0, &seed, &prf);
    let mut pk = [0u8; CRYPTO_PUBLICKEYBYTES];
    let mut sk = [0u8; CRYPTO_SECRETKEYBYTES];
    sym(&mut pk, 3);
    sym(&mut sk, 4);
    let mut rng = Tape::new(&[&seed, &prf], 99);
    phase(1);
    let r = crypto_kem_keypair(&mut pk, &mut sk, &mut rng);
    phase(2);
    settle(r);
    spoil(&mut sk0);
    assert_eq(&pk, &pk0, FIRST);
    assert_eq(&sk, &sk0, SECOND);
}

#[no_mangle]
pub fn vp_enc() {
    let mut seed = [0u8; spec::SEED_BYTES];
    let mut pk = [0u8; spec::PK_BYTES];
    sym(&mut seed, 1);
    sym(&mut pk, 2);
    let mut ct0 = [0u8; spec::CT_BYTES];
    let mut key0 = [0u8; 32];
    phase(0);
    spec::encaps(&mut ct0, &mut key0, &pk, &seed);
    let mut ct = [0u8; CRYPTO_CIPHERTEXTBYTES];
    let mut key = [0u8; CRYPTO_BYTES];
    sym(&mut ct, 3);
    sym(&mut key, 4);
    let mut rng = Tape::new(&[&seed], 99);
    phase(1);
    let r = crypto_kem_enc(&mut ct, &mut key, &pk, &mut rng);
    phase(2);
    settle(r);
    spoil(&mut ct0);
    assert_eq(&ct, &ct0, FIRST);
    assert_eq(&key, &key0, SECOND);
}

/// parameter 60: 1 = accepted ciphertexts only, 2 = rejected ones only
#[no_mangle]
pub fn vp_dec() {
    let mut ct = [0u8; spec::CT_BYTES];
    let mut sk = [0u8; spec::SK_BYTES];
    let only = param(60);
    sym(&mut ct, 1);
    sym(&mut sk, 2);
    let mut key0 = [0u8; 32];
    phase(0);
    let accepted = spec::decaps(&mut key0, &ct, &sk);
    let mut key = [0u8; CRYPTO_BYTES];
    sym(&mut key, 3);
    phase(1);
    let r = crypto_kem_dec(&mut key, &ct, &sk);
    phase(2);
    if only == 1 {
        assume(accepted);
    }
    if only == 2 {
        assume(!accepted);
    }
    settle(r);
    spoil(&mut key0);
    assert_eq(&key, &key0, FIRST);
}

/// A ciphertext with a non-zero unused bit is never accepted.  Decided from
/// the code alone, whatever it computes otherwise.
#[no_mangle]
pub fn vp_padding() {
    let mut ct = [0u8; spec::CT_BYTES];
    let mut sk = [0u8; spec::SK_BYTES];
    sym(&mut ct, 1);
    sym(&mut sk, 2);
    let mut key0 = [0u8; 32];
    phase(0);
    spec::rejection_key(&mut key0, &ct, &sk);
    let mut key = [0u8; CRYPTO_BYTES];
    sym(&mut key, 3);
    phase(3);
    let r = crypto_kem_dec(&mut key, &ct, &sk);
    phase(2);
    assume(!pad_ok(&ct));
    settle(r);
    spoil(&mut key0);
    assert_eq(&key, &key0, FIRST);
}

// ------------------------------------------------------- the code on its own

/// Every ternary byte holds `k` base-3 digits, unused top bits are zero.
fn trits_ok(b: &[u8], label: u32) {
    let n = b.len();
    let last = (spec::N - 1) % 5;
    let top = match last {
        0 => 243u32,
        1 => 3,
        2 => 9,
        3 => 27,
        _ => 81,
    };
    for i in 0..n {
        check((b[i] as u32) < if i < n - 1 { 243 } else { top }, label);
    }
}
fn pad_ok(b: &[u8]) -> bool {
    let used = spec::LOGQ * (spec::N - 1);
    let free = 8 * b.len() - used;
    free == 0 || (b[b.len() - 1] as u32) >> (8 - free) == 0
}

#[no_mangle]
pub fn vp_keypair_real() {
    let mut seed = [0u8; spec::SEED_BYTES];
    let mut prf = [0u8; spec::PRF_BYTES];
    sym(&mut seed, 1);
    sym(&mut prf, 2);
    let mut pk = [0u8; CRYPTO_PUBLICKEYBYTES];
    let mut sk = [0u8; CRYPTO_SECRETKEYBYTES];
    sym(&mut pk, 3);
    sym(&mut sk, 4);
    let mut rng = Tape::new(&[&seed, &prf], 99);
    phase(3);
    let r = crypto_kem_keypair(&mut pk, &mut sk, &mut rng);
    phase(2);
    settle(r);
    check(rng.asked(&[spec::SEED_BYTES, spec::PRF_BYTES]), REQUESTS);
    check(pad_ok(&pk), FIRST);
    let t = spec::TRIT_BYTES;
    trits_ok(&sk[..t], SECOND);
    trits_ok(&sk[t..2 * t], SECOND);
    check(pad_ok(&sk[2 * t..2 * t + spec::PK_BYTES]), SECOND);
}

#[no_mangle]
pub fn vp_enc_real() {
    let mut seed = [0u8; spec::SEED_BYTES];
    let mut pk = [0u8; spec::PK_BYTES];
    sym(&mut seed, 1);
    sym(&mut pk, 2);
    let mut ct = [0u8; CRYPTO_CIPHERTEXTBYTES];
    let mut key = [0u8; CRYPTO_BYTES];
    sym(&mut ct, 3);
    sym(&mut key, 4);
    let mut rng = Tape::new(&[&seed], 99);
    phase(3);
    let r = crypto_kem_enc(&mut ct, &mut key, &pk, &mut rng);
    phase(2);
    settle(r);
    check(rng.asked(&[spec::SEED_BYTES]), REQUESTS);
    check(pad_ok(&ct), FIRST);
}

#[no_mangle]
pub fn vp_dec_real() {
    let mut ct = [0u8; spec::CT_BYTES];
    let mut sk = [0u8; spec::SK_BYTES];
    sym(&mut ct, 1);
    sym(&mut sk, 2);
    let mut key = [0u8; CRYPTO_BYTES];
    sym(&mut key, 3);
    phase(3);
    let r = crypto_kem_dec(&mut key, &ct, &sk);
    phase(2);
    settle(r);
}

// ------------------------------------------------- results are pure functions

#[no_mangle]
pub fn vp_keypair_pure() {
    let mut seed = [0u8; spec::SEED_BYTES];
    let mut prf = [0u8; spec::PRF_BYTES];
    sym(&mut seed, 1);
    sym(&mut prf, 2);
    let mut pk = [[0u8; CRYPTO_PUBLICKEYBYTES]; 2];
    let mut sk = [[0u8; CRYPTO_SECRETKEYBYTES]; 2];
    for i in 0..2 {
        sym(&mut pk[i], 3 + 2 * i as u32);
        sym(&mut sk[i], 4 + 2 * i as u32);
        let mut rng = Tape::new(&[&seed, &prf], 99);
        phase(3);
        let r = crypto_kem_keypair(&mut pk[i], &mut sk[i], &mut rng);
        phase(2);
        settle(r);
    }
    assert_eq(&pk[0], &pk[1], FIRST);
    assert_eq(&sk[0], &sk[1], SECOND);
}

#[no_mangle]
pub fn vp_enc_pure() {
    let mut seed = [0u8; spec::SEED_BYTES];
    let mut pk = [0u8; spec::PK_BYTES];
    sym(&mut seed, 1);
    sym(&mut pk, 2);
    let mut ct = [[0u8; CRYPTO_CIPHERTEXTBYTES]; 2];
    let mut key = [[0u8; CRYPTO_BYTES]; 2];
    let pk2 = pk;
    for i in 0..2 {
        sym(&mut ct[i], 3 + 2 * i as u32);
        sym(&mut key[i], 4 + 2 * i as u32);
        let mut rng = Tape::new(&[&seed], 99);
        phase(3);
        let r = crypto_kem_enc(&mut ct[i], &mut key[i], &pk, &mut rng);
        phase(2);
        settle(r);
    }
    assert_eq(&ct[0], &ct[1], FIRST);
    assert_eq(&key[0], &key[1], SECOND);
    assert_eq(&pk, &pk2, STATE);
}

#[no_mangle]
pub fn vp_dec_pure() {
    let mut ct = [0u8; spec::CT_BYTES];
    let mut sk = [0u8; spec::SK_BYTES];
    sym(&mut ct, 1);
    sym(&mut sk, 2);
    let mut key = [[0u8; CRYPTO_BYTES]; 2];
    for i in 0..2 {
        sym(&mut key[i], 3 + i as u32);
        phase(3);
        let r = crypto_kem_dec(&mut key[i], &ct, &sk);
        phase(2);
        settle(r);
    }
    assert_eq(&key[0], &key[1], FIRST);
}

// ------------------------------------------------------- failing generators

fn refused(r: Result<(), Box<dyn Error>>, code: &[u8; 4]) {
    match r {
        Ok(()) => check(false, OK),
        Err(e) => {
            match e.downcast_ref::<RngFailure>() {
                Some(f) => assert_eq(&f.0, code, ERROR),
                None => check(false, ERROR),
            }
            core::mem::forget(e);
        }
    }
}

/// parameter 60: which request fails
#[no_mangle]
pub fn vp_keypair_fault() {
    let mut seed = [0u8; spec::SEED_BYTES];
    let mut code = [0u8; 4];
    let at = param(60) as usize;
    sym(&mut seed, 1);
    sym(&mut code, 5);
    let mut pk = [0u8; CRYPTO_PUBLICKEYBYTES];
    let mut sk = [0u8; CRYPTO_SECRETKEYBYTES];
    sym(&mut pk, 3);
    sym(&mut sk, 4);
    let mut rng = Tape::new(&[&seed], at);
    rng.code = code;
    phase(3);
    let r = crypto_kem_keypair(&mut pk, &mut sk, &mut rng);
    phase(2);
    refused(r, &code);
    check(rng.asked(&[spec::SEED_BYTES, spec::PRF_BYTES][..at + 1]), REQUESTS);
}

#[no_mangle]
pub fn vp_enc_fault() {
    let mut pk = [0u8; spec::PK_BYTES];
    let mut code = [0u8; 4];
    sym(&mut pk, 2);
    sym(&mut code, 5);
    let mut ct = [0u8; CRYPTO_CIPHERTEXTBYTES];
    let mut key = [0u8; CRYPTO_BYTES];
    sym(&mut ct, 3);
    sym(&mut key, 4);
    let mut rng = Tape::new(&[], 0);
    rng.code = code;
    phase(3);
    let r = crypto_kem_enc(&mut ct, &mut key, &pk, &mut rng);
    phase(2);
    refused(r, &code);
    check(rng.asked(&[spec::SEED_BYTES]), REQUESTS);
}

// ------------------------------------------------------------ the generator

fn any_state() -> AesState {
    let mut s = AesState::new();
    let mut c = [0u8; 4];
    sym(&mut s.key, 1);
    sym(&mut s.v, 2);
    sym(&mut c, 3);
    s.reseed_counter = i32::from_le_bytes(c);
    s
}
fn like(s: &AesState) -> spec::Drbg {
    spec::Drbg { key: s.key, v: s.v, reseed_counter: s.reseed_counter }
}
fn same(s: &AesState, d: &spec::Drbg) {
    assert_eq(&s.key, &d.key, STATE);
    assert_eq(&s.v, &d.v, STATE);
    assert_eq(&s.reseed_counter.to_le_bytes(), &d.reseed_counter.to_le_bytes(), STATE);
}

const MAX: usize = 4096;

/// parameter 60: number of bytes requested
#[no_mangle]
pub fn vp_drbg() {
    let n = param(60) as usize;
    let mut s = any_state();
    let mut d = like(&s);
    let mut a = [0u8; MAX];
    let mut b = [0u8; MAX];
    sym(&mut a[..n], 4);
    phase(0);
    d.generate(&mut b[..n]);
    phase(1);
    let r = s.randombytes(&mut a[..n]);
    phase(2);
    settle(r);
    spoil(&mut d.key);
    assert_eq(&a[..n], &b[..n], FIRST);
    same(&s, &d);
}

/// one step of the counter, byte by byte as the standard has it
#[no_mangle]
pub fn vp_counter() {
    let mut v = [0u8; 16];
    sym(&mut v, 2);
    let w = u128::from_be_bytes(v).wrapping_add(1).to_be_bytes();
    let mut carry = 1u16;
    for i in (0..16).rev() {
        let s = v[i] as u16 + carry;
        v[i] = s as u8;
        carry = s >> 8;
    }
    assert_eq(&w, &v, FIRST);
}

#[no_mangle]
pub fn vp_init() {
    let mut s = any_state();
    let mut e = [0u8; 48];
    sym(&mut e, 4);
    let mut d = like(&s);
    phase(0);
    d.init(&e);
    phase(1);
    s.randombytes_init(e);
    phase(2);
    same(&s, &d);
}

/// copies, comparison and fresh states
#[no_mangle]
pub fn vp_state() {
    let s = any_state();
    let mut k = [0u8; 32];
    let mut v = [0u8; 16];
    let mut c = [0u8; 4];
    sym(&mut k, 5);
    sym(&mut v, 6);
    sym(&mut c, 7);
    phase(1);
    let t = s.clone();
    phase(2);
    same(&t, &like(&s));
    let mut o = s.clone();
    o.key = k;
    o.v = v;
    o.reseed_counter = i32::from_le_bytes(c);
    phase(1);
    let e = s == o;
    phase(2);
    let mut diff = 0u8;
    for i in 0..32 {
        diff |= s.key[i] ^ k[i];
    }
    for i in 0..16 {
        diff |= s.v[i] ^ v[i];
    }
    for i in 0..4 {
        diff |= s.reseed_counter.to_le_bytes()[i] ^ c[i];
    }
    check(e == (diff == 0), FIRST);
    phase(1);
    let n = AesState::new();
    let m = AesState::default();
    phase(2);
    let z = spec::Drbg { key: [0; 32], v: [0; 16], reseed_counter: 0 };
    same(&n, &z);
    same(&m, &z);
}

// -------------------------------------------------------------- round trips

/// keys and most of the seed are prepared
#[no_mangle]
pub fn vp_roundtrip() {
    let mut seed = [0u8; spec::SEED_BYTES];
    let mut pk = [0u8; spec::PK_BYTES];
    let mut sk = [0u8; spec::SK_BYTES];
    sym(&mut seed, 1);
    sym(&mut pk, 2);
    sym(&mut sk, 3);
    let mut ct = [0u8; CRYPTO_CIPHERTEXTBYTES];
    let mut key = [0u8; CRYPTO_BYTES];
    let mut rng = Tape::new(&[&seed], 99);
    phase(3);
    let r = crypto_kem_enc(&mut ct, &mut key, &pk, &mut rng);
    phase(2);
    settle(r);
    let mut key2 = [0u8; CRYPTO_BYTES];
    phase(3);
    let r = crypto_kem_dec(&mut key2, &ct, &sk);
    phase(2);
    settle(r);
    assert_eq(&key, &key2, SECOND);
}
