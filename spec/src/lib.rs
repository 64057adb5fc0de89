//! Independent reference for the NTRU round-3 KEM (HPS 509/677/821, HRSS 701)
//! and for the NIST AES-256 CTR-DRBG.
//!
//! Written from the published algorithm descriptions with ordinary arithmetic
//! (`%`, `/`, comparisons, bit streams); it shares no code with the crate under
//! test.  It runs natively (replay, self tests) and symbolically (the engine
//! executes its LLVM IR).  `mark*` calls name intermediate values; natively
//! they do nothing, under the engine they become cut points to which values of
//! the code under test are matched by solver proofs.  A marker never changes
//! the meaning of the reference.
#![no_std]

extern "C" {
    fn vp_mark8(p: *mut u8, n: usize);
    fn vp_mark16(p: *mut u16, n: usize);
    fn vp_mark32(p: *mut i32, n: usize);
    /// one opaque SHA3-256 evaluation
    fn vp_sha3_256(out: *mut u8, inp: *const u8, n: usize);
    /// one opaque AES-256 block encryption
    fn vp_aes256(out: *mut u8, key: *const u8, inp: *const u8);
}
#[inline(always)]
fn mark8(x: &mut [u8]) {
    unsafe { vp_mark8(x.as_mut_ptr(), x.len()) }
}
#[inline(always)]
fn mark16(x: &mut [u16]) {
    unsafe { vp_mark16(x.as_mut_ptr(), x.len()) }
}
#[inline(always)]
fn mark32(x: &mut [i32]) {
    unsafe { vp_mark32(x.as_mut_ptr(), x.len()) }
}

#[cfg(feature = "n509")]
pub const N: usize = 509;
#[cfg(feature = "n677")]
pub const N: usize = 677;
#[cfg(feature = "n821")]
pub const N: usize = 821;
#[cfg(feature = "n701")]
pub const N: usize = 701;
#[cfg(any(feature = "n509", feature = "n677"))]
pub const LOGQ: usize = 11;
#[cfg(feature = "n821")]
pub const LOGQ: usize = 12;
#[cfg(feature = "n701")]
pub const LOGQ: usize = 13;
pub const HRSS: bool = cfg!(feature = "n701");

pub const Q: u16 = 1 << LOGQ;
/// number of non-zero coefficients of g and m in the HPS sets
pub const WEIGHT: usize = Q as usize / 8 - 2;
pub const IID_BYTES: usize = N - 1;
pub const FT_BYTES: usize = (30 * (N - 1) + 7) / 8;
/// random bytes consumed by one key generation and by one encapsulation
pub const SEED_BYTES: usize = IID_BYTES + if HRSS { IID_BYTES } else { FT_BYTES };
pub const TRIT_BYTES: usize = (N - 1 + 4) / 5;
pub const RM_BYTES: usize = 2 * TRIT_BYTES;
pub const PK_BYTES: usize = (LOGQ * (N - 1) + 7) / 8;
pub const CT_BYTES: usize = PK_BYTES;
pub const PRF_BYTES: usize = 32;
pub const SK_BYTES: usize = 2 * TRIT_BYTES + PK_BYTES + PRF_BYTES;
pub const KEY_BYTES: usize = 32;

pub type Poly = [u16; N];

// ---------------------------------------------------------------- sampling

/// Ternary polynomial: coefficient i is byte i modulo 3, top coefficient zero.
fn ternary(b: &[u8]) -> Poly {
    let mut r = [0u16; N];
    for i in 0..N - 1 {
        r[i] = (b[i] % 3) as u16;
    }
    mark16(&mut r);
    r
}

/// HRSS: as `ternary`, then negate the even coefficients if <x*r, r> < 0.
fn ternary_plus(b: &[u8]) -> Poly {
    let t = ternary(b);
    let mut c = [0u16; N];
    for i in 0..N {
        // centred representative: 0, 1, 2 -> 0, 1, -1
        c[i] = ((t[i] + 1) % 3).wrapping_sub(1);
    }
    mark16(&mut c);
    let mut s: u16 = 0;
    for i in 0..N - 1 {
        s = s.wrapping_add(c[i + 1].wrapping_mul(c[i]));
    }
    let mut neg = [s >> 15];
    mark16(&mut neg);
    let mut r = t;
    for i in 0..N {
        let d = if i % 2 == 0 && neg[0] == 1 { 0u16.wrapping_sub(c[i]) } else { c[i] };
        r[i] = (d.wrapping_add(1) + 2) % 3;
    }
    mark16(&mut r);
    r
}

fn compare_exchange(x: &mut [i32; N - 1], i: usize, j: usize) {
    let (a, b) = (x[i], x[j]);
    x[i] = if a < b { a } else { b };
    x[j] = if a < b { b } else { a };
    mark32(&mut x[i..i + 1]);
    mark32(&mut x[j..j + 1]);
}

/// Batcher-type merge exchange network on N-1 keys.
pub fn sort_network<F: FnMut(usize, usize)>(n: usize, mut cx: F) {
    let mut top = 1;
    while top < n - top {
        top += top;
    }
    let mut p = top;
    while p > 0 {
        for i in 0..n - p {
            if i & p == 0 {
                cx(i, i + p);
            }
        }
        let mut i = 0;
        let mut q = top;
        while q > p {
            while i < n - q {
                if i & p == 0 {
                    let mut r = q;
                    while r > p {
                        cx(i + p, i + r);
                        r >>= 1;
                    }
                }
                i += 1;
            }
            q >>= 1;
        }
        p >>= 1;
    }
}

/// Fixed-weight polynomial: sort N-1 tagged 30-bit little-endian words.
fn fixed_type(u: &[u8]) -> Poly {
    let mut s = [0i32; N - 1];
    for i in 0..N - 1 {
        let mut w: u32 = 0;
        for j in 0..30 {
            let bit = 30 * i + j;
            w |= (((u[bit / 8] >> (bit % 8)) & 1) as u32) << j;
        }
        s[i] = (w << 2) as i32;
    }
    mark32(&mut s);
    for i in 0..WEIGHT {
        s[i] |= if i < WEIGHT / 2 { 1 } else { 2 };
    }
    mark32(&mut s);
    sort_network(N - 1, |i, j| compare_exchange(&mut s, i, j));
    let mut r = [0u16; N];
    for i in 0..N - 1 {
        r[i] = (s[i] & 3) as u16;
    }
    mark16(&mut r);
    r
}

fn sample_fg(seed: &[u8; SEED_BYTES]) -> (Poly, Poly) {
    let (a, b) = seed.split_at(IID_BYTES);
    if HRSS {
        (ternary_plus(a), ternary_plus(b))
    } else {
        (ternary(a), fixed_type(b))
    }
}

fn sample_rm(seed: &[u8; SEED_BYTES]) -> (Poly, Poly) {
    let (a, b) = seed.split_at(IID_BYTES);
    if HRSS {
        (ternary(a), ternary(b))
    } else {
        (ternary(a), fixed_type(b))
    }
}

// ---------------------------------------------------------------- encodings

/// Base-3 encoding, five trits per byte, first trit least significant.
fn pack_trits(a: &Poly) -> [u8; TRIT_BYTES] {
    let mut out = [0u8; TRIT_BYTES];
    for i in 0..TRIT_BYTES {
        let mut c: u16 = 0;
        let top = if 5 * i + 5 < N - 1 { 5 * i + 5 } else { N - 1 };
        for j in (5 * i..top).rev() {
            c = 3 * c + a[j];
        }
        out[i] = c as u8;
    }
    mark8(&mut out);
    out
}

fn unpack_trits(b: &[u8]) -> Poly {
    let mut r = [0u16; N];
    for j in 0..N - 1 {
        let mut c = b[j / 5];
        for _ in 0..j % 5 {
            c /= 3;
        }
        r[j] = (c % 3) as u16;
    }
    mark16(&mut r);
    r
}

/// LOGQ-bit little-endian bit stream of the first N-1 coefficients.
fn pack_q(a: &Poly) -> [u8; PK_BYTES] {
    let mut out = [0u8; PK_BYTES];
    for k in 0..8 * PK_BYTES {
        let (i, j) = (k / LOGQ, k % LOGQ);
        if i < N - 1 {
            out[k / 8] |= (((a[i] >> j) & 1) as u8) << (k % 8);
        }
    }
    mark8(&mut out);
    out
}

fn unpack_q(b: &[u8]) -> Poly {
    let mut r = [0u16; N];
    for i in 0..N - 1 {
        for j in 0..LOGQ {
            let k = LOGQ * i + j;
            r[i] |= (((b[k / 8] >> (k % 8)) & 1) as u16) << j;
        }
    }
    mark16(&mut r);
    r
}

/// As `unpack_q`; the top coefficient is chosen so that the polynomial is
/// zero at 1.
fn unpack_q_sum_zero(b: &[u8]) -> Poly {
    let mut r = unpack_q(b);
    let mut s: u16 = 0;
    for i in 0..N - 1 {
        s = s.wrapping_sub(r[i]);
    }
    r[N - 1] = s & (Q - 1);
    mark16(&mut r[N - 1..]);
    r
}

// ---------------------------------------------------------------- arithmetic

/// Cyclic convolution without reduction of the coefficients.
#[inline(always)]
fn convolve(a: &Poly, b: &Poly, mask: u16) -> Poly {
    let mut r = [0u16; N];
    for k in 0..N {
        let mut acc: u16 = 0;
        for i in 0..N {
            let j = if k >= i { k - i } else { k + N - i };
            acc = acc.wrapping_add(a[i].wrapping_mul(b[j]));
        }
        r[k] = acc & mask;
    }
    mark16(&mut r);
    r
}

/// a*b mod (q, x^N - 1)
fn mul_q(a: &Poly, b: &Poly) -> Poly {
    convolve(a, b, Q - 1)
}

/// reduce mod (q, Phi_N)
fn reduce_q_phi(a: &Poly) -> Poly {
    let mut r = *a;
    for i in 0..N {
        r[i] = a[i].wrapping_sub(a[N - 1]) & (Q - 1);
    }
    mark16(&mut r);
    r
}

/// reduce small non-negative coefficients mod (3, Phi_N)
fn reduce_3_phi(a: &Poly) -> Poly {
    let mut z = [0u16; N];
    for i in 0..N {
        z[i] = a[i] + 2 * a[N - 1];
    }
    mark16(&mut z);
    for i in 0..N {
        z[i] %= 3;
    }
    mark16(&mut z);
    z
}

/// a*b mod (3, Phi_N) for ternary a, b
fn mul_3(a: &Poly, b: &Poly) -> Poly {
    reduce_3_phi(&convolve(a, b, 0xffff))
}

/// {0,1,2} -> {0,1,q-1}
fn trits_to_zq(a: &Poly) -> Poly {
    let mut r = *a;
    for i in 0..N {
        r[i] = if a[i] == 2 { Q - 1 } else { a[i] };
    }
    mark16(&mut r);
    r
}

/// centred representatives of Z_q, then reduction mod (3, Phi_N)
fn zq_to_trits_phi(a: &Poly) -> Poly {
    // -q mod 3
    let wrap = 3 - (Q % 3);
    let mut u = [0u16; N];
    for i in 0..N {
        u[i] = a[i] + if a[i] >= Q / 2 { wrap } else { 0 };
    }
    mark16(&mut u);
    reduce_3_phi(&u)
}

#[cfg(not(feature = "n701"))]
fn lift(m: &Poly) -> Poly {
    trits_to_zq(m)
}

/// HRSS: (x-1) * ( m/(x-1) mod (3, Phi_N) ), the inner polynomial centred.
#[cfg(feature = "n701")]
fn lift(m: &Poly) -> Poly {
    let mut b = [0u16; N];
    // N = 2 (mod 3), hence -1/N = 1 (mod 3) and 1/(x-1) has coefficients
    // z_0 = 1, z_1 = 0, z_j = z_{j-1} + 1 (mod 3)
    const T: u16 = (3 - (N % 3)) as u16;
    b[0] = m[0] * (2 - T) + m[2] * T;
    b[1] = m[1] * (2 - T);
    b[2] = m[2] * (2 - T);
    let mut zj = 0u16;
    for i in 3..N {
        b[0] += m[i] * (zj + 2 * T);
        b[1] += m[i] * (zj + T);
        b[2] += m[i] * zj;
        zj = (zj + T) % 3;
    }
    b[1] += m[0] * (zj + T);
    b[2] += m[0] * zj;
    b[2] += m[1] * (zj + T);
    mark16(&mut b[0..3]);
    for i in 3..N {
        b[i] = b[i - 3] + 2 * (m[i] + m[i - 1] + m[i - 2]);
        mark16(&mut b[i..i + 1]);
    }
    let c = trits_to_zq(&reduce_3_phi(&b));
    let mut r = [0u16; N];
    r[0] = 0u16.wrapping_sub(c[0]) & (Q - 1);
    for i in 0..N - 1 {
        r[i + 1] = c[i].wrapping_sub(c[i + 1]) & (Q - 1);
    }
    mark16(&mut r);
    r
}

/// 1/a mod (3, Phi_N) by the almost-inverse ("divstep") iteration.
fn inverse_3(a: &Poly) -> Poly {
    let mut f = [1u16; N];
    let mut g = [0u16; N];
    let mut v = [0u16; N];
    let mut w = [0u16; N];
    w[0] = 1;
    for i in 0..N - 1 {
        g[N - 2 - i] = (a[i] + 2 * a[N - 1]) % 3;
    }
    mark16(&mut g);
    let mut delta: i16 = 1;
    for _ in 0..2 * (N - 1) - 1 {
        v.copy_within(0..N - 1, 1);
        v[0] = 0;
        let mut ctl = [(2 * g[0] * f[0]) % 3, ((delta > 0) & (g[0] != 0)) as u16];
        mark16(&mut ctl);
        let [sign, swap] = ctl;
        let mut d = [if swap == 1 { -delta } else { delta } as u16];
        mark16(&mut d);
        delta = d[0] as i16 + 1;
        for i in 0..N {
            let (f0, g0, v0, w0) = (f[i], g[i], v[i], w[i]);
            f[i] = if swap == 1 { g0 } else { f0 };
            g[i] = if swap == 1 { f0 } else { g0 };
            v[i] = if swap == 1 { w0 } else { v0 };
            w[i] = if swap == 1 { v0 } else { w0 };
        }
        mark16(&mut f);
        mark16(&mut g);
        mark16(&mut v);
        mark16(&mut w);
        for i in 0..N {
            g[i] = (g[i] + sign * f[i]) % 3;
            w[i] = (w[i] + sign * v[i]) % 3;
        }
        mark16(&mut g);
        mark16(&mut w);
        g.copy_within(1..N, 0);
        g[N - 1] = 0;
    }
    let mut r = [0u16; N];
    for i in 0..N - 1 {
        r[i] = (f[0] * v[N - 2 - i]) % 3;
    }
    mark16(&mut r);
    r
}

/// 1/a mod (2, Phi_N) by the same iteration.
fn inverse_2(a: &Poly) -> Poly {
    let mut f = [1u16; N];
    let mut g = [0u16; N];
    let mut v = [0u16; N];
    let mut w = [0u16; N];
    w[0] = 1;
    for i in 0..N - 1 {
        g[N - 2 - i] = (a[i] + a[N - 1]) % 2;
    }
    mark16(&mut g);
    let mut delta: i16 = 1;
    for _ in 0..2 * (N - 1) - 1 {
        v.copy_within(0..N - 1, 1);
        v[0] = 0;
        let mut ctl = [(g[0] * f[0]) % 2, ((delta > 0) & (g[0] != 0)) as u16];
        mark16(&mut ctl);
        let [sign, swap] = ctl;
        let mut d = [if swap == 1 { -delta } else { delta } as u16];
        mark16(&mut d);
        delta = d[0] as i16 + 1;
        for i in 0..N {
            let (f0, g0, v0, w0) = (f[i], g[i], v[i], w[i]);
            f[i] = if swap == 1 { g0 } else { f0 };
            g[i] = if swap == 1 { f0 } else { g0 };
            v[i] = if swap == 1 { w0 } else { v0 };
            w[i] = if swap == 1 { v0 } else { w0 };
        }
        mark16(&mut f);
        mark16(&mut g);
        mark16(&mut v);
        mark16(&mut w);
        for i in 0..N {
            g[i] = (g[i] + sign * f[i]) % 2;
            w[i] = (w[i] + sign * v[i]) % 2;
        }
        mark16(&mut g);
        mark16(&mut w);
        g.copy_within(1..N, 0);
        g[N - 1] = 0;
    }
    let mut r = [0u16; N];
    for i in 0..N - 1 {
        r[i] = v[N - 2 - i];
    }
    mark16(&mut r);
    r
}

/// 1/a mod (q, Phi_N): Newton iteration from the inverse mod 2.
fn inverse_q(a: &Poly) -> Poly {
    // -a - Phi_N, congruent to -a modulo Phi_N
    let mut neg = [0u16; N];
    for i in 0..N {
        neg[i] = Q - 1 - a[i];
    }
    mark16(&mut neg);
    let mut r = inverse_2(a);
    for _ in 0..4 {
        let mut c = mul_q(&r, &neg);
        c[0] = (c[0] + 2) & (Q - 1);
        mark16(&mut c[0..1]);
        r = mul_q(&c, &r);
    }
    r
}

// ---------------------------------------------------------------- KEM

pub fn sha3(out: &mut [u8; 32], inp: &[u8]) {
    unsafe { vp_sha3_256(out.as_mut_ptr(), inp.as_ptr(), inp.len()) }
}

pub fn keypair(
    pk: &mut [u8; PK_BYTES],
    sk: &mut [u8; SK_BYTES],
    seed: &[u8; SEED_BYTES],
    prf: &[u8; PRF_BYTES],
) {
    let (f, g) = sample_fg(seed);
    let finv = inverse_3(&f);
    sk[..TRIT_BYTES].copy_from_slice(&pack_trits(&f));
    sk[TRIT_BYTES..2 * TRIT_BYTES].copy_from_slice(&pack_trits(&finv));
    let f = trits_to_zq(&f);
    let gq = trits_to_zq(&g);
    let mut g3 = [0u16; N];
    for i in 0..N {
        g3[i] = if HRSS {
            // 3*(x-1)*g
            let lower = if i == 0 { 0 } else { gq[i - 1] };
            lower.wrapping_sub(gq[i]).wrapping_mul(3) & (Q - 1)
        } else {
            gq[i].wrapping_mul(3) & (Q - 1)
        };
    }
    mark16(&mut g3);
    let gf = mul_q(&g3, &f);
    let gf_inv = inverse_q(&gf);
    let hinv = reduce_q_phi(&mul_q(&mul_q(&gf_inv, &f), &f));
    sk[2 * TRIT_BYTES..2 * TRIT_BYTES + PK_BYTES].copy_from_slice(&pack_q(&hinv));
    let h = mul_q(&mul_q(&gf_inv, &g3), &g3);
    *pk = pack_q(&h);
    sk[2 * TRIT_BYTES + PK_BYTES..].copy_from_slice(prf);
}

/// Message encoding whose hash is the shared key, and the ciphertext.
pub fn encrypt(
    ct: &mut [u8; CT_BYTES],
    rm: &mut [u8; RM_BYTES],
    pk: &[u8; PK_BYTES],
    seed: &[u8; SEED_BYTES],
) {
    let (r, m) = sample_rm(seed);
    rm[..TRIT_BYTES].copy_from_slice(&pack_trits(&r));
    rm[TRIT_BYTES..].copy_from_slice(&pack_trits(&m));
    let r = trits_to_zq(&r);
    let h = unpack_q_sum_zero(pk);
    let mut c = mul_q(&r, &h);
    let l = lift(&m);
    for i in 0..N {
        c[i] = c[i].wrapping_add(l[i]) & (Q - 1);
    }
    mark16(&mut c);
    *ct = pack_q(&c);
}

pub fn encaps(
    ct: &mut [u8; CT_BYTES],
    key: &mut [u8; KEY_BYTES],
    pk: &[u8; PK_BYTES],
    seed: &[u8; SEED_BYTES],
) {
    let mut rm = [0u8; RM_BYTES];
    encrypt(ct, &mut rm, pk, seed);
    sha3(key, &rm);
}

/// Recovers the message encoding; the result says whether (r, m) lie in the
/// message space and the ciphertext is canonically encoded.
pub fn decrypt(rm: &mut [u8; RM_BYTES], ct: &[u8; CT_BYTES], sk: &[u8; SK_BYTES]) -> bool {
    let c = unpack_q_sum_zero(ct);
    let f = trits_to_zq(&unpack_trits(&sk[..TRIT_BYTES]));
    let finv = unpack_trits(&sk[TRIT_BYTES..2 * TRIT_BYTES]);
    let hinv = unpack_q(&sk[2 * TRIT_BYTES..2 * TRIT_BYTES + PK_BYTES]);

    let cf = mul_q(&c, &f);
    let m = mul_3(&zq_to_trits_phi(&cf), &finv);
    rm[TRIT_BYTES..].copy_from_slice(&pack_trits(&m));

    let mut bad: u16 = 0;
    // unused bits of the last byte
    const USED: usize = (LOGQ * (N - 1)) % 8;
    if USED != 0 && ct[CT_BYTES - 1] >> USED != 0 {
        bad = 1;
    }
    if !HRSS {
        let (mut plus, mut minus) = (0u16, 0u16);
        for i in 0..N {
            plus += m[i] & 1;
            minus += m[i] >> 1;
        }
        let mut counts = [plus, minus];
        mark16(&mut counts);
        if counts[0] as usize != WEIGHT / 2 || counts[1] as usize != WEIGHT / 2 {
            bad = 1;
        }
    }
    let mut bads = [bad];
    mark16(&mut bads);
    bad = bads[0];

    let l = lift(&m);
    let mut b = [0u16; N];
    for i in 0..N {
        b[i] = c[i].wrapping_sub(l[i]) & (Q - 1);
    }
    mark16(&mut b);
    let r = reduce_q_phi(&mul_q(&b, &hinv));
    let mut rbad = [0u16];
    for i in 0..N - 1 {
        let ok = (r[i] == 0) | (r[i] == 1) | (r[i] == Q - 1);
        rbad[0] |= !ok as u16;
    }
    mark16(&mut rbad);
    let mut t = [0u16; N];
    for i in 0..N {
        // -1 -> 2; values outside {-1,0,1} are rejected above
        t[i] = (r[i] ^ (r[i] >> (LOGQ - 1))) & 3;
    }
    mark16(&mut t);
    rm[..TRIT_BYTES].copy_from_slice(&pack_trits(&t));
    let mut verdict = [bad | rbad[0]];
    mark16(&mut verdict);
    verdict[0] == 0
}

/// SHA3-256(prf key || ciphertext)
pub fn rejection_key(
    key: &mut [u8; KEY_BYTES],
    ct: &[u8; CT_BYTES],
    sk: &[u8; SK_BYTES],
) {
    let mut buf = [0u8; PRF_BYTES + CT_BYTES];
    buf[..PRF_BYTES].copy_from_slice(&sk[SK_BYTES - PRF_BYTES..]);
    buf[PRF_BYTES..].copy_from_slice(ct);
    sha3(key, &buf);
}

pub fn decaps(
    key: &mut [u8; KEY_BYTES],
    ct: &[u8; CT_BYTES],
    sk: &[u8; SK_BYTES],
) -> bool {
    let mut rm = [0u8; RM_BYTES];
    let ok = decrypt(&mut rm, ct, sk);
    let mut good = [0u8; 32];
    let mut reject = [0u8; 32];
    sha3(&mut good, &rm);
    rejection_key(&mut reject, ct, sk);
    for i in 0..32 {
        key[i] = if ok { good[i] } else { reject[i] };
    }
    mark8(key);
    ok
}

// ---------------------------------------------------------------- DRBG

pub struct Drbg {
    pub key: [u8; 32],
    pub v: [u8; 16],
    pub reseed_counter: i32,
}

impl Drbg {
    /// V = base + k mod 2^128, big endian; the cipher under `key` of V
    fn block(&mut self, base: u128, k: u32) -> [u8; 16] {
        self.v = base.wrapping_add(k as u128).to_be_bytes();
        mark8(&mut self.v);
        let mut out = [0u8; 16];
        unsafe { vp_aes256(out.as_mut_ptr(), self.key.as_ptr(), self.v.as_ptr()) };
        out
    }

    fn update(&mut self, data: &[u8; 48]) {
        let mut t = [0u8; 48];
        let base = u128::from_be_bytes(self.v);
        for i in 0..3 {
            let b = self.block(base, i as u32 + 1);
            t[16 * i..16 * i + 16].copy_from_slice(&b);
        }
        for i in 0..48 {
            t[i] ^= data[i];
        }
        mark8(&mut t);
        self.key.copy_from_slice(&t[..32]);
        self.v.copy_from_slice(&t[32..]);
    }

    pub fn init(&mut self, entropy: &[u8; 48]) {
        self.key = [0; 32];
        self.v = [0; 16];
        self.update(entropy);
        self.reseed_counter = 1;
    }

    pub fn generate(&mut self, out: &mut [u8]) {
        let mut i = 0;
        let base = u128::from_be_bytes(self.v);
        let mut k = 0;
        while i < out.len() {
            k += 1;
            let b = self.block(base, k);
            let mut j = 0;
            while j < 16 && i < out.len() {
                out[i] = b[j];
                i += 1;
                j += 1;
            }
        }
        self.update(&[0; 48]);
        self.reseed_counter = self.reseed_counter.wrapping_add(1);
    }
}
