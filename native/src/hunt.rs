//! Structured concrete inputs on which the real crate and the reference are
//! compared.  Used only to turn a failed proof into a replayable input.
use crate::*;
use std::time::{Duration, Instant};

pub struct Prng(u64);
impl Prng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// byte strings with structure
    pub fn shaped(&mut self, n: usize) -> Vec<u8> {
        let mut b = match self.below(9) {
            0 => vec![0u8; n],
            1 => vec![0xffu8; n],
            2 => vec![self.next() as u8; n],
            3 => {
                let k = 1 + self.below(16);
                let p = self.bytes(k);
                (0..n).map(|i| p[i % p.len()]).collect()
            }
            4 => {
                let d = self.below(5);
                let mut v = vec![0u8; n];
                for _ in 0..=d {
                    let i = self.below(n);
                    v[i] = self.next() as u8;
                }
                v
            }
            5 => {
                let choice = [0u8, 1, 2, 127, 128, 254, 255, 3, 85, 170];
                (0..n).map(|_| choice[self.below(10)]).collect()
            }
            _ => self.bytes(n),
        };
        if self.below(4) == 0 {
            let i = self.below(n);
            b[i] = [0u8, 255, 254, 253, 252, 251, 250, 128, 127, 1][self.below(10)];
        }
        b
    }
}

fn put_q(a: &[i32], n: usize) -> Vec<u8> {
    let mut o = vec![0u8; n];
    for i in 0..spec::N - 1 {
        let v = a[i].rem_euclid(spec::Q as i32) as u32;
        for j in 0..spec::LOGQ {
            let k = spec::LOGQ * i + j;
            o[k / 8] |= (((v >> j) & 1) as u8) << (k % 8);
        }
    }
    o
}
fn put_trits(a: &[i32]) -> Vec<u8> {
    let mut o = vec![0u8; spec::TRIT_BYTES];
    for i in 0..spec::N - 1 {
        let t = a[i].rem_euclid(3) as u8;
        o[i / 5] += t * [1u8, 3, 9, 27, 81][i % 5];
    }
    o
}
fn inv3() -> i32 {
    let q = spec::Q as i32;
    (0..q).find(|x| (3 * x) % q == 1).unwrap()
}

/// Secret key with f = 1, 1/f = 1, 1/h = 1/3 and the given PRF key: for
/// c = 3r + lift(m) with r(1) = 0 it decrypts to (r, m), so that message
/// space limits can be approached at will.
pub fn plain_key(prf: &[u8]) -> Vec<u8> {
    let mut one = vec![0i32; spec::N];
    one[0] = 1;
    let mut hinv = vec![0i32; spec::N];
    hinv[0] = inv3();
    [put_trits(&one), put_trits(&one), put_q(&hinv, spec::PK_BYTES), prf.to_vec()].concat()
}

fn hrss_lift(m: &[i32]) -> Vec<i32> {
    // (x-1) * (m/(x-1) mod (3, Phi)), computed through y*(x-1) = m mod (3, Phi)
    let n = spec::N;
    // y_{i-1} - y_i = m_i + t for all i (indices mod n), y_{n-1} free; find t with consistency
    for t in 0..3 {
        let mut y = vec![0i32; n];
        for i in 1..n {
            y[i] = (y[i - 1] - m[i] - t).rem_euclid(3);
        }
        if (y[n - 1] - y[0] - m[0] - t).rem_euclid(3) == 0 {
            let last = y[n - 1];
            let z: Vec<i32> = y
                .iter()
                .map(|v| match (v - last).rem_euclid(3) {
                    2 => -1,
                    v => v,
                })
                .collect();
            return (0..n).map(|i| z[(i + n - 1) % n] - z[i]).collect();
        }
    }
    unreachable!()
}

/// ciphertext for `plain_key` from (r, m); m in {-1,0,1}
fn plain_ct(r: &[i32], m: &[i32]) -> Vec<u8> {
    let l = if spec::HRSS { hrss_lift(m) } else { m.to_vec() };
    let c: Vec<i32> = (0..spec::N).map(|i| 3 * r[i] + l[i]).collect();
    put_q(&c, spec::CT_BYTES)
}

fn message(p: &mut Prng, plus: usize, minus: usize) -> Vec<i32> {
    let n = spec::N;
    let mut m = vec![0i32; n];
    let mut idx: Vec<usize> = (0..n - 1).collect();
    for i in (1..idx.len()).rev() {
        idx.swap(i, p.below(i + 1));
    }
    for k in 0..(plus + minus).min(n - 1) {
        m[idx[k]] = if k < plus { 1 } else { -1 };
    }
    m
}

fn balanced(p: &mut Prng) -> Vec<i32> {
    let k = p.below(spec::N / 2 - 2);
    message(p, k, k)
}

/// a (ciphertext, secret key) pair near the acceptance boundary
pub fn crafted(p: &mut Prng) -> (Vec<u8>, Vec<u8>) {
    let w = spec::WEIGHT / 2;
    let sk = plain_key(&p.shaped(32));
    let mut r = balanced(p);
    let m = if spec::HRSS {
        let (a, b) = (p.below(spec::N / 2 - 1), p.below(spec::N / 2 - 1));
        message(p, a, b)
    } else {
        match p.below(8) {
            0 => message(p, w - 1, w + 1),
            1 => message(p, w + 1, w - 1),
            2 => {
                let d = p.below(w);
                message(p, w - d, w - d)
            }
            3 => {
                let d = 1 + p.below(8);
                message(p, w + d, w + d)
            }
            4 => {
                let (a, b) = (p.below(w + 3), p.below(w + 3));
                message(p, a, b)
            }
            _ => message(p, w, w),
        }
    };
    match p.below(3) {
        0 => {
            // one coefficient outside {-1,0,1}, sum kept zero
            let q = spec::Q as i32;
            let v = [2, -2, 3, -3, 4, 5, q / 2, q / 2 - 1, q / 4, 8, 16, 64, q / 2 - 2][p.below(13)];
            let i = p.below(spec::N - 1);
            let j = (i + 1 + p.below(spec::N - 3)) % (spec::N - 1);
            if i != j {
                let s = r[i] + r[j];
                r[i] = v;
                r[j] = s - v;
            }
        }
        1 => {
            let i = p.below(spec::N);
            r[i] += p.below(5) as i32 - 2;
        }
        _ => {}
    }
    let mut ct = plain_ct(&r, &m);
    match p.below(6) {
        0 => {
            let k = p.below(8);
            let n = ct.len();
            ct[n - 1] ^= 1 << k;
        }
        1 => {
            let i = p.below(ct.len());
            ct[i] ^= 1 << p.below(8);
        }
        _ => {}
    }
    (ct, sk)
}

fn random_small_key(p: &mut Prng) -> Vec<u8> {
    let n = spec::N;
    let t = |p: &mut Prng| -> Vec<i32> {
        let s = p.below(n);
        (0..n).map(|i| if i == n - 1 || p.below(n) > s { 0 } else { p.below(3) as i32 }).collect()
    };
    let (f, g) = (t(p), t(p));
    let h: Vec<i32> = (0..n).map(|_| p.below(spec::Q as usize) as i32).collect();
    [put_trits(&f), put_trits(&g), put_q(&h, spec::PK_BYTES), p.shaped(32)].concat()
}

struct Case {
    line: String,
    same: bool,
    accepted: bool,
}

fn case(kind: &str, p: &mut Prng, keys: &mut Vec<(Vec<u8>, Vec<u8>)>) -> Case {
    let x = |b: &[u8]| hex::encode(b);
    let fill = ["00", "ff", "5a"][p.below(3)];
    let fb = hex::decode(fill).unwrap();
    match kind {
        "keypair" => {
            let (s, f) = (p.shaped(spec::SEED_BYTES), p.shaped(32));
            let same = real_keypair(&s, &f, &fb).is(&spec_keypair(&s, &f));
            Case { line: format!("keypair {} {} {}", x(&s), x(&f), fill), same, accepted: false }
        }
        "enc" => {
            let s = p.shaped(spec::SEED_BYTES);
            let pk = p.shaped(spec::PK_BYTES);
            let same = real_enc(&pk, &s, &fb).is(&spec_enc(&pk, &s));
            Case { line: format!("enc {} {} {}", x(&pk), x(&s), fill), same, accepted: false }
        }
        "dec" | "accept" | "reject" => {
            let (ct, sk) = match p.below(6) {
                0 => {
                    if keys.len() < 3 {
                        let k = spec_keypair(&p.bytes(spec::SEED_BYTES), &p.bytes(32));
                        keys.push((k[..spec::PK_BYTES].to_vec(), k[spec::PK_BYTES..].to_vec()));
                    }
                    let (pk, sk) = keys[p.below(keys.len())].clone();
                    let mut ct = spec_enc(&pk, &p.shaped(spec::SEED_BYTES))[..spec::CT_BYTES].to_vec();
                    match p.below(4) {
                        0 => {
                            let i = p.below(ct.len());
                            ct[i] ^= 1 << p.below(8);
                        }
                        1 => {
                            let n = ct.len();
                            ct[n - 1] ^= 1 << p.below(8);
                        }
                        _ => {}
                    }
                    (ct, sk)
                }
                1 => (p.shaped(spec::CT_BYTES), random_small_key(p)),
                2 => (p.shaped(spec::CT_BYTES), p.shaped(spec::SK_BYTES)),
                _ => crafted(p),
            };
            let (k, ok) = spec_dec(&ct, &sk);
            let same = real_dec(&ct, &sk, &fb).is(&k) || (kind == "accept" && !ok) || (kind == "reject" && ok);
            Case { line: format!("dec {} {} {}", x(&ct), x(&sk), fill), same, accepted: ok }
        }
        "drbg" => {
            let key = p.shaped(32);
            let mut v = p.shaped(16);
            if p.below(2) == 0 {
                for i in p.below(16)..16 {
                    v[i] = 0xff;
                }
                if p.below(2) == 0 {
                    v[15] = v[15].wrapping_sub(p.below(8) as u8);
                }
            }
            let ctr = [0, 1, 2, -1, i32::MAX, i32::MIN, i32::MAX - 1, 1 << 16, 255][p.below(9)];
            let n = match p.below(3) {
                0 => p.below(17),
                1 => p.below(100),
                _ => p.below(5000),
            };
            let same = real_drbg(&key, &v, ctr, n).is(&spec_drbg(&key, &v, ctr, n));
            Case { line: format!("drbg {} {} {} {}", x(&key), x(&v), ctr, n), same, accepted: false }
        }
        "init" => {
            let (key, v, e) = (p.shaped(32), p.shaped(16), p.shaped(48));
            let ctr = p.next() as i32;
            let same = real_init(&key, &v, ctr, &e).is(&spec_init(&e));
            Case { line: format!("init {} {} {} {}", x(&key), x(&v), ctr, x(&e)), same, accepted: false }
        }
        "canonkeypair" => {
            let (s, f) = (p.shaped(spec::SEED_BYTES), p.shaped(32));
            let same = canon("keypair", &s, &f).0;
            Case { line: format!("canon keypair {} {}", x(&s), x(&f)), same, accepted: false }
        }
        "canonenc" => {
            let (pk, s) = (p.shaped(spec::PK_BYTES), p.shaped(spec::SEED_BYTES));
            let same = canon("enc", &pk, &s).0;
            Case { line: format!("canon enc {} {}", x(&pk), x(&s)), same, accepted: false }
        }
        "trip" => {
            let (s, f, t) = (p.bytes(spec::SEED_BYTES), p.shaped(32), p.shaped(spec::SEED_BYTES));
            let same = trip(&s, &f, &t).0;
            Case { line: format!("trip {} {} {}", x(&s), x(&f), x(&t)), same, accepted: false }
        }
        "panickeypair" => {
            let (s, f) = (p.shaped(spec::SEED_BYTES), p.shaped(32));
            let same = matches!(real_keypair(&s, &f, &fb), Out::Bytes(_));
            Case { line: format!("keypair {} {} {}", x(&s), x(&f), fill), same, accepted: false }
        }
        "panicenc" => {
            let (pk, s) = (p.shaped(spec::PK_BYTES), p.shaped(spec::SEED_BYTES));
            let same = matches!(real_enc(&pk, &s, &fb), Out::Bytes(_));
            Case { line: format!("enc {} {} {}", x(&pk), x(&s), fill), same, accepted: false }
        }
        "panicdec" => {
            let (ct, sk) = match p.below(3) {
                0 => (p.shaped(spec::CT_BYTES), p.shaped(spec::SK_BYTES)),
                1 => (p.shaped(spec::CT_BYTES), random_small_key(p)),
                _ => crafted(p),
            };
            let same = matches!(real_dec(&ct, &sk, &fb), Out::Bytes(_));
            Case { line: format!("dec {} {} {}", x(&ct), x(&sk), fill), same, accepted: false }
        }
        "padding" => {
            let (mut ct, sk) = if p.below(3) == 0 {
                (p.shaped(spec::CT_BYTES), p.shaped(spec::SK_BYTES))
            } else {
                crafted(p)
            };
            let free = 8 * ct.len() - spec::LOGQ * (spec::N - 1);
            if free > 0 {
                let n = ct.len();
                ct[n - 1] |= 1 << (8 - free + p.below(free));
            }
            let (k, ok) = spec_dec(&ct, &sk);
            let same = ok || real_dec(&ct, &sk, &fb).is(&k);
            Case { line: format!("dec {} {} {}", x(&ct), x(&sk), fill), same, accepted: ok }
        }
        "requestskeypair" | "requestsenc" => {
            let keypair = kind == "requestskeypair";
            let (a, b) = if keypair {
                (p.shaped(spec::SEED_BYTES), p.shaped(32))
            } else {
                (p.shaped(spec::PK_BYTES), p.shaped(spec::SEED_BYTES))
            };
            let line = format!("requests {} {} {}", if keypair { "keypair" } else { "enc" }, x(&a), x(&b));
            let same = answer(&line).starts_with("SAME");
            Case { line, same, accepted: false }
        }
        "state" => {
            let (k, v) = (p.shaped(32), p.shaped(16));
            let c = p.next() as i32;
            let (mut k2, mut v2, mut c2) = (k.clone(), v.clone(), c);
            match p.below(4) {
                0 => k2[p.below(32)] ^= 1 << p.below(8),
                1 => v2[p.below(16)] ^= 1 << p.below(8),
                2 => c2 ^= 1 << p.below(32),
                _ => {}
            }
            let line = format!("state {} {} {} {} {} {}", x(&k), x(&v), c, x(&k2), x(&v2), c2);
            let same = answer(&line).starts_with("SAME");
            Case { line, same, accepted: false }
        }
        "panicdrbg" => {
            let key = p.shaped(32);
            let mut v = p.shaped(16);
            if p.below(2) == 0 {
                for i in p.below(16)..16 {
                    v[i] = 0xff;
                }
            }
            let ctr = [0, 1, 2, -1, i32::MAX, i32::MIN, i32::MAX - 1, 1 << 16, 255][p.below(9)];
            let n = p.below(200);
            let same = matches!(real_drbg(&key, &v, ctr, n), Out::Bytes(_));
            Case { line: format!("drbg {} {} {} {}", x(&key), x(&v), ctr, n), same, accepted: false }
        }
        k => panic!("kind {}", k),
    }
}

pub fn hunt(kind: &str, seconds: f64, seed: u64) {
    let end = Instant::now() + Duration::from_secs_f64(seconds);
    let mut p = Prng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1));
    let mut keys = vec![];
    let mut n = 0u64;
    let mut acc = 0u64;
    while Instant::now() < end {
        let c = case(kind, &mut p, &mut keys);
        n += 1;
        acc += c.accepted as u64;
        if !c.same {
            println!("FOUND {}", c.line);
            println!("tried {}", n);
            return;
        }
    }
    println!("NONE tried {} accepted {}", n, acc);
}
