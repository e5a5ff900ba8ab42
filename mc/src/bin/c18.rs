//! C18: field arithmetic is exact.
//!
//! Prime fields: every operand (pair) over an alphabet of limb patterns, compared with big integers.
//! BN256 extensions: every operand pair over an alphabet of coefficient vectors, compared with
//! polynomial arithmetic modulo u^2+1, v^3-(9+u), w^2-v over big integers.
use ff::{Field, PrimeField};
use halo2curves::bn256;
use halo2curves::secp256k1;
use halo2curves::serde::SerdeObject;
use halo2curves::FieldExt;
use mc::util::*;
use mc::*;
use num_bigint::BigUint;
use std::cmp::Ordering;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

type Z = BigUint;

fn z(x: u64) -> Z {
    Z::from(x)
}
fn hex(s: &str) -> Z {
    Z::parse_bytes(s.trim_start_matches("0x").as_bytes(), 16).unwrap()
}
fn le(b: &[u8]) -> Z {
    Z::from_bytes_le(b)
}
fn bytes<const N: usize>(x: &Z) -> [u8; N] {
    let mut r = [0u8; N];
    let b = x.to_bytes_le();
    r[..b.len()].copy_from_slice(&b);
    r
}
fn limbs(x: &Z) -> [u64; 4] {
    let b: [u8; 32] = bytes(x);
    [0, 1, 2, 3].map(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()))
}
fn of_limbs(l: &[u64]) -> Z {
    le(&l.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>())
}

/// A prime field of the repository and what it claims.
struct Fd {
    name: &'static str,
    p: Z,
    /// inverse of the Montgomery radix
    rinv: Z,
}

fn fd(name: &'static str, p: &str) -> Fd {
    let p = hex(p);
    let r: Z = (z(1) << 256usize) % &p;
    let rinv = r.modpow(&(&p - z(2)), &p);
    Fd { name, p, rinv }
}

/// All 256-bit numbers whose limbs are over the alphabet (0, 1, half, all ones, the modulus' own limb and its neighbours).
fn raw_alphabet(p: &Z, size: usize) -> Vec<Z> {
    let m = limbs(p);
    let mut out = vec![];
    let per: Vec<Vec<u64>> = m
        .iter()
        .map(|l| {
            let mut a = vec![0, u64::MAX, *l, 1, l.wrapping_sub(1), 1 << 63, l.wrapping_add(1), u64::MAX - 1, 1 << 32];
            a.truncate(size);
            a.sort();
            a.dedup();
            a
        })
        .collect();
    let n: usize = per.iter().map(|a| a.len()).product();
    for mut i in 0..n {
        let mut l = [0u64; 4];
        for j in 0..4 {
            l[j] = per[j][i % per[j].len()];
            i /= per[j].len();
        }
        out.push(of_limbs(&l));
    }
    out
}

fn el<F: FieldExt<Repr = [u8; 32]>>(v: &Z) -> F {
    Option::<F>::from(F::from_repr(bytes(v))).expect("canonical encoding decodes")
}
fn val<F: FieldExt<Repr = [u8; 32]>>(x: &F) -> Z {
    le(&x.to_repr())
}

macro_rules! eq {
    ($what:expr, $got:expr, $want:expr) => {
        let (g, w) = ($got, $want);
        if g != w {
            return Err(format!("{}: got {:x?}, expected {:x?}", $what, g, w));
        }
    };
}

fn unary<F: FieldExt<Repr = [u8; 32]> + SerdeObject>(d: &Fd, raw: &Z) -> Result<(), String> {
    let p = &d.p;
    let rb: [u8; 32] = bytes(raw);
    // raw (Montgomery) form
    let ok = raw < p;
    let x = F::from_raw_bytes(&rb);
    eq!("from_raw_bytes accepts", x.is_some(), ok);
    eq!("read_raw accepts", F::read_raw(&mut &rb[..]).is_ok(), ok);
    // canonical form of the same number
    let c: Option<F> = F::from_repr(rb).into();
    eq!("from_repr accepts", c.is_some(), ok);
    if !ok {
        return Ok(());
    }
    let (x, c) = (x.unwrap(), c.unwrap());
    let v = (raw * &d.rinv) % p;
    eq!("value of raw form", val(&x), v.clone());
    eq!("value of canonical form", val(&c), raw.clone());
    eq!("to_raw_bytes", x.to_raw_bytes(), rb.to_vec());
    let mut w = vec![];
    x.write_raw(&mut w).map_err(|e| format!("{:?}", e))?;
    eq!("write_raw", w, rb.to_vec());
    eq!("read_raw", F::read_raw(&mut &rb[..]).unwrap(), x);
    eq!("read_raw_unchecked", F::read_raw_unchecked(&mut &rb[..]), x);
    eq!("from_raw_bytes_unchecked", F::from_raw_bytes_unchecked(&rb), x);
    for (x, v) in [(x, v), (c, raw.clone())] {
        eq!("encoding round trip", el::<F>(&v), x);
        eq!("from_repr_vartime", F::from_repr_vartime(bytes(&v)), Some(x));
        let n = if v == z(0) { z(0) } else { p - &v };
        eq!("neg", val(&-x), n);
        eq!("double", val(&x.double()), (&v * 2u32) % p);
        eq!("square", val(&x.square()), (&v * &v) % p);
        eq!("cube", val(&x.cube()), (&v * &v * &v) % p);
        eq!("is_zero", bool::from(x.is_zero()), v == z(0));
        eq!("is_zero_vartime", x.is_zero_vartime(), v == z(0));
        eq!("is_odd", bool::from(x.is_odd()), v.bit(0));
        eq!("is_even", bool::from(x.is_even()), !v.bit(0));
        let l = limbs(&v);
        eq!("get_lower_128", x.get_lower_128(), l[0] as u128 | (l[1] as u128) << 64);
        eq!("get_lower_32", x.get_lower_32(), l[0] as u32);
        let i: Option<F> = x.invert().into();
        eq!("invert is some", i.is_some(), v != z(0));
        if let Some(i) = i {
            eq!("invert", val(&i), v.modpow(&(p - z(2)), p));
        }
        let square = v == z(0) || v.modpow(&((p - z(1)) >> 1), p) == z(1);
        let s: Option<F> = x.sqrt().into();
        eq!("sqrt exists", s.is_some(), square);
        if let Some(s) = s {
            eq!("sqrt squared", (val(&s) * val(&s)) % p, v.clone());
        }
        eq!("select 0", F::conditional_select(&x, &c, Choice::from(0)), x);
        eq!("select 1", F::conditional_select(&x, &c, Choice::from(1)), c);
        eq!("debug", format!("{:?}", x), format!("0x{:064x}", v));
    }
    Ok(())
}

fn binary<F: FieldExt<Repr = [u8; 32]>>(d: &Fd, x: &F, y: &F, v: &Z, w: &Z) -> Result<(), String> {
    let p = &d.p;
    let s = v + w;
    let s = if &s >= p { s - p } else { s };
    eq!("add", val(&(*x + *y)), s.clone());
    let t = if v >= w { v - w } else { v + p - w };
    eq!("sub", val(&(*x - *y)), t.clone());
    let m = (v * w) % p;
    eq!("mul", val(&(*x * *y)), m.clone());
    let (mut a, mut b, mut c) = (*x, *x, *x);
    a += y;
    b -= y;
    c *= y;
    eq!("add_assign", a, *x + y);
    eq!("sub_assign", b, *x - y);
    eq!("mul_assign", c, *x * y);
    eq!("eq", x == y, v == w);
    eq!("ct_eq", bool::from(x.ct_eq(y)), v == w);
    let o = v.cmp(w);
    eq!("cmp", x.cmp(y), o);
    eq!("lt", x < y, o == Ordering::Less);
    Ok(())
}

fn powers<F: FieldExt<Repr = [u8; 32]>>(d: &Fd, v: &Z, e: &[u64; 4]) -> Result<(), String> {
    let x = el::<F>(v);
    let want = v.modpow(&of_limbs(e), &d.p);
    eq!("pow", val(&x.pow(e)), want.clone());
    eq!("pow_vartime", val(&x.pow_vartime(e)), want);
    let e1 = [e[0]];
    eq!("pow_vartime 1 limb", val(&x.pow_vartime(e1)), v.modpow(&z(e[0]), &d.p));
    Ok(())
}

fn constants<F: FieldExt<Repr = [u8; 32]>>(d: &Fd, name: &str, roots: bool, zeta: bool) -> Result<(), String> {
    let p = &d.p;
    eq!(format!("{} modulus", name), hex(F::MODULUS), p.clone());
    eq!("zero", val(&F::zero()), z(0));
    eq!("one", val(&F::one()), z(1));
    eq!("default", F::default(), F::zero());
    eq!("group_zero", val(&<F as halo2curves::Group>::group_zero()), z(0));
    eq!("TWO_INV", (val(&F::TWO_INV) * 2u32) % p, z(1));
    eq!("NUM_BITS", F::NUM_BITS as u64, p.bits());
    eq!("CAPACITY", F::CAPACITY as u64, p.bits() - 1);
    eq!("from false", val(&F::from(false)), z(0));
    eq!("from true", val(&F::from(true)), z(1));
    let t = p - z(1);
    if roots {
        let s = t.trailing_zeros().unwrap();
        eq!("S", F::S as u64, s);
        let g = val(&F::multiplicative_generator());
        if g.modpow(&(&t >> 1), p) != &t % p {
            return Err("the multiplicative generator is a square".into());
        }
        let r = val(&F::root_of_unity());
        eq!("root of unity", r.modpow(&(z(1) << (s - 1) as usize), p), t.clone());
        eq!("root of unity = generator^t", r.clone(), g.modpow(&(&t >> s as usize), p));
        eq!("root of unity inverse", (val(&F::ROOT_OF_UNITY_INV) * r) % p, z(1));
        if F::DELTA != F::zero() {
            eq!("delta", val(&F::DELTA), g.modpow(&(z(1) << s as usize), p));
        } else if roots && zeta {
            return Err("DELTA is zero".into());
        }
    }
    if zeta {
        let ze = val(&F::ZETA);
        if ze == z(1) || ze.modpow(&z(3), p) != z(1) {
            return Err("ZETA is not a primitive third root of unity".into());
        }
    }
    Ok(())
}

fn wide<F: FieldExt<Repr = [u8; 32]>>(d: &Fd, l: &[u64; 8]) -> Result<(), String> {
    let v = of_limbs(l);
    eq!("from_bytes_wide", val(&F::from_bytes_wide(&bytes(&v))), v % &d.p);
    let q = l[0] as u128 | (l[3] as u128) << 64;
    eq!("from_u128", val(&F::from_u128(q)), Z::from(q) % &d.p);
    eq!("from u64", val(&F::from(l[0])), z(l[0]) % &d.p);
    Ok(())
}

fn prime<F: FieldExt<Repr = [u8; 32]> + SerdeObject>(ctx: &Ctx, d: &Fd, from_raw: fn([u64; 4]) -> F, random: fn([u64; 8]) -> F, roots: bool, zeta: bool) {
    let n = d.name;
    ctx.seq(&format!("{} constants", n), |rec| {
        rec.label(format!("{} constants", n));
        rec.state(&n);
        rec.step(1);
        rec.case(|rec| {
            rec.outcome("constants");
            constants::<F>(d, n, roots, zeta)
        });
    });
    let mut alpha = raw_alphabet(&d.p, 9);
    // powers of two and their neighbours, on both ends of the field
    for k in 0..256usize {
        for t in 0..3u64 {
            let x: Z = (z(1) << k) + z(t) - z(1);
            if x < d.p {
                alpha.push(&d.p - &x);
            }
            alpha.push(x);
        }
    }
    alpha.sort();
    alpha.dedup();
    ctx.par(&format!("{} unary", n), &alpha, |raw, rec| {
        rec.label(format!("{} raw {:x}", n, raw));
        rec.state(&(n, raw));
        rec.step(1);
        rec.case(|rec| {
            let inside = raw.cmp(&d.p) == Ordering::Less;
            rec.outcome(if inside { "element" } else { "not an element" });
            unary::<F>(d, raw)?;
            eq!("from_raw", val(&from_raw(limbs(raw))), raw % &d.p);
            Ok(())
        });
    });
    // elements: raw patterns as Montgomery form, with their values
    let els: Vec<(F, Z)> = alpha
        .iter()
        .filter(|r| r.cmp(&&d.p) == Ordering::Less)
        .map(|r| {
            let x = F::from_raw_bytes(&bytes::<32>(r)).unwrap_or_else(F::zero);
            let v = (r * &d.rinv) % &d.p;
            (x, v)
        })
        .collect();
    let small = ctx.pick(7, 9);
    let pairs: Vec<(F, Z)> = raw_alphabet(&d.p, small).iter().filter(|r| r.cmp(&&d.p) == Ordering::Less).map(|r| (F::from_raw_bytes(&bytes::<32>(r)).unwrap_or_else(F::zero), (r * &d.rinv) % &d.p)).collect();
    ctx.par_n(&format!("{} pairs of raw patterns", n), els.len(), |i, rec| {
        for (j, (y, w)) in pairs.iter().enumerate() {
            let (x, v) = &els[i];
            if j == 0 {
                rec.state(&(n, i, "pairs"));
            }
            rec.step(1);
            rec.label(format!("{} pair of values {:x} {:x}", n, v, w));
            rec.case(|rec| {
                rec.outcome("pair");
                binary(d, x, y, v, w)
            });
        }
    });
    // pairs of canonical patterns; and for multiplication, the second factor solved so that the
    // result is a pattern (the last reduction is at its limits there)
    let can: Vec<Z> = raw_alphabet(&d.p, ctx.pick(6, 8)).into_iter().filter(|r| r.cmp(&d.p) == Ordering::Less).collect();
    ctx.par_n(&format!("{} pairs of canonical patterns and solved products", n), can.len(), |i, rec| {
        let v = &can[i];
        let inv = v.modpow(&(&d.p - z(2)), &d.p);
        for w in &can {
            rec.step(2);
            rec.label(format!("{} pair {:x} {:x}", n, v, w));
            rec.case(|rec| {
                rec.outcome("pair");
                binary::<F>(d, &el(v), &el(w), v, w)?;
                // raw forms: x*y has raw form w
                let target = (w * &d.rinv) % &d.p;
                let y = (&target * &inv) % &d.p;
                binary::<F>(d, &el(v), &el(&y), v, &y)
            });
        }
    });
    // Montgomery digits: operands solved so that the quotient digits of the reduction of x*y are a
    // pattern (every limb over the alphabet), for odd patterns y
    let radix: Z = z(1) << 256usize;
    let digits = raw_alphabet(&d.p, ctx.pick(5, 7));
    let odd: Vec<Z> = vec![z(1), z(3), of_limbs(&[1, 0, 1, 0]), &d.p - z(2), of_limbs(&[u64::MAX, u64::MAX, 0, 0]), (&d.p >> 1) | z(1), of_limbs(&[u64::MAX, 0, u64::MAX, 0]), of_limbs(&[1, u64::MAX, 0, u64::MAX >> 3])];
    let odd: Vec<(Z, Z)> = odd
        .into_iter()
        .filter(|y| y.cmp(&d.p) == Ordering::Less)
        .map(|y| {
            let mut inv = z(1);
            for _ in 0..9 {
                // Newton: inv <- inv * (2 - y*inv)
                let t = (&y * &inv) % &radix;
                inv = (&inv * (&radix + z(2) - t)) % &radix;
            }
            (y, inv)
        })
        .collect();
    ctx.par(&format!("{} Montgomery digits", n), &digits, |k, rec| {
        rec.state(&(n, k, "digits"));
        let low: Z = (&radix - (k * &d.p) % &radix) % &radix;
        for (y, inv) in &odd {
            let x: Z = (&low * inv) % &radix;
            if x.cmp(&d.p) != Ordering::Less {
                continue;
            }
            rec.step(1);
            rec.label(format!("{} raw factors {:x} {:x} with digits {:x}", n, x, y, k));
            rec.case(|rec| {
                rec.outcome("digits");
                let raw = |r: &Z| F::from_raw_bytes(&bytes::<32>(r)).unwrap_or_else(F::zero);
                let (v, w) = ((&x * &d.rinv) % &d.p, (y * &d.rinv) % &d.p);
                binary::<F>(d, &raw(&x), &raw(y), &v, &w)?;
                unary::<F>(d, &x)
            });
        }
    });
    // powers of two and their neighbours, in raw and canonical form, with each other
    let two: Vec<Z> = (0..256usize).step_by(ctx.pick(4, 1)).flat_map(|k| vec![z(1) << k, (z(1) << k) - z(1), (z(1) << k) + z(1)]).chain((0..256usize).step_by(ctx.pick(8, 2)).map(|k| &d.p - &((z(1) << k) % &d.p))).filter(|x| x.cmp(&d.p) == Ordering::Less).collect();
    ctx.par(&format!("{} powers of two and neighbours", n), &two, |a, rec| {
        let ra = (a * &d.rinv) % &d.p;
        for b in &two {
            let rb = (b * &d.rinv) % &d.p;
            rec.step(2);
            rec.label(format!("{} two-power pair {:x} {:x}", n, a, b));
            rec.case(|rec| {
                rec.outcome("pair");
                binary::<F>(d, &el(a), &el(b), a, b)?;
                binary::<F>(d, &el(&ra), &el(&rb), &ra, &rb)
            });
        }
    });
    // a deterministic orbit of elements without structure
    let mut orbit: Vec<Z> = vec![(&d.p >> 1u32) + z(12345)];
    while orbit.len() < ctx.pick(300, 2000) {
        let l = orbit.last().unwrap();
        orbit.push((l * l * l + z(3)) % &d.p);
    }
    ctx.par(&format!("{} orbit", n), &orbit, |a, rec| {
        for b in &orbit {
            rec.step(1);
            rec.label(format!("{} orbit pair {:x} {:x}", n, a, b));
            rec.case(|rec| {
                rec.outcome("pair");
                binary::<F>(d, &el(a), &el(b), a, b)
            });
        }
        rec.case(|_| unary::<F>(d, a));
    });
    // exponents
    let m = &d.p;
    let exps: Vec<[u64; 4]> = [z(0), z(1), z(2), z(3), z(u64::MAX), z(1) << 64usize, (z(1) << 64usize) + z(1), z(1) << 255usize, (z(1) << 256usize) - z(1), m.clone(), m - z(1), m - z(2), m + z(1), (m - z(1)) >> 1, z(1) << 192usize]
        .iter()
        .map(limbs)
        .collect();
    ctx.par(&format!("{} powers", n), &exps, |e, rec| {
        for v in [z(0), z(1), z(2), z(7), m - z(1), m - z(2), m >> 1, (z(1) << 200usize) + z(5)] {
            rec.label(format!("{} {:x} ^ {:x?}", n, v, e));
            rec.state(&(n, &v, e));
            rec.step(1);
            rec.case(|rec| {
                rec.outcome("power");
                powers::<F>(d, &v, e)
            });
        }
    });
    // 512-bit reduction
    let pl = limbs(m);
    let wl = [0u64, 1, u64::MAX, pl[3], pl[0]];
    let wn = ctx.pick(4, 5);
    ctx.par_n(&format!("{} wide reductions", n), pow(wn, 8), |i, rec| {
        let w = word(i, wn, 8);
        let mut l = [0u64; 8];
        for (a, b) in l.iter_mut().zip(&w) {
            *a = wl[*b];
        }
        rec.label(format!("{} wide {:x?}", n, l));
        rec.state(&(n, &l));
        rec.step(1);
        rec.case(|rec| {
            rec.outcome("reduced");
            wide::<F>(d, &l)?;
            eq!("random from eight words", val(&random(l)), of_limbs(&l) % &d.p);
            Ok(())
        });
    });
}

struct Words([u64; 8], usize);
impl rand_core::RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        self.0[(self.1 - 1) % 8]
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ---------------------------------------------------------------------------
// extensions

use bn256::{Fq, Fq12, Fq2, Fq6};

/// Reference element of Fq12 as coefficients over Fq: index = 6*w + 2*v + u.
type R12 = Vec<Z>;

struct Ext {
    p: Z,
}
impl Ext {
    fn m2(&self, a: &(Z, Z), b: &(Z, Z)) -> (Z, Z) {
        let p = &self.p;
        ((&a.0 * &b.0 + (p * p - (&a.1 * &b.1))) % p, (&a.0 * &b.1 + &a.1 * &b.0) % p)
    }
    /// Schoolbook product: u^2 = -1, v^3 = 9+u, w^2 = v.
    fn mul(&self, a: &R12, b: &R12) -> R12 {
        let p = &self.p;
        // as polynomials in w of degree 11 over Fq2, w^2 = v, w^6 = 9+u
        let g = |x: &R12, i: usize| {
            let k = 6 * (i % 2) + 2 * (i / 2);
            (x[k].clone(), x[k + 1].clone())
        };
        let mut acc = vec![(z(0), z(0)); 12];
        for i in 0..6 {
            let x = g(a, i);
            if x.0 == z(0) && x.1 == z(0) {
                continue;
            }
            for j in 0..6 {
                let y = g(b, j);
                if y.0 == z(0) && y.1 == z(0) {
                    continue;
                }
                let t = self.m2(&x, &y);
                acc[i + j].0 += t.0;
                acc[i + j].1 += t.1;
            }
        }
        let xi = (z(9), z(1));
        let mut out = vec![z(0); 12];
        for i in 0..6 {
            let hi = (&acc[i + 6].0 % p, &acc[i + 6].1 % p);
            let h = self.m2(&hi, &xi);
            let k = 6 * (i % 2) + 2 * (i / 2);
            out[k] = (&acc[i].0 + h.0) % p;
            out[k + 1] = (&acc[i].1 + h.1) % p;
        }
        out
    }
    fn add(&self, a: &R12, b: &R12) -> R12 {
        a.iter().zip(b).map(|(x, y)| (x + y) % &self.p).collect()
    }
    fn neg(&self, a: &R12) -> R12 {
        a.iter().map(|x| (&self.p - x) % &self.p).collect()
    }
    fn pow(&self, a: &R12, e: &Z) -> R12 {
        let mut r = vec![z(0); 12];
        r[0] = z(1);
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
}

fn q2(a: &[Z]) -> Fq2 {
    Fq2 { c0: el(&a[0]), c1: el(&a[1]) }
}
fn q6(a: &[Z]) -> Fq6 {
    Fq6 { c0: q2(&a[0..2]), c1: q2(&a[2..4]), c2: q2(&a[4..6]) }
}
fn q12(a: &[Z]) -> Fq12 {
    Fq12 { c0: q6(&a[0..6]), c1: q6(&a[6..12]) }
}
fn v2(a: &Fq2) -> Vec<Z> {
    vec![val(&a.c0), val(&a.c1)]
}
fn v6(a: &Fq6) -> Vec<Z> {
    [v2(&a.c0), v2(&a.c1), v2(&a.c2)].concat()
}
fn v12(a: &Fq12) -> Vec<Z> {
    [v6(&a.c0), v6(&a.c1)].concat()
}
fn pad(a: &[Z]) -> R12 {
    let mut r = a.to_vec();
    r.resize(12, z(0));
    r
}
/// (reference, implementation) where the implementation must stay inside the smaller field
fn cut(r: &R12, n: usize) -> Result<Vec<Z>, String> {
    if r[n..].iter().any(|x| *x != z(0)) {
        return Err("reference left the subfield".into());
    }
    Ok(r[..n].to_vec())
}

macro_rules! ext_ops {
    ($name:ident, $t:ty, $mk:ident, $vals:ident, $n:expr) => {
        fn $name(e: &Ext, a: &[Z], b: &[Z]) -> Result<(), String> {
            let (x, y): ($t, $t) = ($mk(a), $mk(b));
            let (ra, rb) = (pad(a), pad(b));
            eq!("mul", $vals(&(x * y)), cut(&e.mul(&ra, &rb), $n)?);
            eq!("add", $vals(&(x + y)), cut(&e.add(&ra, &rb), $n)?);
            eq!("sub", $vals(&(x - y)), cut(&e.add(&ra, &e.neg(&rb)), $n)?);
            let mut t = x;
            t.mul_assign(&y);
            eq!("mul_assign", t, x * y);
            let mut t = x;
            t *= y;
            eq!("*=", t, x * y);
            let mut t = x;
            t += y;
            eq!("+=", t, x + y);
            let mut t = x;
            t -= y;
            eq!("-=", t, x - y);
            eq!("eq", x == y, a == b);
            eq!("ct_eq", bool::from(x.ct_eq(&y)), a == b);
            eq!("select 0", <$t>::conditional_select(&x, &y, Choice::from(0)), x);
            eq!("select 1", <$t>::conditional_select(&x, &y, Choice::from(1)), y);
            Ok(())
        }
    };
}
ext_ops!(bin2, Fq2, q2, v2, 2);
ext_ops!(bin6, Fq6, q6, v6, 6);
ext_ops!(bin12, Fq12, q12, v12, 12);

macro_rules! ext_un {
    ($name:ident, $t:ty, $mk:ident, $vals:ident, $n:expr) => {
        fn $name(e: &Ext, a: &[Z]) -> Result<(), String> {
            let x: $t = $mk(a);
            let ra = pad(a);
            let zero = a.iter().all(|c| *c == z(0));
            eq!("square", $vals(&x.square()), cut(&e.mul(&ra, &ra), $n)?);
            let mut t = x;
            t.square_assign();
            eq!("square_assign", t, x.square());
            eq!("double", $vals(&x.double()), cut(&e.add(&ra, &ra), $n)?);
            let mut t = x;
            t.double_assign();
            eq!("double_assign", t, x.double());
            eq!("neg", $vals(&-x), cut(&e.neg(&ra), $n)?);
            eq!("is_zero", bool::from(Field::is_zero(&x)), zero);
            eq!("== zero", x == <$t>::zero(), zero);
            let i: Option<$t> = Field::invert(&x).into();
            eq!("invert is some", i.is_some(), !zero);
            if let Some(i) = i {
                let mut one = vec![z(0); 12];
                one[0] = z(1);
                eq!("x * invert(x)", e.mul(&ra, &pad(&$vals(&i))), one);
            }
            Ok(())
        }
    };
}
ext_un!(un2, Fq2, q2, v2, 2);
ext_un!(un6, Fq6, q6, v6, 6);
ext_un!(un12, Fq12, q12, v12, 12);

fn special2(e: &Ext, a: &[Z]) -> Result<(), String> {
    let x = q2(a);
    let ra = pad(a);
    let p = &e.p;
    let xi = pad(&[z(9), z(1)]);
    let mut t = x;
    t.mul_by_nonresidue();
    eq!("mul_by_nonresidue", v2(&t), cut(&e.mul(&ra, &xi), 2)?);
    let mut t = x;
    t.mul_by_xi();
    eq!("mul_by_xi", v2(&t), cut(&e.mul(&ra, &xi), 2)?);
    let mut t = x;
    t.conjugate();
    eq!("conjugate", v2(&t), vec![a[0].clone(), (p - &a[1]) % p]);
    let n = (&a[0] * &a[0] + &a[1] * &a[1]) % p;
    eq!("norm", val(&x.norm()), n.clone());
    let is_sq = n == z(0) || n.modpow(&((p - z(1)) >> 1), p) == z(1);
    eq!("legendre", x.legendre(), if n == z(0) { bn256::LegendreSymbol::Zero } else if is_sq { bn256::LegendreSymbol::QuadraticResidue } else { bn256::LegendreSymbol::QuadraticNonResidue });
    let s: Option<Fq2> = x.sqrt().into();
    eq!("sqrt exists", s.is_some(), is_sq);
    if let Some(s) = s {
        let s = pad(&v2(&s));
        eq!("sqrt squared", e.mul(&s, &s), ra.clone());
    }
    for k in 0..4 {
        let mut t = x;
        t.frobenius_map(k);
        eq!(format!("frobenius {}", k), v2(&t), if k % 2 == 0 { a.to_vec() } else { vec![a[0].clone(), (p - &a[1]) % p] });
    }
    // encodings
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(&bytes::<32>(&a[0]));
    b[32..].copy_from_slice(&bytes::<32>(&a[1]));
    eq!("to_bytes", x.to_bytes(), b);
    eq!("from_bytes", Option::<Fq2>::from(Fq2::from_bytes(&b)), Some(x));
    eq!("to_repr", x.to_repr().as_ref().to_vec(), b.to_vec());
    let mut r = <Fq2 as PrimeField>::Repr::default();
    r.as_mut().copy_from_slice(&b);
    eq!("from_repr", Option::<Fq2>::from(Fq2::from_repr(r)), Some(x));
    let raw = x.to_raw_bytes();
    eq!("from_raw_bytes", Fq2::from_raw_bytes(&raw), Some(x));
    eq!("read_raw", Fq2::read_raw(&mut &raw[..]).ok(), Some(x));
    eq!("raw parts", raw, [x.c0.to_raw_bytes(), x.c1.to_raw_bytes()].concat());
    // one coordinate out of range
    for half in 0..2 {
        for over in [p.clone(), p + z(1), (z(1) << 256usize) - z(1)] {
            let mut c = b;
            c[32 * half..32 * half + 32].copy_from_slice(&bytes::<32>(&over));
            eq!("from_bytes over", bool::from(Fq2::from_bytes(&c).is_some()), false);
            let mut r = <Fq2 as PrimeField>::Repr::default();
            r.as_mut().copy_from_slice(&c);
            eq!("from_repr over", bool::from(Fq2::from_repr(r).is_some()), false);
            eq!("from_raw_bytes over", Fq2::from_raw_bytes(&c).is_some(), false);
            eq!("read_raw over", Fq2::read_raw(&mut &c[..]).is_ok(), false);
        }
    }
    Ok(())
}

fn order2(a: &[Z], b: &[Z]) -> Result<(), String> {
    let want = a[1].cmp(&b[1]).then(a[0].cmp(&b[0]));
    eq!("cmp", q2(a).cmp(&q2(b)), want);
    eq!("lt", q2(a) < q2(b), want == Ordering::Less);
    Ok(())
}

fn sparse6(e: &Ext, a: &[Z], b: &[Z]) -> Result<(), String> {
    let x = q6(a);
    let ra = pad(a);
    let at = |k: usize, c: &[Z]| {
        let mut r = vec![z(0); 12];
        r[2 * k] = c[0].clone();
        r[2 * k + 1] = c[1].clone();
        r
    };
    let mut t = x;
    t.mul_by_1(&q2(&b[0..2]));
    eq!("mul_by_1", v6(&t), cut(&e.mul(&ra, &at(1, &b[0..2])), 6)?);
    let mut t = x;
    t.mul_by_01(&q2(&b[0..2]), &q2(&b[2..4]));
    eq!("mul_by_01", v6(&t), cut(&e.mul(&ra, &e.add(&at(0, &b[0..2]), &at(1, &b[2..4]))), 6)?);
    let mut t = x;
    t.mul_by_nonresidue();
    eq!("mul_by_nonresidue", v6(&t), cut(&e.mul(&ra, &at(1, &[z(1), z(0)])), 6)?);
    let mut t = x;
    t.mul_by_v();
    eq!("mul_by_v", v6(&t), cut(&e.mul(&ra, &at(1, &[z(1), z(0)])), 6)?);
    Ok(())
}

fn sparse12(e: &Ext, a: &[Z], b: &[Z]) -> Result<(), String> {
    let x = q12(a);
    let ra = pad(a);
    // places: 0,1,2 = c0.c0,c0.c1,c0.c2; 3,4,5 = c1.*
    let at = |ks: [usize; 3]| {
        let mut r = vec![z(0); 12];
        for (i, k) in ks.iter().enumerate() {
            r[2 * k] = b[2 * i].clone();
            r[2 * k + 1] = b[2 * i + 1].clone();
        }
        r
    };
    let (b0, b1, b2) = (q2(&b[0..2]), q2(&b[2..4]), q2(&b[4..6]));
    let mut t = x;
    t.mul_by_014(&b0, &b1, &b2);
    eq!("mul_by_014", v12(&t), e.mul(&ra, &at([0, 1, 4])));
    let mut t = x;
    t.mul_by_034(&b0, &b1, &b2);
    eq!("mul_by_034", v12(&t), e.mul(&ra, &at([0, 3, 4])));
    let mut t = x;
    t.conjugate();
    let mut want = a.to_vec();
    for c in want[6..].iter_mut() {
        *c = (&e.p - &*c) % &e.p;
    }
    eq!("conjugate", v12(&t), want);
    Ok(())
}

fn frobenius(e: &Ext, a: &[Z], n: usize, rec: &mut Rec) -> Result<(), String> {
    let mut r = pad(a);
    for k in 0..14 {
        let got = match n {
            6 => {
                let mut t = q6(a);
                t.frobenius_map(k);
                pad(&v6(&t))
            }
            _ => {
                let mut t = q12(a);
                t.frobenius_map(k);
                v12(&t)
            }
        };
        eq!(format!("frobenius_map({})", k), got, r.clone());
        r = e.pow(&r, &e.p);
        rec.step(1);
    }
    Ok(())
}

/// In the cyclotomic subgroup, cyclotomic_square is squaring and conjugation is inversion.
fn cyclotomic(e: &Ext, a: &[Z]) -> Result<(), String> {
    // a^((p^6-1)(p^2+1))
    let inv = e.pow(&pad(a), &(z(1)));
    let x = q12(&inv);
    let i = match Option::<Fq12>::from(x.invert()) {
        Some(i) => v12(&i),
        None => return Ok(()),
    };
    let mut conj = a.to_vec();
    for c in conj[6..].iter_mut() {
        *c = (&e.p - &*c) % &e.p;
    }
    let f = e.mul(&conj, &i);
    let f2 = e.pow(&e.pow(&f, &e.p), &e.p);
    let g = e.mul(&f2, &f);
    let mut t = q12(&g);
    t.cyclotomic_square();
    eq!("cyclotomic_square", v12(&t), e.mul(&g, &g));
    let mut t = q12(&g);
    t.conjugate();
    let mut one = vec![z(0); 12];
    one[0] = z(1);
    eq!("conjugate inverts", e.mul(&v12(&t), &g), one);
    Ok(())
}

fn extensions(ctx: &Ctx, d: &Fd) {
    let e = Ext { p: d.p.clone() };
    let p = &d.p;
    let mont1: Z = (z(1) << 256usize) % p;
    let coeffs: Vec<Z> = vec![z(0), z(1), p - z(1), z(2), p >> 1, (p >> 1) + z(1), mont1, p - z(2), hex("123456789abcdef0fedcba98765432100f1e2d3c4b5a69788796a5b4c3d2e1f0")];
    ctx.seq("NEGATIVE_ONE", |rec| {
        rec.label("constant");
        rec.step(1);
        rec.case(|rec| {
            rec.outcome("constants");
            eq!("NEGATIVE_ONE", val(&bn256::NEGATIVE_ONE), p - z(1));
            eq!("Fq2 zero", v2(&Fq2::zero()), vec![z(0), z(0)]);
            eq!("Fq2 one", v2(&Fq2::one()), vec![z(1), z(0)]);
            eq!("Fq6 one", v6(&Fq6::one()), pad(&[z(1)])[..6].to_vec());
            eq!("Fq12 one", v12(&Fq12::one()), pad(&[z(1)]));
            eq!("Fq12 zero", v12(&Fq12::zero()), pad(&[z(0)]));
            eq!("Fq2 two inverse", v2(&(Fq2::TWO_INV.double())), vec![z(1), z(0)]);
            Ok(())
        });
    });
    let n = coeffs.len();
    // the base field's Legendre symbol
    ctx.par(&"Fq legendre", &raw_alphabet(p, 6).into_iter().filter(|x| x < p).collect::<Vec<_>>(), |v, rec| {
        rec.label(format!("legendre {:x}", v));
        rec.state(&v);
        rec.step(1);
        rec.case(|rec| {
            rec.outcome("legendre");
            let x: Fq = el(v);
            let s = v.modpow(&((p - z(1)) >> 1), p);
            let want = if s == z(0) {
                bn256::LegendreSymbol::Zero
            } else if s == z(1) {
                bn256::LegendreSymbol::QuadraticResidue
            } else {
                bn256::LegendreSymbol::QuadraticNonResidue
            };
            eq!("legendre", x.legendre(), want);
            Ok(())
        });
    });
    let vec_of = |i: usize, len: usize, k: usize| -> Vec<Z> { word(i, k, len).iter().map(|j| coeffs[*j].clone()).collect() };
    ctx.par_n("Fq2 elements", n * n, |i, rec| {
        let a = vec_of(i, 2, n);
        rec.label(format!("Fq2 {:x?}", a));
        rec.state(&a);
        rec.case(|rec| {
            rec.outcome("Fq2");
            un2(&e, &a)?;
            special2(&e, &a)?;
            for j in 0..n * n {
                rec.step(1);
                let b = vec_of(j, 2, n);
                bin2(&e, &a, &b)?;
                order2(&a, &b)?;
            }
            Ok(())
        });
    });
    // squares of Fq2 for square roots: all small elements squared
    let m = ctx.pick(24usize, 64);
    ctx.par_n("Fq2 square roots of squares", m * m, |i, rec| {
        let a = vec![z((i / m) as u64), z((i % m) as u64)];
        let sq = e.mul(&pad(&a), &pad(&a));
        for c in [a, sq[..2].to_vec()] {
            rec.label(format!("Fq2 {:x?}", c));
            rec.state(&c);
            rec.step(1);
            rec.case(|rec| {
                rec.outcome("Fq2");
                special2(&e, &c)
            });
        }
    });
    // Fq6: all vectors over {0,1,-1}; Fq12: weight <= 2 over four coefficients, all 0/1 vectors unary
    let k6 = ctx.pick(3, 4);
    ctx.par_n("Fq6 elements", pow(k6, 6), |i, rec| {
        let a = vec_of(i, 6, k6);
        rec.label(format!("Fq6 {:x?}", a));
        rec.state(&a);
        rec.case(|rec| {
            rec.outcome("Fq6");
            rec.step(1);
            un6(&e, &a)
        });
    });
    let low = |len: usize, cs: &[Z], wmax: usize| -> Vec<Vec<Z>> {
        let mut out = vec![vec![z(0); len]];
        for i in 0..len {
            for c in cs {
                let mut v = vec![z(0); len];
                v[i] = c.clone();
                out.push(v.clone());
                if wmax > 1 {
                    for j in i + 1..len {
                        for c2 in cs {
                            let mut w = v.clone();
                            w[j] = c2.clone();
                            out.push(w);
                        }
                    }
                }
            }
        }
        out
    };
    let dense = |len: usize, k: usize| -> Vec<Vec<Z>> { (0..k).map(|s| (0..len).map(|i| coeffs[(i * (s + 1) + s * s + i * i) % n].clone()).collect()).collect() };
    let cs: Vec<Z> = ctx.pick(vec![coeffs[1].clone(), coeffs[8].clone()], coeffs[1..].to_vec());
    let mut s6 = low(6, &cs, 2);
    s6.extend(dense(6, 9));
    ctx.par(&"Fq6 pairs", &s6, |a, rec| {
        rec.label(format!("Fq6 pairs {:x?}", a));
        rec.state(&a);
        rec.case(|rec| {
            rec.outcome("Fq6");
            for b in &s6 {
                rec.step(1);
                bin6(&e, a, b)?;
                sparse6(&e, a, b)?;
            }
            Ok(())
        });
    });
    let mut s12 = low(12, &cs[..ctx.pick(1, 2)], 2);
    s12.extend(dense(12, 9));
    let all01: Vec<Vec<Z>> = (0..4096usize).map(|i| (0..12).map(|j| z((i >> j & 1) as u64)).collect()).collect();
    ctx.par(&"Fq12 elements", &all01, |a, rec| {
        rec.label(format!("Fq12 {:x?}", a));
        rec.state(&a);
        rec.case(|rec| {
            rec.outcome("Fq12");
            rec.step(1);
            un12(&e, a)
        });
    });
    ctx.par(&"Fq12 pairs", &s12, |a, rec| {
        rec.label(format!("Fq12 pairs {:x?}", a));
        rec.state(&a);
        rec.case(|rec| {
            rec.outcome("Fq12");
            for b in &s12 {
                rec.step(1);
                bin12(&e, a, b)?;
            }
            for b in &s6 {
                rec.step(1);
                sparse12(&e, a, b)?;
            }
            Ok(())
        });
    });
    // Frobenius is linear: all basis vectors, and a few dense ones
    let mut f = low(6, &coeffs[1..2], 1);
    f.extend(dense(6, 3));
    let mut f12 = low(12, &coeffs[1..2], 1);
    f12.extend(dense(12, 3));
    let all: Vec<(usize, Vec<Z>)> = f.into_iter().map(|a| (6, a)).chain(f12.into_iter().map(|a| (12, a))).collect();
    ctx.par(&"Frobenius", &all, |(n, a), rec| {
        rec.label(format!("Fq{} Frobenius {:x?}", n, a));
        rec.state(&(n, a));
        rec.case(|rec| {
            rec.outcome("Frobenius");
            frobenius(&e, a, *n, rec)
        });
    });
    let mut c12 = low(12, &coeffs[1..2], 2);
    c12.extend(dense(12, 9));
    ctx.par(&"cyclotomic subgroup", &c12, |a, rec| {
        rec.label(format!("cyclotomic {:x?}", a));
        rec.state(&("cyc", a));
        rec.step(1);
        rec.case(|rec| {
            rec.outcome("cyclotomic");
            cyclotomic(&e, a)
        });
    });
}

fn main() {
    mc::main("C18", |ctx| {
        let fr = fd("bn256::Fr", "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001");
        let fq = fd("bn256::Fq", "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47");
        let sp = fd("secp256k1::Fp", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
        let sq = fd("secp256k1::Fq", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
        prime::<bn256::Fr>(ctx, &fr, bn256::Fr::from_raw, |w| bn256::Fr::random(Words(w, 0)), true, true);
        prime::<bn256::Fq>(ctx, &fq, bn256::Fq::from_raw, |w| bn256::Fq::random(Words(w, 0)), false, true);
        prime::<secp256k1::Fp>(ctx, &sp, secp256k1::Fp::from_raw, |w| secp256k1::Fp::random(Words(w, 0)), false, false);
        prime::<secp256k1::Fq>(ctx, &sq, secp256k1::Fq::from_raw, |w| secp256k1::Fq::random(Words(w, 0)), true, false);
        extensions(ctx, &fq);
    });
}
