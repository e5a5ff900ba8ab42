//! C19: curve operations obey the group law and encodings are canonical.
//!
//! Reference: the chord-and-tangent law on affine coordinates with one inversion per addition
//! (field arithmetic itself is C18's subject), scalar multiples by right-to-left double and add.
use ff::{Field, PrimeField};
use group::cofactor::{CofactorGroup};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group as _, GroupEncoding};
use halo2curves::bn256::{Fq, Fq2, Fr, G1Affine, G2Affine, G1, G2};
use halo2curves::secp256k1::{Fp, Fq as SFq, Secp256k1, Secp256k1Affine};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveAffineExt, CurveExt, Group as HGroup};
use mc::*;
use num_bigint::BigUint;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

type Z = BigUint;
/// reference point: None is the identity
type P<F> = Option<(F, F)>;

fn hexz(s: &str) -> Z {
    Z::parse_bytes(s.as_bytes(), 16).unwrap()
}

fn rneg<F: Field>(a: P<F>) -> P<F> {
    a.map(|(x, y)| (x, -y))
}
fn radd<F: Field>(a: P<F>, b: P<F>) -> P<F> {
    let ((x1, y1), (x2, y2)) = match (a, b) {
        (None, b) => return b,
        (a, None) => return a,
        (Some(a), Some(b)) => (a, b),
    };
    let l = if x1 == x2 {
        if y1 != y2 || bool::from(y1.is_zero()) {
            return None;
        }
        let xx = x1 * x1;
        (xx + xx + xx) * (y1 + y1).invert().unwrap()
    } else {
        (y2 - y1) * (x2 - x1).invert().unwrap()
    };
    let x3 = l * l - x1 - x2;
    Some((x3, l * (x1 - x3) - y1))
}
/// all 2^k p
fn powers<F: Field>(p: P<F>, n: usize) -> Vec<P<F>> {
    let mut v = vec![p];
    for _ in 1..n {
        let l = *v.last().unwrap();
        v.push(radd(l, l));
    }
    v
}
fn rmul<F: Field>(pw: &[P<F>], k: &Z) -> P<F> {
    (0..k.bits()).filter(|i| k.bit(*i)).fold(None, |a, i| radd(a, pw[i as usize]))
}

/// The base field as a vector of canonical integers (1 or 2 coefficients).
trait Base: PrimeField + SerdeObject {
    const DEG: usize;
    fn modulus() -> Z;
    fn of(c: &[Z]) -> Option<Self>;
    fn coeffs(&self) -> Vec<Z>;
    fn order1() -> Z;
}
fn fqp() -> Z {
    hexz("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47")
}
fn prime_of<F: PrimeField<Repr = [u8; 32]>>(c: &Z) -> Option<F> {
    let mut r = [0u8; 32];
    let b = c.to_bytes_le();
    if b.len() > 32 {
        return None;
    }
    r[..b.len()].copy_from_slice(&b);
    F::from_repr(r).into()
}
impl Base for Fq {
    const DEG: usize = 1;
    fn modulus() -> Z {
        fqp()
    }
    fn of(c: &[Z]) -> Option<Self> {
        prime_of(&c[0])
    }
    fn coeffs(&self) -> Vec<Z> {
        vec![Z::from_bytes_le(&self.to_repr())]
    }
    fn order1() -> Z {
        fqp() - 1u8
    }
}
impl Base for Fp {
    const DEG: usize = 1;
    fn modulus() -> Z {
        hexz("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
    }
    fn of(c: &[Z]) -> Option<Self> {
        prime_of(&c[0])
    }
    fn coeffs(&self) -> Vec<Z> {
        vec![Z::from_bytes_le(&self.to_repr())]
    }
    fn order1() -> Z {
        Self::modulus() - 1u8
    }
}
impl Base for Fq2 {
    const DEG: usize = 2;
    fn modulus() -> Z {
        fqp()
    }
    fn of(c: &[Z]) -> Option<Self> {
        Some(Fq2::new(prime_of(&c[0])?, prime_of(&c[1])?))
    }
    fn coeffs(&self) -> Vec<Z> {
        vec![Z::from_bytes_le(&self.c0.to_repr()), Z::from_bytes_le(&self.c1.to_repr())]
    }
    fn order1() -> Z {
        fqp() * fqp() - 1u8
    }
}
fn zpow<F: Field>(x: F, e: &Z) -> F {
    let mut r = F::one();
    for i in (0..e.bits()).rev() {
        r = r * r;
        if e.bit(i) {
            r = r * x;
        }
    }
    r
}
/// the sign of a nonzero y: parity of its lowest nonzero coefficient; exactly one of y, -y is odd
fn odd<B: Base>(y: &B) -> bool {
    y.coeffs().iter().find(|c| c.bits() > 0).map_or(false, |c| c.bit(0))
}
fn cube_root<B: Base>(w: B) -> Option<B> {
    // |F*| = 3^s t
    let mut t = B::order1();
    let three = Z::from(3u8);
    let mut s = 0;
    while (&t % &three).bits() == 0 {
        t = &t / &three;
        s += 1;
    }
    // inverse of 3 modulo t
    let inv = if (&t % &three) == Z::from(1u8) { (Z::from(2u8) * &t + 1u8) / &three } else { (&t + 1u8) / &three };
    let c = zpow(w, &inv);
    // times an element of the 3-Sylow subgroup
    let g = (2u64..).map(B::from).chain(std::iter::empty()).map(|x| zpow(x, &t)).take(60);
    let mut gens: Vec<B> = g.collect();
    // elements of the prime subfield may all be cubes in an extension: also try x + generator-like sums
    if B::DEG == 2 {
        for a in 1u64..60 {
            let x = B::of(&[Z::from(a), Z::from(1u8)]).unwrap();
            gens.push(zpow(x, &t));
        }
    }
    let full = zpow_n::<B>(s - 1);
    let gen = gens.into_iter().find(|x| zpow(*x, &full) != B::one())?;
    let mut m = B::one();
    for _ in 0..3usize.pow(s as u32) {
        let r = c * m;
        if r * r * r == w {
            return Some(r);
        }
        m = m * gen;
    }
    None
}
fn zpow_n<B: Base>(e: usize) -> Z {
    (0..e).fold(Z::from(1u8), |a, _| a * 3u8)
}

struct Cv<G: CurveExt> {
    name: &'static str,
    b: G::Base,
    gen: (G::Base, G::Base),
    order: Z,
    /// compressed length
    clen: usize,
    /// points of the curve outside the subgroup (G2)
    outside: Vec<(G::Base, G::Base)>,
}

fn aff<A: CurveAffine>(a: &A) -> P<A::Base>
where
    A: CurveAffineExt,
{
    if bool::from(a.is_identity()) {
        None
    } else {
        Some((*a).into_coordinates())
    }
}
fn mk_aff<A: CurveAffine>(p: P<A::Base>) -> A {
    match p {
        None => A::identity(),
        Some((x, y)) => A::from_xy(x, y).unwrap(),
    }
}
/// Read a projective point without the code's own normalization.
fn proj<G: CurveExt>(g: &G) -> Result<P<G::Base>, String> {
    let (x, y, z) = g.jacobian_coordinates();
    if bool::from(z.is_zero()) {
        return Ok(None);
    }
    let i = z.invert().unwrap();
    Ok(Some((x * i * i, y * i * i * i)))
}
fn mk_proj<G: CurveExt>(p: P<G::Base>, z: G::Base) -> G {
    match p {
        None => panic!(),
        Some((x, y)) => G::new_jacobian(x * z * z, y * z * z * z, z).unwrap(),
    }
}
fn want<F: Field>(what: &str, got: P<F>, exp: P<F>) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, group law gives {:?}", what, got, exp))
    }
}
fn yes(what: &str, c: impl Into<bool>) -> Result<(), String> {
    if c.into() {
        Ok(())
    } else {
        Err(format!("{} fails", what))
    }
}

/// all projective representations of p
fn reps<G: CurveExt>(p: P<G::Base>, zs: &[G::Base], junk: (G::Base, G::Base)) -> Vec<G> {
    match p {
        Some(_) => zs.iter().map(|z| mk_proj::<G>(p, *z)).collect(),
        None => {
            let zero = G::Base::zero();
            vec![
                G::identity(),
                G::new_jacobian(junk.0, junk.1, zero).unwrap(),
                G::new_jacobian(G::Base::one(), G::Base::one(), zero).unwrap(),
                G::new_jacobian(zero, G::Base::one(), zero).unwrap(),
            ]
        }
    }
}

struct CountRng(u64);
impl rand_core::RngCore for CountRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

macro_rules! curve_check {
($run:ident, $G:ident, $A:ident, $B:ident, $S:ident) => {
fn $run(ctx: &Ctx, cv: Cv<$G>)
{
    type G = $G;
    type A = $A;
    type B = $B;
    type S = $S;
    let n = cv.name;
    let g: P<B> = Some(cv.gen);

    // ---- constants
    ctx.seq(&format!("{}: constants", n), |rec| {
        rec.label(format!("{} constants", n));
        rec.case(|_| {
            want("generator", proj(&<G as group::Group>::generator())?, g)?;
            want("affine generator", aff(&<A as PrimeCurveAffine>::generator()), g)?;
            yes("b", G::b() == cv.b && <A as CurveAffine>::b() == cv.b)?;
            yes("a", bool::from(G::a().is_zero()) && bool::from(<A as CurveAffine>::a().is_zero()))?;
            let pw = powers(g, 256);
            want("order * generator", rmul(&pw, &cv.order), None)?;
            yes("generator is not the identity", rmul(&pw, &Z::from(1u8)).is_some())?;
            want("identity", proj(&<G as group::Group>::identity())?, None)?;
            want("default", proj(&G::default())?, None)?;
            want("affine identity", aff(&<A as PrimeCurveAffine>::identity()), None)?;
            want("affine default", aff(&A::default()), None)?;
            want("group_zero", proj(&<G as HGroup>::group_zero())?, None)?;
            // x^3+b for small x: membership tests agree with the curve equation
            Ok(())
        });
    });

    // ---- operand alphabet
    let win = ctx.pick(5i64, 10i64);
    let gs = powers(g, 8);
    let mut pts: Vec<(String, P<B>)> = vec![];
    for m in -win..=win {
        let p = rmul(&gs, &Z::from(m.unsigned_abs()));
        pts.push((format!("{}G", m), if m < 0 { rneg(p) } else { p }));
    }
    // the other points with the same y (a = 0: x times a cube root of unity)
    let w = {
        let e = B::order1() / 3u8;
        (2u64..)
            .flat_map(|i| {
                let mut v = vec![B::from(i)];
                if B::DEG == 2 {
                    v.push(B::of(&[Z::from(i), Z::from(1u8)]).unwrap());
                }
                v
            })
            .map(|x| zpow(x, &e))
            .find(|x| *x != B::one())
            .unwrap()
    };
    pts.push(("wG".into(), Some((cv.gen.0 * w, cv.gen.1))));
    pts.push(("-wwG".into(), Some((cv.gen.0 * w * w, -cv.gen.1))));
    for (i, t) in cv.outside.iter().enumerate() {
        pts.push((format!("T{}", i), Some(*t)));
        pts.push((format!("G-T{}", i), radd(g, rneg(Some(*t)))));
    }
    let c5 = rmul(&gs, &Z::from(5u8)).unwrap();
    let generic = zpow(c5.0, &Z::from(3u8)) + c5.1;
    let zs = vec![B::one(), B::one() + B::one(), -B::one(), generic];
    let all: Vec<(String, P<B>, Vec<G>)> = pts.iter().map(|(l, p)| (l.clone(), *p, reps::<G>(*p, &zs, c5))).collect();

    // ---- unary operations
    ctx.par(&format!("{}: unary operations", n), &all, |(l, p, rs), rec| {
        for (i, r) in rs.iter().enumerate() {
            rec.label(format!("{} {} rep {}", n, l, i));
            rec.state(&(n, l.clone(), i));
            rec.case(|rec| {
                let a: A = mk_aff(*p);
                let nid = p.is_none();
                want("double", proj(&r.double())?, radd(*p, *p))?;
                want("neg", proj(&-*r)?, rneg(*p))?;
                want("affine neg", aff(&-a), rneg(*p))?;
                want("to_affine", aff(&r.to_affine()), *p)?;
                want("into affine", aff(&A::from(*r)), *p)?;
                want("to_curve", proj(&PrimeCurveAffine::to_curve(&a))?, *p)?;
                want("into curve", proj(&G::from(a))?, *p)?;
                yes("is_identity", bool::from(r.is_identity()) == nid)?;
                yes("affine is_identity", bool::from(PrimeCurveAffine::is_identity(&a)) == nid)?;
                yes("is_on_curve", CurveExt::is_on_curve(r))?;
                yes("affine is_on_curve", CurveAffine::is_on_curve(&a))?;
                yes("double is on curve", CurveExt::is_on_curve(&r.double()))?;
                let (x, y, z) = r.jacobian_coordinates();
                if let Some((ax, ay)) = p {
                    let co = Option::from(a.coordinates()).map(|c: halo2curves::Coordinates<A>| (*c.x(), *c.y()));
                    yes("coordinates", co == Some((*ax, *ay)))?;
                    // off-curve neighbours are refused
                    let one = B::one();
                    for (k, (bx, by, bz)) in [(x + one, y, z), (x, y + one, z), (x, y, z + z), (y, x, z), (x, y, z * w)].into_iter().enumerate() {
                        let ok = by * by == bx * bx * bx + cv.b * zpow(bz, &Z::from(6u8));
                        yes(&format!("new_jacobian verdict on neighbour {}", k), bool::from(G::new_jacobian(bx, by, bz).is_some()) == ok)?;
                    }
                    for (k, (bx, by)) in [(*ax + one, *ay), (*ax, *ay + one), (*ay, *ax), (*ax, B::zero()), (B::zero(), *ay), (*ax * w, *ay), (-*ax, *ay)].into_iter().enumerate() {
                        let ok = by * by == bx * bx * bx + cv.b;
                        yes(&format!("from_xy verdict on neighbour {}", k), bool::from(A::from_xy(bx, by).is_some()) == ok)?;
                    }
                }
                rec.step(20);
                Ok(())
            });
        }
    });

    // ---- binary operations: all pairs of representations
    let flat: Vec<(usize, usize)> = all.iter().enumerate().flat_map(|(i, t)| (0..t.2.len()).map(move |j| (i, j))).collect();
    ctx.par(&format!("{}: all operand pairs", n), &flat, |&(i, j), rec| {
        let (li, pi, ri) = (&all[i].0, all[i].1, all[i].2[j]);
        for &(k, m) in &flat {
            let (lk, pk, rk) = (&all[k].0, all[k].1, all[k].2[m]);
            rec.label(format!("{} {}/{} with {}/{}", n, li, j, lk, m));
            rec.state(&(n, "pair", i, j, k, m));
            rec.case(|rec| {
                let s = radd(pi, pk);
                let d = radd(pi, rneg(pk));
                want("a+b", proj(&(ri + rk))?, s)?;
                want("&a+&b", proj(&(&ri + &rk))?, s)?;
                want("a-b", proj(&(ri - rk))?, d)?;
                let mut t = ri;
                t += rk;
                want("a+=b", proj(&t)?, s)?;
                let mut t = ri;
                t -= rk;
                want("a-=b", proj(&t)?, d)?;
                let mut t = ri;
                t.group_add(&rk);
                want("group_add", proj(&t)?, s)?;
                let mut t = ri;
                t.group_sub(&rk);
                want("group_sub", proj(&t)?, d)?;
                yes("a == b", (ri == rk) == (pi == pk))?;
                yes("a != b", (ri != rk) == (pi != pk))?;
                yes("ct_eq", bool::from(ri.ct_eq(&rk)) == (pi == pk))?;
                want("select 0", proj(&G::conditional_select(&ri, &rk, Choice::from(0)))?, pi)?;
                want("select 1", proj(&G::conditional_select(&ri, &rk, Choice::from(1)))?, pk)?;
                let ak: A = mk_aff(pk);
                if m == 0 {
                    want("a+affine", proj(&(ri + ak))?, s)?;
                    want("a-affine", proj(&(ri - ak))?, d)?;
                    want("affine+a", proj(&(ak + ri))?, s)?;
                    want("affine-a", proj(&(ak - ri))?, rneg(d))?;
                    let mut t = ri;
                    t += ak;
                    want("a+=affine", proj(&t)?, s)?;
                    let mut t = ri;
                    t -= ak;
                    want("a-=affine", proj(&t)?, d)?;
                    if j == 0 {
                        let ai: A = mk_aff(pi);
                        want("affine+affine", proj(&(ai + ak))?, s)?;
                        want("affine-affine", proj(&(ai - ak))?, d)?;
                        yes("affine == affine", (ai == ak) == (pi == pk))?;
                        yes("affine ct_eq", bool::from(ai.ct_eq(&ak)) == (pi == pk))?;
                        want("affine select 0", aff(&A::conditional_select(&ai, &ak, Choice::from(0))), pi)?;
                        want("affine select 1", aff(&A::conditional_select(&ai, &ak, Choice::from(1))), pk)?;
                    }
                }
                rec.step(12);
                Ok(())
            });
        }
    });

    // ---- all small coordinate triples: accepted iff they satisfy the equation
    ctx.seq(&format!("{}: coordinates", n), |rec| {
        let (zero, one) = (B::zero(), B::one());
        let co = [zero, one, -one, one + one, c5.0, c5.1, -c5.1, generic];
        for (i, x) in co.iter().enumerate() {
            for (j, y) in co.iter().enumerate() {
                rec.label(format!("{} affine coordinates {} {}", n, i, j));
                rec.state(&(n, "affine coordinates", i, j));
                rec.case(|rec| {
                    rec.step(1);
                    let on = *y * y == *x * x * x + cv.b;
                    let id = *x == zero && *y == zero;
                    let got = bool::from(A::from_xy(*x, *y).is_some());
                    yes("from_xy", got == on || id)
                });
                for (k, z) in co.iter().enumerate() {
                    rec.label(format!("{} coordinates {} {} {}", n, i, j, k));
                    rec.state(&(n, "coordinates", i, j, k));
                    rec.case(|rec| {
                        rec.step(1);
                        let on = *z == zero || *y * y == *x * x * x + cv.b * zpow(*z, &Z::from(6u8));
                        yes("new_jacobian", bool::from(G::new_jacobian(*x, *y, *z).is_some()) == on)
                    });
                }
            }
        }
    });

    // ---- sums and batch normalization over all short lists
    let small: Vec<(P<B>, G)> = {
        let p2 = radd(g, g);
        let mut v = vec![(None, G::identity()), (None, G::new_jacobian(c5.0, c5.1, B::zero()).unwrap())];
        v.push((g, mk_proj(g, B::one())));
        v.push((rneg(g), mk_proj(rneg(g), generic)));
        v.push((p2, mk_proj(p2, -generic)));
        v
    };
    let maxl = ctx.pick(4usize, 6usize);
    let mut lists: Vec<Vec<usize>> = (0..=maxl).flat_map(|l| words(small.len(), l)).collect();
    // long lists
    for l in [7usize, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257] {
        lists.push((0..l).map(|i| i % small.len()).collect());
        lists.push((0..l).map(|i| if i + 1 == l { 2 } else { 0 }).collect());
        lists.push((0..l).map(|i| if i == 0 { 0 } else { 2 + i % 3 }).collect());
    }
    ctx.par(&format!("{}: sums and batch normalization", n), &lists, |li, rec| {
        rec.label(format!("{} list {:?}", n, li));
        rec.state(&(n, "list", li.clone()));
        rec.case(|rec| {
            let ps: Vec<G> = li.iter().map(|i| small[*i].1).collect();
            let exp: P<B> = li.iter().fold(None, |a, i| radd(a, small[*i].0));
            want("sum", proj(&ps.iter().sum::<G>())?, exp)?;
            want("sum by value", proj(&ps.iter().copied().sum::<G>())?, exp)?;
            // the output buffer's previous contents do not matter
            let mut out: Vec<A> = vec![mk_aff(Some(c5)); ps.len()];
            G::batch_normalize(&ps, &mut out);
            for (k, i) in li.iter().enumerate() {
                want(&format!("batch_normalize[{}]", k), aff(&out[k]), small[*i].0)?;
            }
            rec.step(3);
            Ok(())
        });
    });

    // ---- scalar multiplication
    let q = cv.order.clone();
    let mut ks: Vec<Z> = (0u8..18).map(Z::from).collect();
    for k in 0..256usize {
        let p: Z = Z::from(1u8) << k;
        for x in [p.clone(), &p - 1u8, &p + 1u8] {
            ks.push(x % &q);
        }
        if p <= q {
            ks.push(&q - &p);
        }
    }
    for d in 1u8..6 {
        ks.push(&q - d);
        ks.push((&q - 1u8) / 2u8 + d);
        ks.push(&q / Z::from(d + 2));
    }
    for b in [0x55u8, 0xaa, 0x0f, 0xf0, 0x80, 0x01, 0x7f, 0xfe] {
        ks.push(Z::from_bytes_le(&[b; 32]) % &q);
        ks.push(Z::from_bytes_le(&[b; 16]) % &q);
    }
    ks.sort();
    ks.dedup();
    let stride = ctx.pick(if B::DEG == 2 { 2 } else { 1 }, 1);
    let ks: Vec<Z> = ks.into_iter().enumerate().filter(|(i, k)| i % stride == 0 || k.bits() < 6 || (&q - k).bits() < 6).map(|x| x.1).collect();
    let bases: Vec<(String, P<B>, G)> = {
        let mut v = vec![
            ("identity".to_string(), None, G::identity()),
            ("G".to_string(), g, mk_proj(g, B::one())),
            ("-3G".to_string(), rneg(rmul(&gs, &Z::from(3u8))), mk_proj(rneg(rmul(&gs, &Z::from(3u8))), generic)),
        ];
        if let Some(t) = cv.outside.first() {
            v.push(("T".into(), Some(*t), mk_proj(Some(*t), generic)));
        }
        v
    };
    let pws: Vec<Vec<P<B>>> = bases.iter().map(|b| powers(b.1, 256)).collect();
    ctx.par(&format!("{}: scalar multiplication", n), &ks, |k, rec| {
        for (bi, (bl, bp, bg)) in bases.iter().enumerate() {
            rec.label(format!("{} {} * {:x}", n, bl, k));
            rec.state(&(n, bl.clone(), k.to_bytes_le()));
            rec.case(|rec| {
                let s: S = prime_of(k).ok_or("scalar refused")?;
                let exp = rmul(&pws[bi], k);
                want("point*k", proj(&(*bg * s))?, exp)?;
                want("affine*k", proj(&(mk_aff::<A>(*bp) * s))?, exp)?;
                let mut t = *bg;
                t *= s;
                want("point*=k", proj(&t)?, exp)?;
                let mut t = *bg;
                t.group_scale(&s);
                want("group_scale", proj(&t)?, exp)?;
                rec.step(4);
                Ok(())
            });
        }
    });

    // ---- batch_add
    // pairs over a small alphabet of points; output slots after the inputs, in every order
    let ba: Vec<P<B>> = vec![None, g, rneg(g), radd(g, g), Some((cv.gen.0 * w, cv.gen.1))];
    let np = ctx.pick(2usize, 3usize);
    let mut pairlists: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for l in 0..=np {
        for wd in words(ba.len(), 2 * l) {
            for perm in mc::util::permutations(l) {
                pairlists.push((wd.clone(), perm));
            }
        }
    }
    ctx.par(&format!("{}: batch_add", n), &pairlists, |(wd, perm), rec| {
        for offset in [0usize, 7] {
            rec.label(format!("{} batch_add {:?} out {:?} offset {}", n, wd, perm, offset));
            rec.state(&(n, "ba", wd.clone(), perm.clone(), offset));
            rec.case(|rec| {
                let l = perm.len();
                let outs: Vec<u32> = perm.iter().map(|p| (2 * l + p + offset) as u32).collect();
                let exp: Vec<P<B>> = (0..l).map(|i| radd(ba[wd[2 * i]], ba[wd[2 * i + 1]])).collect();
                let fill: A = mk_aff(Some(c5));
                let distinct = (0..l).all(|i| {
                    let (a, b) = (ba[wd[2 * i]], ba[wd[2 * i + 1]]);
                    matches!((a, b), (Some(a), Some(b)) if a.0 != b.0)
                });
                let mut bufs: Vec<(&str, Vec<A>)> = vec![];
                let mut buf: Vec<A> = wd.iter().map(|i| mk_aff(ba[*i])).collect();
                buf.resize(3 * l, fill);
                let mut b1 = buf.clone();
                A::batch_add::<true, false>(&mut b1, &outs, 2 * l, offset, &[], &[]);
                bufs.push(("complete", b1));
                if distinct {
                    let mut b1 = buf.clone();
                    A::batch_add::<false, false>(&mut b1, &outs, 2 * l, offset, &[], &[]);
                    bufs.push(("incomplete", b1));
                }
                // loading: bases are the alphabet's points or their negatives
                let bases: Vec<A> = ba.iter().enumerate().map(|(i, p)| mk_aff(if i % 2 == 1 { rneg(*p) } else { *p })).collect();
                let pos: Vec<u32> = wd.iter().map(|i| if i % 2 == 1 { *i as u32 | 0x8000_0000 } else { *i as u32 }).collect();
                let mut b1 = vec![fill; 3 * l];
                A::batch_add::<true, true>(&mut b1, &outs, 2 * l, offset, &bases, &pos);
                bufs.push(("complete, loading", b1));
                if distinct {
                    let mut b1 = vec![fill; 3 * l];
                    A::batch_add::<false, true>(&mut b1, &outs, 2 * l, offset, &bases, &pos);
                    bufs.push(("incomplete, loading", b1));
                }
                for (what, b) in bufs {
                    rec.step(1);
                    for i in 0..l {
                        want(&format!("{} pair {}", what, i), aff(&b[2 * l + perm[i]]), exp[i])?;
                    }
                }
                Ok(())
            });
        }
    });

    // ---- encodings
    let mut encp = pts.clone();
    for m in [1000u64, 1001, 1002, 1003] {
        let p = rmul(&powers(g, 16), &Z::from(m));
        encp.push((format!("{}G", m), p));
        encp.push((format!("-{}G", m), rneg(p)));
    }
    let size = 32 * B::DEG;
    let encode = |p: &P<B>| -> Vec<u8> {
        let mut v = vec![0u8; cv.clen];
        if let Some((x, y)) = p {
            for (i, c) in x.coeffs().iter().enumerate() {
                let b = c.to_bytes_le();
                v[32 * i..32 * i + b.len()].copy_from_slice(&b);
            }
            if odd(y) {
                v[cv.clen - 1] |= 0x80;
            }
        }
        v
    };
    // reference decoding of a compressed encoding
    let decode = |v: &[u8]| -> Option<P<B>> {
        let mut v = v.to_vec();
        let sign = v[cv.clen - 1] & 0x80 != 0;
        v[cv.clen - 1] &= 0x7f;
        if v[size..].iter().any(|b| *b != 0) {
            return None;
        }
        let cs: Vec<Z> = v[..size].chunks(32).map(Z::from_bytes_le).collect();
        if cs.iter().any(|c| *c >= B::modulus()) {
            return None;
        }
        let x = B::of(&cs)?;
        if bool::from(x.is_zero()) && !sign {
            return Some(None);
        }
        let r: B = Option::from((x * x * x + cv.b).sqrt())?;
        Some(Some((x, if odd(&r) == sign { r } else { -r })))
    };
    let dec_a = |v: &[u8]| -> Option<P<B>> {
        let mut r = <A as GroupEncoding>::Repr::default();
        r.as_mut().copy_from_slice(v);
        Option::<A>::from(A::from_bytes(&r)).map(|a| aff(&a))
    };
    let dec_p = |v: &[u8]| -> Option<Result<P<B>, String>> {
        let mut r = <G as GroupEncoding>::Repr::default();
        r.as_mut().copy_from_slice(v);
        Option::<G>::from(G::from_bytes(&r)).map(|a| proj(&a))
    };
    let check_bytes = |v: &[u8]| -> Result<bool, String> {
        let e = decode(v);
        let got = dec_a(v);
        if got != e {
            return Err(format!("bytes {:02x?} decode to {:?}, reference {:?}", v, got, e));
        }
        let gp = dec_p(v).transpose()?;
        if gp != e {
            return Err(format!("bytes {:02x?} decode to projective {:?}, reference {:?}", v, gp, e));
        }
        if let Some(p) = e {
            let a: A = mk_aff(p);
            if a.to_bytes().as_ref() != v {
                return Err(format!("bytes {:02x?} decode but encode to {:02x?}", v, a.to_bytes().as_ref()));
            }
        }
        Ok(e.is_some())
    };
    ctx.par(&format!("{}: compressed encodings and their faults", n), &encp, |(l, p), rec| {
        rec.label(format!("{} encoding of {}", n, l));
        let enc = encode(p);
        rec.case(|_| {
            let a: A = mk_aff(*p);
            yes("repr length", a.to_bytes().as_ref().len() == cv.clen && <G as GroupEncoding>::Repr::default().as_ref().len() == cv.clen)?;
            yes("to_bytes", a.to_bytes().as_ref() == &enc[..])?;
            for r in reps::<G>(*p, &zs, c5) {
                yes("projective to_bytes", r.to_bytes().as_ref() == &enc[..])?;
            }
            let mut r = <A as GroupEncoding>::Repr::default();
            r.as_mut().copy_from_slice(&enc);
            want("from_bytes_unchecked", aff(&Option::<A>::from(A::from_bytes_unchecked(&r)).ok_or("refused")?), *p)?;
            yes("decodes", check_bytes(&enc)?)
        });
        let vals: Vec<u8> = if ctx.thorough() { (1..=255).collect() } else { (0..8).map(|b| 1u8 << b).chain([0x81, 0xc0, 0xff]).collect() };
        for pos in 0..enc.len() {
            for m in &vals {
                rec.label(format!("{} encoding of {} byte {} ^ {:02x}", n, l, pos, m));
                rec.state(&(n, "enc", l.clone(), pos, *m));
                rec.case(|rec| {
                    let mut v = enc.clone();
                    v[pos] ^= m;
                    let ok = check_bytes(&v)?;
                    rec.outcome(if ok { "faulty encoding is another point" } else { "faulty encoding refused" });
                    Ok(())
                });
            }
        }
    });
    // non-canonical coordinates: x + modulus in every coefficient, all ones, modulus, modulus - 1, small values
    ctx.seq(&format!("{}: boundary encodings", n), |rec| {
        let p = B::modulus();
        let mut cand: Vec<Z> = vec![];
        for i in 0u64..ctx.pick(24, 200) {
            cand.push(Z::from(i));
            cand.push(&p + i);
            cand.push(&p - (i + 1));
        }
        let top: Z = (Z::from(1u8) << 255usize) - 1u8;
        cand.push(top.clone());
        cand.push((Z::from(1u8) << 256usize) - 1u8);
        for t in [1u8, 2, 3, 4] {
            let m: Z = &p * t;
            cand.push(m);
        }
        let words: Vec<Vec<Z>> = if B::DEG == 1 {
            cand.iter().map(|c| vec![c.clone()]).collect()
        } else {
            let few: Vec<Z> = cand.iter().take(30).chain(cand.iter().rev().take(6)).cloned().collect();
            few.iter().flat_map(|a| few.iter().map(move |b| vec![a.clone(), b.clone()])).collect()
        };
        for cs in words {
            for sign in [0u8, 0x80] {
                let mut v = vec![0u8; cv.clen];
                let mut fits = true;
                for (i, c) in cs.iter().enumerate() {
                    let b = c.to_bytes_le();
                    if b.len() > 32 {
                        fits = false;
                        break;
                    }
                    v[32 * i..32 * i + b.len()].copy_from_slice(&b);
                }
                if !fits || (v[cv.clen - 1] & 0x80 != 0) {
                    continue;
                }
                v[cv.clen - 1] |= sign;
                rec.label(format!("{} x = {:?} sign {}", n, cs.iter().map(|c| format!("{:x}", c)).collect::<Vec<_>>(), sign >> 7));
                rec.state(&(n, "b", v.clone()));
                rec.case(|rec| {
                    let ok = check_bytes(&v)?;
                    rec.outcome(if ok { "boundary x on the curve" } else { "boundary x refused" });
                    Ok(())
                });
            }
        }
    });
    // points both of whose y coordinates have an even first coefficient (only over the extension)
    if B::DEG == 2 {
        let ys: Vec<u64> = (1..ctx.pick(40u64, 200)).collect();
        ctx.par(&format!("{}: points with purely imaginary y", n), &ys, |&y1, rec| {
            let y = B::of(&[Z::from(0u8), Z::from(y1)]).unwrap();
            if let Some(x) = cube_root::<B>(y * y - cv.b) {
                for yy in [y, -y] {
                    rec.label(format!("{} point with y = {:?}", n, yy));
                    rec.state(&(n, "im", y1));
                    rec.case(|rec| {
                        let p = Some((x, yy));
                        let a: A = mk_aff(p);
                        let v = a.to_bytes().as_ref().to_vec();
                        yes("decodes to the same point", dec_a(&v) == Some(p))?;
                        let mut o = v.clone();
                        o[cv.clen - 1] ^= 0x80;
                        yes("the other sign decodes to the opposite point", dec_a(&o) == Some(rneg(p)))?;
                        rec.outcome("imaginary y");
                        Ok(())
                    });
                }
            }
        });
    }
    // raw encodings: limbs as stored (Montgomery), checked on reading
    ctx.par(&format!("{}: raw encodings and their faults", n), &all, |(l, p, rs), rec| {
        let a: A = mk_aff(*p);
        let raw = a.to_raw_bytes();
        rec.label(format!("{} raw {}", n, l));
        rec.case(|_| {
            yes("raw length", raw.len() == 2 * size)?;
            want("from_raw_bytes", aff(&A::from_raw_bytes(&raw).ok_or("refused")?), *p)?;
            want("from_raw_bytes_unchecked", aff(&A::from_raw_bytes_unchecked(&raw)), *p)?;
            want("read_raw", aff(&A::read_raw(&mut &raw[..]).map_err(|e| format!("{:?}", e))?), *p)?;
            want("read_raw_unchecked", aff(&A::read_raw_unchecked(&mut &raw[..])), *p)?;
            let mut w = vec![];
            a.write_raw(&mut w).map_err(|e| format!("{:?}", e))?;
            yes("write_raw", w == raw)?;
            yes("longer", A::from_raw_bytes(&[&raw[..], &[0]].concat()).is_none())?;
            for cut in 0..raw.len() {
                yes("truncated from_raw_bytes", A::from_raw_bytes(&raw[..cut]).is_none())?;
                yes("truncated read_raw", A::read_raw(&mut &raw[..cut]).is_err())?;
            }
            for r in rs {
                let rr = r.to_raw_bytes();
                yes("raw length (projective)", rr.len() == 3 * size)?;
                let (x, y, z) = r.jacobian_coordinates();
                for back in [G::from_raw_bytes(&rr).ok_or("refused")?, G::from_raw_bytes_unchecked(&rr), G::read_raw(&mut &rr[..]).map_err(|e| format!("{:?}", e))?, G::read_raw_unchecked(&mut &rr[..])] {
                    yes("projective raw round trip", back.jacobian_coordinates() == (x, y, z))?;
                }
                yes("longer", G::from_raw_bytes(&[&rr[..], &[0]].concat()).is_none())?;
                for cut in 0..rr.len() {
                    yes("truncated from_raw_bytes", G::from_raw_bytes(&rr[..cut]).is_none())?;
                    yes("truncated read_raw", G::read_raw(&mut &rr[..cut]).is_err())?;
                }
            }
            Ok(())
        });
        for pos in 0..raw.len() {
            for bit in 0..8 {
                rec.label(format!("{} raw {} byte {} bit {}", n, l, pos, bit));
                rec.state(&(n, "raw", l.clone(), pos, bit));
                rec.case(|rec| {
                    let mut v = raw.clone();
                    v[pos] ^= 1 << bit;
                    let fld: Option<Vec<B>> = v.chunks(size).map(B::from_raw_bytes).collect();
                    let ok = fld.as_ref().map_or(false, |f| f[1] * f[1] == f[0] * f[0] * f[0] + cv.b || f.iter().all(|x| bool::from(x.is_zero())));
                    yes("from_raw_bytes verdict", A::from_raw_bytes(&v).is_some() == ok)?;
                    yes("read_raw verdict", A::read_raw(&mut &v[..]).is_ok() == ok)?;
                    rec.outcome(if ok { "faulty raw point accepted" } else { "faulty raw point refused" });
                    Ok(())
                });
            }
        }
        let rr = rs[rs.len() - 1].to_raw_bytes();
        for pos in 0..rr.len() {
            for bit in 0..8 {
                rec.label(format!("{} raw projective {} byte {} bit {}", n, l, pos, bit));
                rec.state(&(n, "rawp", l.clone(), pos, bit));
                rec.case(|_| {
                    let mut v = rr.clone();
                    v[pos] ^= 1 << bit;
                    let fld: Option<Vec<B>> = v.chunks(size).map(B::from_raw_bytes).collect();
                    let ok = fld.as_ref().map_or(false, |f| f[1] * f[1] == f[0] * f[0] * f[0] + cv.b * zpow(f[2], &Z::from(6u8)) || bool::from(f[2].is_zero()));
                    yes("from_raw_bytes verdict", G::from_raw_bytes(&v).is_some() == ok)?;
                    yes("read_raw verdict", G::read_raw(&mut &v[..]).is_ok() == ok)
                });
            }
        }
    });

    // ---- random points and the prime-order subgroup
    ctx.par_n(&format!("{}: random points are in the group", n), ctx.pick(8, 64), |i, rec| {
        rec.label(format!("{} random {}", n, i));
        rec.state(&(n, "rnd", i));
        rec.case(|_| {
            let p = proj(&<G as group::Group>::random(CountRng(i as u64)))?;
            let (x, y) = p.ok_or("identity")?;
            yes("on curve", y * y == x * x * x + cv.b)?;
            want("order * random", rmul(&powers(p, 256), &cv.order), None)
        });
    });
    let subg: Vec<(String, P<B>)> = pts.iter().filter(|p| !p.0.starts_with("wG")).cloned().collect();
    ctx.par(&format!("{}: cofactor", n), &subg, |(l, p), rec| {
        rec.label(format!("{} cofactor {}", n, l));
        rec.case(|_| {
            let pw = powers(*p, 257);
            let r = match p {
                None => G::identity(),
                p => mk_proj(*p, generic),
            };
            let inside = rmul(&pw, &cv.order).is_none();
            yes("is_torsion_free", bool::from(r.is_torsion_free()) == inside)?;
            let c: G = r.clear_cofactor().into();
            let c = proj(&c)?;
            let h = if B::DEG == 2 { fqp() * 2u8 - &cv.order } else { Z::from(1u8) };
            want("clear_cofactor", c, rmul(&pw, &h))?;
            want("cleared point has the group's order", rmul(&powers(c, 256), &cv.order), None)
        });
    });
}
};
}
curve_check!(run_g1, G1, G1Affine, Fq, Fr);
curve_check!(run_g2, G2, G2Affine, Fq2, Fr);
curve_check!(run_secp, Secp256k1, Secp256k1Affine, Fp, SFq);

fn words(a: usize, l: usize) -> Vec<Vec<usize>> {
    (0..a.pow(l as u32))
        .map(|mut i| {
            (0..l)
                .map(|_| {
                    let d = i % a;
                    i /= a;
                    d
                })
                .collect()
        })
        .collect()
}

fn fq(s: &str) -> Fq {
    prime_of(&Z::parse_bytes(s.as_bytes(), 10).unwrap()).unwrap()
}
fn fp(s: &str) -> Fp {
    prime_of(&hexz(s)).unwrap()
}

fn main() {
    mc::main("C19", |ctx| {
        ctx.case_limit(300);
        ctx.assume("field arithmetic is exact (C18)");
        let r = hexz("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001");
        run_g1(ctx, Cv { name: "bn256 G1", b: Fq::from(3), gen: (Fq::from(1), Fq::from(2)), order: r.clone(), clen: 32, outside: vec![] });
        run_secp(ctx, Cv {
            name: "secp256k1",
            b: Fp::from(7),
            gen: (
                fp("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
                fp("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"),
            ),
            order: hexz("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
            clen: 33,
            outside: vec![],
        });
        // twist: b' = 3 / (9 + u)
        let b2 = Fq2::new(Fq::from(3), Fq::zero()) * Fq2::new(Fq::from(9), Fq::one()).invert().unwrap();
        let g2 = (
            Fq2::new(
                fq("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
                fq("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
            ),
            Fq2::new(
                fq("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
                fq("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
            ),
        );
        // points of the twist with small x: outside the prime-order subgroup
        let outside: Vec<(Fq2, Fq2)> = (0u64..)
            .map(|i| Fq2::new(Fq::from(i), Fq::from(1)))
            .filter_map(|x| Option::<Fq2>::from((x * x * x + b2).sqrt()).map(|y| (x, y)))
            .filter(|p| rmul(&powers(Some(*p), 256), &r).is_some())
            .take(1)
            .collect();
        run_g2(ctx, Cv { name: "bn256 G2", b: b2, gen: g2, order: r, clen: 64, outside });

        // ---- the endomorphism of G1: (x, y) -> (zeta x, -y) is multiplication by a fixed scalar
        ctx.seq("bn256 G1: endomorphism", |rec| {
            let g: P<Fq> = Some((Fq::from(1), Fq::from(2)));
            let gs = powers(g, 16);
            let e1 = proj(&CurveExt::endo(&mk_proj::<G1>(g, Fq::one()))).unwrap();
            for m in 0u64..ctx.pick(20, 200) {
                let p = rmul(&gs, &Z::from(m));
                for (j, rep) in reps::<G1>(p, &[Fq::one(), Fq::from(5), -Fq::from(7)], (Fq::from(1), Fq::from(2))).into_iter().enumerate() {
                    rec.label(format!("endo {}G rep {}", m, j));
                    rec.state(&("endo", m, j));
                    rec.case(|_| {
                        let e = proj(&CurveExt::endo(&rep))?;
                        // a homomorphism, determined by its value on G
                        want("endo(mG) = m endo(G)", e, rmul(&powers(e1, 16), &Z::from(m)))?;
                        // phi^2 - phi + 1 = 0 and not +-1
                        let e2 = proj(&CurveExt::endo(&CurveExt::endo(&rep)))?;
                        want("phi^2 - phi + 1", radd(radd(e2, rneg(e)), p), None)?;
                        yes("nontrivial", m == 0 || (e != p && e != rneg(p)))
                    });
                }
            }
        });
    })
}
