//! C15: multi-scalar multiplications return the sum of the products.
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_proofs::arithmetic::{best_multiexp, small_multiexp, CurveAffine};
use halo2_proofs::poly::commitment::{ParamsProver, MSM};
use halo2_proofs::poly::ipa::commitment::ParamsIPA;
use halo2_proofs::poly::ipa::msm::MSMIPA;
use halo2_proofs::poly::kzg::msm::MSMKZG;
use halo2curves::bn256::{Bn256, Fr, G1};
use halo2curves::pasta::{Eq, EqAffine, Fp};
use mc::*;

/// A point is known by its multiple of the generator.
struct Pt<C: CurveAffine> {
    p: C,
    dlog: C::ScalarExt,
}
impl<C: CurveAffine> Clone for Pt<C> {
    fn clone(&self) -> Self {
        Pt { p: self.p, dlog: self.dlog }
    }
}
/// [s]P by adding and doubling, most significant bit first.
fn times<C: CurveAffine>(p: C::CurveExt, s: C::ScalarExt) -> C::CurveExt {
    let mut a = C::CurveExt::identity();
    for byte in s.to_repr().as_ref().iter().rev() {
        for b in (0..8).rev() {
            a = a + a;
            if byte >> b & 1 == 1 {
                a = a + p;
            }
        }
    }
    a
}
fn two_to<F: Field>(i: usize) -> F {
    (0..i).fold(F::one(), |a, _| a + a)
}

fn routines<C: CurveAffine>(c: &Ctx, name: &str) {
    let g = C::CurveExt::generator();
    let sc = |x: u64| C::ScalarExt::from(x);
    let point = |d: C::ScalarExt| Pt { p: if bool::from(d.is_zero()) { C::identity() } else { times::<C>(g, d).to_affine() }, dlog: d };
    let pts: Vec<Pt<C>> = vec![point(sc(0)), point(sc(1)), point(-sc(1)), point(sc(2)), point(sc(3)), point(-sc(1).double().invert().unwrap())];
    let one = sc(1);
    let big = two_to::<C::ScalarExt>(253) - one;
    let scalars = [sc(0), one, -one, sc(2), sc(7), sc(8), big];
    let judge = |terms: &[(C::ScalarExt, &Pt<C>)]| -> Result<(), String> {
        let want = times::<C>(g, terms.iter().fold(sc(0), |a, (s, p)| a + *s * p.dlog));
        let s: Vec<_> = terms.iter().map(|x| x.0).collect();
        let b: Vec<_> = terms.iter().map(|x| x.1.p).collect();
        let x = best_multiexp(&s, &b);
        if x != want || x.to_affine() != want.to_affine() {
            return Err("best_multiexp".into());
        }
        let x = small_multiexp(&s, &b);
        if x != want || x.to_affine() != want.to_affine() {
            return Err("small_multiexp".into());
        }
        Ok(())
    };
    // every short list over the alphabets
    let na = pts.len() * scalars.len();
    let maxlen = if c.thorough() || name == "bn256::G1" { 3 } else { 2 };
    let mut jobs = vec![];
    for l in 0..=maxlen {
        for i in 0..util::pow(na, l) {
            jobs.push((l, i));
        }
    }
    c.par(&format!("short lists {}", name), &jobs, |(l, i), r| {
        let w = util::word(*i, na, *l);
        r.label(format!("{} terms {:?}", name, w));
        r.case(|r| {
            let t: Vec<_> = w.iter().map(|x| (scalars[x % 7], &pts[x / 7])).collect();
            r.state(&(name, &w));
            judge(&t)
        });
    });
    // every bit of a scalar at the lengths around the window changes
    let lens = c.pick(vec![1usize, 3, 4, 31, 32], vec![1usize, 2, 3, 4, 5, 31, 32, 33, 64, 100]);
    let bits: Vec<(usize, usize)> = lens.iter().flat_map(|l| (0..256usize).map(move |b| (*l, b))).collect();
    c.par(&format!("bits {}", name), &bits, |(l, b), r| {
        r.label(format!("{} length {} bit {}", name, l, b));
        r.case(|r| {
            let x = two_to::<C::ScalarExt>(*b);
            for pos in [0, l / 2, l - 1] {
                for v in [x, x - one, -x, x + x + x] {
                    let t: Vec<_> = (0..*l).map(|i| if i == pos { (v, &pts[4]) } else { (sc(0), &pts[1]) }).collect();
                    judge(&t)?;
                    r.step(1);
                    if c.thorough() || *b % 16 == 0 {
                        let t: Vec<_> = (0..*l).map(|i| if i == pos { (v, &pts[4]) } else { (x, &pts[(i * i + b) % 6]) }).collect();
                        judge(&t)?;
                        r.step(1);
                    }
                }
            }
            Ok(())
        });
    });
    // every length, several structures
    let maxl = c.pick(80, 300);
    c.par(&format!("lengths {}", name), &(0..=maxl).chain([511, 512, 513, 1024, 1025]).collect::<Vec<usize>>(), |l, r| {
        for pat in 0..8 {
            r.label(format!("{} length {} pattern {}", name, l, pat));
            r.case(|r| {
                let f = |i: usize| -> (C::ScalarExt, &Pt<C>) {
                    match pat {
                        0 => (sc(i as u64 * i as u64 + 1), &pts[1 + i % 5]),
                        1 => (one, &pts[1]),                                // all equal
                        2 => (sc(5), &pts[1 + i % 2]),                      // opposite points cancel
                        3 => (if i % 2 == 0 { one } else { -one }, &pts[3]), // opposite scalars cancel
                        4 => (big - sc(i as u64), &pts[5]),
                        5 => (sc(i as u64), &pts[0]),                       // identities only
                        6 => (two_to(3 * i % 253), &pts[(i * 7 + 1) % 6]),
                        _ => ((-sc(i as u64 + 1)).square() * big, &pts[(i + 2) % 6]),
                    }
                };
                let t: Vec<_> = (0..*l).map(f).collect();
                r.state(&(name, l, pat));
                judge(&t)
            });
        }
        if *l > 0 {
            r.label(format!("{} length {} mismatch", name, l));
            r.case(|_| {
                let s = vec![one; *l];
                let b = vec![pts[1].p; *l - 1];
                if guard(|| best_multiexp(&s, &b)).is_ok() {
                    return Err("scalars without a point are dropped".into());
                }
                Ok(())
            });
        }
    });
}

/// All operation sequences on the KZG accumulator.
fn kzg(c: &Ctx) {
    let depth = c.pick(4, 5);
    let g = G1::generator();
    let f = |x: u64| Fr::from(x);
    const OPS: usize = 9;
    c.par_n("KZG accumulator", util::pow(OPS, depth), |i, r| {
        let w = util::word(i, OPS, depth);
        r.label(format!("KZG operations {:?}", w));
        r.case(|r| {
            let mut m = MSMKZG::<Bn256>::new();
            let mut model: Vec<(Fr, Fr)> = vec![]; // scalar, multiple of the generator
            let mut saved = m.clone();
            let mut saved_model = model.clone();
            for o in &w {
                match o {
                    0..=3 => {
                        let (s, p) = [(f(3), f(1)), (-f(3), f(1)), (f(5), -f(2)), (f(1), f(0))][*o];
                        m.append_term(s, g * p);
                        model.push((s, p));
                    }
                    4 => {
                        m.scale(-f(2));
                        model.iter_mut().for_each(|x| x.0 *= -f(2));
                    }
                    5 => {
                        m.scale(f(0));
                        model.iter_mut().for_each(|x| x.0 = f(0));
                    }
                    6 => {
                        m.add_msm(&saved);
                        model.extend(saved_model.clone());
                    }
                    7 => {
                        saved = m.clone();
                        saved_model = model.clone();
                    }
                    _ => {
                        // the last term keeps its scalar, the others get increasing powers
                        m.combine_with_base(f(10));
                        let n = model.len();
                        for (i, x) in model.iter_mut().enumerate() {
                            for _ in i + 1..n {
                                x.0 *= f(10);
                            }
                        }
                    }
                }
                let total = model.iter().fold(f(0), |a, x| a + x.0 * x.1);
                let ev = m.eval();
                if ev != g * total {
                    return Err("eval".into());
                }
                if m.check() != (total == f(0)) {
                    return Err("check".into());
                }
                let (s, b) = (m.scalars(), m.bases());
                if s.len() != b.len() || s.iter().zip(&b).fold(G1::identity(), |a, (s, b)| a + *b * *s) != g * total {
                    return Err("scalars and bases".into());
                }
                r.step(1);
                r.state(&("kzg", format!("{:?}", model)));
            }
            Ok(())
        });
    });
}

/// All operation sequences on the IPA accumulator.
fn ipa(c: &Ctx) {
    let depth = c.pick(4, 5);
    let params = ParamsIPA::<EqAffine>::new(1);
    let n = 2usize;
    let f = |x: u64| Fp::from(x);
    let g = Eq::generator();
    // the parameters' own bases, learnt through single terms (their logarithms are unknown)
    let base = |k: usize| -> Eq {
        let mut m = MSMIPA::new(&params);
        match k {
            0 | 1 => {
                let mut v = vec![f(0); n];
                v[k] = f(1);
                m.add_to_g_scalars(&v);
            }
            2 => m.add_to_w_scalar(f(1)),
            _ => m.add_to_u_scalar(f(1)),
        }
        m.eval()
    };
    let bases: Vec<Eq> = (0..4).map(base).collect();
    c.seq("IPA bases", |r| {
        r.label("IPA bases");
        r.case(|_| {
            let p = params.get_g();
            if p.len() != n || bases[0] != p[0].into() || bases[1] != p[1].into() {
                return Err("bases of the parameters".into());
            }
            for i in 0..4 {
                for j in 0..i {
                    if bases[i] == bases[j] || bases[i] == -bases[j] || bool::from(bases[i].is_identity()) {
                        return Err("bases coincide".into());
                    }
                }
            }
            Ok(())
        });
    });
    const OPS: usize = 12;
    c.par_n("IPA accumulator", util::pow(OPS, depth), |i, r| {
        let w = util::word(i, OPS, depth);
        r.label(format!("IPA operations {:?}", w));
        r.case(|r| {
            let mut m = MSMIPA::new(&params);
            // coefficients of G, the two g's, w, u
            let mut model = [f(0); 5];
            let mut saved = m.clone();
            let mut saved_model = model;
            for o in &w {
                match o {
                    0..=4 => {
                        let (s, p) = [(f(3), f(1)), (f(2), -f(1)), (-f(3), f(1)), (f(5), f(2)), (f(1), f(0))][*o];
                        m.append_term(s, g * p);
                        model[0] += s * p;
                    }
                    5 => {
                        m.scale(-f(2));
                        model.iter_mut().for_each(|x| *x *= -f(2));
                    }
                    6 => {
                        m.add_msm(&saved);
                        (0..5).for_each(|i| model[i] += saved_model[i]);
                    }
                    7 => {
                        saved = m.clone();
                        saved_model = model;
                    }
                    8 => {
                        m.add_constant_term(f(7));
                        model[1] += f(7);
                    }
                    9 => {
                        m.add_to_g_scalars(&[-f(7), f(1)]);
                        model[1] -= f(7);
                        model[2] += f(1);
                    }
                    10 => {
                        m.add_to_w_scalar(f(4));
                        model[3] += f(4);
                    }
                    _ => {
                        m.add_to_u_scalar(-f(4));
                        model[4] -= f(4);
                    }
                }
                let want = (0..4).fold(g * model[0], |a, i| a + bases[i] * model[i + 1]);
                if m.eval() != want {
                    return Err("eval".into());
                }
                if m.check() != bool::from(want.is_identity()) {
                    return Err("check".into());
                }
                let (s, b) = (m.scalars(), m.bases());
                if s.len() != b.len() || s.iter().zip(&b).fold(Eq::identity(), |a, (s, b)| a + *b * *s) != g * model[0] {
                    return Err("scalars and bases".into());
                }
                r.step(1);
                r.state(&("ipa", format!("{:?}", model)));
            }
            Ok(())
        });
    });
}

fn main() {
    mc::main("C15", |c| {
        c.assume("Curve addition, doubling and field arithmetic are those decided by C18 and C19.");
        routines::<halo2curves::bn256::G1Affine>(c, "bn256::G1");
        routines::<halo2curves::pasta::EqAffine>(c, "pasta::Eq");
        routines::<halo2curves::pasta::EpAffine>(c, "pasta::Ep");
        routines::<halo2curves::secp256k1::Secp256k1Affine>(c, "secp256k1");
        kzg(c);
        ipa(c);
    })
}
