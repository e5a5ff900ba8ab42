//! C24: fractions with deferred inversion and unknown values never change what a circuit computes.
use ff::{Field, PrimeField};
use halo2_proofs::circuit::*;
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2curves::bn256::Fr;
use halo2curves::FieldExt;
use mc::prove::*;
use mc::zp::Zp;
use mc::*;
use std::marker::PhantomData;

macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// The value by definition: x/0 is 0.
fn val<F: Field>(a: Assigned<F>) -> F {
    match a {
        Assigned::Zero => F::zero(),
        Assigned::Trivial(x) => x,
        Assigned::Rational(n, d) => inv0(d) * n,
    }
}
fn inv0<F: Field>(x: F) -> F {
    if x == F::zero() {
        F::zero()
    } else {
        x.invert().unwrap()
    }
}
fn all<F: Field>(el: &[F]) -> Vec<Assigned<F>> {
    let mut v = vec![Assigned::Zero];
    v.extend(el.iter().map(|x| Assigned::Trivial(*x)));
    for n in el {
        v.extend(el.iter().map(|d| Assigned::Rational(*n, *d)));
    }
    v
}
type Bin<F> = (&'static str, fn(Assigned<F>, Assigned<F>) -> Assigned<F>, fn(F, F) -> F);
type Un<F> = (&'static str, fn(Assigned<F>) -> Assigned<F>, fn(F) -> F);

fn bins<F: Field>() -> Vec<Bin<F>> {
    vec![
        ("a + b", |a, b| a + b, |a, b| a + b),
        ("a + &b", |a, b| a + &b, |a, b| a + b),
        ("&a + b", |a, b| &a + b, |a, b| a + b),
        ("&a + &b", |a, b| &a + &b, |a, b| a + b),
        ("a += b", |mut a, b| { a += b; a }, |a, b| a + b),
        ("a += &b", |mut a, b| { a += &b; a }, |a, b| a + b),
        ("a - b", |a, b| a - b, |a, b| a - b),
        ("a - &b", |a, b| a - &b, |a, b| a - b),
        ("&a - b", |a, b| &a - b, |a, b| a - b),
        ("&a - &b", |a, b| &a - &b, |a, b| a - b),
        ("a -= b", |mut a, b| { a -= b; a }, |a, b| a - b),
        ("a -= &b", |mut a, b| { a -= &b; a }, |a, b| a - b),
        ("a * b", |a, b| a * b, |a, b| a * b),
        ("a * &b", |a, b| a * &b, |a, b| a * b),
        ("a *= b", |mut a, b| { a *= b; a }, |a, b| a * b),
        ("a *= &b", |mut a, b| { a *= &b; a }, |a, b| a * b),
        // the right hand side as a plain field element
        ("a + f", |a, b| a + val(b), |a, b| a + b),
        ("&a + f", |a, b| &a + val(b), |a, b| a + b),
        ("a - f", |a, b| a - val(b), |a, b| a - b),
        ("&a - f", |a, b| &a - val(b), |a, b| a - b),
        ("a * f", |a, b| a * val(b), |a, b| a * b),
        ("&a * f", |a, b| &a * val(b), |a, b| a * b),
    ]
}
fn uns<F: Field>() -> Vec<Un<F>> {
    vec![
        ("-a", |a| -a, |a| -a),
        ("-&a", |a| -&a, |a| -a),
        ("double", |a| a.double(), |a| a + a),
        ("square", |a| a.square(), |a| a * a),
        ("cube", |a| a.cube(), |a| a * a * a),
        ("invert", |a| a.invert(), inv0),
        ("copy", |a| Assigned::from(&a), |a| a),
        ("from f", |a| Assigned::from(val(a)), |a| a),
        ("from &f", |a| Assigned::from(&val(a)), |a| a),
        ("from pair", |a| Assigned::from((a.numerator(), a.denominator().unwrap_or(F::one()))), |a| a),
        ("as given", |a| a, |a| a),
    ]
}

/// Everything about one fraction and about all pairs and triples with it first.
fn fractions<F: Field + std::hash::Hash>(c: &Ctx, name: &str, el: &[F], triples: bool) {
    let v = all(el);
    c.par(&format!("fractions over {}", name), &v, |a, r| {
        r.label(format!("{} {:?}", name, a));
        r.case(|r| {
            let a = *a;
            let x = val(a);
            need!(a.evaluate() == x, "evaluate");
            need!(a.is_zero_vartime() == (x == F::zero()), "is_zero_vartime");
            need!(a.numerator() * inv0(a.denominator().unwrap_or(F::one())) == x, "numerator and denominator");
            for (n, f, g) in uns::<F>() {
                need!(val(f(a)) == g(x), "{} of {:?}", n, a);
                need!(f(a).evaluate() == g(x), "{} of {:?} evaluated", n, a);
                r.step(1);
            }
            for b in &v {
                let y = val(*b);
                need!((a == *b) == (x == y) && (a != *b) == (x != y), "{:?} == {:?}", a, b);
                for (n, f, g) in bins::<F>() {
                    need!(val(f(a, *b)) == g(x, y), "{} for {:?}, {:?}", n, a, b);
                    r.step(1);
                    // every operation on the result
                    for (m, h, k) in uns::<F>() {
                        need!(val(h(f(a, *b))) == k(g(x, y)), "{} after {} for {:?}, {:?}", m, n, a, b);
                    }
                }
                r.state(&(name, format!("{:?}", (a, b))));
                if triples {
                    for z in &v {
                        let w = val(*z);
                        for (n, f, g) in [bins::<F>()[0], bins::<F>()[6], bins::<F>()[12]] {
                            let t = f(a, *b);
                            for (m, h, k) in [bins::<F>()[0], bins::<F>()[6], bins::<F>()[12]] {
                                need!(val(h(t, *z)) == k(g(x, y), w), "({}) {} for {:?}, {:?}, {:?}", n, m, a, b, z);
                                need!(val(h(*z, t)) == k(w, g(x, y)), "{} ({}) for {:?}, {:?}, {:?}", m, n, a, b, z);
                            }
                            need!((t == *z) == (g(x, y) == w), "{} == for {:?}, {:?}, {:?}", n, a, b, z);
                            r.step(6);
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

fn get<T>(v: Value<T>) -> Option<T> {
    let mut g = None;
    v.map(|x| g = Some(x));
    g
}
fn mk<T>(o: Option<T>) -> Value<T> {
    match o {
        Some(x) => Value::known(x),
        None => Value::unknown(),
    }
}

fn values<const P: u64>(c: &Ctx) {
    type A<const P: u64> = Assigned<Zp<P>>;
    let el: Vec<Zp<P>> = Zp::<P>::all().collect();
    let plain: Vec<Option<Zp<P>>> = [None].into_iter().chain(el.iter().map(|x| Some(*x))).collect();
    let frac: Vec<Option<A<P>>> = [None].into_iter().chain(all(&el).into_iter().map(Some)).collect();
    c.par("values", &frac, |a, r| {
        let a = *a;
        let e = |v: Value<A<P>>| get(v).map(val);
        let lift = |x: Option<A<P>>, y: Option<Zp<P>>, f: fn(Zp<P>, Zp<P>) -> Zp<P>| Some(f(val(x?), y?));
        r.label(format!("values {:?}", a));
        r.case(|r| {
            let va = mk(a);
            let mut vm = a.map(|x| x);
            need!(va.is_none() == a.is_none(), "is_none");
            need!(get(va.as_ref()).copied().map(val) == a.map(val), "as_ref");
            let mut vv = mk(vm.take());
            need!(get(vv.as_mut()).map(|x| *x).map(val) == a.map(val), "as_mut");
            need!(get(va.as_ref().copied()).map(val) == a.map(val) && get(va.as_ref().cloned()).map(val) == a.map(val), "copied, cloned");
            need!(get(vv.as_mut().copied()).map(val) == a.map(val) && get(vv.as_mut().cloned()).map(val) == a.map(val), "copied, cloned");
            need!(get(va.map(|x| val(x))) == a.map(val), "map");
            need!(get(va.map(|x| val(x)).and_then(|x| if x == Zp(1) { Value::unknown() } else { Value::known(x) })) == a.map(val).filter(|x| *x != Zp(1)), "and_then");
            need!(get(va.evaluate()) == a.map(val), "evaluate");
            need!(e(va.to_field()) == a.map(val) && e(va.into_field()) == a.map(val), "to_field");
            need!(e(-va) == a.map(|x| -val(x)), "neg");
            need!(e(va.double()) == a.map(|x| val(x) + val(x)), "double");
            need!(e(va.square()) == a.map(|x| val(x) * val(x)), "square");
            need!(e(va.cube()) == a.map(|x| val(x) * val(x) * val(x)), "cube");
            need!(e(va.invert()) == a.map(|x| inv0(val(x))), "invert");
            for want in [true, false] {
                need!(guard(|| va.assert_if_known(|_| want)).is_ok() == (a.is_none() || want), "assert_if_known");
                need!(va.error_if_known_and(|_| want).is_err() == (a.is_some() && want), "error_if_known_and");
            }
            r.step(16);
            for b in &frac {
                let b = *b;
                let vb = mk(b);
                let y = b.map(val);
                let ops: Vec<(&str, Value<A<P>>, Option<Zp<P>>)> = vec![
                    ("a + b", va + vb, lift(a, y, |x, y| x + y)),
                    ("&a + &b", &va + &vb, lift(a, y, |x, y| x + y)),
                    ("a + &b", va + &vb, lift(a, y, |x, y| x + y)),
                    ("&a + b", &va + vb, lift(a, y, |x, y| x + y)),
                    ("a + ref b", va + vb.as_ref(), lift(a, y, |x, y| x + y)),
                    ("ref a + b", va.as_ref() + vb, lift(a, y, |x, y| x + y)),
                    ("a - b", va - vb, lift(a, y, |x, y| x - y)),
                    ("&a - &b", &va - &vb, lift(a, y, |x, y| x - y)),
                    ("a - &b", va - &vb, lift(a, y, |x, y| x - y)),
                    ("&a - b", &va - vb, lift(a, y, |x, y| x - y)),
                    ("a - ref b", va - vb.as_ref(), lift(a, y, |x, y| x - y)),
                    ("ref a - b", va.as_ref() - vb, lift(a, y, |x, y| x - y)),
                    ("a * b", va * vb, lift(a, y, |x, y| x * y)),
                    ("a * ref b", va * vb.as_ref(), lift(a, y, |x, y| x * y)),
                ];
                for (n, got, want) in ops {
                    need!(e(got) == want, "{} for {:?} {:?}", n, a, b);
                    r.step(1);
                }
                let z = get(va.zip(vb)).map(|(x, y)| (val(x), val(y)));
                need!(z == a.and_then(|x| b.map(|y| (val(x), val(y)))), "zip");
                let (p, q) = va.zip(vb).unzip();
                let both = a.is_some() && b.is_some();
                need!(e(p) == a.map(val).filter(|_| both) && e(q) == b.map(val).filter(|_| both), "unzip");
                // collections
                let l: Option<Vec<Zp<P>>> = get([va, vb, va].into_iter().map(|x| x.map(val)).collect::<Value<Vec<_>>>());
                need!(l == a.and_then(|x| b.map(|y| vec![val(x), val(y), val(x)])), "collect");
            }
            for b in &plain {
                let b = *b;
                let vb = mk(b);
                let f = b.unwrap_or(Zp(0));
                let ops: Vec<(&str, Value<A<P>>, Option<Zp<P>>)> = vec![
                    ("a + v", va + vb, lift(a, b, |x, y| x + y)),
                    ("ref a + v", va.as_ref() + vb, lift(a, b, |x, y| x + y)),
                    ("a - v", va - vb, lift(a, b, |x, y| x - y)),
                    ("ref a - v", va.as_ref() - vb, lift(a, b, |x, y| x - y)),
                    ("a * v", va * vb, lift(a, b, |x, y| x * y)),
                    ("ref a * v", va.as_ref() * vb, lift(a, b, |x, y| x * y)),
                    ("from v", Value::<A<P>>::from(vb), b),
                ];
                for (n, got, want) in ops {
                    need!(e(got) == want, "{} for {:?} {:?}", n, a, b);
                    r.step(1);
                }
                let ops: Vec<(&str, Value<A<P>>, Option<Zp<P>>)> = vec![
                    ("a + f", va + f, lift(a, Some(f), |x, y| x + y)),
                    ("ref a + f", va.as_ref() + f, lift(a, Some(f), |x, y| x + y)),
                    ("a - f", va - f, lift(a, Some(f), |x, y| x - y)),
                    ("ref a - f", va.as_ref() - f, lift(a, Some(f), |x, y| x - y)),
                    ("a * f", va * f, lift(a, Some(f), |x, y| x * y)),
                    ("ref a * f", va.as_ref() * f, lift(a, Some(f), |x, y| x * y)),
                ];
                for (n, got, want) in ops {
                    need!(e(got) == want, "{} for {:?} {:?}", n, a, f);
                    r.step(1);
                }
                // plain values
                for d in &plain {
                    let vd = mk(*d);
                    let w = |f: fn(Zp<P>, Zp<P>) -> Zp<P>| b.and_then(|x| d.map(|y| f(x, y)));
                    let ops = vec![
                        ("+", vb + vd, w(|x, y| x + y)),
                        ("-", vb - vd, w(|x, y| x - y)),
                        ("*", vb * vd, w(|x, y| x * y)),
                        ("*&", vb * &vd, w(|x, y| x * y)),
                    ];
                    for (n, got, want) in ops {
                        need!(get(got) == want, "plain {} for {:?} {:?}", n, b, d);
                    }
                }
            }
            // transposition
            for len in 0..5usize {
                let v: Value<Vec<A<P>>> = va.map(|x| vec![x; len]);
                let t = v.transpose_vec(len);
                need!(t.len() == len && t.iter().all(|x| e(*x) == a.map(val)), "transpose_vec");
                let v: Value<Vec<A<P>>> = va.map(|x| vec![x; len]);
                need!(guard(|| v.transpose_vec(len + 1)).is_err() == a.is_some(), "transpose_vec of another length");
            }
            let t = va.map(|x| [x, Assigned::Zero, x]).transpose_array();
            need!(e(t[0]) == a.map(val) && e(t[1]) == a.map(|_| Zp(0)) && e(t[2]) == a.map(val), "transpose_array");
            r.state(&format!("{:?}", a));
            Ok(())
        });
    });
}

/// advice fractions and fixed fractions, each compared in a gate with what it has to be
struct Circ<P> {
    frac: Vec<[Assigned<Fr>; 2]>,
    plain: Vec<[Fr; 2]>,
    _p: PhantomData<P>,
}
impl<P> Clone for Circ<P> {
    fn clone(&self) -> Self {
        Circ { frac: self.frac.clone(), plain: self.plain.clone(), _p: PhantomData }
    }
}
#[derive(Clone)]
struct Conf {
    a: [Column<Advice>; 3],
    f: [Column<Fixed>; 3],
    s: Selector,
    t: Selector,
}
impl<P: FloorPlanner> Circuit<Fr> for Circ<P> {
    type Config = Conf;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(m: &mut ConstraintSystem<Fr>) -> Conf {
        let a = [m.advice_column(), m.advice_column(), m.advice_column()];
        let f = [m.fixed_column(), m.fixed_column(), m.fixed_column()];
        let (s, t) = (m.selector(), m.selector());
        m.enable_equality(a[0]);
        m.enable_equality(a[2]);
        m.create_gate("advice fraction, plain fixed", |m| {
            let s = m.query_selector(s);
            (0..2).map(|i| s.clone() * (m.query_advice(a[i], Rotation::cur()) - m.query_fixed(f[i], Rotation::cur()))).collect::<Vec<_>>()
        });
        m.create_gate("plain advice, fixed fraction", |m| {
            let t = m.query_selector(t);
            vec![t * (m.query_advice(a[1], Rotation::cur()) - m.query_fixed(f[2], Rotation::cur()))]
        });
        Conf { a, f, s, t }
    }
    fn synthesize(&self, c: Conf, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        let mut cells = vec![];
        l.assign_region(
            || "fractions",
            |mut r| {
                cells.clear();
                for (i, (x, p)) in self.frac.iter().zip(&self.plain).enumerate() {
                    c.s.enable(&mut r, i)?;
                    cells.push(r.assign_advice(|| "", c.a[0], i, || Value::known(x[0]))?);
                    r.assign_advice(|| "", c.a[1], i, || Value::known(x[1]))?;
                    r.assign_fixed(|| "", c.f[0], i, || Value::known(p[0]))?;
                    r.assign_fixed(|| "", c.f[1], i, || Value::known(p[1]))?;
                }
                Ok(())
            },
        )?;
        l.assign_region(
            || "fixed fractions",
            |mut r| {
                for (i, (x, p)) in self.frac.iter().zip(&self.plain).enumerate() {
                    c.t.enable(&mut r, i)?;
                    r.assign_advice(|| "", c.a[1], i, || Value::known(p[0]))?;
                    r.assign_fixed(|| "", c.f[2], i, || Value::known(x[0]))?;
                    // the fraction copied as a fraction, and as the evaluated cell
                    if i % 2 == 0 {
                        cells[i].copy_advice(|| "", &mut r, c.a[2], i)?;
                    } else {
                        cells[i].clone().evaluate().copy_advice(|| "", &mut r, c.a[2], i)?;
                    }
                }
                Ok(())
            },
        )
    }
}

fn circuits(c: &Ctx) {
    let n = |x: u64| Fr::from(x);
    let big = -Fr::from(7);
    let al: Vec<Assigned<Fr>> = vec![
        Assigned::Rational(n(3), n(5)),
        Assigned::Rational(n(3), Fr::zero()),
        Assigned::Zero,
        Assigned::Trivial(n(2)),
        Assigned::Rational(Fr::zero(), n(4)),
        Assigned::Rational(Fr::zero(), Fr::zero()),
        Assigned::Rational(n(9), Fr::one()),
        Assigned::Rational(big, -Fr::one()),
        Assigned::Trivial(Fr::zero()),
    ];
    let params = kzg_params(4);
    let params = &params;
    let al = &al;
    let len = c.pick(3, 4);
    let base = c.pick(8, 9);
    macro_rules! run {
        ($p:ty, $name:expr) => {
            c.par_n(&format!("circuits, {}", $name), util::pow(base, len), |i, r| {
                let w = util::word(i, base, len);
                r.label(format!("{} fractions {:?}", $name, w));
                r.case(|r| {
                    let frac: Vec<[Assigned<Fr>; 2]> = (0..len).map(|j| [al[w[j]], al[w[(j + 1) % len]]]).collect();
                    let plain: Vec<[Fr; 2]> = frac.iter().map(|x| [val(x[0]), val(x[1])]).collect();
                    let good = Circ::<$p> { frac: frac.clone(), plain: plain.clone(), _p: PhantomData };
                    need!(MockProver::run(4, &good, vec![]).map_err(|e| format!("{:?}", e))?.verify().is_ok(), "the mock prover refuses");
                    let pk = guard(|| kzg_keys(params, &good))?.map_err(|e| format!("{:?}", e))?;
                    // the key is that of the evaluated fractions
                    let ev = Circ::<$p> { frac: plain.iter().map(|x| [Assigned::Trivial(x[0]), Assigned::Trivial(x[1])]).collect(), plain: plain.clone(), _p: PhantomData };
                    let pk2 = kzg_keys(params, &ev).map_err(|e| format!("{:?}", e))?;
                    need!(pk.get_vk().fixed_commitments() == pk2.get_vk().fixed_commitments(), "fixed fractions are committed to as other values");
                    let p = guard(|| kzg_prove(params, &pk, Open::Shplonk, good.clone(), &[], 1))?.map_err(|e| format!("{:?}", e))?;
                    let p2 = guard(|| kzg_prove(params, &pk2, Open::Shplonk, ev, &[], 1))?.map_err(|e| format!("{:?}", e))?;
                    need!(p == p2, "the proof differs from that of the evaluated fractions");
                    need!(kzg_verify(params, pk.get_vk(), Open::Shplonk, &[], &p).is_ok(), "the proof is refused");
                    r.step(2);
                    // one advice fraction is another value
                    for j in 0..len {
                        let mut f = frac.clone();
                        f[j][1] = frac[j][1] + Fr::one();
                        let bad = Circ::<$p> { frac: f, plain: plain.clone(), _p: PhantomData };
                        need!(MockProver::run(4, &bad, vec![]).map_err(|e| format!("{:?}", e))?.verify().is_err(), "the mock prover accepts a wrong value in row {}", j);
                        if j == i % len {
                            if let Ok(p) = guard(|| kzg_prove(params, &pk, Open::Shplonk, bad.clone(), &[], 1))? {
                                need!(kzg_verify(params, pk.get_vk(), Open::Shplonk, &[], &p).is_err(), "a proof with a wrong value in row {} is accepted", j);
                            }
                        }
                        r.step(1);
                    }
                    r.state(&($name, w));
                    Ok(())
                });
            });
        };
    }
    run!(SimpleFloorPlanner, "simple");
    run!(floor_planner::V1, "v1");
    let _ = Fr::MODULUS;
}

fn main() {
    mc::main("C24", |c| {
        fractions(c, "F_2", &Zp::<2>::all().collect::<Vec<_>>(), true);
        fractions(c, "F_3", &Zp::<3>::all().collect::<Vec<_>>(), true);
        fractions(c, "F_5", &Zp::<5>::all().collect::<Vec<_>>(), true);
        fractions(c, "F_7", &Zp::<7>::all().collect::<Vec<_>>(), true);
        if c.thorough() {
            fractions(c, "F_11", &Zp::<11>::all().collect::<Vec<_>>(), true);
            fractions(c, "F_13", &Zp::<13>::all().collect::<Vec<_>>(), true);
        }
        let el: Vec<Fr> = vec![Fr::zero(), Fr::one(), -Fr::one(), Fr::from(2), Fr::from(3), Fr::TWO_INV, Fr::root_of_unity(), -Fr::from(77)];
        fractions(c, "bn256::Fr", &el, false);
        let known: Vec<Option<Fr>> = [None].into_iter().chain(el.iter().map(|x| Some(*x))).collect();
        c.par("plain values", &known, |a, r| {
            r.label(format!("plain values {:?}", a));
            r.case(|r| {
                for b in &known {
                    let (va, vb) = (mk(*a), mk(*b));
                    let w = |f: fn(Fr, Fr) -> Fr| a.and_then(|x| b.map(|y| f(x, y)));
                    let (s, d, m) = (w(|x, y| x + y), w(|x, y| x - y), w(|x, y| x * y));
                    let got = [va + vb, &va + &vb, va + &vb, &va + vb, va + vb.as_ref(), va.as_ref() + vb];
                    need!(got.iter().all(|v| get(*v) == s), "sum of {:?} and {:?}", a, b);
                    let got = [va - vb, &va - &vb, va - &vb, &va - vb, va - vb.as_ref(), va.as_ref() - vb];
                    need!(got.iter().all(|v| get(*v) == d), "difference of {:?} and {:?}", a, b);
                    let got = [va * vb, &va * &vb, va * &vb, &va * vb, va * vb.as_ref(), va.as_ref() * vb];
                    need!(got.iter().all(|v| get(*v) == m), "product of {:?} and {:?}", a, b);
                    need!(get(-va) == a.map(|x| -x), "negation");
                    r.step(19);
                }
                Ok(())
            });
        });
        values::<3>(c);
        values::<5>(c);
        if c.thorough() {
            values::<7>(c);
        }
        circuits(c);
        c.assume("fractions are enumerated completely over F_2, F_3, F_5, F_7 (thorough: F_11, F_13); the arithmetic is generic in the field, over the real field operands come from a list");
    })
}
