//! Points, fixed bases and laid-out circuits shared by the checks of the curve and hash gadgets.
use crate::eccz;
use crate::forge::*;
use crate::plonkref::{Grid, Shape};
use crate::Rec;
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{self, BaseFieldElem, FullScalar, ShortScalar, H};
use halo2_gadgets::ecc::FixedPoints;
use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
use halo2_proofs::plonk::*;
use halo2curves::pasta::pallas;
use halo2curves::CurveAffine;
use num_bigint::BigUint;
use std::collections::{BTreeMap, HashMap};

pub type B = pallas::Base;
pub type S = pallas::Scalar;
pub type A = pallas::Affine;
pub type Cell = AssignedCell<B, B>;

pub fn big<F: PrimeField>(v: &F) -> BigUint {
    BigUint::from_bytes_le(v.to_repr().as_ref())
}
pub fn from_big<F: PrimeField>(v: &BigUint) -> F {
    v.to_bytes_be().iter().fold(F::zero(), |a, b| a * F::from(256) + F::from(*b as u64))
}
pub fn p_mod() -> BigUint {
    big(&-B::one()) + 1u32
}
pub fn q_mod() -> BigUint {
    big(&-S::one()) + 1u32
}
pub fn g() -> A {
    pallas::Point::generator().to_affine()
}
pub fn times(k: i64, p: A) -> A {
    let s = if k < 0 { -S::from((-k) as u64) } else { S::from(k as u64) };
    (p * s).to_affine()
}
pub fn xy(p: &A) -> (B, B) {
    match Option::<_>::from(p.coordinates()) {
        Some(c) => {
            let c: halo2curves::Coordinates<A> = c;
            (*c.x(), *c.y())
        }
        None => (B::zero(), B::zero()),
    }
}

// ---- the fixed base

pub fn window(n: usize, w: usize) -> Vec<A> {
    let e = S::from(8).pow_vartime([w as u64]);
    let sum = (0..n - 1).fold(S::zero(), |a, j| a + S::from(2).pow_vartime([3 * j as u64 + 1]));
    (0..8u64).map(|k| if w + 1 < n { (g() * (S::from(k + 2) * e)).to_affine() } else { (g() * (S::from(k) * e - sum)).to_affine() }).collect()
}
pub type Tab = Vec<(u64, [B; H])>;
pub fn tables() -> &'static (Tab, Tab) {
    static INIT: std::sync::Once = std::sync::Once::new();
    static mut TABLES: Option<(Tab, Tab)> = None;
    INIT.call_once(|| {
        let one = |n: usize, w: usize, z: u64| {
            let mut u = [B::zero(); H];
            for (k, p) in window(n, w).iter().enumerate() {
                u[k] = (B::from(z) + xy(p).1).sqrt().unwrap();
            }
            (z, u)
        };
        let full = (0..85).map(|w| one(85, w, eccz::Z[w])).collect();
        let short = (0..22).map(|w| one(22, w, if w < 21 { eccz::Z[w] } else { eccz::Z_SHORT_LAST })).collect();
        unsafe { TABLES = Some((full, short)) }
    });
    unsafe { TABLES.as_ref().unwrap() }
}

#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Bases;
macro_rules! base {
    ($n:ident, $k:ty, $t:tt) => {
        #[derive(Debug, Eq, PartialEq, Clone)]
        pub struct $n;
        impl chip::FixedPoint<A> for $n {
            type FixedScalarKind = $k;
            fn generator(&self) -> A {
                g()
            }
            fn u(&self) -> Vec<[[u8; 32]; H]> {
                tables().$t.iter().map(|(_, us)| us.map(|u| u.to_repr())).collect()
            }
            fn z(&self) -> Vec<u64> {
                tables().$t.iter().map(|(z, _)| *z).collect()
            }
        }
    };
}
base!(Full, FullScalar, 0);
base!(Elem, BaseFieldElem, 0);
base!(Short, ShortScalar, 1);
impl FixedPoints<A> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = Elem;
}

pub struct Laid {
    pub sys: Sys<B>,
    /// input/output variables in the order of the circuit
    pub io: Vec<usize>,
}

pub fn grid<C: Circuit<B>>(k: u32, c: &C) -> Result<(ConstraintSystem<B>, Grid<B>, Vec<(usize, usize)>), Error> {
    let sh = Shape::<B, C>::new();
    let mut gr = sh.grid(k, c, &[vec![]], &[])?;
    let mut marks: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    gr.copies.retain(|(lc, lr, rc, rr)| match (lc.column_type(), rc.column_type()) {
        (Any::Advice(_), Any::Instance) => {
            marks.insert(*rr, (lc.index(), *lr));
            false
        }
        (Any::Instance, Any::Advice(_)) => {
            marks.insert(*lr, (rc.index(), *rr));
            false
        }
        _ => true,
    });
    Ok((sh.cs, gr, marks.into_values().collect()))
}

/// Lays out a circuit whose instance column only marks its inputs and outputs.
pub fn lay<C: Circuit<B>>(k: u32, c: &C) -> Result<Laid, Error> {
    let (cs, gr, io) = grid(k, c)?;
    let sys = Sys::new(&cs, &gr);
    let io = io.iter().map(|c| sys.var(*c)).collect();
    Ok(Laid { sys, io })
}

pub fn load_table(l: &mut impl Layouter<B>, t: TableColumn) -> Result<(), Error> {
    l.assign_table(
        || "t",
        |mut x| {
            for i in 0..1024 {
                x.assign_cell(|| "i", t, i, || Value::known(B::from(i as u64)))?;
            }
            Ok(())
        },
    )
}

/// Variables that hold f_j(scalar) for each of several scalars, by j.
pub fn holding(laid: &[(Laid, BigUint)], n: usize, f: &dyn Fn(&BigUint, usize) -> BigUint) -> Vec<(usize, usize)> {
    let vals: Vec<HashMap<Vec<u8>, usize>> = laid.iter().map(|(_, k)| (0..n).map(|j| (f(k, j).to_bytes_le(), j)).collect()).collect();
    let mut out = vec![];
    for v in 0..laid[0].0.sys.honest.len() {
        let js: Vec<Option<&usize>> = laid.iter().zip(&vals).map(|((l, _), m)| m.get(&big(&l.sys.honest[v]).to_bytes_le())).collect();
        if let Some(j) = js[0] {
            if js.iter().all(|x| *x == Some(j)) {
                out.push((v, *j));
            }
        }
    }
    out
}

/// Alters every variable (several values) and recomputes; no satisfying assignment may change the outputs
/// while the inputs are the same. `inputs`: number of leading io variables.
pub fn forge_all(rec: &mut Rec, name: &str, l: &Laid, frozen: &[usize], range: std::ops::Range<usize>, thin: bool) {
    let h = &l.sys.honest;
    forge_judged(rec, name, l, frozen, range, thin, &|w| match l.io.iter().any(|i| w[*i] != h[*i]) {
        true => Err(format!("same inputs, satisfied, but outputs {:?} instead of {:?}", l.io.iter().map(|i| w[*i]).collect::<Vec<_>>(), l.io.iter().map(|i| h[*i]).collect::<Vec<_>>())),
        false => Ok(()),
    })
}

/// The same with another judge of satisfying assignments.
pub fn forge_judged(rec: &mut Rec, name: &str, l: &Laid, frozen: &[usize], range: std::ops::Range<usize>, thin: bool, judge: &dyn Fn(&[B]) -> Result<(), String>) {
    let h = &l.sys.honest;
    for v in range {
        if frozen.contains(&v) {
            continue;
        }
        let vals = vec![h[v] + B::one(), -h[v], B::zero(), h[v] - B::one()];
        let mut seen = vec![h[v]];
        for (i, x) in vals.into_iter().enumerate() {
            if seen.contains(&x) || thin && i > 1 {
                continue;
            }
            seen.push(x);
            for late in [true, false] {
                if thin && !late && i > 0 {
                    continue;
                }
                rec.label(format!("{}: variable at {:?} := {:?} ({})", name, l.sys.name[v], x, if late { "later cells recomputed" } else { "all cells recomputed" }));
                rec.case(|rec| {
                    let mut steps = 0;
                    let r = l.sys.forge(frozen, &[(v, x)], late, &mut steps);
                    rec.step(steps + 1);
                    match r {
                        None => rec.outcome("forgery fails"),
                        Some(w) => {
                            judge(&w)?;
                            rec.outcome("free variable, same result")
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

