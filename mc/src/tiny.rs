//! Data-driven small circuits: a description (columns, expression trees, lookups, copies), the real
//! halo2 circuit built from it, and an independent evaluator of what the description means.
use ff::{Field, PrimeField};
use halo2_proofs::circuit::{AssignedCell, Cell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2curves::FieldExt;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ex {
    C(i64),
    Sel(usize),
    F(usize, i32),
    A(usize, i32),
    I(usize, i32),
    Ch(usize),
    Neg(Box<Ex>),
    Add(Box<Ex>, Box<Ex>),
    Sub(Box<Ex>, Box<Ex>),
    Mul(Box<Ex>, Box<Ex>),
    Scale(Box<Ex>, i64),
}
use Ex::*;
impl std::ops::Add for Ex {
    type Output = Ex;
    fn add(self, o: Ex) -> Ex {
        Add(Box::new(self), Box::new(o))
    }
}
impl std::ops::Sub for Ex {
    type Output = Ex;
    fn sub(self, o: Ex) -> Ex {
        Sub(Box::new(self), Box::new(o))
    }
}
impl std::ops::Mul for Ex {
    type Output = Ex;
    fn mul(self, o: Ex) -> Ex {
        Mul(Box::new(self), Box::new(o))
    }
}
impl std::ops::Neg for Ex {
    type Output = Ex;
    fn neg(self) -> Ex {
        Neg(Box::new(self))
    }
}
impl Ex {
    pub fn scale(self, c: i64) -> Ex {
        Scale(Box::new(self), c)
    }
}

pub fn fi<F: Field>(v: i64) -> F {
    let mut acc = F::zero();
    let m = v.unsigned_abs();
    for i in (0..64).rev() {
        acc = acc.double();
        if (m >> i) & 1 == 1 {
            acc += F::one();
        }
    }
    if v < 0 {
        -acc
    } else {
        acc
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Col {
    A(usize),
    F(usize),
    I(usize),
}

/// What `configure` declares.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Spec {
    /// phase of each advice column
    pub adv: Vec<u8>,
    pub nfix: usize,
    pub ninst: usize,
    /// complex?
    pub sels: Vec<bool>,
    /// phase after which each challenge is available
    pub chals: Vec<u8>,
    pub eq: Vec<Col>,
    pub min_degree: Option<usize>,
    pub gates: Vec<Vec<Ex>>,
    pub lookups: Vec<Vec<(Ex, Ex)>>,
}

/// What belongs to the keys.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Body {
    pub fixed: Vec<Vec<i64>>,
    pub sel: Vec<Vec<bool>>,
    pub copies: Vec<((Col, usize), (Col, usize))>,
}

/// A witness value: base + sum of coefficient * challenge.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Val {
    pub base: i64,
    pub ch: Vec<(usize, i64)>,
    /// if set, the value of this expression at the cell's row (of the table without such cells) instead
    pub ex: Option<Box<Ex>>,
}
pub fn v(base: i64) -> Val {
    Val { base, ch: vec![], ex: None }
}
pub fn vx(e: &Ex) -> Val {
    Val { base: 0, ch: vec![], ex: Some(Box::new(e.clone())) }
}

#[derive(Clone, Debug)]
pub struct Tiny {
    pub spec: Arc<Spec>,
    pub body: Arc<Body>,
    pub adv: Vec<Vec<Val>>,
    /// public inputs, as far as the witness depends on them
    pub inst: Vec<Vec<i64>>,
    pub known: bool,
}

fn val<Fl: FieldExt>(t: &Tiny, x: &Val, row: usize, ch: &[Fl]) -> Fl {
    match &x.ex {
        None => x.ch.iter().fold(fi(x.base), |acc, (k, m)| acc + ch[*k] * fi::<Fl>(*m)),
        Some(e) => {
            let inst: Vec<Vec<Fl>> = t.inst.iter().map(|c| c.iter().map(|x| fi(*x)).collect()).collect();
            ev(&base_table(t, &inst, ch, 4, 6), e, row)
        }
    }
}

thread_local! {
    static SPEC: RefCell<Option<Arc<Spec>>> = RefCell::new(None);
}
pub fn set_spec(s: &Arc<Spec>) {
    SPEC.with(|x| *x.borrow_mut() = Some(s.clone()));
}

#[derive(Clone, Debug)]
pub struct TinyConfig {
    pub adv: Vec<Column<Advice>>,
    pub fix: Vec<Column<Fixed>>,
    pub inst: Vec<Column<Instance>>,
    pub sel: Vec<Selector>,
    pub ch: Vec<Challenge>,
}

fn build<F: FieldExt>(c: &TinyConfig, m: &mut VirtualCells<'_, F>, e: &Ex) -> Expression<F> {
    match e {
        C(k) => Expression::Constant(fi(*k)),
        Sel(i) => m.query_selector(c.sel[*i]),
        F(i, r) => m.query_fixed(c.fix[*i], Rotation(*r)),
        A(i, r) => m.query_advice(c.adv[*i], Rotation(*r)),
        I(i, r) => m.query_instance(c.inst[*i], Rotation(*r)),
        Ch(i) => m.query_challenge(c.ch[*i]),
        Neg(a) => -build(c, m, a),
        Add(a, b) => build(c, m, a) + build(c, m, b),
        Sub(a, b) => build(c, m, a) - build(c, m, b),
        Mul(a, b) => build(c, m, a) * build(c, m, b),
        Scale(a, k) => build(c, m, a) * fi::<F>(*k),
    }
}

impl<Fl: FieldExt> Circuit<Fl> for Tiny {
    type Config = TinyConfig;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        Tiny { known: false, ..self.clone() }
    }
    fn configure(m: &mut ConstraintSystem<Fl>) -> TinyConfig {
        let spec = SPEC.with(|x| x.borrow().clone()).expect("spec set");
        let adv: Vec<_> = spec
            .adv
            .iter()
            .map(|p| match p {
                0 => m.advice_column(),
                1 => m.advice_column_in(SecondPhase),
                _ => m.advice_column_in(ThirdPhase),
            })
            .collect();
        let fix: Vec<_> = (0..spec.nfix).map(|_| m.fixed_column()).collect();
        let inst: Vec<_> = (0..spec.ninst).map(|_| m.instance_column()).collect();
        let sel: Vec<_> = spec.sels.iter().map(|c| if *c { m.complex_selector() } else { m.selector() }).collect();
        let ch: Vec<_> = spec
            .chals
            .iter()
            .map(|p| match p {
                0 => m.challenge_usable_after(FirstPhase),
                1 => m.challenge_usable_after(SecondPhase),
                _ => m.challenge_usable_after(ThirdPhase),
            })
            .collect();
        let cfg = TinyConfig { adv, fix, inst, sel, ch };
        for c in &spec.eq {
            match c {
                Col::A(i) => m.enable_equality(cfg.adv[*i]),
                Col::F(i) => m.enable_equality(cfg.fix[*i]),
                Col::I(i) => m.enable_equality(cfg.inst[*i]),
            }
        }
        if let Some(d) = spec.min_degree {
            m.set_minimum_degree(d);
        }
        for g in &spec.gates {
            let cfg = cfg.clone();
            m.create_gate("gate", move |m| g.iter().map(|e| build(&cfg, m, e)).collect::<Vec<_>>());
        }
        for l in &spec.lookups {
            let cfg = cfg.clone();
            m.lookup_any("lookup", move |m| l.iter().map(|(a, b)| (build(&cfg, m, a), build(&cfg, m, b))).collect());
        }
        cfg
    }
    fn synthesize(&self, c: TinyConfig, mut layouter: impl Layouter<Fl>) -> Result<(), Error> {
        let chals: Vec<Value<Fl>> = c.ch.iter().map(|x| layouter.get_challenge(*x)).collect();
        let mut cells: HashMap<(Col, usize), Cell> = HashMap::new();
        layouter.assign_region(
            || "main",
            |mut region| {
                cells.clear();
                for (i, col) in self.adv.iter().enumerate() {
                    for (r, x) in col.iter().enumerate() {
                        let cell: AssignedCell<Fl, Fl> = region.assign_advice(
                            || "a",
                            c.adv[i],
                            r,
                            || {
                                if !self.known {
                                    return Value::unknown();
                                }
                                let need = |i: usize| x.ex.is_some() || x.ch.iter().any(|(k, _)| *k == i);
                                // a cell that does not depend on a challenge is known without it
                                let known: Value<Vec<Fl>> = chals
                                    .iter()
                                    .enumerate()
                                    .map(|(i, c)| if need(i) { *c } else { Value::known(Fl::zero()) })
                                    .fold(Value::known(vec![]), |acc, c| {
                                        acc.zip(c).map(|(mut a, c)| {
                                            a.push(c);
                                            a
                                        })
                                    });
                                known.map(|ch| val(self, x, r, &ch))
                            },
                        )?;
                        cells.insert((Col::A(i), r), cell.cell());
                    }
                }
                for (i, col) in self.body.fixed.iter().enumerate() {
                    for (r, val) in col.iter().enumerate() {
                        let cell: AssignedCell<Fl, Fl> = region.assign_fixed(|| "f", c.fix[i], r, || Value::known(fi::<Fl>(*val)))?;
                        cells.insert((Col::F(i), r), cell.cell());
                    }
                }
                for (i, s) in self.body.sel.iter().enumerate() {
                    for (r, on) in s.iter().enumerate() {
                        if *on {
                            c.sel[i].enable(&mut region, r)?;
                        }
                    }
                }
                for (a, b) in &self.body.copies {
                    if let (Some(x), Some(y)) = (cells.get(a), cells.get(b)) {
                        region.constrain_equal(*x, *y)?;
                    }
                }
                Ok(())
            },
        )?;
        for (a, b) in &self.body.copies {
            match (a, b) {
                ((Col::I(i), r), o) | (o, (Col::I(i), r)) => layouter.constrain_instance(cells[o], c.inst[*i], *r)?,
                _ => {}
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------
// meaning

/// All cell values of an assignment (rows 0..n); advice rows past the usable ones hold noise.
#[derive(Clone)]
pub struct Table<Fl> {
    pub n: usize,
    pub usable: usize,
    pub adv: Vec<Vec<Fl>>,
    pub fix: Vec<Vec<Fl>>,
    pub inst: Vec<Vec<Fl>>,
    pub sel: Vec<Vec<bool>>,
    pub ch: Vec<Fl>,
}

pub fn table<Fl: FieldExt>(t: &Tiny, inst: &[Vec<Fl>], ch: &[Fl], k: u32, unusable: usize) -> Table<Fl> {
    let mut tab = base_table(t, inst, ch, k, unusable);
    for (i, c) in t.adv.iter().enumerate() {
        for (r, x) in c.iter().enumerate() {
            if x.ex.is_some() {
                tab.adv[i][r] = val(t, x, r, ch);
            }
        }
    }
    tab
}

fn base_table<Fl: FieldExt>(t: &Tiny, inst: &[Vec<Fl>], ch: &[Fl], k: u32, unusable: usize) -> Table<Fl> {
    let n = 1usize << k;
    let usable = n - unusable;
    let mut noise = fi::<Fl>(77_000_001);
    let adv = t
        .adv
        .iter()
        .map(|c| {
            let mut col = vec![Fl::zero(); n];
            for (r, x) in c.iter().enumerate() {
                if x.ex.is_none() {
                    col[r] = val(t, x, r, ch);
                }
            }
            for x in col[usable..].iter_mut() {
                noise = noise.square() * noise + fi::<Fl>(12_345_677);
                *x = noise;
            }
            col
        })
        .collect();
    let pad = |c: &Vec<Fl>| {
        let mut c = c.clone();
        c.resize(n, Fl::zero());
        c
    };
    let fix: Vec<Vec<Fl>> = (0..t.spec.nfix).map(|i| pad(&t.body.fixed.get(i).map(|c| c.iter().map(|x| fi(*x)).collect()).unwrap_or_default())).collect();
    let sel = (0..t.spec.sels.len())
        .map(|i| {
            let mut s = t.body.sel.get(i).cloned().unwrap_or_default();
            s.resize(n, false);
            s
        })
        .collect();
    Table { n, usable, adv, fix, inst: inst.iter().map(pad).collect(), sel, ch: ch.to_vec() }
}

pub fn ev<Fl: FieldExt>(t: &Table<Fl>, e: &Ex, row: usize) -> Fl {
    let at = |r: &i32| (row as i64 + *r as i64).rem_euclid(t.n as i64) as usize;
    match e {
        C(k) => fi(*k),
        Sel(i) => {
            if t.sel[*i][row] {
                Fl::one()
            } else {
                Fl::zero()
            }
        }
        F(i, r) => t.fix[*i][at(r)],
        A(i, r) => t.adv[*i][at(r)],
        I(i, r) => t.inst[*i][at(r)],
        Ch(i) => t.ch[*i],
        Neg(a) => -ev(t, a, row),
        Add(a, b) => ev(t, a, row) + ev(t, b, row),
        Sub(a, b) => ev(t, a, row) - ev(t, b, row),
        Mul(a, b) => ev(t, a, row) * ev(t, b, row),
        Scale(a, k) => ev(t, a, row) * fi::<Fl>(*k),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    Gate(usize, usize, usize),
    Lookup(usize, usize),
    Copy(usize),
}

/// Every violated constraint.
pub fn violated<Fl: FieldExt>(t: &Tiny, tab: &Table<Fl>) -> Vec<Bad> {
    let mut out = vec![];
    for (gi, g) in t.spec.gates.iter().enumerate() {
        for (pi, p) in g.iter().enumerate() {
            for row in 0..tab.usable {
                if !bool::from(ev(tab, p, row).is_zero()) {
                    out.push(Bad::Gate(gi, pi, row));
                }
            }
        }
    }
    for (li, l) in t.spec.lookups.iter().enumerate() {
        let key = |es: Vec<Fl>| es.iter().map(|x| x.to_repr().as_ref().to_vec()).collect::<Vec<_>>();
        let set: HashSet<_> = (0..tab.usable).map(|r| key(l.iter().map(|(_, b)| ev(tab, b, r)).collect())).collect();
        for r in 0..tab.usable {
            if !set.contains(&key(l.iter().map(|(a, _)| ev(tab, a, r)).collect())) {
                out.push(Bad::Lookup(li, r));
            }
        }
    }
    let get = |(c, r): &(Col, usize)| match c {
        Col::A(i) => tab.adv[*i][*r],
        Col::F(i) => tab.fix[*i][*r],
        Col::I(i) => tab.inst[*i][*r],
    };
    for (i, (a, b)) in t.body.copies.iter().enumerate() {
        if get(a) != get(b) {
            out.push(Bad::Copy(i));
        }
    }
    out
}

pub fn sat<Fl: FieldExt>(t: &Tiny, inst: &[Vec<Fl>], k: u32, unusable: usize) -> bool {
    let ch: Vec<Fl> = crate::plonkref::challenges(t.spec.chals.len(), 99);
    violated(t, &table(t, inst, &ch, k, unusable)).is_empty()
}

/// Blinding rows plus one, as the configured system declares.
pub fn unusable<Fl: FieldExt>(spec: &Arc<Spec>) -> usize {
    set_spec(spec);
    let mut cs = ConstraintSystem::<Fl>::default();
    let _ = <Tiny as Circuit<Fl>>::configure(&mut cs);
    cs.blinding_factors() + 1
}

pub fn _pf<Fl: PrimeField>() {}
