//! Reference semantics of a PLONKish circuit: an independent grid assignment and
//! an evaluator of the *uncompressed* constraint system (gates, lookups, copies),
//! plus an adversarial wrapper that lets a malicious prover replace any advice cell.
use ff::Field;
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

#[derive(Clone)]
pub struct Grid<F: Field> {
    pub n: usize,
    pub usable: usize,
    pub advice: Vec<Vec<F>>,
    pub assigned: Vec<(usize, usize)>,
    pub advice_phase: Vec<u8>,
    pub fixed: Vec<Vec<F>>,
    pub instance: Vec<Vec<F>>,
    pub sel: HashMap<Selector, Vec<bool>>,
    pub copies: Vec<(Column<Any>, usize, Column<Any>, usize)>,
    pub challenges: Vec<F>,
    pub regions: usize,
    in_region: bool,
}

pub fn value_of<V>(v: Value<V>) -> Option<V> {
    let out = RefCell::new(None);
    v.map(|x| *out.borrow_mut() = Some(x));
    out.into_inner()
}

impl<F: Field> Assignment<F> for Grid<F> {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {
        self.in_region = true;
        self.regions += 1;
    }
    fn annotate_column<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, _: Column<Any>) {}
    fn exit_region(&mut self) {
        self.in_region = false;
    }
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error> {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        let n = self.n;
        self.sel.entry(*s).or_insert_with(|| vec![false; n])[row] = true;
        Ok(())
    }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        Ok(Value::known(self.instance[c.index()][row]))
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        let v: Assigned<F> = value_of(to()).ok_or(Error::Synthesis)?.into();
        self.advice[c.index()][row] = v.evaluate();
        self.assigned.push((c.index(), row));
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        let v: Assigned<F> = value_of(to()).ok_or(Error::Synthesis)?.into();
        self.fixed[c.index()][row] = v.evaluate();
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        if lr >= self.usable || rr >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.copies.push((lc, lr, rc, rr));
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        let v = value_of(to).ok_or(Error::Synthesis)?.evaluate();
        for r in row..self.usable {
            self.fixed[c.index()][r] = v;
        }
        Ok(())
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        Value::known(self.challenges[c.index()])
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn pop_namespace(&mut self, _: Option<String>) {}
}

/// A configured circuit type.
pub struct Shape<F: Field, C: Circuit<F>> {
    pub cs: ConstraintSystem<F>,
    pub config: C::Config,
}

impl<F: Field, C: Circuit<F>> Shape<F, C> {
    pub fn new() -> Self {
        let mut cs = ConstraintSystem::default();
        let config = C::configure(&mut cs);
        Shape { cs, config }
    }
    /// Synthesize `circuit` into a grid with 2^k rows.
    pub fn grid(&self, k: u32, circuit: &C, instance: &[Vec<F>], challenges: &[F]) -> Result<Grid<F>, Error> {
        let n = 1usize << k;
        let cs = &self.cs;
        let usable = n.checked_sub(cs.blinding_factors() + 1).ok_or(Error::BoundsFailure)?;
        let mut inst = instance.to_vec();
        for c in inst.iter_mut() {
            if c.len() > usable {
                return Err(Error::InstanceTooLarge);
            }
            c.resize(n, F::zero());
        }
        let mut g = Grid {
            n,
            usable,
            advice: vec![vec![F::zero(); n]; cs.num_advice_columns()],
            assigned: vec![],
            advice_phase: cs.advice_column_phase(),
            fixed: vec![vec![F::zero(); n]; cs.num_fixed_columns()],
            instance: inst,
            sel: HashMap::new(),
            copies: vec![],
            challenges: challenges.to_vec(),
            regions: 0,
            in_region: false,
        };
        C::FloorPlanner::synthesize(&mut g, circuit, self.config.clone(), cs.constants().clone())?;
        Ok(g)
    }
}

pub fn eval<F: Field>(g: &Grid<F>, e: &Expression<F>, row: usize) -> F {
    let at = |rot: i32| -> usize { ((row as i64 + rot as i64).rem_euclid(g.n as i64)) as usize };
    match e {
        Expression::Constant(c) => *c,
        Expression::Selector(s) => {
            if g.sel.get(s).map(|v| v[row]).unwrap_or(false) {
                F::one()
            } else {
                F::zero()
            }
        }
        Expression::Fixed(q) => g.fixed[q.column_index()][at(q.rotation().0)],
        Expression::Advice(q) => g.advice[q.column_index()][at(q.rotation().0)],
        Expression::Instance(q) => g.instance[q.column_index()][at(q.rotation().0)],
        Expression::Challenge(c) => g.challenges[c.index()],
        Expression::Negated(a) => -eval(g, a, row),
        Expression::Sum(a, b) => eval(g, a, row) + eval(g, b, row),
        Expression::Product(a, b) => {
            let x = eval(g, a, row);
            if x.is_zero_vartime() {
                F::zero()
            } else {
                x * eval(g, b, row)
            }
        }
        Expression::Scaled(a, s) => eval(g, a, row) * s,
    }
}

/// The advice cells an expression reads at `row`.
pub fn reads<F: Field>(g: &Grid<F>, e: &Expression<F>, row: usize, out: &mut Vec<(usize, usize)>) {
    match e {
        Expression::Advice(q) => {
            let c = (q.column_index(), (row as i64 + q.rotation().0 as i64).rem_euclid(g.n as i64) as usize);
            if !out.contains(&c) {
                out.push(c);
            }
        }
        Expression::Negated(a) | Expression::Scaled(a, _) => reads(g, a, row, out),
        Expression::Sum(a, b) | Expression::Product(a, b) => {
            reads(g, a, row, out);
            reads(g, b, row, out);
        }
        _ => {}
    }
}

/// The part of a circuit that a prover fills in after it has seen challenges, and what constrains it.
pub struct Late<'a, F: Field> {
    polys: Vec<(&'a Expression<F>, usize, Vec<(usize, usize)>)>,
    copies: Vec<(Column<Any>, usize, Column<Any>, usize)>,
    pub cells: Vec<(usize, usize)>,
}

impl<'a, F: Field> Late<'a, F> {
    pub fn new(cs: &'a ConstraintSystem<F>, g: &Grid<F>, rows: &[usize]) -> Self {
        let late = |c: &(usize, usize)| g.advice_phase[c.0] > 0;
        let mut cells: Vec<_> = g.assigned.iter().cloned().filter(late).collect();
        cells.sort();
        cells.dedup();
        let mut polys = vec![];
        for (gi, gate) in cs.gates().iter().enumerate() {
            for (pi, p) in gate.polynomials().iter().enumerate() {
                if !dropped().is_empty() && dropped() == format!("g{}.{}", gi, pi) {
                    continue;
                }
                for &row in rows {
                    let mut rd = vec![];
                    reads(g, p, row, &mut rd);
                    rd.retain(|c| late(c));
                    // a polynomial that is zero whatever the late cells hold constrains nothing
                    let mut h = None;
                    let live = !rd.is_empty() && {
                        let h: &mut Grid<F> = h.get_or_insert_with(|| g.clone());
                        let mut d = F::one();
                        for c in rd.iter() {
                            d = d.double() + d + F::one();
                            h.advice[c.0][c.1] = h.advice[c.0][c.1] + d;
                        }
                        !eval(h, p, row).is_zero_vartime()
                    };
                    if live {
                        polys.push((p, row, rd));
                    }
                }
            }
        }
        let is_late = |c: &Column<Any>| matches!(c.column_type(), Any::Advice(_)) && g.advice_phase[c.index()] > 0;
        let copies = g
            .copies
            .iter()
            .filter(|(a, ar, b, br)| (is_late(a) || is_late(b)) && (dropped().is_empty() || dropped() != copy_name(a, *ar, b, *br)))
            .cloned()
            .collect();
        Late { polys, copies, cells }
    }
    /// Solve for the cells in `unknown` (others keep their value) by repeatedly using a constraint that
    /// leaves one of them open and is affine in it. False: the known cells contradict a constraint.
    pub fn propagate(&self, g: &mut Grid<F>, unknown: &mut HashSet<(usize, usize)>) -> bool {
        let key = |c: &Column<Any>, r: usize| matches!(c.column_type(), Any::Advice(_)).then(|| (c.index(), r));
        loop {
            let mut moved = false;
            for (a, ar, b, br) in &self.copies {
                let ka = key(a, *ar).filter(|k| unknown.contains(k));
                let kb = key(b, *br).filter(|k| unknown.contains(k));
                match (ka, kb) {
                    (None, None) => {
                        if cell(g, a, *ar) != cell(g, b, *br) {
                            return false;
                        }
                    }
                    (Some(k), None) => {
                        g.advice[k.0][k.1] = cell(g, b, *br);
                        unknown.remove(&k);
                        moved = true;
                    }
                    (None, Some(k)) => {
                        g.advice[k.0][k.1] = cell(g, a, *ar);
                        unknown.remove(&k);
                        moved = true;
                    }
                    _ => {}
                }
            }
            for (p, row, rd) in &self.polys {
                let mut open = rd.iter().filter(|c| unknown.contains(c));
                match (open.next(), open.next()) {
                    (None, _) => {
                        if !eval(g, p, *row).is_zero_vartime() {
                            return false;
                        }
                    }
                    (Some(&x), None) => {
                        let mut at = |v: F| {
                            g.advice[x.0][x.1] = v;
                            eval(g, p, *row)
                        };
                        let (f0, f1, f2) = (at(F::zero()), at(F::one()), at(F::one().double()));
                        let slope = f1 - f0;
                        if f2 - f1 != slope {
                            continue;
                        }
                        match Option::<F>::from(slope.invert()) {
                            Some(i) => {
                                g.advice[x.0][x.1] = -f0 * i;
                                unknown.remove(&x);
                                moved = true;
                            }
                            None => {
                                if !f0.is_zero_vartime() {
                                    return false;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            if !moved {
                return true;
            }
        }
    }
}

pub fn cell<F: Field>(g: &Grid<F>, c: &Column<Any>, row: usize) -> F {
    match c.column_type() {
        Any::Advice(_) => g.advice[c.index()][row],
        Any::Fixed => g.fixed[c.index()][row],
        Any::Instance => g.instance[c.index()][row],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fail {
    Gate(usize, usize),
    Lookup(usize, usize),
    Copy(usize),
}

/// Self-test of the checks' strength (never set by check.sh): MC_DROP=g<i>.<j> ignores polynomial j of
/// gate i, MC_DROP=l<i> ignores lookup i, MC_DROP=c<column>-<column> the copy constraints between two columns.
pub fn dropped() -> &'static str {
    use std::sync::Once;
    static O: Once = Once::new();
    static mut V: String = String::new();
    unsafe {
        O.call_once(|| V = std::env::var("MC_DROP").unwrap_or_default());
        &V
    }
}

/// First violated constraint of the grid, if any.
pub fn check<F: Field + std::hash::Hash>(cs: &ConstraintSystem<F>, g: &Grid<F>) -> Option<Fail> {
    check_rows(cs, g, &(0..g.usable).collect::<Vec<_>>())
}

/// As `check`, with gates and lookup inputs evaluated on `rows` only.
pub fn check_rows<F: Field + std::hash::Hash>(cs: &ConstraintSystem<F>, g: &Grid<F>, rows: &[usize]) -> Option<Fail> {
    if let Some(f) = check_copies(g) {
        return Some(f);
    }
    check_gates(cs, g, rows)
}

pub fn copy_name(lc: &Column<Any>, lr: usize, rc: &Column<Any>, rr: usize) -> String {
    let t = |c: &Column<Any>, r: usize| match c.column_type() {
        Any::Advice(_) => format!("a{}", c.index()),
        Any::Fixed => "f".into(),
        Any::Instance => format!("i{}{}", c.index(), if r == 0 { "len" } else { "" }),
    };
    format!("c{}-{}", t(lc, lr), t(rc, rr))
}

pub fn check_copies<F: Field>(g: &Grid<F>) -> Option<Fail> {
    let drop = dropped();
    for (i, (lc, lr, rc, rr)) in g.copies.iter().enumerate() {
        if cell(g, lc, *lr) != cell(g, rc, *rr) && (drop.is_empty() || drop != copy_name(lc, *lr, rc, *rr)) {
            return Some(Fail::Copy(i));
        }
    }
    None
}

/// As `check`, for fields without `Hash`.
pub fn check_ord<F: Field + Ord>(cs: &ConstraintSystem<F>, g: &Grid<F>) -> Option<Fail> {
    let rows: Vec<usize> = (0..g.usable).collect();
    if let Some(f) = check_copies(g).or_else(|| check_polys(cs, g, &rows)) {
        return Some(f);
    }
    for (li, l) in cs.lookups().iter().enumerate() {
        let table: std::collections::BTreeSet<Vec<F>> =
            (0..g.usable).map(|r| l.table_expressions.iter().map(|e| eval(g, e, r)).collect()).collect();
        for r in 0..g.usable {
            let v: Vec<F> = l.input_expressions.iter().map(|e| eval(g, e, r)).collect();
            if !table.contains(&v) {
                return Some(Fail::Lookup(li, r));
            }
        }
    }
    None
}

/// Gates and lookups only, on `rows`.
pub fn check_gates<F: Field + std::hash::Hash>(cs: &ConstraintSystem<F>, g: &Grid<F>, rows: &[usize]) -> Option<Fail> {
    check_polys(cs, g, rows).or_else(|| check_lookups(cs, g, rows))
}

/// Gates only, on `rows`.
pub fn check_polys<F: Field>(cs: &ConstraintSystem<F>, g: &Grid<F>, rows: &[usize]) -> Option<Fail> {
    let drop = dropped();
    for (gi, gate) in cs.gates().iter().enumerate() {
        for (pi, p) in gate.polynomials().iter().enumerate() {
            if !drop.is_empty() && drop == format!("g{}.{}", gi, pi) {
                continue;
            }
            for &row in rows {
                if !eval(g, p, row).is_zero_vartime() {
                    return Some(Fail::Gate(gi, row));
                }
            }
        }
    }
    None
}

fn check_lookups<F: Field + std::hash::Hash>(cs: &ConstraintSystem<F>, g: &Grid<F>, rows: &[usize]) -> Option<Fail> {
    let drop = dropped();
    for (li, l) in cs.lookups().iter().enumerate() {
        if !drop.is_empty() && drop == format!("l{}", li) {
            continue;
        }
        let table: HashSet<Vec<F>> =
            (0..g.usable).map(|r| l.table_expressions.iter().map(|e| eval(g, e, r)).collect()).collect();
        for &r in rows {
            let v: Vec<F> = l.input_expressions.iter().map(|e| eval(g, e, r)).collect();
            if !table.contains(&v) {
                return Some(Fail::Lookup(li, r));
            }
        }
    }
    None
}

/// Indices of all violated constraints (for oracle/diagnostic use).
pub fn check_all<F: Field + std::hash::Hash>(cs: &ConstraintSystem<F>, g: &Grid<F>) -> Vec<Fail> {
    let mut out = vec![];
    for (i, (lc, lr, rc, rr)) in g.copies.iter().enumerate() {
        if cell(g, lc, *lr) != cell(g, rc, *rr) {
            out.push(Fail::Copy(i));
        }
    }
    for (gi, gate) in cs.gates().iter().enumerate() {
        for p in gate.polynomials() {
            for row in 0..g.usable {
                if !eval(g, p, row).is_zero_vartime() {
                    out.push(Fail::Gate(gi, row));
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------
// Malicious prover: same circuit, but advice cells replaced from a table.

thread_local! {
    static TAMPER: RefCell<HashMap<(usize, usize), Vec<u8>>> = RefCell::new(HashMap::new());
}

/// A circuit whose floor planner substitutes advice cells set by `with_tamper`.
pub struct Evil<C>(pub C);
pub struct EvilPlanner<P>(std::marker::PhantomData<P>);

pub fn with_tamper<F: ff::PrimeField, T>(cells: &[((usize, usize), F)], f: impl FnOnce() -> T) -> T {
    TAMPER.with(|t| {
        *t.borrow_mut() = cells.iter().map(|(k, v)| (*k, v.to_repr().as_ref().to_vec())).collect();
    });
    let r = f();
    TAMPER.with(|t| t.borrow_mut().clear());
    r
}

struct EvilCs<'a, CS>(&'a mut CS);

impl<'a, F: Field, CS: Assignment<F>> Assignment<F> for EvilCs<'a, CS> {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.0.enter_region(n)
    }
    fn annotate_column<A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, c: Column<Any>) {
        self.0.annotate_column(a, c)
    }
    fn exit_region(&mut self) {
        self.0.exit_region()
    }
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, s: &Selector, row: usize) -> Result<(), Error> {
        self.0.enable_selector(a, s, row)
    }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.0.query_instance(c, row)
    }
    fn assign_advice<V, VR, A, AR>(&mut self, a: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let over = TAMPER.with(|t| t.borrow().get(&(c.index(), row)).cloned());
        self.0.assign_advice(a, c, row, || {
            to().map(|v| {
                let v: Assigned<F> = v.into();
                match &over {
                    None => v,
                    Some(b) => {
                        // rebuild the element from its little-endian bytes
                        let mut acc = F::zero();
                        for byte in b.iter().rev() {
                            for i in (0..8).rev() {
                                acc = acc.double();
                                if (byte >> i) & 1 == 1 {
                                    acc = acc + F::one();
                                }
                            }
                        }
                        Assigned::Trivial(acc)
                    }
                }
            })
        })
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, a: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.assign_fixed(a, c, row, to)
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.0.copy(lc, lr, rc, rr)
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.0.fill_from_row(c, row, to)
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        self.0.get_challenge(c)
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.0.push_namespace(n)
    }
    fn pop_namespace(&mut self, g: Option<String>) {
        self.0.pop_namespace(g)
    }
}

impl<P: FloorPlanner> FloorPlanner for EvilPlanner<P> {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(
        cs: &mut CS,
        circuit: &C,
        config: C::Config,
        constants: Vec<Column<Fixed>>,
    ) -> Result<(), Error> {
        P::synthesize(&mut EvilCs(cs), circuit, config, constants)
    }
}

impl<F: Field, C: Circuit<F>> Circuit<F> for Evil<C> {
    type Config = C::Config;
    type FloorPlanner = EvilPlanner<C::FloorPlanner>;
    fn without_witnesses(&self) -> Self {
        Evil(self.0.without_witnesses())
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        C::configure(meta)
    }
    fn synthesize(&self, config: Self::Config, layouter: impl halo2_proofs::circuit::Layouter<F>) -> Result<(), Error> {
        self.0.synthesize(config, layouter)
    }
}

/// Deterministic stand-in verifier challenges.
pub fn challenges<F: halo2curves::FieldExt>(n: usize, salt: u64) -> Vec<F> {
    let mut x = F::from(0x9e3779b97f4a7c15u64 ^ salt);
    (0..n)
        .map(|i| {
            x = x.square() * x + F::from(i as u64 * 7919 + 13 + salt);
            x = x.square() + F::from(5);
            x = x.square() * x + F::from(11);
            x
        })
        .collect()
}
