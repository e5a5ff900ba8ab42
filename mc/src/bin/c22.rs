//! C22: circuit gadgets compute and constrain their function.
//!
//! Over tiny prime fields *every* witness of the laid-out gadget is enumerated (mc::solve) and the set of
//! accepted (input, output) tuples is compared with the documented relation, with multiplicities; over the
//! real fields inputs around the boundaries are run and every assigned cell is altered.
use ff::{Field, PrimeField, PrimeFieldBits};
use halo2_gadgets::poseidon::primitives::{ConstantLength, Domain, Hash as PHash, P128Pow5T3, Spec};
use halo2_gadgets::poseidon::{Hash, PaddedWord, Pow5Chip, Pow5Config, PoseidonInstructions, Sponge, StateWord};
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig, CondSwapInstructions};
use halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_gadgets::utilities::*;
use halo2_proofs::circuit::*;
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2curves::pasta::Fp;
use halo2curves::FieldExt;
use mc::plonkref::{check_ord as check, Grid, Shape};
use mc::solve::Model;
use mc::zp::Zp;
use mc::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;

type Pos = (usize, usize);

/// A gadget under test: runs on known inputs and returns its input cells followed by its output cells.
trait Gad<F: FieldExt>: Clone + Send + Sync {
    type Cfg: Clone;
    fn conf(meta: &mut ConstraintSystem<F>) -> Self::Cfg;
    fn run(&self, cfg: &Self::Cfg, l: impl Layouter<F>) -> Result<Vec<AssignedCell<F, F>>, Error>;
}

#[derive(Clone)]
struct Circ<F, G>(G, PhantomData<F>);

impl<F: FieldExt, G: Gad<F>> Circuit<F> for Circ<F, G> {
    type Config = (G::Cfg, Column<Instance>);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let io = meta.instance_column();
        meta.enable_equality(io);
        (G::conf(meta), io)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let cells = self.0.run(&c.0, l.namespace(|| "gadget"))?;
        for (i, x) in cells.iter().enumerate() {
            l.constrain_instance(x.cell(), c.1, i)?;
        }
        Ok(())
    }
}

/// The laid-out gadget with its input/output cells located (through the copies to the instance column).
fn lay<F: FieldExt, G: Gad<F>>(k: u32, g: &G) -> Result<(Shape<F, Circ<F, G>>, Grid<F>, Vec<Pos>), String> {
    let sh = Shape::<F, Circ<F, G>>::new();
    let mut grid = sh.grid(k, &Circ(g.clone(), PhantomData), &[vec![]], &[]).map_err(|e| format!("synthesis: {:?}", e))?;
    let mut marks: BTreeMap<usize, Pos> = BTreeMap::new();
    grid.copies.retain(|(lc, lr, rc, rr)| match (lc.column_type(), rc.column_type()) {
        (Any::Advice(_), Any::Instance) => {
            marks.insert(*rr, (lc.index(), *lr));
            false
        }
        (Any::Instance, Any::Advice(_)) => {
            marks.insert(*lr, (rc.index(), *rr));
            false
        }
        _ => true,
    });
    Ok((sh, grid, marks.into_values().collect()))
}

/// Honest run: accepted?, values of the input/output cells. The mock prover has to agree.
fn honest<F: FieldExt, G: Gad<F>>(k: u32, g: &G) -> Result<(bool, Vec<F>), String> {
    let (sh, grid, marks) = lay(k, g)?;
    let ok = check(&sh.cs, &grid).is_none();
    let vals: Vec<F> = marks.iter().map(|(c, r)| grid.advice[*c][*r]).collect();
    let mp = MockProver::run(k, &Circ(g.clone(), PhantomData), vec![vals.clone()]).map_err(|e| format!("mock: {:?}", e))?;
    let mok = mp.verify().is_ok();
    if ok != mok {
        return Err(format!("reference says {}, mock prover says {}", ok, mok));
    }
    Ok((ok, vals))
}

/// Compares the set of all witnesses with `expected` (list of input/output tuples, one witness each).
fn explore<const P: u64, G: Gad<Zp<P>>>(rec: &mut Rec, k: u32, g: &G, prefix: &[u64], expected: &[Vec<u64>]) -> Result<(), String> {
    let (sh, grid, marks) = lay(k, g)?;
    let m = Model::<P>::new(&sh.cs, &grid, &marks);
    let mut found: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
    let mut n = 0u64;
    let visited = m.solve(prefix, |at| {
        n += 1;
        let t: Vec<u64> = marks.iter().map(|c| at(*c).unwrap().0).collect();
        *found.entry(t).or_default() += 1;
        if n > 20_000_000 {
            return Err("more than 20M witnesses".into());
        }
        Ok(())
    })?;
    for t in found.keys() {
        rec.state(&(k, P, sh.cs.gates().len(), marks.len(), t));
    }
    rec.step(visited);
    let mut exp: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
    for e in expected {
        *exp.entry(e.clone()).or_default() += 1;
    }
    for (t, c) in &found {
        match exp.get(t) {
            None => return Err(format!("the circuit accepts input/output {:?}, which is not in the relation", t)),
            Some(e) if e != c => return Err(format!("{} witnesses for {:?}, expected {}", c, t, e)),
            _ => {}
        }
    }
    if let Some(t) = exp.keys().find(|t| !found.contains_key(*t)) {
        return Err(format!("no witness for {:?}", t));
    }
    Ok(())
}

fn with<F: FieldExt, T>(mut l: impl Layouter<F>, f: impl FnMut(Region<'_, F>) -> Result<T, Error>) -> Result<T, Error> {
    let mut f = f;
    l.assign_region(|| "r", |r| f(r))
}

// ---------------------------------------------------------------- lookup range check

#[derive(Clone, Debug, PartialEq)]
enum RMode {
    Copy,
    Witness,
    ShortCopy,
    ShortWitness,
    /// RangeConstrained::witness_short of bits lo.. of the value
    Sub(usize),
}

#[derive(Clone, Debug)]
struct RangeG<F, const K: usize> {
    v: F,
    n: usize,
    strict: bool,
    mode: RMode,
}

#[derive(Clone)]
struct RCfg<F: FieldExt + PrimeFieldBits, const K: usize> {
    a: Column<Advice>,
    t: TableColumn,
    c: LookupRangeCheckConfig<F, K>,
}

impl<F: FieldExt + PrimeFieldBits, const K: usize> Gad<F> for RangeG<F, K> {
    type Cfg = RCfg<F, K>;
    fn conf(meta: &mut ConstraintSystem<F>) -> Self::Cfg {
        let a = meta.advice_column();
        let run = meta.advice_column();
        meta.enable_equality(a);
        let t = meta.lookup_table_column();
        let k = meta.fixed_column();
        meta.enable_constant(k);
        RCfg { a, t, c: LookupRangeCheckConfig::configure(meta, run, t) }
    }
    fn run(&self, cfg: &Self::Cfg, mut l: impl Layouter<F>) -> Result<Vec<AssignedCell<F, F>>, Error> {
        l.assign_table(
            || "t",
            |mut t| {
                for i in 0..1usize << K {
                    t.assign_cell(|| "i", cfg.t, i, || Value::known(F::from(i as u64)))?;
                }
                Ok(())
            },
        )?;
        let load = |l: &mut dyn FnMut() -> Result<AssignedCell<F, F>, Error>| l();
        match &self.mode {
            RMode::Copy => {
                let x = load(&mut || with(l.namespace(|| "in"), |mut r| r.assign_advice(|| "in", cfg.a, 0, || Value::known(self.v))))?;
                let zs = cfg.c.copy_check(l.namespace(|| "rc"), x.clone(), self.n, self.strict)?;
                Ok(std::iter::once(x).chain(zs.iter().cloned()).collect())
            }
            RMode::Witness => {
                let zs = cfg.c.witness_check(l.namespace(|| "rc"), Value::known(self.v), self.n, self.strict)?;
                Ok(std::iter::once(zs[0].clone()).chain(zs.iter().cloned()).collect())
            }
            RMode::ShortCopy => {
                let x = load(&mut || with(l.namespace(|| "in"), |mut r| r.assign_advice(|| "in", cfg.a, 0, || Value::known(self.v))))?;
                cfg.c.copy_short_check(l.namespace(|| "sc"), x.clone(), self.n)?;
                Ok(vec![x])
            }
            RMode::ShortWitness => {
                let x = cfg.c.witness_short_check(l.namespace(|| "sc"), Value::known(self.v), self.n)?;
                Ok(vec![x])
            }
            RMode::Sub(lo) => {
                let v = Value::known(self.v);
                let x = RangeConstrained::witness_short(&cfg.c, l.namespace(|| "sub"), v.as_ref(), *lo..*lo + self.n)?;
                if x.num_bits() != self.n {
                    return Err(Error::Synthesis);
                }
                Ok(vec![x.inner().clone()])
            }
        }
    }
}

/// all words in [0, 2^k)^n
fn tuples(n: usize, base: u64, f: &mut dyn FnMut(&[u64])) {
    let mut w = vec![0u64; n];
    loop {
        f(&w);
        let mut i = 0;
        while i < n {
            w[i] += 1;
            if w[i] < base {
                break;
            }
            w[i] = 0;
            i += 1;
        }
        if i == n {
            return;
        }
    }
}

fn inst_rows(marks: usize, k: u32) -> u32 {
    let mut k = k;
    while (1usize << k) < marks + 10 {
        k += 1;
    }
    k
}

fn range_exhaustive<const P: u64, const K: usize>(ctx: &Ctx, max_words: usize) {
    let kk = K as u64;
    let cap = 63 - P.leading_zeros() as usize;
    let mut items = vec![];
    for n in 0..=max_words.min(cap / K) {
        for strict in [false, true] {
            for mode in [RMode::Copy, RMode::Witness] {
                items.push(RangeG::<Zp<P>, K> { v: Zp(0), n, strict, mode });
            }
        }
    }
    for n in 0..=K {
        items.push(RangeG { v: Zp(0), n, strict: true, mode: RMode::ShortWitness });
        if n < K {
            items.push(RangeG { v: Zp(0), n, strict: true, mode: RMode::ShortCopy });
            for lo in 0..cap.saturating_sub(n) {
                items.push(RangeG { v: Zp(0), n, strict: true, mode: RMode::Sub(lo) });
            }
        }
    }
    ctx.par(&format!("range check: all witnesses over F_{} with {}-bit words", P, K), &items, |it, rec| {
        rec.label(format!("F_{} K={} {:?}", P, K, it));
        let k = inst_rows(it.n + (1 << K) + 4, 4);
        let long = matches!(it.mode, RMode::Copy | RMode::Witness);
        rec.case(|rec| {
            let mut exp = vec![];
            if long {
                let top = if it.strict { 1 } else { P };
                for last in 0..top {
                    tuples(it.n, 1 << kk, &mut |w| {
                        let mut zs = vec![last];
                        for a in w.iter().rev() {
                            zs.push((zs.last().unwrap() * (1 << kk) + a) % P);
                        }
                        zs.push(*zs.last().unwrap());
                        zs.reverse();
                        exp.push(zs);
                    });
                }
            } else {
                for v in 0..(1u64 << it.n).min(P) {
                    exp.push(vec![v]);
                }
            }
            explore::<P, _>(rec, k, it, &[], &exp)
        });
        for v in Zp::<P>::all() {
            rec.case(|rec| {
                let g = RangeG { v, ..it.clone() };
                rec.step(1);
                let (ok, vals) = honest(k, &g)?;
                let want = match it.mode {
                    RMode::Sub(_) => true,
                    _ if long => !it.strict || v.0 < 1 << (K * it.n),
                    _ => v.0 < 1 << it.n,
                };
                if ok != want {
                    return Err(format!("honest run on {:?}: accepted={}, expected {}", v, ok, want));
                }
                if want {
                    let exp: Vec<Zp<P>> = match &it.mode {
                        RMode::Sub(lo) => vec![Zp((v.0 >> lo) & ((1 << it.n) - 1))],
                        _ if long => {
                            let mut zs = vec![v, v];
                            for i in 0..it.n {
                                let z = *zs.last().unwrap();
                                let w = (v.0 >> (K * i)) & ((1 << K) - 1);
                                zs.push((z - Zp(w)) * Zp::from(1u64 << K).invert().unwrap());
                            }
                            zs
                        }
                        _ => vec![v],
                    };
                    if vals != exp {
                        return Err(format!("outputs on {:?} are {:?}, expected {:?}", v, vals, exp));
                    }
                }
                Ok(())
            });
        }
    });
}

// ---------------------------------------------------------------- running sum

#[derive(Clone, Debug)]
struct RunG<F, const W: usize> {
    v: F,
    offset: usize,
    copy: bool,
    strict: bool,
    bits: usize,
    windows: usize,
}

impl<F: FieldExt + PrimeFieldBits, const W: usize> Gad<F> for RunG<F, W> {
    type Cfg = (Column<Advice>, RunningSumConfig<F, W>);
    fn conf(meta: &mut ConstraintSystem<F>) -> Self::Cfg {
        let a = meta.advice_column();
        meta.enable_equality(a);
        let z = meta.advice_column();
        let q = meta.selector();
        let k = meta.fixed_column();
        meta.enable_constant(k);
        (a, RunningSumConfig::configure(meta, q, z))
    }
    fn run(&self, cfg: &Self::Cfg, mut l: impl Layouter<F>) -> Result<Vec<AssignedCell<F, F>>, Error> {
        let x = with(l.namespace(|| "in"), |mut r| r.assign_advice(|| "in", cfg.0, 0, || Value::known(self.v)))?;
        let zs = with(l.namespace(|| "run"), |mut r| {
            if self.copy {
                cfg.1.copy_decompose(&mut r, self.offset, x.clone(), self.strict, self.bits, self.windows)
            } else {
                cfg.1.witness_decompose(&mut r, self.offset, Value::known(self.v), self.strict, self.bits, self.windows)
            }
        })?;
        let first = if self.copy { x } else { zs[0].clone() };
        Ok(std::iter::once(first).chain(zs.iter().cloned()).collect())
    }
}

fn running_exhaustive<const P: u64, const W: usize>(ctx: &Ctx, max_windows: usize) {
    let cap = 63 - P.leading_zeros() as usize;
    let mut items = vec![];
    for bits in 1..=cap {
        let windows = (bits + W - 1) / W;
        if windows > max_windows || windows * W > cap {
            continue;
        }
        for copy in [false, true] {
            for strict in [false, true] {
                for offset in [0, 1, 3] {
                    items.push(RunG::<Zp<P>, W> { v: Zp(0), offset, copy, strict, bits, windows });
                }
            }
        }
    }
    ctx.par(&format!("running sum: all witnesses over F_{} with {}-bit windows", P, W), &items, |it, rec| {
        rec.label(format!("F_{} W={} {:?}", P, W, it));
        let k = inst_rows(it.windows + it.offset + 4, 4);
        let base = 1u64 << W;
        rec.case(|rec| {
            let mut exp = vec![];
            let top = if it.strict { 1 } else { P };
            // the first cell is copied from another column: no extra freedom. Witnessed: the input cell is unrelated.
            for last in 0..top {
                tuples(it.windows, base, &mut |w| {
                    let mut zs = vec![last];
                    for a in w.iter().rev() {
                        zs.push((zs.last().unwrap() * base + a) % P);
                    }
                    zs.push(*zs.last().unwrap());
                    zs.reverse();
                    // an unconstrained input cell multiplies the witnesses by P when the value is witnessed
                    for _ in 0..if it.copy { 1 } else { P } {
                        exp.push(zs.clone());
                    }
                });
            }
            explore::<P, _>(rec, k, it, &[], &exp)
        });
        for v in Zp::<P>::all() {
            rec.case(|rec| {
                let g = RunG { v, ..it.clone() };
                rec.step(1);
                let (ok, vals) = honest(k, &g)?;
                let fits = v.0 < 1 << it.bits;
                if fits || !it.strict {
                    if !ok {
                        return Err(format!("honest run on {:?} rejected", v));
                    }
                } else if v.0 >= 1 << (W * it.windows) && ok {
                    return Err(format!("honest run on {:?} accepted", v));
                }
                if fits {
                    let exp: Vec<Zp<P>> = std::iter::once(v).chain((0..=it.windows).map(|i| Zp(v.0 >> (W * i)))).collect();
                    if vals != exp {
                        return Err(format!("running sum of {:?} is {:?}, expected {:?}", v, vals, exp));
                    }
                }
                Ok(())
            });
        }
    });
}

// ---------------------------------------------------------------- conditional swap

#[derive(Clone, Debug)]
struct SwapG<F> {
    a: F,
    b: F,
    s: bool,
}

impl<F: FieldExt> Gad<F> for SwapG<F> {
    type Cfg = (Column<Advice>, CondSwapConfig);
    fn conf(meta: &mut ConstraintSystem<F>) -> Self::Cfg {
        let x = meta.advice_column();
        meta.enable_equality(x);
        let adv = [0; 5].map(|_| meta.advice_column());
        for a in adv {
            meta.enable_equality(a);
        }
        (x, CondSwapChip::configure(meta, adv))
    }
    fn run(&self, cfg: &Self::Cfg, mut l: impl Layouter<F>) -> Result<Vec<AssignedCell<F, F>>, Error> {
        let chip = CondSwapChip::<F>::construct(cfg.1.clone());
        let a = chip.load_private(l.namespace(|| "in"), cfg.0, Value::known(self.a))?;
        let (x, y) = chip.swap(l.namespace(|| "swap"), (a.clone(), Value::known(self.b)), Value::known(self.s))?;
        Ok(vec![a, x, y])
    }
}

fn swap_exhaustive<const P: u64>(ctx: &Ctx) {
    let items: Vec<u64> = (0..P).collect();
    ctx.par(&format!("conditional swap: all witnesses over F_{}", P), &items, |a, rec| {
        rec.label(format!("F_{} a={}", P, a));
        rec.case(|rec| {
            // (a, a', b') with {a', b'} = {a, b}; one witness per (b, swap)
            let mut exp = vec![];
            for b in 0..P {
                exp.push(vec![*a, *a, b]);
                exp.push(vec![*a, b, *a]);
            }
            explore::<P, _>(rec, 4, &SwapG::<Zp<P>> { a: Zp(0), b: Zp(0), s: false }, &[*a], &exp)
        });
        for b in Zp::<P>::all() {
            for s in [false, true] {
                rec.case(|rec| {
                    rec.step(1);
                    let a = Zp(*a);
                    let (ok, vals) = honest(4, &SwapG { a, b, s })?;
                    let exp = if s { vec![a, b, a] } else { vec![a, a, b] };
                    if !ok || vals != exp {
                        return Err(format!("swap({:?},{:?},{}) = {:?} (accepted {})", a, b, s, vals, ok));
                    }
                    Ok(())
                });
            }
        }
    });
}

// ---------------------------------------------------------------- Poseidon

/// A small Poseidon instance over a tiny field.
#[derive(Debug, Clone, Copy)]
struct TinySpec<const RF: usize, const RP: usize>;

fn det_inv<const P: u64, const T: usize>(m: &[[Zp<P>; T]; T]) -> Option<[[Zp<P>; T]; T]> {
    let mut a = *m;
    let mut b = [[Zp(0); T]; T];
    for i in 0..T {
        b[i][i] = Zp(1);
    }
    for c in 0..T {
        let p = (c..T).find(|r| a[*r][c].0 != 0)?;
        a.swap(c, p);
        b.swap(c, p);
        let inv = a[c][c].invert().unwrap();
        for j in 0..T {
            a[c][j] *= inv;
            b[c][j] *= inv;
        }
        for r in 0..T {
            if r != c {
                let f = a[r][c];
                for j in 0..T {
                    let (x, y) = (a[c][j], b[c][j]);
                    a[r][j] -= f * x;
                    b[r][j] -= f * y;
                }
            }
        }
    }
    Some(b)
}

fn tiny_consts<const P: u64, const T: usize>(rounds: usize) -> (Vec<[Zp<P>; T]>, [[Zp<P>; T]; T], [[Zp<P>; T]; T]) {
    let rc = (0..rounds)
        .map(|r| {
            let mut row = [Zp(0); T];
            for (i, x) in row.iter_mut().enumerate() {
                *x = Zp::from((r * r * 3 + i * 5 + r + 1) as u64);
            }
            row
        })
        .collect();
    for salt in 0.. {
        let mut m = [[Zp(0); T]; T];
        for i in 0..T {
            for j in 0..T {
                let mut h = (salt * 64 + i * 8 + j + 1) as u64;
                for _ in 0..3 {
                    h = (h.wrapping_mul(0x9e3779b97f4a7c15)) ^ (h >> 29);
                }
                m[i][j] = Zp::from(1 + (h >> 20) % (P - 1));
            }
        }
        // asymmetric and invertible, without zero entries
        if m.iter().flatten().all(|x| x.0 != 0) && (0..T).any(|i| (0..T).any(|j| m[i][j] != m[j][i])) {
            if let Some(inv) = det_inv(&m) {
                return (rc, m, inv);
            }
        }
        if salt > 500 {
            panic!("no matrix");
        }
    }
    unreachable!()
}

impl<const P: u64, const T: usize, const RATE: usize, const RF: usize, const RP: usize> Spec<Zp<P>, T, RATE> for TinySpec<RF, RP> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: Zp<P>) -> Zp<P> {
        v * v * v * v * v
    }
    fn secure_mds() -> usize {
        0
    }
    fn constants() -> (Vec<[Zp<P>; T]>, [[Zp<P>; T]; T], [[Zp<P>; T]; T]) {
        tiny_consts::<P, T>(RF + RP)
    }
}

/// The permutation, from its definition.
fn ref_permute<F: FieldExt, const T: usize>(rf: usize, rp: usize, rc: &[[F; T]], m: &[[F; T]; T], st: &mut [F; T]) {
    let s = |x: F| x.square().square() * x;
    for r in 0..rf + rp {
        for i in 0..T {
            st[i] += rc[r][i];
        }
        let full = r < rf / 2 || r >= rf / 2 + rp;
        for i in 0..T {
            if full || i == 0 {
                st[i] = s(st[i]);
            }
        }
        let mut n = [F::zero(); T];
        for i in 0..T {
            for j in 0..T {
                n[i] += m[i][j] * st[j];
            }
        }
        *st = n;
    }
}

fn ref_sponge<F: FieldExt, const T: usize, const RATE: usize>(rf: usize, rp: usize, rc: &[[F; T]], m: &[[F; T]; T], cap: F, msg: &[F], outs: usize) -> Vec<F> {
    let mut st = [F::zero(); T];
    st[RATE] = cap;
    let mut padded = msg.to_vec();
    while padded.len() % RATE != 0 || padded.is_empty() {
        padded.push(F::zero());
    }
    for ch in padded.chunks(RATE) {
        for i in 0..RATE {
            st[i] += ch[i];
        }
        ref_permute(rf, rp, rc, m, &mut st);
    }
    let mut out = vec![];
    loop {
        for i in 0..RATE {
            if out.len() == outs {
                return out;
            }
            out.push(st[i]);
        }
        ref_permute(rf, rp, rc, m, &mut st);
    }
}

#[derive(Clone, Debug)]
enum PMode<const T: usize, const RATE: usize, const L: usize> {
    Permute,
    Hash,
    Sponge(usize),
}

#[derive(Debug)]
struct PosG<F, S, const T: usize, const RATE: usize, const L: usize> {
    input: Vec<F>,
    mode: PMode<T, RATE, L>,
    _s: PhantomData<S>,
}
impl<F: Clone, S, const T: usize, const RATE: usize, const L: usize> Clone for PosG<F, S, T, RATE, L> {
    fn clone(&self) -> Self {
        PosG { input: self.input.clone(), mode: self.mode.clone(), _s: PhantomData }
    }
}
unsafe impl<F: Send, S, const T: usize, const RATE: usize, const L: usize> Send for PosG<F, S, T, RATE, L> {}
unsafe impl<F: Sync, S, const T: usize, const RATE: usize, const L: usize> Sync for PosG<F, S, T, RATE, L> {}

impl<F: FieldExt, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize> Gad<F> for PosG<F, S, T, RATE, L> {
    type Cfg = ([Column<Advice>; T], Pow5Config<F, T, RATE>);
    fn conf(meta: &mut ConstraintSystem<F>) -> Self::Cfg {
        let inp = [0; T].map(|_| meta.advice_column());
        for c in inp {
            meta.enable_equality(c);
        }
        let st = [0; T].map(|_| meta.advice_column());
        let ps = meta.advice_column();
        let a = [0; T].map(|_| meta.fixed_column());
        let b = [0; T].map(|_| meta.fixed_column());
        let k = meta.fixed_column();
        meta.enable_constant(k);
        (inp, Pow5Chip::configure::<S>(meta, st, ps, a, b))
    }
    fn run(&self, cfg: &Self::Cfg, mut l: impl Layouter<F>) -> Result<Vec<AssignedCell<F, F>>, Error> {
        let ins = with(l.namespace(|| "in"), |mut r| {
            self.input
                .iter()
                .enumerate()
                .map(|(i, v)| r.assign_advice(|| "in", cfg.0[i % T], i / T, || Value::known(*v)))
                .collect::<Result<Vec<_>, _>>()
        })?;
        let chip = Pow5Chip::<F, T, RATE>::construct(cfg.1.clone());
        let mut out = ins.clone();
        match self.mode {
            PMode::Permute => {
                let st: Vec<StateWord<F>> = ins.iter().cloned().map(|x| x.into()).collect();
                let st: [StateWord<F>; T] = st.try_into().map_err(|_| Error::Synthesis)?;
                let r = <Pow5Chip<F, T, RATE> as PoseidonInstructions<F, S, T, RATE>>::permute(&chip, &mut l.namespace(|| "p"), &st)?;
                out.extend(r.iter().cloned().map(|w| AssignedCell::from(w)));
            }
            PMode::Hash => {
                let h = Hash::<F, _, S, ConstantLength<L>, T, RATE>::init(chip, l.namespace(|| "init"))?;
                let msg: [AssignedCell<F, F>; L] = ins.try_into().map_err(|_| Error::Synthesis)?;
                out.push(h.hash(l.namespace(|| "hash"), msg)?);
            }
            PMode::Sponge(outs) => {
                let mut s = Sponge::<F, _, S, _, ConstantLength<L>, T, RATE>::new(chip, l.namespace(|| "new"))?;
                for x in ins {
                    s.absorb(l.namespace(|| "absorb"), PaddedWord::Message(x))?;
                }
                for p in <ConstantLength<L> as Domain<F, RATE>>::padding(L) {
                    s.absorb(l.namespace(|| "pad"), PaddedWord::Padding(p))?;
                }
                let mut s = s.finish_absorbing(l.namespace(|| "fin"))?;
                for _ in 0..outs {
                    out.push(s.squeeze(l.namespace(|| "squeeze"))?);
                }
            }
        }
        Ok(out)
    }
}

/// All inputs x all witnesses of the chip over F_P; `slice`: number of leading inputs fixed per work item
fn pos_exhaustive<const P: u64, const T: usize, const RATE: usize, const L: usize, const RF: usize, const RP: usize>(
    ctx: &Ctx,
    mode: PMode<T, RATE, L>,
    k: u32,
    stride: u64,
) {
    type G<const P: u64, const T: usize, const RATE: usize, const L: usize, const RF: usize, const RP: usize> = PosG<Zp<P>, TinySpec<RF, RP>, T, RATE, L>;
    let (rc, m, _) = tiny_consts::<P, T>(RF + RP);
    let n_in = match mode {
        PMode::Permute => T,
        _ => L,
    };
    let mut ins: Vec<Vec<u64>> = vec![];
    tuples(n_in, P, &mut |w| ins.push(w.to_vec()));
    let ins: Vec<_> = ins.into_iter().step_by(stride as usize).collect();
    let chunks: Vec<Vec<Vec<u64>>> = ins.chunks((ins.len() / 32).max(1)).map(|c| c.to_vec()).collect();
    let sec = format!("Poseidon chip over F_{}, width {}, {}+{} rounds, {:?}, {} inputs: all witnesses", P, T, RF, RP, mode, n_in);
    ctx.par(&sec, &chunks, |ch, rec| {
        rec.label(format!("F_{} T={} {:?} inputs {:?}..", P, T, mode, ch[0]));
        for inp in ch {
            rec.case(|rec| {
                let zi: Vec<Zp<P>> = inp.iter().map(|x| Zp(*x)).collect();
                let want: Vec<Zp<P>> = match mode {
                    PMode::Permute => {
                        let mut st: [Zp<P>; T] = zi.clone().try_into().unwrap();
                        ref_permute(RF, RP, &rc, &m, &mut st);
                        st.to_vec()
                    }
                    PMode::Hash => ref_sponge::<_, T, RATE>(RF, RP, &rc, &m, Zp::from_u128((L as u128) << 64), &zi, 1),
                    PMode::Sponge(o) => ref_sponge::<_, T, RATE>(RF, RP, &rc, &m, Zp::from_u128((L as u128) << 64), &zi, o),
                };
                let mut full = zi.clone();
                full.extend(&want);
                let g = G::<P, T, RATE, L, RF, RP> { input: zi.clone(), mode: mode.clone(), _s: PhantomData };
                let (ok, vals) = honest(k, &g)?;
                if !ok || vals != full {
                    return Err(format!("honest run on {:?}: accepted {}, {:?}, expected {:?}", inp, ok, vals, full));
                }
                if let PMode::Hash = mode {
                    let p = PHash::<Zp<P>, TinySpec<RF, RP>, ConstantLength<L>, T, RATE>::init().hash(zi.clone().try_into().unwrap());
                    if p != want[0] {
                        return Err(format!("the primitive hashes {:?} to {:?}, the definition to {:?}", inp, p, want[0]));
                    }
                }
                explore_pos::<P, _>(rec, k, &g, inp, &full.iter().map(|x| x.0).collect::<Vec<_>>())
            });
        }
    });
}

/// As `explore` for one input; variables in assignment order (rounds are determined row by row).
fn explore_pos<const P: u64, G: Gad<Zp<P>>>(rec: &mut Rec, k: u32, g: &G, inp: &[u64], exp: &[u64]) -> Result<(), String> {
    let (sh, grid, marks) = lay(k, g)?;
    let m = Model::<P>::new(&sh.cs, &grid, &marks[..inp.len()]);
    let mut n = 0u64;
    let visited = m.solve(inp, |at| {
        n += 1;
        let t: Vec<u64> = marks.iter().map(|c| at(*c).unwrap().0).collect();
        if t != exp {
            return Err(format!("the circuit accepts {:?}, the function gives {:?}", t, exp));
        }
        if n > 1 {
            return Err(format!("more than one witness for input {:?}: an intermediate cell is free", inp));
        }
        Ok(())
    })?;
    rec.state(&(k, P, exp));
    rec.step(visited);
    if n == 0 {
        return Err("no witness".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- real field

/// Every assigned cell (but those in `free`) altered by every replacement is rejected.
fn faults<F: FieldExt, G: Gad<F>>(rec: &mut Rec, k: u32, g: &G, free: &dyn Fn(&[Pos], Pos) -> bool) -> Result<(), String> {
    let (sh, grid, marks) = lay(k, g)?;
    if let Some(f) = check(&sh.cs, &grid) {
        return Err(format!("honest run rejected: {:?}", f));
    }
    let mut cells = grid.assigned.clone();
    cells.sort();
    cells.dedup();
    for c in cells {
        if free(&marks, c) {
            continue;
        }
        let v = grid.advice[c.0][c.1];
        for w in [v + F::one(), v - F::one(), -v, v.double(), F::zero(), F::one()] {
            if w == v {
                continue;
            }
            let mut g2 = grid.clone();
            g2.advice[c.0][c.1] = w;
            rec.step(1);
            if check(&sh.cs, &g2).is_none() {
                return Err(format!("cell {:?} changed from {:?} to {:?} is accepted", c, v, w));
            }
        }
    }
    Ok(())
}

fn pw2<F: FieldExt>(n: usize) -> F {
    (0..n).fold(F::one(), |a, _| a.double())
}

fn big<F: PrimeField>(v: &F) -> num_bigint::BigUint {
    num_bigint::BigUint::from_bytes_le(v.to_repr().as_ref())
}

fn real_range<const K: usize>(ctx: &Ctx) {
    let one = num_bigint::BigUint::from(1u8);
    let mut items = vec![];
    for n in [1usize, 2, 3, 6, 12, 13, 24, 25].iter().cloned().chain([253 / K, 254 / K]) {
        if n * K > 254 {
            continue;
        }
        for strict in [false, true] {
            for mode in [RMode::Copy, RMode::Witness] {
                let b = pw2::<Fp>(n * K);
                for v in [Fp::zero(), Fp::one(), b - Fp::one(), b, b + Fp::one(), -Fp::one(), b.double(), -b, pw2::<Fp>(64), pw2::<Fp>(63) - Fp::one(), pw2::<Fp>(128) - pw2::<Fp>(60)] {
                    items.push(RangeG::<Fp, K> { v, n, strict, mode: mode.clone() });
                }
            }
        }
    }
    for n in 0..=K {
        for mode in [RMode::ShortCopy, RMode::ShortWitness] {
            if n == K && mode == RMode::ShortCopy {
                continue;
            }
            let b = pw2::<Fp>(n);
            for v in [Fp::zero(), Fp::one(), b - Fp::one(), b, b + Fp::one(), -Fp::one(), b.double(), -b, pw2::<Fp>(K), pw2::<Fp>(n).invert().unwrap(), pw2::<Fp>(K - n).invert().unwrap(), pw2::<Fp>(64) + Fp::one()] {
                items.push(RangeG { v, n, strict: true, mode: mode.clone() });
            }
        }
    }
    ctx.par(&format!("range check over the Pasta field, {}-bit words", K), &items, |it, rec| {
        rec.label(format!("K={} {:?}", K, it));
        let k = inst_rows(it.n + (1 << K) + 6, 5);
        rec.case(|rec| {
            let long = matches!(it.mode, RMode::Copy | RMode::Witness);
            let bits = if long { K * it.n } else { it.n };
            let want = (long && !it.strict) || big(&it.v) < &one << bits;
            rec.step(1);
            let (ok, vals) = honest(k, it)?;
            if ok != want {
                return Err(format!("accepted={}, expected {}", ok, want));
            }
            if ok && long {
                for i in 0..it.n {
                    let w = big(&(vals[i + 1] - vals[i + 2] * pw2::<Fp>(K)));
                    let e = (big(&it.v) >> (K * i)) % (&one << K);
                    if w != e {
                        return Err(format!("word {} is {}, expected {}", i, w, e));
                    }
                }
            }
            if ok {
                // a witnessed input may change within its lowest word: that is another honest input
                // and z_n of a non-strict check is not constrained beyond its congruence
                let wit = it.mode == RMode::Witness;
                faults(rec, k, it, &|m, c| (wit && c == m[0]) || (long && !it.strict && Some(&c) == m.last()))?;
            }
            Ok(())
        });
    });
}

fn helpers<F: FieldExt + PrimeFieldBits>(rec: &mut Rec, vals: &[F]) {
    let one = num_bigint::BigUint::from(1u8);
    let nb = F::NUM_BITS as usize;
    for v in vals {
        let vb = big(v);
        rec.label(format!("helpers on {:?}", v));
        rec.case(|rec| {
            let pts: Vec<usize> = if nb < 16 { (0..=nb).collect() } else { vec![0, 1, 2, 3, 8, 31, 32, 63, 64, 65, 127, 128, 129, 192, 200, 253, nb - 1, nb] };
            for &lo in &pts {
                for &hi in &pts {
                    if lo > hi {
                        continue;
                    }
                    rec.step(1);
                    let e = (&vb >> lo) % (&one << (hi - lo));
                    let got = big(&bitrange_subset(v, lo..hi));
                    if got != e {
                        return Err(format!("bitrange_subset({:?}, {}..{}) = {}, expected {}", v, lo, hi, got, e));
                    }
                    let rc = RangeConstrained::<F, Value<F>>::bitrange_of(Value::known(v), lo..hi);
                    if rc.num_bits() != hi - lo || mc::plonkref::value_of(*rc.inner()).map(|x| big(&x)) != Some(e) {
                        return Err("bitrange_of differs from bitrange_subset".into());
                    }
                }
            }
            for bits in pts.iter().cloned().filter(|b| *b > 0) {
                for w in 1..=8usize {
                    rec.step(1);
                    let got = decompose_word(v, bits, w);
                    let t = &vb % (&one << bits);
                    let exp: Vec<u8> = (0..(bits + w - 1) / w).map(|i| ((&t >> (w * i)) % (&one << w)).to_bytes_le()[0]).collect();
                    if got != exp {
                        return Err(format!("decompose_word({:?}, {}, {}) = {:?}, expected {:?}", v, bits, w, got, exp));
                    }
                }
            }
            Ok(())
        });
    }
}

fn lebs<const L: usize>(rec: &mut Rec) {
    rec.label(format!("{} bit strings", L));
    rec.case(|rec| {
        let all: Vec<u64> = if L <= 12 {
            (0..1u64 << L).collect()
        } else {
            let mut v: Vec<u64> = (0..L).flat_map(|i| [1u64 << i, (1u64 << i) - 1]).collect();
            v.push(if L == 64 { u64::MAX } else { (1 << L) - 1 });
            v.push(0xaaaa_aaaa_aaaa_aaaa & if L == 64 { u64::MAX } else { (1 << L) - 1 });
            v
        };
        for x in all {
            rec.step(1);
            let bits: [bool; L] = i2lebsp(x);
            for i in 0..L {
                if bits[i] != (x >> i & 1 == 1) {
                    return Err(format!("bit {} of {} is {}", i, x, bits[i]));
                }
            }
            if lebs2ip(&bits) != x {
                return Err(format!("lebs2ip of the bits of {} is {}", x, lebs2ip(&bits)));
            }
        }
        Ok(())
    });
}

/// evaluates expression gadgets through a one-gate circuit over F_P
#[derive(Clone)]
struct ExprG<const WHICH: usize>;
impl<const P: u64, const WHICH: usize> Gad<Zp<P>> for ExprG<WHICH> {
    type Cfg = ([Column<Advice>; 4], Selector);
    fn conf(meta: &mut ConstraintSystem<Zp<P>>) -> Self::Cfg {
        let a = [0; 4].map(|_| meta.advice_column());
        for c in a {
            meta.enable_equality(c);
        }
        let s = meta.selector();
        meta.create_gate("g", |m| {
            let q = m.query_selector(s);
            let v: Vec<Expression<Zp<P>>> = a.iter().map(|c| m.query_advice(*c, Rotation::cur())).collect();
            let e = match WHICH {
                100 => bool_check(v[0].clone()) - v[3].clone(),
                101 => ternary(v[0].clone(), v[1].clone(), v[2].clone()) - v[3].clone(),
                r => range_check(v[0].clone(), r) - v[3].clone(),
            };
            vec![q * e]
        });
        (a, s)
    }
    fn run(&self, cfg: &Self::Cfg, l: impl Layouter<Zp<P>>) -> Result<Vec<AssignedCell<Zp<P>, Zp<P>>>, Error> {
        with(l, |mut r| {
            cfg.1.enable(&mut r, 0)?;
            cfg.0.iter().map(|c| r.assign_advice(|| "x", *c, 0, || Value::known(Zp(0)))).collect()
        })
    }
}

fn expr<const P: u64, const WHICH: usize>(rec: &mut Rec) {
    rec.label(format!("expression {} over F_{}", WHICH, P));
    rec.case(|rec| {
        let (sh, grid, marks) = lay::<Zp<P>, _>(4, &ExprG::<WHICH>)?;
        let m = Model::<P>::new(&sh.cs, &grid, &marks);
        let visited = m.solve(&[], |at| {
            let v: Vec<u64> = marks.iter().map(|c| at(*c).unwrap().0).collect();
            rec.state(&(WHICH, &v));
            match WHICH {
                101 => {
                    // documented: a*b + (1-a)*c
                    let e = (v[0] * v[1] + (1 + P - v[0]) * v[2]) % P;
                    if v[3] != e {
                        return Err(format!("ternary{:?} is not {}", v, e));
                    }
                }
                w => {
                    let r = if w == 100 { 2 } else { w as u64 };
                    // zero exactly on [0, range)
                    if (v[3] == 0) != (v[0] < r) {
                        return Err(format!("range check of {} for range {} evaluates to {}", v[0], r, v[3]));
                    }
                }
            }
            Ok(())
        })?;
        rec.step(visited);
        Ok(())
    });
}

fn main() {
    mc::main("C22", |ctx| {
        ctx.assume("Gadgets are laid out with the simple floor planner; the meaning of a layout is C16/C17/C10.");
        ctx.assume("Over tiny fields F_p every witness is enumerated; the chips are generic over the field, and the Pasta runs cover field-size effects.");
        ctx.seq("expressions", |rec| {
            expr::<17, 1>(rec);
            expr::<17, 2>(rec);
            expr::<17, 3>(rec);
            expr::<17, 4>(rec);
            expr::<17, 8>(rec);
            expr::<17, 16>(rec);
            expr::<17, 100>(rec);
            expr::<17, 101>(rec);
        });
        ctx.seq("bit helpers", |rec| {
            helpers::<Zp<257>>(rec, &Zp::all().collect::<Vec<_>>());
            let mut v: Vec<Fp> = vec![Fp::zero(), Fp::one(), -Fp::one(), Fp::one().double(), Fp::TWO_INV, Fp::from(0xdead_beef_1234_5678)];
            for i in [31, 32, 63, 64, 65, 127, 128, 191, 192, 253, 254] {
                v.extend([pw2::<Fp>(i), pw2::<Fp>(i) - Fp::one(), -pw2::<Fp>(i)]);
            }
            helpers::<Fp>(rec, &v);
            lebs::<0>(rec);
            lebs::<1>(rec);
            lebs::<3>(rec);
            lebs::<10>(rec);
            lebs::<12>(rec);
            lebs::<32>(rec);
            lebs::<63>(rec);
            lebs::<64>(rec);
        });
        range_exhaustive::<17, 1>(ctx, 4);
        range_exhaustive::<17, 2>(ctx, 2);
        range_exhaustive::<97, 3>(ctx, 2);
        range_exhaustive::<97, 2>(ctx, ctx.pick(2, 3));
        range_exhaustive::<257, 4>(ctx, 2);
        running_exhaustive::<17, 1>(ctx, 4);
        running_exhaustive::<17, 2>(ctx, 2);
        running_exhaustive::<97, 3>(ctx, 2);
        running_exhaustive::<97, 1>(ctx, ctx.pick(5, 6));
        running_exhaustive::<97, 2>(ctx, 3);
        swap_exhaustive::<17>(ctx);
        swap_exhaustive::<13>(ctx);
        pos_exhaustive::<17, 2, 1, 2, 2, 2>(ctx, PMode::Permute, 5, 1);
        pos_exhaustive::<17, 2, 1, 2, 4, 4>(ctx, PMode::Permute, 5, 1);
        pos_exhaustive::<7, 3, 2, 3, 4, 4>(ctx, PMode::Permute, 5, 1);
        pos_exhaustive::<17, 2, 1, 1, 2, 2>(ctx, PMode::Hash, 6, 1);
        pos_exhaustive::<17, 2, 1, 2, 2, 2>(ctx, PMode::Hash, 6, 1);
        pos_exhaustive::<7, 3, 2, 1, 2, 2>(ctx, PMode::Hash, 6, 1);
        pos_exhaustive::<7, 3, 2, 2, 2, 2>(ctx, PMode::Hash, 6, 1);
        pos_exhaustive::<7, 3, 2, 3, 2, 2>(ctx, PMode::Hash, 6, 1);
        pos_exhaustive::<7, 3, 2, 4, 2, 2>(ctx, PMode::Hash, 6, 1);
        if ctx.pick(false, true) {
            pos_exhaustive::<7, 3, 2, 5, 2, 2>(ctx, PMode::Hash, 7, 1);
            pos_exhaustive::<11, 3, 2, 3, 4, 4>(ctx, PMode::Permute, 5, 1);
            pos_exhaustive::<7, 4, 3, 4, 2, 4>(ctx, PMode::Permute, 5, 1);
        }
        pos_exhaustive::<5, 4, 3, 2, 2, 2>(ctx, PMode::Hash, 6, 1);
        pos_exhaustive::<5, 4, 3, 4, 2, 2>(ctx, PMode::Hash, 6, 1);
        pos_exhaustive::<7, 3, 2, 2, 2, 2>(ctx, PMode::Sponge(5), 7, 1);
        pos_exhaustive::<7, 3, 2, 3, 2, 2>(ctx, PMode::Sponge(3), 7, 1);
        real_range::<4>(ctx);
        real_range::<3>(ctx);
        if ctx.pick(false, true) {
            real_range::<10>(ctx);
        }
        let msgs: Vec<[Fp; 3]> = {
            let al = [Fp::zero(), Fp::one(), -Fp::one()];
            let mut v = vec![];
            for a in al {
                for b in al {
                    for c in al {
                        v.push([a, b, c]);
                    }
                }
            }
            v
        };
        ctx.par("Poseidon chip, P128Pow5T3: output and every altered cell", &msgs, |m, rec| {
            rec.label(format!("{:?}", m));
            rec.case(|rec| {
                let g = PosG::<Fp, P128Pow5T3, 3, 2, 3> { input: m.to_vec(), mode: PMode::Hash, _s: PhantomData };
                let (ok, vals) = honest(8, &g)?;
                let e = PHash::<Fp, P128Pow5T3, ConstantLength<3>, 3, 2>::init().hash(*m);
                let (rc, mds, _) = <P128Pow5T3 as Spec<Fp, 3, 2>>::constants();
                let d = ref_sponge::<Fp, 3, 2>(8, 56, &rc, &mds, Fp::from_u128(3 << 64), m, 1)[0];
                if !ok || vals[3] != e || e != d {
                    return Err(format!("accepted {}, chip {:?}, primitive {:?}, definition {:?}", ok, vals[3], e, d));
                }
                faults(rec, 8, &g, &|_, _| false)
            });
        });
    })
}
