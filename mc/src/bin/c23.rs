//! C23: the mock prover's verdict is the circuit's meaning.
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::metadata;
use halo2_proofs::dev::{FailureLocation, MockProver, VerifyFailure};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2curves::bn256::Fr;
use halo2curves::pasta::Fp;
use halo2curves::FieldExt;
use mc::tiny::*;
use mc::tinyset::*;
use mc::*;
use std::collections::HashSet;
use std::sync::Arc;

fn to<F: FieldExt>(i: &[Vec<i64>]) -> Vec<Vec<F>> {
    i.iter().map(|c| c.iter().map(|x| fi(*x)).collect()).collect()
}

/// Cells queried by gates of an enabled selector that the region did not assign: (gate, row of the gate, column, row of the cell)
fn unassigned(t: &Tiny, n: usize) -> HashSet<(usize, usize, Col, usize)> {
    fn cells(e: &Ex, out: &mut Vec<(Col, i32)>, sels: &mut Vec<usize>) {
        match e {
            Ex::Sel(s) => sels.push(*s),
            Ex::F(c, r) => out.push((Col::F(*c), *r)),
            Ex::A(c, r) => out.push((Col::A(*c), *r)),
            Ex::Neg(a) | Ex::Scale(a, _) => cells(a, out, sels),
            Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => {
                cells(a, out, sels);
                cells(b, out, sels);
            }
            _ => {}
        }
    }
    let mut res = HashSet::new();
    for (gi, g) in t.spec.gates.iter().enumerate() {
        let (mut cs, mut sels) = (vec![], vec![]);
        for e in g {
            cells(e, &mut cs, &mut sels);
        }
        for s in sels {
            for (row, on) in t.body.sel[s].iter().enumerate() {
                if !on {
                    continue;
                }
                for (col, rot) in &cs {
                    let r = (row as i64 + *rot as i64).rem_euclid(n as i64) as usize;
                    let have = match col {
                        Col::A(c) => r < t.adv[*c].len(),
                        Col::F(c) => r < t.body.fixed[*c].len(),
                        Col::I(_) => true,
                    };
                    if !have {
                        res.insert((gi, row, *col, r));
                    }
                }
            }
        }
    }
    res
}

fn mock<F: FieldExt>(t: &Tiny, inst: &[Vec<F>], k: u32, un: usize, deep: bool) -> Result<bool, String> {
    set_spec(&t.spec);
    let p = MockProver::run(k, t, inst.to_vec()).map_err(|e| format!("run: {:?}", e))?;
    let rep = p.verify();
    let ch: Vec<F> = plonkref::challenges(t.spec.chals.len(), 99);
    let bad = violated(t, &table(t, inst, &ch, k, un));
    let un_cells = unassigned(t, 1 << k);
    let want = bad.is_empty() && un_cells.is_empty();
    if rep.is_ok() != want {
        return Err(format!("violated by definition: {:?} unassigned {:?}; reported: {:?}", bad, un_cells, rep));
    }
    if let Err(fs) = &rep {
        let mut named: HashSet<Bad> = HashSet::new();
        let mut copies = 0;
        let mut cells = 0;
        for f in fs {
            match f {
                VerifyFailure::ConstraintNotSatisfied { constraint, location, .. } => {
                    let row = match location {
                        FailureLocation::InRegion { offset, .. } => *offset,
                        FailureLocation::OutsideRegion { row } => *row,
                    };
                    let mut hit = false;
                    for b in &bad {
                        if let Bad::Gate(g, q, r) = b {
                            let m: metadata::Constraint = (metadata::Gate::from((*g, "gate")), *q, "").into();
                            if m == *constraint && *r == row {
                                named.insert(b.clone());
                                hit = true;
                            }
                        }
                    }
                    if !hit {
                        return Err(format!("reported {:?}, which is not violated: {:?}", f, bad));
                    }
                }
                VerifyFailure::Lookup { lookup_index, location, .. } => {
                    let row = match location {
                        FailureLocation::InRegion { offset, .. } => *offset,
                        FailureLocation::OutsideRegion { row } => *row,
                    };
                    let b = Bad::Lookup(*lookup_index, row);
                    if !bad.contains(&b) {
                        return Err(format!("reported {:?}, which is not violated: {:?}", f, bad));
                    }
                    named.insert(b);
                }
                VerifyFailure::Permutation { .. } => {
                    copies += 1;
                }
                VerifyFailure::CellNotAssigned { .. } => cells += 1,
                VerifyFailure::ConstraintPoisoned { .. } => {
                    if un_cells.is_empty() {
                        return Err(format!("poisoned constraint although no gate leaves the usable rows: {:?}", f));
                    }
                }
            }
        }
        for b in &bad {
            match b {
                Bad::Copy(_) => {
                    if copies == 0 {
                        return Err(format!("{:?} is violated but no copy is reported", b));
                    }
                }
                _ => {
                    if !named.contains(b) {
                        return Err(format!("{:?} is violated but not reported: {:?}", b, fs));
                    }
                }
            }
        }
        if copies > 0 && !bad.iter().any(|b| matches!(b, Bad::Copy(_))) {
            return Err(format!("a copy is reported but none is violated: {:?}", fs));
        }
        if (cells > 0) != !un_cells.is_empty() {
            return Err(format!("unassigned cells: {:?}; reported {:?}", un_cells, fs));
        }
    }
    if deep {
        if p.verify_par().is_ok() != want {
            return Err("verify_par disagrees with verify".into());
        }
        if guard(|| p.assert_satisfied()).is_ok() != want || guard(|| p.assert_satisfied_par()).is_ok() != want {
            return Err("assert_satisfied disagrees with verify".into());
        }
        // any choice of rows: only the constraints on those rows count
        let usable = (1usize << k) - un;
        for rows in [vec![0usize], vec![1, 2], (3..usable).collect(), vec![]] {
            let w = un_cells.is_empty()
                && !bad.iter().any(|b| match b {
                    Bad::Gate(_, _, r) | Bad::Lookup(_, r) => rows.contains(r),
                    Bad::Copy(_) => true,
                });
            let a = p.verify_at_rows(rows.clone().into_iter(), rows.clone().into_iter()).is_ok();
            let b = p.verify_at_rows_par(rows.clone().into_iter(), rows.clone().into_iter()).is_ok();
            if a != w || b != w {
                return Err(format!("rows {:?}: by definition {}, verify_at_rows {}, in parallel {}", rows, w, a, b));
            }
        }
    }
    Ok(want)
}

// ---- the edges of the usable rows

#[derive(Clone, Debug)]
enum Touch {
    Advice(usize),
    Fixed(usize),
    Selector(usize),
    /// constrain the cell in row 0 to equal this instance row
    Public(usize),
    /// read this instance row into the circuit
    Read(usize),
    /// a table of so many rows
    Table(usize),
    /// an instance column of so many values
    Instance(usize),
}
#[derive(Clone)]
struct Edge {
    table: Vec<u64>,
    inputs: Vec<(usize, u64)>,
    touch: Vec<Touch>,
}
#[derive(Clone)]
struct EdgeCfg {
    a: Column<Advice>,
    f: Column<Fixed>,
    i: Column<Instance>,
    s: Selector,
    t: TableColumn,
}
impl<F: FieldExt> Circuit<F> for Edge {
    type Config = EdgeCfg;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(m: &mut ConstraintSystem<F>) -> EdgeCfg {
        let (a, f, i, t) = (m.advice_column(), m.fixed_column(), m.instance_column(), m.lookup_table_column());
        let s = m.complex_selector();
        m.enable_equality(a);
        m.enable_equality(i);
        m.lookup("l", |m| {
            let s = m.query_selector(s);
            // 1 is in every table
            let one = Expression::Constant(F::one());
            let x = s.clone() * m.query_advice(a, Rotation::cur()) + (one - s);
            vec![(x, t)]
        });
        EdgeCfg { a, f, i, s, t }
    }
    fn synthesize(&self, c: EdgeCfg, mut l: impl Layouter<F>) -> Result<(), Error> {
        let table = self.touch.iter().find_map(|t| if let Touch::Table(n) = t { Some(vec![1; *n]) } else { None }).unwrap_or_else(|| self.table.clone());
        l.assign_table(
            || "t",
            |mut t| {
                for (i, x) in table.iter().enumerate() {
                    t.assign_cell(|| "", c.t, i, || Value::known(F::from(*x)))?;
                }
                Ok(())
            },
        )?;
        let first = l.assign_region(
            || "r",
            |mut r| {
                let first = r.assign_advice(|| "", c.a, 0, || Value::known(F::from(1)))?;
                for (row, x) in &self.inputs {
                    c.s.enable(&mut r, *row)?;
                    r.assign_advice(|| "", c.a, *row, || Value::known(F::from(*x)))?;
                }
                for t in &self.touch {
                    match t {
                        Touch::Advice(row) => {
                            r.assign_advice(|| "", c.a, *row, || Value::known(F::from(1)))?;
                        }
                        Touch::Fixed(row) => {
                            r.assign_fixed(|| "", c.f, *row, || Value::known(F::from(1)))?;
                        }
                        Touch::Selector(row) => {
                            // the value that the selected lookup reads
                            r.assign_advice(|| "", c.a, *row, || Value::known(F::from(1)))?;
                            c.s.enable(&mut r, *row)?;
                        }
                        Touch::Read(row) => {
                            r.assign_advice_from_instance(|| "", c.i, *row, c.a, 1)?;
                        }
                        _ => {}
                    }
                }
                Ok(first)
            },
        )?;
        for t in &self.touch {
            if let Touch::Public(row) = t {
                l.constrain_instance(first.cell(), c.i, *row)?;
            }
        }
        Ok(())
    }
}

fn edges(c: &Ctx) {
    let mut cs = ConstraintSystem::<Fr>::default();
    <Edge as Circuit<Fr>>::configure(&mut cs);
    let un = cs.blinding_factors() + 1;
    for k in [4u32, 5, 6] {
        let n = 1usize << k;
        let u = n - un;
        c.seq(&format!("rows at the edge, k={}", k), |r| {
            let mut one = |r: &mut Rec, e: Edge, inst: usize, fits: bool, want: bool| {
                r.label(format!("k={} table {:?} inputs {:?} touching {:?}, {} public values, {} usable rows", k, e.table, e.inputs, e.touch, inst, u));
                r.state(&(k, &e.table, &e.inputs, format!("{:?}", e.touch), inst));
                r.step(1);
                r.case(|r| {
                    let p = MockProver::run(k, &e, vec![vec![Fr::one(); inst]]);
                    match (p, fits) {
                        (Err(_), false) => r.outcome("refused"),
                        (Err(x), true) => return Err(format!("refused: {:?}", x)),
                        (Ok(_), false) => return Err("a layout beyond the usable rows is accepted".into()),
                        (Ok(p), true) => {
                            let got = p.verify();
                            if got.is_ok() != want || p.verify_par().is_ok() != want {
                                return Err(format!("by definition {}, reported {:?}", want, got));
                            }
                            r.outcome(if want { "edge satisfied" } else { "edge unsatisfied" });
                        }
                    }
                    Ok(())
                });
            };
            let t = vec![1u64];
            for row in [0, 1, u / 2, u - 2, u - 1, u, u + 1, n - 1, n, n + 1, 2 * n] {
                let e = |x: Touch| Edge { table: t.clone(), inputs: vec![], touch: vec![x] };
                one(r, e(Touch::Advice(row)), u, row < u, true);
                one(r, e(Touch::Fixed(row)), u, row < u, true);
                one(r, e(Touch::Selector(row)), u, row < u, true);
                one(r, e(Touch::Public(row)), u, row < u, true);
                one(r, e(Touch::Public(row)), 1, row < u, row < 1);
                one(r, e(Touch::Read(row)), u, row < u, true);
                one(r, e(Touch::Instance(row)), row, row <= u, true);
                // (a table that fills all usable rows leaves no row for the default; keygen and mock prover refuse it)
                if row > 0 && row != u {
                    one(r, e(Touch::Table(row)), 0, row <= u, true);
                }
            }
            // tables of every length, filled with their first entry; one input in every row
            for len in 1..=5.min(u) {
                for start in [1u64, 0] {
                    let table: Vec<u64> = if start == 1 { (1..=len as u64).collect() } else { [1].iter().cloned().chain((0..len as u64).filter(|x| *x != 1)).collect() };
                    for row in 0..u {
                        for x in 0..7u64 {
                            if row > 2 && row + 2 < u && row != u / 2 && x != 0 {
                                continue;
                            }
                            let e = Edge { table: table.clone(), inputs: vec![(row, x)], touch: vec![] };
                            one(r, e, 0, true, table.contains(&x));
                        }
                    }
                }
            }
        });
    }
}

fn main() {
    mc::main("C23", |c| {
        edges(c);
        let fams = families();
        let un: Vec<usize> = fams.iter().map(|f| unusable::<Fr>(&f.spec)).collect();
        let mut jobs: Vec<(usize, usize)> = vec![];
        for (i, f) in fams.iter().enumerate() {
            for a in 0..f.count() {
                jobs.push((i, a));
            }
        }
        c.par("verdicts", &jobs, |(i, a), r| {
            let f = &fams[*i];
            let (t, inst) = f.get(*a);
            r.label(format!("{} assignment {}", f.name, a));
            r.case(|r| {
                let w = mock::<Fr>(&t, &to(&inst), f.k, un[*i], true)?;
                if mock::<Fp>(&t, &to(&inst), f.k, un[*i], false)? != w {
                    return Err("verdict depends on the field".into());
                }
                r.state(&(&f.name, a));
                r.outcome(if w { "satisfied" } else { "unsatisfied" });
                if *a < 2 {
                    r.sample(|| format!("{} assignment {}: satisfied={}", f.name, a, w));
                }
                Ok(())
            });
        });
        // a cell that an active gate uses is left unassigned
        c.seq("unassigned", |r| {
            for (i, f) in fams.iter().enumerate() {
                let a = (0..f.count()).find(|a| {
                    let (t, inst) = f.get(*a);
                    sat::<Fr>(&t, &to(&inst), f.k, un[i])
                });
                let (t, inst) = f.get(a.unwrap_or(0));
                for col in 0..t.adv.len() {
                    for keep in 0..t.adv[col].len() {
                        let mut u = t.clone();
                        u.adv[col].truncate(keep);
                        // copies of cells that do not exist cannot be written down
                        if u.body.copies.iter().any(|(x, y)| [x, y].iter().any(|(cc, r)| *cc == Col::A(col) && *r >= keep)) {
                            continue;
                        }
                        r.label(format!("{} column {} cut to {} rows", f.name, col, keep));
                        r.case(|r| {
                            let w = mock::<Fr>(&u, &to(&inst), f.k, un[i], true)?;
                            r.outcome(if w { "cut column satisfied" } else { "cut column refused" });
                            Ok(())
                        });
                    }
                }
            }
        });
        // expression trees: right value accepted, wrong value named
        let d1 = depth1();
        let mut es = d1.clone();
        let nl = leaves().len();
        for (i, a) in d1.iter().enumerate() {
            es.push(-a.clone());
            es.push(a.clone().scale(3));
            for (j, b) in d1.iter().enumerate() {
                if c.thorough() || j < nl || i < nl || i == j {
                    es.push(a.clone() + b.clone());
                    es.push(a.clone() - b.clone());
                    es.push(a.clone() * b.clone());
                }
            }
        }
        let batch: Vec<Vec<Ex>> = es.chunks(16).map(|x| x.to_vec()).collect();
        c.par("expressions", &batch, |es, r| {
            // none wrong; all wrong; those wrong whose number has a given bit, or does not have it
            for wrong in 0..10usize {
                let is = |i: usize| match wrong {
                    0 => false,
                    1 => true,
                    w => (i >> ((w - 2) / 2)) & 1 == w & 1,
                };
                if wrong > 1 && wrong % 2 == 0 && !c.thorough() {
                    continue;
                }
                r.label(format!("expressions {:?} wrong {:?}", es, (0..es.len()).filter(|i| is(*i)).collect::<Vec<_>>()));
                r.case(|r| {
                    let (mut t, inst) = expr_gates(es);
                    for i in (0..es.len()).filter(|i| is(*i)) {
                        t.adv[2 + i][2] = vx(&(es[i].clone() + Ex::C(1)));
                    }
                    let inst: Vec<Vec<Fr>> = to(&inst);
                    let w = mock::<Fr>(&t, &inst, 4, 6, false)?;
                    if w == (0..es.len()).any(is) {
                        return Err("the oracle's own verdict is off".into());
                    }
                    r.state(&(es, wrong));
                    Ok(())
                });
            }
        });
        // lookups whose tables differ in one thing only, one after the other
        c.seq("table-identity", |r| {
            let tabs = [Ex::F(0, 0), Ex::F(0, 1), Ex::F(1, 0), Ex::A(0, 0), Ex::A(0, 1), Ex::I(0, 0), Ex::I(0, 1), -Ex::F(0, 0), Ex::F(0, 0).scale(2), Ex::F(0, 0) + Ex::F(1, 0), Ex::F(0, 0) * Ex::F(1, 0), Ex::F(0, 0) - Ex::F(1, 0), Ex::F(0, 0).scale(3)];
            for (i, a) in tabs.iter().enumerate() {
                for (j, b) in tabs.iter().enumerate() {
                    for x in -4..8i64 {
                        for y in [-2i64, 0, 3, 4, 6] {
                            let spec = Arc::new(Spec {
                                adv: vec![0, 0, 0],
                                nfix: 2,
                                ninst: 1,
                                sels: vec![true],
                                lookups: vec![vec![(Ex::Sel(0) * Ex::A(1, 0), a.clone())], vec![(Ex::Sel(0) * Ex::A(2, 0), b.clone())]],
                                ..Default::default()
                            });
                            let body = Arc::new(Body { fixed: vec![vec![0, 2, 1, 0], vec![0, 1, 3, 0]], sel: vec![vec![true]], copies: vec![] });
                            let t = Tiny { spec: spec.clone(), body, adv: vec![vec![v(5), v(6), v(0), v(0), v(0), v(0), v(0), v(0), v(0), v(0)], vec![v(x)], vec![v(y)]], inst: vec![], known: true };
                            r.label(format!("tables {:?} then {:?}, inputs {} {}", a, b, x, y));
                            r.case(|r| {
                                let inst: Vec<Vec<Fr>> = vec![vec![fi(0), fi(7), fi(4)]];
                                let w = mock::<Fr>(&t, &inst, 4, unusable::<Fr>(&spec), (x + y) % 3 == 0)?;
                                r.outcome(if w { "lookup held" } else { "lookup failed" });
                                r.state(&(i, j, x, y));
                                Ok(())
                            });
                        }
                    }
                }
            }
        });
        // copy graphs, every assignment over two values
        let edges = copy_edges();
        let mut graphs: Vec<Vec<(usize, usize)>> = vec![vec![]];
        let mut layer: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for _ in 0..c.pick(2, 3) {
            layer = layer.iter().flat_map(|g| edges.iter().map(move |e| g.iter().copied().chain([*e]).collect::<Vec<_>>())).collect();
            graphs.extend(layer.iter().cloned());
        }
        for tree in [[(0, 1), (2, 3), (1, 2), (4, 5), (0, 5)], [(0, 1), (1, 2), (2, 3), (3, 5), (0, 4)], [(0, 1), (1, 0), (0, 1), (2, 3), (1, 3)]] {
            for p in util::permutations(5) {
                graphs.push(p.iter().map(|i| tree[*i]).collect());
            }
        }
        c.par("copies", &graphs, |g, r| {
            let spec = Arc::new(Spec { adv: vec![0, 0], nfix: 1, ninst: 1, eq: vec![Col::A(0), Col::A(1), Col::F(0), Col::I(0)], ..Default::default() });
            let body = Arc::new(Body { fixed: vec![vec![1]], copies: g.iter().map(|(a, b)| (COPY_CELLS[*a], COPY_CELLS[*b])).collect(), ..Default::default() });
            for w in 0..32usize {
                r.label(format!("copies {:?} values {:05b}", g, w));
                r.case(|r| {
                    let mut adv = vec![vec![v(0); 8]; 2];
                    for (i, (col, row)) in COPY_CELLS.iter().enumerate() {
                        if let Col::A(k) = col {
                            adv[*k][*row] = v(((w >> i) & 1) as i64);
                        }
                    }
                    let t = Tiny { spec: spec.clone(), body: body.clone(), adv, inst: vec![], known: true };
                    let inst: Vec<Vec<Fr>> = vec![vec![fi(0), fi((w >> 4) as i64 & 1)]];
                    let ok = mock::<Fr>(&t, &inst, 4, 6, w == 21)?;
                    r.outcome(if ok { "copies hold" } else { "copies violated" });
                    r.state(&(g, w));
                    Ok(())
                });
            }
        });
    })
}
