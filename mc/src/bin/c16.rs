//! C16: floor planners place regions without overlap and keep everything a region says.
use ff::Field;
use halo2_proofs::circuit::{floor_planner, Cell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2curves::bn256::Fr;
use mc::prove::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::Arc;

/// A column of the test circuit.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum K {
    A(usize),
    F(usize),
    S(usize),
    I,
    T(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Do {
    /// assign a value (or enable a selector) at an offset
    Put(K, usize),
    /// assign an advice cell from a constant
    Const(usize, usize, u64),
    /// assign an advice cell from an instance cell
    Inst(usize, usize, usize),
    /// copy the n-th cell of the circuit into an advice cell
    Copy(usize, usize, usize),
    /// two cells of the circuit are equal
    Equal(usize, usize),
    /// a cell of the circuit is constant
    Fix(usize, u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Item {
    Region(Vec<Do>),
    /// (column, offset, value)
    Table(Vec<(usize, usize, u64)>),
    /// n-th cell, instance row
    Public(usize, usize),
}
type Prog = Vec<Item>;

#[derive(Clone, Debug)]
struct Cfg {
    a: Vec<Column<Advice>>,
    f: Vec<Column<Fixed>>,
    s: Vec<Selector>,
    i: Column<Instance>,
    t: Vec<TableColumn>,
}
struct Lay<P> {
    prog: Arc<Prog>,
    _p: PhantomData<P>,
}
fn lay<P>(p: &Prog) -> Lay<P> {
    Lay { prog: Arc::new(p.clone()), _p: PhantomData }
}
/// value written by operation `op` of region `reg`
fn val(reg: usize, op: usize) -> u64 {
    1000 * (reg as u64 + 1) + op as u64
}

impl<P: FloorPlanner> Circuit<Fr> for Lay<P> {
    type Config = Cfg;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Lay { prog: self.prog.clone(), _p: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<Fr>) -> Cfg {
        let a: Vec<_> = (0..3).map(|_| m.advice_column()).collect();
        let f: Vec<_> = (0..3).map(|_| m.fixed_column()).collect();
        let s = vec![m.selector(), m.complex_selector()];
        let i = m.instance_column();
        let t: Vec<_> = (0..2).map(|_| m.lookup_table_column()).collect();
        for x in &a {
            m.enable_equality(*x);
        }
        for x in &f {
            m.enable_equality(*x);
        }
        m.enable_equality(i);
        m.enable_constant(f[0]);
        // the columns take part in the circuit, without constraining it
        m.create_gate("g", |m| {
            let mut e = m.query_selector(s[0]);
            let q: Vec<_> = a.iter().map(|x| m.query_advice(*x, halo2_proofs::poly::Rotation::cur())).collect();
            e = e * (q[0].clone() * q[1].clone() * q[2].clone() - q[2].clone() * q[1].clone() * q[0].clone());
            vec![e]
        });
        m.lookup("l", |m| {
            let z = m.query_selector(s[1]);
            vec![(z.clone() * Expression::Constant(Fr::zero()), t[0]), (z * Expression::Constant(Fr::zero()), t[1])]
        });
        Cfg { a, f, s, i, t }
    }
    fn synthesize(&self, c: Cfg, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        let cells: RefCell<Vec<Cell>> = RefCell::new(vec![]);
        for (n, item) in self.prog.iter().enumerate() {
            match item {
                Item::Region(ops) => {
                    let base = cells.borrow().len();
                    l.assign_region(
                        || format!("{}", n),
                        |mut r| {
                            let mut cs = cells.borrow_mut();
                            cs.truncate(base);
                            for (o, d) in ops.iter().enumerate() {
                                let v = Fr::from(val(n, o));
                                match d {
                                    Do::Put(K::A(i), off) => cs.push(r.assign_advice(|| "", c.a[*i], *off, || Value::known(v))?.cell()),
                                    Do::Put(K::F(i), off) => cs.push(r.assign_fixed(|| "", c.f[*i], *off, || Value::known(v))?.cell()),
                                    Do::Put(K::S(i), off) => c.s[*i].enable(&mut r, *off)?,
                                    Do::Put(..) => unreachable!(),
                                    Do::Const(i, off, x) => cs.push(r.assign_advice_from_constant(|| "", c.a[*i], *off, Fr::from(*x))?.cell()),
                                    Do::Inst(i, off, row) => cs.push(r.assign_advice_from_instance(|| "", c.i, *row, c.a[*i], *off)?.cell()),
                                    Do::Copy(i, off, k) => {
                                        let x = r.assign_advice(|| "", c.a[*i], *off, || Value::known(v))?.cell();
                                        r.constrain_equal(cs[*k], x)?;
                                        cs.push(x);
                                    }
                                    Do::Equal(x, y) => r.constrain_equal(cs[*x], cs[*y])?,
                                    Do::Fix(x, v) => r.constrain_constant(cs[*x], Fr::from(*v))?,
                                }
                            }
                            Ok(())
                        },
                    )?;
                }
                Item::Table(ops) => l.assign_table(
                    || format!("{}", n),
                    |mut t| {
                        for (col, off, v) in ops {
                            t.assign_cell(|| "", c.t[*col], *off, || Value::known(Fr::from(*v)))?;
                        }
                        Ok(())
                    },
                )?,
                Item::Public(k, row) => l.constrain_instance(cells.borrow()[*k], c.i, *row)?,
            }
        }
        Ok(())
    }
}

/// What the floor planner told the constraint system.
#[derive(Default)]
struct Seen {
    stack: Vec<usize>,
    /// region, column, row, value
    puts: Vec<(Option<usize>, K, usize, Option<Fr>)>,
    copies: Vec<((K, usize), (K, usize))>,
    fills: Vec<(K, usize, Option<Fr>)>,
    unbalanced: bool,
}
struct Recd<'a> {
    cfg: &'a Cfg,
    tcols: &'a [Column<Any>],
    s: Seen,
}
impl<'a> Recd<'a> {
    fn k(&self, c: Column<Any>) -> K {
        let any = |x: Column<Any>| x == c;
        if let Some(i) = self.cfg.a.iter().position(|x| any((*x).into())) {
            return K::A(i);
        }
        if let Some(i) = self.cfg.f.iter().position(|x| any((*x).into())) {
            return K::F(i);
        }
        if any(self.cfg.i.into()) {
            return K::I;
        }
        if let Some(i) = self.tcols.iter().position(|x| *x == c) {
            return K::T(i);
        }
        panic!("unknown column {:?}", c)
    }
}
fn out<V>(v: Value<V>) -> Option<V> {
    let mut o = None;
    v.map(|x| o = Some(x));
    o
}
impl<'a> Assignment<Fr> for Recd<'a> {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        if !self.s.stack.is_empty() {
            self.s.unbalanced = true;
        }
        let name: String = n().into();
        self.s.stack.push(name.parse().unwrap());
    }
    fn annotate_column<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, _: Column<Any>) {}
    fn exit_region(&mut self) {
        if self.s.stack.pop().is_none() {
            self.s.unbalanced = true;
        }
    }
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error> {
        let i = self.cfg.s.iter().position(|x| x == s).unwrap();
        self.s.puts.push((self.s.stack.last().copied(), K::S(i), row, None));
        Ok(())
    }
    fn query_instance(&self, _: Column<Instance>, row: usize) -> Result<Value<Fr>, Error> {
        Ok(Value::known(Fr::from(500 + row as u64)))
    }
    fn assign_advice<V: FnOnce() -> Value<VR>, VR: Into<Assigned<Fr>>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error> {
        let v = out(to()).map(|x| x.into().evaluate());
        let k = self.k(c.into());
        self.s.puts.push((self.s.stack.last().copied(), k, row, v));
        Ok(())
    }
    fn assign_fixed<V: FnOnce() -> Value<VR>, VR: Into<Assigned<Fr>>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error> {
        let v = out(to()).map(|x| x.into().evaluate());
        let k = self.k(c.into());
        self.s.puts.push((self.s.stack.last().copied(), k, row, v));
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        let (a, b) = ((self.k(lc), lr), (self.k(rc), rr));
        self.s.copies.push(if a <= b { (a, b) } else { (b, a) });
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<Fr>>) -> Result<(), Error> {
        let k = self.k(c.into());
        self.s.fills.push((k, row, out(to).map(|x| x.evaluate())));
        Ok(())
    }
    fn get_challenge(&self, _: Challenge) -> Value<Fr> {
        Value::unknown()
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn pop_namespace(&mut self, _: Option<String>) {}
}

struct Env {
    cs_cfg: Cfg,
    tcols: Vec<Column<Any>>,
}
fn env() -> Env {
    let mut m = ConstraintSystem::<Fr>::default();
    let cfg = <Lay<SimpleFloorPlanner> as Circuit<Fr>>::configure(&mut m);
    // the fixed columns behind the table columns: learnt by assigning them
    struct Learn(Vec<Column<Any>>);
    impl Assignment<Fr> for Learn {
        fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
        fn annotate_column<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, _: Column<Any>) {}
        fn exit_region(&mut self) {}
        fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, _: &Selector, _: usize) -> Result<(), Error> {
            Ok(())
        }
        fn query_instance(&self, _: Column<Instance>, _: usize) -> Result<Value<Fr>, Error> {
            Ok(Value::unknown())
        }
        fn assign_advice<V: FnOnce() -> Value<VR>, VR: Into<Assigned<Fr>>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, _: Column<Advice>, _: usize, _: V) -> Result<(), Error> {
            Ok(())
        }
        fn assign_fixed<V: FnOnce() -> Value<VR>, VR: Into<Assigned<Fr>>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, c: Column<Fixed>, _: usize, to: V) -> Result<(), Error> {
            to();
            self.0.push(c.into());
            Ok(())
        }
        fn copy(&mut self, _: Column<Any>, _: usize, _: Column<Any>, _: usize) -> Result<(), Error> {
            Ok(())
        }
        fn fill_from_row(&mut self, _: Column<Fixed>, _: usize, _: Value<Assigned<Fr>>) -> Result<(), Error> {
            Ok(())
        }
        fn get_challenge(&self, _: Challenge) -> Value<Fr> {
            Value::unknown()
        }
        fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
        fn pop_namespace(&mut self, _: Option<String>) {}
    }
    let mut l = Learn(vec![]);
    let p: Prog = vec![Item::Table(vec![(0, 0, 1), (1, 0, 1)])];
    SimpleFloorPlanner::synthesize(&mut l, &lay::<SimpleFloorPlanner>(&p), cfg.clone(), vec![]).expect("table");
    assert_eq!(l.0.len(), 2);
    Env { cs_cfg: cfg, tcols: l.0 }
}

/// Whether the tables of the program are well formed.
fn tables_ok(p: &Prog) -> bool {
    let mut used: Vec<usize> = vec![];
    for item in p {
        if let Item::Table(ops) = item {
            let mut cells: BTreeMap<usize, BTreeMap<usize, u64>> = BTreeMap::new();
            for (c, o, v) in ops {
                if used.contains(c) || cells.entry(*c).or_default().insert(*o, *v).is_some() {
                    return false;
                }
            }
            if cells.is_empty() {
                return false;
            }
            let n = cells.values().next().unwrap().len();
            if cells.values().any(|m| m.len() != n || m.keys().copied().collect::<Vec<_>>() != (0..n).collect::<Vec<_>>()) {
                return false;
            }
            used.extend(cells.keys());
        }
    }
    true
}

fn judge<P: FloorPlanner>(e: &Env, p: &Prog, constants: &[usize], r: &mut Rec) -> Result<(), String> {
    let mut rec = Recd { cfg: &e.cs_cfg, tcols: &e.tcols, s: Seen::default() };
    let consts = constants.iter().map(|i| e.cs_cfg.f[*i]).collect();
    let res = P::synthesize(&mut rec, &lay::<P>(p), e.cs_cfg.clone(), consts);
    let s = rec.s;
    let tok = tables_ok(p);
    if res.is_err() && !tok {
        r.outcome("malformed table refused");
        return Ok(());
    }
    if res.is_ok() && !tok {
        return Err("malformed table accepted".into());
    }
    if res.is_ok() && (s.unbalanced || !s.stack.is_empty()) {
        return Err("regions entered and left out of step".into());
    }
    let nconst: usize = p.iter().map(|i| if let Item::Region(o) = i { o.iter().filter(|d| matches!(d, Do::Const(..) | Do::Fix(..))).count() } else { 0 }).sum();
    if res.is_err() && nconst > 0 && constants.is_empty() {
        r.outcome("no column for constants");
        return Ok(());
    }
    // where is each region?
    let mut starts: BTreeMap<usize, usize> = BTreeMap::new();
    let mut extent: BTreeMap<usize, (Vec<K>, usize)> = BTreeMap::new(); // columns, rows
    let mut want_puts: Vec<(Option<usize>, K, usize, Option<Fr>)> = vec![];
    for (n, item) in p.iter().enumerate() {
        match item {
            Item::Region(ops) => {
                let mine: Vec<_> = s.puts.iter().filter(|x| x.0 == Some(n)).collect();
                let mut at = 0;
                for (o, d) in ops.iter().enumerate() {
                    let (k, off, v) = match d {
                        Do::Put(K::S(i), off) => (K::S(*i), *off, None),
                        Do::Put(k, off) => (*k, *off, Some(Fr::from(val(n, o)))),
                        Do::Const(i, off, x) => (K::A(*i), *off, Some(Fr::from(*x))),
                        Do::Inst(i, off, row) => (K::A(*i), *off, Some(Fr::from(500 + *row as u64))),
                        Do::Copy(i, off, _) => (K::A(*i), *off, Some(Fr::from(val(n, o)))),
                        Do::Equal(..) | Do::Fix(..) => continue,
                    };
                    let x = extent.entry(n).or_default();
                    x.0.push(k);
                    x.1 = x.1.max(off + 1);
                    let Some(got) = mine.get(at) else {
                        return Err(format!("region {}: an assignment is missing", n));
                    };
                    at += 1;
                    let st = *starts.entry(n).or_insert_with(|| got.2.wrapping_sub(off));
                    if got.1 != k || got.2 != st.wrapping_add(off) || got.3 != v {
                        return Err(format!("region {} operation {}: recorded {:?}, expected {:?} at {} + {} value {:?}", n, o, got, k, st, off, v));
                    }
                    want_puts.push((Some(n), k, st + off, v));
                }
                if at != mine.len() {
                    return Err(format!("region {}: assignments that were not made", n));
                }
            }
            Item::Table(ops) => {
                for (c, o, v) in ops {
                    want_puts.push((Some(n), K::T(*c), *o, Some(Fr::from(*v))));
                }
            }
            Item::Public(..) => {}
        }
    }
    // no overlap
    let list: Vec<(usize, usize, usize, Vec<K>)> = extent.iter().map(|(n, (c, h))| (*n, starts[n], starts[n] + h, c.clone())).collect();
    for (i, a) in list.iter().enumerate() {
        for b in &list[..i] {
            if a.1 < b.2 && b.1 < a.2 && a.3.iter().any(|k| b.3.contains(k)) {
                return Err(format!("regions {} (rows {}..{}) and {} (rows {}..{}) overlap in a column", a.0, a.1, a.2, b.0, b.1, b.2));
            }
        }
    }
    if let Err(err) = res {
        // only constants may fail to fit here
        let end = list.iter().map(|x| x.2).max().unwrap_or(0);
        let free: usize = constants
            .iter()
            .map(|c| end - (0..end).filter(|row| list.iter().any(|x| x.3.contains(&K::F(*c)) && x.1 <= *row && *row < x.2)).count())
            .sum();
        if nconst > 0 && free < nconst {
            r.outcome("no room for constants");
            return Ok(());
        }
        return Err(format!("refused although everything fits: {:?}", err));
    }
    // everything that was assigned
    let mut got: Vec<_> = s.puts.iter().filter(|x| x.0.is_some()).cloned().collect();
    got.sort_by_key(|x| (x.0, x.1, x.2, format!("{:?}", x.3)));
    want_puts.sort_by_key(|x| (x.0, x.1, x.2, format!("{:?}", x.3)));
    if got != want_puts {
        return Err(format!("assignments differ: {:?} instead of {:?}", got, want_puts));
    }
    // copies
    let mut cells: Vec<(K, usize)> = vec![];
    let mut want_copies: Vec<((K, usize), (K, usize))> = vec![];
    let mut want_const: Vec<((K, usize), u64)> = vec![];
    let pair = |a: (K, usize), b: (K, usize)| if a <= b { (a, b) } else { (b, a) };
    for (n, item) in p.iter().enumerate() {
        match item {
            Item::Region(ops) => {
                let st = starts.get(&n).copied().unwrap_or(0);
                for d in ops {
                    match d {
                        Do::Put(K::S(_), _) => {}
                        Do::Put(k, off) => cells.push((*k, st + off)),
                        Do::Const(i, off, v) => {
                            cells.push((K::A(*i), st + off));
                            want_const.push((*cells.last().unwrap(), *v));
                        }
                        Do::Inst(i, off, row) => {
                            cells.push((K::A(*i), st + off));
                            want_copies.push(pair(*cells.last().unwrap(), (K::I, *row)));
                        }
                        Do::Copy(i, off, k) => {
                            let x = (K::A(*i), st + off);
                            want_copies.push(pair(x, cells[*k]));
                            cells.push(x);
                        }
                        Do::Equal(x, y) => want_copies.push(pair(cells[*x], cells[*y])),
                        Do::Fix(x, v) => want_const.push((cells[*x], *v)),
                    }
                }
            }
            Item::Public(k, row) => want_copies.push(pair(cells[*k], (K::I, *row))),
            _ => {}
        }
    }
    let mut left = s.copies.clone();
    for w in &want_copies {
        match left.iter().position(|x| x == w) {
            Some(i) => {
                left.remove(i);
            }
            None => return Err(format!("copy {:?} is missing", w)),
        }
    }
    // constants: cells of the constant columns, of their own
    let mut fixed: BTreeMap<(K, usize), Fr> = BTreeMap::new();
    for (reg, k, row, v) in s.puts.iter().filter(|x| x.0.is_none()) {
        let _ = reg;
        let Some(v) = v else { return Err("constant without a value".into()) };
        if !constants.iter().any(|c| K::F(*c) == *k) {
            return Err(format!("{:?} assigned outside of regions", k));
        }
        if list.iter().any(|x| x.3.contains(k) && x.1 <= *row && *row < x.2) {
            return Err(format!("a constant lies in a region's rows: {:?} row {}", k, row));
        }
        if fixed.insert((*k, *row), *v).map(|o| o != *v).unwrap_or(false) {
            return Err(format!("two constants share {:?} row {}", k, row));
        }
    }
    for (cell, v) in &want_const {
        let found = left.iter().position(|(a, b)| (a == cell && fixed.get(b) == Some(&Fr::from(*v))) || (b == cell && fixed.get(a) == Some(&Fr::from(*v))));
        match found {
            Some(i) => {
                left.remove(i);
            }
            None => return Err(format!("cell {:?} is not bound to the constant {}", cell, v)),
        }
    }
    if !left.is_empty() {
        return Err(format!("copies nobody asked for: {:?}", left));
    }
    // tables: rest of the column filled with the first row's value
    let mut want: Vec<(K, usize, Option<Fr>)> = vec![];
    for item in p {
        if let Item::Table(ops) = item {
            let mut cols: Vec<usize> = ops.iter().map(|x| x.0).collect();
            cols.sort();
            cols.dedup();
            for c in cols {
                let n = ops.iter().filter(|x| x.0 == c).count();
                let v = ops.iter().find(|x| x.0 == c && x.1 == 0).unwrap().2;
                want.push((K::T(c), n, Some(Fr::from(v))));
            }
        }
    }
    let mut fills = s.fills.clone();
    fills.sort_by_key(|x| (x.0, x.1));
    want.sort_by_key(|x| (x.0, x.1));
    if fills != want {
        return Err(format!("fills {:?} instead of {:?}", fills, want));
    }
    r.outcome("laid out");
    r.state(&(std::any::type_name::<P>(), list));
    Ok(())
}

fn both(e: &Env, p: &Prog, constants: &[usize], r: &mut Rec) {
    r.label(format!("simple, constants {:?}: {:?}", constants, p));
    r.case(|r| judge::<SimpleFloorPlanner>(e, p, constants, r));
    r.label(format!("v1, constants {:?}: {:?}", constants, p));
    r.case(|r| judge::<floor_planner::V1>(e, p, constants, r));
}

/// Region shapes: which of four columns, how high, and how filled.
fn shapes(cols: &[K], heights: &[usize], fills: &[usize]) -> Vec<Vec<Do>> {
    let mut out = vec![];
    for set in 1..1usize << cols.len() {
        for h in heights {
            for f in fills {
                if *h == 1 && *f != fills[0] {
                    continue;
                }
                let mut ops = vec![];
                for (i, k) in cols.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1) {
                    match f {
                        // full rectangle
                        0 => (0..*h).for_each(|o| ops.push(Do::Put(*k, o))),
                        // the first rows of some columns and the last of others
                        1 => ops.push(Do::Put(*k, if i % 2 == 0 { 0 } else { h - 1 })),
                        // last row only, rows in descending order
                        _ => ops.push(Do::Put(*k, h - 1)),
                    }
                }
                out.push(ops);
            }
        }
    }
    out
}

fn main() {
    mc::main("C16", |c| {
        let e = env();
        let e = &e;
        // sequences of regions
        let sets: Vec<(usize, Vec<Vec<Do>>)> = c.pick(
            vec![
                (2, shapes(&[K::A(0), K::A(1), K::F(1), K::S(0)], &[1, 2, 3], &[0, 1, 2])),
                (3, shapes(&[K::A(0), K::A(1), K::S(0)], &[1, 2, 4], &[0, 2])),
                (4, shapes(&[K::A(0), K::A(1), K::F(0)], &[1, 3], &[2])),
                (5, shapes(&[K::A(0), K::A(1)], &[1, 2], &[2])),
            ],
            vec![
                (2, shapes(&[K::A(0), K::A(1), K::F(1), K::S(0), K::S(1)], &[1, 2, 3, 5], &[0, 1, 2])),
                (3, shapes(&[K::A(0), K::A(1), K::F(1), K::S(0)], &[1, 2, 3], &[0, 2])),
                (4, shapes(&[K::A(0), K::A(1), K::S(0)], &[1, 2, 4], &[2])),
                (6, shapes(&[K::A(0), K::A(1)], &[1, 2, 3], &[2])),
            ],
        );
        for (n, sh) in &sets {
            for l in 1..=*n {
                if l < *n && l > 2 {
                    continue;
                }
                c.par_n(&format!("{} regions of {} shapes", l, sh.len()), util::pow(sh.len(), l), |i, r| {
                    let p: Prog = util::word(i, sh.len(), l).into_iter().map(|x| Item::Region(sh[x].clone())).collect();
                    both(e, &p, &[0], r);
                });
            }
        }
        // regions without cells, and constants of every number in between
        let sh: Vec<Vec<Do>> = vec![
            vec![],
            vec![Do::Put(K::A(0), 0)],
            vec![Do::Put(K::F(0), 0), Do::Put(K::F(0), 1)],
            vec![Do::Const(0, 0, 7)],
            vec![Do::Const(0, 1, 7), Do::Const(1, 0, 8), Do::Put(K::F(1), 2)],
            vec![Do::Put(K::F(0), 2), Do::Const(1, 0, 0)],
            vec![Do::Put(K::A(2), 3), Do::Put(K::F(1), 0), Do::Fix(usize::MAX, 9)],
            vec![Do::Put(K::S(0), 1), Do::Const(2, 0, 7)],
        ];
        let nr = c.pick(4, 5);
        let ccols: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![2, 0]];
        for l in 1..=nr {
            c.par_n(&format!("constants, {} regions", l), util::pow(sh.len(), l), |i, r| {
                let mut p: Prog = vec![];
                let mut ncells = 0;
                for x in util::word(i, sh.len(), l) {
                    let mut ops = sh[x].clone();
                    let made: usize = ops.iter().filter(|d| !matches!(d, Do::Put(K::S(_), _) | Do::Fix(..))).count();
                    for d in ops.iter_mut() {
                        if let Do::Fix(k, _) = d {
                            // the first cell of the circuit (another region's unless this is the first)
                            *k = if ncells == 0 { 0 } else { ncells - 1 };
                        }
                    }
                    ncells += made;
                    p.push(Item::Region(ops));
                }
                for cc in &ccols {
                    both(e, &p, cc, r);
                }
            });
        }
        // long circuits: every number of regions, repeating every short sequence of shapes
        let sh: Vec<Vec<Do>> = vec![
            vec![Do::Put(K::A(0), 0), Do::Put(K::S(0), 0)],
            vec![Do::Put(K::A(1), 2), Do::Put(K::F(1), 0)],
            vec![Do::Put(K::A(0), 0), Do::Put(K::A(1), 0), Do::Put(K::A(0), 1)],
            vec![Do::Const(0, 1, 7), Do::Put(K::A(2), 0)],
            vec![Do::Copy(1, 0, usize::MAX), Do::Put(K::S(1), 0)],
        ];
        let words: Vec<Vec<usize>> = (1..=3).flat_map(|l| (0..util::pow(sh.len(), l)).map(move |i| util::word(i, 5, l))).collect();
        let mut lens: Vec<usize> = (6..=c.pick(24, 70)).collect();
        lens.extend(c.pick(vec![33, 65, 130, 257], vec![129, 257, 300, 513, 600]));
        let jobs: Vec<(usize, usize)> = lens.iter().rev().flat_map(|l| (0..words.len()).map(move |w| (*l, w))).filter(|(l, w)| *l < 60 || words[*w].len() < 3).collect();
        c.par("long circuits", &jobs, |(l, w), r| {
            let w = &words[*w];
            let (mut p, mut ncells): (Prog, usize) = (vec![], 0);
            for i in 0..*l {
                let mut ops = sh[w[i % w.len()]].clone();
                let made: usize = ops.iter().filter(|d| !matches!(d, Do::Put(K::S(_), _))).count();
                if let Do::Copy(_, _, k) = &mut ops[0] {
                    if ncells == 0 {
                        ops.remove(0);
                        p.push(Item::Region(ops));
                        continue;
                    }
                    *k = ncells * 3 / 4;
                }
                ncells += made;
                p.push(Item::Region(ops));
            }
            for (v1, name) in [(false, "simple"), (true, "v1")] {
                r.label(format!("{}, {} regions repeating {:?}", name, l, w));
                r.case(|r| if v1 { judge::<floor_planner::V1>(e, &p, &[0], r) } else { judge::<SimpleFloorPlanner>(e, &p, &[0], r) });
            }
        });
        // copies between all pairs of cells of three regions, and public cells
        let three: Vec<Vec<Do>> = vec![vec![Do::Put(K::A(0), 0), Do::Put(K::F(1), 2)], vec![Do::Put(K::A(1), 1), Do::Put(K::A(0), 0)], vec![Do::Put(K::A(2), 2), Do::Put(K::A(1), 0), Do::Put(K::A(0), 1)]];
        let orders = util::permutations(3);
        c.par("copies", &orders, |o, r| {
            let base: Vec<Vec<Do>> = o.iter().map(|i| three[*i].clone()).collect();
            let counts: Vec<usize> = base.iter().map(|x| x.len()).collect();
            let total: usize = counts.iter().sum();
            for x in 0..total {
                for y in 0..total {
                    let mut b = base.clone();
                    b[2].push(Do::Equal(x, y));
                    let mut p: Prog = b.into_iter().map(Item::Region).collect();
                    p.push(Item::Public(x, y));
                    both(e, &p, &[0], r);
                    let mut b = base.clone();
                    b.push(vec![Do::Copy(0, 1, x), Do::Inst(1, 0, y), Do::Copy(2, 0, y), Do::Copy(2, 3, total)]);
                    let p: Prog = b.into_iter().map(Item::Region).collect();
                    both(e, &p, &[0], r);
                }
            }
        });
        // tables: every sequence of cell assignments, one or two tables
        let cells: Vec<(usize, usize)> = vec![(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)];
        let tl = c.pick(5, 6);
        for l in 0..=tl {
            c.par_n(&format!("tables of {} cells", l), util::pow(6, l), |i, r| {
                let ops: Vec<(usize, usize, u64)> = util::word(i, 6, l).into_iter().enumerate().map(|(n, x)| (cells[x].0, cells[x].1, 40 + n as u64)).collect();
                both(e, &vec![Item::Table(ops.clone())], &[0], r);
                both(e, &vec![Item::Region(vec![Do::Put(K::F(0), 1), Do::Put(K::A(0), 0)]), Item::Table(ops.clone()), Item::Region(vec![Do::Const(0, 0, 3)])], &[0], r);
                if l <= 3 {
                    for cut in 0..=l {
                        both(e, &vec![Item::Table(ops[..cut].to_vec()), Item::Table(ops[cut..].to_vec())], &[0], r);
                    }
                }
            });
        }

        // what does not fit is an error: real keys, real prover, mock prover
        let ks = c.pick(vec![4u32], vec![4u32, 5]);
        for k in ks {
            let params = kzg_params(k);
            let n = 1usize << k;
            let mut m = ConstraintSystem::<Fr>::default();
            <Lay<SimpleFloorPlanner> as Circuit<Fr>>::configure(&mut m);
            let usable = n - (m.blinding_factors() + 1);
            let kinds = 8usize;
            let mut jobs = vec![];
            for kind in 0..kinds {
                for rows in 1..=n + 2 {
                    jobs.push((kind, rows));
                }
            }
            c.par(&format!("fit at k={}", k), &jobs, |(kind, rows), r| {
                r.label(format!("k={} kind {} rows {} of {}", k, kind, rows, usable));
                r.case(|r| {
                    let top = rows - 1;
                    let tab = |n: usize| Item::Table((0..n).flat_map(|o| [(0, o, 0), (1, o, 0)]).collect());
                    let t2 = tab(2);
                    let mut p: Prog = match kind {
                        0 => vec![Item::Region(vec![Do::Put(K::A(0), top)]), t2],
                        1 => vec![Item::Region(vec![Do::Put(K::F(1), top)]), t2],
                        2 => vec![Item::Region(vec![Do::Put(K::S(0), top)]), t2],
                        3 => vec![Item::Region((0..*rows).map(|o| Do::Const(0, o, 5)).collect()), t2],
                        4 => vec![tab(*rows)],
                        5 => vec![Item::Region(vec![Do::Put(K::A(0), 0)]), Item::Public(0, top), t2],
                        // several regions that share a column
                        6 => (0..*rows).map(|_| Item::Region(vec![Do::Put(K::A(1), 0), Do::Put(K::S(1), 0)])).chain([t2]).collect(),
                        _ => vec![Item::Region(vec![Do::Put(K::A(0), 0), Do::Put(K::A(1), top), Do::Equal(0, 1)]), t2],
                    };
                    if *kind == 5 {
                        // an instance cell that is equal to the advice cell
                        p[0] = Item::Region(vec![Do::Inst(0, 0, top)]);
                        p.remove(1);
                    }
                    let fits = *rows <= usable;
                    if *kind == 4 && *rows == usable {
                        return Ok(()); // a table needs one more row for its default value
                    }
                    let inst = vec![(0..usable).map(|i| Fr::from(500 + i as u64)).collect::<Vec<_>>()];
                    let k7 = *kind == 7;
                    macro_rules! run {
                        ($p:ty, $name:expr) => {{
                            let ci = || lay::<$p>(&p);
                            let mock = guard(|| MockProver::run(k, &ci(), inst.clone()).map(|m| m.verify().is_ok()));
                            match (&mock, fits) {
                                (Ok(Ok(_)), true) | (Ok(Err(_)), false) => {}
                                // a row outside the table may also be refused by a panic of the mock prover
                                _ => return Err(format!("{} mock prover: {:?}", $name, mock)),
                            }
                            let keys = guard(|| keygen_vk(&params, &ci()).and_then(|vk| keygen_pk(&params, vk, &ci())))?;
                            let proof = match keys {
                                Err(e) => Err(format!("{:?}", e)),
                                Ok(pk) => match guard(|| kzg_prove(&params, &pk, Open::Shplonk, ci(), &inst, 1))? {
                                    Err(e) => Err(format!("{:?}", e)),
                                    Ok(proof) => Ok(kzg_verify_many(&params, pk.get_vk(), Open::Shplonk, &[inst.clone()], &proof).is_ok()),
                                },
                            };
                            match proof {
                                Ok(v) => {
                                    if !fits {
                                        return Err(format!("{}: does not fit but is proved", $name));
                                    }
                                    // two different values under a copy constraint must not verify
                                    if v == (k7 && *rows > 1) && !(k7 && *rows == 1) {
                                        return Err(format!("{}: verdict {}", $name, v));
                                    }
                                }
                                Err(e) => {
                                    if fits {
                                        return Err(format!("{}: fits but is refused: {}", $name, e));
                                    }
                                }
                            }
                        }};
                    }
                    run!(SimpleFloorPlanner, "simple");
                    run!(floor_planner::V1, "v1");
                    r.outcome(if fits { "fits" } else { "does not fit" });
                    Ok(())
                });
            });
        }
        let _ = Fr::zero().is_zero();
    })
}
