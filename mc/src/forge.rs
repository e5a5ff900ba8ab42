//! A laid-out circuit as a system of equations over its copy classes, and a prover that forges:
//! given altered variables, it recomputes everything else so that all constraints hold again.
use crate::plonkref::Grid;
use ff::PrimeField;
use halo2_proofs::plonk::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum T<F> {
    C(F),
    V(usize),
    Neg(Box<T<F>>),
    Add(Box<T<F>>, Box<T<F>>),
    Mul(Box<T<F>>, Box<T<F>>),
    Sc(Box<T<F>>, F),
}

impl<F: PrimeField> T<F> {
    pub fn eval(&self, v: &[F]) -> F {
        match self {
            T::C(c) => *c,
            T::V(i) => v[*i],
            T::Neg(a) => -a.eval(v),
            T::Add(a, b) => a.eval(v) + b.eval(v),
            T::Mul(a, b) => {
                let x = a.eval(v);
                if x.is_zero_vartime() {
                    x
                } else {
                    x * b.eval(v)
                }
            }
            T::Sc(a, s) => a.eval(v) * s,
        }
    }
    /// As a polynomial in variable `u`.
    pub fn uni(&self, v: &[F], u: usize) -> Vec<F> {
        match self {
            T::C(c) => vec![*c],
            T::V(i) if *i == u => vec![F::zero(), F::one()],
            T::V(i) => vec![v[*i]],
            T::Neg(a) => a.uni(v, u).into_iter().map(|x| -x).collect(),
            T::Sc(a, s) => a.uni(v, u).into_iter().map(|x| x * s).collect(),
            T::Add(a, b) => {
                let (mut x, y) = (a.uni(v, u), b.uni(v, u));
                if x.len() < y.len() {
                    x.resize(y.len(), F::zero());
                }
                for (p, q) in x.iter_mut().zip(y) {
                    *p += q;
                }
                x
            }
            T::Mul(a, b) => {
                let x = a.uni(v, u);
                if x.iter().all(|c| c.is_zero_vartime()) {
                    return vec![F::zero()];
                }
                let y = b.uni(v, u);
                let mut z = vec![F::zero(); x.len() + y.len() - 1];
                for (i, p) in x.iter().enumerate() {
                    for (j, q) in y.iter().enumerate() {
                        z[i + j] += *p * q;
                    }
                }
                z
            }
        }
    }
    /// As a polynomial in two variables.
    pub fn bi(&self, v: &[F], a: usize, b: usize) -> HashMap<(usize, usize), F> {
        let one = |k, c| std::iter::once((k, c)).collect::<HashMap<_, _>>();
        match self {
            T::C(c) => one((0, 0), *c),
            T::V(i) if *i == a => one((1, 0), F::one()),
            T::V(i) if *i == b => one((0, 1), F::one()),
            T::V(i) => one((0, 0), v[*i]),
            T::Neg(x) => x.bi(v, a, b).into_iter().map(|(k, c)| (k, -c)).collect(),
            T::Sc(x, s) => x.bi(v, a, b).into_iter().map(|(k, c)| (k, c * s)).collect(),
            T::Add(x, y) => {
                let mut m = x.bi(v, a, b);
                for (k, c) in y.bi(v, a, b) {
                    *m.entry(k).or_insert_with(F::zero) += c;
                }
                m
            }
            T::Mul(x, y) => {
                let (x, y) = (x.bi(v, a, b), y.bi(v, a, b));
                let mut m = HashMap::new();
                for (k, c) in &x {
                    for (l, d) in &y {
                        *m.entry((k.0 + l.0, k.1 + l.1)).or_insert_with(F::zero) += *c * d;
                    }
                }
                m
            }
        }
    }
    pub fn vars(&self, out: &mut BTreeSet<usize>) {
        match self {
            T::V(i) => {
                out.insert(*i);
            }
            T::Neg(a) | T::Sc(a, _) => a.vars(out),
            T::Add(a, b) | T::Mul(a, b) => {
                a.vars(out);
                b.vars(out);
            }
            T::C(_) => {}
        }
    }
    /// The same term over another field, if its constants are small integers (up to sign).
    pub fn cast<G: PrimeField>(&self, c: &dyn Fn(&F) -> Option<G>) -> Option<T<G>> {
        Some(match self {
            T::C(x) => T::C(c(x)?),
            T::V(i) => T::V(*i),
            T::Neg(a) => T::Neg(Box::new(a.cast(c)?)),
            T::Sc(a, s) => T::Sc(Box::new(a.cast(c)?), c(s)?),
            T::Add(a, b) => T::Add(Box::new(a.cast(c)?), Box::new(b.cast(c)?)),
            T::Mul(a, b) => T::Mul(Box::new(a.cast(c)?), Box::new(b.cast(c)?)),
        })
    }
}

pub struct Table<F> {
    rows: HashSet<Vec<u8>>,
    by_first: HashMap<Vec<u8>, Option<Vec<F>>>,
    singles: Vec<F>,
}

pub enum Con<F> {
    Poly(T<F>),
    Lookup(Vec<T<F>>, Arc<Table<F>>),
}

pub struct Sys<F> {
    pub honest: Vec<F>,
    /// position of the variable's first assignment (usize::MAX: never assigned)
    pub order: Vec<usize>,
    pub name: Vec<(usize, usize)>,
    pub cons: Vec<(Con<F>, Vec<usize>)>,
    pub uses: Vec<Vec<usize>>,
    /// copied cells differ in the honest assignment
    pub broken: bool,
    at: HashMap<(usize, usize), usize>,
}

type Cell = (u8, usize, usize);

fn key<F: PrimeField>(t: &[F]) -> Vec<u8> {
    t.iter().flat_map(|x| x.to_repr().as_ref().to_vec()).collect()
}

impl<F: PrimeField> Sys<F> {
    pub fn new(cs: &ConstraintSystem<F>, g: &Grid<F>) -> Self {
        // union-find over cells that occur in copies
        let mut id: HashMap<Cell, usize> = HashMap::new();
        let mut parent: Vec<usize> = vec![];
        let mut cells: Vec<Cell> = vec![];
        fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
            while p[x] != x {
                p[x] = p[p[x]];
                x = p[x];
            }
            x
        }
        let kind = |c: &Column<Any>, r: usize| -> Cell {
            match c.column_type() {
                Any::Advice(_) => (0, c.index(), r),
                Any::Fixed => (1, c.index(), r),
                Any::Instance => (2, c.index(), r),
            }
        };
        let mut get = |id: &mut HashMap<Cell, usize>, parent: &mut Vec<usize>, c: Cell| -> usize {
            *id.entry(c).or_insert_with(|| {
                parent.push(parent.len());
                cells.push(c);
                parent.len() - 1
            })
        };
        for (lc, lr, rc, rr) in &g.copies {
            let a = get(&mut id, &mut parent, kind(lc, *lr));
            let b = get(&mut id, &mut parent, kind(rc, *rr));
            let (a, b) = (find(&mut parent, a), find(&mut parent, b));
            parent[a] = b;
        }
        for (c, r) in &g.assigned {
            get(&mut id, &mut parent, (0, *c, *r));
        }
        // classes with a fixed or instance cell are constants
        let mut constant: HashMap<usize, F> = HashMap::new();
        for i in 0..cells.len() {
            let root = find(&mut parent, i);
            let (k, c, r) = cells[i];
            match k {
                1 => {
                    constant.insert(root, g.fixed[c][r]);
                }
                2 => {
                    constant.insert(root, g.instance[c][r]);
                }
                _ => {}
            }
        }
        let mut s = Sys { honest: vec![], order: vec![], name: vec![], cons: vec![], uses: vec![], at: HashMap::new(), broken: false };
        let mut root_var: HashMap<usize, usize> = HashMap::new();
        // constants are represented as variables pinned by an equation
        let mut pins: Vec<(usize, F)> = vec![];
        let first: HashMap<(usize, usize), usize> = g.assigned.iter().enumerate().rev().map(|(i, c)| (*c, i)).collect();
        for i in 0..cells.len() {
            let (k, c, r) = cells[i];
            if k != 0 {
                continue;
            }
            let root = find(&mut parent, i);
            let v = *root_var.entry(root).or_insert_with(|| {
                s.honest.push(g.advice[c][r]);
                s.order.push(usize::MAX);
                s.name.push((c, r));
                if let Some(x) = constant.get(&root) {
                    pins.push((s.honest.len() - 1, *x));
                }
                s.honest.len() - 1
            });
            s.at.insert((c, r), v);
            s.broken |= s.honest[v] != g.advice[c][r];
            let o = first.get(&(c, r)).cloned().unwrap_or(usize::MAX);
            if o < s.order[v] {
                s.order[v] = o;
                s.name[v] = (c, r);
            }
        }
        for (v, x) in pins {
            let t = T::Add(Box::new(T::V(v)), Box::new(T::C(-x)));
            s.cons.push((Con::Poly(t), vec![v]));
        }
        for gate in cs.gates() {
            for p in gate.polynomials() {
                for row in 0..g.usable {
                    if Self::dead(g, p, row) {
                        continue;
                    }
                    let t = s.term(g, p, row);
                    if let T::C(c) = &t {
                        if c.is_zero_vartime() {
                            continue;
                        }
                    }
                    let mut vs = BTreeSet::new();
                    t.vars(&mut vs);
                    s.cons.push((Con::Poly(t), vs.into_iter().collect()));
                }
            }
        }
        for l in cs.lookups() {
            let mut table = Table { rows: HashSet::new(), by_first: HashMap::new(), singles: vec![] };
            for row in 0..g.usable {
                let t: Vec<F> = l.table_expressions().iter().map(|e| crate::plonkref::eval(g, e, row)).collect();
                if table.rows.insert(key(&t)) {
                    let u = table.by_first.entry(key(&t[..1])).or_insert(Some(t.clone()));
                    if u.as_ref() != Some(&t) {
                        *u = None;
                    }
                    if t.len() == 1 {
                        table.singles.push(t[0]);
                    }
                }
            }
            let table = Arc::new(table);
            for row in 0..g.usable {
                let ts: Vec<T<F>> = l.input_expressions().iter().map(|e| s.term(g, e, row)).collect();
                let mut vs = BTreeSet::new();
                for t in &ts {
                    t.vars(&mut vs);
                }
                if vs.is_empty() {
                    let t: Vec<F> = ts.iter().map(|t| t.eval(&[])).collect();
                    if table.rows.contains(&key(&t)) {
                        continue;
                    }
                }
                s.cons.push((Con::Lookup(ts, table.clone()), vs.into_iter().collect()));
            }
        }
        s.uses = vec![vec![]; s.honest.len()];
        for (i, (_, vs)) in s.cons.iter().enumerate() {
            for v in vs {
                s.uses[*v].push(i);
            }
        }
        s
    }
    fn dead(g: &Grid<F>, e: &Expression<F>, row: usize) -> bool {
        match e {
            Expression::Product(a, b) => Self::dead(g, a, row) || Self::dead(g, b, row),
            Expression::Selector(s) => !g.sel.get(s).map(|v| v[row]).unwrap_or(false),
            Expression::Scaled(a, _) | Expression::Negated(a) => Self::dead(g, a, row),
            _ => false,
        }
    }
    fn term(&mut self, g: &Grid<F>, e: &Expression<F>, row: usize) -> T<F> {
        let at = |rot: i32| -> usize { ((row as i64 + rot as i64).rem_euclid(g.n as i64)) as usize };
        match e {
            Expression::Advice(q) => {
                let c = (q.column_index(), at(q.rotation().0));
                if let Some(v) = self.at.get(&c) {
                    return T::V(*v);
                }
                // a cell nobody assigned: the prover's to choose
                self.honest.push(g.advice[c.0][c.1]);
                self.order.push(usize::MAX);
                self.name.push(c);
                self.at.insert(c, self.honest.len() - 1);
                T::V(self.honest.len() - 1)
            }
            Expression::Negated(a) => match self.term(g, a, row) {
                T::C(c) => T::C(-c),
                t => T::Neg(Box::new(t)),
            },
            Expression::Scaled(a, s) => match self.term(g, a, row) {
                T::C(c) => T::C(c * s),
                t => T::Sc(Box::new(t), *s),
            },
            Expression::Sum(a, b) => match (self.term(g, a, row), self.term(g, b, row)) {
                (T::C(x), T::C(y)) => T::C(x + y),
                (T::C(x), t) | (t, T::C(x)) if x.is_zero_vartime() => t,
                (x, y) => T::Add(Box::new(x), Box::new(y)),
            },
            Expression::Product(a, b) => {
                if Self::dead(g, e, row) {
                    return T::C(F::zero());
                }
                match (self.term(g, a, row), self.term(g, b, row)) {
                    (T::C(x), T::C(y)) => T::C(x * y),
                    (T::C(x), _) | (_, T::C(x)) if x.is_zero_vartime() => T::C(F::zero()),
                    (T::C(x), t) | (t, T::C(x)) if x == F::one() => t,
                    (x, y) => T::Mul(Box::new(x), Box::new(y)),
                }
            }
            _ => T::C(crate::plonkref::eval(g, e, row)),
        }
    }
    pub fn var(&self, c: (usize, usize)) -> usize {
        self.at[&c]
    }
    pub fn ok(&self, i: usize, v: &[F]) -> bool {
        match &self.cons[i].0 {
            Con::Poly(t) => t.eval(v).is_zero_vartime(),
            Con::Lookup(ts, tab) => tab.rows.contains(&key(&ts.iter().map(|t| t.eval(v)).collect::<Vec<_>>())),
        }
    }
    pub fn check(&self, v: &[F]) -> Option<usize> {
        (0..self.cons.len()).find(|i| !self.ok(*i, v))
    }

    /// Variables in `unknown` are open, all others have their value in `v`. Recompute the open ones so
    /// that every constraint holds: forced values are solved for; where nothing is forced, the earliest
    /// open variable keeps its honest value. `budget`: how often both roots of a square are tried.
    pub fn complete(&self, v: &mut Vec<F>, unknown: &mut [bool], touched: &[usize], budget: &mut usize, steps: &mut u64) -> bool {
        let mut open: Vec<u32> = self.cons.iter().map(|(_, vs)| vs.iter().filter(|x| unknown[**x]).count() as u32).collect();
        let mut queue: Vec<usize> = (0..self.cons.len()).filter(|i| open[*i] == 1 || matches!(self.cons[*i].0, Con::Lookup(..)) && open[*i] > 0).collect();
        // constraints already closed that contain a changed variable
        for x in touched {
            for c in &self.uses[*x] {
                if open[*c] == 0 && !self.ok(*c, v) {
                    return false;
                }
            }
        }
        let mut pairs: Vec<usize> = (0..self.cons.len()).filter(|i| open[*i] == 2).collect();
        let mut stall: Vec<usize> = (0..v.len()).filter(|x| unknown[*x]).collect();
        stall.sort_by_key(|x| std::cmp::Reverse((self.order[*x], *x)));
        loop {
            while let Some(c) = queue.pop() {
                *steps += 1;
                let (con, vs) = &self.cons[c];
                if open[c] == 0 {
                    continue;
                }
                if open[c] == 2 {
                    pairs.push(c);
                }
                let mut set: Vec<(usize, F)> = vec![];
                match con {
                    Con::Poly(t) => {
                        if open[c] != 1 {
                            continue;
                        }
                        let u = *vs.iter().find(|x| unknown[**x]).unwrap();
                        match Self::roots(&t.uni(v, u), &self.honest[u]) {
                            Roots::Any => {}
                            Roots::None => return false,
                            Roots::One(x) => set.push((u, x)),
                            Roots::Two(x, y) => {
                                if *budget > 0 {
                                    *budget -= 1;
                                    let (mut v2, mut k2) = (v.clone(), unknown.to_vec());
                                    v2[u] = x;
                                    k2[u] = false;
                                    if self.complete(&mut v2, &mut k2, &[u], budget, steps) {
                                        *v = v2;
                                        return true;
                                    }
                                    set.push((u, y));
                                } else {
                                    set.push((u, x));
                                }
                            }
                            Roots::Hard => {
                                // keep open: it is checked when the variable gets a value
                            }
                        }
                    }
                    Con::Lookup(ts, tab) => {
                        if ts.len() == 1 {
                            if open[c] != 1 {
                                continue;
                            }
                            let u = *vs.iter().find(|x| unknown[**x]).unwrap();
                            let p = ts[0].uni(v, u);
                            if p.len() == 2 && !p[1].is_zero_vartime() {
                                // the canonical choice: the smallest value
                                let inv = p[1].invert().unwrap();
                                let best = tab.singles.iter().map(|e| (*e - p[0]) * inv).min_by(|a, b| {
                                    let (a, b) = (a.to_repr(), b.to_repr());
                                    a.as_ref().iter().rev().cmp(b.as_ref().iter().rev())
                                });
                                if let Some(x) = best {
                                    set.push((u, x));
                                }
                            }
                        } else {
                            let mut w = BTreeSet::new();
                            ts[0].vars(&mut w);
                            if w.iter().any(|x| unknown[*x]) {
                                continue;
                            }
                            match tab.by_first.get(&key(&[ts[0].eval(v)])) {
                                None => return false,
                                Some(None) => {}
                                Some(Some(row)) => {
                                    for (t, want) in ts.iter().zip(row).skip(1) {
                                        let mut w = BTreeSet::new();
                                        t.vars(&mut w);
                                        let us: Vec<usize> = w.into_iter().filter(|x| unknown[*x] && !set.iter().any(|(y, _)| x == y)).collect();
                                        if us.len() == 1 {
                                            let mut p = t.uni(v, us[0]);
                                            p[0] -= want;
                                            match Self::roots(&p, &self.honest[us[0]]) {
                                                Roots::One(x) => set.push((us[0], x)),
                                                Roots::Two(x, _) => set.push((us[0], x)),
                                                Roots::None => return false,
                                                _ => {}
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                for (u, x) in set {
                    if !self.assign(u, x, v, unknown, &mut open, &mut queue) {
                        return false;
                    }
                }
            }
            // two equations in the same two open variables: eliminate one
            let mut solved = false;
            while let Some(c) = pairs.pop() {
                if open[c] != 2 {
                    continue;
                }
                if let Some((u, x)) = self.eliminate(c, v, unknown, &open) {
                    if !self.assign(u, x, v, unknown, &mut open, &mut queue) {
                        return false;
                    }
                    solved = true;
                    break;
                }
            }
            if solved {
                pairs.extend(queue.iter().cloned());
                continue;
            }
            // nothing is forced
            while let Some(x) = stall.last() {
                if unknown[*x] {
                    break;
                }
                stall.pop();
            }
            match stall.pop() {
                None => return true,
                Some(x) => {
                    let h = self.honest[x];
                    if !self.assign(x, h, v, unknown, &mut open, &mut queue) {
                        return false;
                    }
                }
            }
        }
    }
    /// A value for one of the two open variables of constraint `c`, if a linear combination with another
    /// constraint in the same two variables leaves an equation that is affine in one.
    fn eliminate(&self, c: usize, v: &[F], unknown: &[bool], open: &[u32]) -> Option<(usize, F)> {
        let Con::Poly(t) = &self.cons[c].0 else { return None };
        let us: Vec<usize> = self.cons[c].1.iter().cloned().filter(|x| unknown[*x]).collect();
        let (a, b) = (us[0], us[1]);
        let mine = t.bi(v, a, b);
        for d in &self.uses[a] {
            if *d == c || open[*d] != 2 || !self.cons[*d].1.contains(&b) {
                continue;
            }
            let Con::Poly(t) = &self.cons[*d].0 else { continue };
            let other = t.bi(v, a, b);
            for (keep, swap) in [(a, false), (b, true)] {
                // eliminate the variable that is not `keep`
                let has = |k: &(usize, usize)| if swap { k.0 > 0 } else { k.1 > 0 };
                let Some((k0, y)) = other.iter().find(|(k, y)| has(k) && !y.is_zero_vartime()) else { continue };
                let x = mine.get(k0).cloned().unwrap_or_else(F::zero);
                if x.is_zero_vartime() {
                    continue;
                }
                let f = x * y.invert().unwrap();
                let mut uni: Vec<F> = vec![];
                let mut clean = true;
                for k in mine.keys().chain(other.keys()) {
                    let r = mine.get(k).cloned().unwrap_or_else(F::zero) - f * other.get(k).cloned().unwrap_or_else(F::zero);
                    if has(k) {
                        clean &= r.is_zero_vartime();
                    } else {
                        let e = if swap { k.1 } else { k.0 };
                        if uni.len() <= e {
                            uni.resize(e + 1, F::zero());
                        }
                        uni[e] = r;
                    }
                }
                if clean {
                    if let Roots::One(x) = Self::roots(&uni, &self.honest[keep]) {
                        return Some((keep, x));
                    }
                }
            }
        }
        None
    }
    fn assign(&self, u: usize, x: F, v: &mut [F], unknown: &mut [bool], open: &mut [u32], queue: &mut Vec<usize>) -> bool {
        v[u] = x;
        unknown[u] = false;
        for c in &self.uses[u] {
            open[*c] -= 1;
            if open[*c] == 0 {
                if !self.ok(*c, v) {
                    return false;
                }
            } else {
                queue.push(*c);
            }
        }
        true
    }
    fn roots(p: &[F], honest: &F) -> Roots<F> {
        let mut d = p.len();
        while d > 0 && p[d - 1].is_zero_vartime() {
            d -= 1;
        }
        match d {
            0 => Roots::Any,
            1 => Roots::None,
            2 => Roots::One(-p[0] * p[1].invert().unwrap()),
            3 => {
                let inv = if p[2] == F::one() { F::one() } else { p[2].invert().unwrap() };
                for x in [*honest, F::zero(), F::one()] {
                    if ((p[2] * x + p[1]) * x + p[0]).is_zero_vartime() {
                        let y = -p[1] * inv - x;
                        return if x == y { Roots::One(x) } else { Roots::Two(x, y) };
                    }
                }
                let four = F::from(4);
                let disc = p[1].square() - four * p[2] * p[0];
                match Option::<F>::from(disc.sqrt()) {
                    None => Roots::None,
                    Some(s) => {
                        let i = p[2].double().invert().unwrap();
                        let (a, b) = ((s - p[1]) * i, (-s - p[1]) * i);
                        if a == b {
                            Roots::One(a)
                        } else if &b == honest {
                            Roots::Two(b, a)
                        } else {
                            Roots::Two(a, b)
                        }
                    }
                }
            }
            _ => Roots::Hard,
        }
    }

    /// Forge: `seeds` get the given values, `frozen` variables keep theirs, and so does everything assigned
    /// before the first seed (if `late`). Returns a satisfying assignment, if the forger finds one.
    pub fn forge(&self, frozen: &[usize], seeds: &[(usize, F)], late: bool, steps: &mut u64) -> Option<Vec<F>> {
        let mut v = self.honest.clone();
        let start = seeds.iter().map(|(x, _)| self.order[*x]).min().unwrap();
        let mut unknown: Vec<bool> = self.order.iter().map(|o| !late || *o >= start).collect();
        for x in frozen {
            unknown[*x] = false;
        }
        let mut touched = vec![];
        for (x, y) in seeds {
            v[*x] = *y;
            unknown[*x] = false;
            touched.push(*x);
        }
        let mut budget = 4;
        let ok = self.complete(&mut v, &mut unknown, &touched, &mut budget, steps);
        if ok && self.check(&v).is_none() {
            Some(v)
        } else {
            None
        }
    }
}

enum Roots<F> {
    Any,
    None,
    One(F),
    Two(F, F),
    Hard,
}

/// All solutions of a system over a small field: `vars[i]` in `fixed` are given, the others range over
/// `domain`. Each constraint is checked as soon as it is closed.
pub fn solutions<F: PrimeField>(cons: &[T<F>], nvars: usize, fixed: &HashMap<usize, F>, domain: &[F], f: &mut dyn FnMut(&[F]) -> Result<(), String>) -> Result<u64, String> {
    let vars: Vec<Vec<usize>> = cons
        .iter()
        .map(|t| {
            let mut s = BTreeSet::new();
            t.vars(&mut s);
            s.into_iter().collect()
        })
        .collect();
    // greedy order: next the variable that closes most constraints, else that occurs most
    let mut known: Vec<bool> = (0..nvars).map(|i| fixed.contains_key(&i)).collect();
    let mut order = vec![];
    let mut closes: Vec<Vec<usize>> = vec![];
    let mut v: Vec<F> = (0..nvars).map(|i| fixed.get(&i).cloned().unwrap_or_else(F::zero)).collect();
    for (c, vs) in vars.iter().enumerate() {
        if vs.iter().all(|x| known[*x]) && !cons[c].eval(&v).is_zero_vartime() {
            return Ok(1);
        }
    }
    while let Some(x) = (0..nvars).filter(|x| !known[*x]).max_by_key(|x| {
        let closing = vars.iter().filter(|vs| vs.contains(x) && vs.iter().all(|y| y == x || known[*y])).count();
        (closing, vars.iter().filter(|vs| vs.contains(x)).count())
    }) {
        closes.push((0..cons.len()).filter(|c| vars[*c].contains(&x) && vars[*c].iter().all(|y| *y == x || known[*y])).collect());
        known[x] = true;
        order.push(x);
    }
    fn go<F: PrimeField>(d: usize, order: &[usize], closes: &[Vec<usize>], cons: &[T<F>], domain: &[F], v: &mut Vec<F>, n: &mut u64, f: &mut dyn FnMut(&[F]) -> Result<(), String>) -> Result<(), String> {
        if d == order.len() {
            return f(v);
        }
        for x in domain {
            *n += 1;
            v[order[d]] = *x;
            if closes[d].iter().all(|c| cons[*c].eval(v).is_zero_vartime()) {
                go(d + 1, order, closes, cons, domain, v, n, f)?;
            }
        }
        Ok(())
    }
    let mut n = 0;
    go(0, &order, &closes, cons, domain, &mut v, &mut n, f)?;
    Ok(n)
}
