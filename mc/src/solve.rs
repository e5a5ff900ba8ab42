//! Explicit-state search for *all* satisfying witnesses of a laid-out circuit over a tiny field.
//!
//! The fixed part of the circuit (selectors, fixed and instance cells, copy classes) is taken from a grid;
//! every advice cell that an active constraint or a copy mentions is a variable ranging over the whole field.
use crate::plonkref::Grid;
use crate::zp::Zp;
use halo2_proofs::plonk::*;
use std::collections::{HashMap, HashSet};

type Cell = (usize, usize);

enum Ex<const P: u64> {
    Const(u64),
    Var(Cell),
    Add(Box<Ex<P>>, Box<Ex<P>>),
    Mul(Box<Ex<P>>, Box<Ex<P>>),
}

enum Node {
    Const(u64),
    Var(usize),
    Add(Box<Node>, Box<Node>),
    Mul(Box<Node>, Box<Node>),
}

impl Node {
    fn eval<const P: u64>(&self, v: &[u64]) -> u64 {
        match self {
            Node::Const(c) => *c,
            Node::Var(i) => v[*i],
            Node::Add(a, b) => (a.eval::<P>(v) + b.eval::<P>(v)) % P,
            Node::Mul(a, b) => {
                let x = a.eval::<P>(v);
                if x == 0 {
                    0
                } else {
                    x * b.eval::<P>(v) % P
                }
            }
        }
    }
    fn max(&self) -> Option<usize> {
        match self {
            Node::Const(_) => None,
            Node::Var(i) => Some(*i),
            Node::Add(a, b) | Node::Mul(a, b) => a.max().max(b.max()),
        }
    }
}

enum Con {
    Zero(Node),
    In(Vec<Node>, std::rc::Rc<HashSet<Vec<u64>>>),
}

pub struct Model<const P: u64> {
    /// advice cell -> variable
    pub var: HashMap<Cell, usize>,
    pub nvars: usize,
    cons: Vec<Vec<Con>>,
    /// a constraint without variables is violated
    dead: bool,
    pub constraints: usize,
}

fn pe<const P: u64>(g: &Grid<Zp<P>>, e: &Expression<Zp<P>>, row: usize) -> Ex<P> {
    let at = |rot: i32| -> usize { (row as i64 + rot as i64).rem_euclid(g.n as i64) as usize };
    match e {
        Expression::Constant(c) => Ex::Const(c.0),
        Expression::Selector(s) => Ex::Const(g.sel.get(s).map(|v| v[row]).unwrap_or(false) as u64),
        Expression::Fixed(q) => Ex::Const(g.fixed[q.column_index()][at(q.rotation().0)].0),
        Expression::Advice(q) => Ex::Var((q.column_index(), at(q.rotation().0))),
        Expression::Instance(q) => Ex::Const(g.instance[q.column_index()][at(q.rotation().0)].0),
        Expression::Challenge(c) => Ex::Const(g.challenges[c.index()].0),
        Expression::Negated(a) => mul(Ex::Const(P - 1), pe(g, a, row)),
        Expression::Sum(a, b) => add(pe(g, a, row), pe(g, b, row)),
        Expression::Product(a, b) => mul(pe(g, a, row), pe(g, b, row)),
        Expression::Scaled(a, s) => mul(Ex::Const(s.0), pe(g, a, row)),
    }
}
fn add<const P: u64>(a: Ex<P>, b: Ex<P>) -> Ex<P> {
    match (a, b) {
        (Ex::Const(x), Ex::Const(y)) => Ex::Const((x + y) % P),
        (Ex::Const(0), y) => y,
        (x, Ex::Const(0)) => x,
        (x, y) => Ex::Add(Box::new(x), Box::new(y)),
    }
}
fn mul<const P: u64>(a: Ex<P>, b: Ex<P>) -> Ex<P> {
    match (a, b) {
        (Ex::Const(x), Ex::Const(y)) => Ex::Const(x * y % P),
        (Ex::Const(0), _) | (_, Ex::Const(0)) => Ex::Const(0),
        (x, y) => Ex::Mul(Box::new(x), Box::new(y)),
    }
}

impl<const P: u64> Model<P> {
    /// `first`: advice cells to be enumerated first, in order.
    pub fn new(cs: &ConstraintSystem<Zp<P>>, g: &Grid<Zp<P>>, first: &[Cell]) -> Model<P> {
        // copy classes: union-find over (kind, column, row)
        let mut parent: HashMap<(u8, usize, usize), (u8, usize, usize)> = HashMap::new();
        fn find(p: &mut HashMap<(u8, usize, usize), (u8, usize, usize)>, x: (u8, usize, usize)) -> (u8, usize, usize) {
            let mut x = x;
            while let Some(y) = p.get(&x) {
                x = *y;
            }
            x
        }
        let key = |c: &Column<Any>, r: usize| match c.column_type() {
            Any::Advice(_) => (0u8, c.index(), r),
            Any::Fixed => (1, c.index(), r),
            Any::Instance => (2, c.index(), r),
        };
        let mut consts: Vec<(u8, usize, usize)> = vec![];
        for (lc, lr, rc, rr) in &g.copies {
            let (a, b) = (key(lc, *lr), key(rc, *rr));
            consts.extend([a, b].iter().filter(|k| k.0 != 0));
            let (ra, rb) = (find(&mut parent, a), find(&mut parent, b));
            if ra != rb {
                parent.insert(ra, rb);
            }
        }
        let mut dead = false;
        let mut value: HashMap<(u8, usize, usize), u64> = HashMap::new();
        for k in consts {
            let v = if k.0 == 1 { g.fixed[k.1][k.2].0 } else { g.instance[k.1][k.2].0 };
            let r = find(&mut parent, k);
            if *value.entry(r).or_insert(v) != v {
                dead = true;
            }
        }
        let mut m = Model { var: HashMap::new(), nvars: 0, cons: vec![], dead, constraints: 0 };
        let mut class: HashMap<(u8, usize, usize), usize> = HashMap::new();
        let mut fixed_vars: Vec<(usize, u64)> = vec![];
        let mut touch = |m: &mut Model<P>, parent: &mut HashMap<_, _>, c: Cell| -> usize {
            if let Some(v) = m.var.get(&c) {
                return *v;
            }
            let r = find(parent, (0, c.0, c.1));
            let n = class.len();
            let v = *class.entry(r).or_insert(n);
            if v == n {
                m.nvars += 1;
                if let Some(x) = value.get(&r) {
                    fixed_vars.push((v, *x));
                }
            }
            m.var.insert(c, v);
            v
        };
        for c in first.iter().chain(g.assigned.iter()) {
            touch(&mut m, &mut parent, *c);
        }
        let mut raw: Vec<Con> = vec![];
        let mut conv = |m: &mut Model<P>, e: Ex<P>| -> Node {
            fn go<const P: u64>(e: Ex<P>, f: &mut dyn FnMut(Cell) -> usize) -> Node {
                match e {
                    Ex::Const(c) => Node::Const(c),
                    Ex::Var(c) => Node::Var(f(c)),
                    Ex::Add(a, b) => Node::Add(Box::new(go(*a, f)), Box::new(go(*b, f))),
                    Ex::Mul(a, b) => Node::Mul(Box::new(go(*a, f)), Box::new(go(*b, f))),
                }
            }
            let mut f = |c: Cell| touch(m, &mut parent, c);
            go(e, &mut f)
        };
        for gate in cs.gates() {
            for p in gate.polynomials() {
                for row in 0..g.usable {
                    match pe(g, p, row) {
                        Ex::Const(0) => {}
                        e => raw.push(Con::Zero(conv(&mut m, e))),
                    }
                }
            }
        }
        for l in cs.lookups() {
            let table: HashSet<Vec<u64>> = (0..g.usable)
                .map(|r| {
                    l.table_expressions
                        .iter()
                        .map(|e| match pe(g, e, r) {
                            Ex::Const(c) => c,
                            _ => panic!("dynamic table"),
                        })
                        .collect()
                })
                .collect();
            let table = std::rc::Rc::new(table);
            for row in 0..g.usable {
                let ns: Vec<Node> = l.input_expressions.iter().map(|e| pe(g, e, row)).map(|e| conv(&mut m, e)).collect();
                raw.push(Con::In(ns, table.clone()));
            }
        }
        drop(conv);
        drop(touch);
        for (v, x) in fixed_vars {
            raw.push(Con::Zero(Node::Add(Box::new(Node::Var(v)), Box::new(Node::Const((P - x) % P)))));
        }
        m.cons = (0..m.nvars).map(|_| vec![]).collect();
        for c in raw {
            let mx = match &c {
                Con::Zero(n) => n.max(),
                Con::In(ns, _) => ns.iter().map(|n| n.max()).max().flatten(),
            };
            match mx {
                None => {
                    if !holds::<P>(&c, &[]) {
                        m.dead = true;
                    }
                }
                Some(i) => {
                    m.constraints += 1;
                    m.cons[i].push(c)
                }
            }
        }
        m
    }

    /// Enumerates every satisfying assignment; returns the number of partial assignments visited.
    pub fn solve(&self, prefix: &[u64], mut f: impl FnMut(&dyn Fn(Cell) -> Option<Zp<P>>) -> Result<(), String>) -> Result<u64, String> {
        let mut v = vec![0u64; self.nvars];
        let mut visited = 0;
        if self.dead {
            return Ok(0);
        }
        self.go(0, prefix, &mut v, &mut visited, &mut f)?;
        Ok(visited)
    }
    fn go(
        &self,
        i: usize,
        prefix: &[u64],
        v: &mut Vec<u64>,
        visited: &mut u64,
        f: &mut dyn FnMut(&dyn Fn(Cell) -> Option<Zp<P>>) -> Result<(), String>,
    ) -> Result<(), String> {
        if i == self.nvars {
            return f(&|c| self.var.get(&c).map(|k| Zp(v[*k])));
        }
        let range = if i < prefix.len() { prefix[i]..prefix[i] + 1 } else { 0..P };
        for x in range {
            v[i] = x;
            *visited += 1;
            if self.cons[i].iter().all(|c| holds::<P>(c, v)) {
                self.go(i + 1, prefix, v, visited, f)?;
            }
        }
        Ok(())
    }
}

fn holds<const P: u64>(c: &Con, v: &[u64]) -> bool {
    match c {
        Con::Zero(n) => n.eval::<P>(v) == 0,
        Con::In(ns, t) => t.contains(&ns.iter().map(|n| n.eval::<P>(v)).collect::<Vec<_>>()),
    }
}
