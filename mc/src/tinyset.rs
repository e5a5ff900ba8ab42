//! The family of small circuits that C10, C11, C23 and C24 enumerate.
use crate::tiny::{v, vx, Body, Col, Ex, Spec, Tiny, Val};
use std::sync::Arc;
use Ex::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Slot {
    Adv(usize, usize),
    /// coefficient of a challenge in an advice cell
    Coef(usize, usize, usize),
    Inst(usize, usize),
}

/// A circuit with some cells left open; its assignments are all words over `alphabet`.
#[derive(Clone)]
pub struct Fam {
    pub name: String,
    pub k: u32,
    pub spec: Arc<Spec>,
    pub body: Arc<Body>,
    pub adv: Vec<Vec<Val>>,
    pub inst: Vec<Vec<i64>>,
    pub slots: Vec<Slot>,
    pub alphabet: Vec<i64>,
}

impl Fam {
    pub fn count(&self) -> usize {
        self.alphabet.len().pow(self.slots.len() as u32)
    }
    pub fn get(&self, idx: usize) -> (Tiny, Vec<Vec<i64>>) {
        let w = crate::util::word(idx, self.alphabet.len(), self.slots.len());
        let mut adv = self.adv.clone();
        let mut inst = self.inst.clone();
        for (s, i) in self.slots.iter().zip(w) {
            let x = self.alphabet[i];
            match s {
                Slot::Adv(c, r) => adv[*c][*r].base = x,
                Slot::Coef(c, r, k) => adv[*c][*r].ch.push((*k, x)),
                Slot::Inst(c, r) => inst[*c][*r] = x,
            }
        }
        (Tiny { spec: self.spec.clone(), body: self.body.clone(), adv, inst: inst.clone(), known: true }, inst)
    }
}

fn adv(cols: usize, rows: usize) -> Vec<Vec<Val>> {
    vec![vec![v(0); rows]; cols]
}
fn rows(on: &[usize]) -> Vec<bool> {
    let mut s = vec![false; on.iter().max().map(|x| x + 1).unwrap_or(0)];
    for r in on {
        s[*r] = true;
    }
    s
}
fn grid(cols: usize, rws: usize) -> Vec<Slot> {
    (0..cols).flat_map(|c| (0..rws).map(move |r| Slot::Adv(c, r))).collect()
}

/// Small circuits, one or more per feature and combination of features.
pub fn families() -> Vec<Fam> {
    let mut out = vec![];
    let mut add = |name: &str, spec: Spec, body: Body, a: Vec<Vec<Val>>, inst: Vec<Vec<i64>>, slots: Vec<Slot>, alphabet: &[i64]| {
        out.push(Fam { name: name.into(), k: 4, spec: Arc::new(spec), body: Arc::new(body), adv: a, inst, slots, alphabet: alphabet.to_vec() })
    };
    // one gate, a selector on some rows
    for on in [vec![0usize], vec![0, 1], vec![1]] {
        add(
            &format!("mul{:?}", on),
            Spec { adv: vec![0, 0], sels: vec![false], gates: vec![vec![Sel(0) * (A(0, 0) * A(1, 0) - A(0, 1))]], ..Default::default() },
            Body { sel: vec![rows(&on)], ..Default::default() },
            adv(2, 3),
            vec![],
            vec![Slot::Adv(0, 0), Slot::Adv(1, 0), Slot::Adv(0, 1), Slot::Adv(1, 1), Slot::Adv(0, 2)],
            &[0, 1, 2],
        );
    }
    // rotations in both directions
    add(
        "rot",
        Spec { adv: vec![0, 0], sels: vec![false], gates: vec![vec![Sel(0) * (A(0, -1) + A(0, 2).scale(2) - A(1, 0))]], ..Default::default() },
        Body { sel: vec![rows(&[1])], ..Default::default() },
        adv(2, 4),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(0, 1), Slot::Adv(0, 3), Slot::Adv(1, 1)],
        &[0, 1, 2, 3],
    );
    // rotations past the last usable row (switched off where they read a row that no circuit may assign)
    for (name, row, rot, f) in [("edge-next-off", 9usize, 1, 0i64), ("edge-prev-off", 0, -1, 0), ("edge-wrap", 9, 7, 1), ("edge-wrap-back", 2, -9, 1)] {
        let mut fixed = vec![0; 10];
        fixed[row] = f;
        add(
            name,
            Spec { adv: vec![0], nfix: 1, sels: vec![false], gates: vec![vec![Sel(0) * F(0, 0) * (A(0, rot) - A(0, 0))]], ..Default::default() },
            Body { sel: vec![rows(&[row])], fixed: vec![fixed], ..Default::default() },
            adv(1, 10),
            vec![],
            vec![Slot::Adv(0, 0), Slot::Adv(0, 9)],
            &[0, 1],
        );
    }
    // gate that a fixed column switches on, on every usable row
    add(
        "everywhere",
        Spec { adv: vec![0, 0], nfix: 1, gates: vec![vec![F(0, 0) * (A(0, 0) * A(0, 0) - A(1, 0))]], ..Default::default() },
        Body { fixed: vec![vec![1; 10]], ..Default::default() },
        adv(2, 10),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(1, 0), Slot::Adv(0, 9), Slot::Adv(1, 9)],
        &[0, 1, 2],
    );
    // several simple selectors that are combined into one column, several polynomials per gate, a fixed column
    for rws in [[vec![0usize], vec![1], vec![2]], [vec![0, 1], vec![1, 2], vec![0, 2]], [vec![0, 2], vec![], vec![1]]] {
        add(
            &format!("selectors{:?}", rws),
            Spec {
                adv: vec![0, 0],
                nfix: 1,
                sels: vec![false; 3],
                gates: vec![
                    vec![Sel(0) * (A(0, 0) - F(0, 0)), Sel(0) * (A(0, 0) - A(1, 0))],
                    vec![Sel(1) * (A(0, 0) * A(0, 0) - A(0, 0))],
                    vec![Sel(2) * (A(0, 0) + A(1, 0) - C(1))],
                ],
                ..Default::default()
            },
            Body { sel: rws.iter().map(|r| rows(r)).collect(), fixed: vec![vec![1, 2, 0]], ..Default::default() },
            adv(2, 3),
            vec![],
            vec![Slot::Adv(0, 0), Slot::Adv(1, 0), Slot::Adv(0, 1), Slot::Adv(0, 2), Slot::Adv(1, 2)],
            &[0, 1, 2],
        );
    }
    // higher degrees
    for d in 2..=8i64 {
        let mut e = A(0, 0);
        for i in 1..d {
            e = e * (A(0, 0) - C(i));
        }
        add(
            &format!("degree{}", d),
            Spec { adv: vec![0], sels: vec![d % 2 == 0], gates: vec![vec![Sel(0) * e]], ..Default::default() },
            Body { sel: vec![rows(&[0, 2])], ..Default::default() },
            adv(1, 3),
            vec![],
            grid(1, 3).into_iter().filter(|s| !matches!(s, Slot::Adv(0, 1))).collect(),
            &[0, 1, d - 1, d, -1],
        );
    }
    // instance queried in gates, with rotations
    add(
        "instance",
        Spec { adv: vec![0], ninst: 2, sels: vec![false], gates: vec![vec![Sel(0) * (A(0, 0) - I(0, 1) - I(1, -1) * I(0, 0))]], ..Default::default() },
        Body { sel: vec![rows(&[1])], ..Default::default() },
        adv(1, 3),
        vec![vec![0, 0, 0], vec![0]],
        vec![Slot::Adv(0, 1), Slot::Inst(0, 1), Slot::Inst(0, 2), Slot::Inst(1, 0)],
        &[0, 1, 2],
    );
    add(
        "instance-last-row",
        Spec { adv: vec![0], ninst: 1, sels: vec![false], eq: vec![Col::A(0), Col::I(0)], gates: vec![vec![Sel(0) * (A(0, 0) - I(0, 0))]], ..Default::default() },
        Body { sel: vec![rows(&[8])], copies: vec![((Col::A(0), 0), (Col::I(0), 9))], ..Default::default() },
        adv(1, 10),
        vec![vec![0; 10]],
        vec![Slot::Adv(0, 0), Slot::Adv(0, 8), Slot::Inst(0, 8), Slot::Inst(0, 9)],
        &[0, 1, 2],
    );
    // copies across column kinds and chunks of the permutation argument
    for md in [None, Some(4), Some(5), Some(7)] {
        add(
            &format!("copies{:?}", md),
            Spec { adv: vec![0, 0, 0], nfix: 1, ninst: 1, eq: vec![Col::A(0), Col::A(1), Col::A(2), Col::F(0), Col::I(0)], min_degree: md, ..Default::default() },
            Body {
                fixed: vec![vec![0, 1]],
                copies: vec![((Col::A(0), 0), (Col::A(2), 1)), ((Col::A(2), 1), (Col::I(0), 1)), ((Col::A(1), 2), (Col::F(0), 1))],
                ..Default::default()
            },
            adv(3, 3),
            vec![vec![0, 0]],
            vec![Slot::Adv(0, 0), Slot::Adv(2, 1), Slot::Adv(1, 2), Slot::Adv(1, 0), Slot::Inst(0, 1)],
            &[0, 1],
        );
    }
    add(
        "copy-last-row",
        Spec { adv: vec![0, 0], eq: vec![Col::A(0), Col::A(1)], ..Default::default() },
        Body { copies: vec![((Col::A(0), 0), (Col::A(1), 9)), ((Col::A(0), 9), (Col::A(0), 4))], ..Default::default() },
        adv(2, 10),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(1, 9), Slot::Adv(0, 9), Slot::Adv(0, 4)],
        &[0, 1, 2],
    );
    // lookups
    add(
        "lookup",
        Spec { adv: vec![0], nfix: 1, lookups: vec![vec![(A(0, 0), F(0, 0))]], ..Default::default() },
        Body { fixed: vec![vec![0, 1, 3, 1]], ..Default::default() },
        adv(1, 10),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(0, 1), Slot::Adv(0, 5), Slot::Adv(0, 9)],
        &[0, 1, 2, 3],
    );
    add(
        "lookup-tuple",
        Spec {
            adv: vec![0, 0],
            nfix: 2,
            sels: vec![true],
            lookups: vec![vec![(Sel(0) * A(0, 0), F(0, 0)), (Sel(0) * A(1, 1), F(1, 0))]],
            ..Default::default()
        },
        Body { fixed: vec![vec![0, 1, 2], vec![0, 2, 1]], sel: vec![rows(&[0, 2])], ..Default::default() },
        adv(2, 4),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(1, 1), Slot::Adv(0, 2), Slot::Adv(1, 3)],
        &[0, 1, 2],
    );
    add(
        "lookup-advice-table",
        Spec { adv: vec![0, 0], sels: vec![true], lookups: vec![vec![(Sel(0) * A(0, 0), A(1, 0) * A(1, 0))]], ..Default::default() },
        Body { sel: vec![rows(&[0, 1])], ..Default::default() },
        adv(2, 10),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(0, 1), Slot::Adv(1, 3), Slot::Adv(1, 9)],
        &[0, 1, 2, 4],
    );
    // a table without zero, filled to the last row
    add(
        "lookup-nonzero",
        Spec { adv: vec![0], nfix: 1, lookups: vec![vec![(A(0, 0), F(0, 0))]], ..Default::default() },
        Body { fixed: vec![vec![1, 2, 3, 1, 1, 1, 1, 1, 1, 1]], ..Default::default() },
        (0..1).map(|_| vec![v(1); 10]).collect(),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(0, 5), Slot::Adv(0, 9)],
        &[0, 1, 3],
    );
    // tables that share some columns
    add(
        "lookup-shared-columns",
        Spec {
            adv: vec![0, 0],
            nfix: 3,
            sels: vec![true, true],
            lookups: vec![
                vec![(Sel(0) * A(0, 0), F(0, 0)), (Sel(0) * A(1, 0), F(1, 0))],
                vec![(Sel(1) * A(0, 0), F(0, 0)), (Sel(1) * A(1, 0), F(2, 0))],
                vec![(Sel(1) * A(0, 0), F(1, 0)), (Sel(1) * A(1, 0), F(2, 0))],
            ],
            ..Default::default()
        },
        Body { fixed: vec![vec![0, 1, 2, 2], vec![0, 1, 1, 2], vec![0, 2, 1, 1]], sel: vec![rows(&[0]), rows(&[2])], ..Default::default() },
        adv(2, 4),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(1, 0), Slot::Adv(0, 2), Slot::Adv(1, 2)],
        &[0, 1, 2],
    );
    add(
        "lookup-instance",
        Spec { adv: vec![0], ninst: 1, nfix: 1, lookups: vec![vec![(A(0, 0) * F(0, 0), I(0, 0))], vec![(I(0, 0), A(0, 0))]], ..Default::default() },
        Body { fixed: vec![vec![1, 1]], ..Default::default() },
        adv(1, 3),
        vec![vec![0, 0]],
        vec![Slot::Adv(0, 0), Slot::Adv(0, 1), Slot::Inst(0, 0), Slot::Inst(0, 1)],
        &[0, 1, 2],
    );
    // every argument together
    add(
        "mixed",
        Spec {
            adv: vec![0, 0, 0],
            nfix: 2,
            ninst: 1,
            sels: vec![false, true, false],
            eq: vec![Col::A(0), Col::A(2), Col::I(0), Col::F(0)],
            gates: vec![vec![Sel(0) * (A(0, 0) + A(1, 0) - A(2, 0)), Sel(0) * (A(0, 0) * A(0, 0) - A(0, 0))], vec![Sel(2) * (A(2, 0) - A(2, -1))]],
            lookups: vec![vec![(Sel(1) * A(1, 0), F(1, 0))]],
            ..Default::default()
        },
        Body {
            fixed: vec![vec![1], vec![0, 1, 2]],
            sel: vec![rows(&[0]), rows(&[0, 1]), rows(&[1])],
            copies: vec![((Col::A(0), 0), (Col::I(0), 0)), ((Col::A(2), 1), (Col::A(0), 2))],
        },
        adv(3, 3),
        vec![vec![0]],
        vec![Slot::Adv(0, 0), Slot::Adv(1, 0), Slot::Adv(2, 0), Slot::Adv(2, 1), Slot::Adv(0, 2), Slot::Inst(0, 0)],
        &[0, 1, 2],
    );
    // challenge phases
    add(
        "phase2",
        Spec { adv: vec![0, 1], sels: vec![false], chals: vec![0], gates: vec![vec![Sel(0) * (A(1, 0) - Ch(0) * A(0, 0))]], ..Default::default() },
        Body { sel: vec![rows(&[0])], ..Default::default() },
        adv(2, 2),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(1, 0), Slot::Coef(1, 0, 0)],
        &[0, 1, 2],
    );
    add(
        "phase3",
        Spec {
            adv: vec![0, 1, 2, 0],
            sels: vec![false],
            chals: vec![1, 0],
            eq: vec![Col::A(2), Col::A(3), Col::A(1)],
            gates: vec![vec![Sel(0) * (A(1, 0) - Ch(1) * A(3, 0)), Sel(0) * (A(2, 0) - A(3, 0) * (Ch(0) + Ch(1)))], vec![Sel(0) * (A(0, 0) - A(3, 0))]],
            lookups: vec![vec![(A(2, 0) * Ch(0), A(2, 0) * Ch(0))]],
            ..Default::default()
        },
        Body { sel: vec![rows(&[0])], copies: vec![((Col::A(2), 1), (Col::A(3), 1))], ..Default::default() },
        adv(4, 2),
        vec![],
        vec![Slot::Adv(3, 0), Slot::Adv(0, 0), Slot::Coef(1, 0, 1), Slot::Coef(2, 0, 0), Slot::Coef(2, 0, 1), Slot::Adv(2, 1), Slot::Adv(3, 1)],
        &[0, 1],
    );
    // the challenge in a lookup
    add(
        "phase-lookup",
        Spec { adv: vec![0, 1], nfix: 1, chals: vec![0], lookups: vec![vec![(A(1, 0), Ch(0) * A(0, 0))]], ..Default::default() },
        Body::default(),
        adv(2, 3),
        vec![],
        vec![Slot::Adv(0, 0), Slot::Adv(0, 2), Slot::Coef(1, 1, 0), Slot::Adv(1, 1)],
        &[0, 1, 2],
    );
    // no constraints at all, and only an instance column
    add("empty", Spec { adv: vec![0], ..Default::default() }, Body::default(), adv(1, 1), vec![], vec![Slot::Adv(0, 0)], &[0, 1]);
    add(
        "instance-only",
        Spec { ninst: 1, adv: vec![0], gates: vec![vec![I(0, 0) - I(0, 0)]], ..Default::default() },
        Body::default(),
        adv(1, 1),
        vec![vec![0]],
        vec![Slot::Inst(0, 0)],
        &[0, 1],
    );
    out
}

/// The cells that `copy_bodies` connects: two advice columns, a fixed and an instance column.
pub const COPY_CELLS: [(Col, usize); 6] = [(Col::A(0), 0), (Col::A(0), 1), (Col::A(1), 0), (Col::A(1), 7), (Col::F(0), 0), (Col::I(0), 1)];

/// Sequences of `len` copy constraints over COPY_CELLS, by index.
pub fn copy_edges() -> Vec<(usize, usize)> {
    let mut e = vec![];
    for i in 0..6 {
        for j in 0..6 {
            if i != j && !(i == 5 && j == 5) {
                // both directions: the real merge is not symmetric in its code
                e.push((i, j));
            }
        }
    }
    e
}

/// Leaves, then all expressions built from them by one operation.
pub fn leaves() -> Vec<Ex> {
    vec![C(0), C(1), C(2), C(-1), F(0, 0), F(0, 1), A(0, 0), A(0, 1), A(1, -1), I(0, 0), Ch(0)]
}
pub fn depth1() -> Vec<Ex> {
    let l = leaves();
    let mut out = l.clone();
    for a in &l {
        out.push(-a.clone());
        for c in [0, 1, 2, -1] {
            out.push(a.clone().scale(c));
        }
        for b in &l {
            out.push(a.clone() + b.clone());
            out.push(a.clone() - b.clone());
            out.push(a.clone() * b.clone());
        }
    }
    out
}

/// A circuit whose gates assert, on two rows, that column `2 + i` equals expression i.
pub fn expr_gates(es: &[Ex]) -> (Tiny, Vec<Vec<i64>>) {
    let n = es.len();
    let mut a = vec![0u8, 0];
    a.extend(vec![1; n]);
    let spec = Spec {
        adv: a,
        nfix: 1,
        ninst: 1,
        sels: vec![false],
        chals: vec![0],
        gates: es.iter().enumerate().map(|(i, e)| vec![Sel(0) * (e.clone() - A(2 + i, 0))]).collect(),
        ..Default::default()
    };
    let body = Body { fixed: vec![vec![9, 5, 3, 7]], sel: vec![rows(&[1, 2])], ..Default::default() };
    let mut cols = vec![vec![v(4), v(2), v(11), v(6)], vec![v(13), v(8), v(-3)]];
    for e in es {
        cols.push(vec![v(0), vx(e), vx(e)]);
    }
    let inst = vec![vec![3, 17, 19]];
    (Tiny { spec: Arc::new(spec), body: Arc::new(body), adv: cols, inst: inst.clone(), known: true }, inst)
}

/// A circuit looking up expression i (where a selector is on) in column `2 + i` or the other way round.
pub fn expr_lookups(es: &[Ex], swap: bool) -> (Tiny, Vec<Vec<i64>>) {
    let n = es.len();
    let mut a = vec![0u8, 0];
    a.extend(vec![1; n]);
    let spec = Spec {
        adv: a,
        nfix: 1,
        ninst: 1,
        sels: vec![true],
        chals: vec![0],
        lookups: es
            .iter()
            .enumerate()
            .map(|(i, e)| {
                let (x, y) = (Sel(0) * e.clone(), Sel(0) * A(2 + i, 0));
                vec![if swap { (y, x) } else { (x, y) }]
            })
            .collect(),
        ..Default::default()
    };
    let body = Body { fixed: vec![vec![9, 5, 3, 7]], sel: vec![rows(&[1, 2])], ..Default::default() };
    let mut cols = vec![vec![v(4), v(2), v(11), v(6)], vec![v(13), v(8), v(-3)]];
    for e in es {
        cols.push(vec![v(0), vx(e), vx(e)]);
    }
    let inst = vec![vec![3, 17, 19]];
    (Tiny { spec: Arc::new(spec), body: Arc::new(body), adv: cols, inst: inst.clone(), known: true }, inst)
}
