//! The verifier as a function: run the real `verify_proof` on a scripted transcript (every point, scalar
//! and challenge chosen here) with a verifier backend that records the queries it is handed, and compare
//! what it checks with the protocol's definition.
use crate::tiny::fi;
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Params, Verifier};
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::msm::{DualMSM, MSMKZG};
use halo2_proofs::poly::kzg::strategy::{GuardKZG, SingleStrategy};
use halo2_proofs::poly::VerifierQuery;
use halo2_proofs::transcript::{EncodedChallenge, Transcript, TranscriptRead};
use halo2curves::bn256::{Bn256, Fr, G1Affine, G1};
use halo2curves::FieldExt;
use std::cell::RefCell;
use std::collections::HashMap;
use halo2_proofs::io;

#[derive(Clone, Copy, Debug)]
pub struct Raw(Fr);
impl EncodedChallenge<G1Affine> for Raw {
    type Input = Fr;
    fn new(i: &Fr) -> Self {
        Raw(*i)
    }
    fn get_scalar(&self) -> Fr {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Squeeze(Fr),
    CommonPoint(G1Affine),
    CommonScalar(Fr),
    Point(G1Affine),
    Scalar(Fr),
}

/// A transcript that hands out chosen values.
pub struct Script {
    pub salt: i64,
    pub log: Vec<Op>,
    /// challenge number -> value
    pub over: HashMap<usize, Fr>,
    pub nch: usize,
    pub np: usize,
    pub ns: usize,
}

fn mix(a: i64, b: i64) -> Fr {
    let x: Fr = fi(a * 7_919 + 13);
    let y: Fr = fi(b * 104_729 + 101);
    let z = (x.square() + y) * (x + y.square() * y) + fi::<Fr>(5);
    z.square() * z + x * y
}

thread_local! {
    static POINTS: RefCell<Vec<G1Affine>> = RefCell::new(vec![]);
}
fn point(i: usize) -> G1Affine {
    POINTS.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= i {
            let k = p.len() as u64;
            p.push((G1::generator() * Fr::from(k + 1000)).to_affine());
        }
        p[i]
    })
}

impl Transcript<G1Affine, Raw> for Script {
    fn squeeze_challenge(&mut self) -> Raw {
        let c = self.over.get(&self.nch).copied().unwrap_or_else(|| mix(self.salt * 3 + 1, self.nch as i64));
        self.nch += 1;
        self.log.push(Op::Squeeze(c));
        Raw(c)
    }
    fn common_point(&mut self, p: G1Affine) -> io::Result<()> {
        self.log.push(Op::CommonPoint(p));
        Ok(())
    }
    fn common_scalar(&mut self, s: Fr) -> io::Result<()> {
        self.log.push(Op::CommonScalar(s));
        Ok(())
    }
}
impl TranscriptRead<G1Affine, Raw> for Script {
    fn read_point(&mut self) -> io::Result<G1Affine> {
        let p = point(self.np);
        self.np += 1;
        self.log.push(Op::Point(p));
        Ok(p)
    }
    fn read_scalar(&mut self) -> io::Result<Fr> {
        let s = mix(self.salt * 3 + 2, self.ns as i64);
        self.ns += 1;
        self.log.push(Op::Scalar(s));
        Ok(s)
    }
}

/// (point, evaluation, commitment as printed)
pub type Q = (Fr, Fr, String);
thread_local! {
    static QUERIES: RefCell<Vec<Q>> = RefCell::new(vec![]);
}

pub fn parse_fr(hex: &str) -> Fr {
    let h = hex.trim_start_matches("0x");
    let mut acc = Fr::zero();
    for c in h.chars() {
        acc = acc * Fr::from(16) + Fr::from(c.to_digit(16).unwrap_or(0) as u64);
    }
    acc
}

pub struct Record<const QI: bool>;
impl<'params, const QI: bool> Verifier<'params, KZGCommitmentScheme<Bn256>> for Record<QI> {
    type Guard = GuardKZG<'params, Bn256>;
    type MSMAccumulator = DualMSM<'params, Bn256>;
    const QUERY_INSTANCE: bool = QI;
    fn new(_: &'params ParamsKZG<Bn256>) -> Self {
        Record
    }
    fn verify_proof<'com, E, T, I>(&self, _: &mut T, queries: I, _: DualMSM<'params, Bn256>) -> Result<Self::Guard, halo2_proofs::poly::Error>
    where
        'params: 'com,
        E: EncodedChallenge<G1Affine>,
        T: TranscriptRead<G1Affine, E>,
        I: IntoIterator<Item = VerifierQuery<'com, G1Affine, MSMKZG<Bn256>>> + Clone,
    {
        QUERIES.with(|q| {
            let mut q = q.borrow_mut();
            q.clear();
            for x in queries {
                // VerifierQuery { point: 0x.., commitment: .., eval: 0x.. }
                let s = format!("{:?}", x);
                let field = |name: &str| {
                    let i = s.find(&format!("{}: 0x", name)).expect("query prints its fields") + name.len() + 2;
                    parse_fr(&s[i..i + 66])
                };
                let c0 = s.find("commitment: ").unwrap() + 12;
                let c1 = s.rfind(", eval").unwrap_or(s.len());
                q.push((field("point"), field("eval"), s[c0..c1].to_string()));
            }
        });
        Err(halo2_proofs::poly::Error::OpeningError)
    }
}

/// One scripted run: the log of transcript operations and the queries.
pub fn run(params: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, insts: &[Vec<Vec<Fr>>], query_instance: bool, salt: i64, over: HashMap<usize, Fr>) -> Result<(Vec<Op>, Vec<Q>), String> {
    let cols: Vec<Vec<&[Fr]>> = insts.iter().map(|i| crate::prove::refs(i)).collect();
    let inst: Vec<&[&[Fr]]> = cols.iter().map(|c| &c[..]).collect();
    let mut t = Script { salt, log: vec![], over, nch: 0, np: 0, ns: 0 };
    QUERIES.with(|q| q.borrow_mut().clear());
    let r = if query_instance {
        verify_proof::<KZGCommitmentScheme<Bn256>, Record<true>, _, _, _>(params, vk, SingleStrategy::new(params), &inst, &mut t)
    } else {
        verify_proof::<KZGCommitmentScheme<Bn256>, Record<false>, _, _, _>(params, vk, SingleStrategy::new(params), &inst, &mut t)
    };
    match r {
        Err(Error::Opening) => {}
        Err(e) => return Err(format!("{:?}", e)),
        Ok(_) => return Err("the verifier accepted although the opening was refused".into()),
    }
    Ok((t.log, QUERIES.with(|q| q.borrow().clone())))
}

fn ev(e: &Expression<Fr>, q: &dyn Fn(char, usize, i32) -> Fr, ch: &[Fr]) -> Fr {
    match e {
        Expression::Constant(c) => *c,
        Expression::Selector(_) => panic!("a selector is left in the key's constraint system"),
        Expression::Fixed(x) => q('f', x.column_index(), x.rotation().0),
        Expression::Advice(x) => q('a', x.column_index(), x.rotation().0),
        Expression::Instance(x) => q('i', x.column_index(), x.rotation().0),
        Expression::Challenge(c) => ch[c.index()],
        Expression::Negated(a) => -ev(a, q, ch),
        Expression::Sum(a, b) => ev(a, q, ch) + ev(b, q, ch),
        Expression::Product(a, b) => ev(a, q, ch) * ev(b, q, ch),
        Expression::Scaled(a, s) => ev(a, q, ch) * s,
    }
}

/// What the protocol's definition makes of a scripted run.
pub struct Expected {
    /// values of all constraints (before folding with y)
    pub constraints: Vec<Fr>,
    pub queries: Vec<Q>,
    pub xn1: Fr,
    pub y_index: usize,
    pub h: (Fr, Vec<(Fr, String)>),
}

/// Walk through the log as the protocol prescribes.
pub fn expected(params: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, insts: &[Vec<Vec<Fr>>], query_instance: bool, log: &[Op]) -> Result<Expected, String> {
    let cs = vk.cs();
    let n = params.n() as usize;
    let np = insts.len();
    let mut pos = 0usize;
    let mut nch = 0usize;
    macro_rules! next {
        ($pat:pat => $e:expr, $what:expr) => {{
            let o = log.get(pos).cloned();
            pos += 1;
            match o {
                Some($pat) => $e,
                o => return Err(format!("transcript operation {}: expected {}, found {:?}", pos - 1, $what, o)),
            }
        }};
    }
    macro_rules! squeeze {
        ($what:expr) => {{
            nch += 1;
            next!(Op::Squeeze(c) => c, $what)
        }};
    }
    next!(Op::CommonScalar(_) => (), "the key's digest");
    let mut inst_com: Vec<Vec<G1Affine>> = vec![];
    for i in insts {
        let mut cc = vec![];
        for c in i {
            if query_instance {
                let p = next!(Op::CommonPoint(p) => p, "an instance commitment");
                let mut poly = c.clone();
                poly.resize(n, Fr::zero());
                let want = lagrange_commit(params, &poly);
                if p != want {
                    return Err("instance commitment is not the commitment to the instance".into());
                }
                cc.push(p);
            } else {
                for val in c {
                    let s = next!(Op::CommonScalar(s) => s, "an instance value");
                    if s != *val {
                        return Err("absorbed instance value differs".into());
                    }
                }
            }
        }
        inst_com.push(cc);
    }
    let phases = cs.advice_column_phase();
    let chph = cs.challenge_phase();
    let mut adv = vec![vec![G1Affine::default(); cs.num_advice_columns()]; np];
    let mut chals = vec![Fr::zero(); cs.num_challenges()];
    let maxp = phases.iter().chain(chph.iter()).copied().max().unwrap_or(0);
    for ph in 0..=maxp {
        for a in adv.iter_mut() {
            for (i, p) in phases.iter().enumerate() {
                if *p == ph {
                    a[i] = next!(Op::Point(p) => p, "an advice commitment");
                }
            }
        }
        for (i, p) in chph.iter().enumerate() {
            if *p == ph {
                chals[i] = squeeze!("a phase challenge");
            }
        }
    }
    let theta = squeeze!("theta");
    let lk = cs.lookups();
    let mut permuted = vec![];
    for _ in 0..np {
        let mut v = vec![];
        for _ in lk {
            let a = next!(Op::Point(p) => p, "permuted input");
            let s = next!(Op::Point(p) => p, "permuted table");
            v.push((a, s));
        }
        permuted.push(v);
    }
    let beta = squeeze!("beta");
    let gamma = squeeze!("gamma");
    let pcols = cs.permutation().get_columns();
    let degree = cs.degree();
    let chunk = degree - 2;
    let nsets = (pcols.len() + chunk - 1) / chunk;
    let mut zs = vec![];
    for _ in 0..np {
        let mut v = vec![];
        for _ in 0..nsets {
            v.push(next!(Op::Point(p) => p, "permutation product"));
        }
        zs.push(v);
    }
    let mut lz = vec![];
    for _ in 0..np {
        let mut v = vec![];
        for _ in lk {
            v.push(next!(Op::Point(p) => p, "lookup product"));
        }
        lz.push(v);
    }
    let rnd = next!(Op::Point(p) => p, "the random polynomial");
    let y_index = nch;
    let _y = squeeze!("y");
    let mut hs = vec![];
    for _ in 0..degree - 1 {
        hs.push(next!(Op::Point(p) => p, "a piece of h"));
    }
    let x = squeeze!("x");
    // evaluations
    let omega = omega(params.k());
    let rot = |r: i32| if r >= 0 { x * omega.pow(&[r as u64, 0, 0, 0]) } else { x * omega.invert().unwrap().pow(&[(-r) as u64, 0, 0, 0]) };
    let xn = x.pow(&[n as u64, 0, 0, 0]);
    let li = |i: usize| {
        let w = omega.pow(&[i as u64, 0, 0, 0]);
        w * (xn - Fr::one()) * (Fr::from(n as u64) * (x - w)).invert().unwrap()
    };
    let mut queries: Vec<Q> = vec![];
    let show = |p: &G1Affine| format!("Commitment({:?})", p);
    let mut vals: Vec<HashMap<(char, usize, i32), Fr>> = vec![HashMap::new(); np];
    if query_instance {
        for p in 0..np {
            for (c, r) in cs.instance_queries() {
                let e = next!(Op::Scalar(s) => s, "an instance evaluation");
                vals[p].insert(('i', c.index(), r.0), e);
                queries.push((rot(r.0), e, show(&inst_com[p][c.index()])));
            }
        }
    } else {
        for p in 0..np {
            for (c, r) in cs.instance_queries() {
                let at = rot(r.0);
                let atn = at.pow(&[n as u64, 0, 0, 0]);
                let mut e = Fr::zero();
                for (i, val) in insts[p][c.index()].iter().enumerate() {
                    let w = omega.pow(&[i as u64, 0, 0, 0]);
                    e += *val * w * (atn - Fr::one()) * (Fr::from(n as u64) * (at - w)).invert().unwrap();
                }
                vals[p].insert(('i', c.index(), r.0), e);
            }
        }
    }
    for p in 0..np {
        for (c, r) in cs.advice_queries() {
            let e = next!(Op::Scalar(s) => s, "an advice evaluation");
            vals[p].insert(('a', c.index(), r.0), e);
            queries.push((rot(r.0), e, show(&adv[p][c.index()])));
        }
    }
    for (c, r) in cs.fixed_queries() {
        let e = next!(Op::Scalar(s) => s, "a fixed evaluation");
        for v in vals.iter_mut() {
            v.insert(('f', c.index(), r.0), e);
        }
        queries.push((rot(r.0), e, show(&vk.fixed_commitments()[c.index()])));
    }
    let re = next!(Op::Scalar(s) => s, "the random evaluation");
    queries.push((x, re, show(&rnd)));
    let mut sig = vec![];
    for c in vk.permutation().commitments() {
        let e = next!(Op::Scalar(s) => s, "a sigma evaluation");
        queries.push((x, e, show(c)));
        sig.push(e);
    }
    if sig.len() != pcols.len() {
        return Err("the key has another number of sigma commitments than permuted columns".into());
    }
    let bf = cs.blinding_factors() as i32;
    let mut zev = vec![];
    for p in 0..np {
        let mut v = vec![];
        for i in 0..nsets {
            let a = next!(Op::Scalar(s) => s, "z");
            let b = next!(Op::Scalar(s) => s, "z next");
            queries.push((x, a, show(&zs[p][i])));
            queries.push((rot(1), b, show(&zs[p][i])));
            let l = if i + 1 < nsets {
                let l = next!(Op::Scalar(s) => s, "z last");
                queries.push((rot(-(bf + 1)), l, show(&zs[p][i])));
                l
            } else {
                Fr::zero()
            };
            v.push((a, b, l));
        }
        zev.push(v);
    }
    let mut lev = vec![];
    for p in 0..np {
        let mut v = vec![];
        for i in 0..lk.len() {
            let z = next!(Op::Scalar(s) => s, "lookup z");
            let zn = next!(Op::Scalar(s) => s, "lookup z next");
            let a = next!(Op::Scalar(s) => s, "permuted input");
            let ai = next!(Op::Scalar(s) => s, "permuted input prev");
            let s = next!(Op::Scalar(s) => s, "permuted table");
            queries.push((x, z, show(&lz[p][i])));
            queries.push((rot(1), zn, show(&lz[p][i])));
            queries.push((x, a, show(&permuted[p][i].0)));
            queries.push((rot(-1), ai, show(&permuted[p][i].0)));
            queries.push((x, s, show(&permuted[p][i].1)));
            v.push((z, zn, a, ai, s));
        }
        lev.push(v);
    }
    if pos != log.len() {
        return Err(format!("unexpected transcript operation {:?}", log[pos]));
    }
    // constraints
    let bf = bf as usize;
    let l0 = li(0);
    let llast = li(n - bf - 1);
    let lblind: Fr = (n - bf..n).map(li).fold(Fr::zero(), |a, b| a + b);
    let active = Fr::one() - llast - lblind;
    let mut out = vec![];
    for p in 0..np {
        let q = |t: char, c: usize, r: i32| *vals[p].get(&(t, c, r)).unwrap_or_else(|| panic!("no evaluation of {}{} at {}", t, c, r));
        for g in cs.gates() {
            for e in g.polynomials() {
                out.push(ev(e, &q, &chals));
            }
        }
        if nsets > 0 {
            out.push(l0 * (Fr::one() - zev[p][0].0));
            let z = zev[p][nsets - 1].0;
            out.push(llast * (z.square() - z));
        }
        for i in 1..nsets {
            out.push(l0 * (zev[p][i].0 - zev[p][i - 1].2));
        }
        for i in 0..nsets {
            let (mut l, mut r) = (zev[p][i].1, zev[p][i].0);
            for j in i * chunk..((i + 1) * chunk).min(pcols.len()) {
                let c = &pcols[j];
                let t = match c.column_type() {
                    Any::Advice(_) => 'a',
                    Any::Fixed => 'f',
                    Any::Instance => 'i',
                };
                let val = q(t, c.index(), 0);
                l *= val + beta * sig[j] + gamma;
                r *= val + beta * x * delta().pow(&[j as u64, 0, 0, 0]) + gamma;
            }
            out.push(active * (l - r));
        }
        for (i, l) in lk.iter().enumerate() {
            let (z, zn, a, ai, s) = lev[p][i];
            let comp = |es: &Vec<Expression<Fr>>| es.iter().fold(Fr::zero(), |acc, e| acc * theta + ev(e, &q, &chals));
            out.push(l0 * (Fr::one() - z));
            out.push(llast * (z.square() - z));
            out.push(active * (zn * (a + beta) * (s + gamma) - z * (comp(&l.input_expressions) + beta) * (comp(&l.table_expressions) + gamma)));
            out.push(l0 * (a - s));
            out.push(active * (a - s) * (a - ai));
        }
    }
    let mut hp = vec![];
    let mut pw = Fr::one();
    for h in &hs {
        hp.push((pw, format!("{:?}", G1::from(*h))));
        pw *= xn;
    }
    Ok(Expected { constraints: out, queries, xn1: xn - Fr::one(), y_index, h: (x, hp) })
}

fn delta() -> Fr {
    <Fr as FieldExt>::DELTA
}

pub fn omega(k: u32) -> Fr {
    let mut w = Fr::root_of_unity();
    for _ in k..Fr::S {
        w = w.square();
    }
    w
}

/// Commitment to a polynomial given by its values, by the definition (the secret of the set-up is known here).
pub fn lagrange_commit(params: &ParamsKZG<Bn256>, values: &[Fr]) -> G1Affine {
    let s = Fr::from(42) + Fr::from(7919).square();
    let n = values.len();
    let w = omega(params.k());
    let sn = s.pow(&[n as u64, 0, 0, 0]) - Fr::one();
    let mut acc = Fr::zero();
    let mut wi = Fr::one();
    for v in values {
        acc += *v * wi * sn * (Fr::from(n as u64) * (s - wi)).invert().unwrap();
        wi *= w;
    }
    (G1::generator() * acc).to_affine()
}

fn interpolate(ys: &[Fr]) -> Vec<Fr> {
    // coefficients of the polynomial with value ys[i] at i
    let n = ys.len();
    let mut out = vec![Fr::zero(); n];
    for i in 0..n {
        let mut num = vec![Fr::one()];
        let mut den = Fr::one();
        for j in 0..n {
            if i == j {
                continue;
            }
            let mut nx = vec![Fr::zero(); num.len() + 1];
            for (d, c) in num.iter().enumerate() {
                nx[d + 1] += *c;
                nx[d] -= *c * Fr::from(j as u64);
            }
            num = nx;
            den *= fi::<Fr>(i as i64 - j as i64);
        }
        let s = ys[i] * den.invert().unwrap();
        for (d, c) in num.iter().enumerate() {
            out[d] += *c * s;
        }
    }
    out
}

/// Compare what the real verifier checks with the definition, for this key and these instances.
/// Returns (constraints, queries) compared.
pub fn compare(params: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, insts: &[Vec<Vec<Fr>>], query_instance: bool) -> Result<(usize, usize), String> {
    let mut sigs: Vec<(Vec<Fr>, Vec<Fr>)> = vec![];
    let mut counts = (0, 0);
    for salt in [1i64, 2] {
        let (log, qs) = run(params, vk, insts, query_instance, salt, HashMap::new())?;
        let e = expected(params, vk, insts, query_instance, &log)?;
        for q in &e.queries {
            if !qs.contains(q) {
                return Err(format!("the verifier does not query {:?}", q));
            }
        }
        // the folded quotient
        let is_h = |q: &Q| q.2.starts_with("MSM(");
        let h: Vec<&Q> = qs.iter().filter(|q| is_h(q)).collect();
        if h.len() != 1 || h[0].0 != e.h.0 {
            return Err("the quotient is not queried once, at x".into());
        }
        for (pw, base) in &e.h.1 {
            if !h[0].2.contains(base) || !h[0].2.contains(&format!("{:?}", pw)) {
                return Err("the quotient is not combined from its pieces by powers of x^n".into());
            }
        }
        let m = e.constraints.len();
        let mut ys = vec![];
        for i in 0..m + 1 {
            let (log2, q2) = run(params, vk, insts, query_instance, salt, [(e.y_index, Fr::from(i as u64))].into_iter().collect())?;
            if log2.len() != log.len() {
                return Err("transcript operations depend on y".into());
            }
            let h = q2.iter().find(|q| is_h(q)).ok_or("no quotient query")?;
            ys.push(h.1 * e.xn1);
        }
        let coeffs = interpolate(&ys);
        counts = (m, e.queries.len());
        sigs.push((e.constraints, coeffs));
    }
    // as multisets, up to a constant factor per constraint
    let ratio = |a: Fr, b: Fr| -> Option<Fr> { Option::<Fr>::from(b.invert()).map(|i| a * i) };
    let mut have: Vec<Option<Fr>> = sigs[0].1.iter().zip(&sigs[1].1).map(|(a, b)| ratio(*a, *b)).collect();
    let zero: Fr = Fr::zero();
    let mut zeros = sigs[0].1.iter().zip(&sigs[1].1).filter(|(a, b)| **a == zero && **b == zero).count();
    for (i, (a, b)) in sigs[0].0.iter().zip(&sigs[1].0).enumerate() {
        if *a == zero && *b == zero {
            if zeros == 0 {
                return Err(format!("constraint {} (identically zero) is missing", i));
            }
            zeros -= 1;
            continue;
        }
        let w = ratio(*a, *b);
        match have.iter().position(|h| *h == w && h.is_some()) {
            Some(j) => {
                have[j] = None;
            }
            None => return Err(format!("the verifier does not check constraint {} of {} (order: gates, permutation, lookups, per circuit)", i, sigs[0].0.len())),
        }
    }
    Ok(counts)
}
