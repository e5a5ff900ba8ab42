//! C25: the elliptic curve gadget computes and constrains the group law.
//!
//! The real chip is laid out; its constraints become a system of equations over copy classes.
//! * addition and point witnessing: the system reinterpreted over small fields whose curve y^2 = x^3 + 5 has
//!   the properties the gadget relies on; all witnesses, compared with the group law;
//! * over the Pasta field: results of every operation over an alphabet of points and scalars, and a forging
//!   prover that alters every variable and recomputes the rest.
use ff::Field;
use group::prime::PrimeCurveAffine;
use group::Curve;
use halo2_gadgets::ecc::chip::{compute_lagrange_coeffs, find_zs_and_us, EccChip, EccConfig};
use halo2_gadgets::ecc::{FixedPoint, FixedPointBaseField, FixedPointShort, NonIdentityPoint, Point, ScalarFixed, ScalarFixedShort, ScalarVar};
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use mc::eccset::*;
use mc::forge::*;
use mc::zp::Zp;
use mc::*;
use num_bigint::BigUint;
use std::collections::{BTreeSet, HashMap};

// ---- the circuit

#[derive(Clone, Debug)]
enum Op {
    Witness(A),
    WitnessNonId(A),
    /// points (possibly the identity), as Point
    Add(A, A),
    /// non-identity operands, through NonIdentityPoint::add
    AddNonId(A, A),
    Incomplete(A, A),
    Mul(B, A),
    Full(S),
    /// magnitude, sign
    Short(B, B),
    Elem(B),
    Equal(A, A),
    /// P + Q + P with the result of one operation fed into the next
    Chain(A, A),
}

#[derive(Clone)]
struct Circ(Op);
#[derive(Clone)]
struct Cfg {
    ecc: EccConfig<Bases>,
    io: Column<Instance>,
    a: Column<Advice>,
    t: TableColumn,
}

impl Circuit<B> for Circ {
    type Config = Cfg;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<B>) -> Cfg {
        let advices = [(); 10].map(|_| meta.advice_column());
        let table = meta.lookup_table_column();
        let lag = [(); 8].map(|_| meta.fixed_column());
        // the constants column is one of the coefficient columns, as in the documentation of the gadget
        let constants = meta.fixed_column();
        meta.enable_constant(constants);
        let io = meta.instance_column();
        meta.enable_equality(io);
        let a = meta.advice_column();
        meta.enable_equality(a);
        let rc = LookupRangeCheckConfig::configure(meta, advices[9], table);
        Cfg { ecc: EccChip::<Bases>::configure(meta, advices, lag, rc), io, a, t: table }
    }
    fn synthesize(&self, c: Cfg, mut l: impl Layouter<B>) -> Result<(), Error> {
        let chip = EccChip::<Bases>::construct(c.ecc.clone());
        let mut io: Vec<Cell> = vec![];
        macro_rules! input {
            ($v:expr) => {{
                let v = $v;
                let x: Cell = l.assign_region(|| "in", |mut r| r.assign_advice(|| "in", c.a, 0, || Value::known(v)))?;
                io.push(x.clone());
                x
            }};
        }
        macro_rules! pt {
            ($p:expr) => {{
                let x = Point::new(chip.clone(), l.namespace(|| "p"), Value::known($p))?;
                io.push(x.inner().x());
                io.push(x.inner().y());
                x
            }};
        }
        macro_rules! ni {
            ($p:expr) => {{
                let x = NonIdentityPoint::new(chip.clone(), l.namespace(|| "p"), Value::known($p))?;
                io.push(x.inner().x());
                io.push(x.inner().y());
                x
            }};
        }
        macro_rules! out {
            ($r:expr) => {{
                let r = $r;
                io.push(r.inner().x());
                io.push(r.inner().y());
                // the x-coordinate handle is that cell
                io.push(r.extract_p().inner().clone());
            }};
        }
        match &self.0 {
            Op::Witness(p) => {
                pt!(*p);
            }
            Op::WitnessNonId(p) => {
                ni!(*p);
            }
            Op::Add(p, q) => {
                let (p, q) = (pt!(*p), pt!(*q));
                out!(p.add(l.namespace(|| "add"), &q)?);
            }
            Op::AddNonId(p, q) => {
                let (p, q) = (ni!(*p), ni!(*q));
                out!(p.add(l.namespace(|| "add"), &q)?);
            }
            Op::Incomplete(p, q) => {
                let (p, q) = (ni!(*p), ni!(*q));
                out!(p.add_incomplete(l.namespace(|| "add"), &q)?);
            }
            Op::Chain(p, q) => {
                let (p, q) = (ni!(*p), pt!(*q));
                let r = p.add(l.namespace(|| "add"), &q)?;
                out!(r.add(l.namespace(|| "add 2"), &p)?);
            }
            Op::Equal(p, q) => {
                let (p, q) = (ni!(*p), pt!(*q));
                p.constrain_equal(l.namespace(|| "eq"), &q)?;
            }
            Op::Mul(k, p) => {
                let p = ni!(*p);
                let k = input!(*k);
                load_table(&mut l, c.t)?;
                let s = ScalarVar::from_base(chip.clone(), l.namespace(|| "s"), &k)?;
                out!(p.mul(l.namespace(|| "mul"), s)?.0);
            }
            Op::Full(s) => {
                let s = ScalarFixed::new(chip.clone(), l.namespace(|| "s"), Value::known(*s))?;
                out!(FixedPoint::from_inner(chip.clone(), Full).mul(l.namespace(|| "mul"), s)?.0);
            }
            Op::Short(m, s) => {
                let (m, s) = (input!(*m), input!(*s));
                let s = ScalarFixedShort::new(chip.clone(), l.namespace(|| "s"), (m, s))?;
                out!(FixedPointShort::from_inner(chip.clone(), Short).mul(l.namespace(|| "mul"), s)?.0);
            }
            Op::Elem(e) => {
                let e = input!(*e);
                load_table(&mut l, c.t)?;
                out!(FixedPointBaseField::from_inner(chip.clone(), Elem).mul(l.namespace(|| "mul"), e)?);
            }
        }
        for (i, x) in io.iter().enumerate() {
            l.constrain_instance(x.cell(), c.io, i)?;
        }
        Ok(())
    }
}

fn size(op: &Op) -> u32 {
    match op {
        Op::Mul(..) | Op::Elem(..) => 11,
        Op::Full(..) | Op::Short(..) => 8,
        _ => 5,
    }
}

fn lay(op: &Op) -> Result<Laid, Error> {
    mc::eccset::lay(size(op), &Circ(op.clone()))
}

/// What the operation has to give: Ok(output point) / Err: must not be satisfiable (or refuse).
fn expected(op: &Op) -> Result<Vec<B>, ()> {
    let pts = |ps: &[&A]| ps.iter().flat_map(|p| vec![xy(p).0, xy(p).1]).collect::<Vec<B>>();
    let out = |p: A| {
        let (x, y) = xy(&p);
        vec![x, y, x]
    };
    let id = A::default();
    Ok(match op {
        Op::Witness(p) => pts(&[p]),
        Op::WitnessNonId(p) => {
            if *p == id {
                return Err(());
            }
            pts(&[p])
        }
        Op::Add(p, q) => [pts(&[p, q]), out((p.to_curve() + q).to_affine())].concat(),
        Op::AddNonId(p, q) => {
            if *p == id || *q == id {
                return Err(());
            }
            [pts(&[p, q]), out((p.to_curve() + q).to_affine())].concat()
        }
        Op::Incomplete(p, q) => {
            if *p == id || *q == id || p == q || *p == -*q {
                return Err(());
            }
            [pts(&[p, q]), out((p.to_curve() + q).to_affine())].concat()
        }
        Op::Chain(p, q) => {
            if *p == id {
                return Err(());
            }
            [pts(&[p, q]), out((p.to_curve() + q + p).to_affine())].concat()
        }
        Op::Equal(p, q) => {
            if *p == id || p != q {
                return Err(());
            }
            pts(&[p, q])
        }
        Op::Mul(k, p) => {
            if *p == id {
                return Err(());
            }
            [pts(&[p]), vec![*k], out((*p * from_big::<S>(&big(k))).to_affine())].concat()
        }
        Op::Full(s) => out((g() * s).to_affine()),
        Op::Short(m, s) => {
            if big(m).bits() > 64 || (*s != B::one() && *s != -B::one()) {
                return Err(());
            }
            let r = (g() * from_big::<S>(&big(m))).to_affine();
            [vec![*m, *s], out(if *s == B::one() { r } else { -r })].concat()
        }
        Op::Elem(e) => [vec![*e], out((g() * from_big::<S>(&big(e))).to_affine())].concat(),
    })
}

fn honest(op: &Op, refuse_ok: bool) -> Result<bool, String> {
    let r = guard(|| lay(op))?;
    match (r, expected(op)) {
        (Err(e), Ok(_)) => {
            if refuse_ok {
                Ok(false)
            } else {
                Err(format!("refused: {:?}", e))
            }
        }
        (Err(_), Err(())) => Ok(false),
        (Ok(l), e) => {
            let bad = if l.sys.broken { Some(0) } else { l.sys.check(&l.sys.honest) };
            let got: Vec<B> = l.io.iter().map(|v| l.sys.honest[*v]).collect();
            match (bad, e) {
                (None, Err(())) => Err("an operation without a result is satisfied".into()),
                (Some(_), Err(())) => Ok(false),
                (Some(c), Ok(_)) => Err(format!("constraint {} on variables {:?} does not hold for the chip's own witness", c, l.sys.cons[c].1.iter().map(|v| l.sys.name[*v]).collect::<Vec<_>>())),
                (None, Ok(e)) => {
                    if got != e {
                        return Err(format!("inputs and outputs {:?}, expected {:?}", got, e));
                    }
                    Ok(true)
                }
            }
        }
    }
}

// ---- small fields

fn small<const P: u64>(c: &B) -> Option<Zp<P>> {
    let v = big(c);
    let lim = BigUint::from(1u64 << 20);
    let num = |v: BigUint| Zp::<P>(v.to_u64_digits().first().cloned().unwrap_or(0) % P);
    if v < lim {
        return Some(num(v));
    }
    let n = p_mod() - v;
    if n < lim {
        return Some(-num(n));
    }
    None
}

/// The laid-out operation's equations over F_P (copy classes as variables), or None if a constant has no small form.
fn small_sys<const P: u64>(op: &Op) -> Option<(Vec<T<Zp<P>>>, usize, Vec<usize>)> {
    let l = lay(op).ok()?;
    let mut cons = vec![];
    for (c, _) in &l.sys.cons {
        match c {
            Con::Poly(t) => cons.push(t.cast(&|c| small::<P>(c))?),
            Con::Lookup(..) => return None,
        }
    }
    Some((cons, l.sys.honest.len(), l.io.clone()))
}

type Pt = (u64, u64);
fn curve<const P: u64>() -> Vec<Pt> {
    let mut v = vec![(0, 0)];
    for x in 0..P {
        for y in 0..P {
            if (y * y) % P == (x * x % P * x + 5) % P {
                v.push((x, y));
            }
        }
    }
    v
}
fn padd<const P: u64>(a: Pt, b: Pt) -> Pt {
    if a == (0, 0) {
        return b;
    }
    if b == (0, 0) {
        return a;
    }
    let f = |x: u64| Zp::<P>(x);
    let (x1, y1, x2, y2) = (f(a.0), f(a.1), f(b.0), f(b.1));
    if x1 == x2 && y1 == -y2 {
        return (0, 0);
    }
    let l = if x1 == x2 { x1.square() * f(3 % P) * (y1 + y1).invert().unwrap() } else { (y2 - y1) * (x2 - x1).invert().unwrap() };
    let x = l.square() - x1 - x2;
    let y = l * (x1 - x) - y1;
    (x.0, y.0)
}

/// All witnesses of the operation over F_P for the given operands: the set of input/output tuples.
fn tuples<const P: u64>(sys: &(Vec<T<Zp<P>>>, usize, Vec<usize>), given: &[u64]) -> Result<(BTreeSet<Vec<u64>>, u64), String> {
    let (cons, n, io) = sys;
    let mut fixed = HashMap::new();
    for (v, x) in io.iter().zip(given) {
        if let Some(y) = fixed.insert(*v, Zp::<P>(*x)) {
            if y.0 != *x {
                return Ok((BTreeSet::new(), 0));
            }
        }
    }
    let dom: Vec<Zp<P>> = Zp::<P>::all().collect();
    let mut out = BTreeSet::new();
    let n = solutions(cons, *n, &fixed, &dom, &mut |v| {
        out.insert(io.iter().map(|i| v[*i].0).collect());
        Ok(())
    })?;
    Ok((out, n))
}

fn small_field<const P: u64>(ctx: &Ctx) {
    let pts = curve::<P>();
    assert!(pts.iter().skip(1).all(|p| p.0 != 0 && p.1 != 0) && pts.len() > 3);
    let (a, b, id) = (g(), times(5, g()), A::default());
    // witnessing: all (x, y)
    ctx.seq(&format!("witnessed points over F_{}", P), |rec| {
        for (name, op, zero) in [("point", Op::Witness(a), true), ("non-identity point", Op::WitnessNonId(a), false), ("identity", Op::Witness(id), true)] {
            rec.label(format!("witness {} over F_{}", name, P));
            rec.case(|rec| {
                let Some(s) = small_sys::<P>(&op) else {
                    rec.outcome("constants without small form");
                    return Ok(());
                };
                let (got, n) = tuples(&s, &[])?;
                rec.step(n);
                rec.state(&(P, name));
                rec.outcome("witness set");
                let want: BTreeSet<Vec<u64>> = pts.iter().filter(|p| zero || **p != (0, 0)).map(|p| vec![p.0, p.1]).collect();
                if got != want {
                    return Err(format!("the gadget accepts {:?}, points are {:?}", got, want));
                }
                Ok(())
            });
        }
    });
    // additions: all pairs of points, all witnesses; several layouts (operands used for the layout)
    let idx: Vec<usize> = (0..pts.len()).collect();
    ctx.par(&format!("additions over F_{}", P), &idx, |i, rec| {
        let x = pts[*i];
        for (name, op, kind) in [("add", Op::Add(a, b), 0), ("add, layout of the identity", Op::Add(id, id), 0), ("add of non-identity points", Op::AddNonId(a, b), 1), ("doubling layout", Op::AddNonId(a, a), 1), ("incomplete addition", Op::Incomplete(a, b), 2), ("chain", Op::Chain(a, b), 3)] {
            if P > 7 && (kind == 3 || kind != 2 && name != "add" && ctx.pick(true, false)) {
                continue;
            }
            let Some(s) = small_sys::<P>(&op) else {
                rec.outcome("constants without small form");
                continue;
            };
            for y in &pts {
                let y = *y;
                let want = match kind {
                    0 => Some(padd::<P>(x, y)),
                    1 => (x != (0, 0) && y != (0, 0)).then(|| padd::<P>(x, y)),
                    2 => {
                        // exceptional operands are the caller's to exclude (documented)
                        if x.0 == y.0 || x == (0, 0) || y == (0, 0) {
                            continue;
                        }
                        Some(padd::<P>(x, y))
                    }
                    _ => (x != (0, 0)).then(|| padd::<P>(padd::<P>(x, y), x)),
                };
                rec.label(format!("{} over F_{}: {:?} {:?}", name, P, x, y));
                rec.case(|rec| {
                    let (got, n) = tuples(&s, &[x.0, x.1, y.0, y.1])?;
                    rec.step(n);
                    rec.state(&(P, name, x, y));
                    rec.outcome("all witnesses");
                    let want: BTreeSet<Vec<u64>> = want.into_iter().map(|r| vec![x.0, x.1, y.0, y.1, r.0, r.1, r.0]).collect();
                    if got != want {
                        return Err(format!("accepted tuples {:?}, expected {:?}", got, want));
                    }
                    Ok(())
                });
            }
        }
    });
}

// ---- forging

fn forging(ctx: &Ctx, name: &str, op: &Op, inputs: usize, frozen_extra: Vec<usize>) {
    let l = match guard(|| lay(op)) {
        Ok(Ok(l)) => l,
        _ => return,
    };
    if l.sys.check(&l.sys.honest).is_some() {
        return;
    }
    let mut frozen: Vec<usize> = l.io[..inputs].to_vec();
    frozen.extend(frozen_extra);
    let n = l.sys.honest.len();
    let thin = n > 1000 && ctx.pick(true, false);
    let step = 16;
    ctx.par_n(&format!("forgeries: {}", name), (n + step - 1) / step, |i, rec| {
        rec.state(&(name, i));
        forge_all(rec, name, &l, &frozen, i * step..((i + 1) * step).min(n), thin);
    });
}

/// A prover that decomposes another number (congruent to the scalar or not) and computes everything else
/// from it.
fn decompositions(ctx: &Ctx, name: &str, mk: &(dyn Fn(B) -> Op + Sync), inputs: usize, n: usize, bits: usize, shift: &BigUint, ks: &[BigUint]) {
    let p = p_mod();
    // scalars whose running sums take different values everywhere
    let refs: Vec<BigUint> = [0x5au8, 0x93, 0x2e].iter().enumerate().map(|(i, b)| BigUint::from_bytes_le(&[*b; 31]) * (77u32 + i as u32 * 5) % (&p >> 2usize) + (&p >> 2usize)).collect();
    let laid: Vec<(Laid, BigUint)> = refs.iter().filter_map(|k| guard(|| lay(&mk(from_big(k)))).ok()?.ok().map(|l| (l, k.clone()))).collect();
    if laid.len() < 3 {
        return;
    }
    let zs = holding(&laid, n, &|k, j| (k + shift) >> (bits * j));
    ctx.par(&format!("other decompositions: {}", name), ks, |k, rec| {
        let Ok(Ok(l)) = guard(|| lay(&mk(from_big(k)))) else { return };
        if l.sys.check(&l.sys.honest).is_some() {
            return;
        }
        let frozen: Vec<usize> = l.io[..inputs].to_vec();
        let one = BigUint::from(1u32);
        let mine: BigUint = k + shift;
        let mut others = vec![&mine + 1u32, &mine + 2u32, &mine ^ (&one << 100usize), &mine ^ (&one << 253usize), &mine ^ (&one << 1usize), &mine + &p];
        if mine >= p {
            others.push(&mine - &p);
        }
        for o in others {
            if o.bits() > 255 {
                continue;
            }
            let seeds: Vec<(usize, B)> = zs.iter().filter(|(v, _)| !frozen.contains(v)).map(|(v, j)| (*v, from_big(&(&o >> (bits * j))))).collect();
            for late in [true, false] {
                rec.label(format!("{} of {} decomposing {} ({} running sums){}", name, k, o, seeds.len(), if late { "" } else { ", all cells recomputed" }));
                rec.state(&(name, k, &o, late));
                rec.case(|rec| {
                    let mut steps = 0;
                    let r = l.sys.forge(&frozen, &seeds, late, &mut steps);
                    rec.step(steps + 1);
                    if let Some(w) = r {
                        if l.io.iter().any(|i| w[*i] != l.sys.honest[*i]) {
                            return Err("same inputs, satisfied, but another result".into());
                        }
                        rec.outcome("other decomposition, same result");
                    } else {
                        rec.outcome("other decomposition fails");
                    }
                    Ok(())
                });
            }
        }
    });
}

fn main() {
    mc::main("C25", |ctx| {
        small_field::<7>(ctx);
        small_field::<37>(ctx);

        // results over the Pasta field
        let gen = g();
        let mults: Vec<i64> = (-ctx.pick(4, 8)..=ctx.pick(4, 8)).collect();
        let mut pts: Vec<A> = mults.iter().map(|k| times(*k, gen)).collect();
        let far = (gen * S::from(0x1234_5678_9abc_def0)).to_affine();
        pts.extend([far, -far]);
        let pairs: Vec<(A, A)> = pts.iter().flat_map(|p| pts.iter().map(move |q| (*p, *q))).collect();
        ctx.par("additions over the Pasta field", &pairs, |(p, q), rec| {
            for op in [Op::Witness(*p), Op::WitnessNonId(*p), Op::Add(*p, *q), Op::AddNonId(*p, *q), Op::Incomplete(*p, *q), Op::Chain(*p, *q), Op::Equal(*p, *q)] {
                rec.label(format!("{:?}", op));
                rec.state(&format!("{:?}", op));
                rec.step(1);
                rec.case(|rec| {
                    let ok = honest(&op, false)?;
                    rec.outcome(if ok { "result" } else { "refused" });
                    Ok(())
                });
            }
        });
        // scalars
        let (p, q) = (p_mod(), q_mod());
        let one = BigUint::from(1u32);
        let mut ks: Vec<BigUint> = (0..ctx.pick(12u32, 40)).map(BigUint::from).collect();
        for i in 0..=254usize {
            if i % ctx.pick(3, 1) == 0 || i > 248 || (125..135).contains(&i) {
                ks.push(&one << i);
                ks.push((&one << i) - 1u32);
            }
        }
        // p = 2^254 + t_p, q = 2^254 + t_q: around the fold, half, and the ends
        let tp: BigUint = &p - (&one << 254usize);
        let tq: BigUint = &q - (&one << 254usize);
        for c in [p.clone(), &p >> 1usize, (&one << 254usize), (&one << 254usize) - &tq, tp.clone(), tq.clone(), (&one << 130usize), &p - (&one << 130usize), &p - &tq, (&one << 64usize), &one << 253usize] {
            for d in 0..3u32 {
                ks.push(&c + d);
                if c > BigUint::from(d) {
                    ks.push(&c - d);
                }
            }
        }
        let pat = |b: u8| BigUint::from_bytes_le(&[b; 31]);
        ks.extend([0x55, 0xaa, 0x33, 0x0f, 0xff, 0x01, 0x80, 0x24].map(pat));
        ks.sort();
        ks.dedup();
        let bs: Vec<B> = ks.iter().filter(|k| k < &&p).map(|k| from_big(k)).collect();
        let bases = [gen, far, -gen];
        let muls: Vec<Op> = bs.iter().enumerate().flat_map(|(i, k)| (0..3).filter(move |j| *j == i % 3 || *j == 0).map(move |j| Op::Mul(*k, bases[j]))).collect();
        let run = |rec: &mut Rec, op: &Op| {
            rec.label(format!("{:?}", op));
            rec.state(&format!("{:?}", op));
            rec.step(1);
            rec.case(|rec| {
                let ok = honest(op, false)?;
                rec.outcome(if ok { "result" } else { "refused" });
                Ok(())
            });
        };
        ctx.par("variable-base multiplication", &muls, |op, rec| run(rec, op));
        let mut ss: Vec<S> = ks.iter().filter(|k| k < &&q).map(|k| from_big(k)).collect();
        // every window at every value
        for w in (0..85).step_by(ctx.pick(4, 1)) {
            for v in 1..8u64 {
                let x: BigUint = BigUint::from(v) << (3 * w) as usize;
                ss.push(from_big(&x.min(&q - 1u32)));
            }
        }
        for d in 0..4u32 {
            ss.push(from_big(&(&q - 1u32 - d)));
        }
        let fulls: Vec<Op> = ss.iter().map(|s| Op::Full(*s)).collect();
        ctx.par("full-width fixed-base multiplication", &fulls, |op, rec| run(rec, op));
        let elems: Vec<Op> = bs.iter().map(|k| Op::Elem(*k)).chain((0..85usize).step_by(ctx.pick(4, 1)).flat_map(|w| (1..8u64).map(move |v| BigUint::from(v) << (3 * w))).filter(|k| k < &p).map(|k| Op::Elem(from_big(&k)))).collect();
        ctx.par("base-field fixed-base multiplication", &elems, |op, rec| run(rec, op));
        let mut mags: Vec<BigUint> = (0..10u32).map(BigUint::from).collect();
        for i in 1..=66usize {
            mags.extend([&one << i, (&one << i) - 1u32]);
        }
        for w in 0..22 {
            mags.extend((1..8u64).map(|v| BigUint::from(v) << (3 * w)));
        }
        mags.extend([&p - 1u32, &p >> 1usize, (&one << 64usize) + 1u32, &one << 128usize, &one << 200usize]);
        mags.extend([0x55u8, 0xaa, 0x0f, 0x24].map(|b| BigUint::from_bytes_le(&[b; 8])));
        mags.sort();
        mags.dedup();
        let signs = [B::one(), -B::one(), B::zero(), B::from(2), B::from(3), -B::from(2)];
        let shorts: Vec<Op> = mags.iter().flat_map(|m| signs.iter().map(move |s| Op::Short(from_big(m), *s))).collect();
        ctx.par("short signed fixed-base multiplication", &shorts, |op, rec| run(rec, op));

        // tables
        ctx.seq("window tables", |rec| {
            for n in [85usize, 22, 2, 3] {
                rec.label(format!("interpolation over {} windows", n));
                rec.state(&("lagrange", n));
                rec.step(n as u64 * 8);
                rec.case(|rec| {
                    let co = compute_lagrange_coeffs(g(), n);
                    if co.len() != n {
                        return Err(format!("{} windows", co.len()));
                    }
                    for (w, c) in co.iter().enumerate() {
                        for (k, p) in window(n, w).iter().enumerate() {
                            let x = c.iter().rev().fold(B::zero(), |a, b| a * B::from(k as u64) + b);
                            if x != xy(p).0 {
                                return Err(format!("window {} value {}", w, k));
                            }
                        }
                    }
                    rec.outcome("interpolation");
                    Ok(())
                });
            }
            rec.label("find_zs_and_us".to_string());
            rec.case(|rec| {
                let r = find_zs_and_us(g(), 2).ok_or("nothing found")?;
                if r.len() != 2 {
                    return Err(format!("{} windows", r.len()));
                }
                for (w, (z, us)) in r.iter().enumerate() {
                    for (u, p) in us.iter().zip(window(2, w)) {
                        let (z, y) = (B::from(*z), xy(&p).1);
                        if u.square() != z + y || bool::from((z - y).sqrt().is_some()) {
                            return Err(format!("window {}: z {:?}", w, z));
                        }
                    }
                }
                rec.outcome("z and u");
                Ok(())
            });
        });

        // forgeries
        let f = far;
        for (name, op, inputs) in [
            ("add", Op::Add(gen, f), 4),
            ("add P + P", Op::Add(gen, gen), 4),
            ("add P - P", Op::Add(gen, -gen), 4),
            ("add P + 0", Op::Add(gen, A::default()), 4),
            ("add 0 + P", Op::Add(A::default(), gen), 4),
            ("add 0 + 0", Op::Add(A::default(), A::default()), 4),
            ("incomplete", Op::Incomplete(gen, f), 4),
            ("chain", Op::Chain(gen, f), 4),
        ] {
            forging(ctx, name, &op, inputs, vec![]);
        }
        let k0 = from_big::<B>(&(BigUint::from_bytes_le(&[0x5a; 31]) * 77u32 % &p));
        let mut mk = vec![("mul", k0), ("mul by a small scalar", B::from(6))];
        if ctx.pick(false, true) {
            mk.extend([("mul by 0", B::zero()), ("mul by -1", -B::one())]);
        }
        for (name, k) in mk {
            forging(ctx, name, &Op::Mul(k, f), 3, vec![]);
        }
        forging(ctx, "base-field element", &Op::Elem(k0), 1, vec![]);
        forging(ctx, "short, positive", &Op::Short(B::from(0xdead_beef_1234_5678), B::one()), 2, vec![]);
        forging(ctx, "short, negative", &Op::Short(B::from(0x5ead_beef_1234_5678), -B::one()), 2, vec![]);
        // the windows of the witnessed scalar are its definition
        let three = |i: u32| (BigUint::from_bytes_le(&[0x5a; 31]) * (77u32 + i) * (3u32 + i)) % &q;
        let laid: Vec<(Laid, BigUint)> = (0..6u32).filter_map(|i| guard(|| lay(&Op::Full(from_big(&three(i))))).ok()?.ok().map(|l| (l, three(i)))).collect();
        if laid.len() == 6 {
            let mut ws = vec![];
            for j in 0..85usize {
                let w = |k: &BigUint| from_big::<B>(&((k >> (3 * j)) & BigUint::from(7u32)));
                ws.extend((0..laid[0].0.sys.honest.len()).filter(|v| laid.iter().all(|(l, k)| l.sys.honest[*v] == w(k))));
            }
            forging(ctx, "full-width", &Op::Full(from_big(&three(0))), 0, ws);
        }
        // decompositions
        let e = |i: usize| &one << i;
        let mut dk: Vec<BigUint> = vec![BigUint::from(0u32), one.clone(), BigUint::from(6u32), e(100), e(129) + 5u32, e(130), e(130) * 3u32, e(131), e(132), e(133) + 1u32, e(200), e(252), e(252) * 2u32, e(253) + 7u32];
        dk.extend([&p - 1u32, &p - 2u32, &p - &tq, &p - &tq - 1u32, &p - e(100), &p - e(126), e(254) - &tq, e(254), &p >> 1usize, e(130) - &tp, e(130) - &tp - &tq, e(252) - &tp, e(253) - &tp, e(132) - &tp]);
        decompositions(ctx, "mul", &|k| Op::Mul(k, f), 3, 255, 1, &tq, &dk);
        decompositions(ctx, "base-field element", &|k| Op::Elem(k), 1, 85, 3, &BigUint::from(0u32), &dk);
    });
}
