//! C26: Sinsemilla and its Merkle path, outside and inside the circuit.
//!
//! * outside: the generator table, the hash and the commitment against their definition (curve arithmetic);
//! * inside: the chip's own witness over an alphabet of messages, paths and positions; a forging prover that
//!   alters every variable of the laid-out gadget and recomputes the rest.
use ff::PrimeField;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{EccChip, EccConfig};
use halo2_gadgets::ecc::ScalarFixed;
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_gadgets::sinsemilla::merkle::chip::{MerkleChip, MerkleConfig};
use halo2_gadgets::sinsemilla::merkle::MerklePath;
use halo2_gadgets::sinsemilla::primitives as sp;
use halo2_gadgets::sinsemilla::{CommitDomain, CommitDomains, HashDomain, HashDomains, Message, MessagePiece};
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2curves::pasta::pallas;
use halo2curves::{CurveAffine, CurveExt};
use mc::eccset::*;
use mc::*;
use num_bigint::BigUint;
use std::collections::HashSet;

const DOMAIN: &str = "verif-domain";

fn q_of(domain: &str) -> A {
    pallas::Point::hash_to_curve("z.cash:SinsemillaQ")(domain.as_bytes()).to_affine()
}
fn s_of(w: usize) -> A {
    pallas::Point::hash_to_curve("z.cash:SinsemillaS")(&(w as u32).to_le_bytes()).to_affine()
}
fn table() -> &'static (A, Vec<A>) {
    static INIT: std::sync::Once = std::sync::Once::new();
    static mut T: Option<(A, Vec<A>)> = None;
    INIT.call_once(|| unsafe { T = Some((q_of(DOMAIN), (0..1024).map(s_of).collect())) });
    unsafe { T.as_ref().unwrap() }
}

/// The definition: fold over words with incomplete addition; None is the undefined result.
fn reference(q: A, words: &[usize]) -> Option<A> {
    let mut acc = q.to_curve();
    let add = |a: pallas::Point, b: pallas::Point| (!bool::from(a.is_identity() | b.is_identity()) && a != b && a != -b).then(|| a + b);
    for w in words {
        let t = add(acc, table().1[*w].to_curve())?;
        acc = add(t, acc)?;
    }
    Some(acc.to_affine())
}
fn words_of_bits(bits: &[bool]) -> Vec<usize> {
    bits.chunks(10).map(|c| c.iter().enumerate().map(|(i, b)| (*b as usize) << i).sum()).collect()
}
fn bits(v: &BigUint, n: usize) -> Vec<bool> {
    (0..n).map(|i| ((v >> i) & BigUint::from(1u32)) == BigUint::from(1u32)).collect()
}

#[derive(Debug, Clone, Eq, PartialEq)]
struct Hd;
impl HashDomains<A> for Hd {
    fn Q(&self) -> A {
        table().0
    }
}
#[derive(Debug, Clone, Eq, PartialEq)]
struct Cd;
impl CommitDomains<A, Bases, Hd> for Cd {
    fn r(&self) -> Full {
        Full
    }
    fn hash_domain(&self) -> Hd {
        Hd
    }
}

/// A piece: value and number of words.
type Piece = (BigUint, usize);

#[derive(Clone, Debug)]
enum Op {
    HashPoint(Vec<Piece>),
    Hash(Vec<Piece>),
    Commit(Vec<Piece>, S),
    ShortCommit(Vec<Piece>, S),
    /// leaf, siblings, position, number of chips
    Path(B, Vec<B>, u32, usize),
}
#[derive(Clone)]
struct Circ(Op);
#[derive(Clone)]
struct Cfg {
    ecc: EccConfig<Bases>,
    s1: SinsemillaConfig<Hd, Cd, Bases>,
    m1: MerkleConfig<Hd, Cd, Bases>,
    m2: MerkleConfig<Hd, Cd, Bases>,
    io: Column<Instance>,
    a: Column<Advice>,
}

impl Circuit<B> for Circ {
    type Config = Cfg;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<B>) -> Cfg {
        let advices = [(); 10].map(|_| meta.advice_column());
        let constants = meta.fixed_column();
        meta.enable_constant(constants);
        let lag = [(); 8].map(|_| meta.fixed_column());
        let (yq1, yq2) = (meta.fixed_column(), meta.fixed_column());
        let lookup = (meta.lookup_table_column(), meta.lookup_table_column(), meta.lookup_table_column());
        let rc = LookupRangeCheckConfig::configure(meta, advices[9], lookup.0);
        let io = meta.instance_column();
        meta.enable_equality(io);
        let a = meta.advice_column();
        meta.enable_equality(a);
        let ecc = EccChip::<Bases>::configure(meta, advices, lag, rc);
        let s1 = SinsemillaChip::configure(meta, advices[..5].try_into().unwrap(), advices[2], yq1, lookup, rc);
        let s2 = SinsemillaChip::configure(meta, advices[5..].try_into().unwrap(), advices[7], yq2, lookup, rc);
        let m1 = MerkleChip::configure(meta, s1.clone());
        let m2 = MerkleChip::configure(meta, s2);
        Cfg { ecc, s1, m1, m2, io, a }
    }
    fn synthesize(&self, c: Cfg, mut l: impl Layouter<B>) -> Result<(), Error> {
        SinsemillaChip::<Hd, Cd, Bases>::load(c.s1.clone(), &mut l)?;
        let ecc = EccChip::construct(c.ecc.clone());
        let chip = SinsemillaChip::construct(c.s1.clone());
        let mut io = vec![];
        macro_rules! message {
            ($ps:expr) => {{
                let mut v = vec![];
                for (x, n) in $ps {
                    let p = MessagePiece::from_field_elem(chip.clone(), l.namespace(|| "piece"), Value::known(from_big(x)), *n)?;
                    io.push(p.inner().cell_value());
                    v.push(p);
                }
                Message::from_pieces(chip.clone(), v)
            }};
        }
        macro_rules! sums {
            ($zs:expr) => {
                for z in $zs {
                    io.extend(z);
                }
            };
        }
        match &self.0 {
            Op::HashPoint(ps) => {
                let m = message!(ps);
                let (p, zs) = HashDomain::new(chip.clone(), ecc, &Hd).hash_to_point(l.namespace(|| "h"), m)?;
                io.push(p.inner().x());
                io.push(p.inner().y());
                sums!(zs);
            }
            Op::Hash(ps) => {
                let m = message!(ps);
                let (x, zs) = HashDomain::new(chip.clone(), ecc, &Hd).hash(l.namespace(|| "h"), m)?;
                io.push(x.inner().clone());
                sums!(zs);
            }
            Op::Commit(ps, r) => {
                let m = message!(ps);
                let r = ScalarFixed::new(ecc.clone(), l.namespace(|| "r"), Value::known(*r))?;
                let (p, zs) = CommitDomain::new(chip.clone(), ecc, &Cd).commit(l.namespace(|| "c"), m, r)?;
                io.push(p.inner().x());
                io.push(p.inner().y());
                sums!(zs);
            }
            Op::ShortCommit(ps, r) => {
                let m = message!(ps);
                let r = ScalarFixed::new(ecc.clone(), l.namespace(|| "r"), Value::known(*r))?;
                let (x, zs) = CommitDomain::new(chip.clone(), ecc, &Cd).short_commit(l.namespace(|| "c"), m, r)?;
                io.push(x.inner().clone());
                sums!(zs);
            }
            Op::Path(leaf, path, pos, par) => {
                let leaf = l.assign_region(|| "leaf", |mut r| r.assign_advice(|| "leaf", c.a, 0, || Value::known(*leaf)))?;
                io.push(leaf.clone());
                let (c1, c2) = (MerkleChip::construct(c.m1.clone()), MerkleChip::construct(c.m2.clone()));
                macro_rules! go {
                    ($n:literal) => {{
                        let p: [B; $n] = path.clone().try_into().unwrap();
                        if *par == 1 {
                            MerklePath::<A, _, $n, 10, 253, 1>::construct([c1], Hd, Value::known(*pos), Value::known(p)).calculate_root(l.namespace(|| "root"), leaf)?
                        } else if *par == 2 {
                            MerklePath::<A, _, $n, 10, 253, 2>::construct([c1, c2], Hd, Value::known(*pos), Value::known(p)).calculate_root(l.namespace(|| "root"), leaf)?
                        } else {
                            MerklePath::<A, _, $n, 10, 253, 3>::construct([c1.clone(), c2, c1], Hd, Value::known(*pos), Value::known(p)).calculate_root(l.namespace(|| "root"), leaf)?
                        }
                    }};
                }
                io.push(match path.len() {
                    1 => go!(1),
                    2 => go!(2),
                    3 => go!(3),
                    4 => go!(4),
                    5 => go!(5),
                    32 => go!(32),
                    _ => unreachable!(),
                });
            }
        }
        for (i, x) in io.iter().enumerate() {
            l.constrain_instance(x.cell(), c.io, i)?;
        }
        Ok(())
    }
}

fn size(op: &Op) -> u32 {
    match op {
        Op::Path(_, p, _, _) if p.len() > 5 => 12,
        _ => 11,
    }
}
fn layout(op: &Op) -> Result<Laid, Error> {
    lay(size(op), &Circ(op.clone()))
}

fn words(ps: &[Piece]) -> Option<Vec<usize>> {
    let mut out = vec![];
    for (x, n) in ps {
        if x.bits() as usize > 10 * n {
            return None;
        }
        out.extend(words_of_bits(&bits(x, 10 * n)));
    }
    Some(out)
}
fn layer(l: usize, left: &BigUint, right: &BigUint) -> Option<B> {
    let mut b = bits(&BigUint::from(l), 10);
    b.extend(bits(left, 255));
    b.extend(bits(right, 255));
    reference(table().0, &words_of_bits(&b)).map(|p| xy(&p).0)
}
fn root(leaf: &B, path: &[B], pos: u32) -> Option<B> {
    let mut node = *leaf;
    for (i, s) in path.iter().enumerate() {
        let (a, b) = if (pos >> i) & 1 == 0 { (node, *s) } else { (*s, node) };
        node = layer(i, &big(&a), &big(&b))?;
    }
    Some(node)
}
fn sums(ps: &[Piece]) -> Vec<B> {
    ps.iter().flat_map(|(x, n)| (0..*n).map(move |i| from_big(&(x >> (10 * i))))).collect()
}

/// Inputs and outputs in the order of the circuit; None: must not be satisfiable.
fn expected(op: &Op) -> Option<Vec<B>> {
    let vals = |ps: &[Piece]| ps.iter().map(|(x, _)| from_big(x)).collect::<Vec<B>>();
    let com = |ps: &[Piece], r: &S| Some((reference(table().0, &words(ps)?)?.to_curve() + g() * r).to_affine());
    Some(match op {
        Op::HashPoint(ps) => {
            let (x, y) = xy(&reference(table().0, &words(ps)?)?);
            [vals(ps), vec![x, y], sums(ps)].concat()
        }
        Op::Hash(ps) => [vals(ps), vec![xy(&reference(table().0, &words(ps)?)?).0], sums(ps)].concat(),
        Op::Commit(ps, r) => {
            let (x, y) = xy(&com(ps, r)?);
            [vals(ps), vec![x, y], sums(ps)].concat()
        }
        Op::ShortCommit(ps, r) => [vals(ps), vec![xy(&com(ps, r)?).0], sums(ps)].concat(),
        Op::Path(leaf, path, pos, _) => vec![*leaf, root(leaf, path, *pos)?],
    })
}

fn honest(op: &Op) -> Result<bool, String> {
    match (guard(|| layout(op))?, expected(op)) {
        (Err(_), None) => Ok(false),
        (Err(e), Some(_)) => Err(format!("refused: {:?}", e)),
        (Ok(l), e) => {
            let bad = if l.sys.broken { Some(0) } else { l.sys.check(&l.sys.honest) };
            match (bad, e) {
                (Some(_), None) => Ok(false),
                (None, None) => Err("a piece that does not fit its words is accepted".into()),
                (Some(c), Some(_)) => Err(format!("constraint {} on {:?} does not hold for the chip's own witness", c, l.sys.cons[c].1.iter().map(|v| l.sys.name[*v]).collect::<Vec<_>>())),
                (None, Some(e)) => {
                    let got: Vec<B> = l.io.iter().map(|v| l.sys.honest[*v]).collect();
                    if got != e {
                        return Err(format!("inputs and outputs {:?}, expected {:?}", got, e));
                    }
                    Ok(true)
                }
            }
        }
    }
}

/// The roots a prover may reach from a leaf: any position, and either 255-bit encoding of every node.
fn roots(leaf: &B, path: &[B]) -> Vec<B> {
    let enc = |v: &B| {
        let (a, p) = (big(v), p_mod());
        let b = &a + &p;
        if b.bits() <= 255 { vec![a, b] } else { vec![a] }
    };
    let mut now = vec![*leaf];
    for (i, s) in path.iter().enumerate() {
        let mut next = vec![];
        for node in &now {
            for (a, b) in [(node, s), (s, node)] {
                for x in enc(a) {
                    for y in enc(b) {
                        next.extend(layer(i, &x, &y));
                    }
                }
            }
        }
        now = next;
    }
    now
}

/// `allowed`: the last output may be one of these; all others keep their values.
fn forgeries(ctx: &Ctx, name: &str, op: &Op, frozen: &dyn Fn(&Laid) -> Vec<usize>, allowed: &[B]) {
    let Ok(Ok(l)) = guard(|| layout(op)) else { return };
    if l.sys.check(&l.sys.honest).is_some() {
        return;
    }
    let frozen = frozen(&l);
    let n = l.sys.honest.len();
    let step = 8;
    let thin = n > 600 && ctx.pick(true, false);
    ctx.par_n(&format!("forgeries: {}", name), (n + step - 1) / step, |i, rec| {
        rec.state(&(name, i));
        let range = i * step..((i + 1) * step).min(n);
        if allowed.is_empty() {
            return forge_all(rec, name, &l, &frozen, range, thin);
        }
        forge_judged(rec, name, &l, &frozen, range, thin, &|w| {
            let (last, rest) = l.io.split_last().unwrap();
            match rest.iter().all(|v| w[*v] == l.sys.honest[*v]) && allowed.contains(&w[*last]) {
                true => Ok(()),
                false => Err(format!("satisfied, but the root {:?} belongs to no position", w[*last])),
            }
        });
    });
}

fn main() {
    mc::main("C26", |ctx| {
        let q = table().0;
        // ---- outside the circuit
        ctx.seq("generators", |rec| {
            for w in 0..1024 {
                rec.label(format!("generator {}", w));
                rec.state(&("S", w));
                rec.step(1);
                rec.case(|rec| {
                    let (x, y) = sp::SINSEMILLA_S[w];
                    if (x, y) != xy(&table().1[w]) || bool::from(A::from_xy(x, y).is_none()) {
                        return Err("not the generator by definition".into());
                    }
                    rec.outcome("generator");
                    Ok(())
                });
            }
            rec.case(|_| {
                if sp::SINSEMILLA_S.len() != 1024 || sp::SINSEMILLA_S.iter().map(|p| p.0.to_repr()).collect::<HashSet<_>>().len() != 1024 {
                    return Err("table".into());
                }
                Ok(())
            });
        });
        // all messages of up to 12 bits; boundary messages of every length
        let short: Vec<Vec<bool>> = (0..=ctx.pick(12usize, 14)).flat_map(|n| (0..1u32 << n).map(move |v| (0..n).map(|i| (v >> i) & 1 == 1).collect())).collect();
        let mut long: Vec<Vec<bool>> = vec![];
        for n in (0..=120usize).chain([249, 250, 251, 255, 509, 510, 520, 521, 2520, 2521, 2529, 2530]) {
            long.push(vec![false; n]);
            long.push(vec![true; n]);
            long.push((0..n).map(|i| i % 3 == 1).collect());
            long.push((0..n).map(|i| (i * i / 7) % 2 == 1).collect());
            long.push((0..n).map(|i| i + 1 == n).collect());
        }
        let dom = sp::HashDomain::new(DOMAIN);
        let cdom = sp::CommitDomain::new(DOMAIN);
        let (cq, cr) = (q_of(&format!("{}-M", DOMAIN)), pallas::Point::hash_to_curve(&format!("{}-r", DOMAIN))(&[]));
        let one = |rec: &mut Rec, m: &Vec<bool>| {
            rec.label(format!("message {:?}", m.iter().map(|b| *b as u8).collect::<Vec<_>>()));
            rec.state(m);
            rec.step(m.len() as u64 + 1);
            rec.case(|rec| {
                let mut pad = m.clone();
                while pad.len() % 10 != 0 {
                    pad.push(false);
                }
                let w = words_of_bits(&pad);
                let want = reference(q, &w);
                let got: Option<pallas::Point> = dom.hash_to_point(m.iter().cloned()).into();
                if got.map(|p| p.to_affine()) != want {
                    return Err(format!("hash to {:?}, by definition {:?}", got, want));
                }
                let x: Option<B> = dom.hash(m.iter().cloned()).into();
                if x != want.map(|p| xy(&p).0) {
                    return Err("the hash is not the x coordinate of the point".into());
                }
                rec.outcome("hash");
                Ok(())
            });
        };
        ctx.par("hashes of short messages", &short, |m, rec| one(rec, m));
        ctx.par("hashes of longer messages", &long, |m, rec| one(rec, m));
        let qm = big(&-S::one());
        let mut rs: Vec<S> = (0..5u64).map(S::from).collect();
        rs.extend((0..4u32).map(|i| from_big::<S>(&(&qm - i))));
        rs.extend((1..254usize).step_by(ctx.pick(9, 1)).map(|i| from_big::<S>(&(BigUint::from(1u32) << i))));
        let cm: Vec<(usize, S)> = (0..long.len()).step_by(ctx.pick(7, 1)).flat_map(|i| rs.iter().enumerate().filter(move |(j, _)| i % 5 == j % 5).map(move |(_, r)| (i, *r))).collect();
        ctx.par("commitments", &cm, |(i, r), rec| {
            let m = &long[*i];
            rec.label(format!("commitment to message {} ({} bits) with {:?}", i, m.len(), r));
            rec.state(&(i, format!("{:?}", r)));
            rec.step(1);
            rec.case(|rec| {
                let mut pad = m.clone();
                while pad.len() % 10 != 0 {
                    pad.push(false);
                }
                let want = reference(cq, &words_of_bits(&pad)).map(|p| (p.to_curve() + cr * r).to_affine());
                let got: Option<pallas::Point> = cdom.commit(m.iter().cloned(), r).into();
                let x: Option<B> = cdom.short_commit(m.iter().cloned(), r).into();
                if got.map(|p| p.to_affine()) != want || x != want.map(|p| xy(&p).0) {
                    return Err(format!("commitment {:?}, by definition {:?}", got, want));
                }
                rec.outcome("commitment");
                Ok(())
            });
        });
        ctx.seq("messages that are too long", |rec| {
            for n in [2531usize, 2540, 3000] {
                rec.label(format!("{} bits", n));
                rec.step(1);
                rec.case(|rec| {
                    if guard(|| bool::from(dom.hash_to_point((0..n).map(|_| true)).is_some())).is_ok() {
                        return Err("hashed".into());
                    }
                    rec.outcome("too long: panics as documented");
                    Ok(())
                });
            }
        });

        // ---- in the circuit
        let run = |rec: &mut Rec, op: &Op| {
            rec.label(format!("{:?}", op));
            rec.state(&format!("{:?}", op));
            rec.step(1);
            rec.case(|rec| {
                let ok = honest(op)?;
                rec.outcome(if ok { "circuit result" } else { "refused" });
                Ok(())
            });
        };
        // all ways to cut up to 4 words into pieces, words over a small alphabet
        let alpha = [0usize, 1, 1023, 512];
        let mut ops: Vec<Op> = vec![];
        for n in 1..=ctx.pick(4usize, 5) {
            for cut in 0..1usize << (n - 1) {
                let mut lens = vec![1usize];
                for i in 0..n - 1 {
                    if (cut >> i) & 1 == 1 {
                        lens.push(1);
                    } else {
                        *lens.last_mut().unwrap() += 1;
                    }
                }
                let words: Vec<Vec<usize>> = if n <= 2 { (0..alpha.len().pow(n as u32)).map(|i| util::word(i, alpha.len(), n).iter().map(|j| alpha[*j]).collect()).collect() } else { (0..alpha.len()).map(|s| (0..n).map(|i| alpha[(i * s + s + i) % 4]).collect()).collect() };
                for w in words {
                    let mut at = 0;
                    let ps: Vec<Piece> = lens
                        .iter()
                        .map(|k| {
                            let v = (0..*k).fold(BigUint::from(0u32), |a, i| a + (BigUint::from(w[at + i]) << (10 * i)));
                            at += k;
                            (v, *k)
                        })
                        .collect();
                    ops.push(Op::HashPoint(ps.clone()));
                    if n <= 2 {
                        ops.push(Op::Hash(ps));
                    }
                }
            }
        }
        for w in (0..1024usize).step_by(ctx.pick(5, 1)) {
            ops.push(Op::HashPoint(vec![(BigUint::from(w), 1)]));
        }
        // long pieces and long messages
        let ones = |n: usize| (BigUint::from(1u32) << (10 * n)) - 1u32;
        let pat = |n: usize, b: u8| BigUint::from_bytes_le(&[b; 40]) % (BigUint::from(1u32) << (10 * n));
        for n in [5usize, 12, 13, 24, 25] {
            ops.extend([ones(n), pat(n, 0x5a), pat(n, 0xc7), BigUint::from(1u32) << (10 * n - 1), BigUint::from(0u32)].map(|v| Op::HashPoint(vec![(v, n)])));
            ops.push(Op::HashPoint(vec![(ones(n), n), (pat(n, 0x36), n), (pat(1, 0x77), 1)]));
        }
        ops.push(Op::HashPoint(vec![(pat(25, 0x93), 25); 10]));
        ops.push(Op::HashPoint((0..10).map(|i| (pat(25, 0x31 + i), 25)).chain([(pat(2, 0x55), 2)]).collect()));
        // pieces that do not fit
        for n in [1usize, 2, 3, 24, 25] {
            for d in [0u32, 1, 5] {
                ops.push(Op::HashPoint(vec![(ones(n) + 1u32 + d, n)]));
                ops.push(Op::HashPoint(vec![(ones(n) + 1u32 + d, n), (BigUint::from(3u32), 1)]));
                ops.push(Op::HashPoint(vec![(BigUint::from(3u32), 1), (ones(n) + 1u32 + d, n)]));
            }
            ops.push(Op::HashPoint(vec![(p_mod() - 1u32, n)]));
            ops.push(Op::HashPoint(vec![(BigUint::from(3u32), 1), (p_mod() - 1u32, n), (BigUint::from(5u32), 1)]));
        }
        for (i, r) in rs.iter().enumerate().filter(|(i, _)| ctx.pick(i % 3 == 0, true)) {
            let ps = vec![(pat(3, 0x47u8.wrapping_add(i as u8)), 3), (pat(1, 0x99), 1)];
            ops.push(Op::Commit(ps.clone(), *r));
            ops.push(Op::ShortCommit(ps, *r));
        }
        ctx.par("hash and commitment gadgets", &ops, |op, rec| run(rec, op));

        // paths
        let p = p_mod();
        let two = |i: usize| BigUint::from(1u32) << i;
        let nodes: Vec<B> = [BigUint::from(0u32), BigUint::from(1u32), &p - 1u32, two(254), two(250) - 1u32, two(250), two(240), two(240) - 1u32, two(253) + two(249), BigUint::from(31u32), BigUint::from(32u32), BigUint::from_bytes_le(&[0x6b; 31]) * 59u32 % &p].iter().map(|v| from_big(v)).collect();
        let mut ops: Vec<Op> = vec![];
        for a in &nodes {
            for b in &nodes {
                for pos in 0..2 {
                    ops.push(Op::Path(*a, vec![*b], pos, 1));
                }
            }
        }
        for n in 2..=ctx.pick(4usize, 5) {
            for pos in 0..(1u32 << n) {
                for par in 1..=3usize {
                    if n >= par {
                        let at = |i: usize| nodes[(i * 5 + pos as usize * 3 + par) % nodes.len()];
                        ops.push(Op::Path(at(0), (1..=n).map(at).collect(), pos, par));
                    }
                }
            }
        }
        for pos in [0u32, 1, 0x8000_0000, u32::MAX, 0xa5a5_a5a5] {
            ops.push(Op::Path(nodes[11], (0..32).map(|i| nodes[(i * 7 + pos as usize % 5) % nodes.len()]).collect(), pos, 2));
        }
        // (path bits above the path length are ignored)
        ops.push(Op::Path(nodes[11], vec![nodes[2]], 2, 1));
        ctx.par("paths", &ops, |op, rec| run(rec, op));

        // ---- forgeries
        let pieces = |n: usize| move |l: &Laid| l.io[..n].to_vec();
        forgeries(ctx, "hash of one word", &Op::HashPoint(vec![(BigUint::from(77u32), 1)]), &pieces(1), &[]);
        forgeries(ctx, "hash of words 0", &Op::HashPoint(vec![(BigUint::from(0u32), 2)]), &pieces(1), &[]);
        forgeries(ctx, "hash of pieces 2+1+3", &Op::HashPoint(vec![(pat(2, 0x5b), 2), (pat(1, 0xe1), 1), (pat(3, 0x3d), 3)]), &pieces(3), &[]);
        forgeries(ctx, "hash of pieces 25+2", &Op::Hash(vec![(pat(25, 0x5b), 25), (pat(2, 0xe1), 2)]), &pieces(2), &[]);
        // a path: the siblings are inputs, the position is the prover's choice
        let node = |b: u8| from_big::<B>(&(BigUint::from_bytes_le(&[b; 31]) * 77u32 % &p));
        for n in 1..=ctx.pick(2usize, 3) {
            let path: Vec<B> = (0..n).map(|i| node(0x37 + i as u8)).collect();
            let leaf = node(0x91);
            let full = (1u32 << n) - 1;
            let allowed = roots(&leaf, &path);
            let mut poss = vec![0, full, 1];
            poss.truncate(if n == 1 { 2 } else { 3 });
            for pos in poss {
                let inputs = |l: &Laid| {
                    let mut f = vec![l.io[0]];
                    // the first variable with the value of a sibling is the witnessed one
                    for s in &path {
                        f.extend((0..l.sys.honest.len()).filter(|v| l.sys.honest[*v] == *s).min_by_key(|v| l.sys.order[*v]));
                    }
                    f
                };
                forgeries(ctx, &format!("path of length {} at position {}", n, pos), &Op::Path(leaf, path.clone(), pos, 1), &inputs, &allowed);
            }
        }
    });
}
