//! C13: polynomial openings verify iff the claimed values are right.
use ff::Field;
use group::Curve;
use halo2_proofs::plonk::Error;
use halo2_proofs::poly::commitment::*;
use halo2_proofs::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA};
use halo2_proofs::poly::ipa::multiopen::{ProverIPA, VerifierIPA};
use halo2_proofs::poly::ipa::strategy as ipas;
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK};
use halo2_proofs::poly::kzg::strategy as kzgs;
use halo2_proofs::poly::{Coeff, EvaluationDomain, Polynomial, ProverQuery, VerificationStrategy, VerifierQuery};
use halo2_proofs::transcript::*;
use halo2curves::bn256::Bn256;
use halo2curves::pasta::EqAffine;
use halo2curves::CurveAffine;
use mc::prove::*;
use mc::*;

type F<S> = <S as CommitmentScheme>::Scalar;
type Cv<S> = <S as CommitmentScheme>::Curve;

/// One of the three opening schemes.
trait Sch: Sync {
    type S: CommitmentScheme;
    fn name() -> &'static str;
    fn create(p: &Self::Pp, t: &mut Blake2bWrite<Vec<u8>, Cv<Self::S>, Challenge255<Cv<Self::S>>>, q: Vec<ProverQuery<'_, Cv<Self::S>>>);
    type Pp: Sync;
    fn commit(p: &Self::Pp, poly: &Polynomial<F<Self::S>, Coeff>, b: Blind<F<Self::S>>) -> Cv<Self::S>;
    /// verdict over one or several openings in one accumulating strategy, or in separate single ones
    fn verify(p: &Self::Pp, items: &[Item<Self::S>], single: bool) -> Result<bool, String>;
}
/// What the verifier is asked: proof bytes, number of commitments and evaluations it reads
/// first, and the claims (linear combination of the commitments read, point, value).
struct Item<S: CommitmentScheme> {
    proof: Vec<u8>,
    ncomm: usize,
    neval: usize,
    claims: Vec<(Vec<(usize, F<S>)>, F<S>, F<S>)>,
    /// pass plain commitments as MSMs as well
    as_msm: bool,
}

impl<S: CommitmentScheme> Clone for Item<S> {
    fn clone(&self) -> Self {
        Item { proof: self.proof.clone(), ncomm: self.ncomm, neval: self.neval, claims: self.claims.clone(), as_msm: self.as_msm }
    }
}

macro_rules! sch {
    ($t:ident, $name:expr, $scheme:ty, $params:ty, $prover:ident, $verifier:ident, $single:ty, $acc:ty) => {
        struct $t;
        impl Sch for $t {
            type S = $scheme;
            type Pp = $params;
            fn name() -> &'static str {
                $name
            }
            fn create(p: &Self::Pp, t: &mut Blake2bWrite<Vec<u8>, Cv<Self::S>, Challenge255<Cv<Self::S>>>, q: Vec<ProverQuery<'_, Cv<Self::S>>>) {
                $prover::new(p).create_proof(rng(7), t, q).expect("opening");
            }
            fn commit(p: &Self::Pp, poly: &Polynomial<F<Self::S>, Coeff>, b: Blind<F<Self::S>>) -> Cv<Self::S> {
                p.commit(poly, b).to_affine()
            }
            fn verify(p: &Self::Pp, items: &[Item<Self::S>], single: bool) -> Result<bool, String> {
                let params = p;
                let mut acc = <$acc as VerificationStrategy<'_, $scheme, $verifier<_>>>::new(params);
                for it in items {
                    let mut t = Blake2bRead::<_, Cv<Self::S>, Challenge255<_>>::init(&it.proof[..]);
                    let mut comms = vec![];
                    for _ in 0..it.ncomm {
                        match t.read_point() {
                            Ok(p) => comms.push(p),
                            Err(_) => return Ok(false),
                        }
                    }
                    for _ in 0..it.neval {
                        if t.read_scalar().is_err() {
                            return Ok(false);
                        }
                    }
                    // one object per distinct combination: queries of one commitment refer to one object
                    let mut combos: Vec<Vec<(usize, F<Self::S>)>> = vec![];
                    for (c, _, _) in &it.claims {
                        if !combos.contains(c) {
                            combos.push(c.clone());
                        }
                    }
                    let msms: Vec<_> = combos
                        .iter()
                        .map(|c| {
                            let mut m = params.empty_msm();
                            for (i, s) in c {
                                m.append_term(*s, comms[*i].into());
                            }
                            m
                        })
                        .collect();
                    let mut qs = vec![];
                    for (c, pt, ev) in &it.claims {
                        let k = combos.iter().position(|x| x == c).unwrap();
                        if c.len() == 1 && c[0].1 == F::<Self::S>::one() && !it.as_msm {
                            qs.push(VerifierQuery::new_commitment(&comms[c[0].0], *pt, *ev));
                        } else {
                            qs.push(VerifierQuery::new_msm(&msms[k], *pt, *ev));
                        }
                    }
                    if single {
                        let st = <$single as VerificationStrategy<'_, $scheme, $verifier<_>>>::new(params);
                        let r = VerificationStrategy::<$scheme, $verifier<_>>::process(st, |m| $verifier::new(params).verify_proof(&mut t, qs.clone(), m).map_err(|_| Error::Opening));
                        if r.is_err() {
                            return Ok(false);
                        }
                    } else {
                        match VerificationStrategy::<$scheme, $verifier<_>>::process(acc, |m| $verifier::new(params).verify_proof(&mut t, qs.clone(), m).map_err(|_| Error::Opening)) {
                            Ok(a) => acc = a,
                            Err(_) => return Ok(false),
                        }
                    }
                }
                if single {
                    return Ok(true);
                }
                Ok(VerificationStrategy::<$scheme, $verifier<_>>::finalize(acc))
            }
        }
    };
}
sch!(Shplonk, "SHPLONK", KZGCommitmentScheme<Bn256>, ParamsKZG<Bn256>, ProverSHPLONK, VerifierSHPLONK, kzgs::SingleStrategy<'_, Bn256>, kzgs::AccumulatorStrategy<'_, Bn256>);
sch!(Gwc, "GWC", KZGCommitmentScheme<Bn256>, ParamsKZG<Bn256>, ProverGWC, VerifierGWC, kzgs::SingleStrategy<'_, Bn256>, kzgs::AccumulatorStrategy<'_, Bn256>);
sch!(Ipa, "IPA", IPACommitmentScheme<EqAffine>, ParamsIPA<EqAffine>, ProverIPA, VerifierIPA, ipas::SingleStrategy<'_, EqAffine>, ipas::AccumulatorStrategy<'_, EqAffine>);

fn horner<Fl: Field>(p: &[Fl], x: Fl) -> Fl {
    p.iter().rev().fold(Fl::zero(), |a, c| a * x + c)
}

/// Coefficients of polynomial number `i`.
fn coeffs<Fl: Field + From<u64>>(i: usize, n: usize) -> Vec<Fl> {
    let mut v = vec![Fl::zero(); n];
    match i {
        0..=3 => {
            for (j, c) in v.iter_mut().enumerate() {
                *c = Fl::from((17 * i * i + 5 * j * j + 3 * i * j + 7) as u64).square() - Fl::from((j * 1000 + i) as u64);
            }
        }
        4 => {}                          // zero
        5 => v[0] = Fl::from(9),         // constant
        6 => v[n - 1] = Fl::from(4),     // only the leading coefficient
        7 => v = coeffs(0, n),           // another object equal to 0
        8 => v[1] = -Fl::one(),          // linear
        _ => {
            for (j, c) in v.iter_mut().enumerate() {
                *c = Fl::from((19 * i * i + 11 * j * j + 3 * i * j + 5) as u64).square() - Fl::from((j * 500 + i) as u64);
            }
        }
    }
    v
}
fn points<Fl: Field + From<u64>>(i: usize) -> Fl {
    match i {
        0 => Fl::from(1234567),
        1 => Fl::one(),
        2 => -Fl::from(99),
        3 => Fl::zero(),
        _ => Fl::from((i * i * 1000 + 77) as u64),
    }
}

/// polys (by kind) and queries (poly position, point number), in query order
type Case = (Vec<usize>, Vec<(usize, usize)>);

struct Opened<K: Sch> {
    item: Item<K::S>,
    /// length of the part that is not the opening argument
    head: usize,
    polys: Vec<Vec<F<K::S>>>,
}

fn open<K: Sch>(params: &K::Pp, k: u32, case: &Case, wrong: Option<usize>) -> Opened<K> {
    let n = 1usize << k;
    let d = EvaluationDomain::<F<K::S>>::new(2, k);
    let polys: Vec<Vec<F<K::S>>> = case.0.iter().map(|i| coeffs(*i, n)).collect();
    let ps: Vec<Polynomial<F<K::S>, Coeff>> = polys.iter().map(|p| d.coeff_from_vec(p.clone())).collect();
    let blinds: Vec<Blind<F<K::S>>> = (0..ps.len()).map(|i| Blind(F::<K::S>::from(31 + i as u64))).collect();
    let mut t = Blake2bWrite::<_, Cv<K::S>, Challenge255<_>>::init(vec![]);
    for (p, b) in ps.iter().zip(&blinds) {
        // a point at infinity may be refused by the transcript: not used with zero polynomials and no blind
        t.write_point(K::commit(params, p, *b)).expect("commitment");
    }
    let mut claims = vec![];
    for (j, (p, x)) in case.1.iter().enumerate() {
        let mut ev = horner(&polys[*p], points(*x));
        if wrong == Some(j) {
            ev += F::<K::S>::one();
        }
        t.write_scalar(ev).unwrap();
        claims.push((vec![(*p, F::<K::S>::one())], points(*x), ev));
    }
    let head = 32 * (case.0.len() + case.1.len());
    K::create(params, &mut t, case.1.iter().map(|(p, x)| ProverQuery::hook_new(&ps[*p], points(*x), blinds[*p])).collect());
    Opened { item: Item { proof: t.finalize(), ncomm: case.0.len(), neval: case.1.len(), claims, as_msm: false }, head, polys }
}

/// Whether every claim is true.
fn truth<S: CommitmentScheme>(polys: &[Vec<F<S>>], it: &Item<S>) -> bool {
    it.claims.iter().all(|(c, x, e)| c.iter().fold(F::<S>::zero(), |a, (i, s)| a + horner(&polys[*i], *x) * s) == *e)
}

fn patterns(m: usize, p: usize) -> Vec<Vec<(usize, usize)>> {
    // every polynomial is queried at a non-empty set of points, in several query orders
    let sets = (1usize << p) - 1;
    let mut out = vec![];
    for i in 0..util::pow(sets, m) {
        let w = util::word(i, sets, m);
        let by_poly: Vec<(usize, usize)> = (0..m).flat_map(|a| { let s = w[a] + 1; (0..p).filter(move |x| s >> x & 1 == 1).map(move |x| (a, x)) }).collect();
        let mut by_point = by_poly.clone();
        by_point.sort_by_key(|(a, x)| (*x, *a));
        let mut rev = by_poly.clone();
        rev.reverse();
        for o in [by_poly, by_point, rev] {
            if !out.contains(&o) {
                out.push(o);
            }
        }
    }
    out
}

fn explore<K: Sch>(c: &Ctx, params: &K::Pp, k: u32) where K::S: 'static {
    let mut cases: Vec<Case> = vec![];
    for (m, p) in c.pick(vec![(1, 3), (2, 2), (2, 3)], vec![(1, 4), (2, 3), (3, 3)]) {
        for q in patterns(m, p) {
            cases.push(((0..m).collect(), q));
        }
    }
    if c.quick() {
        // three polynomials, two points, point order
        for q in patterns(3, 2) {
            cases.push((vec![0, 1, 2], q));
        }
    }
    // polynomials of special form, in every position
    for kinds in (0..81).map(|i| vec![[0, 4, 5, 6, 7, 8, 1, 2, 3][i / 9], [0, 4, 5, 6, 7, 8, 1, 2, 3][i % 9]]) {
        for q in [vec![(0, 0), (1, 0)], vec![(0, 0), (0, 1), (1, 1)], vec![(0, 0), (1, 1), (1, 2)], vec![(1, 3), (0, 3), (0, 0), (1, 0)]] {
            cases.push((kinds.clone(), q));
        }
    }
    // repeated queries
    for q in [vec![(0, 0), (0, 0)], vec![(0, 0), (1, 0), (0, 0)], vec![(0, 0), (1, 1), (0, 0), (1, 1), (0, 1)]] {
        cases.push((vec![0, 1], q));
    }
    // the zero polynomial commits to the identity, which KZG (without blinding) can absorb only on bn256
    let ok = |case: &Case| {
        let mut t = Blake2bWrite::<_, Cv<K::S>, Challenge255<_>>::init(vec![]);
        let d = EvaluationDomain::<F<K::S>>::new(2, k);
        case.0.iter().all(|i| t.write_point(K::commit(params, &d.coeff_from_vec(coeffs(*i, 1 << k)), Blind(F::<K::S>::from(31)))).is_ok())
    };
    let cases: Vec<Case> = cases.into_iter().filter(ok).collect();
    c.par(&format!("{} k={}", K::name(), k), &cases, |case, r| {
        r.label(format!("{} k={} polynomials {:?} queries {:?}", K::name(), k, case.0, case.1));
        r.case(|r| {
            let o = open::<K>(params, k, case, None);
            r.state(&(K::name(), k, case));
            let ask = |it: &Item<K::S>, single: bool, what: &str, r: &mut Rec| -> Result<(), String> {
                let want = truth::<K::S>(&o.polys, it);
                let got = guard(|| K::verify(params, &[it.clone()], single)).and_then(|x| x).map_err(|e| format!("{}: {}", what, e))?;
                r.step(1);
                r.outcome(if want { "true claims" } else { "false claims" });
                if got && !want {
                    return Err(format!("false claims accepted: {}", what));
                }
                if want && !got {
                    return Err(format!("true claims refused: {}", what));
                }
                Ok(())
            };
            ask(&o.item, false, "as opened", r)?;
            ask(&o.item, true, "as opened, single strategy", r)?;
            let mut m = o.item.clone();
            m.as_msm = true;
            ask(&m, false, "commitments given as MSM", r)?;
            // every single claim wrong, with the transcript as it was and with a transcript that says so too
            for j in 0..o.item.claims.len() {
                for delta in [F::<K::S>::one(), -F::<K::S>::one()] {
                    let mut m = o.item.clone();
                    m.claims[j].2 += delta;
                    ask(&m, j % 2 == 0, &format!("value {} wrong", j), r)?;
                    m.as_msm = true;
                    if delta == F::<K::S>::one() {
                        ask(&m, false, &format!("value {} wrong, MSM", j), r)?;
                    }
                }
                let w = open::<K>(params, k, case, Some(j));
                ask(&w.item, false, &format!("value {} wrong and absorbed", j), r)?;
                // another value of the same proof
                for l in 0..o.item.claims.len() {
                    let mut m = o.item.clone();
                    m.claims[j].2 = o.item.claims[l].2;
                    if !truth::<K::S>(&o.polys, &m) {
                        ask(&m, false, &format!("value {} replaced by value {}", j, l), r)?;
                    }
                    // exchanged values
                    let mut m = o.item.clone();
                    m.claims[j].2 = o.item.claims[l].2;
                    m.claims[l].2 = o.item.claims[j].2;
                    if l > j && !truth::<K::S>(&o.polys, &m) {
                        ask(&m, false, &format!("values {} and {} exchanged", j, l), r)?;
                    }
                }
                // another point
                let mut m = o.item.clone();
                m.claims[j].1 += F::<K::S>::one();
                if !truth::<K::S>(&o.polys, &m) {
                    ask(&m, false, &format!("point {} wrong", j), r)?;
                }
            }
            // another commitment
            for a in 0..o.polys.len() {
                for b in 0..o.polys.len() {
                    let mut m = o.item.clone();
                    for q in m.claims.iter_mut() {
                        if q.0[0].0 == a {
                            q.0[0].0 = b;
                        }
                    }
                    if a != b && !truth::<K::S>(&o.polys, &m) {
                        ask(&m, false, &format!("commitment {} in place of {}", b, a), r)?;
                    }
                }
            }
            Ok(())
        });
    });

    // many polynomials, many points, many different sets of points
    let mut many: Vec<Case> = vec![];
    let mm = c.pick(9, 16);
    let pts = 7usize;
    for m in 3..=mm {
        let kinds: Vec<usize> = (0..m).map(|i| if i < 4 { i } else { i + 9 }).collect();
        for pat in 0..6 {
            let at = |i: usize| -> Vec<usize> {
                match pat {
                    0 => vec![i % pts],
                    1 => (0..=i % pts).collect(),
                    2 => vec![i % pts, (i + 1) % pts],
                    3 => vec![0, i % pts, (2 * i + 1) % pts],
                    4 => (0..pts).filter(|x| (i + 1) >> (x % 4) & 1 == 1).collect(),
                    _ => vec![(i / 2) % pts],
                }
            };
            let mut q: Vec<(usize, usize)> = vec![];
            for i in 0..m {
                let mut a = at(i);
                a.sort();
                a.dedup();
                a.truncate(1 << k);
                q.extend(a.into_iter().map(|x| (i, x)));
            }
            many.push((kinds.clone(), q.clone()));
            q.sort_by_key(|(a, x)| (*x, *a));
            many.push((kinds.clone(), q.clone()));
            q.sort_by_key(|(a, x)| ((a * 5 + x * 3) % 11, *a, *x));
            many.push((kinds.clone(), q));
        }
    }
    many.reverse();
    c.par(&format!("{} many polynomials", K::name()), &many, |case, r| {
        r.label(format!("{} k={} polynomials {:?} queries {:?}", K::name(), k, case.0, case.1));
        r.case(|r| {
            let o = open::<K>(params, k, case, None);
            r.state(&(K::name(), k, case));
            for single in [false, true] {
                r.step(1);
                if !guard(|| K::verify(params, &[o.item.clone()], single)).and_then(|x| x)? {
                    return Err("true claims refused".into());
                }
            }
            for j in 0..o.item.claims.len() {
                let mut m = o.item.clone();
                m.claims[j].2 += F::<K::S>::one();
                r.step(1);
                r.outcome("false claims");
                if guard(|| K::verify(params, &[m], j % 2 == 0)).and_then(|x| x)? {
                    return Err(format!("false claims accepted: value {} wrong", j));
                }
                // the neighbours' values exchanged
                let l = (j + 1) % o.item.claims.len();
                let mut m = o.item.clone();
                m.claims[j].2 = o.item.claims[l].2;
                m.claims[l].2 = o.item.claims[j].2;
                if !truth::<K::S>(&o.polys, &m) {
                    r.step(1);
                    if guard(|| K::verify(params, &[m], j % 2 == 1)).and_then(|x| x)? {
                        return Err(format!("false claims accepted: values {} and {} exchanged", j, l));
                    }
                }
                if j % 4 == 0 {
                    let w = open::<K>(params, k, case, Some(j));
                    r.step(1);
                    if guard(|| K::verify(params, &[w.item], false)).and_then(|x| x)? {
                        return Err(format!("false claims accepted: value {} wrong and absorbed", j));
                    }
                }
            }
            Ok(())
        });
    });

    // claims about linear combinations of commitments
    c.par(&format!("{} combinations", K::name()), &(0..c.pick(2, 3)).flat_map(|a| (0..3).map(move |b| (a, b))).collect::<Vec<_>>(), |(a, b), r| {
        r.label(format!("{} combination {} {}", K::name(), a, b));
        r.case(|r| {
            // polynomial 2 := a * p0 + b * p1, opened as itself, claimed as the combination
            let n = 1usize << k;
            let d = EvaluationDomain::<F<K::S>>::new(2, k);
            let (sa, sb) = (F::<K::S>::from(*a as u64 + 2), -F::<K::S>::from(*b as u64 + 1));
            let p: Vec<Vec<F<K::S>>> = (0..2).map(|i| coeffs(i, n)).collect();
            let comb: Vec<F<K::S>> = (0..n).map(|j| p[0][j] * sa + p[1][j] * sb).collect();
            let bl = [Blind(F::<K::S>::from(3)), Blind(F::<K::S>::from(8))];
            let cb = Blind(bl[0].0 * sa + bl[1].0 * sb);
            let ps: Vec<_> = p.iter().map(|v| d.coeff_from_vec(v.clone())).collect();
            let pc = d.coeff_from_vec(comb.clone());
            let mut t = Blake2bWrite::<_, Cv<K::S>, Challenge255<_>>::init(vec![]);
            for i in 0..2 {
                t.write_point(K::commit(params, &ps[i], bl[i])).unwrap();
            }
            K::create(params, &mut t, vec![ProverQuery::hook_new(&pc, points(0), cb), ProverQuery::hook_new(&ps[0], points(0), bl[0]), ProverQuery::hook_new(&pc, points(2), cb)]);
            let c1 = vec![(0, sa), (1, sb)];
            let one = F::<K::S>::one();
            let good = Item { proof: t.finalize(), ncomm: 2, neval: 0, claims: vec![(c1.clone(), points(0), horner(&comb, points(0))), (vec![(0, one)], points(0), horner(&p[0], points(0))), (c1, points(2), horner(&comb, points(2)))], as_msm: false };
            if !K::verify(params, &[good.clone()], false)? {
                return Err("true claims about a combination refused".into());
            }
            for j in 0..3 {
                let mut m = good.clone();
                m.claims[j].2 += one;
                if K::verify(params, &[m], false)? {
                    return Err(format!("false value {} accepted", j));
                }
                for l in 0..good.claims[j].0.len() {
                    let mut m = good.clone();
                    m.claims[j].0[l].1 += one;
                    if K::verify(params, &[m], false)? {
                        return Err(format!("false combination {}:{} accepted", j, l));
                    }
                    r.step(2);
                }
            }
            Ok(())
        });
    });

    // several openings in one batch
    let pool: Vec<Opened<K>> = [(vec![0], vec![(0, 0)]), (vec![0, 1], vec![(0, 0), (1, 2)]), (vec![2, 1], vec![(0, 0), (0, 1), (1, 1)])].iter().map(|x| open::<K>(params, k, x, None)).collect();
    let mut jobs: Vec<(Vec<usize>, Option<(usize, usize, usize)>)> = vec![];
    for n in 1..=3 {
        for i in 0..util::pow(3, n) {
            let w = util::word(i, 3, n);
            jobs.push((w.clone(), None));
            for at in 0..n {
                for j in 0..pool[w[at]].item.claims.len() {
                    jobs.push((w.clone(), Some((at, j, n))));
                }
            }
        }
    }
    c.par(&format!("{} batches", K::name()), &jobs, |(w, bad), r| {
        r.label(format!("{} batch {:?} wrong {:?}", K::name(), w, bad));
        r.case(|r| {
            let mut items: Vec<Item<K::S>> = w.iter().map(|i| pool[*i].item.clone()).collect();
            if let Some((at, j, _)) = bad {
                items[*at].claims[*j].2 += F::<K::S>::one();
            }
            let got = K::verify(params, &items, false)?;
            r.outcome(if bad.is_none() { "batch of true" } else { "batch with false" });
            if got == bad.is_some() {
                return Err(format!("verdict {}", got));
            }
            // two errors that cancel if proofs are not weighted
            if let Some((at, j, n)) = bad {
                if *at + 1 < *n {
                    let l = pool[w[*at + 1]].item.claims.len();
                    for k in 0..l {
                        let mut items = items.clone();
                        items[*at + 1].claims[k].2 -= F::<K::S>::one();
                        let _ = j;
                        if K::verify(params, &items, false)? {
                            return Err("two opposite errors accepted".into());
                        }
                        r.step(1);
                    }
                }
            }
            Ok(())
        });
    });

    // every byte of the opening argument
    let mut jobs = vec![];
    for (i, o) in pool.iter().enumerate() {
        for b in o.head..o.item.proof.len() {
            jobs.push((i, b));
        }
    }
    c.par(&format!("{} bytes", K::name()), &jobs, |(i, b), r| {
        for x in c.pick(vec![1u8, 0x80], vec![1u8, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xff]) {
            r.label(format!("{} opening {} byte {} xor {:#x}", K::name(), i, b, x));
            r.case(|r| {
                let mut it = pool[*i].item.clone();
                it.proof[*b] ^= x;
                r.outcome("byte changed");
                if K::verify(params, &[it], *b % 2 == 0)? {
                    return Err("accepted".into());
                }
                Ok(())
            });
        }
        r.label(format!("{} opening {} cut to {}", K::name(), i, b));
        r.case(|_| {
            let mut it = pool[*i].item.clone();
            it.proof.truncate(*b);
            if K::verify(params, &[it], false)? {
                return Err("accepted".into());
            }
            Ok(())
        });
    });
}

fn main() {
    mc::main("C13", |c| {
        c.assume("Challenges behave as random: an enumerated false claim is accepted with probability about 2^-250.");
        c.assume("The parameters' secret is not used by the enumerated adversary.");
        let ks = c.pick(vec![2], vec![2, 3, 4]);
        for k in ks {
            let kzg = kzg_params(k);
            explore::<Shplonk>(c, &kzg, k);
            explore::<Gwc>(c, &kzg, k);
            explore::<Ipa>(c, &ipa_params(k), k);
        }

        // parameters of every size commit alike in both bases and after downsizing
        c.par("parameters", &(1u32..=c.pick(5, 7)).flat_map(|k| (1..=k).map(move |j| (k, j))).collect::<Vec<_>>(), |(k, j), r| {
            r.label(format!("parameters {} downsized to {}", k, j));
            r.case(|r| {
                macro_rules! run {
                    ($p:expr, $f:ty) => {{
                        let mut p = $p;
                        let full = p.clone();
                        p.downsize(*j);
                        if p.k() != *j || p.n() != 1 << j {
                            return Err("size after downsizing".into());
                        }
                        let d = EvaluationDomain::<$f>::new(2, *j);
                        let n = 1usize << j;
                        for i in 0..n {
                            let mut e = vec![<$f>::zero(); n];
                            e[i] = <$f>::one();
                            let l = d.lagrange_from_vec(e.clone());
                            let co = d.lagrange_to_coeff(l.clone());
                            let b = Blind(<$f>::from(6));
                            if p.commit_lagrange(&l, b) != p.commit(&co, b) {
                                return Err(format!("basis polynomial {} commits differently in the two bases", i));
                            }
                            let df = EvaluationDomain::<$f>::new(2, *k);
                            let mut padded = co[..].to_vec();
                            padded.resize(1 << k, <$f>::zero());
                            if p.commit(&co, b) != full.commit(&df.coeff_from_vec(padded), b) {
                                return Err(format!("basis polynomial {} commits differently after downsizing", i));
                            }
                            r.step(2);
                        }
                    }};
                }
                run!(kzg_params(*k), halo2curves::bn256::Fr);
                run!(ipa_params(*k), halo2curves::pasta::Fp);
                r.state(&("params", k, j));
                Ok(())
            });
        });
        let _ = std::marker::PhantomData::<<EqAffine as CurveAffine>::ScalarExt>;
    })
}
