//! C10: the proof system accepts exactly the satisfied circuits.
use ff::Field;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::ParamsProver;
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::multiopen::ProverSHPLONK;
use halo2_proofs::transcript::*;
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2curves::pasta::{EqAffine, Fp};
use mc::extract;
use mc::prove::*;
use mc::tiny::*;
use mc::tinyset::*;
use mc::*;
use std::sync::Arc;

fn to<F: halo2curves::FieldExt>(i: &[Vec<i64>]) -> Vec<Vec<F>> {
    i.iter().map(|c| c.iter().map(|x| fi(*x)).collect()).collect()
}

fn accepts(params: &ParamsKZG<Bn256>, pk: &ProvingKey<G1Affine>, open: Open, t: &Tiny, inst: &[Vec<Fr>]) -> Result<bool, String> {
    set_spec(&t.spec);
    // the prover may refuse an unsatisfied circuit with an error, but not panic
    match guard(|| kzg_prove(params, pk, open, t.clone(), inst, 1))? {
        Err(_) => Ok(false),
        Ok(p) => Ok(guard(|| kzg_verify(params, pk.get_vk(), open, inst, &p))?.is_ok()),
    }
}

fn fam_keys(params: &ParamsKZG<Bn256>, f: &Fam) -> ProvingKey<G1Affine> {
    set_spec(&f.spec);
    kzg_keys(params, &f.get(0).0.clone()).expect("key generation")
}

struct Forge {
    inner: Blake2bWrite<Vec<u8>, G1Affine, Challenge255<G1Affine>>,
    replace: Vec<Fr>,
    skip: usize,
    seen: usize,
}
impl Transcript<G1Affine, Challenge255<G1Affine>> for Forge {
    fn squeeze_challenge(&mut self) -> Challenge255<G1Affine> {
        self.inner.squeeze_challenge()
    }
    fn common_point(&mut self, p: G1Affine) -> halo2_proofs::io::Result<()> {
        self.inner.common_point(p)
    }
    fn common_scalar(&mut self, s: Fr) -> halo2_proofs::io::Result<()> {
        self.seen += 1;
        if self.seen == 1 {
            // the key's digest; then the instance values the verifier will see
            self.inner.common_scalar(s)?;
            for x in &self.replace {
                self.inner.common_scalar(*x)?;
            }
            Ok(())
        } else if self.seen <= 1 + self.skip {
            Ok(())
        } else {
            self.inner.common_scalar(s)
        }
    }
}
impl TranscriptWrite<G1Affine, Challenge255<G1Affine>> for Forge {
    fn write_point(&mut self, p: G1Affine) -> halo2_proofs::io::Result<()> {
        self.inner.write_point(p)
    }
    fn write_scalar(&mut self, s: Fr) -> halo2_proofs::io::Result<()> {
        self.inner.write_scalar(s)
    }
}

fn main() {
    mc::main("C10", |c| {
        c.assume("Verifier challenges behave as random: an enumerated unsatisfied assignment is accepted with probability about 2^-240.");
        c.assume("The opening argument is decided by C13, field and group arithmetic by C14, C15, C18, C19, C20.");
        let params = kzg_params(4);
        let fams = families();
        let keys: Vec<ProvingKey<G1Affine>> = fams.iter().map(|f| fam_keys(&params, f)).collect();
        let un: Vec<usize> = fams.iter().map(|f| unusable::<Fr>(&f.spec)).collect();

        // the verifier checks exactly the protocol's constraints and queries
        c.par("verifier-model", &(0..fams.len()).flat_map(|i| [(i, 1, false), (i, 2, false), (i, 3, false), (i, 1, true), (i, 2, true)]).collect::<Vec<_>>(), |(i, np, qi), r| {
            let f = &fams[*i];
            r.label(format!("verifier model {} circuits={} instance-queried={}", f.name, np, qi));
            r.case(|r| {
                let insts: Vec<Vec<Vec<Fr>>> = (0..*np).map(|p| f.inst.iter().map(|col| col.iter().enumerate().map(|(j, _)| fi((p * 10 + j + 3) as i64)).collect()).collect()).collect();
                let (m, q) = extract::compare(&params, keys[*i].get_vk(), &insts, *qi)?;
                r.step((m + q) as u64);
                r.state(&(&f.name, np, qi));
                Ok(())
            });
        });

        // every assignment of every family
        let mut jobs: Vec<(usize, usize, Open)> = vec![];
        for (i, f) in fams.iter().enumerate() {
            for a in 0..f.count() {
                jobs.push((i, a, Open::Shplonk));
                if c.thorough() || a % 3 == 0 {
                    jobs.push((i, a, Open::Gwc));
                }
            }
        }
        c.par("verdicts", &jobs, |(i, a, open), r| {
            let f = &fams[*i];
            let (t, inst) = f.get(*a);
            r.label(format!("{} assignment {} {:?}: {:?} inst {:?}", f.name, a, open, t.adv.iter().map(|c| c.iter().map(|x| x.base).collect::<Vec<_>>()).collect::<Vec<_>>(), inst));
            r.case(|r| {
                let inst: Vec<Vec<Fr>> = to(&inst);
                let want = sat(&t, &inst, f.k, un[*i]);
                let got = accepts(&params, &keys[*i], *open, &t, &inst)?;
                r.state(&(&f.name, a));
                r.outcome(if want { "satisfied" } else { "unsatisfied" });
                if got != want {
                    return Err(format!("satisfied by definition: {}, proof accepted: {}", want, got));
                }
                if *a < 2 {
                    r.sample(|| format!("{} assignment {}: satisfied={} accepted={}", f.name, a, want, got));
                }
                Ok(())
            });
        });

        // copy constraint graphs: every sequence of edges
        let edges = copy_edges();
        let mut graphs: Vec<Vec<(usize, usize)>> = vec![vec![]];
        let depth = c.pick(2, 3);
        let mut layer: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for _ in 0..depth {
            layer = layer.iter().flat_map(|g| edges.iter().map(move |e| g.iter().copied().chain([*e]).collect::<Vec<_>>())).collect();
            graphs.extend(layer.iter().cloned());
        }
        // longer chains and merges of classes, in every order of the edges of some trees
        for tree in [[(0, 1), (2, 3), (1, 2), (4, 5), (0, 5)], [(0, 1), (1, 2), (2, 3), (3, 5), (0, 4)], [(0, 2), (0, 3), (0, 1), (0, 5), (4, 0)], [(0, 1), (1, 0), (0, 1), (2, 3), (1, 3)]] {
            for p in util::permutations(5) {
                graphs.push(p.iter().map(|i| tree[*i]).collect());
            }
        }
        c.par("copies", &graphs, |g, r| {
            r.label(format!("copies {:?}", g));
            r.case(|r| {
                let spec = Arc::new(Spec { adv: vec![0, 0], nfix: 1, ninst: 1, eq: vec![Col::A(0), Col::A(1), Col::F(0), Col::I(0)], min_degree: if g.len() % 2 == 0 { None } else { Some(4) }, ..Default::default() });
                // classes by definition
                let mut cls: Vec<usize> = (0..6).collect();
                for (a, b) in g {
                    let (x, y) = (cls[*a], cls[*b]);
                    for k in cls.iter_mut() {
                        if *k == y {
                            *k = x;
                        }
                    }
                }
                let fixed_val = 50i64;
                let make = |vals: &[i64]| -> (Tiny, Vec<Vec<Fr>>) {
                    let mut adv = vec![vec![v(0); 8]; 2];
                    for (i, (col, row)) in COPY_CELLS.iter().enumerate() {
                        if let Col::A(k) = col {
                            adv[*k][*row] = v(vals[i]);
                        }
                    }
                    let body = Body { fixed: vec![vec![fixed_val]], copies: g.iter().map(|(a, b)| (COPY_CELLS[*a], COPY_CELLS[*b])).collect(), ..Default::default() };
                    (Tiny { spec: spec.clone(), body: Arc::new(body), adv, inst: vec![], known: true }, vec![vec![Fr::from(7), fi(vals[5])]])
                };
                // one value per class: satisfied
                let base: Vec<i64> = (0..6).map(|i| if cls[i] == cls[4] { fixed_val } else { cls[i] as i64 + 1 }).collect();
                let (t0, i0) = make(&base);
                set_spec(&spec);
                let pk = kzg_keys(&params, &t0).map_err(|e| format!("{:?}", e))?;
                let un = unusable::<Fr>(&spec);
                let mut cases = vec![(t0, i0)];
                for i in [0, 1, 2, 3, 5] {
                    if cls.iter().filter(|x| **x == cls[i]).count() > 1 {
                        let mut b = base.clone();
                        b[i] += 1;
                        cases.push(make(&b));
                    }
                }
                for (t, inst) in &cases {
                    let want = sat(t, inst, 4, un);
                    let got = accepts(&params, &pk, Open::Shplonk, t, inst)?;
                    r.step(1);
                    r.outcome(if want { "copies satisfied" } else { "copies unsatisfied" });
                    if want != got {
                        return Err(format!("satisfied by definition: {}, accepted: {}: {:?} {:?}", want, got, t.adv, inst));
                    }
                }
                r.state(g);
                Ok(())
            });
        });

        // expression trees in gates and lookups
        let d1 = depth1();
        let lv = leaves();
        let mut es = d1.clone();
        let bin = |a: &Ex, b: &Ex, out: &mut Vec<Ex>| {
            out.push(a.clone() + b.clone());
            out.push(a.clone() - b.clone());
            out.push(a.clone() * b.clone());
        };
        for (i, a) in d1.iter().enumerate() {
            es.push(-a.clone());
            es.push(a.clone().scale(3));
            for (j, b) in d1.iter().enumerate() {
                if c.thorough() || (j < lv.len() && (i + j) % 3 == 0) || (i < lv.len() && (i + j) % 3 == 1) || i == j {
                    bin(a, b, &mut es);
                }
            }
        }
        let batch: Vec<Vec<Ex>> = es.chunks(48).map(|x| x.to_vec()).collect();
        c.par("gate-expressions", &batch, |es, r| {
            let run = |es: &[Ex]| -> Result<bool, String> {
                let (t, inst) = expr_gates(es);
                set_spec(&t.spec);
                let pk = kzg_keys(&params, &t).map_err(|e| format!("{:?}", e))?;
                accepts(&params, &pk, Open::Gwc, &t, &to(&inst))
            };
            r.label(format!("gates {:?}", es.first()));
            r.case(|r| {
                r.step(es.len() as u64);
                for e in es.iter() {
                    r.state(e);
                }
                if !run(es)? {
                    for e in es.iter() {
                        if !run(&[e.clone()])? {
                            return Err(format!("the proof of a gate that computes {:?} is refused", e));
                        }
                    }
                    return Err("the proof of gates that each hold is refused".into());
                }
                Ok(())
            });
        });
        let lex: Vec<Ex> = if c.thorough() { d1.clone() } else { d1.iter().enumerate().filter(|(i, _)| i % 2 == 0 || *i < lv.len()).map(|(_, e)| e.clone()).collect() };
        let lbatch: Vec<(Vec<Ex>, bool)> = lex.chunks(8).flat_map(|x| [(x.to_vec(), false), (x.to_vec(), true)]).collect();
        c.par("lookup-expressions", &lbatch, |(es, swap), r| {
            r.label(format!("lookups {:?} swap={}", es, swap));
            r.case(|r| {
                r.step(es.len() as u64);
                let (t, inst) = expr_lookups(es, *swap);
                set_spec(&t.spec);
                let pk = kzg_keys(&params, &t).map_err(|e| format!("{:?}", e))?;
                if !accepts(&params, &pk, Open::Shplonk, &t, &to(&inst))? {
                    return Err("the proof of lookups that hold is refused".into());
                }
                r.state(&(es, swap));
                Ok(())
            });
        });

        // several circuits in one proof: every combination of satisfied and unsatisfied ones
        let mut multi: Vec<(usize, Vec<usize>, Open)> = vec![];
        for (i, f) in fams.iter().enumerate() {
            let s: Vec<usize> = (0..f.count()).collect();
            let is = |a: usize| {
                let (t, inst) = f.get(a);
                sat::<Fr>(&t, &to(&inst), f.k, un[i])
            };
            let good: Vec<usize> = s.iter().copied().filter(|a| is(*a)).take(2).collect();
            let goodl = s.iter().rev().copied().find(|a| is(*a));
            let bad = s.iter().copied().find(|a| !is(*a));
            let reps: Vec<usize> = good.into_iter().chain(goodl).chain(bad).collect();
            for a in &reps {
                for b in &reps {
                    multi.push((i, vec![*a, *b], if (a + b) % 2 == 0 { Open::Shplonk } else { Open::Gwc }));
                }
            }
            if reps.len() > 1 {
                for w in 0..8 {
                    multi.push((i, (0..3).map(|j| if (w >> j) & 1 == 0 { reps[0] } else { *reps.last().unwrap() }).collect(), Open::Shplonk));
                }
            }
        }
        c.par("several-circuits", &multi, |(i, asg, open), r| {
            let f = &fams[*i];
            r.label(format!("{} together {:?} {:?}", f.name, asg, open));
            r.case(|r| {
                set_spec(&f.spec);
                let ts: Vec<(Tiny, Vec<Vec<Fr>>)> = asg.iter().map(|a| f.get(*a)).map(|(t, i)| (t, to(&i))).collect();
                let want = ts.iter().all(|(t, inst)| sat(t, inst, f.k, un[*i]));
                let circuits: Vec<Tiny> = ts.iter().map(|x| x.0.clone()).collect();
                let insts: Vec<Vec<Vec<Fr>>> = ts.iter().map(|x| x.1.clone()).collect();
                let got = match guard(|| kzg_prove_many(&params, &keys[*i], *open, &circuits, &insts, 1))? {
                    Err(_) => false,
                    Ok(p) => guard(|| kzg_verify_many(&params, keys[*i].get_vk(), *open, &insts, &p))?.is_ok(),
                };
                r.state(&(&f.name, asg));
                r.outcome(if want { "all satisfied" } else { "one unsatisfied" });
                if got != want {
                    return Err(format!("all satisfied by definition: {}, accepted: {}", want, got));
                }
                Ok(())
            });
        });

        // IPA
        let ip = ipa_params(4);
        let ikeys: Vec<ProvingKey<EqAffine>> = fams
            .iter()
            .map(|f| {
                set_spec(&f.spec);
                ipa_keys(&ip, &f.get(0).0).expect("key generation")
            })
            .collect();
        let ijobs: Vec<(usize, usize)> = fams
            .iter()
            .enumerate()
            .flat_map(|(i, f)| {
                let step = if c.thorough() || f.count() <= 16 { 1 } else { 7 };
                (0..f.count()).step_by(step).map(move |a| (i, a))
            })
            .collect();
        c.par("ipa", &ijobs, |(i, a), r| {
            let f = &fams[*i];
            let (t, inst) = f.get(*a);
            r.label(format!("{} assignment {} ipa", f.name, a));
            r.case(|r| {
                set_spec(&f.spec);
                let inst: Vec<Vec<Fp>> = to(&inst);
                let want = sat(&t, &inst, f.k, un[*i]);
                let got = match guard(|| ipa_prove(&ip, &ikeys[*i], t.clone(), &inst, 1))? {
                    Err(_) => false,
                    Ok(p) => guard(|| ipa_verify(&ip, ikeys[*i].get_vk(), &inst, &p))?.is_ok(),
                };
                r.state(&(&f.name, a, "ipa"));
                r.outcome(if want { "ipa satisfied" } else { "ipa unsatisfied" });
                if got != want {
                    return Err(format!("satisfied by definition: {}, accepted: {}", want, got));
                }
                Ok(())
            });
        });

        // columns queried at any rotations, in any order, with public inputs of any length
        let mut qs: Vec<(char, Vec<(usize, i32)>)> = vec![];
        let rots = [-15, -3, -1, 0, 1, 2, 4];
        for kind in ['A', 'F', 'I'] {
            let all: Vec<(usize, i32)> = (0..2).flat_map(|col| rots.map(|x| (col, x))).collect();
            for x in &all {
                qs.push((kind, vec![*x]));
                for y in &all {
                    if c.thorough() || (x.0 <= y.0 && x != y) {
                        qs.push((kind, vec![*x, *y]));
                    }
                }
            }
            for i in 0..util::pow(3, 4) {
                let w = util::word(i, 3, 4);
                if c.thorough() || kind == 'I' {
                    qs.push((kind, w.iter().enumerate().map(|(j, d)| (j % 2, [0, 2, -2][*d] * (j as i32 / 2 + 1))).collect()));
                }
            }
        }
        let lens: Vec<(usize, usize)> = c.pick(vec![(3, 9), (9, 1)], vec![(0, 0), (1, 0), (3, 9), (9, 1), (9, 9)]);
        let qjobs: Vec<(char, Vec<(usize, i32)>, (usize, usize))> = qs.iter().flat_map(|(k, w)| lens.iter().enumerate().filter(move |(i, _)| *k == 'I' || *i == 0).map(move |(_, l)| (*k, w.clone(), *l))).collect();
        c.par("rotations", &qjobs, |(kind, w, len), r| {
            let get = |x: &(usize, i32)| match kind {
                'A' => Ex::A(x.0, x.1),
                'F' => Ex::F(x.0, x.1),
                _ => Ex::I(x.0, x.1),
            };
            let sum = w.iter().enumerate().fold(Ex::C(0), |acc, (j, x)| acc + get(x).scale(j as i64 + 1));
            let spec = Arc::new(Spec { adv: vec![0, 0, 0], nfix: 2, ninst: 2, sels: vec![false], gates: vec![vec![Ex::Sel(0) * (Ex::A(2, 0) - sum.clone())]], ..Default::default() });
            let row = 4;
            let vals = |m: i64, n: usize| (0..n as i64).map(|i| i * m + 2).collect::<Vec<i64>>();
            let mut sel = vec![false; row + 1];
            sel[row] = true;
            let body = Arc::new(Body { fixed: vec![vals(3, 9), vals(100, 9)], sel: vec![sel], copies: vec![] });
            let inst = vec![vals(7, len.0), vals(1000, len.1)];
            let adv: Vec<Vec<Val>> = vec![vals(5, 9).iter().map(|x| v(*x)).collect(), vals(11, 9).iter().map(|x| v(*x)).collect(), vec![v(0); 9]];
            set_spec(&spec);
            let mut t = Tiny { spec: spec.clone(), body, adv, inst: inst.clone(), known: true };
            let finst: Vec<Vec<Fr>> = to(&inst);
            let u = unusable::<Fr>(&spec);
            r.label(format!("queries of {} at {:?}, instances of {:?} values", kind, w, len));
            r.case(|r| {
                let keys = guard(|| kzg_keys(&params, &t))?.map_err(|e| format!("{:?}", e))?;
                extract::compare(&params, keys.get_vk(), &[finst.clone()], false)?;
                for d in [0, 1] {
                    t.adv[2][row] = vx(&(sum.clone() + Ex::C(d)));
                    let want = sat(&t, &finst, 4, u);
                    if want != (d == 0) {
                        return Err("reference is inconsistent".into());
                    }
                    for open in [Open::Shplonk, Open::Gwc] {
                        let got = accepts(&params, &keys, open, &t, &finst)?;
                        r.step(1);
                        if got != want {
                            return Err(format!("{:?}: satisfied by definition: {}, accepted: {}", open, want, got));
                        }
                    }
                }
                r.state(&(kind, w, len));
                Ok(())
            });
        });

        // public inputs: any other instance is refused, also ones of other lengths or shapes
        let fi_ = fams.iter().position(|f| f.name == "instance").unwrap();
        let fl_ = fams.iter().position(|f| f.name == "instance-last-row").unwrap();
        let mixed = fams.iter().position(|f| f.name == "mixed").unwrap();
        c.seq("instances", |r| {
            for i in [fi_, fl_, mixed] {
                let f = &fams[i];
                for open in [Open::Shplonk, Open::Gwc] {
                    let a = (0..f.count()).rev().find(|a| {
                        let (t, inst) = f.get(*a);
                        sat::<Fr>(&t, &to(&inst), f.k, un[i])
                    });
                    let (t, inst) = f.get(a.unwrap());
                    set_spec(&f.spec);
                    let inst: Vec<Vec<Fr>> = to(&inst);
                    let p = kzg_prove(&params, &keys[i], open, t, &inst, 1).unwrap();
                    let mut others: Vec<Vec<Vec<Fr>>> = vec![];
                    for c in 0..inst.len() {
                        for row in 0..inst[c].len() {
                            for d in [1i64, -1, 2, 256] {
                                let mut x = inst.clone();
                                x[c][row] += fi::<Fr>(d);
                                others.push(x);
                            }
                        }
                        let mut x = inst.clone();
                        x[c].pop();
                        others.push(x);
                        for extra in [0i64, 1] {
                            let mut x = inst.clone();
                            x[c].push(fi(extra));
                            others.push(x);
                        }
                        let mut x = inst.clone();
                        x.remove(c);
                        others.push(x);
                        let mut x = inst.clone();
                        x.push(vec![]);
                        others.push(x);
                        let mut x = inst.clone();
                        x[c].resize(20, Fr::zero());
                        others.push(x);
                    }
                    r.label(format!("{} {:?} own instance", f.name, open));
                    r.case(|_| kzg_verify(&params, keys[i].get_vk(), open, &inst, &p).map_err(|e| format!("{:?}", e)));
                    for o in others {
                        if o == inst {
                            continue;
                        }
                        r.label(format!("{} {:?} instance {:?}", f.name, open, o));
                        r.case(|r| {
                            r.state(&format!("{:?}{:?}", o, open));
                            r.outcome("other instance");
                            match guard(|| kzg_verify(&params, keys[i].get_vk(), open, &o, &p))? {
                                Ok(()) => Err("proof accepted for another instance".into()),
                                Err(_) => Ok(()),
                            }
                        });
                    }
                }
            }
        });
        // a prover that hashes a longer instance which folds onto the shorter one it proves
        c.seq("long-instances", |r| {
            let f = &fams[mixed];
            let (i, n) = (mixed, 16usize);
            let usable = n - un[i];
            for a in 0..f.count() {
                let (t, inst) = f.get(a);
                let inst: Vec<Vec<Fr>> = to(&inst);
                if !sat::<Fr>(&t, &inst, f.k, un[i]) {
                    continue;
                }
                for len in usable..=2 * n + 1 {
                    // value d moved from row 0 to row len-1 (which is row 0 again if len-1 = n or 2n)
                    let d = fi::<Fr>(5);
                    let mut long = vec![Fr::zero(); len];
                    long[0] = inst[0][0] - d;
                    long[len - 1] += d;
                    r.label(format!("mixed assignment {} with an instance of {} values", a, len));
                    r.case(|r| {
                        set_spec(&f.spec);
                        let cols = refs(&inst);
                        let mut tr = Forge { inner: Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]), replace: long.clone(), skip: inst[0].len(), seen: 0 };
                        create_proof::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, _, _, _, _>(&params, &keys[i], &[t.clone()], &[&cols[..]], rng(1), &mut tr).map_err(|e| format!("{:?}", e))?;
                        let p = tr.inner.finalize();
                        r.outcome("folded instance");
                        match guard(|| kzg_verify(&params, keys[i].get_vk(), Open::Shplonk, &[long.clone()], &p))? {
                            Ok(()) => Err("accepted".into()),
                            Err(_) => Ok(()),
                        }
                    });
                }
                break;
            }
        });

        // a circuit that uses every row of a larger domain
        let kb = 9u32;
        let pb = kzg_params(kb);
        let spec = Arc::new(Spec {
            adv: vec![0, 0],
            nfix: 1,
            ninst: 1,
            sels: vec![false],
            eq: vec![Col::A(1), Col::I(0)],
            gates: vec![vec![Ex::Sel(0) * (Ex::A(0, 0) - Ex::I(0, 0).scale(2) - Ex::F(0, 0))]],
            lookups: vec![vec![(Ex::A(0, 0), Ex::F(0, 0).scale(3))]],
            ..Default::default()
        });
        set_spec(&spec);
        let ub = unusable::<Fr>(&spec);
        let rows = (1usize << kb) - ub;
        // public input = table entry of the row; A0 = 3 * it; A1 = the public inputs in another order
        let vals: Vec<i64> = (0..rows as i64).map(|i| i + 1).collect();
        let perm = |i: usize| (i * 5 + 3) % rows;
        let copies = (0..rows).map(|i| ((Col::A(1), i), (Col::I(0), perm(i)))).collect();
        let body = Arc::new(Body { fixed: vec![vals.clone()], sel: vec![vec![true; rows]], copies });
        let big = Tiny { spec: spec.clone(), body, adv: vec![vals.iter().map(|x| v(*x * 3)).collect(), (0..rows).map(|i| v(vals[perm(i)])).collect()], inst: vec![vals.clone()], known: true };
        let binst: Vec<Vec<Fr>> = to(&big.inst);
        let bkeys = kzg_keys(&pb, &big).expect("keys");
        let bproofs: Vec<(Open, Vec<u8>)> = [Open::Shplonk, Open::Gwc].into_iter().map(|o| (o, kzg_prove(&pb, &bkeys, o, big.clone(), &binst, 1).expect("proof"))).collect();
        c.seq("large circuit", |r| {
            r.label(format!("{} rows", rows));
            r.case(|r| {
                if rows % 5 == 0 || !sat::<Fr>(&big, &binst, kb, ub) {
                    return Err("reference is inconsistent".into());
                }
                set_spec(&spec);
                extract::compare(&pb, bkeys.get_vk(), &[binst.clone()], false)?;
                for (o, p) in &bproofs {
                    r.step(1);
                    guard(|| kzg_verify(&pb, bkeys.get_vk(), *o, &binst, p))?.map_err(|e| format!("{:?}: {:?}", o, e))?;
                }
                Ok(())
            });
        });
        c.par_n("large circuit, public inputs", rows, |row, r| {
            r.label(format!("{} rows, public input {} changed", rows, row));
            r.case(|r| {
                let mut x = binst.clone();
                x[0][row] += Fr::one();
                for (o, p) in &bproofs {
                    r.step(1);
                    if guard(|| kzg_verify(&pb, bkeys.get_vk(), *o, &x, p))?.is_ok() {
                        return Err(format!("{:?}: accepted", o));
                    }
                }
                Ok(())
            });
        });
        let cells: Vec<(usize, usize)> = (0..rows).filter(|i| c.thorough() || i % 37 == 0 || *i == rows - 1 || [127, 128, 255, 256, 257].contains(i)).flat_map(|i| [(0, i), (1, i), (2, i)]).collect();
        c.par("large circuit, cells", &cells, |(col, row), r| {
            r.label(format!("{} rows, cell {} of column {} changed", rows, row, col));
            r.case(|r| {
                let (mut t, mut inst) = (big.clone(), binst.clone());
                let other = (row + 1) % rows;
                match col {
                    0 => t.adv[0][*row] = v(vals[other] * 3),
                    1 => t.adv[1][*row] = v(0),
                    _ => {
                        inst[0][*row] = fi(0);
                        t.inst[0][*row] = 0;
                        t.adv[1][(0..rows).find(|i| perm(*i) == *row).unwrap()] = v(0);
                    }
                }
                if sat::<Fr>(&t, &inst, kb, ub) {
                    return Err("reference is inconsistent".into());
                }
                r.step(1);
                match accepts(&pb, &bkeys, Open::Shplonk, &t, &inst)? {
                    true => Err("accepted".into()),
                    false => Ok(()),
                }
            });
        });

        // any changed or missing proof byte
        let mut bytes: Vec<(usize, Open, usize, u8)> = vec![];
        let mut proofs: std::collections::HashMap<(usize, Open), (Vec<Vec<Fr>>, Vec<u8>)> = Default::default();
        let p3 = fams.iter().position(|f| f.name == "phase3").unwrap();
        for i in [mixed, p3, fi_] {
            for open in [Open::Shplonk, Open::Gwc] {
                let f = &fams[i];
                let a = (0..f.count()).rev().find(|a| {
                    let (t, inst) = f.get(*a);
                    sat::<Fr>(&t, &to(&inst), f.k, un[i])
                });
                let (t, inst) = f.get(a.unwrap());
                set_spec(&f.spec);
                let inst: Vec<Vec<Fr>> = to(&inst);
                let p = kzg_prove(&params, &keys[i], open, t, &inst, 1).unwrap();
                for b in 0..p.len() {
                    bytes.push((i, open, b, 0));
                    bytes.push((i, open, b, 1));
                    if c.thorough() {
                        for x in [2u8, 4, 8, 16, 32, 64, 128, 255] {
                            bytes.push((i, open, b, x));
                        }
                    }
                }
                proofs.insert((i, open), (inst, p));
            }
        }
        c.par("proof-faults", &bytes, |(i, open, b, x), r| {
            r.label(format!("{} {:?} byte {} {}", fams[*i].name, open, b, if *x == 0 { "cut".into() } else { format!("xor {}", x) }));
            r.case(|r| {
                let (inst, p) = &proofs[&(*i, *open)];
                let mut q = p.clone();
                if *x == 0 {
                    q.truncate(*b);
                } else {
                    q[*b] ^= x;
                }
                r.state(&(i, format!("{:?}", open), b, x));
                r.outcome("faulty proof");
                match guard(|| kzg_verify(&params, keys[*i].get_vk(), *open, inst, &q))? {
                    Ok(()) => Err("faulty proof accepted".into()),
                    Err(_) => Ok(()),
                }
            });
        });

        // batches
        c.seq("batches", |r| {
            for i in [mixed, fi_] {
                for open in [Open::Shplonk, Open::Gwc] {
                    let (inst, p) = &proofs[&(i, open)];
                    let mut other = inst.clone();
                    other[0][0] += Fr::one();
                    let mut cut = p.clone();
                    let l = cut.len();
                    // a well-formed proof whose last point is another one
                    let q = &proofs[&(i, open)].1;
                    cut[l - 32..].copy_from_slice(&q[..32]);
                    let items = [(inst.clone(), p.clone()), (other, p.clone()), (inst.clone(), cut)];
                    for len in 1..=3 {
                        for w in 0..util::pow(3, len) {
                            let w = util::word(w, 3, len);
                            r.label(format!("batch {} {:?} {:?}", fams[i].name, open, w));
                            r.case(|r| {
                                let list: Vec<_> = w.iter().map(|x| items[*x].clone()).collect();
                                let want = w.iter().all(|x| *x == 0);
                                r.state(&format!("{:?} {:?} {}", w, open, i));
                                r.outcome(if want { "batch of valid proofs" } else { "batch with an invalid proof" });
                                let got = guard(|| kzg_verify_batch(&params, keys[i].get_vk(), open, &list))?;
                                if got != want {
                                    return Err(format!("valid: {}, accepted: {}", want, got));
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        });
        let _ = params.get_g().len();
    })
}
