//! C17: selector compression preserves every selector's meaning.
//!
//! Every case is a circuit with a few selectors (of enumerated kinds) and an enumerated activation
//! pattern. The keys are generated by the real code; the gates of the key's constraint system are
//! evaluated on the key's fixed columns at every row and compared with the pattern that was asked for.
use ff::Field;
use halo2_proofs::dev::{CellValue, FailureLocation, MockProver, VerifyFailure};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver};
use halo2_proofs::poly::kzg::commitment::ParamsKZG;
use halo2_proofs::poly::EvaluationDomain;
use halo2_proofs::SerdeFormat;
use group::Curve;
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use mc::prove::*;
use mc::tiny::*;
use mc::util::*;
use mc::*;
use std::collections::BTreeSet;
use std::sync::Arc;

const K: u32 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    /// simple, in one gate of this degree
    S(usize),
    /// simple, in two polynomials of degrees 2 and 4 of two gates
    Two,
    /// simple and used by no gate
    Unused,
    /// complex, used by a gate that relies on its exact value
    C,
    /// complex, used by a lookup
    L,
}
use Kind::*;

fn apow(n: usize) -> Option<Ex> {
    (0..n).map(|_| Ex::A(0, 0)).reduce(|a, b| a * b)
}
fn times(s: usize, n: usize) -> Ex {
    match apow(n) {
        Some(a) => Ex::Sel(s) * a,
        None => Ex::Sel(s),
    }
}

/// The circuit: A = the only advice column the gates look at (value 1 = violates every gate that is on).
fn spec(kinds: &[Kind], min: Option<usize>) -> Spec {
    let mut s = Spec { adv: vec![0], nfix: 1, sels: kinds.iter().map(|k| matches!(k, C | L)).collect(), min_degree: min, ..Default::default() };
    for (i, k) in kinds.iter().enumerate() {
        match k {
            S(d) => s.gates.push(vec![times(i, d - 1)]),
            Two => {
                s.gates.push(vec![times(i, 1)]);
                s.gates.push(vec![times(i, 3)]);
            }
            Unused => {}
            C => s.gates.push(vec![Ex::Sel(i) * Ex::A(0, 0), (Ex::C(1) - Ex::Sel(i)) * (Ex::A(0, 0) - Ex::C(1)) * Ex::F(0, 0)]),
            // input q*A, or 3 where q is off; the table is {1 (row 0), 0, ...} so q*A = 1 is allowed and 3 is not
            L => s.lookups.push(vec![(Ex::Sel(i) * Ex::A(0, 0), Ex::F(0, 0))]),
        }
    }
    s
}

fn eval(e: &Expression<Fr>, fixed: &[Vec<Fr>], a: Fr, row: usize) -> Fr {
    e.evaluate(
        &|c| c,
        &|_| panic!("a selector is left in the key's constraint system"),
        &|q| {
            let n = fixed[q.column_index()].len() as i64;
            fixed[q.column_index()][(row as i64 + q.rotation().0 as i64).rem_euclid(n) as usize]
        },
        &|_| a,
        &|_| panic!("no instance column"),
        &|_| panic!("no challenge"),
        &|x| -x,
        &|x, y| x + y,
        &|x, y| x * y,
        &|x, f| x * f,
    )
}

struct Env {
    params: ParamsKZG<Bn256>,
    domain: EvaluationDomain<Fr>,
}

fn circuit(sp: &Arc<Spec>, act: &[Vec<bool>], adv: &[i64]) -> Tiny {
    Tiny {
        spec: sp.clone(),
        body: Arc::new(Body { fixed: vec![vec![0; adv.len()]], sel: act.to_vec(), copies: vec![] }),
        adv: vec![adv.iter().map(|x| v(*x)).collect()],
        inst: vec![],
        known: true,
    }
}

/// The key-level meaning: every polynomial of every gate and lookup, at every row, for A = a.
fn meaning(cs: &ConstraintSystem<Fr>, fixed: &[Vec<Fr>], kinds: &[Kind], act: &[Vec<bool>], degree: usize) -> Result<(), String> {
    if cs.degree() > degree {
        return Err(format!("the degree grew from {} to {}", degree, cs.degree()));
    }
    let n = 1 << K;
    let polys: Vec<&Expression<Fr>> = cs.gates().iter().flat_map(|g| g.polynomials()).collect();
    let (one, z) = (Fr::one(), Fr::zero());
    let three = Fr::from(3);
    for row in 0..n {
        let (mut g, mut l) = (0, 0);
        for (i, k) in kinds.iter().enumerate() {
            let on = act[i].get(row).copied().unwrap_or(false);
            let at = |p: usize, a: Fr| eval(polys[p], fixed, a, row);
            let simple = |p: usize| -> Result<(), String> {
                if (at(p, one) != z) != on {
                    return Err(format!("selector {} at row {}: enabled {} but its gate (violated everywhere) is {:?}", i, row, on, at(p, one)));
                }
                if at(p, three) != z && !on {
                    return Err(format!("selector {} at row {} is off but constrains", i, row));
                }
                Ok(())
            };
            match k {
                S(_) => {
                    simple(g)?;
                    g += 1
                }
                Two => {
                    simple(g)?;
                    simple(g + 1)?;
                    g += 2
                }
                Unused => {}
                C => {
                    let q = if on { one } else { z };
                    // F(0) is zero everywhere: use the first polynomial for the exact value
                    if at(g, three) != q * three {
                        return Err(format!("complex selector {} at row {}: enabled {}, q*3 = {:?}", i, row, on, at(g, three)));
                    }
                    g += 2
                }
                L => {
                    let e = &cs.lookups()[l].input_expressions()[0];
                    let q = if on { one } else { z };
                    if eval(e, fixed, three, row) != q * three {
                        return Err(format!("complex selector {} of a lookup at row {}: enabled {}, q*3 = {:?}", i, row, on, eval(e, fixed, three, row)));
                    }
                    l += 1
                }
            }
        }
    }
    Ok(())
}

fn keys(env: &Env, kinds: &[Kind], min: Option<usize>, act: &[Vec<bool>], back: bool, rec: &mut Rec) -> Result<(), String> {
    let sp = Arc::new(spec(kinds, min));
    set_spec(&sp);
    let mut cs0 = ConstraintSystem::<Fr>::default();
    let _ = <Tiny as Circuit<Fr>>::configure(&mut cs0);
    let rows = act.iter().map(|a| a.len()).max().unwrap_or(0);
    let t = circuit(&sp, act, &vec![1; rows]);
    let vk: VerifyingKey<G1Affine> = keygen_vk(&env.params, &t).map_err(|e| format!("keygen: {:?}", e))?;
    let mock = MockProver::<Fr>::run(K, &t, vec![]).map_err(|e| format!("mock: {:?}", e))?;
    let fixed: Vec<Vec<Fr>> = mock
        .fixed()
        .iter()
        .map(|c| {
            c.iter()
                .map(|x| match x {
                    CellValue::Assigned(f) => *f,
                    _ => Fr::zero(),
                })
                .collect()
        })
        .collect();
    // the columns below are the ones the key commits to
    let com: Vec<G1Affine> = fixed
        .iter()
        .map(|c| {
            let mut p = env.domain.empty_lagrange();
            p.copy_from_slice(c);
            env.params.commit_lagrange(&p, Blind::default()).to_affine()
        })
        .collect();
    let same = &com == vk.fixed_commitments();
    if !same {
        // the key combines differently from the mock prover: decide by proofs with every witness
        rec.outcome("decided by proofs");
        proofs(env, kinds, min, act, rec)?;
        set_spec(&sp);
    } else {
        meaning(vk.cs(), &fixed, kinds, act, cs0.degree())?;
    }
    if back && same {
        for f in [SerdeFormat::Processed, SerdeFormat::RawBytes] {
            let b = vk.to_bytes(f);
            let vk2 = VerifyingKey::<G1Affine>::from_bytes::<Tiny>(&b, f).map_err(|e| format!("reading back: {:?}", e))?;
            if format!("{:?}", vk2.pinned()) != format!("{:?}", vk.pinned()) {
                return Err("the key changes by writing and reading it".into());
            }
            meaning(vk2.cs(), &fixed, kinds, act, cs0.degree()).map_err(|e| format!("after reading back: {}", e))?;
        }
    }
    // the mock prover reports exactly the enabled gates when A = 1 everywhere
    let mut want = BTreeSet::new();
    for row in 0..rows {
        let mut g = 0;
        for (i, k) in kinds.iter().enumerate() {
            let on = act[i].get(row).copied().unwrap_or(false);
            match k {
                S(_) | C => {
                    if on {
                        want.insert((g, row));
                    }
                    g += 1;
                }
                Two => {
                    if on {
                        want.insert((g, row));
                        want.insert((g + 1, row));
                    }
                    g += 2;
                }
                _ => {}
            }
        }
    }
    let mut got = BTreeSet::new();
    if let Err(fs) = mock.verify() {
        for f in fs {
            if let VerifyFailure::ConstraintNotSatisfied { constraint, location, .. } = f {
                let row = match location {
                    FailureLocation::InRegion { offset, .. } => offset,
                    FailureLocation::OutsideRegion { row } => row,
                };
                let s = format!("{:?}", constraint);
                let g: usize = s.split("index: ").nth(1).and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next()).and_then(|x| x.parse().ok()).ok_or(format!("unreadable constraint {}", s))?;
                got.insert((g, row));
            }
        }
    }
    if got != want {
        return Err(format!("mock prover: with every gate violated everywhere it reports {:?}, expected {:?}", got, want));
    }
    Ok(())
}

/// Real proofs: for every witness the verdict is that of the uncompressed circuit.
fn proofs(env: &Env, kinds: &[Kind], min: Option<usize>, act: &[Vec<bool>], rec: &mut Rec) -> Result<(), String> {
    let sp = Arc::new(spec(kinds, min));
    let rows = act[0].len();
    let un = unusable::<Fr>(&sp);
    set_spec(&sp);
    let pk = kzg_keys(&env.params, &circuit(&sp, act, &vec![0; rows])).map_err(|e| format!("keys: {:?}", e))?;
    for w in 0..1usize << rows {
        let adv: Vec<i64> = (0..rows).map(|r| (w >> r & 1) as i64).collect();
        let t = circuit(&sp, act, &adv);
        let want = sat::<Fr>(&t, &[], K, un);
        set_spec(&sp);
        let p = guard(|| kzg_prove(&env.params, &pk, Open::Shplonk, t.clone(), &[], 3));
        let got = match &p {
            Ok(Ok(p)) => kzg_verify(env.params.verifier_params(), pk.get_vk(), Open::Shplonk, &[], p).is_ok(),
            _ => false,
        };
        if got != want {
            return Err(format!("witness {:?}: satisfied {} but proof accepted {}", adv, want, got));
        }
        rec.step(1);
        rec.outcome(if want { "proved" } else { "refused" });
    }
    Ok(())
}

fn patterns(s: usize, r: usize, idx: usize) -> Vec<Vec<bool>> {
    (0..s).map(|i| (0..r).map(|j| idx >> (i * r + j) & 1 == 1).collect()).collect()
}

fn main() {
    mc::main("C17", |ctx| {
        let params = kzg_params(K);
        let env = Env { params, domain: EvaluationDomain::new(3, K) };
        let all = [S(1), S(2), S(3), S(4), Two, Unused, C, L];
        let few = [S(2), S(3), S(5), Unused, C];

        // every sequence of kinds x every activation pattern
        let plan: Vec<(usize, usize, Vec<Kind>, Vec<Option<usize>>)> = if ctx.quick() {
            vec![
                (1, 4, all.to_vec(), vec![None, Some(5)]),
                (2, 3, all.to_vec(), vec![None, Some(5)]),
                (3, 2, all.to_vec(), vec![None]),
                (3, 3, vec![S(2), S(3), C], vec![Some(4)]),
                (4, 2, vec![S(2), S(4), Unused], vec![Some(5)]),
            ]
        } else {
            vec![
                (1, 8, all.to_vec(), vec![None, Some(5), Some(9)]),
                (2, 4, all.to_vec(), vec![None, Some(4), Some(6), Some(9)]),
                (3, 3, all.to_vec(), vec![None, Some(5)]),
                (3, 4, few.to_vec(), vec![None]),
                (4, 2, few.to_vec(), vec![None, Some(4), Some(6), Some(7)]),
                (4, 3, vec![S(2), C, S(3)], vec![Some(5)]),
                (5, 2, vec![S(2), S(3), S(4)], vec![None, Some(6)]),
            ]
        };
        for (s, r, kinds, mins) in &plan {
            for min in mins {
                let nk = pow(kinds.len(), *s);
                let np = 1usize << (s * r);
                ctx.par_n(&format!("{} selectors of {} kinds, {} rows, minimum degree {:?}", s, kinds.len(), r, min), nk * np, |i, rec| {
                    let ks: Vec<Kind> = word(i / np, kinds.len(), *s).iter().map(|x| kinds[*x]).collect();
                    let act = patterns(*s, *r, i % np);
                    rec.label(format!("{:?} {:?} min {:?}", ks, act, min));
                    rec.state(&(&ks, &act, min));
                    rec.step(1);
                    let back = i % np % 3 == 1 || np < 100;
                    rec.case(|rec| {
                        rec.outcome("keys");
                        keys(&env, &ks, *min, &act, back, rec)
                    });
                });
            }
        }

        // many selectors: every row enables at most one (everything can be combined), all assignments of rows to selectors
        let (rows, maxs) = ctx.pick((4, 6), (5, 8));
        for s in 5..=maxs {
            for (min, d) in [(None, 2), (Some(4), 2), (Some(5), 2), (Some(7), 2), (Some(7), 3), (Some(9), 3), (Some(12), 2)] {
                if s > 6 && rows > 4 && min.is_some() && min != Some(7) {
                    continue;
                }
                let r = if s > 6 { 4 } else { rows };
                ctx.par_n(&format!("{} disjoint selectors, minimum degree {:?}, gate degree {}", s, min, d), pow(s + 1, r), |i, rec| {
                    let w = word(i, s + 1, r);
                    let act: Vec<Vec<bool>> = (0..s).map(|j| w.iter().map(|x| *x == j).collect()).collect();
                    let ks = vec![S(d); s];
                    rec.label(format!("{:?} {:?} min {:?}", ks, w, min));
                    rec.state(&(&ks, &act, min));
                    rec.step(1);
                    rec.case(|rec| {
                        rec.outcome("keys");
                        keys(&env, &ks, min, &act, i % 5 == 0, rec)
                    });
                });
            }
        }

        // one real conflict graph at a time: all graphs on 4 (5) selectors, one row per edge and one per selector
        let v = ctx.pick(4usize, 5);
        let edges: Vec<(usize, usize)> = (0..v).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
        for min in [None, Some(4), Some(5), Some(6)] {
            ctx.par_n(&format!("conflict graphs on {} selectors, minimum degree {:?}", v, min), 1usize << edges.len(), |g, rec| {
                let on: Vec<(usize, usize)> = edges.iter().enumerate().filter(|(i, _)| g >> i & 1 == 1).map(|(_, e)| *e).collect();
                if on.len() + v > 10 {
                    return;
                }
                let act: Vec<Vec<bool>> = (0..v).map(|s| (0..v).map(|r| r == s).chain(on.iter().map(|(a, b)| *a == s || *b == s)).collect()).collect();
                for kinds in 0..pow(2, v) {
                    let ks: Vec<Kind> = word(kinds, 2, v).iter().map(|x| if *x == 0 { S(2) } else { S(3) }).collect();
                    rec.label(format!("{:?} conflicts {:?} min {:?}", ks, on, min));
                    rec.state(&(&ks, &act, min));
                    rec.step(1);
                    rec.case(|rec| {
                        rec.outcome("keys");
                        keys(&env, &ks, min, &act, kinds % 5 == 0, rec)
                    });
                }
            });
        }

        // real proofs
        let three = vec![S(2), S(3), C];
        let five = vec![S(2), S(3), S(4), C, L];
        let plan: Vec<(usize, usize, Vec<Kind>, Vec<Option<usize>>)> =
            ctx.pick(vec![(2, 2, three.clone(), vec![Some(4)]), (3, 2, vec![S(2), S(3)], vec![Some(4)])], vec![(2, 3, five.clone(), vec![None, Some(5)]), (3, 2, five.clone(), vec![None, Some(5)]), (4, 2, vec![S(2), S(3)], vec![Some(5)])]);
        for (s, r, kinds, mins) in &plan {
            for min in mins {
                let np = 1usize << (s * r);
                let ks_n = pow(kinds.len(), *s);
                ctx.par_n(&format!("proofs: {} selectors of {} kinds, {} rows, minimum degree {:?}", s, kinds.len(), r, min), ks_n * np, |i, rec| {
                    let ks: Vec<Kind> = word(i / np, kinds.len(), *s).iter().map(|x| kinds[*x]).collect();
                    let act = patterns(*s, *r, i % np);
                    rec.label(format!("{:?} {:?} min {:?} proofs", ks, act, min));
                    rec.state(&(&ks, &act, min, 1));
                    rec.case(|rec| proofs(&env, &ks, *min, &act, rec));
                });
            }
        }
    });
}
