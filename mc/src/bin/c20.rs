//! C20: the BN256 pairing is bilinear and non-degenerate.
//!
//! Every pair of scalars of an alphabet, every short list of terms; the reference is the cyclic
//! group of order r written as exponents (the discrete logarithms are known by construction), and
//! its table in the target group built by repeated addition.
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2curves::bn256::{multi_miller_loop, pairing, Bn256, Fr, G1Affine, G2Affine, G2Prepared, Gt, G1, G2};
use halo2curves::pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use mc::*;
use num_bigint::BigUint;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

type Z = BigUint;

fn modulus() -> Z {
    Z::parse_bytes(b"30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", 16).unwrap()
}
fn fr(k: &Z) -> Fr {
    let mut b = [0u8; 32];
    let v = k.to_bytes_le();
    b[..v.len()].copy_from_slice(&v);
    Fr::from_repr(b).unwrap()
}
fn yes(what: impl AsRef<str>, c: bool) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(format!("{} fails", what.as_ref()))
    }
}
/// k * base in the target group by additions only
fn tmul(pows: &[Gt], k: &Z) -> Gt {
    (0..k.bits()).filter(|i| k.bit(*i)).fold(Gt::identity(), |a, i| a + pows[i as usize])
}

fn main() {
    mc::main("C20", |ctx| {
        ctx.case_limit(300);
        ctx.assume("scalar multiplication on G1 and G2 is right (C19)");
        ctx.assume("the discrete logarithm of a random-looking target group element is not hit by chance");
        let r = modulus();
        let win = ctx.pick(12u64, 30u64);
        let mut ks: Vec<Z> = vec![];
        for m in 0..=win {
            ks.push(Z::from(m));
            if m > 0 {
                ks.push(&r - m);
            }
        }
        for k in ctx.pick(vec![16usize, 63, 64, 128, 200, 253], (5..254).step_by(9).collect()) {
            let p: Z = Z::from(1u8) << k;
            ks.push(&p - 1u8);
            ks.push(p.clone());
            ks.push(&r - &p);
        }
        for d in [2u8, 3, 5, 7] {
            ks.push((&r - 1u8) / d);
        }
        ks.push((&r + 1u8) / 2u8);
        ks.push(Z::from_bytes_le(&[0x55; 31]));
        ks.push(Z::from_bytes_le(&[0xaa; 31]));
        ks.sort();
        ks.dedup();
        let g1: Vec<G1Affine> = ks.iter().map(|k| (G1::generator() * fr(k)).to_affine()).collect();
        let g2: Vec<G2Affine> = ks.iter().map(|k| (G2::generator() * fr(k)).to_affine()).collect();
        let base = pairing(&G1Affine::generator(), &G2Affine::generator());
        let pows = {
            let mut v = vec![base];
            for _ in 1..256 {
                let l = *v.last().unwrap();
                v.push(l + l);
            }
            v
        };

        ctx.seq("non-degeneracy and order", |rec| {
            rec.label("e(G1,G2)");
            rec.case(|_| {
                yes("e(G1,G2) is not one", !bool::from(base.is_identity()) && base != Gt::identity())?;
                yes("r e(G1,G2) is one", bool::from(tmul(&pows, &r).is_identity()))?;
                yes("r-1 is the inverse", tmul(&pows, &(&r - 1u8)) == -base)?;
                for k in 1u64..200 {
                    yes(format!("{} e(G1,G2) is not one", k), !bool::from(tmul(&pows, &Z::from(k)).is_identity()))?;
                }
                yes("identity", bool::from(Gt::identity().is_identity()) && bool::from(<Gt as Group>::identity().is_identity()))
            });
        });

        let items: Vec<usize> = (0..ks.len()).collect();
        ctx.par("bilinearity: all scalar pairs", &items, |&i, rec| {
            for j in 0..ks.len() {
                rec.label(format!("e({:x} G1, {:x} G2)", ks[i], ks[j]));
                rec.state(&(ks[i].to_bytes_le(), ks[j].to_bytes_le()));
                rec.case(|rec| {
                    let e = (&ks[i] * &ks[j]) % &r;
                    let exp = tmul(&pows, &e);
                    let got = pairing(&g1[i], &g2[j]);
                    yes("e(aP,bQ) = ab e(P,Q)", got == exp)?;
                    yes("is one exactly if a factor is the identity", bool::from(got.is_identity()) == (e.bits() == 0))?;
                    if i <= 3 || j <= 3 || (i + j) % 7 == 0 {
                        yes("Engine::pairing", Bn256::pairing(&g1[i], &g2[j]) == exp)?;
                        yes("G1 pairing_with", g1[i].pairing_with(&g2[j]) == exp)?;
                        yes("G2 pairing_with", g2[j].pairing_with(&g1[i]) == exp)?;
                        let q = G2Prepared::from(g2[j]);
                        yes("prepared", <Bn256 as MultiMillerLoop>::multi_miller_loop(&[(&g1[i], &q)]).final_exponentiation() == exp)?;
                        yes("prepared is_zero", q.is_zero() == (ks[j].bits() == 0))?;
                        rec.step(4);
                    }
                    rec.outcome(if e.bits() == 0 { "one" } else { "not one" });
                    Ok(())
                });
            }
        });

        // ---- all short lists of terms
        let sub: Vec<(u64, u64)> = vec![(1, 1), (0, 1), (1, 0), (2, 3), (3, 2), (5, 1), (u64::MAX, 1), (1, u64::MAX), (0, 0)];
        let sc = |m: u64| if m == u64::MAX { &r - 1u8 } else { Z::from(m) };
        let terms: Vec<(Z, G1Affine, G2Prepared, G2Affine)> = sub
            .iter()
            .map(|(a, b)| {
                let (a, b) = (sc(*a), sc(*b));
                let q = (G2::generator() * fr(&b)).to_affine();
                ((&a * &b) % &r, (G1::generator() * fr(&a)).to_affine(), G2Prepared::from(q), q)
            })
            .collect();
        let maxl = ctx.pick(3usize, 4usize);
        let mut lists: Vec<Vec<usize>> = vec![];
        for l in 0..=maxl {
            let a = if l >= 4 { 6 } else { terms.len() };
            for mut i in 0..a.pow(l as u32) {
                lists.push((0..l).map(|_| { let d = i % a; i /= a; d }).collect());
            }
        }
        // longer lists: one term repeated, and one identity at every position
        for l in 4..ctx.pick(8usize, 12) {
            for t in [0usize, 3, 6] {
                lists.push(vec![t; l]);
                for p in 0..l {
                    for id in [1usize, 2] {
                        let mut v = vec![t; l];
                        v[p] = id;
                        lists.push(v);
                    }
                }
            }
        }
        ctx.par("multi-pairing lists", &lists, |li, rec| {
            rec.label(format!("terms {:?}", li.iter().map(|i| sub[*i]).collect::<Vec<_>>()));
            rec.state(&li.clone());
            rec.case(|rec| {
                let e = li.iter().fold(Z::from(0u8), |a, i| (a + &terms[*i].0) % &r);
                let ts: Vec<(&G1Affine, &G2Prepared)> = li.iter().map(|i| (&terms[*i].1, &terms[*i].2)).collect();
                let got = multi_miller_loop(&ts).final_exponentiation();
                yes("product of pairings", got == tmul(&pows, &e))?;
                yes("is one exactly if the exponents cancel", bool::from(got.is_identity()) == (e.bits() == 0))?;
                let sum: Gt = li.iter().map(|i| pairing(&terms[*i].1, &terms[*i].3)).sum();
                yes("sum of single pairings", sum == got)?;
                rec.outcome(if e.bits() == 0 { "cancelling list" } else { "other list" });
                Ok(())
            });
        });

        // ---- the target group itself
        let tg: Vec<Gt> = ks.iter().map(|k| tmul(&pows, k)).collect();
        ctx.par("target group", &items, |&i, rec| {
            rec.label(format!("{:x} in Gt", ks[i]));
            rec.case(|rec| {
                yes("neg", -tg[i] == tmul(&pows, &((&r - &ks[i]) % &r)))?;
                yes("double", tg[i].double() == tmul(&pows, &((&ks[i] * 2u8) % &r)) && Group::double(&tg[i]) == tg[i].double())?;
                yes("is_identity", bool::from(tg[i].is_identity()) == (ks[i].bits() == 0))?;
                for j in 0..ks.len() {
                    rec.step(6);
                    rec.state(&("gt", i, j));
                    let s = tmul(&pows, &((&ks[i] + &ks[j]) % &r));
                    let d = tmul(&pows, &((&ks[i] + &r - &ks[j]) % &r));
                    let m = tmul(&pows, &((&ks[i] * &ks[j]) % &r));
                    yes(format!("+ {:x}", ks[j]), tg[i] + tg[j] == s && &tg[i] + &tg[j] == s)?;
                    yes(format!("- {:x}", ks[j]), tg[i] - tg[j] == d)?;
                    yes(format!("* {:x}", ks[j]), tg[i] * fr(&ks[j]) == m)?;
                    let mut t = tg[i];
                    t += tg[j];
                    yes("+=", t == s)?;
                    t -= tg[j];
                    t -= tg[j];
                    yes("-=", t == d)?;
                    let mut t = tg[i];
                    t *= fr(&ks[j]);
                    yes("*=", t == m)?;
                    yes("eq", (tg[i] == tg[j]) == (i == j) && bool::from(tg[i].ct_eq(&tg[j])) == (i == j))?;
                    yes("select", Gt::conditional_select(&tg[i], &tg[j], Choice::from(0)) == tg[i] && Gt::conditional_select(&tg[i], &tg[j], Choice::from(1)) == tg[j])?;
                }
                Ok(())
            });
        });
        let _ = Fr::one();
    });
}
