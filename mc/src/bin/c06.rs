//! C06: no witness cell of a satisfied circuit is free.
use ff::Field;
use halo2curves::bn256::Fr;
use mc::bf::*;
use mc::bfc::*;
use mc::plonkref::*;
use mc::util::*;
use mc::*;
use std::collections::BTreeSet;

/// All subsets of 1..=max elements of 0..n.
fn subsets(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(n: usize, max: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        if cur.len() == max {
            return;
        }
        for i in from..n {
            cur.push(i);
            go(n, max, i + 1, cur, out);
            cur.pop();
        }
    }
    go(n, max, 0, &mut vec![], &mut out);
    out
}

fn section<const R: usize>(c: &Ctx, name: &str, k: u32, progs: &[Vec<u8>], alpha: &[u64], fuel: usize, max_in: usize, mock_every: usize, max_late: usize) {
    let b = Bfc::<R>::new(k);
    let cs = &b.shape.cs;
    c.par(name, progs, |p, r| {
        let code = ref_compile(p).unwrap();
        for (input, t) in all_inputs(&code, alpha, b.bits, fuel, max_in) {
            if t.end != End::Halt || t.inputs.len() != input.len() {
                continue;
            }
            let inst = instance(&frs(&code), &frs(&input));
            let base = format!("R{} {} in={:?}", R, show(p), input);
            r.label(&base);
            let vm = vm_run(&code, &input, Some(b.bits as u64));
            let m0 = clone_matrix(&vm.matrix);
            let mut g = match b.grid(vm.matrix, &inst) {
                Some(g) => g,
                None => continue, // completeness is C04's business
            };
            if !b.accepts_grid(&g) {
                continue;
            }
            let cells: BTreeSet<(usize, usize)> = g.assigned.iter().cloned().collect();
            let mut idx = 0usize;
            // 1. every assigned cell, alone
            for &(col, row) in &cells {
                let v = g.advice[col][row];
                let mut alts = vec![v + Fr::one(), v - Fr::one(), Fr::zero(), Fr::one(), -v, v.double(), v + fr(R as u64), fr(R as u64 - 1), b.ch[0]];
                // another value of the same column (another row's content)
                for &(c2, r2) in &cells {
                    if c2 == col {
                        alts.push(g.advice[c2][r2]);
                    }
                }
                let alts: BTreeSet<_> = alts.into_iter().filter(|x| *x != v).collect();
                for a in alts {
                    g.advice[col][row] = a;
                    let near: Vec<usize> = (row.saturating_sub(2)..(row + 3).min(g.usable)).collect();
                    let ok = check_rows(cs, &g, &near).is_none() && check(cs, &g).is_none();
                    r.step(1);
                    r.trace();
                    r.state(&(&base, col, row, a.to_bytes()));
                    r.outcome(if ok { "single cell accepted" } else { "single cell rejected" });
                    let key = format!("{} advice{}@{}", base, col, row);
                    if ok {
                        r.label(&key);
                        r.violation(&key, format!("the circuit still accepts when cell (advice {}, row {}) holding {:?} is replaced by {:?}", col, row, v, a));
                    }
                    idx += 1;
                    if idx % mock_every == 1 {
                        // conformance: the repository's own checker, with the same fault injected
                        let m = with_tamper(&[((col, row), a)], || mock_evil::<R>(k, clone_matrix(&m0), &inst));
                        // second-phase cells depend on MockProver's own challenges; either way the verdict is "no"
                        if m {
                            let key = format!("mock {}", key);
                            r.label(&key);
                            r.violation(&key, format!("MockProver accepts a changed cell ({:?} -> {:?})", v, a));
                        }
                        r.outcome("single cell also by MockProver");
                    }
                }
                g.advice[col][row] = v;
                if r.stopped() {
                    return;
                }
            }
            // 2. coordinated changes of second-phase columns
            let cols: Vec<usize> = (0..g.advice.len()).filter(|i| g.advice_phase[*i] > 0 && cells.iter().any(|c| c.0 == *i)).collect();
            let top = |col: usize| cells.iter().filter(|c| c.0 == col).map(|c| c.1).max().unwrap();
            for s in subsets(cols.len(), 3) {
                let mut muts: Vec<(String, Vec<(usize, usize, Fr)>)> = vec![];
                for lam in [Fr::zero(), -Fr::one(), fr(2), b.ch[1]] {
                    let mut ch = vec![];
                    for &i in &s {
                        for row in 0..=top(cols[i]) {
                            ch.push((cols[i], row, g.advice[cols[i]][row] * lam));
                        }
                    }
                    muts.push(("scaled".into(), ch));
                }
                for (gi, gamma) in b.ch.iter().enumerate() {
                    let mut ch = vec![];
                    for &i in &s {
                        let mut d = Fr::one();
                        for row in 0..=top(cols[i]) {
                            let v = g.advice[cols[i]][row];
                            ch.push((cols[i], row, v + d));
                            if row < top(cols[i]) && g.advice[cols[i]][row + 1] != v {
                                d *= gamma;
                            }
                        }
                    }
                    muts.push((format!("shifted by challenge {}", gi), ch));
                }
                for (what, ch) in muts {
                    let saved: Vec<Fr> = ch.iter().map(|(a, b, _)| g.advice[*a][*b]).collect();
                    if ch.iter().zip(&saved).all(|(a, b)| a.2 == *b) {
                        continue;
                    }
                    for (a, b, v) in &ch {
                        g.advice[*a][*b] = *v;
                    }
                    let ok = b.accepts_grid(&g);
                    for ((a, b, _), v) in ch.iter().zip(&saved) {
                        g.advice[*a][*b] = *v;
                    }
                    r.step(1);
                    r.trace();
                    r.state(&(&base, &s, &what));
                    r.outcome(if ok { "columns accepted" } else { "columns rejected" });
                    if ok {
                        let key = format!("{} columns {:?} {}", base, s.iter().map(|i| cols[*i]).collect::<Vec<_>>(), what);
                        r.label(&key);
                        r.violation(&key, "the circuit accepts a running product/sum that was changed as a whole");
                    }
                }
                if r.stopped() {
                    return;
                }
            }
            // 3. a running column changed from some row on: a gate has to object, whatever the column is linked to
            for &col in &cols {
                let orig = g.advice[col].clone();
                let t = top(col);
                for i in 1..=t {
                    let mut muts: Vec<(String, Vec<Fr>)> = vec![];
                    for lam in [Fr::zero(), fr(2), b.ch[1]] {
                        let mut n = orig.clone();
                        for j in i..=t {
                            n[j] = orig[j] * lam;
                        }
                        muts.push((format!("scaled from row {}", i), n));
                    }
                    for gamma in [Fr::one()].iter().chain(b.ch.iter()) {
                        let mut n = orig.clone();
                        let mut d = Fr::one();
                        for j in i..=t {
                            n[j] = orig[j] + d;
                            if j < t && orig[j + 1] != orig[j] {
                                d *= gamma;
                            }
                        }
                        muts.push((format!("shifted from row {}", i), n));
                    }
                    for (what, n) in muts {
                        if n == orig {
                            continue;
                        }
                        g.advice[col] = n;
                        let near: Vec<usize> = (i.saturating_sub(2)..(i + 3).min(g.usable)).collect();
                        let ok = check_gates(cs, &g, &near).is_none() && check_gates(cs, &g, &(0..g.usable).collect::<Vec<_>>()).is_none();
                        r.step(1);
                        r.trace();
                        r.state(&(&base, col, i, &what));
                        r.outcome(if ok { "suffix accepted" } else { "suffix rejected" });
                        if ok {
                            let key = format!("{} advice{} {}", base, col, what);
                            r.label(&key);
                            r.violation(&key, "no gate objects: the end of this running column is chosen by the prover");
                        }
                    }
                    g.advice[col] = orig.clone();
                }
                if r.stopped() {
                    return;
                }
            }
            // 4. and 5.: two early cells of a row; late cells that make up for each other
            joint_changes(&b, &mut g, &base, max_late, r);
            if r.stopped() {
                return;
            }
            r.sample(|| format!("{}: {} assigned cells altered one by one, {} second-phase columns altered together", base, cells.len(), cols.len()));
        }
    });
}

fn mock_evil<const R: usize>(k: u32, m: ckb_bf_vm::matrix::Matrix, inst: &[Vec<Fr>]) -> bool {
    use ckb_bf_base::main_config::MyCircuit;
    use halo2_proofs::dev::MockProver;
    guard(|| match MockProver::run(k, &Evil(MyCircuit::<Fr, R>::new(m)), inst.to_vec()) {
        Err(_) => false,
        Ok(p) => p.verify().is_ok(),
    })
    .unwrap_or(false)
}

fn main() {
    mc::main("C06", |c| {
        c.assume("verifier challenges are fixed pseudo-random values; a change that only passes for special challenges counts as bound");
        let mut progs = vec![];
        for len in 1..=c.pick(2, 3) {
            for i in 0..pow(8, len) {
                if let Some(p) = program(i, len) {
                    progs.push(p);
                }
            }
        }
        for s in ["+[-]", ",[.,]", "+[>+<-]>.", "-[-].", ",>,<.", "[[]]", "+.-", ">+<", ",.,", "+>-<[-].", ">>", "++", "..", "+.+."] {
            progs.push(s.as_bytes().to_vec());
        }
        section::<4>(c, "cells-2bit", 6, &progs, &[0, 1, 3], 24, 2, 997, c.pick(150, 400));
        let p256: Vec<Vec<u8>> = ["-.", ",[.-]", ",>,+"].iter().map(|s| s.as_bytes().to_vec()).collect();
        section::<256>(c, "cells-8bit", 9, &p256, c.pick(&[0, 255][..], &[0, 1, 2, 255][..]), 24, 2, 4999, 0);
    })
}
