//! C07: a witness is good for exactly one public program and input.
use mc::bf::*;
use mc::bfc::*;
use mc::util::*;
use mc::*;

/// All sequences one edit away: replace, insert, delete, swap of neighbours, rotate, reverse, concat.
fn neighbours(s: &[u64], alpha: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![];
    for i in 0..s.len() {
        for a in alpha.iter().cloned().chain([s[i] + 1, s[i].wrapping_sub(1), s[i] + 256, s[i] + 65536]) {
            let mut t = s.to_vec();
            t[i] = a;
            out.push(t);
        }
        let mut t = s.to_vec();
        t.remove(i);
        out.push(t);
        for j in i + 1..s.len() {
            let mut t = s.to_vec();
            t.swap(i, j);
            out.push(t);
        }
    }
    for i in 0..=s.len() {
        for a in alpha {
            let mut t = s.to_vec();
            t.insert(i, *a);
            out.push(t);
        }
    }
    let mut t = s.to_vec();
    t.extend_from_slice(s);
    out.push(t);
    let mut t = s.to_vec();
    t.reverse();
    out.push(t);
    out.push(vec![]);
    let mut z = vec![0];
    z.extend_from_slice(s);
    out.push(z.clone());
    z.insert(0, 0);
    out.push(z);
    out.retain(|x| x != s);
    out.sort();
    out.dedup();
    out
}

fn section<const R: usize>(c: &Ctx, name: &str, k: u32, progs: &[Vec<u8>], alpha: &[u64], fuel: usize, max_in: usize, mock_every: usize) {
    let b = Bfc::<R>::new(k);
    let ops: Vec<u64> = OPS.iter().map(|x| *x as u64).chain([0, 1, 2]).collect();
    c.par(name, progs, |p, r| {
        let code = ref_compile(p).unwrap();
        let fcode = frs(&code);
        for (input, t) in all_inputs(&code, alpha, b.bits, fuel, max_in) {
            if t.end != End::Halt || t.inputs.len() != input.len() {
                continue;
            }
            let rows: Vec<_> = t.rows.iter().map(fr_row).collect();
            let mut idx = 0;
            let mut judge = |what: &str, f: &Forge, prog: &[u64], inst: &[Vec<halo2curves::bn256::Fr>], genuine: bool, r: &mut Rec| {
                if r.stopped() {
                    return;
                }
                // the tables filled from the claimed public values, or from the values of the real run
                let mut got = b.accepts(f.matrix(&frs(prog)), inst);
                if !got && !genuine {
                    if let Some(mut g) = b.grid(f.matrix(&frs(prog)), &instance(&fcode, &frs(&input))) {
                        for (c, col) in inst.iter().enumerate() {
                            let n = g.instance[c].len();
                            g.instance[c] = col.clone();
                            g.instance[c].resize(n, fr(0));
                        }
                        got = b.accepts_kept(&mut g);
                    }
                }
                idx += 1;
                r.step(1);
                r.trace();
                r.state(&(p, &input, what, got));
                r.outcome(if got { "accepted" } else { "rejected" });
                let key = || format!("R{} {} in={:?} {}", R, show(p), input, what);
                if got != genuine {
                    let key = key();
                    r.label(&key);
                    r.violation(&key, format!("circuit {} (expected {})", if got { "accepts" } else { "rejects" }, if genuine { "accept" } else { "reject" }));
                }
                if idx % mock_every == 1 || got {
                    let m = b.mock(f.matrix(&frs(prog)), inst);
                    r.outcome("also by MockProver");
                    if m != got {
                        let key = format!("mock {}", key());
                        r.label(&key);
                        r.violation(&key, format!("MockProver={} but constraints {}satisfied", m, if got { "" } else { "not " }));
                    }
                }
            };
            let honest = Forge { rows: rows.clone(), inputs: frs(&t.inputs), outputs: frs(&t.outputs), icode: fcode.clone(), ibase: 0, itail: fr(0), irows: None, ifirst: None };
            judge("same public values", &honest, &code, &instance(&fcode, &frs(&input)), true, r);
            // the length fields alone
            for (which, len) in [(0, code.len()), (1, input.len())] {
                for d in [-1i64, 1, 2, -2] {
                    let mut inst = instance(&fcode, &frs(&input));
                    inst[which][0] = fri(len as i64 + d);
                    judge(&format!("length field {} {:+}", which, d), &honest, &code, &inst, false, r);
                }
            }
            for code2 in neighbours(&code, &ops) {
                let inst = instance(&frs(&code2), &frs(&input));
                // is this very execution also the execution of the other program?
                let t2 = ref_run(&code2, &input, b.bits, fuel);
                // (sequences that are no compiled programs may leave past their end: not provable)
                let same = t2.end == End::Halt && t2.rows.last().unwrap().ip == code2.len() as u64 && t2.rows.iter().map(fr_row).collect::<Vec<_>>() == rows;
                // prover keeps its tables; or adapts the program table; or also the instruction table
                judge(&format!("code={:?}", code2), &honest, &code, &inst, false, r);
                judge(&format!("code={:?}, program table", code2), &honest, &code2, &inst, false, r);
                let mut f = honest.clone();
                f.icode = frs(&code2);
                judge(&format!("code={:?}, program and instruction table", code2), &f, &code2, &inst, same, r);
                // (the program table is filled from the public column: only its length is the prover's)
                judge(&format!("code={:?}, instruction table", code2), &f, &code, &inst, same && code2.len() == code.len(), r);
            }
            for input2 in neighbours(&input, alpha) {
                let inst = instance(&fcode, &frs(&input2));
                judge(&format!("input={:?}", input2), &honest, &code, &inst, false, r);
                let mut f = honest.clone();
                f.inputs = frs(&input2);
                judge(&format!("input={:?}, input table", input2), &f, &code, &inst, false, r);
            }
            r.sample(|| format!("R={} program {:?} input {:?}: {} public-input/table combinations", R, show(p), input, idx));
        }
    });
}

fn main() {
    mc::main("C07", |c| {
        c.assume("public inputs are well formed as the on-chain verifier builds them: each column is its length followed by that many values");
        let mut progs = vec![];
        for len in 1..=c.pick(3, 4) {
            for i in 0..pow(8, len) {
                if let Some(p) = program(i, len) {
                    progs.push(p);
                }
            }
        }
        for s in ["+[-]", ",[.,]", "+[>+<-]>.", "[+]+.", "[[]]", ",,,", ",.,.", "[,]."] {
            progs.push(s.as_bytes().to_vec());
        }
        section::<4>(c, "public-values-2bit", 6, &progs, &[0, 1, 3], 24, 3, 499);
        let p256: Vec<Vec<u8>> = [",", ",,", "+.", ",[.-]", "[.]"].iter().map(|s| s.as_bytes().to_vec()).collect();
        section::<256>(c, "public-values-8bit", 9, &p256, &[0, 1, 255], 24, 2, 499);
    })
}
