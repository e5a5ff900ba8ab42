//! C05: only genuine executions satisfy the circuit.
use mc::bf::*;
use mc::bfc::*;
use mc::util::*;
use mc::*;

fn forge_section<const R: usize>(c: &Ctx, name: &str, k: u32, progs: &[Vec<u8>], alpha: &[u64], fuel: usize, max_in: usize) {
    let b = Bfc::<R>::new(k);
    c.par(name, progs, |p, r| {
        let code = ref_compile(p).unwrap();
        let fcode = frs(&code);
        for (input, _) in all_inputs(&code, alpha, b.bits, fuel, max_in) {
            let legit = b.halting(&code, &input, fuel);
            let inst = instance(&fcode, &frs(&input));
            let lrows: Option<Vec<_>> = legit.as_ref().map(|t| t.rows.iter().map(fr_row).collect());
            let mut idx = 0usize;
            forgeries(&code, &input, R as i64, fuel, &mut |dev, f| {
                if r.stopped() {
                    return;
                }
                idx += 1;
                let t = legit.as_ref();
                let genuine = lrows.as_ref() == Some(&f.rows)
                    && f.icode == fcode && f.ibase == 0 && f.itail == fr(0)
                    && t.map(|t| frs(&t.inputs) == f.inputs && frs(&t.outputs) == f.outputs).unwrap_or(false);
                let got = b.accepts(f.matrix(&fcode), &inst);
                r.step(1);
                r.trace();
                r.state(&(p, &input, dev, got));
                r.outcome(if got { "accepted" } else { "rejected" });
                if got != genuine {
                    let key = format!("R{} {} in={:?} {}", R, show(p), input, dev);
                    r.label(&key);
                    r.violation(&key, format!("circuit {} a {} execution\nrows={:?}", if got { "accepts" } else { "rejects" }, if genuine { "genuine" } else { "forged" }, f.rows));
                }
                // conformance of the evaluator with the repository's own MockProver
                if idx % 97 == 1 || got {
                    let m = b.mock(f.matrix(&fcode), &inst);
                    if m != got {
                        let key = format!("mock R{} {} in={:?} {}", R, show(p), input, dev);
                        r.label(&key);
                        r.violation(&key, format!("MockProver={} but constraints {}satisfied", m, if got { "" } else { "not " }));
                    }
                }
                if idx == 40 {
                    r.sample(|| format!("R={} program {:?} input {:?} deviation {} -> {}", R, show(p), input, dev, if got { "accepted" } else { "rejected" }));
                }
            });
        }
    });
}

/// Value forging across time: every mv deviation that a memory permutation could hide.
fn memory_section(c: &Ctx, maxlen: usize, extra: &[&str], max_rows: usize) {
    let b = Bfc::<4>::new(6);
    let mut progs: Vec<Vec<u8>> = vec![];
    for len in 2..=maxlen {
        for i in 0..pow(8, len) {
            if let Some(p) = program(i, len) {
                if p.contains(&b'<') {
                    progs.push(p);
                }
            }
        }
    }
    progs.extend(extra.iter().map(|s| s.as_bytes().to_vec()));
    c.par("memory-permutations", &progs, |p, r| {
        let code = ref_compile(p).unwrap();
        let fcode = frs(&code);
        for (input, t) in all_inputs(&code, &[0, 1], 2, 24, 3) {
            if t.end == End::Fuel || t.end == End::NoInput || t.rows.len() > max_rows {
                continue;
            }
            let legit = t.end == End::Halt;
            let inst = instance(&fcode, &frs(&input));
            forgeries(&code, &input, 4, 24, &mut |dev, f| {
                if r.stopped() || f.rows.len() > max_rows || !(dev.contains(":mv=") || dev == "honest") {
                    return;
                }
                let m0 = f.matrix(&fcode);
                let n = m0.memory_matrix.len();
                for perm in permutations(n) {
                    let mut m = clone_matrix(&m0);
                    let mm = clone_matrix(&m0).memory_matrix;
                    let mut mm: Vec<_> = mm.into_iter().map(Some).collect();
                    m.memory_matrix = perm.iter().map(|i| mm[*i].take().unwrap()).collect();
                    // M0-style necessary shape: skip orders that do not keep equal pointers adjacent
                    let mut jumps = 0;
                    for w in m.memory_matrix.windows(2) {
                        if w[0].memory_pointer != w[1].memory_pointer {
                            jumps += 1;
                        }
                    }
                    if jumps > 2 {
                        continue;
                    }
                    let got = b.accepts(m, &inst);
                    r.step(1);
                    r.trace();
                    r.state(&(p, &input, dev, &perm, got));
                    r.outcome(if got { "perm accepted" } else { "perm rejected" });
                    if got && !(dev == "honest" && legit) {
                        let key = format!("mem {} in={:?} {} perm={:?}", show(p), input, dev, perm);
                        r.label(&key);
                        r.violation(&key, format!("circuit accepts forged memory contents\nrows={:?}", f.rows));
                    }
                }
            });
        }
    });
}

/// Value transitions at the real cell width: for every first byte v, every claimed value of the
/// cell in every later row of the run.
fn value_section(c: &Ctx, vs: &[u64]) {
    let b = Bfc::<256>::new(9);
    let mut items = vec![];
    for p in [",+", ",-", ",.", ",>", ",,", ",>,<", ",-+.", "+-"] {
        for v in vs {
            items.push((p, *v));
        }
    }
    c.par("value-transitions-8bit", &items, |(p, v), r| {
        let code = ref_compile(p.as_bytes()).unwrap();
        let fcode = frs(&code);
        let input: Vec<u64> = p.bytes().filter(|b| *b == b',').enumerate().map(|(i, _)| if i == 0 { *v } else { 7 }).collect();
        let inst = instance(&fcode, &frs(&input));
        let t = match b.halting(&code, &input, 64) {
            Some(t) => t,
            None => return,
        };
        let rows: Vec<_> = t.rows.iter().map(fr_row).collect();
        let m0 = Forge { rows: rows.clone(), inputs: frs(&t.inputs), outputs: frs(&t.outputs), icode: fcode.clone(), ibase: 0, itail: fr(0), irows: None, ifirst: None };
        for i in 1..rows.len() {
            for x in -1i64..=257 {
                if r.stopped() {
                    return;
                }
                let genuine = fri(x) == rows[i][5];
                let mut f = m0.clone();
                f.rows[i][5] = fri(x);
                f.rows[i][6] = inverse(fri(x));
                // outputs as the claimed rows say
                f.outputs = f.rows.iter().filter(|w| w[2] == fr(b'.' as u64)).map(|w| w[5]).collect();
                let got = b.accepts(f.matrix(&fcode), &inst);
                r.step(1);
                r.trace();
                r.state(&(p, v, i, x, got));
                r.outcome(if got { "value accepted" } else { "value rejected" });
                if got != genuine {
                    let key = format!("value {} in={:?} row{}={}", p, input, i, x);
                    r.label(&key);
                    r.violation(&key, format!("circuit {} cell value {} in row {}, the machine has {:?}", if got { "accepts" } else { "rejects" }, x, i, rows[i][5]));
                }
            }
        }
    });
}

/// Edits of the instruction and memory records themselves: rows dropped, repeated, exchanged, replaced.
fn table_section(c: &Ctx, progs: &[Vec<u8>]) {
    let b = Bfc::<4>::new(6);
    c.par("table-edits", progs, |p, r| {
        let code = ref_compile(p).unwrap();
        let fcode = frs(&code);
        for (input, t) in all_inputs(&code, &[0, 1, 3], 2, 20, 2) {
            if t.end != End::Halt {
                continue;
            }
            let inst = instance(&fcode, &frs(&input));
            let rows: Vec<_> = t.rows.iter().map(fr_row).collect();
            let f = Forge { rows, inputs: frs(&t.inputs), outputs: frs(&t.outputs), icode: fcode.clone(), ibase: 0, itail: fr(0), irows: None, ifirst: None };
            let m0 = f.matrix(&fcode);
            for which in 0..3 {
                // 0: instruction, 1: memory, 2: processor
                let n = [m0.instruction_matrix.len(), m0.memory_matrix.len(), m0.processor_matrix.len()][which];
                for i in 0..n {
                    for j in 0..=n {
                        for op in 0..4 {
                            if r.stopped() {
                                return;
                            }
                            if (op == 0 && j > 0) || (op >= 2 && j >= n) || (op == 2 && j <= i) || (op == 3 && i == j) {
                                continue;
                            }
                            let mut m = clone_matrix(&m0);
                            macro_rules! edit {
                                ($v:expr, $w:expr) => {{
                                    match op {
                                        0 => {
                                            $v.remove(i);
                                        }
                                        1 => {
                                            let x = $w.remove(i);
                                            $v.insert(j, x);
                                        }
                                        2 => $v.swap(i, j),
                                        _ => $v[j] = $w.remove(i),
                                    }
                                }};
                            }
                            let mut w = clone_matrix(&m0);
                            match which {
                                0 => edit!(m.instruction_matrix, w.instruction_matrix),
                                1 => edit!(m.memory_matrix, w.memory_matrix),
                                _ => edit!(m.processor_matrix, w.processor_matrix),
                            }
                            let same = same_matrix(&m, &m0);
                            let got = b.accepts(m, &inst);
                            r.step(1);
                            r.trace();
                            r.state(&(p, &input, which, i, j, op, got));
                            r.outcome(if got { "edit accepted" } else { "edit rejected" });
                            if got != same {
                                let key = format!("table {} in={:?} table{} {}({},{})", show(p), input, which, ["drop", "repeat", "swap", "overwrite"][op], i, j);
                                r.label(&key);
                                r.violation(&key, format!("circuit {} an edited record", if got { "accepts" } else { "rejects" }));
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Joint changes of single cells, and cells chosen after the challenges are known.
fn joint_section(c: &Ctx, progs: &[Vec<u8>]) {
    let b = Bfc::<4>::new(6);
    c.par("joint-changes", progs, |p, r| {
        let code = ref_compile(p).unwrap();
        for (input, t) in all_inputs(&code, &[0, 1, 3], 2, 20, 2) {
            if t.end != End::Halt {
                continue;
            }
            let base = format!("{} in={:?}", show(p), input);
            r.label(&base);
            let rows: Vec<_> = t.rows.iter().map(fr_row).collect();
            let f = Forge { rows, inputs: frs(&t.inputs), outputs: frs(&t.outputs), icode: frs(&code), ibase: 0, itail: fr(0), irows: None, ifirst: None };
            if let Some(mut g) = b.grid(f.matrix(&frs(&code)), &instance(&frs(&code), &frs(&input))) {
                if b.accepts_grid(&g) {
                    joint_changes(&b, &mut g, &base, 150, r);
                }
            }
            if r.stopped() {
                return;
            }
        }
    });
}

fn same_matrix(a: &ckb_bf_vm::matrix::Matrix, b: &ckb_bf_vm::matrix::Matrix) -> bool {
    let i = |m: &ckb_bf_vm::matrix::Matrix| m.instruction_matrix.iter().map(|r| (r.instruction_pointer, r.current_instruction, r.next_instruction)).collect::<Vec<_>>();
    let me = |m: &ckb_bf_vm::matrix::Matrix| m.memory_matrix.iter().map(|r| (r.cycle, r.memory_pointer, r.memory_value)).collect::<Vec<_>>();
    let p = |m: &ckb_bf_vm::matrix::Matrix| {
        m.processor_matrix
            .iter()
            .map(|r| (r.cycle, r.instruction_pointer, r.current_instruction, r.next_instruction, r.memory_pointer, r.memory_value, r.memory_value_inverse))
            .collect::<Vec<_>>()
    };
    i(a) == i(b) && me(a) == me(b) && p(a) == p(b)
}

fn main() {
    mc::main("C05", |c| {
        c.assume("proving keys are generated by keygen for the table sizes of the run (the prover does not choose the constraint system)");
        let mut progs = vec![];
        for len in 1..=c.pick(3, 4) {
            for i in 0..pow(8, len) {
                if let Some(p) = program(i, len) {
                    progs.push(p);
                }
            }
        }
        for s in ["+[-]", "-[-].", "+[.-]", ",[.,]", "[+]+.", "+[>+<-]>.", ">+<[-]", "+>+[-]<.", "-+.", "[[]]", "+[[-]]", ",>,<.", "[-][+]"] {
            progs.push(s.as_bytes().to_vec());
        }
        forge_section::<4>(c, "forged-executions-2bit", 6, &progs, &[0, 1, 3], 10, 3);
        let p256: Vec<Vec<u8>> = ["+", "-", ",+.", ",-.", ",[.-]", ">+<.", ",>,<", "[.]", "-+"].iter().map(|s| s.as_bytes().to_vec()).collect();
        forge_section::<256>(c, "forged-executions-8bit", 9, &p256, &[0, 1, 2, 255], 10, 2);
        table_section(c, &progs);
        let mut few: Vec<Vec<u8>> = progs.iter().filter(|p| p.len() <= c.pick(2, 3)).cloned().collect();
        for s in ["..", "+.+.", ">>", "++", "+[-]", ",[.,]", ">+<", ",>,<."] {
            few.push(s.as_bytes().to_vec());
        }
        joint_section(c, &few);
        let all: Vec<u64> = (0..256).collect();
        value_section(c, c.pick(&[0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 191, 192, 253, 254, 255][..], &all[..]));
        memory_section(c, c.pick(3, 4), &["><.,", ">+<", ",><.", ">,<,>."], c.pick(6, 7));
    })
}
