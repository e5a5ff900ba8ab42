//! C04: every terminating run has a satisfying witness (completeness).
use ckb_bf_base::main_config::MyCircuit;
use halo2_proofs::dev::MockProver;
use halo2curves::bn256::Fr;
use mc::bf::*;
use mc::bfc::*;
use mc::plonkref::*;
use mc::util::*;
use mc::*;
use std::collections::HashMap;
use std::sync::Mutex;

struct Chk<const R: usize> {
    shape: Shape<Fr, MyCircuit<Fr, R>>,
    ch: Vec<Fr>,
    min_k: u32,
    seen: Mutex<HashMap<u32, u64>>,
}

impl<const R: usize> Chk<R> {
    fn new(min_k: u32) -> Self {
        let shape = Shape::new();
        let n = shape.cs.num_challenges();
        Chk { ch: challenges(n, 3), shape, min_k, seen: Default::default() }
    }
    fn run(&self, src: &[u8], alpha: &[u64], fuel: usize, max_in: usize, mock_every: u64, r: &mut Rec) {
        let bits = R.trailing_zeros();
        let code = match ref_compile(src) {
            Some(x) if !x.is_empty() => x,
            _ => return,
        };
        for (input, t) in all_inputs(&code, alpha, bits, fuel, max_in) {
            if t.end != End::Halt {
                continue;
            }
            r.label(format!("R{} {} in={:?}", R, show(src).chars().take(100).collect::<String>(), input));
            r.case(|r| {
                let need = code.len() + t.rows.len() + 1 + self.shape.cs.blinding_factors() + 1;
                let k = need.next_power_of_two().trailing_zeros().max(self.min_k);
                let inst = instance(&frs(&code), &frs(&input));
                let vm = vm_run(&code, &input, Some(bits as u64));
                let m = clone_matrix(&vm.matrix);
                let g = self.shape.grid(k, &MyCircuit::new(vm.matrix), &inst, &self.ch).map_err(|e| format!("synthesis: {:?}", e))?;
                r.step(t.rows.len() as u64);
                if let Some(f) = check(&self.shape.cs, &g) {
                    return Err(format!("an honest run violates {:?}", f));
                }
                r.state(&(&code, &input, k));
                r.outcome(&format!("accepted R={} k={}", R, k));
                let c = {
                    let mut s = self.seen.lock().unwrap();
                    let c = s.entry(k).or_insert(0);
                    *c += 1;
                    *c
                };
                if c % mock_every == 1 {
                    let p = MockProver::run(k, &MyCircuit::<Fr, R>::new(m), inst).map_err(|e| format!("MockProver: {:?}", e))?;
                    p.verify().map_err(|e| format!("MockProver rejects an honest run: {:?}", e.first()))?;
                    r.outcome("also by MockProver");
                }
                if c == 100 {
                    r.sample(|| format!("R={} {} in={:?} k={} rows={}", R, show(src), input, k, t.rows.len()));
                }
                Ok(())
            });
        }
    }
}

fn main() {
    mc::main("C04", |c| {
        let c256 = Chk::<256>::new(9);
        let c4 = Chk::<4>::new(6);
        for len in 1..=c.pick(4, 5) {
            c.par_n(&format!("8bit-programs-len{}", len), pow(8, len), |i, r| {
                if let Some(p) = program(i, len) {
                    c256.run(&p, &[0, 1, 255], 40, 3, 50, r);
                }
            });
        }
        for len in 1..=c.pick(5, 6) {
            c.par_n(&format!("2bit-programs-len{}", len), pow(8, len), |i, r| {
                if let Some(p) = program(i, len) {
                    c4.run(&p, &[0, 1, 3], 40, 3, 300, r);
                }
            });
        }
        let step = c.pick(5usize, 1);
        c.par_n("byte-values", 256, |v, r| {
            for s in [",.", ",+.", ",-.", ",++.", ",--."] {
                c256.run(s.as_bytes(), &[v as u64], 600, 2, 50, r);
            }
            if v % step == 0 || v > 250 {
                for s in [",[-].", ",[.-]", ",[>+<-]>.", ",>,<.>.", ",[+]>."] {
                    c256.run(s.as_bytes(), &[v as u64], 2500, 2, 50, r);
                }
            }
        });
        // long gaps between accesses of one cell, long straight lines, many inputs/outputs
        let ns: Vec<usize> = (0..=20).chain(120..=124).chain(c.pick(250..=258, 240..=270)).chain(c.pick(505..=507, 490..=530)).chain(c.pick(700..=700, 1000..=1030)).collect();
        c.par("runs", &ns, |n, r| {
            for s in [
                format!("+>{}<.", "+".repeat(*n)),
                format!("-{}.", "+".repeat(*n)),
                format!("{}{}.", ">".repeat(*n), "<".repeat(*n)),
                format!("+{}", ".".repeat(*n)),
                format!("[{}]+.", "+".repeat(*n)),
            ] {
                c256.run(s.as_bytes(), &[], 5000, 0, 20, r);
            }
            if *n <= 260 {
                let s = ",".repeat(*n);
                let code = ref_compile(s.as_bytes()).unwrap();
                if !code.is_empty() {
                    // one fixed long input, via a single-value alphabet
                    c256.run(s.as_bytes(), &[200], 5000, *n, 20, r);
                }
            }
        });
    })
}
