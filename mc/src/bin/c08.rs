//! C08: real Brainfuck proofs: complete, bound to their statement, and intolerant of any change.
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_vm::matrix::Matrix;
use halo2_proofs::poly::commitment::ParamsProver;
use halo2curves::bn256::Fr;
use mc::bf::*;
use mc::bfc::*;
use mc::prove::*;
use mc::util::*;
use mc::*;

struct World {
    k: u32,
    params: halo2_proofs::poly::kzg::commitment::ParamsKZG<halo2curves::bn256::Bn256>,
}
type Pk = halo2_proofs::plonk::ProvingKey<halo2curves::bn256::G1Affine>;

impl World {
    fn new(k: u32) -> Self {
        World { k, params: kzg_params(k) }
    }
    fn prove<const R: usize>(&self, m: &Matrix, inst: &[Vec<Fr>]) -> Result<(Pk, Vec<u8>), String> {
        let pk = kzg_keys(&self.params, &MyCircuit::<Fr, R>::new(clone_matrix(m))).map_err(|e| format!("keygen: {:?}", e))?;
        let proof = kzg_prove(&self.params, &pk, Open::Shplonk, MyCircuit::<Fr, R>::new(clone_matrix(m)), inst, 1).map_err(|e| format!("create_proof: {:?}", e))?;
        Ok((pk, proof))
    }
    /// Ok(true) accepted, Ok(false) rejected, Err: the verifier panicked
    fn verify(&self, pk: &Pk, inst: &[Vec<Fr>], proof: &[u8]) -> Result<bool, String> {
        guard(|| kzg_verify(self.params.verifier_params(), pk.get_vk(), Open::Shplonk, inst, proof).is_ok())
    }
}

fn neighbours(s: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![];
    for i in 0..s.len() {
        for a in [s[i] + 1, 0, 43, 46] {
            let mut t = s.to_vec();
            t[i] = a;
            out.push(t);
        }
        let mut t = s.to_vec();
        t.remove(i);
        out.push(t);
    }
    for i in 0..=s.len() {
        let mut t = s.to_vec();
        t.insert(i, 0);
        out.push(t);
    }
    out.retain(|x| x != s);
    out.sort();
    out.dedup();
    out
}

fn expect(r: &mut Rec, key: String, got: Result<bool, String>, want: bool) {
    r.step(1);
    r.trace();
    r.state(&(&key, got.is_ok()));
    match got {
        Ok(g) => {
            r.outcome(if g { "accepted" } else { "rejected" });
            if g != want {
                r.label(&key);
                r.violation(&key, format!("verifier {} (expected {})", if g { "accepts" } else { "rejects" }, if want { "accept" } else { "reject" }));
            }
        }
        Err(e) => {
            r.label(&key);
            r.violation(&key, format!("verifier does not answer: {}", e));
        }
    }
}

fn roundtrips<const R: usize>(c: &Ctx, name: &str, k: u32, progs: &[Vec<u8>], alpha: &[u64], max_in: usize) {
    let w = World::new(k);
    let bits = R.trailing_zeros();
    let mut items = vec![];
    for p in progs {
        let code = ref_compile(p).unwrap();
        for (input, t) in all_inputs(&code, alpha, bits, 40, max_in) {
            if t.end == End::Halt && t.inputs.len() == input.len() {
                items.push((p.clone(), code.clone(), input));
            }
        }
    }
    c.par(name, &items, |(p, code, input), r| {
        let base = format!("R{} {} in={:?}", R, show(p), input);
        r.label(&base);
        let inst = instance(&frs(code), &frs(input));
        let m = vm_run(code, input, Some(bits as u64)).matrix;
        let (pk, proof) = match guard(|| w.prove::<R>(&m, &inst)).and_then(|x| x) {
            Ok(x) => x,
            Err(e) => {
                r.violation(&base, format!("an honest run cannot be proven: {}", e));
                return;
            }
        };
        expect(r, base.clone(), w.verify(&pk, &inst, &proof), true);
        for code2 in neighbours(code) {
            expect(r, format!("{} code={:?}", base, code2), w.verify(&pk, &instance(&frs(&code2), &frs(input)), &proof), false);
        }
        for input2 in neighbours(input) {
            expect(r, format!("{} input={:?}", base, input2), w.verify(&pk, &instance(&frs(code), &frs(&input2)), &proof), false);
        }
        for (which, d) in [(0, 1i64), (0, -1), (1, 1), (1, -1)] {
            let mut i2 = inst.clone();
            i2[which][0] += fri(d);
            expect(r, format!("{} length {} {:+}", base, which, d), w.verify(&pk, &i2, &proof), false);
        }
        // malformed statements: missing and surplus columns, and too long ones
        let mut i2 = inst.clone();
        i2.pop();
        expect(r, format!("{} one column", base), w.verify(&pk, &i2, &proof), false);
        let mut i2 = inst.clone();
        i2.push(vec![]);
        expect(r, format!("{} three columns", base), w.verify(&pk, &i2, &proof), false);
        let mut i2 = inst.clone();
        i2[1].resize(1 << w.k, fr(0));
        expect(r, format!("{} long column", base), w.verify(&pk, &i2, &proof), false);
        expect(r, format!("{} swapped columns", base), w.verify(&pk, &[inst[1].clone(), inst[0].clone()], &proof), false);
        r.sample(|| format!("{}: proof of {} bytes verified; all neighbouring statements refused", base, proof.len()));
    });
}

fn forged(c: &Ctx, cases: &[(&str, Vec<u64>)], k: u32, fuel: usize) {
    let w = World::new(k);
    let mut items = vec![];
    for (p, input) in cases {
        let code = ref_compile(p.as_bytes()).unwrap();
        let fcode = frs(&code);
        let t = ref_run(&code, input, 2, fuel);
        let legit = t.end == End::Halt && t.inputs.len() == input.len();
        let lrows: Vec<_> = t.rows.iter().map(fr_row).collect();
        forgeries(&code, input, 4, fuel, &mut |dev, f| {
            let genuine = legit && f.rows == lrows && f.icode == fcode && f.ibase == 0 && f.itail == fr(0) && f.inputs == frs(&t.inputs) && f.outputs == frs(&t.outputs);
            items.push((p.to_string(), fcode.clone(), input.clone(), dev.to_string(), f, genuine));
        });
    }
    c.par("forged-proofs", &items, |(p, fcode, input, dev, f, genuine), r| {
        let key = format!("forged {} in={:?} {}", p, input, dev);
        r.label(&key);
        let inst = instance(fcode, &frs(input));
        let got = match guard(|| w.prove::<4>(&f.matrix(fcode), &inst)) {
            Ok(Ok((pk, proof))) => w.verify(&pk, &inst, &proof),
            // no proof comes out: refused earlier
            _ => Ok(false),
        };
        expect(r, key, got, *genuine);
    });
}

fn corrupted(c: &Ctx, src: &str, input: &[u64], k: u32, masks: &[u8]) {
    let w = World::new(k);
    let code = ref_compile(src.as_bytes()).unwrap();
    let inst = instance(&frs(&code), &frs(input));
    let m = vm_run(&code, input, Some(2)).matrix;
    let (pk, proof) = match guard(|| w.prove::<4>(&m, &inst)).and_then(|x| x) {
        Ok(x) => x,
        Err(e) => {
            c.seq("corrupted", |r| {
                r.violation("corrupted/setup", e);
            });
            return;
        }
    };
    c.par_n("every-byte-changed", proof.len() * masks.len(), |i, r| {
        let (pos, mask) = (i / masks.len(), masks[i % masks.len()]);
        let mut p = proof.clone();
        p[pos] ^= mask;
        expect(r, format!("{} in={:?} byte {} xor {}", src, input, pos, mask), w.verify(&pk, &inst, &p), false);
    });
    c.par_n("every-truncation", proof.len(), |n, r| {
        expect(r, format!("{} in={:?} first {} bytes", src, input, n), w.verify(&pk, &inst, &proof[..n]), false);
    });
    // proof elements exchanged, zeroed, repeated
    let n = proof.len() / 32;
    c.par_n("elements-exchanged", n * 4, |i, r| {
        let (a, op) = (i / 4, i % 4);
        let mut p = proof.clone();
        let b = if op == 0 { (a + 1) % n } else { (a + n / 2) % n };
        match op {
            0 | 1 => {
                for j in 0..32 {
                    p.swap(a * 32 + j, b * 32 + j);
                }
            }
            2 => p[a * 32..a * 32 + 32].fill(0),
            _ => {
                let e = p[b * 32..b * 32 + 32].to_vec();
                p[a * 32..a * 32 + 32].copy_from_slice(&e);
            }
        }
        let same = p == proof;
        expect(r, format!("{} in={:?} element {} op {}", src, input, a, op), w.verify(&pk, &inst, &p), same);
    });
}

/// A proof for one (program, input) verified with the key and statement of another.
fn crossed(c: &Ctx, cases: &[(&str, Vec<u64>)], k: u32) {
    let w = World::new(k);
    let made: std::sync::Mutex<Vec<(usize, Pk, Vec<u8>, Vec<Vec<Fr>>)>> = Default::default();
    c.par_n("crossed-make", cases.len(), |i, r| {
        let (p, input) = &cases[i];
        let code = ref_compile(p.as_bytes()).unwrap();
        let inst = instance(&frs(&code), &frs(input));
        let m = vm_run(&code, input, Some(2)).matrix;
        match guard(|| w.prove::<4>(&m, &inst)).and_then(|x| x) {
            Ok((pk, proof)) => made.lock().unwrap().push((i, pk, proof, inst)),
            Err(e) => r.violation(&format!("crossed {}", p), e),
        }
    });
    let mut made = made.into_inner().unwrap();
    made.sort_by_key(|x| x.0);
    let n = made.len();
    c.par_n("crossed", n * n * n, |x, r| {
        let (a, b, d) = (x / n / n, x / n % n, x % n);
        let key = format!("crossed: key of {:?}, statement of {:?}, proof of {:?}", cases[made[a].0], cases[made[b].0], cases[made[d].0]);
        let want = a == b && b == d;
        // runs of equal size have equal keys (the program is not part of the key), so a proof with its
        // own statement may verify under another run's key
        let same_key = b == d;
        let got = w.verify(&made[a].1, &made[b].3, &made[d].2);
        if same_key && !want {
            r.outcome("own statement, other run's key: not judged");
            return;
        }
        expect(r, key, got, want);
    });
}

fn main() {
    mc::main("C08", |c| {
        c.case_limit(300);
        c.assume("the key is generated for the table sizes of the run; blinding randomness is fixed");
        let mut progs = vec![];
        for len in 1..=c.pick(2, 3) {
            for i in 0..pow(8, len) {
                if let Some(p) = program(i, len) {
                    progs.push(p);
                }
            }
        }
        for s in ["+[-]", ",[.,]", ",>,<.", "+[>+<-]>.", "-.+.", "[[]]", ",,,"] {
            progs.push(s.as_bytes().to_vec());
        }
        roundtrips::<4>(c, "roundtrips-2bit", 6, &progs, &[0, 3], 2);
        let p8: Vec<Vec<u8>> = c.pick(vec![",[.-]"], vec![",[.-]", "-.", ",.,.", "[-]+[>-<-]>."]).iter().map(|s| s.as_bytes().to_vec()).collect();
        roundtrips::<256>(c, "roundtrips-8bit", 9, &p8, c.pick(&[1][..], &[0, 1, 2][..]), 2);
        let cases: Vec<(&str, Vec<u64>)> = c.pick(vec![(",", vec![1])], vec![(",", vec![1]), (",.", vec![2]), ("+[-]", vec![]), (">+<", vec![])]);
        forged(c, &cases, 5, 10);
        corrupted(c, ",.", &[1], 5, c.pick(&[1, 0x80][..], &[1, 2, 4, 8, 16, 32, 64, 0x80, 0xff][..]));
        let x: Vec<(&str, Vec<u64>)> = vec![("+", vec![]), ("-", vec![]), (",", vec![1]), (",", vec![2]), (".", vec![]), ("+.", vec![])];
        crossed(c, &x, 5);
    })
}
