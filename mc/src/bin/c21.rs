//! C21: Poseidon is one function, however it is fed.
//!
//! Reference: parameters straight from the definition (Grain LFSR, Cauchy matrix), rounds without
//! any optimization, and the sponge as a state machine over operations update / squeeze.
use ff::PrimeField;
use halo2_gadgets::poseidon::primitives::{ConstantLength, Hash, P128Pow5T3, Spec as GSpec};
use halo2_proofs::halo2curves::bn256::{Fr, G1Affine};
use halo2_proofs::transcript::{EncodedChallenge, PoseidonRead, PoseidonWrite, Transcript, TranscriptRead, TranscriptWrite};
use halo2curves::pasta::{Fp, Fq};
use halo2curves::FieldExt;
use mc::*;
use poseidon::{Poseidon, Spec, State};
use std::collections::HashMap;
use std::marker::PhantomData;

/// Grain LFSR in self-shrinking mode (Poseidon paper, supplementary material F).
struct Lfsr {
    s: Vec<bool>,
    at: usize,
}
impl Lfsr {
    fn new(bits: u32, t: usize, rf: usize, rp: usize) -> Self {
        let mut s = vec![];
        let mut put = |n: usize, v: u64| (0..n).rev().for_each(|i| s.push(v >> i & 1 == 1));
        put(2, 1);
        put(4, 0);
        put(12, bits as u64);
        put(12, t as u64);
        put(10, rf as u64);
        put(10, rp as u64);
        put(30, (1 << 30) - 1);
        let mut l = Lfsr { s, at: 0 };
        for _ in 0..160 {
            l.raw();
        }
        l
    }
    fn raw(&mut self) -> bool {
        // the window is s[at..at+80]
        let b = [0, 13, 23, 38, 51, 62].iter().fold(false, |a, i| a ^ self.s[self.at + i]);
        self.s.push(b);
        self.at += 1;
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let a = self.raw();
            let b = self.raw();
            if a {
                return b;
            }
        }
    }
    /// `bits` bits, most significant first, as little-endian bytes
    fn bytes(&mut self, bits: u32) -> [u8; 64] {
        let mut v = [0u8; 64];
        for i in (0..bits as usize).rev() {
            if self.bit() {
                v[i / 8] |= 1 << (i % 8);
            }
        }
        v
    }
}

#[derive(Clone)]
struct Ref<F> {
    t: usize,
    rf: usize,
    rp: usize,
    rc: Vec<Vec<F>>,
    mds: Vec<Vec<F>>,
}
impl<F: FieldExt> Ref<F> {
    fn new(t: usize, rf: usize, rp: usize, skip_mds: usize) -> Self {
        let mut g = Lfsr::new(F::NUM_BITS, t, rf, rp);
        let mut element = |g: &mut Lfsr| loop {
            let b = g.bytes(F::NUM_BITS);
            let mut r = F::Repr::default();
            let n = r.as_ref().len();
            r.as_mut().copy_from_slice(&b[..n]);
            if let Some(f) = F::from_repr_vartime(r) {
                return f;
            }
        };
        let rc = (0..rf + rp).map(|_| (0..t).map(|_| element(&mut g)).collect()).collect();
        let mut xs = vec![];
        let mut ys = vec![];
        for _ in 0..=skip_mds {
            xs = (0..t).map(|_| F::from_bytes_wide(&g.bytes(F::NUM_BITS))).collect::<Vec<_>>();
            ys = (0..t).map(|_| F::from_bytes_wide(&g.bytes(F::NUM_BITS))).collect::<Vec<_>>();
        }
        let mds = xs.iter().map(|x| ys.iter().map(|y| (*x + *y).invert().unwrap()).collect()).collect();
        Ref { t, rf, rp, rc, mds }
    }
    fn permute(&self, s: &mut Vec<F>) {
        for (r, c) in self.rc.iter().enumerate() {
            for i in 0..self.t {
                s[i] += c[i];
                let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
                if full || i == 0 {
                    let q = s[i] * s[i];
                    s[i] = q * q * s[i];
                }
            }
            *s = (0..self.t).map(|i| (0..self.t).fold(F::zero(), |a, j| a + self.mds[i][j] * s[j])).collect();
        }
    }
}

/// The variable-length sponge: capacity 2^64 in word 0, inputs added to words 1.., a one closes each squeeze.
#[derive(Clone)]
struct Model<F> {
    s: Vec<F>,
    pending: Vec<F>,
}
impl<F: FieldExt> Model<F> {
    fn new(t: usize) -> Self {
        let mut s = vec![F::zero(); t];
        s[0] = F::from_u128(1 << 64);
        Model { s, pending: vec![] }
    }
    fn absorb(&mut self, r: &Ref<F>, x: F) {
        self.pending.push(x);
        if self.pending.len() == r.t - 1 {
            self.flush(r);
        }
    }
    fn flush(&mut self, r: &Ref<F>) {
        for (i, x) in self.pending.drain(..).enumerate() {
            self.s[i + 1] += x;
        }
        r.permute(&mut self.s);
    }
    fn squeeze(&mut self, r: &Ref<F>) -> F {
        self.pending.push(F::one());
        self.flush(r);
        self.s[1]
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, definition gives {:?}", what, a, b))
    }
}

/// The optimized permutation equals the definition.
fn permutation<F: FieldExt, const T: usize, const RATE: usize>(rec: &mut Rec, name: &str, rf: usize, rp: usize) {
    rec.label(format!("{} T={} rounds {}+{}", name, T, rf, rp));
    rec.state(&(name.to_string(), T, rf, rp));
    rec.case(|rec| {
        let r = Ref::<F>::new(T, rf, rp, 0);
        let spec = Spec::<F, T, RATE>::new(rf, rp);
        let m = spec.mds_matrices().mds().rows();
        eq("mds", m.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), r.mds.clone())?;
        eq("r_f", spec.r_f(), rf)?;
        let mut st = State::<F, T>::default();
        let mut s = Model::<F>::new(T).s;
        eq("initial state", st.words().to_vec(), s.clone())?;
        for i in 0..4 {
            spec.permute(&mut st);
            r.permute(&mut s);
            rec.step(1);
            eq(&format!("permutation {}", i), st.words().to_vec(), s.clone())?;
        }
        // every word of the state as an input difference: through the hasher
        let mut h = Poseidon::<F, T, RATE>::new(rf, rp);
        let mut md = Model::new(T);
        eq("empty", h.clone().squeeze(), md.clone().squeeze(&r))?;
        for i in 0..3 * T {
            let x = F::from(i as u64 * 7 + 1);
            h.update(&[x]);
            md.absorb(&r, x);
            rec.step(1);
            eq(&format!("after {} inputs", i + 1), h.clone().squeeze(), md.clone().squeeze(&r))?;
        }
        Ok(())
    });
}

/// Operation sequences: update with n fresh elements (n in 0..=max) or squeeze, all sequences up to a depth.
fn machine<F: FieldExt, const T: usize, const RATE: usize>(ctx: &Ctx, name: &str, rf: usize, rp: usize, depth: usize, max: usize) {
    let r = Ref::<F>::new(T, rf, rp, 0);
    let tmpl = Poseidon::<F, T, RATE>::new(rf, rp);
    // first two operations per item
    let firsts: Vec<(usize, usize)> = (0..max + 2).flat_map(|a| (0..max + 2).map(move |b| (a, b))).collect();
    fn go<F: FieldExt, const T: usize, const RATE: usize>(rec: &mut Rec, r: &Ref<F>, h: &Poseidon<F, T, RATE>, m: &Model<F>, n: u64, ops: &mut Vec<usize>, fixed: &[usize], depth: usize, max: usize) {
        if rec.stopped() {
            return;
        }
        if ops.len() == depth {
            return;
        }
        let choices: Vec<usize> = match fixed.get(ops.len()) {
            Some(x) => vec![*x],
            None => (0..max + 2).collect(),
        };
        for op in choices {
            ops.push(op);
            let mut h2 = h.clone();
            let mut m2 = m.clone();
            let mut n2 = n;
            rec.label(format!("T={} operations {:?} (0..={}: update with so many, {}: squeeze)", T, ops, max, max + 1));
            rec.state(&(T, ops.clone()));
            rec.case(|_| {
                if op <= max {
                    let xs: Vec<F> = (0..op as u64).map(|i| F::from(n + i + 1)).collect();
                    n2 = n + op as u64;
                    h2.update(&xs);
                    xs.into_iter().for_each(|x| m2.absorb(r, x));
                } else {
                    eq("squeeze", h2.squeeze(), m2.squeeze(r))?;
                }
                // the observable state: what a squeeze here would give
                eq("next squeeze", h2.clone().squeeze(), m2.clone().squeeze(r))
            });
            go(rec, r, &h2, &m2, n2, ops, fixed, depth, max);
            ops.pop();
        }
    }
    ctx.par(&format!("{} T={}: operation sequences of depth {}", name, T, depth), &firsts, |&(a, b), rec| {
        // a prefix is visited once: items with b > 0 skip the shared first step's own case by being cheap
        go::<F, T, RATE>(rec, &r, &tmpl, &Model::new(T), 0, &mut vec![], &[a, b], depth, max);
    });
}

/// All sequences over an alphabet, all splits; digests pairwise distinct.
fn sequences<F: FieldExt, const T: usize, const RATE: usize>(ctx: &Ctx, name: &str, rf: usize, rp: usize, len: usize) {
    let r = Ref::<F>::new(T, rf, rp, 0);
    let tmpl = Poseidon::<F, T, RATE>::new(rf, rp);
    let alpha = [F::zero(), F::one(), -F::one()];
    let seqs: Vec<Vec<usize>> = (0..=len).flat_map(|l| (0..mc::util::pow(3, l)).map(move |i| mc::util::word(i, 3, l))).collect();
    let digests = std::sync::Mutex::new(HashMap::<Vec<u8>, Vec<usize>>::new());
    ctx.par(&format!("{} T={}: all sequences up to {} and all splits", name, T, len), &seqs, |w, rec| {
        rec.label(format!("{} T={} sequence {:?}", name, T, w));
        rec.state(&(T, "seq", w.clone()));
        rec.case(|rec| {
            let xs: Vec<F> = w.iter().map(|i| alpha[*i]).collect();
            let mut m = Model::new(T);
            xs.iter().for_each(|x| m.absorb(&r, *x));
            let exp = m.squeeze(&r);
            for split in 0..1usize << xs.len().saturating_sub(1) {
                let mut h = tmpl.clone();
                let mut from = 0;
                for i in 1..=xs.len() {
                    if i == xs.len() || split >> (i - 1) & 1 == 1 {
                        h.update(&xs[from..i]);
                        from = i;
                    }
                }
                rec.step(1);
                eq(&format!("split {:b}", split), h.squeeze(), exp)?;
            }
            let k = exp.to_repr().as_ref().to_vec();
            if let Some(o) = digests.lock().unwrap().insert(k, w.clone()) {
                return Err(format!("same digest as {:?}", o));
            }
            Ok(())
        });
    });
}

/// A spec whose constants are generated by the gadget crate.
#[derive(Debug)]
struct Gen<F, const RF: usize, const RP: usize, const SKIP: usize>(PhantomData<F>);
impl<F: FieldExt, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const SKIP: usize> GSpec<F, T, RATE> for Gen<F, RF, RP, SKIP> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        let q = v * v;
        q * q * v
    }
    fn secure_mds() -> usize {
        SKIP
    }
}

fn gadget_spec<F: FieldExt, S: GSpec<F, T, RATE>, const T: usize, const RATE: usize>(rec: &mut Rec, name: &str, skip: usize) -> Ref<F> {
    let (rf, rp) = (S::full_rounds(), S::partial_rounds());
    let r = Ref::<F>::new(T, rf, rp, skip);
    rec.label(format!("gadget constants {} T={} {}+{} mds {}", name, T, rf, rp, skip));
    rec.state(&(name.to_string(), "gc", T, rf, rp, skip));
    rec.case(|_| {
        let (rc, mds, inv) = S::constants();
        eq("round constants", rc.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), r.rc.clone())?;
        eq("mds", mds.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), r.mds.clone())?;
        for i in 0..T {
            for j in 0..T {
                let p = (0..T).fold(F::zero(), |a, k| a + mds[i][k] * inv[k][j]);
                eq("mds * inverse", p, if i == j { F::one() } else { F::zero() })?;
            }
        }
        for x in [F::zero(), F::one(), -F::one(), F::from(2), F::from(u64::MAX), -F::from(3)] {
            eq("sbox", S::sbox(x), x * x * x * x * x)?;
        }
        Ok(())
    });
    r
}

fn gadget_hash<F: FieldExt, S: GSpec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(ctx: &Ctx, name: &str, r: &Ref<F>, seen: &std::sync::Mutex<HashMap<Vec<u8>, String>>) {
    let alpha = [F::zero(), F::one(), -F::one(), F::from(u64::MAX)];
    let a = if L <= 3 { 4 } else { ctx.pick(2, 3) };
    ctx.par_n(&format!("gadget hash {} T={} length {}", name, T, L), mc::util::pow(a, L), |i, rec| {
        let w = mc::util::word(i, a, L);
        rec.label(format!("{} T={} L={} {:?}", name, T, L, w));
        rec.state(&(name.to_string(), T, L, w.clone()));
        rec.case(|_| {
            let mut msg = [F::zero(); L];
            w.iter().enumerate().for_each(|(i, x)| msg[i] = alpha[*x]);
            let got = Hash::<F, S, ConstantLength<L>, T, RATE>::init().hash(msg);
            // constant-length sponge: length * 2^64 in the last word, zero padding
            let mut s = vec![F::zero(); T];
            s[RATE] = F::from_u128((L as u128) << 64);
            for c in msg.chunks(RATE) {
                c.iter().enumerate().for_each(|(i, x)| s[i] += x);
                r.permute(&mut s);
            }
            eq("hash", got, s[0])?;
            let key = format!("{} {} {} {:?}", name, T, L, w);
            let mut k = got.to_repr().as_ref().to_vec();
            k.extend(name.as_bytes());
            k.push(T as u8);
            if let Some(o) = seen.lock().unwrap().insert(k, key) {
                return Err(format!("same digest as {}", o));
            }
            Ok(())
        });
    });
}

fn main() {
    mc::main("C21", |ctx| {
        ctx.case_limit(300);
        // ---- parameters and permutation
        type Job = Box<dyn Fn(&mut Rec) + Send + Sync>;
        let mut jobs: Vec<Job> = vec![];
        macro_rules! perm {
            ($F:ty, $n:expr, $t:literal, $r:literal, $list:expr) => {
                for (rf, rp) in $list {
                    jobs.push(Box::new(move |rec| permutation::<$F, $t, $r>(rec, $n, rf, rp)));
                }
            };
        }
        let rounds: Vec<(usize, usize)> = if ctx.thorough() {
            [2usize, 4, 6, 8, 10].iter().flat_map(|f| [0usize, 1, 2, 3, 4, 5, 8, 13, 22, 56, 57, 60, 63, 64].iter().map(move |p| (*f, *p))).collect()
        } else {
            vec![(2, 0), (2, 1), (2, 2), (4, 0), (4, 1), (4, 2), (4, 3), (6, 5), (8, 7), (8, 57), (8, 60), (8, 63)]
        };
        perm!(Fr, "bn256::Fr", 2, 1, rounds.clone());
        perm!(Fr, "bn256::Fr", 3, 2, rounds.clone());
        perm!(Fr, "bn256::Fr", 4, 3, rounds.clone());
        perm!(Fr, "bn256::Fr", 5, 4, rounds.clone());
        perm!(Fr, "bn256::Fr", 6, 5, rounds.clone());
        perm!(Fr, "bn256::Fr", 9, 8, [(8, 63), (4, 2)]);
        perm!(Fp, "pasta::Fp", 3, 2, rounds.clone());
        perm!(Fp, "pasta::Fp", 4, 3, rounds.clone());
        perm!(Fq, "pasta::Fq", 3, 2, rounds.clone());
        perm!(Fq, "pasta::Fq", 5, 4, [(8, 56), (2, 3), (4, 1)]);
        ctx.par("optimized permutation against the definition", &jobs, |j, rec| j(rec));

        // ---- feeding
        machine::<Fr, 2, 1>(ctx, "bn256::Fr", 2, 1, ctx.pick(7, 9), 2);
        machine::<Fr, 3, 2>(ctx, "bn256::Fr", 2, 1, ctx.pick(6, 7), 4);
        machine::<Fr, 4, 3>(ctx, "bn256::Fr", 4, 2, ctx.pick(5, 6), 6);
        machine::<Fr, 5, 4>(ctx, "bn256::Fr", 2, 0, ctx.pick(4, 6), 8);
        machine::<Fr, 9, 8>(ctx, "bn256::Fr", 8, 63, ctx.pick(3, 4), 17);
        sequences::<Fr, 3, 2>(ctx, "bn256::Fr", 8, 57, ctx.pick(6, 9));
        sequences::<Fr, 4, 3>(ctx, "bn256::Fr", 4, 3, ctx.pick(7, 10));
        sequences::<Fp, 5, 4>(ctx, "pasta::Fp", 2, 2, ctx.pick(7, 10));

        // ---- the transcript built on it
        {
            let r = Ref::<Fr>::new(9, 8, 63, 0);
            let wt = PoseidonWrite::<Vec<u8>, G1Affine, _>::init(vec![]);
            let rt = PoseidonRead::<&[u8], G1Affine, halo2_proofs::transcript::Challenge255<G1Affine>>::init(&[]);
            let _ = &rt;
            let maxn = ctx.pick(18usize, 26);
            let items: Vec<(usize, usize)> = (0..=maxn).flat_map(|a| (0..=9usize).map(move |b| (a, b))).collect();
            ctx.par("Poseidon transcript", &items, |&(a, b), rec| {
                rec.label(format!("transcript: {} scalars, challenge, {} scalars, challenge", a, b));
                rec.state(&("tr", a, b));
                rec.case(|_| {
                    let mut t = wt.clone();
                    let mut m = Model::new(9);
                    for i in 0..a {
                        let x = Fr::from(i as u64 + 3);
                        if i % 2 == 0 {
                            t.write_scalar(x).map_err(|e| format!("{:?}", e))?;
                        } else {
                            t.common_scalar(x).map_err(|e| format!("{:?}", e))?;
                        }
                        m.absorb(&r, x);
                    }
                    let c1: halo2_proofs::transcript::Challenge255<G1Affine> = t.squeeze_challenge();
                    eq("first challenge", c1.get_scalar(), m.squeeze(&r))?;
                    for i in 0..b {
                        let x = -Fr::from(i as u64);
                        t.write_scalar(x).map_err(|e| format!("{:?}", e))?;
                        m.absorb(&r, x);
                    }
                    let c2 = t.squeeze_challenge();
                    eq("second challenge", c2.get_scalar(), m.squeeze(&r))?;
                    Ok(())
                });
            });
        }

        // ---- the gadget crate's primitive
        let mut refs_p: Option<Ref<Fp>> = None;
        let mut refs_q: Option<Ref<Fq>> = None;
        let mut ref4: Option<Ref<Fp>> = None;
        let mut ref5: Option<Ref<Fr>> = None;
        ctx.seq("gadget constants", |rec| {
            refs_p = Some(gadget_spec::<Fp, P128Pow5T3, 3, 2>(rec, "P128Pow5T3 Fp", 0));
            refs_q = Some(gadget_spec::<Fq, P128Pow5T3, 3, 2>(rec, "P128Pow5T3 Fq", 0));
            gadget_spec::<Fp, Gen<Fp, 8, 56, 0>, 3, 2>(rec, "generated Fp", 0);
            gadget_spec::<Fq, Gen<Fq, 8, 56, 1>, 3, 2>(rec, "generated Fq", 1);
            gadget_spec::<Fp, Gen<Fp, 2, 0, 2>, 2, 1>(rec, "generated Fp", 2);
            gadget_spec::<Fp, Gen<Fp, 6, 3, 3>, 5, 4>(rec, "generated Fp", 3);
            gadget_spec::<Fr, Gen<Fr, 8, 57, 0>, 6, 5>(rec, "generated Fr", 0);
            ref4 = Some(gadget_spec::<Fp, Gen<Fp, 4, 5, 0>, 4, 3>(rec, "generated Fp", 0));
            ref5 = Some(gadget_spec::<Fr, Gen<Fr, 2, 2, 1>, 5, 4>(rec, "generated Fr", 1));
        });
        let (p, q, r4, r5) = (refs_p.unwrap(), refs_q.unwrap(), ref4.unwrap(), ref5.unwrap());
        let seen = std::sync::Mutex::new(HashMap::new());
        macro_rules! lens {
            ($F:ty, $S:ty, $t:literal, $rt:literal, $n:expr, $r:expr, $($l:literal)*) => { $( gadget_hash::<$F, $S, $t, $rt, $l>(ctx, $n, $r, &seen); )* };
        }
        lens!(Fp, P128Pow5T3, 3, 2, "P128Pow5T3 Fp", &p, 1 2 3 4 5 6 7);
        lens!(Fq, P128Pow5T3, 3, 2, "P128Pow5T3 Fq", &q, 1 2 3 4 5);
        lens!(Fp, Gen<Fp, 4, 5, 0>, 4, 3, "generated Fp", &r4, 1 2 3 4 6 7);
        lens!(Fr, Gen<Fr, 2, 2, 1>, 5, 4, "generated Fr", &r5, 1 3 4 5 8);
    });
}
