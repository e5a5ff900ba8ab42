//! C11: keys and parameters survive serialization; malformed bytes are errors.
use ff::Field;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver};
use halo2_proofs::poly::ipa::commitment::ParamsIPA;
use halo2_proofs::poly::kzg::commitment::ParamsKZG;
use halo2_proofs::poly::EvaluationDomain;
use halo2_proofs::SerdeFormat::{self, *};
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2curves::pasta::{EqAffine, Fp};
use mc::prove::*;
use mc::tiny::*;
use mc::tinyset::*;
use mc::*;

type Pk = ProvingKey<G1Affine>;
type Vk = VerifyingKey<G1Affine>;
const FORMATS: [SerdeFormat; 3] = [Processed, RawBytes, RawBytesUnchecked];

fn to<F: halo2curves::FieldExt>(i: &[Vec<i64>]) -> Vec<Vec<F>> {
    i.iter().map(|c| c.iter().map(|x| fi(*x)).collect()).collect()
}
fn vk_bytes(vk: &Vk, f: SerdeFormat) -> Vec<u8> {
    let mut b = vec![];
    vk.write(&mut b, f).expect("writing a verifying key");
    b
}
fn pk_bytes(pk: &Pk, f: SerdeFormat) -> Vec<u8> {
    let mut b = vec![];
    pk.write(&mut b, f).expect("writing a proving key");
    b
}
fn params_bytes(p: &ParamsKZG<Bn256>, f: SerdeFormat) -> Vec<u8> {
    let mut b = vec![];
    p.write_custom(&mut b, f).expect("writing parameters");
    b
}
fn pinned(vk: &Vk) -> String {
    format!("{:?}", vk.pinned())
}

/// A circuit with its keys, a satisfying and (if there is one) an unsatisfying assignment.
struct Subject {
    name: String,
    pk: Pk,
    good: (Tiny, Vec<Vec<Fr>>),
    proof: Vec<u8>,
    bad_proof: Option<Vec<u8>>,
}

/// Nothing to commit to: the proof consists of zeros and is the same for every such circuit.
fn zero(t: &Tiny) -> bool {
    (t.spec.gates.is_empty() && t.spec.lookups.is_empty() && t.spec.eq.is_empty()) || t.adv.iter().all(|col| col.iter().all(|x| x.base == 0))
}

fn subject(params: &ParamsKZG<Bn256>, f: &Fam) -> Option<Subject> {
    set_spec(&f.spec);
    let pk = kzg_keys(params, &f.get(0).0).expect("key generation");
    let un = unusable::<Fr>(&f.spec);
    let mut good = None;
    let mut bad = None;
    for i in 0..f.count() {
        let (t, inst) = f.get(i);
        let inst: Vec<Vec<Fr>> = to(&inst);
        if sat(&t, &inst, f.k, un) {
            // prefer an assignment that is not all zero
            if !good.as_ref().map_or(false, |(g, _)| !zero(g)) {
                good = Some((t, inst));
            }
        } else if bad.is_none() {
            bad = Some((t, inst));
        }
        if good.as_ref().map_or(false, |(g, _)| !zero(g)) && bad.is_some() {
            break;
        }
    }
    let good = good?;
    let proof = kzg_prove(params, &pk, Open::Shplonk, good.0.clone(), &good.1, 1).ok()?;
    let bad_proof = bad.and_then(|(t, inst)| kzg_prove(params, &pk, Open::Shplonk, t, &inst, 1).ok());
    Some(Subject { name: f.name.clone(), pk, good, proof, bad_proof })
}

/// The key read back is the original in every respect that can be observed.
fn same_vk(params: &ParamsKZG<Bn256>, s: &Subject, vk: &Vk) -> Result<(), String> {
    if pinned(vk) != pinned(s.pk.get_vk()) {
        return Err("the key read back has another pinned representation".into());
    }
    for f in FORMATS {
        if vk_bytes(vk, f) != vk_bytes(s.pk.get_vk(), f) {
            return Err(format!("the key read back is written differently as {:?}", f));
        }
    }
    if kzg_verify(params, vk, Open::Shplonk, &s.good.1, &s.proof).is_err() {
        return Err("the key read back refuses a valid proof".into());
    }
    if let Some(b) = &s.bad_proof {
        if kzg_verify(params, vk, Open::Shplonk, &s.good.1, b).is_ok() {
            return Err("the key read back accepts an invalid proof".into());
        }
    }
    Ok(())
}

fn same_pk(params: &ParamsKZG<Bn256>, s: &Subject, pk: &Pk) -> Result<(), String> {
    same_vk(params, s, pk.get_vk())?;
    for f in FORMATS {
        if pk_bytes(pk, f) != pk_bytes(&s.pk, f) {
            return Err(format!("the proving key read back is written differently as {:?}", f));
        }
    }
    match kzg_prove(params, pk, Open::Shplonk, s.good.0.clone(), &s.good.1, 1) {
        Err(e) => Err(format!("the proving key read back cannot prove: {:?}", e)),
        Ok(p) if p != s.proof => Err("the proving key read back makes another proof".into()),
        Ok(_) => Ok(()),
    }
}

/// Changes of one byte: all values, or a few bits and neighbours.
fn changes(all: bool, b: u8) -> Vec<u8> {
    if all {
        (0..=255).filter(|x| *x != b).collect()
    } else {
        let mut v = vec![b ^ 1, b ^ 0x80, b ^ 0x40, b.wrapping_add(1), b.wrapping_sub(1), 0, 0xff];
        v.sort();
        v.dedup();
        v.retain(|x| *x != b);
        v
    }
}

fn main() {
    mc::main("C11", |c| {
        c.assume("RawBytesUnchecked is documented to perform no checks: only its round trip is decided.");
        c.assume("Bytes after the end of an object are not part of it (readers are streams).");
        let params = kzg_params(4);
        let fams = families();
        let subjects: Vec<Subject> = fams.iter().filter_map(|f| subject(&params, f)).collect();
        let spec_of = |s: &Subject| fams.iter().find(|f| f.name == s.name).unwrap().spec.clone();

        // every key, every format, both interfaces, several objects in one stream
        c.par("roundtrip", &(0..subjects.len()).flat_map(|i| FORMATS.map(|f| (i, f))).collect::<Vec<_>>(), |(i, f), r| {
            let s = &subjects[*i];
            set_spec(&spec_of(s));
            r.label(format!("keys of {} as {:?}", s.name, f));
            r.case(|r| {
                let vb = vk_bytes(s.pk.get_vk(), *f);
                let pb = pk_bytes(&s.pk, *f);
                if s.pk.get_vk().to_bytes(*f) != vb || s.pk.to_bytes(*f) != pb {
                    return Err("to_bytes differs from write".into());
                }
                same_vk(&params, s, &Vk::from_bytes::<Tiny>(&vb, *f).map_err(|e| format!("verifying key: {}", e))?)?;
                same_pk(&params, s, &Pk::from_bytes::<Tiny>(&pb, *f).map_err(|e| format!("proving key: {}", e))?)?;
                let all: Vec<u8> = [&vb[..], &pb, &vb, &pb].concat();
                let mut rd = &all[..];
                for k in 0..2 {
                    same_vk(&params, s, &Vk::read::<_, Tiny>(&mut rd, *f).map_err(|e| format!("verifying key {} of a stream: {}", k, e))?)?;
                    same_pk(&params, s, &Pk::read::<_, Tiny>(&mut rd, *f).map_err(|e| format!("proving key {} of a stream: {}", k, e))?)?;
                }
                if !rd.is_empty() {
                    return Err(format!("{} bytes of the stream were not read", rd.len()));
                }
                r.outcome("round trip");
                r.state(&(&s.name, format!("{:?}", f)));
                r.step(12);
                Ok(())
            });
        });

        // the same circuits over larger domains
        let large: Vec<(u32, usize)> = c.pick(vec![5u32, 7, 9, 10], vec![5, 6, 7, 8, 9, 10, 11, 12]).into_iter().flat_map(|k| (0..fams.len()).filter(move |i| i % c.pick(6, 2) == k as usize % 2).map(move |i| (k, i))).collect();
        c.par("roundtrip over larger domains", &large, |(k, i), r| {
            let mut f = fams[*i].clone();
            f.k = *k;
            r.label(format!("keys of {} with k={}", f.name, k));
            r.case(|r| {
                let params = kzg_params(*k);
                let Some(s) = subject(&params, &f) else { return Ok(()) };
                for form in FORMATS {
                    set_spec(&f.spec);
                    same_vk(&params, &s, &Vk::from_bytes::<Tiny>(&vk_bytes(s.pk.get_vk(), form), form).map_err(|e| format!("verifying key: {}", e))?)?;
                    same_pk(&params, &s, &Pk::from_bytes::<Tiny>(&pk_bytes(&s.pk, form), form).map_err(|e| format!("proving key: {}", e))?)?;
                    r.step(4);
                }
                r.outcome("round trip over a larger domain");
                r.state(&(&s.name, k));
                Ok(())
            });
        });

        // every truncation of a verifying and a proving key
        let checked = [Processed, RawBytes];
        c.par("truncation", &(0..subjects.len()).flat_map(|i| checked.map(|f| (i, f))).collect::<Vec<_>>(), |(i, f), r| {
            let s = &subjects[*i];
            set_spec(&spec_of(s));
            let vb = vk_bytes(s.pk.get_vk(), *f);
            let pb = pk_bytes(&s.pk, *f);
            for n in 0..vb.len() {
                r.label(format!("verifying key of {} as {:?} cut to {} bytes", s.name, f, n));
                r.case(|_| match Vk::from_bytes::<Tiny>(&vb[..n], *f) {
                    Ok(_) => Err("accepted".into()),
                    Err(_) => Ok(()),
                });
            }
            let step = if c.thorough() || *i % 6 == 0 { 1 } else { 29 };
            for n in (vb.len()..pb.len()).step_by(step) {
                r.label(format!("proving key of {} as {:?} cut to {} bytes", s.name, f, n));
                r.case(|_| match Pk::from_bytes::<Tiny>(&pb[..n], *f) {
                    Ok(_) => Err("accepted".into()),
                    Err(_) => Ok(()),
                });
            }
            r.state(&("cut", &s.name, format!("{:?}", f)));
        });

        // every byte of a verifying key changed
        let sel: Vec<usize> = (0..subjects.len()).collect();
        let jobs: Vec<(usize, SerdeFormat, usize)> = sel.iter().flat_map(|i| checked.map(|f| (*i, f))).flat_map(|(i, f)| (0..vk_bytes(subjects[i].pk.get_vk(), f).len()).map(move |n| (i, f, n))).collect();
        c.par("vk-faults", &jobs, |(i, f, n), r| {
            let s = &subjects[*i];
            set_spec(&spec_of(s));
            let vb = vk_bytes(s.pk.get_vk(), *f);
            let orig = pinned(s.pk.get_vk());
            // structure (lengths, selector expressions) is changed in all ways, points in some
            let small = *n < 8 || (c.thorough() && *n + 200 > vb.len());
            for x in changes(small, vb[*n]) {
                let mut b = vb.clone();
                b[*n] = x;
                r.label(format!("verifying key of {} as {:?} byte {} {:#04x} to {:#04x}", s.name, f, n, vb[*n], x));
                r.case(|r| {
                    let mut rd = &b[..];
                    let vk = match Vk::read::<_, Tiny>(&mut rd, *f) {
                        Err(_) => {
                            r.outcome("refused");
                            return Ok(());
                        }
                        Ok(vk) => vk,
                    };
                    let used = b.len() - rd.len();
                    if vk_bytes(&vk, *f) != b[..used] {
                        return Err("read without error as a key that is written differently".into());
                    }
                    let same = pinned(&vk) == orig;
                    r.outcome(if same { "same key" } else { "another key" });
                    let ok = kzg_verify(&params, &vk, Open::Shplonk, &s.good.1, &s.proof).is_ok();
                    if ok && !same && !zero(&s.good.0) {
                        return Err("another key accepts the proof".into());
                    }
                    if !ok && same {
                        return Err("the same key refuses the proof".into());
                    }
                    // a changed curve point, size or selector must not go unnoticed
                    if same && *n < 8 {
                        return Err("changed sizes are read as the same key".into());
                    }
                    Ok(())
                });
            }
            r.state(&("vk fault", &s.name, format!("{:?}", f), n));
        });

        // every word of a proving key's polynomial part changed
        let jobs: Vec<(usize, SerdeFormat, usize)> = (0..subjects.len())
            .filter(|i| c.thorough() || i % 2 == 0)
            .flat_map(|i| checked.map(|f| (i, f)))
            .flat_map(|(i, f)| (vk_bytes(subjects[i].pk.get_vk(), f).len()..pk_bytes(&subjects[i].pk, f).len()).map(move |n| (i, f, n)))
            .collect();
        c.par("pk-faults", &jobs, |(i, f, n), r| {
            let s = &subjects[*i];
            set_spec(&spec_of(s));
            let pb = pk_bytes(&s.pk, *f);
            let xs = if c.thorough() { changes(false, pb[*n]) } else { vec![pb[*n] ^ 1, pb[*n].wrapping_add(0x7f)] };
            for x in xs {
                let mut b = pb.clone();
                b[*n] = x;
                r.label(format!("proving key of {} as {:?} byte {} {:#04x} to {:#04x}", s.name, f, n, pb[*n], x));
                r.case(|r| {
                    let mut rd = &b[..];
                    let pk = match Pk::read::<_, Tiny>(&mut rd, *f) {
                        Err(_) => {
                            r.outcome("proving key refused");
                            return Ok(());
                        }
                        Ok(pk) => pk,
                    };
                    r.outcome("another proving key");
                    if !rd.is_empty() {
                        return Err("a key of another shape was read without error".into());
                    }
                    if pk_bytes(&pk, *f) != b {
                        return Err("read without error as a key that is written differently".into());
                    }
                    if pinned(pk.get_vk()) != pinned(s.pk.get_vk()) {
                        return Err("the verifying key changed".into());
                    }
                    Ok(())
                });
            }
        });

        // commitment parameters
        let ks: Vec<u32> = (1..=c.pick(5, 8)).collect();
        c.par("params", &ks.iter().flat_map(|k| FORMATS.map(|f| (*k, f))).collect::<Vec<_>>(), |(k, f), r| {
            r.label(format!("KZG parameters k={} as {:?}", k, f));
            r.case(|r| {
                let p = kzg_params(*k);
                let b = params_bytes(&p, *f);
                let mut two = b.clone();
                two.extend_from_slice(&b);
                let mut rd = &two[..];
                for _ in 0..2 {
                    let q = ParamsKZG::<Bn256>::read_custom(&mut rd, *f).map_err(|e| e.to_string())?;
                    for g in FORMATS {
                        if params_bytes(&q, g) != params_bytes(&p, g) {
                            return Err(format!("parameters read back are written differently as {:?}", g));
                        }
                    }
                    if q.k() != *k || q.n() != 1 << k || q.get_g() != p.get_g() || q.g2() != p.g2() || q.s_g2() != p.s_g2() {
                        return Err("parameters read back differ".into());
                    }
                    let d = EvaluationDomain::<Fr>::new(2, *k);
                    for i in 0..1usize << k {
                        let mut e = vec![Fr::zero(); 1 << k];
                        e[i] = Fr::one();
                        if p.commit(&d.coeff_from_vec(e.clone()), Blind::default()) != q.commit(&d.coeff_from_vec(e.clone()), Blind::default())
                            || p.commit_lagrange(&d.lagrange_from_vec(e.clone()), Blind::default()) != q.commit_lagrange(&d.lagrange_from_vec(e), Blind::default())
                        {
                            return Err(format!("commitments to basis polynomial {} differ", i));
                        }
                    }
                }
                if !rd.is_empty() {
                    return Err("the stream was not read exactly".into());
                }
                if *f as u8 == RawBytes as u8 {
                    let mut w = vec![];
                    Params::write(&p, &mut w).unwrap();
                    let q = <ParamsKZG<Bn256> as Params<_>>::read(&mut &w[..]).map_err(|e| e.to_string())?;
                    if params_bytes(&q, Processed) != params_bytes(&p, Processed) {
                        return Err("Params::write / Params::read differ".into());
                    }
                }
                r.state(&("params", k, format!("{:?}", f)));
                Ok(())
            });
        });
        // keys and proofs work with parameters that were read back
        c.seq("params-use", |r| {
            for f in FORMATS {
                r.label(format!("proving with parameters read back as {:?}", f));
                r.case(|_| {
                    let q = ParamsKZG::<Bn256>::read_custom(&mut &params_bytes(&params, f)[..], f).map_err(|e| e.to_string())?;
                    for s in subjects.iter() {
                        set_spec(&spec_of(s));
                        let p = kzg_prove(&q, &s.pk, Open::Shplonk, s.good.0.clone(), &s.good.1, 1).map_err(|e| format!("{:?}", e))?;
                        if p != s.proof || kzg_verify(&q, s.pk.get_vk(), Open::Shplonk, &s.good.1, &s.proof).is_err() {
                            return Err(format!("{}: proof or verdict differ", s.name));
                        }
                    }
                    Ok(())
                });
            }
        });
        let p3 = kzg_params(c.pick(2, 3));
        let jobs: Vec<(SerdeFormat, usize)> = checked.iter().flat_map(|f| (0..params_bytes(&p3, *f).len()).map(move |n| (*f, n))).collect();
        c.par("params-faults", &jobs, |(f, n), r| {
            let pb = params_bytes(&p3, *f);
            r.label(format!("KZG parameters as {:?} cut to {}", f, n));
            r.case(|_| match ParamsKZG::<Bn256>::read_custom(&mut &pb[..*n], *f) {
                Ok(_) => Err("accepted".into()),
                Err(_) => Ok(()),
            });
            for x in changes(*n < 4, pb[*n]) {
                let mut b = pb.clone();
                b[*n] = x;
                let k = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                if (12..=28).contains(&k) {
                    continue; // would only allocate memory
                }
                r.label(format!("KZG parameters as {:?} byte {} {:#04x} to {:#04x}", f, n, pb[*n], x));
                r.case(|r| {
                    let mut rd = &b[..];
                    match ParamsKZG::<Bn256>::read_custom(&mut rd, *f) {
                        Err(_) => r.outcome("parameters refused"),
                        Ok(q) => {
                            r.outcome("other parameters");
                            let used = b.len() - rd.len();
                            if params_bytes(&q, *f) != b[..used] {
                                return Err("read without error as parameters that are written differently".into());
                            }
                            if *n >= 4 && q.get_g() == p3.get_g() && q.g2() == p3.g2() && q.s_g2() == p3.s_g2() && {
                                let mut t = vec![];
                                q.write_custom(&mut t, Processed).unwrap();
                                t == params_bytes(&p3, Processed)
                            } {
                                return Err("changed bytes are read as the same parameters".into());
                            }
                        }
                    }
                    Ok(())
                });
            }
            r.state(&("params fault", format!("{:?}", f), n));
        });

        // IPA parameters
        c.par("ipa-params", &(1..=c.pick(4u32, 6)).collect::<Vec<_>>(), |k, r| {
            let p = ipa_params(*k);
            let mut b = vec![];
            p.write(&mut b).unwrap();
            r.label(format!("IPA parameters k={}", k));
            r.case(|r| {
                let two = [&b[..], &b].concat();
                let mut rd = &two[..];
                for _ in 0..2 {
                    let q = <ParamsIPA<EqAffine> as Params<_>>::read(&mut rd).map_err(|e| e.to_string())?;
                    let mut w = vec![];
                    q.write(&mut w).unwrap();
                    if w != b || q.k() != *k || q.n() != 1 << k || q.get_g() != p.get_g() {
                        return Err("parameters read back differ".into());
                    }
                    let d = EvaluationDomain::<Fp>::new(2, *k);
                    for i in 0..1usize << k {
                        let mut e = vec![Fp::zero(); 1 << k];
                        e[i] = Fp::one();
                        let bl = Blind(Fp::from(5));
                        if p.commit(&d.coeff_from_vec(e.clone()), bl) != q.commit(&d.coeff_from_vec(e.clone()), bl)
                            || p.commit_lagrange(&d.lagrange_from_vec(e.clone()), bl) != q.commit_lagrange(&d.lagrange_from_vec(e), bl)
                        {
                            return Err(format!("commitments to basis polynomial {} differ", i));
                        }
                    }
                }
                r.state(&("ipa", k));
                Ok(())
            });
            for n in 0..b.len() {
                r.label(format!("IPA parameters k={} cut to {}", k, n));
                r.case(|_| match <ParamsIPA<EqAffine> as Params<_>>::read(&mut &b[..n]) {
                    Ok(_) => Err("accepted".into()),
                    Err(_) => Ok(()),
                });
                for x in if *k <= 2 { changes(n < 4, b[n]) } else { vec![b[n] ^ 1] } {
                    let mut m = b.clone();
                    m[n] = x;
                    r.label(format!("IPA parameters k={} byte {} {:#04x} to {:#04x}", k, n, b[n], x));
                    r.case(|r| {
                        let mut rd = &m[..];
                        match <ParamsIPA<EqAffine> as Params<_>>::read(&mut rd) {
                            Err(_) => r.outcome("ipa refused"),
                            Ok(q) => {
                                r.outcome("ipa other");
                                let mut w = vec![];
                                q.write(&mut w).unwrap();
                                if w != m[..m.len() - rd.len()] {
                                    return Err("read without error as parameters that are written differently".into());
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        });
    })
}
