//! Real proofs: thin wrappers over the repository's prover and verifier for every scheme it offers.
use ff::Field;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{CommitmentScheme, Params, ParamsProver, Prover, Verifier};
use halo2_proofs::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA};
use halo2_proofs::poly::ipa::multiopen::{ProverIPA, VerifierIPA};
use halo2_proofs::poly::ipa::strategy::{AccumulatorStrategy as AccIPA, SingleStrategy as SingleIPA};
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG, ParamsVerifierKZG};
use halo2_proofs::poly::kzg::multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK};
use halo2_proofs::poly::kzg::strategy::{AccumulatorStrategy as AccKZG, SingleStrategy as SingleKZG};
use halo2_proofs::poly::VerificationStrategy;
use halo2_proofs::transcript::{Blake2bRead, Blake2bWrite, Challenge255, TranscriptReadBuffer, TranscriptWriterBuffer};
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2curves::pasta::{EqAffine, Fp};
use rand_core::SeedableRng;
use rand_xorshift::XorShiftRng;

pub fn rng(seed: u8) -> XorShiftRng {
    XorShiftRng::from_seed([seed, 7, 3, 1, 9, 2, 8, 4, 6, 5, 11, 13, 17, 19, 23, 29])
}

pub fn refs<F>(inst: &[Vec<F>]) -> Vec<&[F]> {
    inst.iter().map(|c| &c[..]).collect()
}

pub fn kzg_params(k: u32) -> ParamsKZG<Bn256> {
    ParamsKZG::<Bn256>::unsafe_setup_with_s(k, Fr::from(42) + Fr::from(7919).square())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Open {
    Shplonk,
    Gwc,
}

/// Several circuits in one proof.
pub fn kzg_prove_many<C: Circuit<Fr>>(params: &ParamsKZG<Bn256>, pk: &ProvingKey<G1Affine>, open: Open, circuits: &[C], insts: &[Vec<Vec<Fr>>], seed: u8) -> Result<Vec<u8>, Error> {
    let cols: Vec<Vec<&[Fr]>> = insts.iter().map(|i| refs(i)).collect();
    let inst: Vec<&[&[Fr]]> = cols.iter().map(|c| &c[..]).collect();
    let mut t = Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]);
    match open {
        Open::Shplonk => create_proof::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, _, _, _, _>(params, pk, circuits, &inst, rng(seed), &mut t)?,
        Open::Gwc => create_proof::<KZGCommitmentScheme<Bn256>, ProverGWC<'_, Bn256>, _, _, _, _>(params, pk, circuits, &inst, rng(seed), &mut t)?,
    }
    Ok(t.finalize())
}

pub fn kzg_verify_many(params: &ParamsVerifierKZG<Bn256>, vk: &VerifyingKey<G1Affine>, open: Open, insts: &[Vec<Vec<Fr>>], proof: &[u8]) -> Result<(), Error> {
    let cols: Vec<Vec<&[Fr]>> = insts.iter().map(|i| refs(i)).collect();
    let inst: Vec<&[&[Fr]]> = cols.iter().map(|c| &c[..]).collect();
    let mut t = Blake2bRead::<_, G1Affine, Challenge255<_>>::init(proof);
    match open {
        Open::Shplonk => verify_proof::<KZGCommitmentScheme<Bn256>, VerifierSHPLONK<'_, Bn256>, _, _, _>(params, vk, SingleKZG::new(params), &inst, &mut t),
        Open::Gwc => verify_proof::<KZGCommitmentScheme<Bn256>, VerifierGWC<'_, Bn256>, _, _, _>(params, vk, SingleKZG::new(params), &inst, &mut t),
    }
}

/// Several proofs through one accumulating strategy; the verdict of the final check.
pub fn kzg_verify_batch(params: &ParamsVerifierKZG<Bn256>, vk: &VerifyingKey<G1Affine>, open: Open, items: &[(Vec<Vec<Fr>>, Vec<u8>)]) -> bool {
    let mut s = AccKZG::new(params);
    for (inst, proof) in items {
        let cols = refs(inst);
        let mut t = Blake2bRead::<_, G1Affine, Challenge255<_>>::init(&proof[..]);
        let r = match open {
            Open::Shplonk => verify_proof::<KZGCommitmentScheme<Bn256>, VerifierSHPLONK<'_, Bn256>, _, _, _>(params, vk, s, &[&cols[..]], &mut t),
            Open::Gwc => verify_proof::<KZGCommitmentScheme<Bn256>, VerifierGWC<'_, Bn256>, _, _, _>(params, vk, s, &[&cols[..]], &mut t),
        };
        s = match r {
            Ok(s) => s,
            Err(_) => return false,
        };
    }
    match open {
        Open::Shplonk => <AccKZG<'_, Bn256> as VerificationStrategy<'_, KZGCommitmentScheme<Bn256>, VerifierSHPLONK<'_, Bn256>>>::finalize(s),
        Open::Gwc => <AccKZG<'_, Bn256> as VerificationStrategy<'_, KZGCommitmentScheme<Bn256>, VerifierGWC<'_, Bn256>>>::finalize(s),
    }
}

pub fn kzg_prove<C: Circuit<Fr>>(params: &ParamsKZG<Bn256>, pk: &ProvingKey<G1Affine>, open: Open, circuit: C, inst: &[Vec<Fr>], seed: u8) -> Result<Vec<u8>, Error> {
    kzg_prove_many(params, pk, open, &[circuit], &[inst.to_vec()], seed)
}

pub fn kzg_verify(params: &ParamsVerifierKZG<Bn256>, vk: &VerifyingKey<G1Affine>, open: Open, inst: &[Vec<Fr>], proof: &[u8]) -> Result<(), Error> {
    kzg_verify_many(params, vk, open, &[inst.to_vec()], proof)
}

pub fn kzg_keys<C: Circuit<Fr>>(params: &ParamsKZG<Bn256>, circuit: &C) -> Result<ProvingKey<G1Affine>, Error> {
    let vk = keygen_vk(params, circuit)?;
    keygen_pk(params, vk, circuit)
}

pub fn ipa_params(k: u32) -> ParamsIPA<EqAffine> {
    ParamsIPA::<EqAffine>::new(k)
}

pub fn ipa_keys<C: Circuit<Fp>>(params: &ParamsIPA<EqAffine>, circuit: &C) -> Result<ProvingKey<EqAffine>, Error> {
    let vk = keygen_vk(params, circuit)?;
    keygen_pk(params, vk, circuit)
}

pub fn ipa_prove<C: Circuit<Fp>>(params: &ParamsIPA<EqAffine>, pk: &ProvingKey<EqAffine>, circuit: C, inst: &[Vec<Fp>], seed: u8) -> Result<Vec<u8>, Error> {
    let cols = refs(inst);
    let mut t = Blake2bWrite::<_, EqAffine, Challenge255<_>>::init(vec![]);
    create_proof::<IPACommitmentScheme<EqAffine>, ProverIPA<'_, EqAffine>, _, _, _, _>(params, pk, &[circuit], &[&cols[..]], rng(seed), &mut t)?;
    Ok(t.finalize())
}

pub fn ipa_verify(params: &ParamsIPA<EqAffine>, vk: &VerifyingKey<EqAffine>, inst: &[Vec<Fp>], proof: &[u8]) -> Result<(), Error> {
    let cols = refs(inst);
    let mut t = Blake2bRead::<_, EqAffine, Challenge255<_>>::init(proof);
    verify_proof::<IPACommitmentScheme<EqAffine>, VerifierIPA<'_, EqAffine>, _, _, _>(params, vk, SingleIPA::new(params), &[&cols[..]], &mut t).map(|_| ())
}
