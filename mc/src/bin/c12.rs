//! C12: transcripts bind everything absorbed, in order.
use ff::{Field, PrimeField};
use group::{Curve, GroupEncoding};
use halo2_proofs::transcript::*;
use halo2curves::{bn256, pasta, secp256k1, CurveAffine, FieldExt};
use mc::*;
use std::collections::HashMap;

trait Kind<C: CurveAffine>: Sync {
    type W: TranscriptWrite<C, Challenge255<C>> + Clone + Send + Sync;
    fn name() -> &'static str;
    fn writer() -> Self::W;
    fn finish(w: Self::W) -> Vec<u8>;
    type R: TranscriptRead<C, Challenge255<C>> + Clone + Send + Sync;
    fn reader() -> Self::R;
    /// absorbs points as their two coordinates, without a tag
    const UNTAGGED: bool;
}
/// Reader over the thread's current proof bytes (so that an initialized transcript can be cloned).
#[derive(Clone, Debug)]
struct Feed;
thread_local! { static BYTES: std::cell::RefCell<(Vec<u8>, usize)> = Default::default(); }
impl halo2_proofs::io::Read for Feed {
    fn read_exact(&mut self, buf: &mut [u8]) -> halo2_proofs::io::Result<()> {
        BYTES.with(|b| {
            let (v, at) = &mut *b.borrow_mut();
            if *at + buf.len() > v.len() {
                return Err("end of the proof");
            }
            buf.copy_from_slice(&v[*at..*at + buf.len()]);
            *at += buf.len();
            Ok(())
        })
    }
}
struct Blake;
struct Keccak;
struct Pos;
impl<C: CurveAffine> Kind<C> for Blake {
    type W = Blake2bWrite<Vec<u8>, C, Challenge255<C>>;
    const UNTAGGED: bool = false;
    fn name() -> &'static str {
        "Blake2b"
    }
    fn writer() -> Self::W {
        Blake2bWrite::init(vec![])
    }
    fn finish(w: Self::W) -> Vec<u8> {
        w.finalize()
    }
    type R = Blake2bRead<Feed, C, Challenge255<C>>;
    fn reader() -> Self::R {
        <Blake2bRead<_, C, _> as TranscriptReadBuffer<_, _, _>>::init(Feed)
    }
}
impl<C: CurveAffine> Kind<C> for Keccak {
    type W = Keccak256Write<Vec<u8>, C, Challenge255<C>>;
    const UNTAGGED: bool = false;
    fn name() -> &'static str {
        "Keccak256"
    }
    fn writer() -> Self::W {
        Keccak256Write::init(vec![])
    }
    fn finish(w: Self::W) -> Vec<u8> {
        w.finalize()
    }
    type R = Keccak256Read<Feed, C, Challenge255<C>>;
    fn reader() -> Self::R {
        <Keccak256Read<_, C, _> as TranscriptReadBuffer<_, _, _>>::init(Feed)
    }
}
impl<C: CurveAffine> Kind<C> for Pos {
    type W = PoseidonWrite<Vec<u8>, C, Challenge255<C>>;
    const UNTAGGED: bool = true;
    fn name() -> &'static str {
        "Poseidon"
    }
    fn writer() -> Self::W {
        PoseidonWrite::init(vec![])
    }
    fn finish(w: Self::W) -> Vec<u8> {
        w.finalize()
    }
    type R = PoseidonRead<Feed, C, Challenge255<C>>;
    fn reader() -> Self::R {
        PoseidonRead::init(Feed)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    P(u8),
    S(u8),
    Q,
}

struct Vals<C: CurveAffine> {
    p: Vec<C>,
    s: Vec<C::Scalar>,
}
fn vals<C: CurveAffine>() -> Vals<C> {
    let g = C::generator();
    let p2 = (g + g).to_affine();
    let t64 = C::Scalar::from(1u64 << 32).square();
    Vals { p: vec![g, -g, p2, C::identity()], s: vec![C::Scalar::zero(), C::Scalar::one(), t64, t64.square(), t64 * t64.square(), -C::Scalar::one()] }
}
/// What the sequence absorbs; equal tokens iff equal challenges.
fn tokens<C: CurveAffine>(v: &Vals<C>, ops: &[Op], untagged: bool) -> Vec<(u8, Vec<u8>)> {
    let mut t = vec![];
    for o in ops {
        match o {
            Op::Q => t.push((0, vec![])),
            Op::S(i) => t.push((2, v.s[*i as usize].to_repr().as_ref().to_vec())),
            Op::P(i) if untagged => {
                let c = v.p[*i as usize].coordinates();
                let z = (C::Base::zero(), C::Base::zero());
                let (x, y) = Option::from(c).map_or(z, |c: halo2curves::Coordinates<C>| (*c.x(), *c.y()));
                for e in [x, y] {
                    let mut w = [0u8; 64];
                    w[..32].copy_from_slice(e.to_repr().as_ref());
                    t.push((2, C::Scalar::from_bytes_wide(&w).to_repr().as_ref().to_vec()));
                }
            }
            Op::P(i) => t.push((1, v.p[*i as usize].to_bytes().as_ref().to_vec())),
        }
    }
    t
}

/// Run a sequence on the writer (writing or only absorbing, per bit of `mask`); None if an operation is refused.
fn write<C: CurveAffine, K: Kind<C>>(w0: &K::W, v: &Vals<C>, ops: &[Op], mask: u32) -> Option<(Vec<C::Scalar>, Vec<u8>)> {
    let mut w = w0.clone();
    let mut ch = vec![];
    for (i, o) in ops.iter().enumerate() {
        let out = mask >> i & 1 == 1;
        match o {
            Op::P(k) if out => w.write_point(v.p[*k as usize]).ok()?,
            Op::P(k) => w.common_point(v.p[*k as usize]).ok()?,
            Op::S(k) if out => w.write_scalar(v.s[*k as usize]).ok()?,
            Op::S(k) => w.common_scalar(v.s[*k as usize]).ok()?,
            Op::Q => ch.push(w.squeeze_challenge().get_scalar()),
        }
    }
    ch.push(w.squeeze_challenge().get_scalar());
    Some((ch, K::finish(w)))
}
fn read<C: CurveAffine, K: Kind<C>>(r0: &K::R, b: &[u8], v: &Vals<C>, ops: &[Op], mask: u32) -> Result<(Vec<C::Scalar>, Vec<String>), String> {
    let mut r = r0.clone();
    BYTES.with(|x| *x.borrow_mut() = (b.to_vec(), 0));
    let e = |e: &'static str| e.to_string();
    let mut ch = vec![];
    let mut got = vec![];
    for (i, o) in ops.iter().enumerate() {
        let out = mask >> i & 1 == 1;
        match o {
            Op::P(_) if out => got.push(format!("{:?}", r.read_point().map_err(e)?)),
            Op::P(k) => r.common_point(v.p[*k as usize]).map_err(e)?,
            Op::S(_) if out => got.push(format!("{:?}", r.read_scalar().map_err(e)?)),
            Op::S(k) => r.common_scalar(v.s[*k as usize]).map_err(e)?,
            Op::Q => ch.push(r.squeeze_challenge().get_scalar()),
        }
    }
    ch.push(r.squeeze_challenge().get_scalar());
    Ok((ch, got))
}

fn explore<C: CurveAffine, K: Kind<C>>(c: &Ctx, curve: &str, depth: usize, prefixes: &[usize]) {
    let v = vals::<C>();
    let w0 = K::writer();
    let r0 = K::reader();
    let alpha: Vec<Op> = (0..4).map(Op::P).chain((0..6).map(Op::S)).chain([Op::Q]).collect();
    let mut seqs: Vec<Vec<Op>> = vec![];
    for n in 0..=depth {
        for i in 0..util::pow(alpha.len(), n) {
            seqs.push(util::word(i, alpha.len(), n).iter().map(|x| alpha[*x]).collect());
        }
    }
    // long absorptions (across the blocks of the hash), each followed by all short words
    for n in prefixes {
        for fill in [Op::S(0), Op::S(1), Op::P(0)] {
            for m in 0..=2 {
                for i in 0..util::pow(alpha.len(), m) {
                    let mut s = vec![fill; *n];
                    s.extend(util::word(i, alpha.len(), m).iter().map(|x| alpha[*x]));
                    seqs.push(s);
                }
            }
        }
    }
    seqs.sort_by_key(|s| format!("{:?}", s));
    seqs.dedup();
    let all: std::sync::Mutex<Vec<(Vec<(u8, Vec<u8>)>, C::Scalar, usize)>> = Default::default();
    c.par(&format!("{}/{}", K::name(), curve), &(0..seqs.len()).collect::<Vec<_>>(), |i, r| {
        let ops = &seqs[*i];
        r.label(format!("{} over {}: {:?}", K::name(), curve, ops));
        r.case(|r| {
            let full = (1u32 << ops.len().min(31)) - 1;
            let a = write::<C, K>(&w0, &v, ops, full);
            let n = write::<C, K>(&w0, &v, ops, 0);
            let (a, n) = match (a, n) {
                (None, None) => {
                    // only points at infinity may be refused, by both sides
                    if !ops.contains(&Op::P(3)) {
                        return Err("a writer refused an ordinary value".into());
                    }
                    if read::<C, K>(&r0, &[], &v, ops, 0).is_ok() {
                        return Err("the reader absorbs a point the writer refuses".into());
                    }
                    r.outcome("refused");
                    return Ok(());
                }
                (Some(a), Some(n)) => (a, n),
                _ => return Err("absorbing is refused but writing is not, or conversely".into()),
            };
            if a.0 != n.0 {
                return Err("writing and absorbing a value give different challenges".into());
            }
            if !n.1.is_empty() {
                return Err("absorbing a common value wrote to the proof".into());
            }
            for (mask, w) in [(full, &a), (0, &n), (0x55555555 & full, &a), (0xaaaaaaaa & full, &a)] {
                let bytes = if mask == full || mask == 0 { w.1.clone() } else { write::<C, K>(&w0, &v, ops, mask).ok_or("refused")?.1 };
                let (ch, got) = read::<C, K>(&r0, &bytes, &v, ops, mask).map_err(|e| format!("reading back: {}", e))?;
                if ch != a.0 {
                    return Err(format!("reader and writer derive different challenges (mask {:b})", mask));
                }
                let want: Vec<String> = ops
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| mask >> i & 1 == 1)
                    .filter_map(|(_, o)| match o {
                        Op::P(k) => Some(format!("{:?}", v.p[*k as usize])),
                        Op::S(k) => Some(format!("{:?}", v.s[*k as usize])),
                        Op::Q => None,
                    })
                    .collect();
                if got != want {
                    return Err("the reader returns other values than written".into());
                }
                if ops.len() <= 3 && mask != 0 {
                    for cut in 0..bytes.len() {
                        if read::<C, K>(&r0, &bytes[..cut], &v, ops, mask).is_ok() {
                            return Err(format!("a proof cut to {} bytes is read", cut));
                        }
                        r.step(1);
                    }
                }
            }
            r.outcome("agree");
            r.step(ops.len() as u64 + 1);
            r.state(&(K::name(), curve, tokens(&v, ops, K::UNTAGGED)));
            all.lock().unwrap().push((tokens(&v, ops, K::UNTAGGED), *a.0.last().unwrap(), *i));
            Ok(())
        });
    });
    // all pairs: equal absorbed data iff equal challenges
    c.seq(&format!("{}/{} pairs", K::name(), curve), |r| {
        r.label(format!("{} over {}: pairs", K::name(), curve));
        let all = all.lock().unwrap();
        let mut by_tok: HashMap<&[(u8, Vec<u8>)], (C::Scalar, usize)> = HashMap::new();
        let mut by_ch: HashMap<(String, Vec<u8>), (&[(u8, Vec<u8>)], usize)> = HashMap::new();
        let mut ones = [0u8; 32];
        let mut zeros = [0u8; 32];
        for (t, ch, i) in all.iter() {
            r.step(1);
            let cb = ch.to_repr().as_ref().to_vec();
            for (k, b) in cb.iter().enumerate().take(32) {
                ones[k] |= b;
                zeros[k] |= !b;
            }
            if let Some((o, j)) = by_tok.insert(&t[..], (*ch, *i)) {
                if o != *ch {
                    r.violation(&format!("{} {} unstable", K::name(), curve), format!("{:?} and {:?} absorb the same but give different challenges", seqs[*i], seqs[j]));
                    return;
                }
            }
            let class = if !K::UNTAGGED {
                String::new()
            } else if seqs[*i].contains(&Op::Q) {
                seqs[*i].iter().map(|o| match o { Op::P(_) => 'P', Op::S(_) => 'S', Op::Q => 'Q' }).collect()
            } else {
                "absorb only".into()
            };
            if let Some((o, j)) = by_ch.insert((class, cb), (&t[..], *i)) {
                if o != &t[..] {
                    r.violation(&format!("{} {} collision", K::name(), curve), format!("{:?} and {:?} give the same challenge", seqs[*i], seqs[j]));
                    return;
                }
            }
        }
        if all.len() > 200 && (0..252).any(|k| ones[k / 8] >> (k % 8) & 1 == 0 || zeros[k / 8] >> (k % 8) & 1 == 0) {
            r.violation(&format!("{} {} range", K::name(), curve), "a bit of the challenge is constant over all sequences".to_string());
        }
    });
    // altered encodings: error, or other challenges
    let short: Vec<Vec<Op>> = seqs.iter().filter(|s| s.len() <= 2 && !s.is_empty() && s.iter().all(|o| *o != Op::P(3))).cloned().collect();
    c.par(&format!("{}/{} faults", K::name(), curve), &short, |ops, r| {
        let full = (1u32 << ops.len()) - 1;
        let (ch, bytes) = match write::<C, K>(&w0, &v, ops, full) {
            Some(x) => x,
            None => return,
        };
        for i in 0..bytes.len() {
            for x in [1u8, 0x80, 0x40, 0xff] {
                let mut b = bytes.clone();
                b[i] ^= x;
                r.label(format!("{} over {}: {:?} byte {} xor {:#x}", K::name(), curve, ops, i, x));
                r.case(|r| {
                    match read::<C, K>(&r0, &b, &v, ops, full) {
                        Err(_) => r.outcome("altered refused"),
                        Ok((c2, got)) => {
                            r.outcome("altered read");
                            let _ = got;
                            if c2.last() == ch.last() {
                                return Err("altered bytes give the same challenge".into());
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
        // non-canonical scalars: the value plus the modulus
        if ops.len() == 1 {
            if let Op::S(k) = ops[0] {
                let mut b = v.s[k as usize].to_repr().as_ref().to_vec();
                let m = (-C::Scalar::one()).to_repr();
                let mut carry = 1u16; // + (p - 1) + 1
                for (x, y) in b.iter_mut().zip(m.as_ref()) {
                    let t = *x as u16 + *y as u16 + carry;
                    *x = t as u8;
                    carry = t >> 8;
                }
                if carry == 0 {
                    r.label(format!("{} over {}: scalar {} plus the modulus", K::name(), curve, k));
                    r.case(|_| match read::<C, K>(&r0, &b, &v, ops, full) {
                        Ok(_) => Err("a non-canonical scalar is read".into()),
                        Err(_) => Ok(()),
                    });
                }
            }
        }
    });
}

fn main() {
    mc::main("C12", |c| {
        c.assume("The Poseidon transcript has no tags: it absorbs a point as its two coordinates reduced to scalars, and the pattern of operations is fixed by the protocol: it is decided on sequences of the same pattern, and on all sequences up to the first challenge.");
        let d = c.pick(3, 4);
        let pre: Vec<usize> = (1..=c.pick(20, 40)).collect();
        explore::<bn256::G1Affine, Blake>(c, "bn256", c.pick(4, 5), &pre);
        explore::<bn256::G1Affine, Keccak>(c, "bn256", c.pick(4, 5), &pre);
        explore::<bn256::G1Affine, Pos>(c, "bn256", d, &pre);
        explore::<pasta::EqAffine, Blake>(c, "vesta", d, &pre);
        explore::<pasta::EqAffine, Keccak>(c, "vesta", d, &pre);
        explore::<pasta::EqAffine, Pos>(c, "vesta", c.pick(2, 3), &pre);
        explore::<pasta::EpAffine, Blake>(c, "pallas", c.pick(2, 3), &pre);
        explore::<secp256k1::Secp256k1Affine, Blake>(c, "secp256k1", c.pick(2, 3), &pre);
        explore::<secp256k1::Secp256k1Affine, Keccak>(c, "secp256k1", c.pick(2, 3), &pre);
    })
}
