//! C14: domains, FFTs and polynomial helpers compute what they are defined to compute.
use group::Group as _;
use group::Curve;
use halo2_proofs::arithmetic::*;
use halo2_proofs::poly::{EvaluationDomain, Rotation};
use halo2curves::FieldExt;
use mc::*;

fn horner<F: Field>(p: &[F], x: F) -> F {
    let mut a = F::zero();
    for c in p.iter().rev() {
        a = a * x + c;
    }
    a
}
/// x^e by repeated multiplication by hand
fn power<F: Field>(x: F, mut e: u64) -> F {
    let (mut r, mut b) = (F::one(), x);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b;
        }
        b = b * b;
        e >>= 1;
    }
    r
}
fn powers_table<F: Field>(x: F, n: usize) -> Vec<F> {
    let mut v = Vec::with_capacity(n);
    let mut c = F::one();
    for _ in 0..n {
        v.push(c);
        c = c * x;
    }
    v
}
fn dense<F: FieldExt>(n: usize, s: u64) -> Vec<F> {
    (0..n).map(|i| F::from((i as u64 + 3) * (s + 7)).square() * F::from(s * 1000003 + i as u64) - F::from(i as u64)).collect()
}
fn unit<F: Field>(n: usize, i: usize) -> Vec<F> {
    let mut v = vec![F::zero(); n];
    v[i] = F::one();
    v
}
macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// omega generates the subgroup of order 2^k
fn order<F: Field>(w: F, k: u32) -> bool {
    let mut x = w;
    for i in 0..k {
        if x == F::one() {
            return false;
        }
        if i == k - 1 && x != -F::one() {
            return false;
        }
        x = x * x;
    }
    x == F::one()
}

fn domain<F: FieldExt>(c: &Ctx, name: &str) {
    let kmax = c.pick(6, 8);
    let jmax = c.pick(12, 20);
    let mut jobs = vec![];
    for k in 0..=kmax {
        for j in 2..=jmax {
            jobs.push((k, j));
        }
    }
    c.par(&format!("domain {}", name), &jobs, |(k, j), r| {
        let (k, j) = (*k as u32, *j as u32);
        r.label(format!("{} domain j={} k={}", name, j, k));
        r.case(|r| {
            let d = EvaluationDomain::<F>::new(j, k);
            let n = 1usize << k;
            let w = d.get_omega();
            need!(d.k() == k, "k");
            need!(order(w, k), "omega does not have order 2^k");
            need!(w * d.get_omega_inv() == F::one(), "omega_inv");
            let ek = d.extended_k();
            let m = 1usize << ek;
            need!(d.extended_len() == m && ek >= k && m >= n * (j as usize - 1), "extended size");
            need!(ek == k || (m / 2) < n * (j as usize - 1), "extended domain larger than needed");
            need!(d.get_quotient_poly_degree() == j as usize - 1, "quotient degree");
            let ew = d.get_extended_omega();
            need!(order(ew, ek), "extended omega order");
            need!(power(ew, (m / n) as u64) == w, "extended omega is not a root of omega");
            let wt = powers_table(w, n);
            let z = F::ZETA;
            need!(z != F::one() && z * z * z == F::one(), "zeta");
            let coset: Vec<F> = powers_table(ew, m).into_iter().map(|x| x * z).collect();
            for x in &coset {
                need!(power(*x, n as u64) != F::one(), "coset meets the domain");
            }
            // all basis vectors and dense ones
            let mut vecs: Vec<Vec<F>> = (0..n).map(|i| unit(n, i)).collect();
            vecs.push(dense(n, 1));
            vecs.push(vec![F::zero(); n]);
            vecs.push(vec![-F::one(); n]);
            for v in &vecs {
                r.step(1);
                let p = d.lagrange_to_coeff(d.lagrange_from_vec(v.clone()));
                need!(p.len() == n && p.num_coeffs() == n, "length of coefficients");
                for i in 0..n {
                    need!(horner(&p, wt[i]) == v[i], "lagrange_to_coeff {:?} at {}", v, i);
                }
                // coefficient vectors
                let a = d.coeff_from_vec(v.clone());
                let e = d.coeff_to_extended(a.clone());
                need!(e.len() == m, "extended length");
                for i in 0..m {
                    need!(e[i] == horner(v, coset[i]), "coeff_to_extended at {}", i);
                }
                let parts = d.coeff_to_extended_parts(&a);
                need!(parts.len() == m / n, "number of parts");
                for (q, part) in parts.iter().enumerate() {
                    need!(part.len() == n, "length of part");
                    for i in 0..n {
                        need!(part[i] == e[q + i * (m / n)], "coeff_to_extended_parts {} at {}", q, i);
                    }
                    let one = d.coeff_to_extended_part(a.clone(), power(ew, q as u64));
                    need!(one[..] == part[..], "coeff_to_extended_part {}", q);
                }
                let back = d.extended_from_lagrange_vec(parts.clone());
                need!(back[..] == e[..], "extended_from_lagrange_vec");
                let b = d.batched_coeff_to_extended_parts(&[a.clone(), d.coeff_from_vec(dense(n, 5)), a.clone()]);
                let other = d.coeff_to_extended_parts(&d.coeff_from_vec(dense(n, 5)));
                need!(b.len() == m / n, "batched parts");
                for q in 0..m / n {
                    need!(b[q].len() == 3 && b[q][0][..] == parts[q][..] && b[q][1][..] == other[q][..] && b[q][2][..] == parts[q][..], "batched_coeff_to_extended_parts {}", q);
                }
                // rotations
                for rot in -(n as i32)..=(n as i32) {
                    let l = d.lagrange_from_vec(v.clone()).rotate(Rotation(rot));
                    for i in 0..n {
                        need!(l[i] == v[(i as i32 + rot).rem_euclid(n as i32) as usize], "rotate by {}", rot);
                    }
                    let l = d.rotate_extended(&e, Rotation(rot));
                    let s = (m / n) as i32;
                    for i in 0..m {
                        need!(l[i] == e[(i as i32 + rot * s).rem_euclid(m as i32) as usize], "rotate_extended by {}", rot);
                    }
                }
            }
            need!(Rotation::cur() == Rotation(0) && Rotation::next() == Rotation(1) && Rotation::prev() == Rotation(-1), "rotation constants");
            // the quotient of every monomial times the vanishing polynomial
            let top = n * (j as usize - 1);
            for t in 0..top {
                r.step(1);
                let ev: Vec<F> = coset.iter().map(|x| power(*x, t as u64)).collect();
                let mut e = d.empty_extended();
                e.iter_mut().zip(&ev).for_each(|(a, b)| *a = *b);
                let back = d.extended_to_coeff(e.clone());
                need!(back == unit::<F>(top, t), "extended_to_coeff of X^{}", t);
                let mut num = d.empty_extended();
                for (i, x) in coset.iter().enumerate() {
                    num[i] = ev[i] * (power(*x, n as u64) - F::one());
                }
                let q = d.divide_by_vanishing_poly(num);
                need!(q[..] == e[..], "divide_by_vanishing_poly of X^{} (X^n - 1)", t);
            }
            // omega rotations
            let nn = 1i64 << k;
            for rot in (-2 * n as i32..=2 * n as i32).chain([i32::MAX, i32::MIN, i32::MIN + 1]) {
                let want = F::from(5) * wt[(rot as i64).rem_euclid(nn) as usize];
                need!(d.rotate_omega(F::from(5), Rotation(rot)) == want, "rotate_omega by {}", rot);
            }
            // Lagrange basis evaluations
            for x in [F::zero(), F::from(2), F::from(77), -F::from(3), z, coset[m - 1]] {
                let xn = power(x, n as u64);
                if xn == F::one() {
                    continue;
                }
                let all: Vec<i32> = (-(n as i32)..=n as i32).collect();
                let got = d.l_i_range(x, xn, all.clone());
                need!(got.len() == all.len(), "l_i_range length");
                for (i, g) in all.iter().zip(&got) {
                    let e = unit::<F>(n, i.rem_euclid(n as i32) as usize);
                    // product over the other points
                    let me = i.rem_euclid(n as i32) as usize;
                    let (mut a, mut b) = (F::one(), F::one());
                    for q in 0..n {
                        if q != me {
                            a = a * (x - wt[q]);
                            b = b * (wt[me] - wt[q]);
                        }
                    }
                    need!(*g * b == a, "l_i_range at rotation {}", i);
                    need!(e.len() == n, "");
                    need!(d.l_i_range(x, xn, vec![*i]) == vec![*g], "l_i_range of one rotation {}", i);
                    need!(d.l_i_range(x, xn, vec![*i, 0, *i]).first() == Some(g), "l_i_range repeated");
                    r.step(1);
                }
                need!(d.l_i_range(x, xn, 0..0).is_empty(), "empty range");
                need!(d.l_i_range(x, xn, 0..n as i32) == got[n..2 * n].to_vec(), "range");
            }
            need!(d.empty_coeff()[..] == vec![F::zero(); n][..] && d.empty_lagrange()[..] == vec![F::zero(); n][..] && d.empty_extended()[..] == vec![F::zero(); m][..], "empty");
            need!(d.constant_lagrange(F::from(4))[..] == vec![F::from(4); n][..] && d.constant_extended(F::from(4))[..] == vec![F::from(4); m][..], "constant");
            // lengths that do not fit are refused
            for l in [0, n - 1, n + 1, 2 * n] {
                if l != n {
                    need!(guard(|| d.lagrange_from_vec(vec![F::one(); l])).is_err(), "lagrange_from_vec of {} accepted", l);
                    need!(guard(|| d.coeff_from_vec(vec![F::one(); l])).is_err(), "coeff_from_vec of {} accepted", l);
                }
            }
            // arithmetic of polynomials
            let (a, b) = (dense::<F>(n, 2), dense::<F>(n, 3));
            let (pa, pb) = (d.coeff_from_vec(a.clone()), d.coeff_from_vec(b.clone()));
            let (s, t) = (pa.clone() + &pb, pa.clone() - &pb);
            let u = &pa - F::from(9);
            for i in 0..n {
                need!(s[i] == a[i] + b[i] && t[i] == a[i] - b[i], "sum or difference");
                need!(u[i] == if i == 0 { a[i] - F::from(9) } else { a[i] }, "constant subtracted");
            }
            for f in [F::zero(), F::one(), F::from(2), -F::one()] {
                let q = pa.clone() * f;
                need!(q.len() == n, "length of scaled");
                for i in 0..n {
                    need!(q[i] == a[i] * f, "scaled");
                }
            }
            r.state(&(name, j, k));
            Ok(())
        });
    });

    // large domains: closed forms
    let mut jobs = vec![];
    for k in 7..=c.pick(11u32, 15) {
        for j in c.pick(vec![2u32, 4], vec![2, 3, 4, 5, 7, 9]) {
            jobs.push((k, j));
        }
    }
    jobs.reverse();
    c.par(&format!("large domains {}", name), &jobs, |(k, j), r| {
        let (k, j) = (*k, *j);
        r.label(format!("{} large domain j={} k={}", name, j, k));
        r.case(|r| {
            let d = EvaluationDomain::<F>::new(j, k);
            let n = 1usize << k;
            let (w, ew) = (d.get_omega(), d.get_extended_omega());
            let m = d.extended_len();
            need!(order(w, k) && order(ew, d.extended_k()), "orders of the generators");
            need!(m >= n * (j as usize - 1) && m / 2 < n * (j as usize - 1).max(2), "extended size");
            let wt = powers_table(w, n);
            let et = powers_table(ew, m);
            let z = F::ZETA;
            // Lagrange basis: l_i(x) n (x - w^i) = w^i (x^n - 1)
            let nf = F::from(n as u64);
            for x in [F::from(2), -F::from(3), et[m - 1] * z] {
                let xn = power(x, n as u64);
                let all: Vec<i32> = (-(n as i32)..=n as i32).collect();
                let got = d.l_i_range(x, xn, all.clone());
                need!(got.len() == all.len(), "l_i_range length");
                for (i, g) in all.iter().zip(&got) {
                    let wi = wt[i.rem_euclid(n as i32) as usize];
                    need!(*g * nf * (x - wi) == wi * (xn - F::one()), "l_i_range at rotation {}", i);
                    r.step(1);
                }
            }
            for rot in -(n as i32)..=n as i32 {
                need!(d.rotate_omega(F::from(5), Rotation(rot)) == F::from(5) * wt[rot.rem_euclid(n as i32) as usize], "rotate_omega by {}", rot);
            }
            let mut idx = vec![0usize, 3, n / 2 - 1, n - 2, n - 1, n / 3];
            idx.extend((0..k).map(|b| 1usize << b));
            for i in idx {
                r.step(1);
                // the i-th basis vector has coefficients w^(-i q) / n
                let p = d.lagrange_to_coeff(d.lagrange_from_vec(unit(n, i)));
                for q in 0..n {
                    need!(p[q] * nf == wt[(n - i % n) * q % n], "lagrange_to_coeff of basis vector {} at {}", i, q);
                }
                // X^i on the coset
                let a = d.coeff_from_vec(unit(n, i));
                let e = d.coeff_to_extended(a.clone());
                let zi = power(z, i as u64);
                for q in 0..m {
                    need!(e[q] == zi * et[q * i % m], "coeff_to_extended of X^{} at {}", i, q);
                }
                let parts = d.coeff_to_extended_parts(&a);
                let s = m / n;
                need!(parts.len() == s, "number of parts");
                for (o, part) in parts.iter().enumerate() {
                    need!(part.iter().enumerate().all(|(q, y)| *y == e[o + q * s]), "part {} of X^{}", o, i);
                }
                need!(d.extended_from_lagrange_vec(parts)[..] == e[..], "extended_from_lagrange_vec");
                let top = n * (j as usize - 1);
                let mut back = d.extended_to_coeff(e.clone());
                need!(back.len() == top, "length of extended_to_coeff");
                need!(back[i] == F::one(), "extended_to_coeff of X^{}", i);
                back[i] = F::zero();
                need!(back.iter().all(|y| *y == F::zero()), "extended_to_coeff of X^{}", i);
                let mut num = e.clone();
                for q in 0..m {
                    num[q] = e[q] * (power(z * et[q], n as u64) - F::one());
                }
                need!(d.divide_by_vanishing_poly(num)[..] == e[..], "divide_by_vanishing_poly");
                let v = unit::<F>(n, i);
                for rot in [-(n as i32) + 1, -257, -256, -255, -1, 1, 64, 127, 255, 256, n as i32 - 1].iter().copied().filter(|x| x.abs() <= n as i32) {
                    let l = d.lagrange_from_vec(v.clone()).rotate(Rotation(rot));
                    need!((0..n).all(|q| l[q] == v[(q as i32 + rot).rem_euclid(n as i32) as usize]), "rotate by {}", rot);
                    let l = d.rotate_extended(&e, Rotation(rot));
                    need!((0..m).all(|q| l[q] == e[(q as i64 + rot as i64 * s as i64).rem_euclid(m as i64) as usize]), "rotate_extended by {}", rot);
                }
            }
            r.state(&(name, j, k, "large"));
            Ok(())
        });
    });

    // helpers on long vectors: every length
    c.par_n(&format!("long {}", name), c.pick(300, 1200), |l, r| {
        r.label(format!("{} vectors of length {}", name, l));
        r.case(|r| {
            let l = l as usize;
            let p = dense::<F>(l, 6);
            for x in [F::zero(), F::one(), F::from(3), F::root_of_unity()] {
                need!(eval_polynomial(&p, x) == horner(&p, x), "eval_polynomial");
                if l > 0 {
                    let q = kate_division(&p, x);
                    need!(q.len() == l - 1, "kate_division length");
                    let mut carry = F::zero();
                    for e in (0..l - 1).rev() {
                        carry = carry * x + p[e + 1];
                        need!(q[e] == carry, "kate_division");
                    }
                }
                r.step(2);
            }
            let o = dense::<F>(l, 8);
            let mut s = F::zero();
            for e in 0..l {
                s += p[e] * o[e];
            }
            need!(compute_inner_product(&p, &o) == s, "inner product");
            if (5..=40).contains(&l) {
                let xs: Vec<F> = (0..l).map(|i| F::from(i as u64 * 3 + 1)).collect();
                let ys: Vec<F> = xs.iter().map(|x| horner(&p, *x)).collect();
                need!(lagrange_interpolate(&xs, &ys) == p, "lagrange_interpolate");
            }
            Ok(())
        });
    });

    // FFT of every basis vector
    let mut jobs = vec![];
    for k in 0..=c.pick(10u32, 12) {
        for b in 0..((1usize << k) + 63) / 64 {
            jobs.push((k, b));
        }
    }
    c.par(&format!("fft {}", name), &jobs, |(k, b), r| {
        r.label(format!("{} fft k={} block {}", name, k, b));
        r.case(|r| {
            let n = 1usize << k;
            let d = EvaluationDomain::<F>::new(2, *k);
            let w = d.get_omega();
            let t = powers_table(w, n);
            for i in b * 64..((b + 1) * 64).min(n) {
                for (om, sign) in [(w, 1usize), (d.get_omega_inv(), n - 1)] {
                    let mut v = unit::<F>(n, i);
                    best_fft(&mut v, om, *k);
                    for q in 0..n {
                        need!(v[q] == t[q * i * sign % n], "basis vector {} at {}", i, q);
                    }
                    r.step(1);
                }
            }
            if *b == 0 && *k <= 7 {
                let mut v = dense::<F>(n, 4);
                let p = v.clone();
                best_fft(&mut v, w, *k);
                for q in 0..n {
                    need!(v[q] == horner(&p, t[q]), "dense vector");
                }
            }
            Ok(())
        });
    });

    // helpers on every short polynomial over a small alphabet
    let al = [F::zero(), F::one(), -F::one(), F::from(2), dense::<F>(3, 9)[2]];
    let pts = [F::zero(), F::one(), -F::one(), F::from(3), F::root_of_unity(), F::DELTA];
    let lens = c.pick(5, 7);
    c.par(&format!("helpers {}", name), &(0..=lens).flat_map(|l| (0..util::pow(5, l)).map(move |i| (l, i))).collect::<Vec<_>>(), |(l, i), r| {
        r.label(format!("{} polynomial {} of length {}", name, i, l));
        r.case(|r| {
            let p: Vec<F> = util::word(*i, 5, *l).into_iter().map(|x| al[x]).collect();
            for x in pts {
                need!(eval_polynomial(&p, x) == horner(&p, x), "eval_polynomial");
                if *l > 0 {
                    let q = kate_division(&p, x);
                    need!(q.len() == l - 1, "kate_division length");
                    // p = q (X - x) + p(x)
                    let mut back = vec![F::zero(); *l];
                    back[0] = horner(&p, x);
                    for (e, co) in q.iter().enumerate() {
                        back[e + 1] += co;
                        back[e] -= *co * x;
                    }
                    need!(back == p, "kate_division by X - {:?}", x);
                }
                r.step(2);
            }
            let other = dense::<F>(*l, 8);
            let mut s = F::zero();
            for e in 0..*l {
                s += p[e] * other[e];
            }
            need!(compute_inner_product(&p, &other) == s, "inner product");
            // interpolation: through this polynomial's values on every choice of that many points
            if *l <= 4 {
                for perm in util::permutations(pts.len()).iter().filter(|q| q[*l..].windows(2).all(|w| w[0] < w[1])) {
                    let xs: Vec<F> = perm[..*l].iter().map(|a| pts[*a]).collect();
                    let ys: Vec<F> = xs.iter().map(|x| horner(&p, *x)).collect();
                    need!(lagrange_interpolate(&xs, &ys) == p, "lagrange_interpolate through {:?}", perm);
                    r.step(1);
                }
            }
            Ok(())
        });
    });
    c.seq(&format!("twiddles {}", name), |r| {
        for log_n in 0..8u32 {
            for sparse in 0..9u32 {
                for last in [true, false] {
                    if sparse == log_n && !last {
                        continue;
                    }
                    r.label(format!("{} twiddles {} {} {}", name, log_n, sparse, last));
                    r.case(|_| {
                        let w = EvaluationDomain::<F>::new(2, log_n).get_omega();
                        let t = generate_twiddle_lookup_table(w, log_n, sparse, last);
                        if sparse > log_n {
                            need!(t == powers_table(w, 1 << log_n), "dense");
                        } else {
                            let h = 1usize << (log_n - sparse - !last as u32);
                            let mut want = powers_table(w, 1 << sparse);
                            want.extend(powers_table(power(w, 1 << sparse), h));
                            need!(t == want, "sparse");
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}

/// FFT over points and the Lagrange form of the commitment bases.
fn points<C: CurveAffine>(c: &Ctx, name: &str)
where
    C::Curve: Group<Scalar = C::ScalarExt>,
{
    c.par(&format!("points {}", name), &(0..=c.pick(4u32, 6)).collect::<Vec<_>>(), |k, r| {
        r.label(format!("{} points k={}", name, k));
        r.case(|r| {
            let n = 1usize << k;
            let d = EvaluationDomain::<C::ScalarExt>::new(2, *k);
            let w = d.get_omega();
            let t = powers_table(w, n);
            let g = C::Curve::generator();
            let id = <C::Curve as group::Group>::identity();
            let mut vecs: Vec<Vec<C::ScalarExt>> = (0..n).map(|i| unit(n, i)).collect();
            vecs.push(dense(n, 3));
            vecs.push(vec![C::ScalarExt::zero(); n]);
            for v in vecs {
                let mut a: Vec<C::Curve> = v.iter().map(|s| if *s == C::ScalarExt::zero() { id } else { g * *s }).collect();
                best_fft(&mut a, w, *k);
                for i in 0..n {
                    need!(a[i] == g * horner(&v, t[i]), "fft of points at {}", i);
                    r.step(1);
                }
                // lagrange form: sum_i v_i L_i = sum_i coeffs_i G_i
                let l: Vec<C> = g_to_lagrange(v.iter().map(|s| g * *s).collect(), *k);
                need!(l.len() == n, "length");
                for i in 0..n {
                    // L_i = sum_j coeff_j(l_i) v_j G with l_i the basis polynomial
                    let li = d.lagrange_to_coeff(d.lagrange_from_vec(unit(n, i)));
                    let mut s = C::ScalarExt::zero();
                    for q in 0..n {
                        s += li[q] * v[q];
                    }
                    need!(l[i] == (g * s).to_affine(), "g_to_lagrange at {}", i);
                    need!(l[i].to_bytes().as_ref() == (g * s).to_affine().to_bytes().as_ref(), "g_to_lagrange encoding");
                }
            }
            r.state(&(name, k));
            Ok(())
        });
    });
}

fn main() {
    mc::main("C14", |c| {
        domain::<halo2curves::bn256::Fr>(c, "bn256::Fr");
        domain::<halo2curves::pasta::Fp>(c, "pasta::Fp");
        domain::<halo2curves::pasta::Fq>(c, "pasta::Fq");
        points::<halo2curves::bn256::G1Affine>(c, "bn256::G1");
        points::<halo2curves::pasta::EqAffine>(c, "pasta::Eq");
        points::<halo2curves::pasta::EpAffine>(c, "pasta::Ep");
    })
}
