//! C01: the compiler keeps the operators and resolves every bracket.
use ckb_bf_vm::code;
use mc::bf::*;
use mc::util::*;
use mc::*;

fn check(src: &[u8], r: &mut Rec) {
    let want = ref_compile(src);
    let fits = want.as_ref().map(|w| w.len() <= u16::MAX as usize || !src.contains(&b'['));
    let got = guard(|| code::compile_to_u16(src.to_vec()));
    r.step(1);
    r.trace();
    let bad = |r: &mut Rec, e: String| {
        let s: String = show(src).chars().take(200).collect();
        let k = format!("len={} {:?}", src.len(), s);
        r.label(&k);
        r.violation(&k, e);
    };
    match (&want, &got) {
        (None, Err(_)) => r.outcome("refused"),
        (None, Ok(g)) => bad(r, format!("unbalanced source compiled to {:?}", g)),
        (Some(w), Ok(g)) => {
            let g64: Vec<u64> = g.iter().map(|x| *x as u64).collect();
            if &g64 != w {
                let at = g64.iter().zip(w).position(|(a, b)| a != b);
                bad(r, format!("differs from the reference at {:?}: got {:?} want {:?}", at, at.map(|i| g64[i]), at.map(|i| w[i])));
            } else {
                r.outcome("compiled");
            }
            r.state(&g64);
            // field form is the same sequence
            match guard(|| code::compile(src.to_vec())) {
                Ok(f) if f == frs(w) => {}
                o => bad(r, format!("compile() disagrees with compile_to_u16(): {:?}", o.map(|f| f.len()))),
            }
        }
        (Some(_), Err(e)) => {
            if fits == Some(true) {
                bad(r, format!("valid source refused: {}", e))
            } else {
                r.outcome("refused: address space");
            }
        }
    }
}

fn main() {
    mc::main("C01", |c| {
        // 1. every byte value, alone and between operators
        c.par_n("single-bytes", 256, |i, r| {
            for ctx in [&b""[..], b"+", b"[", b"[-]"] {
                let mut s = ctx.to_vec();
                s.push(i as u8);
                s.extend_from_slice(if ctx == b"[" { b"]" } else { b"." });
                check(&s, r);
            }
        });
        // 2. every source over the operators plus a comment byte
        let alpha = b"<>+-,.[]x";
        for len in 0..=c.pick(6, 8) {
            c.par_n(&format!("sources-len{}", len), pow(9, len), |i, r| {
                let s: Vec<u8> = word(i, 9, len).iter().map(|x| alpha[*x]).collect();
                check(&s, r);
                if i == 1234 {
                    r.sample(|| format!("{:?} -> {:?}", show(&s), ref_compile(&s)));
                }
            });
        }
        // 3. every bracket structure (with one kind of filler), deeper
        let alpha3 = b"[]+";
        for len in 7..=c.pick(11, 14) {
            c.par_n(&format!("bracket-structures-len{}", len), pow(3, len), |i, r| {
                let s: Vec<u8> = word(i, 3, len).iter().map(|x| alpha3[*x]).collect();
                check(&s, r);
            });
        }
        // 4. addresses: every offset near byte/word limits, every nesting depth
        let mut sizes: Vec<usize> = (0..=600).collect();
        for b in [1usize << 10, 1 << 12, 1 << 14, 1 << 15, 1 << 16] {
            sizes.extend(b - 8..=b + 8);
        }
        c.par("addresses", &sizes, |n, r| {
            let pad = vec![b'+'; *n];
            for (pre, mid, post) in [(&pad[..], &b""[..], &b""[..]), (b"", &pad, b""), (&pad, b"-", b"[.]"), (b"[", &pad, b"]")] {
                let mut s = pre.to_vec();
                s.push(b'[');
                s.extend_from_slice(mid);
                s.push(b']');
                s.extend_from_slice(post);
                check(&s, r);
            }
            check(&pad, r);
            // nesting depth n
            if *n <= 20000 {
                let mut s = vec![b'['; *n];
                s.extend(vec![b']'; *n]);
                check(&s, r);
                s.insert(*n, b'-');
                s.push(b'.');
                check(&s, r);
                // n loops in sequence
                let s: Vec<u8> = b"[-]".iter().cycle().take(3 * n).copied().collect();
                check(&s, r);
            }
        });
        // 5. the repository's own programs
        c.seq("repository-programs", |r| {
            for e in std::fs::read_dir("/repo/res").unwrap().flatten() {
                if e.path().extension().map(|x| x == "bf").unwrap_or(false) {
                    check(&std::fs::read(e.path()).unwrap(), r);
                }
            }
        });
    })
}
