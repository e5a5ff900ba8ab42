//! The enumerated family of VM executions shared by C02 and C03.
use crate::bf::*;
use crate::util::*;
use crate::*;

pub struct Case<'a> {
    pub src: &'a [u8],
    pub code: &'a [u64],
    pub input: &'a [u64],
    pub bits: u32,
    pub trace: &'a Trace,
    pub dev: bool,
}

/// Visit every execution of the bounded family. `f` gets the reference trace.
pub fn explore(c: &Ctx, f: &(dyn Fn(&Case, &mut Rec) + Sync)) {
    let visit = |src: &[u8], alpha: &[u64], bits: u32, fuel: usize, max_in: usize, r: &mut Rec| {
        let code = match ref_compile(src) {
            Some(x) if !x.is_empty() => x,
            _ => return,
        };
        for (input, trace) in all_inputs(&code, alpha, bits, fuel, max_in) {
            if trace.end == End::Fuel {
                r.outcome("beyond the step bound");
                continue;
            }
            r.label(format!("{} in={:?} bits={}", show(src).chars().take(120).collect::<String>(), input, bits));
            r.step(trace.rows.len() as u64);
            r.trace();
            let case = Case { src, code: &code, input: &input, bits, trace: &trace, dev: false };
            f(&case, r);
            // unread trailing input must not matter
            if trace.end == End::Halt && input.len() < 2 && src.len() <= 4 {
                let mut more = input.clone();
                more.push(7);
                let t2 = ref_run(&code, &more, bits, fuel);
                if t2.end == End::Halt {
                    f(&Case { src, code: &code, input: &more, bits, trace: &t2, dev: true }, r);
                }
            }
        }
    };
    for len in 1..=c.pick(6, 7) {
        c.par_n(&format!("programs-len{}", len), pow(8, len), |i, r| {
            if let Some(p) = program(i, len) {
                visit(&p, &[0, 1, 255], 8, 40, 3, r);
                if len <= 5 {
                    visit(&p, &[0, 1], 1, 40, 3, r);
                    visit(&p, &[0, 3], 2, 40, 3, r);
                }
            }
        });
    }
    // longer programs over a reduced operator set: pointer walks and nested loops
    for (name, alpha, lens) in [
        ("loops", &b"+-[]"[..], c.pick(7..=8, 7..=10)),
        ("walks", b"><+.", c.pick(7..=8, 7..=10)),
        ("loop-walk", b"+>[]<", c.pick(7..=8, 7..=9)),
    ] {
        for len in lens {
            c.par_n(&format!("{}-len{}", name, len), pow(alpha.len(), len), |i, r| {
                let p: Vec<u8> = word(i, alpha.len(), len).iter().map(|x| alpha[*x]).collect();
                visit(&p, &[], 8, 60, 0, r);
            });
        }
    }
    // every byte value through every operator and every loop shape
    c.par_n("byte-values", 256, |v, r| {
        let v = v as u64;
        for s in [
            ",", ",.", ",+.", ",-.", ",++.", ",--.", ",[-].", ",[+].", ",[.-]", ",>,<.>.", ",[>+<-]>.", ",[->+>+<<]>.>.", ">,<+.>.", ",>+<[-]>.",
            ",[[-]].", ",+[-].", ",-[+]>.", ",.,.", "+>,[-]<.",
        ] {
            visit(s.as_bytes(), &[v], 8, 4000, 2, r);
        }
    });
    // counters past every wrap, pointers past every table size
    let ns: Vec<usize> = c.pick((0..=40).chain(60..=70).chain(120..=132).chain(250..=260).chain(508..=516).collect(), (0..=600).collect());
    c.par("runs", &ns, |n, r| {
        let n = *n;
        for (op, tail) in [("+", "."), ("-", "."), ("+", "[-]."), (">", "+."), (">", "+[<]."), (">+", "[<]>.")] {
            let s = format!("{}{}", op.repeat(n), tail);
            visit(s.as_bytes(), &[], 8, 6000, 0, r);
        }
        let s = format!("{}{}+.", ">".repeat(n), "<".repeat(n));
        visit(s.as_bytes(), &[], 8, 4000, 0, r);
        let s = format!("{}{}", ">".repeat(n), "<".repeat(n + 1));
        visit(s.as_bytes(), &[], 8, 4000, 0, r);
        // a jump over n instructions, taken and not taken; back over n instructions
        for (a, b) in [("[", "]."), ("+[", "[-]]."), ("++[-", "[-]]+.")] {
            let s = format!("{}{}{}", a, ">".repeat(n), b);
            visit(s.as_bytes(), &[], 8, 6000, 0, r);
        }
        let s = format!("++[>{}<-]>.", "+".repeat(n));
        visit(s.as_bytes(), &[], 8, 6000, 0, r);
    });
    // addresses and pointers past every width a table or an index might have
    let ns: Vec<usize> = c.pick(vec![1022, 1025, 4094, 4097, 8195, 16387, 32770, 65520, 65528], {
        let mut v: Vec<usize> = (10..16).flat_map(|b| (1usize << b) - 6..(1usize << b) + 6).collect();
        v.extend(65500..65530);
        v
    });
    c.par("far", &ns, |n, r| {
        for s in [format!("[{}]+.", ">".repeat(*n)), format!("[{}]+[-].", "-".repeat(*n)), format!("{}-[+].", "<>".repeat(*n / 2).replace("<>", "><"))] {
            visit(s.as_bytes(), &[], 8, 140_000, 0, r);
        }
    });
    c.par("far-cells", &c.pick(vec![4097, 66000], vec![1025, 4097, 16385, 32769, 65537, 66000, 131073]), |n, r| {
        let s = format!("{}+.<.", ">".repeat(*n));
        visit(s.as_bytes(), &[], 8, 200_000, 0, r);
    });
    // long inputs: consumption order
    c.par_n("long-inputs", 40, |n, r| {
        let input: Vec<u64> = (0..n as u64).map(|i| (i * 37 + 1) % 256).collect();
        for s in [",.".repeat(n), ",[.,]".to_string(), ",>".repeat(n)] {
            let mut input = input.clone();
            if s == ",[.,]" {
                input.push(0);
            }
            let code = match ref_compile(s.as_bytes()) {
                Some(x) if !x.is_empty() => x,
                _ => continue,
            };
            let t = ref_run(&code, &input, 8, 100000);
            r.label(format!("{} on {} inputs", s, input.len()));
            f(&Case { src: s.as_bytes(), code: &code, input: &input, bits: 8, trace: &t, dev: false }, r);
        }
    });
    // the repository's own programs (those that end within the bound)
    c.seq("repository-programs", |r| {
        let mut names: Vec<_> = std::fs::read_dir("/repo/res").unwrap().flatten().map(|e| e.path()).collect();
        names.sort();
        for p in names {
            if p.extension().map(|x| x == "bf").unwrap_or(false) {
                let src = std::fs::read(&p).unwrap();
                for input in [vec![], vec![97], vec![97, 98, 0], vec![50, 10, 51, 10, 0]] {
                    let code = ref_compile(&src).unwrap();
                    let t = ref_run(&code, &input, 8, c.pick(40_000, 400_000));
                    if t.end != End::Fuel {
                        r.label(format!("{} in={:?}", p.display(), input));
                        r.step(t.rows.len() as u64);
                        r.trace();
                        f(&Case { src: &src, code: &code, input: &input, bits: 8, trace: &t, dev: false }, r);
                    }
                }
            }
        }
    });
}
