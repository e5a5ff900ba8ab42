//! C09: program file -> prover binary -> transaction -> on-chain script, end to end.
use mc::bf::*;
use mc::util::*;
use mc::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

const BIN: &[u8] = b"stand-in for the script's binary";

fn root() -> String {
    let d = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    format!("{}/target/scratch-c09-{}", d, std::process::id())
}
fn exe(n: &str) -> String {
    let d = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    format!("{}/target/debug/{}", d, n)
}

#[derive(Clone)]
struct Tx {
    w: Vec<Vec<u8>>,
}

fn hex(s: &str) -> Vec<u8> {
    let s = s.trim_start_matches("0x");
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Runs the prover; Ok(None) when it refuses (fails and writes no transaction).
fn prove(name: &str, src: &[u8], arg: Option<&str>) -> Result<Option<Tx>, String> {
    let d = format!("{}/{}", root(), name);
    let rel = format!("{}/target/riscv64imac-unknown-none-elf/release", d);
    std::fs::create_dir_all(&rel).unwrap();
    std::fs::create_dir_all(format!("{}/res", d)).unwrap();
    std::fs::write(format!("{}/ckb_bf_verifier", rel), BIN).unwrap();
    std::fs::write(format!("{}/p.bf", d), src).unwrap();
    let mut c = Command::new(exe("prover"));
    c.current_dir(&d).arg("p.bf").env("RUST_BACKTRACE", "0").env_remove("RUST_LOG").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some(a) = arg {
        c.arg(a);
    }
    let st = c.status().expect("prover starts");
    let tx = std::fs::read(format!("{}/res/tx.json", d)).ok();
    let res = match (st.success(), tx) {
        (true, Some(t)) => {
            let v: serde_json::Value = serde_json::from_slice(&t).map_err(|e| format!("tx.json: {}", e))?;
            let w = v["tx"]["witnesses"].as_array().ok_or("no witnesses")?;
            let w: Vec<Vec<u8>> = w.iter().map(|x| hex(x.as_str().unwrap())).collect();
            if w.len() < 5 {
                return Err("fewer than five witnesses".into());
            }
            let data = hex(v["mock_info"]["cell_deps"][0]["data"].as_str().unwrap_or(""));
            if data != BIN {
                return Err("the transaction does not carry the script's binary".into());
            }
            let want = blake2b_simd::Params::new().hash_length(32).personal(b"ckb-default-hash").hash(BIN);
            let got = hex(v["mock_info"]["inputs"][0]["output"]["lock"]["code_hash"].as_str().unwrap_or(""));
            if got != want.as_bytes() {
                return Err("the input is not locked by the script's hash".into());
            }
            Ok(Some(Tx { w: w[..5].to_vec() }))
        }
        (false, None) => Ok(None),
        (ok, t) => Err(format!("prover success={} but transaction written={}", ok, t.is_some())),
    };
    let _ = std::fs::remove_dir_all(&d);
    res
}

/// A running host build of the script.
struct Script {
    c: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
    dir: String,
}
impl Script {
    fn new(id: usize) -> Self {
        let dir = format!("{}/v{}", root(), id);
        std::fs::create_dir_all(&dir).unwrap();
        let mut c = Command::new(exe("verifier")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("verifier starts");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        Script { c, i, o, dir }
    }
    fn run(&mut self, w: &[Option<Vec<u8>>]) -> String {
        for (j, x) in w.iter().enumerate() {
            let p = format!("{}/w{}", self.dir, j);
            match x {
                Some(b) => std::fs::write(&p, b).unwrap(),
                None => {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
        let d = self.dir.clone();
        writeln!(self.i, "{}", d).unwrap();
        self.i.flush().unwrap();
        let mut l = String::new();
        if self.o.read_line(&mut l).unwrap_or(0) == 0 {
            return "died".into();
        }
        l.trim().to_string()
    }
}
impl Drop for Script {
    fn drop(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}

fn full(t: &Tx) -> Vec<Option<Vec<u8>>> {
    t.w.iter().cloned().map(Some).collect()
}

fn main() {
    mc::main("C09", |c| {
        c.case_limit(600);
        c.assume("the script is compiled unchanged for the host; load_witness is a stand-in with the syscall's documented behaviour");
        c.assume("parameters and verifying key come with the transaction: pinning them is outside the script");
        let _ = std::fs::create_dir_all(root());
        let mut items: Vec<(Vec<u8>, Option<String>)> = vec![];
        let mut add = |p: &[u8], a: Option<&str>| items.push((p.to_vec(), a.map(|x| x.to_string())));
        // the largest program and input the script's buffers hold
        let many: String = (0..1024).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        add(&vec![b','; 1024], Some(&many));
        // tables that just fit / do not fit 2^9 rows with the rows the circuit reserves
        for n in c.pick(vec![251usize, 252, 255], vec![248, 249, 250, 251, 252, 253, 254, 255, 256, 507, 508]) {
            add(&vec![b'+'; n], None);
        }
        let named: [(&[u8], Option<&str>); 16] = [
            (b"+", None),
            (b"[-]", Some("")),
            (b"+[-]", None),
            (b",.", Some("a")),
            (b",.", Some("b")),
            (b",.,.", Some("\u{e9}")),
            (b"+>-<.>.", None),
            (b"a + b\nc -. (x)", None),
            (b"+[>+[-]<-]", None),
            (b",>,<.>.", Some("zq")),
            (b",", Some("ab")),
            (b",.", None),
            (b"<", None),
            (b"+]", None),
            (b"[+", None),
            (b"-[[-]]>", None),
        ];
        for (p, a) in named {
            add(p, a);
        }
        if c.thorough() {
            for len in 1..=2 {
                for i in 0..pow(8, len) {
                    if let Some(p) = program(i, len) {
                        let n = p.iter().filter(|x| **x == b',').count();
                        add(&p, if n == 0 { None } else { Some(&"xy"[..n]) });
                    }
                }
            }
        }
        let txs: Mutex<Vec<(usize, Tx)>> = Mutex::new(vec![]);
        let pool: Mutex<Vec<Script>> = Mutex::new((0..8).map(Script::new).collect());
        let next = std::sync::atomic::AtomicUsize::new(0);
        c.par("programs", &items, |it, r| {
            let (p, a) = it;
            let id = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let key = format!("program {:?} input {:?}", if p.len() > 40 { format!("{}*{}", p[0] as char, p.len()) } else { show(p) }, a.as_ref().map(|x| if x.len() > 20 { "1024 letters" } else { x }));
            r.label(&key);
            r.case(|r| {
                let input: Vec<u64> = a.as_deref().unwrap_or("").bytes().map(|x| x as u64).collect();
                let want = match ref_compile(p) {
                    None => None,
                    Some(code) => {
                        let t = ref_run(&code, &input, 8, 1 << 16);
                        (t.end == End::Halt && t.inputs.len() == input.len()).then(|| code)
                    }
                };
                let got = prove(&format!("p{}", id), p, a.as_deref())?;
                r.state(&(&key, got.is_some()));
                match (want, got) {
                    (None, None) => r.outcome("refused"),
                    (None, Some(_)) => return Err("a transaction was written for a run that has no proof".into()),
                    (Some(_), None) => return Err("no transaction is written for a halting run that consumes its input".into()),
                    (Some(code), Some(tx)) => {
                        let w3: Vec<u8> = code.iter().flat_map(|x| (*x as u16).to_le_bytes()).collect();
                        if tx.w[3] != w3 {
                            return Err("the program witness is not the program".into());
                        }
                        if tx.w[4] != a.as_deref().unwrap_or("").as_bytes() {
                            return Err("the input witness is not the input".into());
                        }
                        let mut s = pool.lock().unwrap().pop().unwrap();
                        let rc = s.run(&full(&tx));
                        pool.lock().unwrap().push(s);
                        if rc != "rc 0" {
                            return Err(format!("the script does not succeed on the tool's own transaction: {}", rc));
                        }
                        r.outcome("accepted");
                        r.sample(|| format!("{} -> witnesses of {:?} bytes, rc 0", key, tx.w.iter().map(|x| x.len()).collect::<Vec<_>>()));
                        txs.lock().unwrap().push((items.iter().position(|x| std::ptr::eq(x, it)).unwrap(), tx));
                    }
                }
                Ok(())
            });
        });
        let mut txs = txs.into_inner().unwrap();
        txs.sort_by_key(|x| x.0);
        let find = |p: &[u8], a: Option<&str>| txs.iter().find(|(i, _)| items[*i].0 == p && items[*i].1.as_deref() == a).map(|x| x.1.clone());
        if let (false, Some(a), Some(b), Some(d), Some(e)) = (c.stopped(), find(b",.", Some("a")), find(b",.", Some("b")), find(b"+[-]", None), find(b",>,<.>.", Some("zq"))) {
            let mut cases: Vec<(String, Vec<Option<Vec<u8>>>)> = vec![];
            let put = |t: &Tx, j: usize, v: Option<Vec<u8>>| {
                let mut w = full(t);
                w[j] = v;
                w
            };
            for (n, t) in [("A", &a), ("D", &d), ("E", &e)] {
                if n == "A" || c.thorough() {
                    for i in 0..t.w[2].len() {
                        for m in c.pick(vec![1u8], vec![1, 2, 4, 8, 16, 32, 64, 128]) {
                            let mut x = t.w[2].clone();
                            x[i] ^= m;
                            cases.push((format!("{}: proof byte {} ^ {}", n, i, m), put(t, 2, Some(x))));
                        }
                    }
                }
                for j in [3usize, 4] {
                    for i in 0..t.w[j].len() {
                        for b in 0..8 {
                            let mut x = t.w[j].clone();
                            x[i] ^= 1 << b;
                            cases.push((format!("{}: witness {} byte {} bit {}", n, j, i, b), put(t, j, Some(x))));
                        }
                        let mut x = t.w[j].clone();
                        x.remove(i);
                        cases.push((format!("{}: witness {} without byte {}", n, j, i), put(t, j, Some(x.clone()))));
                        if i < x.len() {
                            x.remove(i);
                            cases.push((format!("{}: witness {} without bytes {},{}", n, j, i, i + 1), put(t, j, Some(x))));
                        }
                    }
                    for i in 0..=t.w[j].len() {
                        for v in [vec![0u8], vec![b'+', 0], vec![0, 0], vec![b',']] {
                            let mut x = t.w[j].clone();
                            for (o, y) in v.iter().enumerate() {
                                x.insert(i + o, *y);
                            }
                            cases.push((format!("{}: witness {} with {:?} inserted at {}", n, j, v, i), put(t, j, Some(x))));
                        }
                    }
                    // fill the script's buffer exactly, and exceed it
                    for l in [1022usize, 1024, 1026, 2046, 2048, 2050] {
                        let mut x = t.w[j].clone();
                        x.resize(l, 0);
                        cases.push((format!("{}: witness {} padded to {}", n, j, l), put(t, j, Some(x))));
                    }
                }
                for j in 0..5 {
                    cases.push((format!("{}: witness {} missing", n, j), put(t, j, None)));
                    if !t.w[j].is_empty() {
                        cases.push((format!("{}: witness {} empty", n, j), put(t, j, Some(vec![]))));
                    }
                    let l = t.w[j].len();
                    let cuts: Vec<usize> = if j < 2 || c.thorough() { (0..l).collect() } else { (0..l).filter(|x| x % 32 < 2 || x + 2 > l).collect() };
                    for x in cuts {
                        cases.push((format!("{}: witness {} cut to {}", n, j, x), put(t, j, Some(t.w[j][..x].to_vec()))));
                    }
                    for i in 0..j {
                        let mut w = full(t);
                        w.swap(i, j);
                        cases.push((format!("{}: witnesses {} and {} swapped", n, i, j), w));
                    }
                }
            }
            // witnesses exchanged between transactions: every subset
            let named = [("A", &a), ("B", &b), ("D", &d), ("E", &e)];
            for (n, x) in named {
                for (m, y) in named {
                    for s in 1..31u32 {
                        let w: Vec<Vec<u8>> = (0..5).map(|j| if s >> j & 1 == 1 { y.w[j].clone() } else { x.w[j].clone() }).collect();
                        if w == x.w || w == y.w {
                            continue;
                        }
                        cases.push((format!("{} with witnesses {:05b} of {}", n, s, m), w.into_iter().map(Some).collect()));
                    }
                }
            }
            cases.retain(|(_, w)| named.iter().all(|(_, t)| full(t) != *w));
            c.par("altered-witnesses", &cases, |(key, w), r| {
                r.label(key);
                let mut s = pool.lock().unwrap().pop().unwrap();
                let rc = s.run(w);
                pool.lock().unwrap().push(s);
                r.trace();
                r.step(1);
                r.state(key);
                r.outcome(if rc.starts_with("rc") { &rc } else { "panic" });
                if rc == "rc 0" || rc == "died" {
                    r.violation(key, format!("the script answers {}", rc));
                }
            });
        }
        drop(pool);
        let _ = std::fs::remove_dir_all(root());
    })
}
