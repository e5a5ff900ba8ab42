//! The Brainfuck circuit under an adversarial prover: helpers shared by the
//! circuit checks.
use crate::bf::*;
use crate::plonkref::*;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_vm::matrix::Matrix;
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::{Any, Column};
use halo2curves::bn256::Fr;

pub struct Bfc<const R: usize> {
    pub shape: Shape<Fr, MyCircuit<Fr, R>>,
    pub ch: Vec<Fr>,
    pub ch2: Vec<Fr>,
    pub k: u32,
    pub bits: u32,
    pub sum_gamma: Vec<Vec<Fr>>,
}

pub fn instance(code: &[Fr], input: &[Fr]) -> Vec<Vec<Fr>> {
    let mut c = vec![fr(code.len() as u64)];
    c.extend_from_slice(code);
    let mut i = vec![fr(input.len() as u64)];
    i.extend_from_slice(input);
    vec![c, i]
}

pub fn clone_matrix(m: &Matrix) -> Matrix {
    use ckb_bf_vm::matrix::*;
    let mut o = Matrix::default();
    o.processor_matrix = m.processor_matrix.clone();
    o.input_matrix = m.input_matrix.clone();
    o.output_matrix = m.output_matrix.clone();
    o.program = m.program.clone();
    for r in &m.instruction_matrix {
        o.instruction_matrix.push(InstructionMatrixRow {
            instruction_pointer: r.instruction_pointer,
            current_instruction: r.current_instruction,
            next_instruction: r.next_instruction,
        });
    }
    for r in &m.memory_matrix {
        o.memory_matrix.push(MemoryMatrixRow {
            cycle: r.cycle,
            memory_pointer: r.memory_pointer,
            memory_value: r.memory_value,
            interweave_indicator: r.interweave_indicator,
        });
    }
    o
}

impl<const R: usize> Bfc<R> {
    pub fn new(k: u32) -> Self {
        let shape = Shape::new();
        let n = shape.cs.num_challenges();
        let mut b = Bfc { ch: challenges(n, 1), ch2: challenges(n, 77), shape, k, bits: R.trailing_zeros(), sum_gamma: vec![] };
        b.sum_gamma = b.find_sums();
        b
    }
    pub fn grid(&self, m: Matrix, inst: &[Vec<Fr>]) -> Option<Grid<Fr>> {
        // a witness on which synthesis itself fails (error or panic) yields no proof
        crate::guard(|| self.shape.grid(self.k, &MyCircuit::new(m), inst, &self.ch).ok()).ok().flatten()
    }
    /// Rows that can matter: everything assigned (plus neighbours) and the end.
    pub fn rows(&self, g: &Grid<Fr>) -> Vec<usize> {
        let mut hi = g.assigned.iter().map(|x| x.1).max().unwrap_or(0);
        for v in g.sel.values() {
            if let Some(p) = v.iter().rposition(|b| *b) {
                hi = hi.max(p);
            }
        }
        let a = (hi + 3).min(g.usable);
        (0..a).chain((g.usable - 3).max(a)..g.usable).collect()
    }
    pub fn accepts_grid(&self, g: &Grid<Fr>) -> bool {
        check_rows(&self.shape.cs, g, &self.rows(g)).is_none()
    }
    /// Does the circuit accept this witness, with the running products/sums either as the repository
    /// computes them or adapted by the prover? The prover knows the challenges when it fills the
    /// second-phase columns, so where two of them are linked it may overwrite either end, alone or
    /// together with everything after some row of that column.
    pub fn accepts(&self, m: Matrix, inst: &[Vec<Fr>]) -> bool {
        match self.grid(m, inst) {
            None => false,
            Some(mut g) => self.accepts_adapted(&mut g),
        }
    }
    pub fn accepts_adapted(&self, g: &mut Grid<Fr>) -> bool {
        self.adapt(g, true)
    }
    /// As above, but cells linked to public values keep what they have.
    pub fn accepts_kept(&self, g: &mut Grid<Fr>) -> bool {
        self.adapt(g, false)
    }
    fn adapt(&self, g: &mut Grid<Fr>, follow_instance: bool) -> bool {
        let cs = &self.shape.cs;
        let rows = self.rows(g);
        // anything but a second-phase advice link that is broken stays broken
        let mut links = vec![];
        for (lc, lr, rc, rr) in g.copies.clone() {
            if cell(g, &lc, lr) != cell(g, &rc, rr) && (dropped().is_empty() || dropped() != copy_name(&lc, lr, &rc, rr)) {
                let late = |c: &Column<Any>| matches!(c.column_type(), Any::Advice(_)) && g.advice_phase[c.index()] > 0;
                // a cell that should equal a public value can simply be given that value
                match (lc.column_type(), rc.column_type()) {
                    (Any::Advice(_), Any::Instance) if follow_instance => {
                        g.advice[lc.index()][lr] = cell(g, &rc, rr);
                        continue;
                    }
                    (Any::Instance, Any::Advice(_)) if follow_instance => {
                        g.advice[rc.index()][rr] = cell(g, &lc, lr);
                        continue;
                    }
                    _ => {}
                }
                if !late(&lc) || !late(&rc) {
                    return false;
                }
                links.push(((lc.index(), lr), (rc.index(), rr)));
            }
        }
        if let Some(f) = check_gates(cs, g, &rows) {
            // honest running columns satisfy their own gates: a violated one is for good
            let _ = f;
            return false;
        }
        if links.is_empty() {
            return check_copies(g).is_none();
        }
        if links.len() > 5 {
            return false;
        }
        // each broken link is repaired at one of its ends
        for mask in 0..1u32 << links.len() {
            let cells: Vec<((usize, usize), (usize, usize))> =
                links.iter().enumerate().map(|(i, (a, b))| if mask >> i & 1 == 0 { (*a, *b) } else { (*b, *a) }).collect();
            // overwrite the linked cell only
            let saved: Vec<Fr> = cells.iter().map(|(a, _)| g.advice[a.0][a.1]).collect();
            for (a, b) in &cells {
                g.advice[a.0][a.1] = g.advice[b.0][b.1];
            }
            let ok = check_copies(g).is_none() && check_gates(cs, g, &rows).is_none();
            for ((a, _), v) in cells.iter().zip(&saved) {
                g.advice[a.0][a.1] = *v;
            }
            if ok {
                return true;
            }
        }
        if links.len() == 1 {
            // rescale one column from some row on
            for (a, b) in [(links[0].0, links[0].1), (links[0].1, links[0].0)] {
                let (from, to) = (g.advice[a.0][a.1], g.advice[b.0][b.1]);
                let lam = to * inverse(from);
                let col = g.advice[a.0].clone();
                for i in (0..a.1).rev() {
                    g.advice[a.0] = col.clone();
                    for j in i..=a.1 {
                        g.advice[a.0][j] = col[j] * lam;
                    }
                    let near: Vec<usize> = (i.saturating_sub(1)..(i + 2).min(g.usable)).collect();
                    if check_gates(cs, g, &near).is_none() && check_copies(g).is_none() && check_gates(cs, g, &rows).is_none() {
                        g.advice[a.0] = col;
                        return true;
                    }
                }
                // shift a running sum from some row on
                for gamma in &self.sum_gamma[a.0] {
                    let gi = inverse(*gamma);
                    let mut d = to - from;
                    g.advice[a.0] = col.clone();
                    g.advice[a.0][a.1] = to;
                    for i in (0..a.1).rev() {
                        if col[i + 1] != col[i] {
                            d *= gi;
                        }
                        g.advice[a.0][i] = col[i] + d;
                        let near: Vec<usize> = (i.saturating_sub(1)..(i + 2).min(g.usable)).collect();
                        if check_gates(cs, g, &near).is_none() && check_copies(g).is_none() && check_gates(cs, g, &rows).is_none() {
                            g.advice[a.0] = col;
                            return true;
                        }
                    }
                }
                g.advice[a.0] = col;
            }
        }
        false
    }
    /// For each second-phase column, the challenges for which it is a running sum (its gates do not
    /// notice a shift that grows by that challenge).
    fn find_sums(&self) -> Vec<Vec<Fr>> {
        let mut out = vec![vec![]; self.shape.cs.num_advice_columns()];
        let code = ref_compile(b",.,.").unwrap();
        let input = [1u64, 2];
        let vm = crate::guard(|| vm_run(&code, &input, Some(self.bits as u64)).matrix);
        let g0 = match vm.ok().and_then(|m| self.grid(m, &instance(&frs(&code), &frs(&input)))) {
            Some(g) => g,
            None => return out,
        };
        let all: Vec<usize> = (0..g0.usable).collect();
        for c in 0..out.len() {
            if g0.advice_phase[c] == 0 {
                continue;
            }
            let top = g0.assigned.iter().filter(|x| x.0 == c).map(|x| x.1).max().unwrap_or(0);
            for gamma in &self.ch {
                let mut g = g0.clone();
                let mut d = Fr::one();
                for j in 0..=top {
                    g.advice[c][j] = g0.advice[c][j] + d;
                    if j < top && g0.advice[c][j + 1] != g0.advice[c][j] {
                        d *= gamma;
                    }
                }
                if check_gates(&self.shape.cs, &g, &all).is_none() {
                    out[c].push(*gamma);
                }
            }
        }
        out
    }
    pub fn mock(&self, m: Matrix, inst: &[Vec<Fr>]) -> bool {
        crate::guard(|| match MockProver::run(self.k, &MyCircuit::<Fr, R>::new(m), inst.to_vec()) {
            Err(_) => false,
            Ok(p) => p.verify().is_ok(),
        })
        .unwrap_or(false)
    }
    pub fn halting(&self, code: &[u64], input: &[u64], fuel: usize) -> Option<Trace> {
        let t = ref_run(code, input, self.bits, fuel);
        if t.end == End::Halt && t.inputs.len() == input.len() {
            Some(t)
        } else {
            None
        }
    }
}

/// A forged (or honest) prover strategy: processor rows plus the IO tables.
#[derive(Clone, PartialEq, Debug)]
pub struct Forge {
    pub rows: Vec<[Fr; 7]>,
    pub inputs: Vec<Fr>,
    pub outputs: Vec<Fr>,
    /// code as shown in the instruction table (normally the program)
    pub icode: Vec<Fr>,
    /// address of the first instruction in the instruction table (normally 0)
    pub ibase: i64,
    /// what follows the last instruction (normally 0)
    pub itail: Fr,
    /// rows (ip, ci, ni) shown to the instruction table instead of the processor's
    pub irows: Option<Vec<[Fr; 3]>>,
    /// processor row listed first among the instruction table's rows of its address
    pub ifirst: Option<usize>,
}

impl Forge {
    pub fn matrix(&self, code: &[Fr]) -> Matrix {
        let mut m = matrix_of(&self.icode, &self.rows, &self.inputs, &self.outputs);
        m.program = code.to_vec();
        if let Some(irows) = &self.irows {
            use ckb_bf_vm::matrix::InstructionMatrixRow;
            m.instruction_matrix.truncate(0);
            for i in 0..self.icode.len() {
                m.instruction_matrix.push(InstructionMatrixRow {
                    instruction_pointer: fr(i as u64),
                    current_instruction: self.icode[i],
                    next_instruction: self.icode.get(i + 1).copied().unwrap_or(Fr::zero()),
                });
            }
            for r in irows {
                m.instruction_matrix.push(InstructionMatrixRow { instruction_pointer: r[0], current_instruction: r[1], next_instruction: r[2] });
            }
            m.instruction_matrix.sort_by_key(|x| x.instruction_pointer);
        }
        if self.ibase != 0 || self.itail != Fr::zero() {
            use ckb_bf_vm::matrix::InstructionMatrixRow;
            let n = self.icode.len();
            let mut t: Vec<(i64, InstructionMatrixRow)> = vec![];
            for i in 0..n {
                let ip = i as i64 + self.ibase;
                t.push((ip, InstructionMatrixRow { instruction_pointer: fri(ip), current_instruction: self.icode[i], next_instruction: if i + 1 < n { self.icode[i + 1] } else { self.itail } }));
            }
            for r in &self.rows {
                let ip = (-4..4 * n as i64 + 8).find(|x| fri(*x) == r[1]).unwrap_or(0);
                t.push((ip, InstructionMatrixRow { instruction_pointer: r[1], current_instruction: r[2], next_instruction: r[3] }));
            }
            t.sort_by_key(|x| x.0);
            m.instruction_matrix = t.into_iter().map(|x| x.1).collect();
        }
        if let Some(i) = self.ifirst {
            let w = &self.rows[i];
            let t = &mut m.instruction_matrix;
            if let Some(p) = t.iter().position(|x| [x.instruction_pointer, x.current_instruction, x.next_instruction] == w[1..4]) {
                let x = t.remove(p);
                let q = t.iter().position(|y| y.instruction_pointer == w[1]).unwrap_or(p);
                t.insert(q, x);
            }
        }
        m
    }
}

/// Machine state for continuing after a deviation.
#[derive(Clone)]
pub struct St {
    pub clk: i64,
    pub ip: i64,
    pub mp: i64,
    pub mem: std::collections::BTreeMap<i64, i64>,
    pub inp: usize,
}

pub fn fri(v: i64) -> Fr {
    if v >= 0 {
        Fr::from(v as u64)
    } else {
        -Fr::from((-v) as u64)
    }
}

/// Continue executing `code` from `s` (already recorded as last row), appending
/// rows; cells may be negative here (a cheating prover does not care).
pub fn continue_run(code: &[u64], s: &mut St, input: &[u64], m: i64, fuel: usize, f: &mut Forge) {
    let n = code.len() as i64;
    for _ in 0..fuel {
        if s.ip < 0 || s.ip >= n {
            return;
        }
        let c = *s.mem.get(&s.mp).unwrap_or(&0);
        let ni = *code.get(s.ip as usize + 1).unwrap_or(&0) as i64;
        match code[s.ip as usize] as u8 {
            b'>' => {
                s.mp += 1;
                s.ip += 1
            }
            b'<' => {
                s.mp -= 1;
                s.ip += 1
            }
            b'+' => {
                s.mem.insert(s.mp, (c + 1).rem_euclid(m));
                s.ip += 1
            }
            b'-' => {
                s.mem.insert(s.mp, (c - 1).rem_euclid(m));
                s.ip += 1
            }
            b',' => {
                if s.inp >= input.len() {
                    return;
                }
                s.mem.insert(s.mp, input[s.inp] as i64);
                f.inputs.push(fr(input[s.inp]));
                s.inp += 1;
                s.ip += 1
            }
            b'.' => {
                f.outputs.push(fri(c));
                s.ip += 1
            }
            b'[' => s.ip = if c == 0 { ni } else { s.ip + 2 },
            b']' => s.ip = if c != 0 { ni } else { s.ip + 2 },
            _ => return,
        }
        s.clk += 1;
        push_row(code, s, f);
    }
}

pub fn push_row(code: &[u64], s: &St, f: &mut Forge) {
    let at = |i: i64| if i >= 0 && (i as usize) < code.len() { code[i as usize] } else { 0 };
    let mv = fri(*s.mem.get(&s.mp).unwrap_or(&0));
    f.rows.push([fri(s.clk), fri(s.ip), fr(at(s.ip)), if s.ip >= code.len() as i64 { fr(0) } else { fr(at(s.ip + 1)) }, fri(s.mp), mv, inverse(mv)]);
}

/// All one-deviation forgeries of the run of `code` on `input` (and the honest run first).
pub fn forgeries(code: &[u64], input: &[u64], m: i64, fuel: usize, visit: &mut dyn FnMut(&str, Forge)) {
    let icode = frs(code);
    let fresh = || Forge { rows: vec![], inputs: vec![], outputs: vec![], icode: icode.clone(), ibase: 0, itail: Fr::zero(), irows: None, ifirst: None };
    // honest-looking run (may run out of fuel)
    let mut f = fresh();
    let mut s = St { clk: 0, ip: 0, mp: 0, mem: Default::default(), inp: 0 };
    push_row(code, &s, &mut f);
    let mut states = vec![s.clone()];
    let mut prefixes = vec![f.clone()];
    loop {
        let l = f.rows.len();
        continue_run(code, &mut s, input, m, 1, &mut f);
        if f.rows.len() == l || l > fuel {
            break;
        }
        states.push(s.clone());
        prefixes.push(f.clone());
    }
    visit("honest", f.clone());
    // truncations
    for (i, p) in prefixes.iter().enumerate() {
        if p.rows.len() < f.rows.len() {
            visit(&format!("stop@{}", i), p.clone());
        }
    }
    let n = code.len() as i64;
    for i in 0..states.len() {
        let base = &states[i];
        let mut pre = prefixes[i].clone();
        pre.rows.pop();
        let mut alts: Vec<(String, St)> = vec![];
        for ip in -1..=n + 1 {
            if ip != base.ip {
                let mut t = base.clone();
                t.ip = ip;
                alts.push((format!("row{}:ip={}", i, ip), t));
            }
        }
        for dmp in [-2i64, -1, 1, 2] {
            let mut t = base.clone();
            t.mp += dmp;
            alts.push((format!("row{}:mp{:+}", i, dmp), t.clone()));
            // bring the value along
            let v = *base.mem.get(&base.mp).unwrap_or(&0);
            if v != 0 {
                t.mem.insert(t.mp, v);
                alts.push((format!("row{}:mp{:+},mv={}", i, dmp, v), t));
            }
        }
        let cur = *base.mem.get(&base.mp).unwrap_or(&0);
        for mv in -1..=m {
            if mv != cur && (m <= 4 || [-1, 0, 1, cur - 1, cur + 1, m - 1, m].contains(&mv)) {
                let mut t = base.clone();
                t.mem.insert(t.mp, mv);
                alts.push((format!("row{}:mv={}", i, mv), t));
            }
        }
        for d in [-1i64, 1] {
            let mut t = base.clone();
            t.clk += d;
            alts.push((format!("row{}:clk{:+}", i, d), t));
        }
        // read a different byte / skip an input
        if base.inp < input.len() {
            let mut t = base.clone();
            t.inp += 1;
            alts.push((format!("row{}:skip-input", i), t));
        }
        if base.inp > 0 {
            let mut t = base.clone();
            t.inp -= 1;
            alts.push((format!("row{}:reread-input", i), t));
        }
        for (name, t) in alts {
            // (a) the machine goes on from the deviating state
            let mut g = pre.clone();
            let mut t2 = t.clone();
            push_row(code, &t2, &mut g);
            continue_run(code, &mut t2, input, m, fuel, &mut g);
            if g.rows != f.rows || g.inputs != f.inputs {
                visit(&name, g);
            }
            // (b) only this row deviates
            let mut h = f.clone();
            let mut one = fresh();
            push_row(code, &t, &mut one);
            if h.rows[i] != one.rows[0] {
                h.rows[i] = one.rows[0];
                visit(&format!("{}(only)", name), h);
            }
        }
        // wrong instruction or operand fetched
        for ci in OPS.iter().map(|b| *b as u64).chain([0]) {
            if fr(ci) != f.rows[i][2] {
                let mut h = f.clone();
                h.rows[i][2] = fr(ci);
                visit(&format!("row{}:ci={}", i, ci), h.clone());
                let ip = base.ip as usize;
                // consistently in every row of this address
                if base.ip >= 0 && ip < code.len() {
                    h.icode[ip] = fr(ci);
                    for r in h.rows.iter_mut() {
                        if r[1] == fri(base.ip) {
                            r[2] = fr(ci);
                        }
                    }
                    visit(&format!("row{}:ci={}(all)", i, ci), h);
                }
            }
        }
        for ni in 0..=(n as u64) {
            if fr(ni) != f.rows[i][3] {
                let mut h = f.clone();
                h.rows[i][3] = fr(ni);
                visit(&format!("row{}:ni={}", i, ni), h);
            }
        }
        // another instruction (or operand) is executed at this row, and the machine goes on from there
        if base.ip >= 0 && (base.ip as usize) < code.len() {
            let ip = base.ip as usize;
            let mut variants: Vec<(String, Vec<u64>)> = vec![];
            for op in OPS.iter().map(|b| *b as u64) {
                if op != code[ip] {
                    let mut c2 = code.to_vec();
                    c2[ip] = op;
                    variants.push((format!("row{}:exec={}", i, op as u8 as char), c2));
                }
            }
            if ip + 1 < code.len() && (code[ip] == b'[' as u64 || code[ip] == b']' as u64) {
                for t in 0..=n as u64 {
                    if t != code[ip + 1] {
                        let mut c2 = code.to_vec();
                        c2[ip + 1] = t;
                        variants.push((format!("row{}:target={}", i, t), c2));
                    }
                }
            }
            for (name, c2) in variants {
                let mut g = pre.clone();
                let mut t = base.clone();
                push_row(&c2, &t, &mut g);
                continue_run(&c2, &mut t, input, m, 1, &mut g);
                if g.rows.len() > i + 1 {
                    // the row after is fetched from the real program
                    g.rows.pop();
                    push_row(code, &t, &mut g);
                    continue_run(code, &mut t, input, m, fuel, &mut g);
                    visit(&name, g.clone());
                    let mut h = g.clone();
                    h.ifirst = Some(i);
                    visit(&format!("{}(first)", name), h);
                    // ... with the operand, or the address, making up for the difference
                    let diff = fr(c2[ip]) - fr(code[ip]);
                    if diff != Fr::zero() {
                        for (w, col) in [("ni", 3), ("ip", 1)] {
                            let mut h = g.clone();
                            let mut seen: Vec<[Fr; 3]> = h.rows.iter().map(|w| [w[1], w[2], w[3]]).collect();
                            seen[i] = [f.rows[i][1], f.rows[i][2], f.rows[i][3]];
                            h.rows[i][col] = f.rows[i][col] - diff;
                            h.irows = Some(seen);
                            visit(&format!("{}(made up by {})", name, w), h);
                        }
                    }
                    // ... and the instruction table shows the other program
                    let mut h = g.clone();
                    h.icode = frs(&c2);
                    for w in h.rows.iter_mut() {
                        for a in 0..c2.len() {
                            if w[1] == fri(a as i64) {
                                w[2] = fr(c2[a]);
                                w[3] = fr(*c2.get(a + 1).unwrap_or(&0));
                            }
                        }
                    }
                    visit(&format!("{}(table)", name), h);
                }
            }
        }
        // inverse hint
        for d in [fr(0), fr(1), f.rows[i][6] + fr(1)] {
            if d != f.rows[i][6] {
                let mut h = f.clone();
                h.rows[i][6] = d;
                visit(&format!("row{}:mvi", i), h);
            }
        }
    }
    // the instruction table is placed at another address
    for base in [-2i64, -1, 1] {
        if code.len() as i64 + base <= 0 {
            continue;
        }
        // what the machine sees from address 0 on
        let seen: Vec<u64> = if base < 0 { code[(-base) as usize..].to_vec() } else { std::iter::repeat(0).take(base as usize).chain(code.iter().cloned()).collect() };
        let mut g = fresh();
        let mut s = St { clk: 0, ip: 0, mp: 0, mem: Default::default(), inp: 0 };
        push_row(&seen, &s, &mut g);
        continue_run(&seen, &mut s, input, m, fuel, &mut g);
        g.ibase = base;
        visit(&format!("base={}", base), g);
    }
    // something else than zero after the last instruction
    for tail in [1u64, b'.' as u64, b',' as u64, b'+' as u64] {
        let mut g = f.clone();
        g.itail = fr(tail);
        for w in g.rows.iter_mut() {
            if w[1] == fri(n - 1) {
                w[3] = fr(tail);
            }
            if w[1] == fri(n) {
                w[2] = fr(tail);
            }
        }
        visit(&format!("tail={}", tail), g);
    }
    // the other tables
    for i in 0..=f.outputs.len() {
        let mut h = f.clone();
        h.outputs.insert(i, fr(1));
        visit(&format!("output+{}", i), h);
        if i < f.outputs.len() {
            let mut h = f.clone();
            h.outputs.remove(i);
            visit(&format!("output-{}", i), h);
            let mut h = f.clone();
            h.outputs[i] += fr(1);
            visit(&format!("output~{}", i), h);
        }
    }
    for i in 0..=f.inputs.len() {
        let mut h = f.clone();
        h.inputs.insert(i, fr(1));
        visit(&format!("input+{}", i), h);
        if i < f.inputs.len() {
            let mut h = f.clone();
            h.inputs.remove(i);
            visit(&format!("input-{}", i), h);
        }
    }
}

/// Joint changes of a satisfied grid: two early cells of one row by small amounts, and late cells chosen
/// by a prover that knows the challenges. Nothing but the original may be accepted.
pub fn joint_changes<const R: usize>(b: &Bfc<R>, g: &mut Grid<Fr>, base: &String, max_late: usize, r: &mut crate::Rec) {
    let cs = &b.shape.cs;
    let cells: std::collections::BTreeSet<(usize, usize)> = g.assigned.iter().cloned().collect();
    // 4. two early cells of one row changed together so that a fingerprint of the row might not notice
    for row in 0..g.usable {
        let here: Vec<usize> = cells.iter().filter(|c| c.1 == row && g.advice_phase[c.0] == 0).map(|c| c.0).collect();
        for (x, &a) in here.iter().enumerate() {
            for &bb in &here[x + 1..] {
                let (va, vb) = (g.advice[a][row], g.advice[bb][row]);
                for (da, db) in [(1i64, -1i64), (-1, 1), (1, 1), (-1, -1), (1, -2), (2, -1), (-2, 1), (-1, 2), (2, -2), (-2, 2)] {
                    g.advice[a][row] = va + fri(da);
                    g.advice[bb][row] = vb + fri(db);
                    let near: Vec<usize> = (row.saturating_sub(2)..(row + 3).min(g.usable)).collect();
                    let ok = check_rows(cs, g, &near).is_none() && check(cs, g).is_none();
                    r.step(1);
                    r.trace();
                    r.state(&(base, "pair", row, a, bb, da, db));
                    r.outcome(if ok { "two cells accepted" } else { "two cells rejected" });
                    if ok {
                        let key = format!("{} advice{},{}@{}", base, a, bb, row);
                        r.label(&key);
                        r.violation(&key, format!("the circuit still accepts when row {} has advice {} changed by {} and advice {} by {}", row, a, da, bb, db));
                    }
                }
                g.advice[a][row] = va;
                g.advice[bb][row] = vb;
            }
        }
        if r.stopped() {
            return;
        }
    }
    // 5. the cells filled in after the challenges: one of them changed, another one of its column
    // chosen to make up for it, all other late columns recomputed from the constraints
    let rows = b.rows(g);
    let late = Late::new(cs, g, &rows);
    for &a in &late.cells {
        for &x in &late.cells {
            if a == x || a.0 != x.0 || late.cells.len() > max_late {
                continue;
            }
            let mut h = g.clone();
            h.advice[a.0][a.1] += Fr::one();
            let mut unknown: std::collections::HashSet<_> = late.cells.iter().cloned().filter(|c| c.0 != a.0 || *c == x).collect();
            let ok = late.propagate(&mut h, &mut unknown) && b.accepts_grid(&h);
            r.step(1);
            r.trace();
            r.state(&(base, "late", a, x));
            r.outcome(if ok { "late cells accepted" } else { "late cells rejected" });
            if ok {
                let key = format!("{} late advice{}@{},{}", base, a.0, a.1, x.1);
                r.label(&key);
                r.violation(&key, format!("a prover that knows the challenges can change cell (advice {}, row {}) and make up for it in row {}", a.0, a.1, x.1));
            }
        }
        if r.stopped() {
            return;
        }
    }
}
