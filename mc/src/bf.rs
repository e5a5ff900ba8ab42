//! Reference model of the Brainfuck machine (independent of the code under test).
use ckb_bf_vm::interpreter::{Interpreter, Register};
use ckb_bf_vm::matrix::{InstructionMatrixRow, Matrix, MemoryMatrixRow};
use halo2curves::bn256::Fr;
use std::hash::Hash;

pub const OPS: [u8; 8] = *b"<>+-,.[]";

/// Reference compiler: keep the eight operators; a bracket is followed by one
/// operand. '[' gets the address just past its matching ']' and operand, ']'
/// the address just past its matching '[' and operand. None if unbalanced.
pub fn ref_compile(src: &[u8]) -> Option<Vec<u64>> {
    let toks: Vec<u8> = src.iter().copied().filter(|b| OPS.contains(b)).collect();
    // address of each token
    let mut addr = Vec::with_capacity(toks.len() + 1);
    let mut a = 0u64;
    for t in &toks {
        addr.push(a);
        a += if *t == b'[' || *t == b']' { 2 } else { 1 };
    }
    addr.push(a);
    // partner of each bracket, by scanning with a depth counter
    let mut partner = vec![usize::MAX; toks.len()];
    let mut open: Vec<usize> = vec![];
    for (i, t) in toks.iter().enumerate() {
        if *t == b'[' {
            open.push(i);
        } else if *t == b']' {
            let o = open.pop()?;
            partner[o] = i;
            partner[i] = o;
        }
    }
    if !open.is_empty() {
        return None;
    }
    let mut out = vec![];
    for (i, t) in toks.iter().enumerate() {
        out.push(*t as u64);
        if *t == b'[' || *t == b']' {
            out.push(addr[partner[i]] + 2);
        }
    }
    Some(out)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Row {
    pub clk: u64,
    pub ip: u64,
    pub ci: u64,
    pub ni: u64,
    pub mp: u64,
    pub mv: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Halt,
    Fuel,
    Underflow,
    NoInput,
    /// not an instruction (only for sequences that are not compiled programs)
    Illegal,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub end: End,
    pub rows: Vec<Row>,
    pub inputs: Vec<u64>,
    pub outputs: Vec<u64>,
    pub mem: Vec<u64>,
}

/// Reference execution; operates on source-level semantics of the compiled code.
pub fn ref_run(code: &[u64], input: &[u64], bits: u32, fuel: usize) -> Trace {
    let m = 1u64 << bits;
    let n = code.len() as u64;
    let at = |i: u64| if i < n { code[i as usize] } else { 0 };
    let mut t = Trace { end: End::Halt, rows: vec![], inputs: vec![], outputs: vec![], mem: vec![0] };
    let (mut ip, mut mp, mut clk) = (0u64, 0u64, 0u64);
    let mut inp = input.iter();
    loop {
        t.rows.push(Row { clk, ip, ci: at(ip), ni: at(ip + 1), mp, mv: t.mem[mp as usize] });
        if ip >= n {
            // past the end: ci = ni = 0
            return t;
        }
        if t.rows.len() > fuel {
            t.end = End::Fuel;
            return t;
        }
        let c = &mut t.mem[mp as usize];
        match u8::try_from(code[ip as usize]).unwrap_or(0) {
            b'>' => {
                mp += 1;
                if t.mem.len() as u64 == mp {
                    t.mem.push(0);
                }
                ip += 1
            }
            b'<' => {
                if mp == 0 {
                    t.end = End::Underflow;
                    return t;
                }
                mp -= 1;
                ip += 1
            }
            b'+' => {
                *c = (*c + 1) % m;
                ip += 1
            }
            b'-' => {
                *c = (*c + m - 1) % m;
                ip += 1
            }
            b',' => match inp.next() {
                Some(v) => {
                    *c = *v;
                    t.inputs.push(*v);
                    ip += 1
                }
                None => {
                    t.end = End::NoInput;
                    return t;
                }
            },
            b'.' => {
                let v = *c;
                t.outputs.push(v);
                ip += 1
            }
            b'[' => ip = if *c == 0 { at(ip + 1) } else { ip + 2 },
            b']' => ip = if *c != 0 { at(ip + 1) } else { ip + 2 },
            _ => {
                t.end = End::Illegal;
                return t;
            }
        }
        clk += 1;
    }
}

/// All input strings over `alpha` that `code` consumes entirely, with the trace,
/// as a tree search on how much input is read (bounded by fuel and max_in).
pub fn all_inputs(code: &[u64], alpha: &[u64], bits: u32, fuel: usize, max_in: usize) -> Vec<(Vec<u64>, Trace)> {
    let mut out = vec![];
    let mut stack = vec![vec![]];
    while let Some(inp) = stack.pop() {
        let t = ref_run(code, &inp, bits, fuel);
        match t.end {
            End::NoInput if inp.len() < max_in => {
                for a in alpha {
                    let mut x: Vec<u64> = inp.clone();
                    x.push(*a);
                    stack.push(x);
                }
                out.push((inp, t));
            }
            _ => out.push((inp, t)),
        }
    }
    out
}

pub fn fr(v: u64) -> Fr {
    Fr::from(v)
}

pub fn frs(v: &[u64]) -> Vec<Fr> {
    v.iter().map(|x| Fr::from(*x)).collect()
}

pub fn show(code: &[u8]) -> String {
    String::from_utf8_lossy(code).into_owned()
}

/// Word number `idx` of length `len` over the eight operators, if balanced.
pub fn program(idx: usize, len: usize) -> Option<Vec<u8>> {
    let mut d = 0i32;
    let mut x = idx;
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        let o = OPS[x % 8];
        x /= 8;
        if o == b'[' {
            d += 1
        }
        if o == b']' {
            d -= 1;
            if d < 0 {
                return None;
            }
        }
        v.push(o);
    }
    if d == 0 {
        Some(v)
    } else {
        None
    }
}

/// Run the real VM.
pub fn vm_run(code: &[u64], input: &[u64], bits: Option<u64>) -> Interpreter {
    let mut vm = Interpreter::new();
    if let Some(b) = bits {
        vm.set_bits(b);
    }
    vm.set_input(frs(input));
    vm.set_code(frs(code));
    vm.run();
    vm
}

pub fn inverse(v: Fr) -> Fr {
    use ff::Field;
    Option::<Fr>::from(v.invert()).unwrap_or(Fr::zero())
}

/// Build the witness matrix a prover would supply for an arbitrary processor
/// trace: tables derived from the rows the way the reference machine lays them out.
pub fn matrix_of(code: &[Fr], rows: &[[Fr; 7]], inputs: &[Fr], outputs: &[Fr]) -> Matrix {
    // row = [clk, ip, ci, ni, mp, mv, mvi]
    let mut m = Matrix::default();
    m.program = code.to_vec();
    m.input_matrix = inputs.to_vec();
    m.output_matrix = outputs.to_vec();
    for r in rows {
        m.processor_matrix.push(Register {
            cycle: r[0],
            instruction_pointer: r[1],
            current_instruction: r[2],
            next_instruction: r[3],
            memory_pointer: r[4],
            memory_value: r[5],
            memory_value_inverse: r[6],
        });
    }
    for i in 0..code.len() {
        m.instruction_matrix.push(InstructionMatrixRow {
            instruction_pointer: fr(i as u64),
            current_instruction: code[i],
            next_instruction: code.get(i + 1).copied().unwrap_or(Fr::zero()),
        });
    }
    for r in rows {
        m.instruction_matrix.push(InstructionMatrixRow {
            instruction_pointer: r[1],
            current_instruction: r[2],
            next_instruction: r[3],
        });
        m.memory_matrix.push(MemoryMatrixRow {
            cycle: r[0],
            memory_pointer: r[4],
            memory_value: r[5],
            interweave_indicator: Fr::zero(),
        });
    }
    m.instruction_matrix.sort_by_key(|x| x.instruction_pointer);
    m.memory_matrix.sort_by_key(|x| x.memory_pointer);
    m
}

pub fn fr_row(r: &Row) -> [Fr; 7] {
    [fr(r.clk), fr(r.ip), fr(r.ci), fr(r.ni), fr(r.mp), fr(r.mv), inverse(fr(r.mv))]
}
