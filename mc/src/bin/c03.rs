//! C03: the recorded trace is exactly the execution.
use mc::bf::*;
use mc::vmset::*;
use mc::*;

fn one(k: &Case, r: &mut Rec) -> Result<(), String> {
    let t = k.trace;
    if t.end != End::Halt {
        return Ok(());
    }
    let bits = if k.bits == 8 { None } else { Some(k.bits as u64) };
    let vm = vm_run(k.code, k.input, bits);
    let m = &vm.matrix;
    let n = k.code.len() as u64;
    // processor
    if m.processor_matrix.len() != t.rows.len() {
        return Err(format!("{} processor rows, {} cycles", m.processor_matrix.len(), t.rows.len()));
    }
    for (g, w) in m.processor_matrix.iter().zip(&t.rows) {
        let got = [g.cycle, g.instruction_pointer, g.current_instruction, g.next_instruction, g.memory_pointer, g.memory_value, g.memory_value_inverse];
        if got != fr_row(w) {
            return Err(format!("processor row {:?}, reference {:?}", got, w));
        }
    }
    // instruction: the program, merged with the executed rows, ordered by address
    let mut want: Vec<(u64, u64, u64)> = (0..n).map(|i| (i, k.code[i as usize], if i + 1 < n { k.code[i as usize + 1] } else { 0 })).collect();
    want.extend(t.rows.iter().map(|x| (x.ip, x.ci, x.ni)));
    want.sort_by_key(|x| x.0);
    let got: Vec<_> = m.instruction_matrix.iter().map(|x| (x.instruction_pointer, x.current_instruction, x.next_instruction)).collect();
    let want: Vec<_> = want.into_iter().map(|x| (fr(x.0), fr(x.1), fr(x.2))).collect();
    if got != want {
        return Err(format!("instruction rows {:?}, reference {:?}", got, want));
    }
    // memory: ordered by cell, then by time
    let mut want: Vec<(u64, u64, u64)> = t.rows.iter().map(|x| (x.mp, x.clk, x.mv)).collect();
    want.sort();
    let got: Vec<_> = m.memory_matrix.iter().map(|x| (x.memory_pointer, x.cycle, x.memory_value)).collect();
    let want: Vec<_> = want.into_iter().map(|x| (fr(x.0), fr(x.1), fr(x.2))).collect();
    if got != want {
        return Err(format!("memory rows {:?}, reference {:?}", got, want));
    }
    if m.input_matrix != frs(&t.inputs) || m.output_matrix != frs(&t.outputs) || m.program != frs(k.code) {
        return Err("input, output or program record differs".into());
    }
    r.state(&(k.code, k.input, &t.rows));
    r.outcome("trace equal");
    if t.rows.len() == 9 {
        r.sample(|| format!("{} in={:?}: {} rows", show(k.src), k.input, t.rows.len()));
    }
    Ok(())
}

fn main() {
    mc::main("C03", |c| {
        c.case_limit(20);
        explore(c, &|k, r| r.case(|r| one(k, r)));
    })
}
