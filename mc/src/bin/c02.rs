//! C02: the interpreter implements Brainfuck.
use mc::bf::*;
use mc::vmset::*;
use mc::*;

fn one(k: &Case, r: &mut Rec) -> Result<(), String> {
    let bits = if k.bits == 8 { None } else { Some(k.bits as u64) };
    let got = guard(|| vm_run(k.code, k.input, bits));
    let t = k.trace;
    match (&t.end, got) {
        (End::Halt, Ok(vm)) => {
            let last = t.rows.last().unwrap();
            if vm.matrix.output_matrix != frs(&t.outputs) {
                return Err(format!("output {:?}, reference {:?}", vm.matrix.output_matrix, t.outputs));
            }
            if vm.memory != frs(&t.mem) {
                return Err(format!("final memory {:?}, reference {:?}", vm.memory, t.mem));
            }
            if vm.register.memory_pointer != fr(last.mp) || vm.register.cycle != fr(last.clk) || vm.register.instruction_pointer != fr(last.ip) {
                return Err(format!("final registers {:?}, reference {:?}", vm.register, last));
            }
            if vm.matrix.input_matrix != frs(&t.inputs) || vm.input != frs(&k.input[t.inputs.len()..]) {
                return Err("consumed input differs".into());
            }
            r.state(&(k.code, k.input, &t.outputs, &t.mem));
            r.outcome("halted");
            if t.rows.len() == 17 {
                r.sample(|| format!("{} in={:?} -> out={:?} after {} cycles", show(k.src), k.input, t.outputs, last.clk));
            }
            Ok(())
        }
        (End::Halt, Err(e)) => Err(format!("the program halts but the VM {}", e)),
        (_, Ok(vm)) => Err(format!("the run is {:?} but the VM completed with output {:?}", t.end, vm.matrix.output_matrix)),
        (e, Err(_)) => {
            r.outcome(if *e == End::NoInput { "refused: input exhausted" } else { "refused: left of cell 0" });
            Ok(())
        }
    }
}

fn main() {
    mc::main("C02", |c| {
        c.case_limit(20);
        c.assume("executions longer than the step bound are not compared");
        explore(c, &|k, r| r.case(|r| one(k, r)));
        // the order in which the machine is set up does not matter
        c.seq("setup-order", |r| {
            use ckb_bf_vm::interpreter::Interpreter;
            let code = ref_compile(b",[.-]").unwrap();
            for order in 0..6 {
                r.label(format!("setup order {}", order));
                r.case(|_| {
                    let mut vm = Interpreter::new();
                    let perm = &mc::util::permutations(3)[order];
                    for s in perm {
                        match s {
                            0 => vm.set_code(frs(&code)),
                            1 => vm.set_input(frs(&[3])),
                            _ => vm.set_bits(8),
                        }
                    }
                    vm.run();
                    if vm.matrix.output_matrix == frs(&[3, 2, 1]) {
                        Ok(())
                    } else {
                        Err(format!("{:?}", vm.matrix.output_matrix))
                    }
                });
            }
        });
    })
}
