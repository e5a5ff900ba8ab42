//! Lists the constraints of the Brainfuck circuit (for the MC_DROP self-test).
use ckb_bf_base::main_config::MyCircuit;
use halo2curves::bn256::Fr;
use mc::plonkref::*;
fn main() {
    let s: Shape<Fr, MyCircuit<Fr, 4>> = Shape::new();
    for (i, g) in s.cs.gates().iter().enumerate() {
        for j in 0..g.polynomials().len() {
            println!("g{}.{} {}", i, j, format!("{:?}", g).chars().take(60).collect::<String>().replace("\n", ""));
        }
    }
    for (i, l) in s.cs.lookups().iter().enumerate() {
        let _ = l; println!("l{} lookup", i);
    }
    let code = mc::bf::ref_compile(b",.").unwrap();
    let b = mc::bfc::Bfc::<4>::new(6);
    let vm = mc::bf::vm_run(&code, &[1], Some(2));
    let g = b.grid(vm.matrix, &mc::bfc::instance(&mc::bf::frs(&code), &mc::bf::frs(&[1]))).unwrap();
    let mut n: Vec<String> = g.copies.iter().map(|(a, b, c, d)| copy_name(a, *b, c, *d)).collect();
    n.sort();
    n.dedup();
    for x in n {
        println!("{} copy", x);
    }
}
