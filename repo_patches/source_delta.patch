From 5aa581435298d657e70efb8b3fcd055b7c0464a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:56 +0000
Subject: [PATCH 01/24] fix: bind the instruction table to the program (first
 ip, next instruction, dummy row)

The instruction table left three things to the prover: the ip of its first
row, the next-instruction column (i.e. every jump target), and the
instruction of the dummy row past the end of the program. A forged trace
could start anywhere, jump anywhere, or run extra instructions.
---
 ckb_bf_base/src/instruction_table.rs | 29 ++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index d245cd9..9573919 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -28,6 +28,7 @@ pub struct InstructionTableConfig {
     s_prp_adhoc: Selector,
     s_rs: Selector,
     s_i: Selector, // Selector for condition I category (Instruction Table)
+    s_b: Selector, // Selector for the first row (Boundary Constraints)
 }
 
 impl InstructionTable for InstructionTableConfig {
@@ -45,6 +46,13 @@ impl InstructionTable for InstructionTableConfig {
         let s_rs = cs.selector();
         let s_prp_adhoc = cs.selector();
         let s_i = cs.selector();
+        let s_b = cs.selector();
+
+        cs.create_gate("B0: the table starts at the first instruction, ip_0 = 0", |vc| {
+            let ip = vc.query_advice(ip, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b * ip]
+        });
 
         cs.create_gate("I0: Instruction pointer increases by 0 or 1", |vc| {
             let cur_ip = vc.query_advice(ip, Rotation::cur());
@@ -70,6 +78,25 @@ impl InstructionTable for InstructionTableConfig {
             let s_i = vc.query_selector(s_i);
             vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ni.clone() - cur_ni.clone())]
         });
+
+        cs.create_gate("I3: If ip increases by 1, then ni is the instruction at the new ip.", |vc| {
+            let cur_ip = vc.query_advice(ip, Rotation::cur());
+            let next_ip = vc.query_advice(ip, Rotation::next());
+            let cur_ni = vc.query_advice(ni, Rotation::cur());
+            let next_ci = vc.query_advice(ci, Rotation::next());
+            let s_i = vc.query_selector(s_i);
+            vec![s_i * (next_ip - cur_ip) * (next_ci - cur_ni)]
+        });
+
+        // The last row is the dummy row past the end of the program. Its ci is not covered by the
+        // code running sum, so it is pinned here, otherwise the program could be extended with a
+        // freely chosen instruction.
+        cs.create_gate("I4: The dummy row has ci = ni = 0", |vc| {
+            let ci_prev = vc.query_advice(ci, Rotation::prev());
+            let ni_prev = vc.query_advice(ni, Rotation::prev());
+            let s_prp_adhoc = vc.query_selector(s_prp_adhoc);
+            vec![s_prp_adhoc.clone() * ci_prev, s_prp_adhoc * ni_prev]
+        });
         Self {
             ip,
             ci,
@@ -77,6 +104,7 @@ impl InstructionTable for InstructionTableConfig {
             prp,
             rs,
             s_i,
+            s_b,
             s_prp,
             s_prp_adhoc,
             s_rs,
@@ -152,6 +180,7 @@ impl InstructionTable for InstructionTableConfig {
                 let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
+                self.s_b.enable(&mut region, 0)?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
                     if idx < instruction_matrix.len() - 1 {
                         // I condition is enabled except last row
-- 
2.43.0


From 84e9c309094dbb6b0718f853a4e8398e04369175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:26 +0000
Subject: [PATCH 02/24] fix: pin the initial running products/sums and the
 table lengths to constants

They were free advice cells: with a zero initial product, or a chosen initial
sum, the cross-table arguments hold for unrelated tables, and the public
code/input length was not tied to the number of rows of the table.
---
 ckb_bf_base/src/input_table.rs       |  6 +++---
 ckb_bf_base/src/instruction_table.rs |  4 ++--
 ckb_bf_base/src/main_config.rs       |  3 +++
 ckb_bf_base/src/memory_table.rs      |  2 +-
 ckb_bf_base/src/output_table.rs      |  2 +-
 ckb_bf_base/src/processor_table.rs   | 14 +++++---------
 ckb_bf_base/src/program_table.rs     |  6 +++---
 7 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index a79371c..822098f 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -65,12 +65,12 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
-                let len = region.assign_advice(
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
+                let len = region.assign_advice_from_constant(
                     || "Input length",
                     self.input_len,
                     0,
-                    || Value::known(Fr::from(matrix.input_matrix.len() as u64)),
+                    Fr::from(matrix.input_matrix.len() as u64),
                 )?;
                 for idx in 0..matrix.input_matrix.len() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 9573919..6227f80 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -176,8 +176,8 @@ impl InstructionTable for InstructionTableConfig {
             || "Load Instruction Table",
             |mut region| {
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.inst_prp_init))?;
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/main_config.rs b/ckb_bf_base/src/main_config.rs
index 8358f41..cd83e5c 100644
--- a/ckb_bf_base/src/main_config.rs
+++ b/ckb_bf_base/src/main_config.rs
@@ -39,6 +39,9 @@ impl<const RANGE: usize> MainTable for MainConfig<RANGE> {
         cs.enable_equality(code);
         let input = cs.instance_column();
         cs.enable_equality(input);
+        // Constants: initial values of the running products/sums and table lengths
+        let constants = cs.fixed_column();
+        cs.enable_constant(constants);
         // First phase gates and tables
         let p_config = ProcessorTableConfig::configure(cs);
         let m_config = MemoryTableConfig::configure(cs);
diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 0a29020..15f5ada 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -107,7 +107,7 @@ impl MemoryTable for MemoryTableConfig {
             |mut region| {
                 // init prp
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.mem_prp_init))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index db47791..f1452ca 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -55,7 +55,7 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 1ea21e6..13a0f57 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -320,17 +320,13 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
             |mut region| {
                 // init prp and rs
                 let mut mem_prp_prev =
-                    region.assign_advice(|| "mem prp", self.mem_prp, 0, || Value::known(challenges.mem_prp_init))?;
-                let mut inst_prp_prev = region.assign_advice(
-                    || "inst prp",
-                    self.inst_prp,
-                    0,
-                    || Value::known(challenges.inst_prp_init),
-                )?;
+                    region.assign_advice_from_constant(|| "mem prp", self.mem_prp, 0, challenges.mem_prp_init)?;
+                let mut inst_prp_prev =
+                    region.assign_advice_from_constant(|| "inst prp", self.inst_prp, 0, challenges.inst_prp_init)?;
                 let mut output_rs_prev =
-                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, Fr::zero())?;
                 let mut input_rs_prev =
-                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, Fr::zero())?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 8a9ec0b..5cebdc5 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -69,14 +69,14 @@ impl ProgramTable for ProgramTableConfig {
                 // The solution here is to let prover provide the program length, expose the
                 // program length as public
                 // And use constraint_instance to make sure the length is correct
-                let len = region.assign_advice(
+                let len = region.assign_advice_from_constant(
                     || "Program length",
                     self.program_len,
                     0,
-                    || Value::known(Fr::from(matrix.program.len() as u64)),
+                    Fr::from(matrix.program.len() as u64),
                 )?;
 
-                let mut rs_prev = region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.code_rs, 0, Fr::zero())?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
-- 
2.43.0


From e20a8635a569f7237541ce8e9b54b57341039a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:09 +0000
Subject: [PATCH 03/24] fix: start running sums at one so that leading zeros
 count

With a zero initial value a sequence and the same sequence with leading zeros
have the same running sum: a program reading a zero byte was provable for an
empty public input, and leading zero outputs could be dropped.
---
 ckb_bf_base/src/input_table.rs       | 2 +-
 ckb_bf_base/src/instruction_table.rs | 2 +-
 ckb_bf_base/src/output_table.rs      | 2 +-
 ckb_bf_base/src/processor_table.rs   | 4 ++--
 ckb_bf_base/src/program_table.rs     | 2 +-
 ckb_bf_base/src/utils.rs             | 4 ++++
 6 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index 822098f..3bfd1e7 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -65,7 +65,7 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
                 let len = region.assign_advice_from_constant(
                     || "Input length",
                     self.input_len,
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 6227f80..572cd6b 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -177,7 +177,7 @@ impl InstructionTable for InstructionTableConfig {
             |mut region| {
                 let mut prp_prev =
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
-                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index f1452ca..9f68037 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -55,7 +55,7 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, Fr::zero())?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 13a0f57..0e3a7b9 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -324,9 +324,9 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                 let mut inst_prp_prev =
                     region.assign_advice_from_constant(|| "inst prp", self.inst_prp, 0, challenges.inst_prp_init)?;
                 let mut output_rs_prev =
-                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, Fr::zero())?;
+                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, challenges.rs_init)?;
                 let mut input_rs_prev =
-                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, Fr::zero())?;
+                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, challenges.rs_init)?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 5cebdc5..0db8770 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -76,7 +76,7 @@ impl ProgramTable for ProgramTableConfig {
                     Fr::from(matrix.program.len() as u64),
                 )?;
 
-                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.code_rs, 0, Fr::zero())?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.code_rs, 0, challenges.rs_init)?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 674d5b8..46589a5 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -40,6 +40,9 @@ pub type BFCell = AssignedCell<Fr, Fr>;
 pub struct BFChallenge {
     pub(crate) mem_prp_init: Fr,
     pub(crate) inst_prp_init: Fr,
+    // Initial value of the running sums. It must not be zero, otherwise leading zero values
+    // leave no trace in the sum and sequences of different lengths agree.
+    pub(crate) rs_init: Fr,
     challenges: [Challenge; 11],
 }
 
@@ -49,6 +52,7 @@ impl BFChallenge {
             // TODO: make it random
             mem_prp_init: Fr::from(3),
             inst_prp_init: Fr::from(9),
+            rs_init: Fr::one(),
             challenges: [(); 11].map(|_| cs.challenge_usable_after(FirstPhase)),
         }
     }
-- 
2.43.0


From 7b0e10258f7292bb85cbafb27da7afb3d53d8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:13 +0000
Subject: [PATCH 04/24] fix: order the memory table by clock within a cell and
 pin its first row

Nothing forced the rows of one cell to be listed in clock order, and the
first row was free, so a permuted table hid reads of values never written
and initial memory contents other than zero.
---
 ckb_bf_base/src/memory_table.rs | 39 +++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 15f5ada..0f27524 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -23,7 +23,10 @@ pub struct MemoryTableConfig {
     mp: Column<Advice>,
     mv: Column<Advice>,
     prp: Column<Advice>,
+    clk_table: TableColumn, // Lookup table of all clock differences that can occur
     s_m: Selector, // selector for condition m category (memory table)
+    s_clk: Selector, // Selector for clk_table
+    s_b: Selector, // Selector for the first row (Boundary Constraints)
     s_prp: Selector,
 }
 
@@ -36,8 +39,16 @@ impl MemoryTable for MemoryTableConfig {
         let mv = cs.advice_column_in(FirstPhase);
         let prp = cs.advice_column_in(SecondPhase);
         cs.enable_equality(prp);
+        let clk_table = cs.lookup_table_column();
+        let s_clk = cs.complex_selector();
         let s_m = cs.selector();
         let s_prp = cs.selector();
+        let s_b = cs.selector();
+
+        cs.create_gate("B: the table starts with clk_0 = mp_0 = mv_0 = 0", |vc| {
+            let s_b = vc.query_selector(s_b);
+            [clk, mp, mv].map(|column| s_b.clone() * vc.query_advice(column, Rotation::cur()))
+        });
 
         cs.create_gate("M0: memory pointer either increase by one or by zero", |vc| {
             let cur_mp = vc.query_advice(mp, Rotation::cur());
@@ -71,12 +82,29 @@ impl MemoryTable for MemoryTableConfig {
             let s_m = vc.query_selector(s_m);
             vec![s_m * (next_mp.clone() - cur_mp.clone()) * (next_mv)]
         });
+
+        // The accesses to one cell must be listed in the order in which they happened, otherwise
+        // M1 compares values of unrelated cycles.
+        cs.lookup("M3: If mp is unchanged, then clk increases.", |vc| {
+            let cur_mp = vc.query_advice(mp, Rotation::cur());
+            let next_mp = vc.query_advice(mp, Rotation::next());
+            let cur_clk = vc.query_advice(clk, Rotation::cur());
+            let next_clk = vc.query_advice(clk, Rotation::next());
+            let s_clk = vc.query_selector(s_clk);
+            vec![(
+                s_clk * (one.clone() - (next_mp - cur_mp)) * (next_clk - cur_clk - one.clone()),
+                clk_table,
+            )]
+        });
         Self {
             clk,
             mp,
             mv,
             prp,
+            clk_table,
             s_m,
+            s_clk,
+            s_b,
             s_prp,
         }
     }
@@ -102,6 +130,15 @@ impl MemoryTable for MemoryTableConfig {
     ) -> Result<BFCell, Error> {
         // Read challenges
         let [alpha, d, e, f] = challenges.get_mem_prp_challenges().map(|c| layouter.get_challenge(c));
+        layouter.assign_table(
+            || "load clock difference table",
+            |mut table| {
+                for value in 0..matrix.memory_matrix.len().max(1) {
+                    table.assign_cell(|| "value", self.clk_table, value, || Value::known(Fr::from(value as u64)))?;
+                }
+                Ok(())
+            },
+        )?;
         layouter.assign_region(
             || "Load Memory Table",
             |mut region| {
@@ -109,10 +146,12 @@ impl MemoryTable for MemoryTableConfig {
                 let mut prp_prev =
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
                         // M condition is enabled except last row
                         self.s_m.enable(&mut region, idx)?;
+                        self.s_clk.enable(&mut region, idx)?;
                     }
                     self.s_prp.enable(&mut region, idx)?;
                     let clk = region.assign_advice(|| "clk", self.clk, idx, || Value::known(row.cycle))?;
-- 
2.43.0


From 0950e949131711fc3d35b4a50e9ca183a5a05393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:52 +0000
Subject: [PATCH 05/24] fix: refuse jump targets that do not fit in u16 instead
 of truncating them

A program with a loop past address 65535 was compiled to wrong jump targets.
---
 ckb_bf_vm/src/code.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ckb_bf_vm/src/code.rs b/ckb_bf_vm/src/code.rs
index f12180f..a1b1411 100644
--- a/ckb_bf_vm/src/code.rs
+++ b/ckb_bf_vm/src/code.rs
@@ -26,7 +26,8 @@ pub fn easygen(code: &str) -> Vec<Fr> {
 pub fn compile_to_u16(code: Vec<u8>) -> Vec<u16> {
     let filter = vec![SHL, SHR, ADD, SUB, GETCHAR, PUTCHAR, LB, RB];
     let mut instrs = Vec::<u16>::new();
-    let mut jstack = Vec::<u16>::new();
+    let mut jstack = Vec::<usize>::new();
+    let address = |x: usize| u16::try_from(x).expect("jump target exceeds u16");
     for i in code {
         if !filter.contains(&i) {
             continue;
@@ -34,12 +35,12 @@ pub fn compile_to_u16(code: Vec<u8>) -> Vec<u16> {
         instrs.push(i as u16);
         if i == LB {
             instrs.push(0);
-            jstack.push(instrs.len() as u16 - 1);
+            jstack.push(instrs.len() - 1);
         }
         if i == RB {
-            instrs.push(*jstack.last().unwrap() + 1);
-            instrs[*jstack.last().unwrap() as usize] = instrs.len() as u16;
-            jstack.pop();
+            let open = jstack.pop().unwrap();
+            instrs.push(address(open + 1));
+            instrs[open] = address(instrs.len());
         }
     }
     return instrs;
-- 
2.43.0


From 9334ce6c38b1bbf7c28d2bee997a91ec69c0971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:52 +0000
Subject: [PATCH 06/24] fix: refuse a program with an unmatched [

It was compiled with jump target 0, i.e. restarted the program, while an
unmatched ] was already refused.
---
 ckb_bf_vm/src/code.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ckb_bf_vm/src/code.rs b/ckb_bf_vm/src/code.rs
index a1b1411..c6d480a 100644
--- a/ckb_bf_vm/src/code.rs
+++ b/ckb_bf_vm/src/code.rs
@@ -43,6 +43,7 @@ pub fn compile_to_u16(code: Vec<u8>) -> Vec<u16> {
             instrs[open] = address(instrs.len());
         }
     }
+    assert!(jstack.is_empty(), "unmatched [");
     return instrs;
 }
 
-- 
2.43.0


From 95aba04609b5a623281d34b6c83fdfc02bc48dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:44 +0000
Subject: [PATCH 07/24] fix: link the running sums at the last row that a gate
 constrains

---
 ckb_bf_base/src/instruction_table.rs | 5 ++++-
 ckb_bf_base/src/processor_table.rs   | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 572cd6b..1913ea3 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -210,7 +210,10 @@ impl InstructionTable for InstructionTableConfig {
                     } else {
                         rs_prev.value().map(|x| *x)
                     };
-                    rs_prev = region.assign_advice(|| "code rs", self.rs, idx + 1, || rs)?;
+                    // The running sum ends at the last row: no gate covers the transition out of it
+                    if idx < instruction_matrix.len() - 1 {
+                        rs_prev = region.assign_advice(|| "code rs", self.rs, idx + 1, || rs)?;
+                    }
                 }
                 Ok((rs_prev, prp_prev))
             },
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 0e3a7b9..8a07672 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -368,8 +368,11 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     };
                     mem_prp_prev = region.assign_advice(|| "mem_prp", self.mem_prp, idx + 1, || mem_prp)?;
                     inst_prp_prev = region.assign_advice(|| "inst prp", self.inst_prp, idx + 1, || inst_prp)?;
-                    output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
-                    input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
+                    // The running sums end at the last row: no gate covers the transition out of it
+                    if idx < processor_matrix.len() - 1 {
+                        output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
+                        input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
+                    }
                 }
                 Ok((mem_prp_prev, output_rs_prev, input_rs_prev, inst_prp_prev))
             },
-- 
2.43.0


From 4d579a5e53414f3704591fc0f3a2ed4dcf3f3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:04 +0000
Subject: [PATCH 08/24] fix: choose k so that the rows reserved by the circuit
 fit too

---
 ckb_bf_prover/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index e58063c..af283cf 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -7,7 +7,9 @@ use ckb_bf_vm::code;
 use ckb_bf_vm::interpreter::Interpreter;
 use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
 use halo2_proofs::halo2curves::FieldExt;
-use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, verify_proof, VerifyingKey};
+use halo2_proofs::plonk::{
+    create_proof, keygen_pk, keygen_vk, verify_proof, Circuit, ConstraintSystem, VerifyingKey,
+};
 use halo2_proofs::poly::commitment::{Params, ParamsProver};
 use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG, ParamsVerifierKZG};
 use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
@@ -147,11 +149,12 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     }
     i.set_code(code.clone());
     i.run();
+    // besides the longest table, the rows the circuit reserves (e.g. for blinding) have to fit
+    let mut cs = ConstraintSystem::default();
+    MyCircuit::<Fr, { DOMAIN }>::configure(&mut cs);
+    let rows = i.matrix.instruction_matrix.len() + cs.minimum_rows();
     // the bf lookup table has k=8
-    let k = std::cmp::max(
-        i.matrix.instruction_matrix.len().next_power_of_two().trailing_zeros(),
-        9,
-    );
+    let k = std::cmp::max(rows.next_power_of_two().trailing_zeros(), 9);
 
     let circuit = MyCircuit::<Fr, { DOMAIN }>::new(i.matrix);
     prove_and_verify(k, circuit, c, input.into_bytes());
-- 
2.43.0


From fef2711e4142d209ac3b053ead6138491686a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:04 +0000
Subject: [PATCH 09/24] fix: leave room for the length in front of a program or
 input that fills its buffer

---
 ckb_bf_verifier/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckb_bf_verifier/src/main.rs b/ckb_bf_verifier/src/main.rs
index debd681..644267e 100644
--- a/ckb_bf_verifier/src/main.rs
+++ b/ckb_bf_verifier/src/main.rs
@@ -76,7 +76,7 @@ pub fn program_entry() -> i8 {
     };
     assert!(raw_code_len % 2 == 0); // san-check
     let code_len = raw_code_len / 2;
-    let mut code = [Fr::zero(); 1024];
+    let mut code = [Fr::zero(); 1024 + 1];
     code[0] = Fr::from(code_len as u64);
     (0..code_len).for_each(|idx| {
         code[idx + 1] = Fr::from(u16::from_le_bytes([code_buffer[idx * 2], code_buffer[idx * 2 + 1]]) as u64)
@@ -93,7 +93,7 @@ pub fn program_entry() -> i8 {
             return -1;
         }
     };
-    let mut input = [Fr::zero(); 1024];
+    let mut input = [Fr::zero(); 1024 + 1];
     input[0] = Fr::from(input_len as u64);
     (0..input_len).for_each(|idx| {
         input[idx+1] = Fr::from(input_buffer[idx] as u64);
-- 
2.43.0


From 4ca35dc0414d9d7d90d06ca5a9bec3015de3706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:30 +0000
Subject: [PATCH 10/24] fix: check in read_raw that the point is on the curve,
 as documented

---
 halo2curves/src/derive/curve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index d8d6c98..b13ac5f 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -512,7 +512,9 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -677,7 +679,9 @@ macro_rules! new_curve_impl {
             fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 9129e2599add346d6883c1c75c958c482f0a4b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:00 +0000
Subject: [PATCH 11/24] fix: read back verifying keys in every format and
 refuse malformed ones with an error

---
 halo2_proofs/src/plonk.rs                     | 57 +++++++++++++++++--
 halo2_proofs/src/plonk/circuit.rs             |  2 +-
 .../src/plonk/circuit/compress_selectors.rs   |  4 +-
 3 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 764f06b..2dfb959 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -104,7 +104,14 @@ where
         let mut k = [0u8; 4];
         reader.read_exact(&mut k)?;
         let k = u32::from_be_bytes(k);
-        let (domain, cs, _) = keygen::create_domain::<C, ConcreteCircuit>(k);
+        let mut cs = ConstraintSystem::default();
+        ConcreteCircuit::configure(&mut cs);
+        let degree = cs.degree();
+        let extended_bits = (degree - 1).next_power_of_two().trailing_zeros();
+        if k > C::Scalar::S.saturating_sub(extended_bits) {
+            return Err("k is too large for the field");
+        }
+        let domain = EvaluationDomain::new(degree as u32, k);
         let mut num_fixed_columns = [0u8; 4];
         reader.read_exact(&mut num_fixed_columns)?;
         let num_fixed_columns = u32::from_be_bytes(num_fixed_columns);
@@ -119,8 +126,49 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader).unwrap()).collect::<Vec<_>>();
+        if length != cs.num_selectors {
+            return Err("Wrong number of selectors");
+        }
+        let selector_assignments = (0..length)
+            .map(|_| SelectorAssignment::read(reader, format))
+            .collect::<io::Result<Vec<_>>>()?;
+        let mut assigned = vec![false; length];
+        let mut num_combinations = 0;
+        for assignment in &selector_assignments {
+            match assigned.get_mut(assignment.selector) {
+                Some(assigned) if !*assigned => *assigned = true,
+                _ => return Err("Invalid selector"),
+            }
+            if assignment.combination_index > num_combinations {
+                return Err("Invalid selector combination");
+            }
+            num_combinations = num_combinations.max(assignment.combination_index + 1);
+        }
         let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
+        let is_selector_expression = |expression: &Expression<C::Scalar>| {
+            expression.evaluate(
+                &|_| true,
+                &|_| false,
+                &|query| {
+                    cs.fixed_queries.get(query.index).map_or(false, |(column, rotation)| {
+                        column.index() == query.column_index && *rotation == query.rotation
+                    })
+                },
+                &|_| false,
+                &|_| false,
+                &|_| false,
+                &|a| a,
+                &|a, b| a && b,
+                &|a, b| a && b,
+                &|a, _| a,
+            )
+        };
+        if cs.degree() > degree
+            || cs.num_fixed_columns != fixed_commitments.len()
+            || !selector_assignments.iter().all(|a| is_selector_expression(&a.expression))
+        {
+            return Err("Verifying key does not fit the circuit");
+        }
 
         Ok(Self::from_parts(
             domain,
@@ -149,9 +197,8 @@ where
 
 impl<C: CurveAffine> VerifyingKey<C> {
     fn bytes_length(&self) -> usize {
-        // Xiaowen: TODO bytes_length cannot work due to CurveAffine doesn't have a serialization
-        // trait and hence size of selector_assignments cannot be calcualted.
-        panic!("Should not be called");
+        // This is only used as a capacity: selector_assignments are not counted, because CurveAffine
+        // doesn't have a serialization trait and hence their size cannot be calculated.
         8 + (self.fixed_commitments.len() * C::default().to_bytes().as_ref().len())
             + self.permutation.bytes_length()
     }
diff --git a/halo2_proofs/src/plonk/circuit.rs b/halo2_proofs/src/plonk/circuit.rs
index 497da2e..275883c 100644
--- a/halo2_proofs/src/plonk/circuit.rs
+++ b/halo2_proofs/src/plonk/circuit.rs
@@ -782,7 +782,7 @@ impl<F: SerdePrimeField> Expression<F> {
         reader.read_exact(&mut typ)?;
         let expression = match typ[0] {
             0x00 => {
-                let scalar = F::read(reader, format).unwrap();
+                let scalar = F::read(reader, format)?;
                 Ok(Expression::Constant(scalar))
             }
             0x01 => {
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index d50b391..95f5f0f 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -42,14 +42,14 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         Ok(())
     }
 
-    pub fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+    pub fn read<R: io::Read>(reader: &mut R, format: SerdeFormat) -> io::Result<Self> {
         let mut selector = [0u8; 4];
         reader.read_exact(&mut selector)?;
         let selector = u32::from_be_bytes(selector) as usize;
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, SerdeFormat::RawBytes).unwrap();
+        let expression = Expression::read(reader, format)?;
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From cce92a925c724068fb7da18fcb3cdae53ce3ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:00 +0000
Subject: [PATCH 12/24] fix: refuse parameters whose k is out of range with an
 error

---
 ckb_bf_base/src/utils.rs                | 4 ++--
 halo2_proofs/src/poly/ipa/commitment.rs | 3 +++
 halo2_proofs/src/poly/kzg/commitment.rs | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 46589a5..7cd346c 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -87,7 +87,7 @@ where
     let mut k = [0u8; 4];
     reader.read_exact(&mut k[..])?;
     let k = u32::from_le_bytes(k);
-    let n = 1 << k;
+    let n = 1u64.checked_shl(k).ok_or("k is too large")?;
     let shrink_n = 1 << shrink_k;
 
     let format = SerdeFormat::RawBytes;
@@ -100,7 +100,7 @@ where
 
     Ok(ParamsVerifierKZG {
         k,
-        n: n as u64,
+        n,
         g,
         g_lagrange,
         g2,
diff --git a/halo2_proofs/src/poly/ipa/commitment.rs b/halo2_proofs/src/poly/ipa/commitment.rs
index 651b49c..6464615 100644
--- a/halo2_proofs/src/poly/ipa/commitment.rs
+++ b/halo2_proofs/src/poly/ipa/commitment.rs
@@ -135,6 +135,9 @@ impl<'params, C: CurveAffine> Params<'params, C> for ParamsIPA<C> {
         let mut k = [0u8; 4];
         reader.read_exact(&mut k[..])?;
         let k = u32::from_le_bytes(k);
+        if k >= 32 {
+            return Err("k is too large");
+        }
 
         let n: u64 = 1 << k;
 
diff --git a/halo2_proofs/src/poly/kzg/commitment.rs b/halo2_proofs/src/poly/kzg/commitment.rs
index ce6642b..02cc158 100644
--- a/halo2_proofs/src/poly/kzg/commitment.rs
+++ b/halo2_proofs/src/poly/kzg/commitment.rs
@@ -178,6 +178,9 @@ impl<E: Engine + Debug> ParamsKZG<E> {
         let mut k = [0u8; 4];
         reader.read_exact(&mut k[..])?;
         let k = u32::from_le_bytes(k);
+        if k > E::Scalar::S {
+            return Err("k is too large for the field");
+        }
         let n = 1 << k;
 
         let (g, g_lagrange) = match format {
-- 
2.43.0


From 15ac026e67a0a262be0340eb4cb08c42c28842b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:23 +0000
Subject: [PATCH 13/24] fix: refuse public inputs longer than the usable rows
 also when they are not committed

---
 halo2_proofs/src/plonk/verifier.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/halo2_proofs/src/plonk/verifier.rs b/halo2_proofs/src/plonk/verifier.rs
index f1a431b..5f2ce29 100644
--- a/halo2_proofs/src/plonk/verifier.rs
+++ b/halo2_proofs/src/plonk/verifier.rs
@@ -66,6 +66,12 @@ pub fn verify_proof<
             })
             .collect::<Result<Vec<_>, _>>()?
     } else {
+        // Instances are not committed, but they have to fit in the usable rows all the same
+        for instance in instances.iter().flat_map(|instances| instances.iter()) {
+            if instance.len() + vk.cs.blinding_factors() + 1 > params.n() as usize {
+                return Err(Error::InstanceTooLarge);
+            }
+        }
         vec![vec![]; instances.len()]
     };
 
-- 
2.43.0


From e314a0a1c0991ab205044c1c99a6e60590df75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:48 +0000
Subject: [PATCH 14/24] fix: mock prover does not require instance cells to be
 assigned in a region

---
 halo2_proofs/src/dev.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index dcd40b7..be9be10 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -731,8 +731,11 @@ impl<F: FieldExt> MockProver<F> {
                                 // Determine where this cell should have been assigned.
                                 let cell_row = ((gate_row + n + cell.rotation.0) % n) as usize;
 
-                                // Check that it was assigned!
-                                if r.cells.get(&(cell.column, cell_row)).is_some() {
+                                // Check that it was assigned! (Instance cells are not
+                                // assigned within regions.)
+                                if matches!(cell.column.column_type(), Any::Instance)
+                                    || r.cells.get(&(cell.column, cell_row)).is_some()
+                                {
                                     None
                                 } else {
                                     Some(VerifyFailure::CellNotAssigned {
@@ -1093,8 +1096,11 @@ impl<F: FieldExt> MockProver<F> {
                                         let cell_row =
                                             ((gate_row + n + cell.rotation.0) % n) as usize;
 
-                                        // Check that it was assigned!
-                                        if r.cells.contains_key(&(cell.column, cell_row)) {
+                                        // Check that it was assigned! (Instance cells
+                                        // are not assigned within regions.)
+                                        if matches!(cell.column.column_type(), Any::Instance)
+                                            || r.cells.contains_key(&(cell.column, cell_row))
+                                        {
                                             None
                                         } else {
                                             Some(VerifyFailure::CellNotAssigned {
-- 
2.43.0


From 8824d525313a4e8ce39a6da6b60dbc9eea850759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:29 +0000
Subject: [PATCH 15/24] fix: mock prover reports unassigned cells of a region
 that assigns none

---
 halo2_proofs/src/dev.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index be9be10..d8e7336 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -743,7 +743,10 @@ impl<F: FieldExt> MockProver<F> {
                                         region: (r_i, r.name.clone(), r.annotations.clone()).into(),
                                         gate_offset: *selector_row,
                                         column: cell.column,
-                                        offset: cell_row as isize - r.rows.unwrap().0 as isize,
+                                        // A region without any assigned cell starts at
+                                        // the first row that is known to belong to it.
+                                        offset: cell_row as isize
+                                            - r.rows.map_or(at[0], |(start, _)| start) as isize,
                                     })
                                 }
                             })
@@ -1114,7 +1117,8 @@ impl<F: FieldExt> MockProver<F> {
                                                 gate_offset: *selector_row,
                                                 column: cell.column,
                                                 offset: cell_row as isize
-                                                    - r.rows.unwrap().0 as isize,
+                                                    - r.rows.map_or(at[0], |(start, _)| start)
+                                                        as isize,
                                             })
                                         }
                                     })
-- 
2.43.0


From b9f31d2bedf2e400e48d63e389695135c5f98d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:59 +0000
Subject: [PATCH 16/24] fix: refuse non-canonical encodings of Fq2 elements
 instead of panicking

---
 halo2curves/src/bn256/fq2.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/halo2curves/src/bn256/fq2.rs b/halo2curves/src/bn256/fq2.rs
index 56a5674..033851f 100644
--- a/halo2curves/src/bn256/fq2.rs
+++ b/halo2curves/src/bn256/fq2.rs
@@ -133,13 +133,7 @@ impl Fq2 {
     pub fn from_bytes(bytes: &[u8; 64]) -> CtOption<Fq2> {
         let c0 = Fq::from_bytes(bytes[0..32].try_into().unwrap());
         let c1 = Fq::from_bytes(bytes[32..64].try_into().unwrap());
-        CtOption::new(
-            Fq2 {
-                c0: c0.unwrap(),
-                c1: c1.unwrap(),
-            },
-            c0.is_some() & c1.is_some(),
-        )
+        c0.and_then(|c0| c1.map(|c1| Fq2 { c0, c1 }))
     }
 
     /// Converts an element of `Fq` into a byte representation in
@@ -551,7 +545,7 @@ impl ff::PrimeField for Fq2 {
         let c0 = Fq::from_bytes(&repr.0[..32].try_into().unwrap());
         let c1 = Fq::from_bytes(&repr.0[32..].try_into().unwrap());
         // Disallow overflow representation
-        CtOption::new(Fq2::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+        c0.and_then(|c0| c1.map(|c1| Fq2::new(c0, c1)))
     }
 
     fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From f6c2bdd087aea55056331b3117fe9c6ce22d7d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:47 +0000
Subject: [PATCH 17/24] fix: refuse proving keys whose polynomials do not fit
 the circuit

---
 halo2_proofs/src/plonk.rs             | 14 +++++++++++++-
 halo2_proofs/src/plonk/permutation.rs |  8 ++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 2dfb959..b753c1a 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -372,7 +372,19 @@ where
         let fixed_values = read_polynomial_vec(reader, format)?;
         let fixed_polys = read_polynomial_vec(reader, format)?;
         //let fixed_cosets = read_polynomial_vec(reader, format)?;
-        let permutation = permutation::ProvingKey::read(reader, format)?;
+        let permutation = permutation::ProvingKey::<C>::read(reader, format)?;
+        let n = 1usize << vk.domain.k();
+        let fits = l0.len() == n
+            && l_last.len() == n
+            && l_active_row.len() == n
+            && fixed_values.len() == vk.fixed_commitments.len()
+            && fixed_values.iter().all(|poly| poly.len() == n)
+            && fixed_polys.len() == vk.fixed_commitments.len()
+            && fixed_polys.iter().all(|poly| poly.len() == n)
+            && permutation.fits(vk.permutation.commitments.len(), n);
+        if !fits {
+            return Err("Proving key does not fit the circuit");
+        }
         let ev = Evaluator::new(vk.cs());
         Ok(Self {
             vk,
diff --git a/halo2_proofs/src/plonk/permutation.rs b/halo2_proofs/src/plonk/permutation.rs
index 2cc0b12..dfbf8bb 100644
--- a/halo2_proofs/src/plonk/permutation.rs
+++ b/halo2_proofs/src/plonk/permutation.rs
@@ -142,6 +142,14 @@ where
         })
     }
 
+    /// Whether the key consists of polynomials of length `n` for `columns` columns.
+    pub(super) fn fits(&self, columns: usize, n: usize) -> bool {
+        self.permutations.len() == columns
+            && self.permutations.iter().all(|poly| poly.len() == n)
+            && self.polys.len() == columns
+            && self.polys.iter().all(|poly| poly.len() == n)
+    }
+
     /// Writes proving key for a single permutation argument to buffer using `Polynomial::write`.  
     pub(super) fn write<W: io::Write>(
         &self,
-- 
2.43.0


From 3f737dfa29d8b8fa3da79b31027ad45ba8a01033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:03 +0000
Subject: [PATCH 18/24] fix: refuse compressed points with stray bits beside
 the sign

---
 halo2curves/src/derive/curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index b13ac5f..6265d46 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -610,8 +610,10 @@ macro_rules! new_curve_impl {
                 tmp[$compressed_size - 1] &= 0b0111_1111;
                 let mut xbytes = [0u8; $base::size()];
                 xbytes.copy_from_slice(&tmp[ ..$base::size()]);
+                // Only the sign may be set after the x coordinate.
+                let canonical = Choice::from(tmp[$base::size()..].iter().all(|b| *b == 0) as u8);
 
-                $base::from_bytes(&xbytes).and_then(|x| {
+                $base::from_bytes(&xbytes).and_then(|x| CtOption::new(x, canonical)).and_then(|x| {
                     CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {
                         let x3 = x.square() * x;
                         (x3 + $name::curve_constant_b()).sqrt().and_then(|y| {
-- 
2.43.0


From 98bc0225c0b5cc2d020162564e098d2a529b5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:48 +0000
Subject: [PATCH 19/24] hook: construct prover queries under cfg(verif_hooks)

---
 halo2_proofs/src/poly/query.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/halo2_proofs/src/poly/query.rs b/halo2_proofs/src/poly/query.rs
index d66a488..1d924b1 100644
--- a/halo2_proofs/src/poly/query.rs
+++ b/halo2_proofs/src/poly/query.rs
@@ -28,6 +28,18 @@ pub struct ProverQuery<'com, C: CurveAffine> {
     pub(crate) blind: Blind<C::Scalar>,
 }
 
+#[cfg(verif_hooks)]
+impl<'com, C: CurveAffine> ProverQuery<'com, C> {
+    /// Create a new prover query (for verification harnesses).
+    pub fn hook_new(
+        poly: &'com Polynomial<C::Scalar, Coeff>,
+        point: C::Scalar,
+        blind: Blind<C::Scalar>,
+    ) -> Self {
+        ProverQuery { point, poly, blind }
+    }
+}
+
 #[doc(hidden)]
 #[derive(Copy, Clone)]
 pub struct PolynomialPointer<'com, C: CurveAffine> {
-- 
2.43.0


From 3a0965d135c68e57c07533271b76b29eb6225cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:15 +0000
Subject: [PATCH 20/24] fix: refuse conflicting claims about one commitment at
 one point in SHPLONK and IPA

---
 halo2_proofs/src/poly/ipa/multiopen/verifier.rs |  6 +++++-
 .../src/poly/kzg/multiopen/shplonk/verifier.rs  |  5 ++++-
 halo2_proofs/src/poly/query.rs                  | 17 +++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/poly/ipa/multiopen/verifier.rs b/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
index 0c4888f..4d3c2cd 100644
--- a/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
+++ b/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
@@ -13,7 +13,7 @@ use crate::poly::commitment::{Params, Verifier, MSM};
 use crate::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA, ParamsVerifierIPA};
 use crate::poly::ipa::msm::MSMIPA;
 use crate::poly::ipa::strategy::GuardIPA;
-use crate::poly::query::{CommitmentReference, VerifierQuery};
+use crate::poly::query::{has_conflicting_evals, CommitmentReference, VerifierQuery};
 use crate::poly::strategy::VerificationStrategy;
 use crate::poly::Error;
 use crate::transcript::{EncodedChallenge, TranscriptRead};
@@ -47,6 +47,10 @@ impl<'params, C: CurveAffine> Verifier<'params, IPACommitmentScheme<C>>
         'params: 'com,
         I: IntoIterator<Item = VerifierQuery<'com, C, MSMIPA<'params, C>>> + Clone,
     {
+        if has_conflicting_evals(queries.clone()) {
+            return Err(Error::OpeningError);
+        }
+
         // Sample x_1 for compressing openings at the same point sets together
         let x_1: ChallengeX1<_> = transcript.squeeze_challenge_scalar();
 
diff --git a/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs b/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
index f6845f7..3f8a97b 100644
--- a/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
+++ b/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
@@ -15,7 +15,7 @@ use crate::poly::kzg::msm::DualMSM;
 use crate::poly::kzg::msm::{PreMSM, MSMKZG};
 use crate::poly::kzg::strategy::{AccumulatorStrategy, GuardKZG, SingleStrategy};
 use crate::poly::query::Query;
-use crate::poly::query::{CommitmentReference, VerifierQuery};
+use crate::poly::query::{has_conflicting_evals, CommitmentReference, VerifierQuery};
 use crate::poly::strategy::VerificationStrategy;
 use crate::poly::{
     commitment::{Params, ParamsVerifier},
@@ -64,6 +64,9 @@ where
     where
         I: IntoIterator<Item = VerifierQuery<'com, E::G1Affine, MSMKZG<E>>> + Clone,
     {
+        if has_conflicting_evals(queries.clone()) {
+            return Err(Error::OpeningError);
+        }
         let intermediate_sets = construct_intermediate_sets(queries);
         let (rotation_sets, super_point_set) = (
             intermediate_sets.rotation_sets,
diff --git a/halo2_proofs/src/poly/query.rs b/halo2_proofs/src/poly/query.rs
index 1d924b1..bff2a7f 100644
--- a/halo2_proofs/src/poly/query.rs
+++ b/halo2_proofs/src/poly/query.rs
@@ -4,6 +4,7 @@ use super::commitment::{Blind, CommitmentScheme, Params, MSM};
 use crate::{
     arithmetic::eval_polynomial,
     poly::{commitment, Coeff, Polynomial},
+    Vec,
 };
 use ff::Field;
 use halo2curves::CurveAffine;
@@ -17,6 +18,22 @@ pub trait Query<F>: Sized + Clone + Send + Sync {
     fn get_commitment(&self) -> Self::Commitment;
 }
 
+/// Whether two of the queries claim different evaluations of one commitment at
+/// one point. At most one of them can be opened, so none of them may be
+/// dropped in favour of the other.
+pub(crate) fn has_conflicting_evals<F: Field, Q: Query<F, Eval = F>>(
+    queries: impl IntoIterator<Item = Q>,
+) -> bool {
+    let queries = queries.into_iter().collect::<Vec<_>>();
+    queries.iter().enumerate().any(|(i, a)| {
+        queries[..i].iter().any(|b| {
+            a.get_commitment() == b.get_commitment()
+                && a.get_point() == b.get_point()
+                && a.get_eval() != b.get_eval()
+        })
+    })
+}
+
 /// A polynomial query at a point
 #[derive(Debug, Clone)]
 pub struct ProverQuery<'com, C: CurveAffine> {
-- 
2.43.0


From d7ddb0491482f55cb564cb54469a1baf77ef8acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:48 +0000
Subject: [PATCH 21/24] fix: refuse a second assignment of a table cell

---
 halo2_proofs/src/circuit/floor_planner/single_pass.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/halo2_proofs/src/circuit/floor_planner/single_pass.rs b/halo2_proofs/src/circuit/floor_planner/single_pass.rs
index 4d9f0da..777f35d 100644
--- a/halo2_proofs/src/circuit/floor_planner/single_pass.rs
+++ b/halo2_proofs/src/circuit/floor_planner/single_pass.rs
@@ -440,6 +440,11 @@ impl<'r, 'a, F: Field, CS: Assignment<F> + 'a> TableLayouter<F>
 
         let entry = self.default_and_assigned.entry(column).or_default();
 
+        if let Some(true) = entry.1.get(offset) {
+            // The cell has already been assigned to.
+            return Err(Error::Synthesis); // TODO better error
+        }
+
         let mut value = Value::unknown();
         self.cs.assign_fixed(
             annotation,
-- 
2.43.0


From e8129aa5da0709537ea6bd5a7a9bff9eec07884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:17 +0000
Subject: [PATCH 22/24] fix: an element of Fq6 is zero only if all three
 coefficients are

---
 halo2curves/src/bn256/fq6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2curves/src/bn256/fq6.rs b/halo2curves/src/bn256/fq6.rs
index cbf8cb1..4679d6e 100644
--- a/halo2curves/src/bn256/fq6.rs
+++ b/halo2curves/src/bn256/fq6.rs
@@ -401,7 +401,7 @@ impl Field for Fq6 {
     }
 
     fn is_zero(&self) -> Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From 4f36640a79b07e90eb7654d842fa7e67a486d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:13 +0000
Subject: [PATCH 23/24] fix: encode the sign of y of a G2 point so that the
 point decodes again when y has no real part

---
 halo2curves/src/bn256/fq2.rs    | 4 +++-
 halo2curves/src/derive/curve.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/halo2curves/src/bn256/fq2.rs b/halo2curves/src/bn256/fq2.rs
index 033851f..2af3dac 100644
--- a/halo2curves/src/bn256/fq2.rs
+++ b/halo2curves/src/bn256/fq2.rs
@@ -552,8 +552,10 @@ impl ff::PrimeField for Fq2 {
         Fq2Bytes(self.to_bytes())
     }
 
+    /// The parity of the first nonzero coefficient, so that exactly one of a
+    /// nonzero element and its negation is odd.
     fn is_odd(&self) -> Choice {
-        Choice::from(self.to_repr().as_ref()[0] & 1)
+        self.c0.is_odd() | (self.c0.is_zero() & self.c1.is_odd())
     }
 
     fn multiplicative_generator() -> Self {
diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index 6265d46..ae4b46a 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -617,7 +617,7 @@ macro_rules! new_curve_impl {
                     CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {
                         let x3 = x.square() * x;
                         (x3 + $name::curve_constant_b()).sqrt().and_then(|y| {
-                            let sign = Choice::from(y.to_bytes()[0] & 1);
+                            let sign = y.is_odd();
 
                             let y = $base::conditional_select(&y, &-y, ysign ^ sign);
 
@@ -642,7 +642,7 @@ macro_rules! new_curve_impl {
                     $name_compressed::default()
                 } else {
                     let (x, y) = (self.x, self.y);
-                    let sign = (y.to_bytes()[0] & 1) << 7;
+                    let sign = y.is_odd().unwrap_u8() << 7;
                     let mut xbytes = [0u8; $compressed_size];
                     xbytes[..$base::size()].copy_from_slice(&x.to_bytes());
                     xbytes[$compressed_size - 1] |= sign;
-- 
2.43.0


From 7110a7c68713c0359776965480e248d16e12e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:03 +0000
Subject: [PATCH 24/24] fix: bind the base of variable-base scalar
 multiplication in the incomplete-addition rows

The first row of x_p, y_p was assigned but not constrained to equal the base, so a
prover could use any base for all but the last four bits of the scalar.
---
 halo2_gadgets/src/ecc/chip/mul/incomplete.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
index 9d99759..8945522 100644
--- a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
@@ -304,9 +304,16 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
             z = region.assign_advice(|| "z", self.z, row + offset, || z_val)?;
             zs.push(Z(z.clone()));
 
-            // Assign `x_p`, `y_p`
-            region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
-            region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            // Assign `x_p`, `y_p`. The first row is constrained to equal `base`; the
+            // `q_mul_2` gate constrains the other rows to equal the first one.
+            if row == 0 {
+                let x_p_col = self.double_and_add.x_p;
+                base.x.copy_advice(|| "x_p", region, x_p_col, row + offset)?;
+                base.y.copy_advice(|| "y_p", region, self.y_p, row + offset)?;
+            } else {
+                region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
+                region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            }
 
             // If the bit is set, use `y`; if the bit is not set, use `-y`
             let y_p = y_p
-- 
2.43.0

