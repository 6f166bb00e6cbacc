From 362bd41f15e4bd1e3520c71b9789a320234380c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:32 +0000
Subject: [PATCH 01/12] fix: report a division by zero instead of panicking on
 x % 0

---
 circom_algebra/src/modular_arithmetic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 60c386c..2b4b9dd 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -58,7 +58,11 @@ pub fn idiv(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, Ari
 pub fn mod_op(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, ArithmeticError> {
     let left = modulus(left, field);
     let right = modulus(right, field);
-    Result::Ok(modulus(&left, &right))
+    if right == BigInt::from(0) {
+        Result::Err(ArithmeticError::DivisionByZero)
+    } else {
+        Result::Ok(modulus(&left, &right))
+    }
 }
 pub fn pow(base: &BigInt, exp: &BigInt, field: &BigInt) -> BigInt {
     base.modpow(exp, field)
-- 
2.43.0


From cc751a5bd178ad194b02a4ece541791d17d978ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 02/12] fix: shift by a huge amount gives 0 instead of an error
 or memory exhaustion

---
 circom_algebra/src/modular_arithmetic.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 2b4b9dd..431c33a 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -116,9 +116,11 @@ pub fn shift_l(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
+        let usize_repr = match right.to_usize() {
+            Some(bits) if bits < field.bits() => bits,
+            // every bit is shifted above the mask
+            _ => return Result::Ok(BigInt::from(0)),
+        };
         let value = modulus(&((left * &num_traits::pow(two, usize_repr)) & &mask(field)), field);
         Result::Ok(value)
     } else {
@@ -129,9 +131,11 @@ pub fn shift_r(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
+        let usize_repr = match right.to_usize() {
+            Some(bits) if bits < left.bits() => bits,
+            // every bit is shifted out
+            _ => return Result::Ok(BigInt::from(0)),
+        };
         let value = left / &num_traits::pow(two, usize_repr);
         Result::Ok(value)
     } else {
-- 
2.43.0


From 973f74fb3bd7a148fa8b106469d52d18f7c52543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 03/12] fix: report an index equal to the number of cells as
 out of bounds

---
 program_structure/src/utils/memory_slice.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/program_structure/src/utils/memory_slice.rs b/program_structure/src/utils/memory_slice.rs
index 354f643..9f9b354 100644
--- a/program_structure/src/utils/memory_slice.rs
+++ b/program_structure/src/utils/memory_slice.rs
@@ -321,7 +321,7 @@ impl<C: Clone> MemorySlice<C> {
         index: usize,
         new_value: C,
     ) -> Result<(), MemoryError> {
-        if index > MemorySlice::get_number_of_cells(memory_slice) {
+        if index >= MemorySlice::get_number_of_cells(memory_slice) {
             return Result::Err(MemoryError::OutOfBoundsError);
         }
         memory_slice.values[index] = new_value;
@@ -333,7 +333,7 @@ impl<C: Clone> MemorySlice<C> {
         index: usize,
     ) -> Result<Vec<SliceCapacity>, MemoryError> {
         let mut number_cells = MemorySlice::get_number_of_cells(memory_slice);
-        if index > number_cells {
+        if index >= number_cells {
             return Result::Err(MemoryError::OutOfBoundsError);
         } else {
             let mut access = vec![];
@@ -372,7 +372,7 @@ impl<C: Clone> MemorySlice<C> {
         memory_slice: &MemorySlice<C>,
         index: usize,
     ) -> Result<C, MemoryError> {
-        if index > MemorySlice::get_number_of_cells(memory_slice) {
+        if index >= MemorySlice::get_number_of_cells(memory_slice) {
             return Result::Err(MemoryError::OutOfBoundsError);
         }
         return Result::Ok(memory_slice.values[index].clone());
@@ -382,7 +382,7 @@ impl<C: Clone> MemorySlice<C> {
         memory_slice: &'a mut MemorySlice<C>,
         index: usize,
     ) -> Result<&'a mut C, MemoryError> {
-        if index > MemorySlice::get_number_of_cells(memory_slice) {
+        if index >= MemorySlice::get_number_of_cells(memory_slice) {
             return Result::Err(MemoryError::OutOfBoundsError);
         }
         return Result::Ok(memory_slice.values.get_mut(index).unwrap());    }
@@ -405,7 +405,7 @@ impl<C: Clone> MemorySlice<C> {
         memory_slice: &'a MemorySlice<C>,
         index: usize,
     ) -> Result<&'a C, MemoryError> {
-        if index > MemorySlice::get_number_of_cells(memory_slice) {
+        if index >= MemorySlice::get_number_of_cells(memory_slice) {
             return Result::Err(MemoryError::OutOfBoundsError);
         }
         Result::Ok(&memory_slice.values[index])
@@ -414,7 +414,7 @@ impl<C: Clone> MemorySlice<C> {
         memory_slice: &'a MemorySlice<C>,
         index: usize,
     ) -> &'a C {
-        if index > MemorySlice::get_number_of_cells(memory_slice) {
+        if index >= MemorySlice::get_number_of_cells(memory_slice) {
             unreachable!("The index is too big for the slice");
         }
         &memory_slice.values[index]
@@ -431,7 +431,7 @@ impl<C: Clone> MemorySlice<C> {
         memory_slice: &'a mut MemorySlice<C>,
         index: usize,
     ) -> Result<&'a mut C, MemoryError> {
-        if index > MemorySlice::get_number_of_cells(memory_slice) {
+        if index >= MemorySlice::get_number_of_cells(memory_slice) {
             return Result::Err(MemoryError::OutOfBoundsError);
         }
         Result::Ok(&mut memory_slice.values[index])
-- 
2.43.0


From fd778b6a307b30c5d93b08389e89626b3b51e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:30 +0000
Subject: [PATCH 04/12] fix: report an unclosed comment at its byte position

---
 parser/src/parser_logic.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 9851362..fa306fe 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -9,15 +9,12 @@ use program_structure::file_definition::FileID;
 pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollection> {
     let mut pp = String::new();
     let mut state = 0;
-    let mut loc = 0;
     let mut block_start = 0;
 
     let mut it = expr.chars();
     while let Some(c0) = it.next() {
-        loc += 1;
         match (state, c0) {
             (0, '/') => {
-                loc += 1;
                 match it.next() {
                     Some('/') => {
                         state = 1;
@@ -25,10 +22,11 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                         pp.push(' ');
                     }
                     Some('*') => {
-                        block_start = loc;
                         state = 2;
                         pp.push(' ');
                         pp.push(' ');
+                        // pp has the same byte length as the text read so far
+                        block_start = pp.len();
                     }
                     Some(c1) => {
                         pp.push(c0);
@@ -46,11 +44,9 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                 state = 0;
             }
             (2, '*') => {
-                loc += 1;
                 let mut next = it.next();
                 while next == Some('*') {
                     pp.push(' ');
-                    loc += 1;
                     next = it.next();
                 }
                 match next {
-- 
2.43.0


From a125db4ecebd92caf58eee9b524fd54e715c2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 05/12] fix: parse the main file once when it is included back

---
 parser/src/include_logic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 0b6b910..426c243 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -55,6 +55,10 @@ impl FileStack {
                     f_stack.current_location = file.clone();
                     f_stack.current_location.pop();
                     f_stack.black_paths.insert(file.clone());
+                    // includes are canonical paths, the file given by the user may not be
+                    if let Ok(canonical) = std::fs::canonicalize(&file) {
+                        f_stack.black_paths.insert(canonical);
+                    }
                     break Some(file);
                 }
                 _ => {}
@@ -81,6 +85,8 @@ impl IncludesGraph {
     }
 
     pub fn add_node(&mut self, path: PathBuf, custom_gates_pragma: bool, custom_gates_usage: bool) {
+        // edges are keyed by canonical paths
+        let path = std::fs::canonicalize(&path).unwrap_or(path);
         self.nodes.push(IncludesNode { path, custom_gates_pragma });
         if custom_gates_usage {
             self.custom_gates_nodes.push(self.nodes.len() - 1);
-- 
2.43.0


From e96ce0fffac6cfb2614b168e811fc672470872d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:39 +0000
Subject: [PATCH 06/12] fix: keep a second constant equality on a signal
 instead of dropping it

---
 constraint_list/src/constraint_simplification.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 66d7a21..dc61ee8 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -258,13 +258,20 @@ fn constant_eq_simplification(
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
-    for constraint in c_eq {
+    let mut solved: HashMap<usize, S> = HashMap::new();
+    for mut constraint in c_eq {
         let mut signals: Vec<_> = C::take_cloned_signals_ordered(&constraint).iter().cloned().collect();
         let signal = signals.pop().unwrap();
         if HashSet::contains(&forbidden, &signal) {
             LinkedList::push_back(&mut cons, constraint);
+        } else if let Some(previous) = HashMap::get(&solved, &signal) {
+            // the signal has been replaced by a constant already: keep what this constraint says of it
+            C::apply_substitution(&mut constraint, previous, field);
+            C::fix_constraint(&mut constraint, field);
+            LinkedList::push_back(&mut cons, constraint);
         } else {
             let sub = C::clear_signal_from_linear(constraint, &signal, field);
+            HashMap::insert(&mut solved, signal, sub.clone());
             LinkedList::push_back(&mut subs, sub);
         }
     }
-- 
2.43.0


From ab62f9889b2bbad3eb81e7df43ab7af6c69b600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:29 +0000
Subject: [PATCH 07/12] fix: size the table of input signals with integer
 arithmetic

The number of slots was computed as a power of two through f32: from
2^21+1 inputs on, the logarithm is rounded down, the table is smaller
than the list of inputs and the compiler aborts.
---
 code_producers/src/c_elements/mod.rs    | 2 +-
 code_producers/src/wasm_elements/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/mod.rs b/code_producers/src/c_elements/mod.rs
index 5852938..df0f15b 100644
--- a/code_producers/src/c_elements/mod.rs
+++ b/code_producers/src/c_elements/mod.rs
@@ -165,7 +165,7 @@ impl CProducer {
 //<<<<<<< HEAD  
 //=======
     pub fn get_input_hash_map_entry_size(&self) -> usize {
-        std::cmp::max(usize::pow(2,(self.main_input_list.len() as f32).log2().ceil() as u32),256)
+        std::cmp::max(self.main_input_list.len().next_power_of_two(), 256)
     }    
 //>>>>>>> 9f3da35a8ac3107190f8c85c8cf3ea1a0f8780a4
     pub fn get_number_of_witness(&self) -> usize {
diff --git a/code_producers/src/wasm_elements/mod.rs b/code_producers/src/wasm_elements/mod.rs
index 9ceb0d0..1281174 100644
--- a/code_producers/src/wasm_elements/mod.rs
+++ b/code_producers/src/wasm_elements/mod.rs
@@ -209,7 +209,7 @@ impl WASMProducer {
 //HEAD
 //=======
     pub fn get_input_hash_map_entry_size(&self) -> usize {
-        std::cmp::max(usize::pow(2,(self.main_input_list.len() as f32).log2().ceil() as u32),256)
+        std::cmp::max(self.main_input_list.len().next_power_of_two(), 256)
 //>>>>>>> 9f3da35a8ac3107190f8c85c8cf3ea1a0f8780a4
     }
     pub fn get_number_of_witness(&self) -> usize {
-- 
2.43.0


From db48eb36a02808a94f42e0a7ba10f9d2e060e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:34 +0000
Subject: [PATCH 08/12] fix: do not split log strings in the middle of a
 character

---
 .../src/abstract_syntax_tree/statement_builders.rs          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/program_structure/src/abstract_syntax_tree/statement_builders.rs b/program_structure/src/abstract_syntax_tree/statement_builders.rs
index 3c51078..241676b 100644
--- a/program_structure/src/abstract_syntax_tree/statement_builders.rs
+++ b/program_structure/src/abstract_syntax_tree/statement_builders.rs
@@ -70,7 +70,11 @@ fn split_string(str: String) -> Vec<LogArgument> {
     let sub_len = 230;
     let mut cur = str;
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_len, cur.len()));
+        let mut end = std::cmp::min(sub_len, cur.len());
+        while !cur.is_char_boundary(end) {
+            end -= 1;
+        }
+        let (chunk, rest) = cur.split_at(end);
         v.push(LogArgument::LogStr(chunk.to_string()));
         cur = rest.to_string();
     }
-- 
2.43.0


From 9af28012192c7275a27964e2accfb3cccce6af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:39 +0000
Subject: [PATCH 09/12] fix: check the arguments of parallel anonymous
 components

---
 parser/src/syntax_sugar_remover.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index a2ed76b..e199565 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -262,6 +262,9 @@ pub fn check_anonymous_components_expression(
             Result::Ok(())
         },
         ParallelOp { meta, rhe } => {
+            if rhe.is_anonymous_comp() {
+                return check_anonymous_components_expression(rhe);
+            }
             if !rhe.is_call() && !rhe.is_anonymous_comp() && rhe.contains_anonymous_comp() {
                 return Result::Err(anonymous_general_error(meta.clone(),"Bad use of parallel operator in combination with anonymous components ".to_string()));       
             }
-- 
2.43.0


From e298b9c36a995894a39d6b908b7b77b79c7465e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:59 +0000
Subject: [PATCH 10/12] fix: reject anonymous components and tuples in the main
 expression and in buses

---
 parser/src/syntax_sugar_remover.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index e199565..54c56a5 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -12,10 +12,13 @@ use num_bigint::BigInt;
 
 
 pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(), Report> {
-    if program_archive.get_main_expression().is_anonymous_comp() {
+    if program_archive.get_main_expression().contains_anonymous_comp() {
         return Result::Err(anonymous_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain an anonymous call  ".to_string()));
      
     }
+    if program_archive.get_main_expression().contains_tuple() {
+        return Result::Err(tuple_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain a tuple ".to_string()));
+    }
     let old_templates = program_archive.templates.clone();
 
     for (_name, t) in &mut program_archive.templates {
@@ -48,6 +51,17 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
             t.set_body(new_body);
         }            
     }
+
+    for (_, t) in &mut program_archive.buses {
+        let old_body = t.get_body().clone();
+        if old_body.contains_anonymous_comp(){
+            return Result::Err(anonymous_general_error(old_body.get_meta().clone(),"Buses cannot contain calls to anonymous templates".to_string()));
+        } else{
+            check_tuples_statement(&old_body)?;
+            let new_body = remove_tuples_from_statement(old_body)?;
+            t.set_body(new_body);
+        }
+    }
     Result::Ok(())
 }
 
-- 
2.43.0


From 5fab2146f1585cc43ccc3d683f58d63009b1d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:04 +0000
Subject: [PATCH 11/12] fix: execute loops with unknown condition until no
 other variable becomes unknown

---
 constraint_generation/src/execute.rs       | 38 ++++++++++++++++------
 program_structure/src/utils/environment.rs |  3 ++
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 0e5698a..04add2a 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -702,16 +702,25 @@ fn execute_statement(
                 if returned.is_some() {
                     break returned;
                 } else if condition_result.is_none() {
-                    let (returned, _, _) = execute_conditional_statement(
-                        cond,
-                        stmt,
-                        None,
-                        program_archive,
-                        runtime,
-                        actual_node,
-                        flags
-                    )?;
-                    break returned;
+                    // The number of iterations is not known: the body is executed until
+                    // it does not turn any other variable into unknown
+                    let mut unknown_cells = count_unknown_cells(&runtime.environment);
+                    break loop {
+                        let (returned, _, _) = execute_conditional_statement(
+                            cond,
+                            stmt,
+                            None,
+                            program_archive,
+                            runtime,
+                            actual_node,
+                            flags
+                        )?;
+                        let new_unknown_cells = count_unknown_cells(&runtime.environment);
+                        if returned.is_some() || new_unknown_cells == unknown_cells {
+                            break returned;
+                        }
+                        unknown_cells = new_unknown_cells;
+                    };
                 } else if !condition_result.unwrap() {
                     break returned;
                 }
@@ -2626,6 +2635,15 @@ fn perform_assign(
 }
 
 
+// Number of cells of the variables in scope whose value is not known
+fn count_unknown_cells(environment: &ExecutionEnvironment) -> usize {
+    environment
+        .get_variables_ref()
+        .flat_map(|(_, slice)| AExpressionSlice::get_reference_values(slice))
+        .filter(|value| value.is_nonquadratic())
+        .count()
+}
+
 // Evaluates the given condition and executes the corresponding statement. Returns a tuple (a,b) where a is the possible value returned and b is the value of the condition (in case the evaluation was successful)
 fn execute_conditional_statement(
     condition: &Expression,
diff --git a/program_structure/src/utils/environment.rs b/program_structure/src/utils/environment.rs
index cd181ed..1ff3253 100644
--- a/program_structure/src/utils/environment.rs
+++ b/program_structure/src/utils/environment.rs
@@ -156,6 +156,9 @@ where
         let last_block = self.variables.last_mut().unwrap();
         last_block.add_variable(variable_name, content);
     }
+    pub fn get_variables_ref(&self) -> impl Iterator<Item = &VC> {
+        self.variables.iter().flat_map(|block| block.variables.values())
+    }
     pub fn has_variable(&self, symbol: &str) -> bool {
         self.block_with_variable_symbol(symbol).is_some()
     }
-- 
2.43.0


From 77fcabaf56160073797366ce0efee75d31918754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:04 +0000
Subject: [PATCH 12/12] fix: loops pass on the variables they assign in
 unknown_known_analysis

---
 type_analysis/src/analyzers/unknown_known_analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/type_analysis/src/analyzers/unknown_known_analysis.rs b/type_analysis/src/analyzers/unknown_known_analysis.rs
index 61487d8..37076da 100644
--- a/type_analysis/src/analyzers/unknown_known_analysis.rs
+++ b/type_analysis/src/analyzers/unknown_known_analysis.rs
@@ -342,6 +342,7 @@ fn analyze(stmt: &Statement, entry_information: EntryInformation) -> ExitInforma
                 }   
             }
 
+            modified_variables.extend(exit.modified_variables);
             if constraints_declared && tag_out == Unknown {
                 add_report(
                     ReportCode::UnreachableConstraints,
-- 
2.43.0

