From 36242668fbe4e1084a1b4ecfe43f5aad4884794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:42 +0000
Subject: [PATCH 1/9] fix: pretty-print every input file when printing to
 stdout

---
 mutagenyx/src/pretty_printing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 7de8a2e..76ffe26 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -45,7 +45,7 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
         if args.stdout {
             let mut stdout = std::io::stdout();
             match pretty_print_file_to_stream(&file_name, &mut stdout, &mut preferences) {
-                Ok(_) => return,
+                Ok(_) => {}
                 Err(e) => println!("Unable to pretty-print {}: {}", file_name, e),
             }
         } else {
-- 
2.43.0


From 8181fab7a16c5ea79bf0a8fe0f6df6924db56d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:43 +0000
Subject: [PATCH 2/9] fix: do not let the seed of one configuration file leak
 into the following files

---
 mutagenyx/src/mutation_generator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index cf68305..df8b577 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -113,7 +113,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     // Select a random number generator seed based on args.rng_seed. If args.rng_seed is less
     // than 0, then use a seed based off of time (we don't need cryptographic randomness).
-    let mut seed: u64 = if args.rng_seed < 0 {
+    let seed: u64 = if args.rng_seed < 0 {
         let start = SystemTime::now();
         let since_the_epoch = start.duration_since(UNIX_EPOCH);
         match since_the_epoch {
@@ -133,6 +133,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
         let mut actual_mutations = mutations.clone();
         let mut actual_functions = args.function.clone();
         let mut actual_number_of_mutants = args.num_mutants;
+        let mut actual_seed = seed;
         let mut actual_verify = args.validate_mutants;
         let mut actual_output_directory = PathBuf::from_str(&args.output_directory).unwrap();
         let mut actual_use_stdout = args.stdout;
@@ -164,7 +165,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
             // Here we update the random number generator from the configuration details seed if the
             // details have a new seed.
             if let Some(s) = configuration_details.seed {
-                seed = s;
+                actual_seed = s;
             };
 
             // Check to see if the configuration file requested a different set of mutation algorithms.
@@ -199,8 +200,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 let generator_params = GeneratorParameters {
                     file_name: file_to_mutate_name,
                     number_of_mutants: actual_number_of_mutants,
-                    rng_seed: seed,
-                    rng: Pcg64::seed_from_u64(seed),
+                    rng_seed: actual_seed,
+                    rng: Pcg64::seed_from_u64(actual_seed),
                     output_directory: actual_output_directory.clone(),
                     use_stdout: actual_use_stdout,
                     mutations: actual_mutations.clone(),
@@ -217,7 +218,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
             let generator_params = GeneratorParameters {
                 file_name: actual_file_name,
                 number_of_mutants: actual_number_of_mutants,
-                rng_seed: seed,
+                rng_seed: actual_seed,
                 rng: pcg.clone(),
                 output_directory: actual_output_directory,
                 use_stdout: actual_use_stdout,
-- 
2.43.0


From 53a127215a2c9b76ff87950b0b5e7265ee6707ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 3/9] fix: choose the swapped Solidity function arguments
 reproducibly

---
 mutagenyx_lib/src/solidity/mutators.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index e547ad9..3cb8421 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -18,7 +18,7 @@ use rand::seq::SliceRandom;
 use rand::{Rng, RngCore};
 use rand_pcg::*;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 /// Return a new integer literal node representing an integer literal number.
@@ -1044,7 +1044,8 @@ impl Mutator<SolidityAST> for SwapFunctionArgumentsMutator {
         // nodes of the same type so that we can swap them.
         if let Some(mut arguments_node) = node.take_value_for_key("arguments") {
             if let Some(arguments_array) = arguments_node.as_array_mut() {
-                let mut arg_map: HashMap<&str, Vec<IndexedNode>> = HashMap::new();
+                // An ordered map, the choice below must depend on nothing but the random numbers.
+                let mut arg_map: BTreeMap<&str, Vec<IndexedNode>> = BTreeMap::new();
                 for (index, value) in arguments_array.iter().enumerate() {
                     if let Some(type_descriptions_node) = value.get("typeDescriptions") {
                         if let Some(type_string) =
-- 
2.43.0


From d11dd8ead43134bfeb8f2f37b775ac31b5c3cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 4/9] fix: put the commented block back under the key it was
 taken from

---
 mutagenyx_lib/src/solidity/commenter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index 0dfda92..c5a0ab1 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -56,7 +56,7 @@ fn insert_comment_into_node_with_key(
                         {
                             statements_array.insert(0, comment_node);
                         }
-                        node.set_node_for_key("body", body_node);
+                        node.set_node_for_key(key, body_node);
                         return true;
                     }
                 }
-- 
2.43.0


From 0ce971caa4ab0caa7102566bb62bf03430ffce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 5/9] fix: do not loop forever on a Solidity function call with
 only literal arguments

---
 mutagenyx_lib/src/solidity/mutators.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 3cb8421..445db7b 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -878,23 +878,12 @@ impl Mutator<SolidityAST> for FunctionCallMutator {
                 if let Some(arguments_node) = node.get("arguments") {
                     if let Some(arguments_array) = arguments_node.as_array() {
                         if !arguments_array.is_empty() {
-                            let mut has_literal = false;
+                            // The call gets replaced with an argument that is not a literal.
                             for value in arguments_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Literal" {
-                                        has_literal = true;
-                                        break;
-                                    }
+                                if value.get_str_for_key("nodeType") != Some("Literal") {
+                                    return true;
                                 }
                             }
-
-                            if has_literal && arguments_array.len() > 1 {
-                                return true;
-                            } else if has_literal {
-                                return false;
-                            }
-
-                            return true;
                         }
                     }
                 }
-- 
2.43.0


From f86c879d6883354cf89154becae58445da16e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 6/9] fix: do not loop forever when swapping the lines of a
 block with several returns

---
 mutagenyx_lib/src/solidity/mutators.rs | 17 ++++++-----------
 mutagenyx_lib/src/vyper/mutators.rs    | 17 ++++++-----------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 445db7b..0aac678 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1499,21 +1499,16 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
                         if statements_array.len() >= 2 {
-                            let mut found_return_statement = false;
+                            let mut swappable_statements = 0;
                             for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if value_node_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
+                                if value.get_str_for_key("nodeType") != Some("Return") {
+                                    swappable_statements += 1;
                                 }
                             }
 
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || statements_array.len() >= 3 {
+                            // The mutation does not swap return statements, so the body must have
+                            // at least two other statements.
+                            if swappable_statements >= 2 {
                                 return true;
                             }
                         }
diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index b6b93f7..0bb3e6f 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1590,21 +1590,16 @@ impl Mutator<VyperAST> for SwapLinesMutator {
                 if let Some(body_node) = node.get(&self.key) {
                     if let Some(body_array) = body_node.as_array() {
                         if body_array.len() >= 2 {
-                            let mut found_return_statement = false;
+                            let mut swappable_statements = 0;
                             for value in body_array {
-                                if let Some(value_ast_type) = value.get_str_for_key("ast_type") {
-                                    if value_ast_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
-                                    }
+                                if value.get_str_for_key("ast_type") != Some("Return") {
+                                    swappable_statements += 1;
                                 }
                             }
 
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || body_array.len() >= 3 {
+                            // The mutation does not swap return statements, so the body must have
+                            // at least two other statements.
+                            if swappable_statements >= 2 {
                                 return true;
                             }
                         }
-- 
2.43.0


From 26967708c60a77298238328b1b4eeb75e1f44043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 7/9] fix: do not loop forever when no statement of a block can
 be wrapped in unchecked

---
 mutagenyx_lib/src/solidity/mutators.rs | 32 +++++---------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 0aac678..0a48190 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1832,35 +1832,15 @@ impl Mutator<SolidityAST> for SolidityUncheckedBlockMutator {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
                         if !statements_array.is_empty() {
-                            let mut have_return_statement = false;
-                            let mut have_unchecked_block_statement = false;
-                            let mut required_length: usize = 1;
+                            // We need at least one statement other than a return statement or an
+                            // unchecked block in order for the algorithm to work.  We do not wrap
+                            // a return statement or an unchecked block statement in unchecked{}.
                             for value in statements_array {
-                                if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if (!have_return_statement) && value_node_type == "Return" {
-                                        have_return_statement = true;
-                                        required_length += 1;
-                                    }
-                                    if (!have_unchecked_block_statement)
-                                        && value_node_type == "UncheckedBlock"
-                                    {
-                                        have_unchecked_block_statement = true;
-                                        required_length += 1;
-                                    }
-
-                                    if have_return_statement && have_unchecked_block_statement {
-                                        break;
-                                    }
+                                match value.get_str_for_key("nodeType") {
+                                    Some("Return") | Some("UncheckedBlock") => {}
+                                    _ => return true,
                                 }
                             }
-
-                            // If the Block node has a return statement and/or an UncheckedBlock statement,
-                            // we need at least one more statement than block + unchecked block
-                            // in order for the algorithm to work.  We do not wrap a return statement
-                            // or an unchecked block statement in unchecked{}.
-                            if statements_array.len() >= required_length {
-                                return true;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From ad43fffcd0db52d51dc5133a2f493f5b94b46aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 8/9] fix: do not panic on a Vyper operator without a known
 spelling

---
 mutagenyx_lib/src/vyper/mutators.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 0bb3e6f..3dc47ea 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1469,9 +1469,10 @@ impl Mutator<VyperAST> for SwapOperatorArgumentsMutator {
             if ast_type == "BinOp" || ast_type == "BoolOp" || ast_type == "Compare" {
                 if let Some(op_node) = node.get("op") {
                     if let Some(op_string) = op_node.get_str_for_key("ast_type") {
-                        let converted_operator = self.operator_map[&op_string];
-                        if self.valid_operators.contains(&converted_operator) {
-                            return true;
+                        if let Some(converted_operator) = self.operator_map.get(op_string) {
+                            if self.valid_operators.contains(converted_operator) {
+                                return true;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From f42df85182ebf5e7ef911c9f4347e85e2b652384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:33 +0000
Subject: [PATCH 9/9] fix: hand the allowed paths to the Solidity compiler as
 one argument

---
 .../src/solidity/language_interface.rs        | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 70f9b41..08f4245 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -186,21 +186,20 @@ fn get_solidity_compiler_flags_from_preferences(prefs: &Preferences) -> Vec<Stri
                 }
             }
             if let Some(allow_paths_array) = compiler_prefs.get_array_for_key(ALLOW_PATHS_KEY) {
-                if !allow_paths_array.is_empty() {
-                    args.push(String::from("--allow-paths"));
-                    let mut i: usize = 0;
-                    while i < allow_paths_array.len() {
-                        let value = &allow_paths_array[i];
-                        if let PreferenceValue::String(s) = value {
-                            let mut path_value = s.clone();
-                            if i < (allow_paths_array.len() - 1) {
-                                path_value += ",";
-                            }
-                            args.push(path_value);
+                // The compiler takes the paths as one comma separated argument.
+                let mut allow_paths = String::new();
+                for path in &allow_paths_array {
+                    if let PreferenceValue::String(s) = path {
+                        if !allow_paths.is_empty() {
+                            allow_paths += ",";
                         }
-                        i += 1;
+                        allow_paths += s;
                     }
                 }
+                if !allow_paths.is_empty() {
+                    args.push(String::from("--allow-paths"));
+                    args.push(allow_paths);
+                }
             }
             if let Some(remappings_array) = compiler_prefs.get_array_for_key(REMAPPINGS_KEY) {
                 for mapping in &remappings_array {
-- 
2.43.0

