From 66371642da896ffc7fff8b363b507d7390aaaed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 01/14] fix: report x%0 as a division by zero instead of
 panicking

---
 src/syntax_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 90e843b..3947a47 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -157,7 +157,12 @@ impl OperationNode for BinaryNode {
                 }
                 Ok(operand_1 / operand_2)
             }
-            BinaryOperatorToken::Modulus => Ok(operand_1 % operand_2),
+            BinaryOperatorToken::Modulus => {
+                if *operand_2.numer() == BigInt::from(0) {
+                    return Err(Positioned::new(DivisionByZero, self.operator_position).into());
+                }
+                Ok(operand_1 % operand_2)
+            }
             BinaryOperatorToken::Exponent => {
                 let total_precision = args.precision + args.extra_precision;
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
-- 
2.43.0


From a2cf1f157624b2c6269f0755ade5bff7f12339d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 02/14] fix: report 0 raised to a negative power as a division
 by zero instead of panicking

---
 src/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 43fd238..74ddec6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,4 @@
-use crate::error::MathExecutionError::{self, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
@@ -81,6 +81,9 @@ pub fn exponentiate(
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
     if exponent.is_negative() {
+        if base.is_zero() {
+            return Err(DivisionByZero);
+        }
         base = base.inv();
     }
 
-- 
2.43.0


From 96bd15321355f6e1951a0f316f34e41ffdcaa28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 03/14] fix: let precision plus extra precision exceed 255
 without overflowing

---
 src/operations.rs  | 2 +-
 src/syntax_tree.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 74ddec6..ac10822 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -76,7 +76,7 @@ pub fn make_decimal_string(
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-    precision: u8,
+    precision: u16,
     radix: u8,
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 3947a47..2c3d7be 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -108,7 +108,7 @@ impl OperationNode for UnaryNode {
                 .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
         match self.operator {
             UnaryOperatorToken::SquareRoot => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u16::from(args.precision) + u16::from(args.extra_precision);
                 let one_half = BigRational::new(
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
@@ -164,7 +164,7 @@ impl OperationNode for BinaryNode {
                 Ok(operand_1 % operand_2)
             }
             BinaryOperatorToken::Exponent => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u16::from(args.precision) + u16::from(args.extra_precision);
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
-- 
2.43.0


From 8f5d75bc0be73f0f1e403d880fa09adeb30ccbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 04/14] fix: refuse --convert-to-radix 1, which cannot be
 displayed

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ac4fe58..3c7cd95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -66,7 +66,7 @@ pub struct Args {
     /// If specified, the output radix (base) will be set to this rather than being the same as the
     /// input radix.
     #[arg(long)]
-    #[arg(value_parser = clap::value_parser!(u8).range(1..17))]
+    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]
     convert_to_radix: Option<u8>,
 
     /// Maximum number of decimal digits to output.
-- 
2.43.0


From ab4e52b3772d843624b3f8f358f585c1344e377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 05/14] fix: a window with no room beside the indent is too
 narrow, not a division by zero

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3c7cd95..a39ebbc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -175,7 +175,7 @@ fn interactive_calc(
             let current_input = inputs.current_line();
             if args.alternate_screen || input_complete {
                 let wrap_str: String = std::iter::repeat(" ").take(PROMPT_STR.len()).collect();
-                if cols < wrap_str.len() {
+                if cols <= wrap_str.len() {
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-- 
2.43.0


From 6b93b68ca190654284d80760ffd50347913c52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 06/14] fix: compute roots of values between -1 and 1 instead
 of panicking

---
 src/operations.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index ac10822..c5cb678 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,7 +1,7 @@
 use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
-    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
+    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, One, Signed, Zero,
 };
 
 /// `BigRational` only seems to support fractional string conversion, but we want to support decimal
@@ -98,6 +98,13 @@ pub fn exponentiate(
     // `r^(1/d)`.
     let radicand = base.pow(exp_num);
 
+    // The starting point picked below is an integer and must not be 0. So if the magnitude of the
+    // radicand is less than 1, compute `1/((1/r)^(1/d))` instead.
+    if !exp_denom.is_one() && !radicand.is_zero() && radicand.abs() < BigRational::one() {
+        let root = BigRational::new(BigInt::one(), exp_denom.into());
+        return Ok(exponentiate(radicand.inv(), root, precision, radix)?.inv());
+    }
+
     // Step 3: Newton's Method
     // Given `r` and `d`, we want to compute `r^(1/d)`. We will call the result `x`.
     // So `r^(1/d) = x`, or `r = x^d`.
-- 
2.43.0


From b6d54488e60ab7585ed8e7b9944e84595d67cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 07/14] fix: keep the digits and steps of Newton's method
 bounded so that high degree roots finish

---
 src/operations.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index c5cb678..f80c1cb 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -129,8 +129,12 @@ pub fn exponentiate(
     // error from making our last guaranteed digit wrong.
     let precision = BigUint::from(precision + 1);
     let radix = BigInt::from(radix);
-    // The largest amount we are okay with being wrong by.
-    let max_error = BigRational::new(one_signed.clone(), radix.pow(precision).into());
+    // The largest amount we are okay with being wrong by. We can be wrong by up to `degree` times
+    // the size of the last step taken.
+    let max_error = BigRational::new(
+        one_signed.clone(),
+        Pow::pow(&radix, precision) * BigInt::from(degree.clone()),
+    );
     let f_magnitude = |x: &BigInt| -> BigRational {
         (BigRational::from(x.clone()).pow(&degree) - &radicand).abs()
     };
@@ -152,10 +156,13 @@ pub fn exponentiate(
     // Step 3.3: Use a binary search to find a good starting point for Newton's method. Otherwise
     // it takes forever.
     let mut x = {
+        // No root of the radicand can have more bits than this.
+        let root_bits = BigUint::from(radicand.to_integer().bits()) / &degree + &one;
+        let bound: BigInt = BigInt::from(2).pow(root_bits);
         let (mut lower_bound, mut upper_bound) = if radicand.is_negative() {
-            (radicand.to_integer(), BigInt::from(0))
+            (-bound, BigInt::from(0))
         } else {
-            (BigInt::from(0), radicand.to_integer())
+            (BigInt::from(0), bound)
         };
 
         let mut span = &upper_bound - &lower_bound;
@@ -184,13 +191,23 @@ pub fn exponentiate(
             return Ok(guess_ratio);
         }
 
-        guess_ratio
+        // Starting closer to 0 than the root, the first step can overshoot it by far. If it does,
+        // start from the integer just past the root instead.
+        let past_root = &guess_ratio + guess_ratio.signum();
+        if next_x(guess_ratio.clone()).abs() > past_root.abs() {
+            past_root
+        } else {
+            guess_ratio
+        }
     };
+    // Without rounding, the number of digits grows by a factor of `degree` in every step.
+    let scale = max_error.denom() * &radix * &radix;
+    let round = |x: BigRational| BigRational::new((x * &scale).round().to_integer(), scale.clone());
 
     // Step 3.4: Newton's method
     loop {
         let prev_x = x.clone();
-        x = next_x(x);
+        x = round(next_x(x));
         let error = (&x - prev_x).abs();
         if error <= max_error {
             break;
-- 
2.43.0


From 392f6592abefb1166ba24cb273b2e6c795a15af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 08/14] fix: wait for other sessions instead of failing with
 'database is locked'

A deferred transaction that has already read cannot wait for the lock when it
starts to write, so SQLite refuses it at once. Take the lock at the beginning.
---
 src/saved_data.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 005f008..94e18a7 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,7 +1,7 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
 use num::{bigint::BigInt, rational::BigRational};
-use rusqlite::{self, named_params, OptionalExtension, Transaction};
+use rusqlite::{self, named_params, OptionalExtension, Transaction, TransactionBehavior};
 use std::{env, fs::create_dir, io, path::Path};
 
 const DATA_ROOT_DIR_ENV_VAR_NAME: &str = "_B_UTIL_DATA_DIR";
@@ -136,7 +136,8 @@ impl SavedData {
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
 
-        let transaction = connection.transaction()?;
+        let transaction =
+            connection.transaction_with_behavior(TransactionBehavior::Immediate)?;
 
         transaction.execute(
             "CREATE TABLE IF NOT EXISTS meta_int(
@@ -241,7 +242,9 @@ impl SavedData {
     /// history until the expected maximum size is reached.
     /// Returns the id of the history entry that was inserted.
     pub fn add_to_input_history(&mut self, input: &str) -> Result<i64, Box<dyn std::error::Error>> {
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         let maybe_orig_front: Option<i64> = transaction.query_row(
             "SELECT value FROM input_history_tags WHERE key=:key",
             named_params! {
@@ -512,7 +515,9 @@ impl SavedData {
             .into());
         }
 
-        let mut transaction = self.connection.transaction()?;
+        let mut transaction = self
+            .connection
+            .transaction_with_behavior(TransactionBehavior::Immediate)?;
         transaction.execute(
             "INSERT OR REPLACE INTO meta_int (key, value) VALUES (:key, :value)",
             named_params! {
-- 
2.43.0


From 7824ac4242f1b8fc482f8f683155cef5be321649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 09/14] fix: sync the directory when a commit removes the
 journal

Otherwise a power loss can bring the journal back, and the next session rolls
back a line whose result was already shown.
---
 src/saved_data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 94e18a7..1db3e26 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -135,6 +135,9 @@ impl SavedData {
         let db_path = data_dir_path.join(HISTORY_DB_NAME);
         let mut connection = rusqlite::Connection::open(db_path)?;
         connection.execute("PRAGMA foreign_keys = ON;", ())?;
+        // The default does not sync the directory after a commit removes the journal. If the
+        // journal comes back after a power loss, the commit gets rolled back.
+        connection.execute("PRAGMA synchronous = EXTRA;", ())?;
 
         let transaction =
             connection.transaction_with_behavior(TransactionBehavior::Immediate)?;
-- 
2.43.0


From 755c82151ebcef4f73b89a53127bcb1300c52dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 10/14] fix: touch the variables a line uses before saving it
 evicts older lines

Otherwise a line that uses a variable last used by the oldest saved line
removes that variable from the database before touching it.
---
 src/commands.rs      | 38 ++++++++++++++++++++++++++++++++++++++
 src/input_history.rs |  5 ++++-
 src/main.rs          | 39 +++++++++++++++++++++++++++------------
 src/saved_data.rs    | 26 ++++++++++++++++++++++----
 4 files changed, 91 insertions(+), 17 deletions(-)

diff --git a/src/commands.rs b/src/commands.rs
index aa4634b..7463674 100644
--- a/src/commands.rs
+++ b/src/commands.rs
@@ -51,6 +51,15 @@ trait Command {
 
     fn long_help(&self, data: &DataForCommands) -> String;
 
+    /// Returns the variables that executing the command with these arguments uses.
+    fn variables_used(
+        &self,
+        _arguments: &Positioned<String>,
+        _tokenizer: &Tokenizer,
+    ) -> HashSet<String> {
+        HashSet::new()
+    }
+
     /// Returns an output string and a vector of variables touched by the command
     fn execute(
         &self,
@@ -98,6 +107,24 @@ impl CommandExecutor {
         }
     }
 
+    /// Returns the variables that executing the command with these arguments uses.
+    pub fn variables_used(
+        &self,
+        alias_name: &Positioned<String>,
+        arguments: &Positioned<String>,
+        tokenizer: &Tokenizer,
+    ) -> HashSet<String> {
+        let command_name = match self.alias_map.get(&alias_name.value) {
+            Some(name) => name,
+            None => &alias_name.value,
+        };
+
+        match self.command_map.get(command_name) {
+            Some(command) => command.variables_used(arguments, tokenizer),
+            None => HashSet::new(),
+        }
+    }
+
     pub fn execute_command(
         &mut self,
         alias_name: Positioned<String>,
@@ -257,6 +284,17 @@ impl Command for ReloadVarCommand {
         output
     }
 
+    fn variables_used(
+        &self,
+        arguments: &Positioned<String>,
+        tokenizer: &Tokenizer,
+    ) -> HashSet<String> {
+        match tokenizer.tokenize_variable_list(&arguments.value) {
+            Ok(variables) => variables.into_iter().map(|v| v.value).collect(),
+            Err(_) => HashSet::new(),
+        }
+    }
+
     fn execute(
         &self,
         _command_name: Positioned<String>,
diff --git a/src/input_history.rs b/src/input_history.rs
index 909351f..d8c1734 100644
--- a/src/input_history.rs
+++ b/src/input_history.rs
@@ -1,5 +1,6 @@
 use crate::error::InternalCalculatorError;
 use crate::saved_data::SavedData;
+use std::collections::HashSet;
 
 /// The input history effectively keeps three instances of the history of user input entries.
 /// Two are what we will call "primary" histories. These are only changed when inserting items. We
@@ -64,10 +65,11 @@ impl InputHistory {
     /// Indicates that we are done editing/composing the current line of input. See the docstring
     /// for `InputHistory` for details.
     /// If `SavedData` is available, this will store the `current_line` to the history in the
-    /// database. The function will then return the `id` of the inserted row.
+    /// database and touch the variables that it uses. The function will then return the `id` of the inserted row.
     /// If `SavedData` is not available, this function will always return `Ok(None)`.
     pub fn input_finished(
         &mut self,
+        vars_used: &HashSet<String>,
         maybe_db: Option<&mut SavedData>,
     ) -> Result<Option<i64>, Box<dyn std::error::Error>> {
         self.primary_internal_history
@@ -79,6 +81,7 @@ impl InputHistory {
         if let Some(db) = maybe_db {
             Ok(Some(db.add_to_input_history(
                 &self.primary_internal_history[self.primary_internal_history.len() - 1],
+                vars_used,
             )?))
         } else {
             Ok(None)
diff --git a/src/main.rs b/src/main.rs
index a39ebbc..f5f1f4d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,6 +24,7 @@ use crossterm::{
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
 use input_history::InputHistory;
 use operations::make_decimal_string;
+use position::Positioned;
 use saved_data::SavedData;
 use std::{
     cmp::{max, min},
@@ -510,6 +511,20 @@ fn interactive_calc(
     Ok(())
 }
 
+/// Returns the names of the variables in the given tokens.
+fn variables_in(tokens: &[Positioned<Token>]) -> HashSet<String> {
+    let mut variables: HashSet<String> = HashSet::new();
+    for positioned_token in tokens {
+        match &positioned_token.value {
+            Token::Variable(name) => {
+                variables.insert(name.clone());
+            }
+            _ => {}
+        }
+    }
+    variables
+}
+
 /// Evaluates the string input given to bcalc.
 fn calculate(
     input: &str,
@@ -520,12 +535,21 @@ fn calculate(
     mut maybe_inputs: Option<&mut InputHistory>,
     mut maybe_vars: Option<&mut VariableStore>,
 ) -> Result<String, CalculatorFailure> {
+    let parsed_input = tokenizer.tokenize(input, args.radix);
+    let vars_used: HashSet<String> = match &parsed_input {
+        Ok(ParsedInput::Tokens(tokens)) => variables_in(tokens),
+        Ok(ParsedInput::Command((command, command_args))) => {
+            command_executor.variables_used(command, command_args, tokenizer)
+        }
+        Err(_) => HashSet::new(),
+    };
+
     let maybe_input_history_id = match maybe_inputs.as_mut() {
-        Some(inputs) => inputs.input_finished(maybe_db.as_deref_mut())?,
+        Some(inputs) => inputs.input_finished(&vars_used, maybe_db.as_deref_mut())?,
         None => None,
     };
 
-    let tokens = match tokenizer.tokenize(input, args.radix)? {
+    let tokens = match parsed_input? {
         ParsedInput::Tokens(t) => t,
         ParsedInput::Command((command, command_args)) => {
             let (message, vars_touched) = command_executor.execute_command(
@@ -549,16 +573,7 @@ fn calculate(
     };
 
     if let Some(vars) = maybe_vars.as_deref_mut() {
-        let mut vars_touched: HashSet<String> = HashSet::new();
-        for positioned_token in &tokens {
-            match &positioned_token.value {
-                Token::Variable(name) => {
-                    vars_touched.insert(name.clone());
-                }
-                _ => {}
-            }
-        }
-        for var_name in &vars_touched {
+        for var_name in &vars_used {
             vars.touch(&var_name, maybe_input_history_id, maybe_db.as_deref_mut())?;
         }
     }
diff --git a/src/saved_data.rs b/src/saved_data.rs
index 1db3e26..3632018 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,8 +1,8 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
 use num::{bigint::BigInt, rational::BigRational};
-use rusqlite::{self, named_params, OptionalExtension, Transaction, TransactionBehavior};
-use std::{env, fs::create_dir, io, path::Path};
+use rusqlite::{self, named_params, Connection, OptionalExtension, Transaction, TransactionBehavior};
+use std::{collections::HashSet, env, fs::create_dir, io, path::Path};
 
 const DATA_ROOT_DIR_ENV_VAR_NAME: &str = "_B_UTIL_DATA_DIR";
 const DATA_DIR_NAME: &str = "bcalc";
@@ -243,8 +243,14 @@ impl SavedData {
     /// the internal mechanisms of the list.
     /// If this causes the history to exceed `MAX_HISTORY_SIZE`, items will be evicted from the
     /// history until the expected maximum size is reached.
+    /// The variables that the input uses are touched before that, so that they are not removed
+    /// along with the evicted items.
     /// Returns the id of the history entry that was inserted.
-    pub fn add_to_input_history(&mut self, input: &str) -> Result<i64, Box<dyn std::error::Error>> {
+    pub fn add_to_input_history(
+        &mut self,
+        input: &str,
+        vars_used: &HashSet<String>,
+    ) -> Result<i64, Box<dyn std::error::Error>> {
         let mut transaction = self
             .connection
             .transaction_with_behavior(TransactionBehavior::Immediate)?;
@@ -298,6 +304,10 @@ impl SavedData {
             }
         }
 
+        for name in vars_used {
+            SavedData::touch_variable_with_connection(&transaction, name, added_input_id)?;
+        }
+
         SavedData::enforce_history_size_with_transaction(&mut transaction)?;
 
         transaction.commit()?;
@@ -420,7 +430,15 @@ impl SavedData {
         name: &str,
         last_used_by_id: i64,
     ) -> Result<(), Box<dyn std::error::Error>> {
-        self.connection.execute(
+        SavedData::touch_variable_with_connection(&self.connection, name, last_used_by_id)
+    }
+
+    fn touch_variable_with_connection(
+        connection: &Connection,
+        name: &str,
+        last_used_by_id: i64,
+    ) -> Result<(), Box<dyn std::error::Error>> {
+        connection.execute(
             "UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name",
             named_params! {
                 ":last_used_by": last_used_by_id,
-- 
2.43.0


From afb99f64876ca02cdec68351e2c9555172b096a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 11/14] fix: keep the cursor inside a scroll window of one
 column

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f5f1f4d..1bc6fc0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -250,7 +250,7 @@ fn interactive_calc(
                         scroll_offset = 0;
                     } else {
                         let rel_cursor_pos =
-                            max(1, min(scroll_window_size, (scroll_window_size / 3) * 2));
+                            min(scroll_window_size - 1, max(1, (scroll_window_size / 3) * 2));
                         if cursor_pos < rel_cursor_pos {
                             scroll_offset = 0
                         } else {
-- 
2.43.0


From 5e4a697da0a4f21093f0bdc59cdedd52158c7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 12/14] fix: do not fail a line that other sessions evicted
 before it touched its variables

Its variables are touched in the transaction that saves it, so touching them
once more later is not needed.
---
 src/commands.rs   | 75 ++++++++++++++++++++++-------------------------
 src/main.rs       | 22 +++-----------
 src/saved_data.rs | 18 ++++--------
 src/variable.rs   | 21 -------------
 4 files changed, 44 insertions(+), 92 deletions(-)

diff --git a/src/commands.rs b/src/commands.rs
index 7463674..c279f57 100644
--- a/src/commands.rs
+++ b/src/commands.rs
@@ -60,13 +60,13 @@ trait Command {
         HashSet::new()
     }
 
-    /// Returns an output string and a vector of variables touched by the command
+    /// Returns an output string
     fn execute(
         &self,
         command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure>;
+    ) -> Result<String, CalculatorFailure>;
 }
 
 pub struct CommandExecutor {
@@ -134,7 +134,7 @@ impl CommandExecutor {
         maybe_db: Option<&mut SavedData>,
         maybe_inputs: Option<&mut InputHistory>,
         maybe_vars: Option<&mut VariableStore>,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let command_name = match self.alias_map.get(&alias_name.value) {
             Some(name) => name,
             None => &alias_name.value,
@@ -198,7 +198,7 @@ impl Command for HelpCommand {
         _command_name: Positioned<String>,
         mut arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         arguments.trim();
         let alias_name = arguments;
 
@@ -215,7 +215,7 @@ impl Command for HelpCommand {
                 output.push_str(&format!("\n  {:max_command_width$} ", &command));
                 output.push_str(&data.command_map[&command].short_help(&data));
             }
-            Ok((output, Vec::new()))
+            Ok(output)
         } else {
             let command_name = match data.alias_map.get(&alias_name.value) {
                 Some(name) => name,
@@ -223,7 +223,7 @@ impl Command for HelpCommand {
             };
 
             match data.command_map.get(command_name) {
-                Some(command) => Ok((command.long_help(&data), Vec::new())),
+                Some(command) => Ok(command.long_help(&data)),
                 None => {
                     return Err(InputError(MaybePositioned::new_positioned(
                         format!("No such command: '{}'", alias_name.value),
@@ -300,7 +300,7 @@ impl Command for ReloadVarCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let variable_tokens: HashSet<Positioned<String>> = data
             .tokenizer
             .tokenize_variable_list(&arguments.value)?
@@ -313,7 +313,6 @@ impl Command for ReloadVarCommand {
             .ok_or(MissingCapabilityError::NoVariableStore)?;
 
         let mut output = String::new();
-        let mut variables_touched: Vec<String> = Vec::new();
         for variable_token in variable_tokens {
             if !output.is_empty() {
                 output.push('\n');
@@ -323,10 +322,9 @@ impl Command for ReloadVarCommand {
             } else {
                 output.push_str(&format!("{} unchanged", variable_token.value));
             }
-            variables_touched.push(variable_token.value);
         }
 
-        Ok((output, variables_touched))
+        Ok(output)
     }
 }
 
@@ -379,7 +377,7 @@ impl Command for PurgeVarCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         mut data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let variable_tokens: HashSet<Positioned<String>> = data
             .tokenizer
             .tokenize_variable_list(&arguments.value)?
@@ -399,7 +397,7 @@ impl Command for PurgeVarCommand {
 
         // Technically this touches variables, but it also removes them. Which means that reporting
         // them as touched isn't really meaningful.
-        Ok(("Done".to_string(), Vec::new()))
+        Ok("Done".to_string())
     }
 }
 
@@ -461,7 +459,7 @@ impl Command for HistoryCapacityCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;
         let input: Option<i64> = if parsed_args.is_empty() {
             None
@@ -485,11 +483,11 @@ impl Command for HistoryCapacityCommand {
         match input {
             Some(size) => {
                 db.set_max_history_size(size)?;
-                Ok(("Done".to_string(), Vec::new()))
+                Ok("Done".to_string())
             }
             None => {
                 let capacity = db.get_max_history_size()?;
-                Ok((capacity.to_string(), Vec::new()))
+                Ok(capacity.to_string())
             }
         }
     }
@@ -535,11 +533,11 @@ impl Command for FractionalCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let arg_lower = arguments.value.to_lowercase();
         let arg_string = arg_lower.trim();
         if arg_string.is_empty() {
-            return Ok((format!("{}", data.args.fractional), Vec::new()));
+            return Ok(format!("{}", data.args.fractional));
         }
 
         let value = if arg_string == "f" || arg_string == "false" {
@@ -554,7 +552,7 @@ impl Command for FractionalCommand {
         };
 
         data.args.fractional = value;
-        Ok(("Done".to_string(), Vec::new()))
+        Ok("Done".to_string())
     }
 }
 
@@ -596,7 +594,7 @@ impl Command for RadixCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;
         let input: Option<u8> = if parsed_args.is_empty() {
             None
@@ -628,9 +626,9 @@ impl Command for RadixCommand {
         match input {
             Some(value) => {
                 data.args.radix = value;
-                Ok(("Done".to_string(), Vec::new()))
+                Ok("Done".to_string())
             }
-            None => Ok((format!("{}", data.args.radix), Vec::new())),
+            None => Ok(format!("{}", data.args.radix)),
         }
     }
 }
@@ -672,12 +670,12 @@ impl Command for ConvertToRadixCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         // "none" is a valid input, but won't be tokenized successfully. So handle that possibility
         // first.
         if arguments.value.to_lowercase().trim() == "none" {
             data.args.convert_to_radix = None;
-            return Ok(("Done".to_string(), Vec::new()));
+            return Ok("Done".to_string());
         }
 
         let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;
@@ -711,11 +709,11 @@ impl Command for ConvertToRadixCommand {
         match input {
             Some(value) => {
                 data.args.convert_to_radix = Some(value);
-                Ok(("Done".to_string(), Vec::new()))
+                Ok("Done".to_string())
             }
             None => match data.args.convert_to_radix {
-                Some(radix) => Ok((format!("{}", radix), Vec::new())),
-                None => Ok(("None".to_string(), Vec::new())),
+                Some(radix) => Ok(format!("{}", radix)),
+                None => Ok("None".to_string()),
             },
         }
     }
@@ -760,11 +758,11 @@ impl Command for UpperCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let arg_lower = arguments.value.to_lowercase();
         let arg_string = arg_lower.trim();
         if arg_string.is_empty() {
-            return Ok((format!("{}", data.args.upper), Vec::new()));
+            return Ok(format!("{}", data.args.upper));
         }
 
         let value = if arg_string == "f" || arg_string == "false" {
@@ -779,7 +777,7 @@ impl Command for UpperCommand {
         };
 
         data.args.upper = value;
-        Ok(("Done".to_string(), Vec::new()))
+        Ok("Done".to_string())
     }
 }
 
@@ -823,11 +821,11 @@ impl Command for CommaCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let arg_lower = arguments.value.to_lowercase();
         let arg_string = arg_lower.trim();
         if arg_string.is_empty() {
-            return Ok((format!("{}", data.args.commas), Vec::new()));
+            return Ok(format!("{}", data.args.commas));
         }
 
         let value = if arg_string == "f" || arg_string == "false" {
@@ -842,7 +840,7 @@ impl Command for CommaCommand {
         };
 
         data.args.commas = value;
-        Ok(("Done".to_string(), Vec::new()))
+        Ok("Done".to_string())
     }
 }
 
@@ -890,7 +888,7 @@ impl Command for PrecisionCommand {
         _command_name: Positioned<String>,
         arguments: Positioned<String>,
         data: DataForCommands,
-    ) -> Result<(String, Vec<String>), CalculatorFailure> {
+    ) -> Result<String, CalculatorFailure> {
         let mut parsed_args = data.tokenizer.tokenize_int_list(&arguments.value, 10)?;
         let input: Option<(u8, u8)> = if parsed_args.is_empty() {
             None
@@ -943,14 +941,11 @@ impl Command for PrecisionCommand {
             Some((precision, extra)) => {
                 data.args.precision = precision;
                 data.args.extra_precision = extra;
-                Ok(("Done".to_string(), Vec::new()))
+                Ok("Done".to_string())
             }
-            None => Ok((
-                format!(
-                    "Precision = {}\nExtra Precision = {}",
-                    data.args.precision, data.args.extra_precision
-                ),
-                Vec::new(),
+            None => Ok(format!(
+                "Precision = {}\nExtra Precision = {}",
+                data.args.precision, data.args.extra_precision
             )),
         }
     }
diff --git a/src/main.rs b/src/main.rs
index 1bc6fc0..13f021b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -533,7 +533,7 @@ fn calculate(
     command_executor: &mut CommandExecutor,
     mut maybe_db: Option<&mut SavedData>,
     mut maybe_inputs: Option<&mut InputHistory>,
-    mut maybe_vars: Option<&mut VariableStore>,
+    maybe_vars: Option<&mut VariableStore>,
 ) -> Result<String, CalculatorFailure> {
     let parsed_input = tokenizer.tokenize(input, args.radix);
     let vars_used: HashSet<String> = match &parsed_input {
@@ -552,32 +552,18 @@ fn calculate(
     let tokens = match parsed_input? {
         ParsedInput::Tokens(t) => t,
         ParsedInput::Command((command, command_args)) => {
-            let (message, vars_touched) = command_executor.execute_command(
+            return command_executor.execute_command(
                 command,
                 command_args,
                 args,
                 tokenizer,
                 maybe_db.as_deref_mut(),
                 maybe_inputs,
-                maybe_vars.as_deref_mut(),
-            )?;
-
-            if let Some(vars) = maybe_vars {
-                for var_name in vars_touched {
-                    vars.touch(&var_name, maybe_input_history_id, maybe_db.as_deref_mut())?;
-                }
-            }
-
-            return Ok(message);
+                maybe_vars,
+            );
         }
     };
 
-    if let Some(vars) = maybe_vars.as_deref_mut() {
-        for var_name in &vars_used {
-            vars.touch(&var_name, maybe_input_history_id, maybe_db.as_deref_mut())?;
-        }
-    }
-
     if tokens.is_empty() {
         return Ok(String::new());
     }
diff --git a/src/saved_data.rs b/src/saved_data.rs
index 3632018..433a8b0 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -1,7 +1,7 @@
 use crate::error::CalculatorDatabaseInconsistencyError;
 use crate::variable::Variable;
 use num::{bigint::BigInt, rational::BigRational};
-use rusqlite::{self, named_params, Connection, OptionalExtension, Transaction, TransactionBehavior};
+use rusqlite::{self, named_params, OptionalExtension, Transaction, TransactionBehavior};
 use std::{collections::HashSet, env, fs::create_dir, io, path::Path};
 
 const DATA_ROOT_DIR_ENV_VAR_NAME: &str = "_B_UTIL_DATA_DIR";
@@ -305,7 +305,7 @@ impl SavedData {
         }
 
         for name in vars_used {
-            SavedData::touch_variable_with_connection(&transaction, name, added_input_id)?;
+            SavedData::touch_variable_with_transaction(&mut transaction, name, added_input_id)?;
         }
 
         SavedData::enforce_history_size_with_transaction(&mut transaction)?;
@@ -425,20 +425,12 @@ impl SavedData {
     }
 
     /// Updates the `last_used_by` field of the variable specified.
-    pub fn touch_variable(
-        &mut self,
-        name: &str,
-        last_used_by_id: i64,
-    ) -> Result<(), Box<dyn std::error::Error>> {
-        SavedData::touch_variable_with_connection(&self.connection, name, last_used_by_id)
-    }
-
-    fn touch_variable_with_connection(
-        connection: &Connection,
+    fn touch_variable_with_transaction(
+        transaction: &mut Transaction,
         name: &str,
         last_used_by_id: i64,
     ) -> Result<(), Box<dyn std::error::Error>> {
-        connection.execute(
+        transaction.execute(
             "UPDATE variable_history SET last_used_by=:last_used_by WHERE name=:name",
             named_params! {
                 ":last_used_by": last_used_by_id,
diff --git a/src/variable.rs b/src/variable.rs
index 19c5bca..26fa50e 100644
--- a/src/variable.rs
+++ b/src/variable.rs
@@ -52,27 +52,6 @@ impl VariableStore {
         result
     }
 
-    pub fn touch(
-        &mut self,
-        name: &str,
-        maybe_input_history_id: Option<i64>,
-        maybe_db: Option<&mut SavedData>,
-    ) -> Result<(), Box<dyn std::error::Error>> {
-        match (maybe_db, maybe_input_history_id) {
-            (Some(db), Some(input_history_id)) => db.touch_variable(name, input_history_id),
-            (Some(_), None) => Err(InternalCalculatorError::new(
-                "VariableStore missing input history id when touching variable",
-            )
-            .into()),
-            (None, Some(_)) => Err(InternalCalculatorError::new(concat!(
-                "VariableStore was provided an input history id but no database when ",
-                "touching variable"
-            ))
-            .into()),
-            (None, None) => Ok(()),
-        }
-    }
-
     /// Returns the value in the instance's variable store. If the value isn't available, we attempt
     /// to populate the value from `SavedData` and return that.
     pub fn get(
-- 
2.43.0


From 255278b8ec260219551e3cf7052a7cc14c60c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 13/14] fix: scroll the alternate screen when the input or
 output reaches its bottom

MoveToNextLine stays in the last row, so everything was drawn over it.
---
 src/main.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 13f021b..e2b9900 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -18,7 +18,7 @@ use crossterm::{
     terminal::{
         self, Clear,
         ClearType::{CurrentLine, FromCursorDown},
-        EnterAlternateScreen, LeaveAlternateScreen,
+        EnterAlternateScreen, LeaveAlternateScreen, ScrollUp,
     },
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
@@ -163,8 +163,10 @@ fn interactive_calc(
     'calculate: loop {
         let mut cursor_pos: usize = 0;
         let mut scroll_offset: usize = 0;
-        let input_start = cursor::position()?;
-        let mut cols = usize::from(terminal::size()?.0);
+        let mut input_start = cursor::position()?;
+        let window_size = terminal::size()?;
+        let mut cols = usize::from(window_size.0);
+        let mut rows = window_size.1;
         let mut input_complete = false;
 
         'get_input_line: loop {
@@ -180,6 +182,16 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
+                if args.alternate_screen {
+                    // If the input doesn't fit below `input_start`, scroll up to make room for it.
+                    let last_char = max(cursor_pos, current_input.len().saturating_sub(1));
+                    let end_row = u16::try_from(last_char / available_cols)? + input_start.1 + 1;
+                    let missing_rows = min(end_row.saturating_sub(rows), input_start.1);
+                    if missing_rows > 0 {
+                        queue!(stdout, ScrollUp(missing_rows))?;
+                        input_start.1 -= missing_rows;
+                    }
+                }
                 let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)? + input_start.1;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
@@ -219,13 +231,8 @@ fn interactive_calc(
                     current_index = end_index;
                 }
                 if input_complete {
-                    if args.alternate_screen {
-                        queue!(stdout, MoveToNextLine(1))?;
-                    } else {
-                        // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                        // alternate screen.
-                        queue!(stdout, Print("\n"), MoveToColumn(0))?;
-                    }
+                    // Unlike MoveToNextLine, this scrolls if we are at the bottom of the screen.
+                    queue!(stdout, Print("\n"), MoveToColumn(0))?;
                 } else {
                     queue!(stdout, MoveTo(cursor_col, cursor_row))?;
                 }
@@ -467,8 +474,9 @@ fn interactive_calc(
                         // find a way to actually get these events.
                         return Err(InternalCalculatorError::new("Paste unimplemented!").into());
                     }
-                    Event::Resize(width, _) => {
+                    Event::Resize(width, height) => {
                         cols = usize::from(width);
+                        rows = height;
                         break 'get_event;
                     }
                     _ => {}
@@ -496,14 +504,8 @@ fn interactive_calc(
         // It appears that on macOS, outputting a newline advances the cursor down, but not back to
         // column 0. So we need to make sure that we do that manually.
         for line in output.split('\n') {
-            queue!(stdout, Print(line))?;
-            if args.alternate_screen {
-                queue!(stdout, MoveToNextLine(1))?;
-            } else {
-                // MoveToNextLine doesn't seem to always work properly if we aren't in the
-                // alternate screen.
-                queue!(stdout, Print("\n"), MoveToColumn(0))?;
-            }
+            // Unlike MoveToNextLine, this scrolls if we are at the bottom of the screen.
+            queue!(stdout, Print(line), Print("\n"), MoveToColumn(0))?;
         }
         stdout.flush()?;
     } // 'calculate: loop
-- 
2.43.0


From a60a227c4a3d24d5f0cf19fa188fb8cfcc9a287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 14/14] fix: leave the alternate screen even if entering it
 seemed to fail

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index e2b9900..2776598 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -122,6 +122,8 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
             terminal::enable_raw_mode()?;
             if args.alternate_screen {
                 if let Err(e) = execute!(stdout, EnterAlternateScreen) {
+                    // What could not be written is still buffered and may get out when we exit.
+                    let _ = execute!(stdout, LeaveAlternateScreen);
                     let _ = terminal::disable_raw_mode();
                     return Err(e.into());
                 }
-- 
2.43.0

