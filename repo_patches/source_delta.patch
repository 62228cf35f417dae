From 80f2e8b3b0acd6b98039a8e4e600c93893b1fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 1/7] fix: select CLI input signals over outputs and inputs

Public inputs are wires n_pub_out+1..=n_pub_out+n_pub_in; filtering by n_pub_in
alone dropped the inputs of every circuit that has public outputs.
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 4cb13e8..9c5a818 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -39,7 +39,7 @@ pub fn encap_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -176,7 +176,7 @@ pub fn encrypt_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
-- 
2.43.0


From 2e66e21ad0497391bc777bf942a3a2260848d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 2/7] fix: map negative JSON numbers to field negatives

'i as u64' turned -k into 2^64-k instead of p-k, the value the witness
calculator uses, so the public inputs never matched.
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 9c5a818..773916e 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -419,7 +419,7 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    -Fr::from(i.unsigned_abs())
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
@@ -471,7 +471,7 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    -Fr::from(i.unsigned_abs())
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-- 
2.43.0


From 32134d560ddc5d86bfcb0b853bac5b706ad5b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 3/7] fix: give encap/decap --ciphertext no short option

-c is already --circuit in both subcommands; the documentation uses --ciphertext.
---
 packages/zkenc-cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/main.rs b/packages/zkenc-cli/src/main.rs
index c6f711f..9d46532 100644
--- a/packages/zkenc-cli/src/main.rs
+++ b/packages/zkenc-cli/src/main.rs
@@ -33,7 +33,7 @@ enum Commands {
         #[arg(short, long)]
         input: String,
         /// Output ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
@@ -48,7 +48,7 @@ enum Commands {
         #[arg(short, long)]
         witness: String,
         /// Ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
-- 
2.43.0


From 29487fc9f7f533236ee5535ea24738d689cf36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 4/7] fix: reject truncated witness files in the WASM witness
 parser

parse_witness indexed past the end of short input, overflowed on section
lengths and looped forever on a zero field size; every read is now checked.
---
 packages/zkenc-js/src/lib.rs | 64 +++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 71be291..e42f8d0 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -234,63 +234,67 @@ fn parse_linear_combination(
 fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     let mut pos = 0;
 
+    // Helper to take the next n bytes
+    let take = |pos: &mut usize, n: usize| -> Result<&[u8], String> {
+        if n > data.len() - *pos {
+            return Err("Unexpected end of witness data".to_string());
+        }
+        let bytes = &data[*pos..*pos + n];
+        *pos += n;
+        Ok(bytes)
+    };
+
+    // Helper to read u32
+    let read_u32 = |pos: &mut usize| -> Result<u32, String> {
+        let b = take(pos, 4)?;
+        Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
+    };
+
     // Check magic "wtns"
-    if pos + 4 > data.len() || &data[pos..pos + 4] != b"wtns" {
+    if take(&mut pos, 4)? != b"wtns" {
         return Err("Invalid witness file: wrong magic".to_string());
     }
-    pos += 4;
 
     // Version
-    let version = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let version = read_u32(&mut pos)?;
     if version != 2 {
         return Err(format!("Unsupported witness version: {}", version));
     }
 
     // Number of sections
-    let n_sections = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let n_sections = read_u32(&mut pos)?;
 
     let mut witness: Vec<Fr> = Vec::new();
     let mut n8 = 0usize;
 
     for _ in 0..n_sections {
-        let section_type =
-            u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-        pos += 4;
-
-        let section_len = u64::from_le_bytes([
-            data[pos],
-            data[pos + 1],
-            data[pos + 2],
-            data[pos + 3],
-            data[pos + 4],
-            data[pos + 5],
-            data[pos + 6],
-            data[pos + 7],
-        ]) as usize;
-        pos += 8;
-
-        let section_end = pos + section_len;
+        let section_type = read_u32(&mut pos)?;
+        let b = take(&mut pos, 8)?;
+        let section_len = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
+        let section_len = usize::try_from(section_len)
+            .map_err(|_| "Invalid witness section length".to_string())?;
+        let section = take(&mut pos, section_len)?;
 
         if section_type == 1 {
             // Header section
-            n8 = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]])
-                as usize;
+            if section.len() < 4 {
+                return Err("Invalid witness header".to_string());
+            }
+            n8 = u32::from_le_bytes([section[0], section[1], section[2], section[3]]) as usize;
         } else if section_type == 2 {
             // Witness values section - contains raw witness data (field_size * n_witness bytes)
+            if n8 == 0 {
+                return Err("Witness values before the witness header".to_string());
+            }
             // Read all witness values directly
-            while pos + n8 <= section_end {
+            for value in section.chunks_exact(n8) {
                 let mut bytes = vec![0u8; 32];
                 let copy_len = n8.min(32);
-                bytes[..copy_len].copy_from_slice(&data[pos..pos + copy_len]);
+                bytes[..copy_len].copy_from_slice(&value[..copy_len]);
 
                 witness.push(Fr::from_le_bytes_mod_order(&bytes));
-                pos += n8;
             }
         }
-
-        pos = section_end;
     }
 
     Ok(witness)
-- 
2.43.0


From eff3b214207ab3eff6c8e57fa0c9476a98b305ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 5/7] fix: check the public input length in decrypt()

decrypt() skipped past the end of the container where getPublicInput() and the
CLI reject it.
---
 packages/zkenc-js/src/zkenc.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c0b384c..c98a0a3 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -438,6 +438,9 @@ export async function decrypt(
     }
     const publicInputLength = view.getUint32(offset, false);
     offset += 4;
+    if (ciphertext.length < offset + publicInputLength) {
+      throw new Error("Invalid ciphertext: public input length mismatch");
+    }
     // Skip the public input data
     offset += publicInputLength;
   }
-- 
2.43.0


From 1eff2ff1d5b85918a9d11230823ed5b9b0b03f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 6/7] fix: reduce public inputs modulo the field before
 serializing them

A negative or oversized value was cut to its low 256 bits, which is not the field
element the witness calculator derives from the same input.
---
 packages/zkenc-js/src/zkenc.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c98a0a3..454bdca 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -205,7 +205,9 @@ function serializeWitnessSimple(witness: bigint[]): Uint8Array {
 
   // Witness values
   for (const value of witness) {
-    const valueBytes = bigIntToLeBytes32(value);
+    // Reduce to the canonical field element (negative values included)
+    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;
+    const valueBytes = bigIntToLeBytes32(reduced);
     bytes.set(valueBytes, offset);
     offset += 32;
   }
-- 
2.43.0


From eea081be0b98de0fca34c411b18a97913b6d021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 7/7] fix: map the elements of nested input arrays

Elements of a[i][j] inputs were looked up as a[i] only and silently dropped.
---
 packages/zkenc-js/src/sym_parser.ts | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 01d6be3..34c5326 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -97,11 +97,7 @@ export function mapInputsToWires(
     if (Array.isArray(value)) {
       // Handle array inputs
       for (let i = 0; i < value.length; i++) {
-        const arrayKey = `${fullKey}[${i}]`;
-        const wireId = wireMap.get(arrayKey);
-        if (wireId !== undefined) {
-          wireValues.set(wireId, value[i].toString());
-        }
+        flattenInput(`${key}[${i}]`, value[i], prefix);
       }
     } else if (typeof value === "object" && value !== null) {
       // Recursively handle nested objects
-- 
2.43.0

