From 56dffaebf3e789a242406624b35e547d6a9dd7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 01/47] fix: lookup1_x must bind the looked-up value to the
 table constants

---
 gadgets/src/lookup/table.rs | 54 ++++++++++++-------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/gadgets/src/lookup/table.rs b/gadgets/src/lookup/table.rs
index 6e3935b..49ebcfa 100644
--- a/gadgets/src/lookup/table.rs
+++ b/gadgets/src/lookup/table.rs
@@ -34,43 +34,23 @@ where
 {
     assert_eq!(c.len(), 2);
 
-    if let Boolean::Constant(cond) = *b {
-        if cond {
-            AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))
-        } else {
-            AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))
-        }
-    } else {
-        let true_value = AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))?;
-        let false_value = AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))?;
-
-        let result = AllocatedFr::alloc(cs.ns(|| ""), || {
-            b.get_value()
-                .and_then(|cond| {
-                    if cond {
-                        true_value.clone()
-                    } else {
-                        false_value.clone()
-                    }
-                    .get_value()
-                })
-                .ok_or(SynthesisError::AssignmentMissing)
-        })?;
-        // a = self; b = other; c = cond;
-        //
-        // r = c * a + (1  - c) * b
-        // r = b + c * (a - b)
-        // c * (a - b) = r - b
-        let one = CS::one();
-        cs.enforce(
-            || "conditionally_select",
-            |_| b.lc(one, F::one()),
-            |lc| lc + true_value.get_variable() - false_value.get_variable(),
-            |lc| lc + result.get_variable() - false_value.get_variable(),
-        );
-
-        Ok(result)
-    }
+    let result = AllocatedFr::alloc(cs.ns(|| "x"), || {
+        b.get_value()
+            .map(|cond| if cond { c[1] } else { c[0] })
+            .ok_or(SynthesisError::AssignmentMissing)
+    })?;
+
+    // r = b * c[1] + (1 - b) * c[0]
+    // b * (c[1] - c[0]) = r - c[0]
+    let one = CS::one();
+    cs.enforce(
+        || "conditionally_select",
+        |_| b.lc(one, F::one()),
+        |lc| lc + (c[1] - &c[0], one),
+        |lc| lc + result.get_variable() + (-c[0], one),
+    );
+
+    Ok(result)
 }
 
 /// Performs a 2-bit window table lookup. `bits` is in
-- 
2.43.0


From 164e8243a34bde3db8b9557163e4e31f5c804631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 02/47] fix: tie the output bits of
 AbstractHashSha256::hash_enforce to the digest

---
 gadgets/src/hashes/sha256.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gadgets/src/hashes/sha256.rs b/gadgets/src/hashes/sha256.rs
index f464780..cf81db5 100644
--- a/gadgets/src/hashes/sha256.rs
+++ b/gadgets/src/hashes/sha256.rs
@@ -350,14 +350,17 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashSha256<F> {
 
         let booleans = sha256(cs.ns(|| "sha256"), &inputs)?;
 
-        let var: Vec<Variable> = booleans
-            .iter()
-            .enumerate()
-            .map(|(i, b)| {
-                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value()).unwrap(); // TODO
-                a.get_variable()
-            })
-            .collect();
+        // The output bits are only usable as the digest if they are tied to it.
+        let mut var = Vec::with_capacity(booleans.len());
+        for (i, b) in booleans.iter().enumerate() {
+            let bit = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value())?;
+            var.push(bit.get_variable());
+            Boolean::enforce_equal(
+                cs.ns(|| format!("bit_{} equals digest bit", i)),
+                &Boolean::from(bit),
+                b,
+            )?;
+        }
 
         Ok(AbstractHashSha256Output {
             value: Some(booleans),
-- 
2.43.0


From a379d4ce5ac7941fa6db7ab59cfac59bf512f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 03/47] fix: native MiMC, Poseidon and Rescue hash the bytes of
 a trailing partial chunk

---
 gadgets/src/hashes/mimc.rs     | 7 +++++--
 gadgets/src/hashes/poseidon.rs | 7 +++++--
 gadgets/src/hashes/rescue.rs   | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 90bc312..a2b406e 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -70,8 +70,11 @@ fn mimc_hash<F: PrimeField>(b: &[u8], constants: &[F]) -> (F, F, F) {
         v.push(F::from_repr(repr).unwrap_or(F::zero()));
     }
 
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
+    if b.is_empty() || b.len() % n != 0 {
+        // zero-pad the last, incomplete chunk, so that its bytes are hashed too.
+        let mut tail = b[(b.len() / n) * n..].to_vec();
+        tail.resize(n, 0);
+        let repr = F::BigInt::read(&tail[..]).unwrap_or(Default::default());
         v.push(F::from_repr(repr).unwrap_or(F::zero()));
     }
 
diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 45c7e18..a27f073 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -593,8 +593,11 @@ fn poseidon_hash<F: PrimeField>(b: &[u8], constants: &PoseidonConstant<F>) -> (F
         v.push(F::from_repr(repr).unwrap_or(F::zero()));
     }
 
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
+    if b.is_empty() || b.len() % n != 0 {
+        // zero-pad the last, incomplete chunk, so that its bytes are hashed too.
+        let mut tail = b[(b.len() / n) * n..].to_vec();
+        tail.resize(n, 0);
+        let repr = F::BigInt::read(&tail[..]).unwrap_or(Default::default());
         v.push(F::from_repr(repr).unwrap_or(F::zero()));
     }
 
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a072ded..a849a92 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -375,8 +375,11 @@ fn rescue_hash<F: PrimeField>(b: &[u8], constants: &RescueConstant<F>) -> (F, F,
         v.push(F::from_repr(repr).unwrap_or(F::zero()));
     }
 
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
+    if b.is_empty() || b.len() % n != 0 {
+        // zero-pad the last, incomplete chunk, so that its bytes are hashed too.
+        let mut tail = b[(b.len() / n) * n..].to_vec();
+        tail.resize(n, 0);
+        let repr = F::BigInt::read(&tail[..]).unwrap_or(Default::default());
         v.push(F::from_repr(repr).unwrap_or(F::zero()));
     }
 
-- 
2.43.0


From eac94904da0ddb7b7bec92e5708e7d8642fe00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 04/47] fix: AbstractHashMimc::hash_enforce binds its output to
 its parameters

---
 gadgets/src/hashes/mimc.rs | 57 ++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index a2b406e..e1b148e 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -102,7 +102,7 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
     b: Option<&[u8]>,
 ) -> Result<Option<F>, SynthesisError> {
     let constants = constants::<F>();
-    let (mut xl_value, mut xr_value, image_value) = match b {
+    let (xl_value, xr_value, image_value) = match b {
         Some(bytes) => {
             let (xl, xr, image) = mimc_hash(bytes, &constants);
             (Some(xl), Some(xr), Some(image))
@@ -110,15 +110,30 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         None => (None, None, None),
     };
 
-    let mut var_xl = cs.alloc(
+    let var_xl = cs.alloc(
         || "preimage xl",
         || xl_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
-    let mut var_xr = cs.alloc(
+    let var_xr = cs.alloc(
         || "preimage xr",
         || xr_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
 
+    mimc_block_enforce(&mut cs, (xl_value, var_xl), (xr_value, var_xr), &constants)?;
+
+    Ok(image_value)
+}
+
+/// the circuit of `mimc_block`, returns the value and the variable of its output.
+fn mimc_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    xl: (Option<F>, Variable),
+    xr: (Option<F>, Variable),
+    constants: &[F],
+) -> Result<(Option<F>, Variable), SynthesisError> {
+    let (mut xl_value, mut var_xl) = xl;
+    let (mut xr_value, mut var_xr) = xr;
+
     for i in 0..MIMC_ROUNDS {
         let mut n_cs = cs.ns(|| format!("rounds_{}", i));
 
@@ -159,7 +174,7 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         var_xl = var_new_xl;
     }
 
-    Ok(image_value)
+    Ok((xl_value, var_xl))
 }
 
 /// implement AbstractHashOutput.
@@ -225,19 +240,33 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashMimc<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+        let constants = constants::<F>();
+
+        // the initial state is zero.
+        let var_init = cs.alloc(|| "mimc_init", || Ok(F::zero()))?;
+        cs.enforce(
+            || "mimc_init = 0",
+            |lc| lc + var_init,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
+        let init = (Some(F::zero()), var_init);
+
+        let mut inputs: Vec<_> = params.iter().map(|o| (o.value, o.variable)).collect();
+        if inputs.is_empty() {
+            inputs.push(init);
         }
 
-        let r = mimc(cs.ns(|| format!("mimc_hash")), Some(&bytes))?;
+        let mut h = init;
+        for (i, input) in inputs.into_iter().enumerate() {
+            let mut n_cs = cs.ns(|| format!("mimc_hash_{}", i));
+            h = mimc_block_enforce(&mut n_cs, h, input, &constants)?;
+        }
 
-        AbstractHashMimcOutput::alloc(cs.ns(|| "mimc_output"), r)
+        Ok(AbstractHashMimcOutput {
+            value: h.0,
+            variable: h.1,
+        })
     }
 }
 
-- 
2.43.0


From 28d1cf56dd3134cacaf53203a144b90b833b3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 05/47] fix: poseidon circuit computes the native digest and
 hash_enforce binds its output

---
 gadgets/src/hashes/poseidon.rs | 130 +++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 54 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index a27f073..eef9b89 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -630,8 +630,35 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let (value, var) =
+        poseidon_block_enforce(&mut cs, (xl, var_xl), (xr, var_xr), &constants)?;
+
+    let output = cs.alloc_input(|| "output", || Ok(value))?;
+    cs.enforce(
+        || "output = state[0]",
+        |lc| lc + (F::one(), CS::one()),
+        |lc| lc + var,
+        |lc| lc + output,
+    );
+
+    Ok(image)
+}
+
+/// the circuit of `poseidon_block`, returns the value and the variable of its output.
+fn poseidon_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    (xl, var_xl): (F, Variable),
+    (xr, var_xr): (F, Variable),
+    constants: &PoseidonConstant<F>,
+) -> Result<(F, Variable), SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -671,37 +698,25 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
 
         // Mix Layer
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2[{}]", j), || Ok(tmp2_value[j]))?);
-        }
-
+        let mut tmp2 = Vec::with_capacity(M);
         for j in 0..M {
             for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-
-                cs.enforce(
-                    || {
-                        format!(
-                            "tmp4_{}{} - tmp2[{}] = tmp3_value * state_value[{}]",
-                            j, k, j, k
-                        )
-                    },
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                tmp2_value[j] += constants.mds[j][k] * &state_value[k];
             }
+            let value = tmp2_value[j];
+            let var = cs.alloc(|| format!("tmp2_{}", j), || Ok(value))?;
+            cs.enforce(
+                || format!("tmp2_{} = mds[{}] * state", j, j),
+                |mut lc| {
+                    for k in 0..M {
+                        lc = lc + (constants.mds[j][k], state[k]);
+                    }
+                    lc
+                },
+                |lc| lc + CS::one(),
+                |lc| lc + var,
+            );
+            tmp2.push(var);
         }
         for j in 0..M {
             state[j] = tmp2[j];
@@ -709,15 +724,7 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
         }
     }
 
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok((state_value[0], state[0]))
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -727,18 +734,16 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = *state_value;
+    let mut res = *state;
 
     let mut found_one = false;
     let mut cnt = 0;
     for i in BitIteratorBE::new(exp) {
         if !found_one {
-            if i {
-                found_one = true;
-            } else {
-                continue;
-            }
+            // res is the state itself at the first bit set.
+            found_one = i;
+            continue;
         }
 
         res_value.square_in_place();
@@ -766,7 +771,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
@@ -823,19 +828,36 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashPoseidon<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
+        let constants = constants::<F>();
+
+        // the initial state is zero.
+        let var_init = cs.alloc(|| "poseidon_init", || Ok(F::zero()))?;
+        cs.enforce(
+            || "poseidon_init = 0",
+            |lc| lc + var_init,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
+
+        let mut inputs = vec![];
         for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+            let value = o.value.ok_or(SynthesisError::AssignmentMissing)?;
+            inputs.push((value, o.variable));
+        }
+        if inputs.is_empty() {
+            inputs.push((F::zero(), var_init));
         }
 
-        let r = poseidon(cs.ns(|| format!("poseidon_hash")), &bytes)?;
+        let mut h = (F::zero(), var_init);
+        for (i, input) in inputs.into_iter().enumerate() {
+            let mut n_cs = cs.ns(|| format!("poseidon_hash_{}", i));
+            h = poseidon_block_enforce(&mut n_cs, h, input, &constants)?;
+        }
 
-        AbstractHashPoseidonOutput::alloc(cs.ns(|| "poseidon_hash"), Some(r))
+        Ok(AbstractHashPoseidonOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
-- 
2.43.0


From e1c1ccb67eeb28093ccbf9691a477843c5710058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 06/47] fix: rescue circuit computes the native digest and
 hash_enforce binds its output

---
 gadgets/src/hashes/rescue.rs | 119 ++++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 43 deletions(-)

diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a849a92..b7d15d6 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -412,8 +412,35 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let (value, var) =
+        rescue_block_enforce(&mut cs, (xl, var_xl), (xr, var_xr), &constants)?;
+
+    let output = cs.alloc_input(|| "output", || Ok(value))?;
+    cs.enforce(
+        || "output = state[0]",
+        |lc| lc + (F::one(), CS::one()),
+        |lc| lc + var,
+        |lc| lc + output,
+    );
+
+    Ok(image)
+}
+
+/// the circuit of `rescue_block`, returns the value and the variable of its output.
+fn rescue_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    (xl, var_xl): (F, Variable),
+    (xr, var_xr): (F, Variable),
+    constants: &RescueConstant<F>,
+) -> Result<(F, Variable), SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -443,27 +470,25 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state[j] = tuple.1;
         }
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?);
-        }
+        let mut tmp2 = Vec::with_capacity(M);
         for j in 0..M {
             for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-                cs.enforce(
-                    || format!("tmp4 - tmp2[{}] = tmp3_{}{} * state_value[{}]", j, j, k, k),
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                tmp2_value[j] += constants.mds[j][k] * &state_value[k];
             }
+            let value = tmp2_value[j];
+            let var = cs.alloc(|| format!("tmp2_{}", j), || Ok(value))?;
+            cs.enforce(
+                || format!("tmp2_{} = mds[{}] * state", j, j),
+                |mut lc| {
+                    for k in 0..M {
+                        lc = lc + (constants.mds[j][k], state[k]);
+                    }
+                    lc
+                },
+                |lc| lc + CS::one(),
+                |lc| lc + var,
+            );
+            tmp2.push(var);
         }
         for j in 0..M {
             tmp2_value[j].add_assign(constants.constants[i + 1][j]);
@@ -479,14 +504,7 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state_value[j] = tmp5_value;
         }
     }
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok((state_value[0], state[0]))
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -496,18 +514,16 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = *state_value;
+    let mut res = *state;
 
     let mut found_one = false;
     let mut cnt = 0;
     for i in BitIteratorBE::new(exp) {
         if !found_one {
-            if i {
-                found_one = true;
-            } else {
-                continue;
-            }
+            // res is the state itself at the first bit set.
+            found_one = i;
+            continue;
         }
 
         res_value.square_in_place();
@@ -535,7 +551,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
@@ -592,19 +608,36 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashRescue<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
+        let constants = constants::<F>();
+
+        // the initial state is zero.
+        let var_init = cs.alloc(|| "rescue_init", || Ok(F::zero()))?;
+        cs.enforce(
+            || "rescue_init = 0",
+            |lc| lc + var_init,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
+
+        let mut inputs = vec![];
         for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
+            let value = o.value.ok_or(SynthesisError::AssignmentMissing)?;
+            inputs.push((value, o.variable));
+        }
+        if inputs.is_empty() {
+            inputs.push((F::zero(), var_init));
         }
 
-        let r = rescue(cs.ns(|| format!("rescue_hash")), &bytes)?;
+        let mut h = (F::zero(), var_init);
+        for (i, input) in inputs.into_iter().enumerate() {
+            let mut n_cs = cs.ns(|| format!("rescue_hash_{}", i));
+            h = rescue_block_enforce(&mut n_cs, h, input, &constants)?;
+        }
 
-        AbstractHashRescueOutput::alloc(cs.ns(|| "rescue_hash"), Some(r))
+        Ok(AbstractHashRescueOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
-- 
2.43.0


From a10263d3ef7f403cd0d3500fb89398eba764eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 07/47] fix: a CBMT merkle proof must lead from its index
 exactly to the root

---
 gadgets/src/merkletree/cbmt.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index 96b2c45..307c5fe 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -34,7 +34,7 @@ where
         }
 
         let leaves_count = ((self.nodes.len() >> 1) + 1) as u32;
-        let index = leaves_count + leaf_index - 1;
+        let index = (leaves_count - 1).checked_add(*leaf_index)?;
 
         if index >= (leaves_count << 1) - 1 {
             return None;
@@ -104,16 +104,16 @@ where
     }
 
     pub fn root(&self, leaf: &T) -> Option<T> {
-        if self.index == 0 && self.lemmas.len() != 0 {
-            return None;
-        }
-
         let mut parent = leaf.clone();
         let mut index = self.index;
         let mut lemmas_iter = self.lemmas.iter();
 
         loop {
             if let Some(sibling) = lemmas_iter.next() {
+                // the root has no sibling, the path is longer than the tree.
+                if index.is_root() {
+                    return None;
+                }
                 parent = if index.is_left() {
                     M::merge(&parent, &sibling)
                 } else {
@@ -125,6 +125,11 @@ where
             }
         }
 
+        // the path must end at the root.
+        if !index.is_root() {
+            return None;
+        }
+
         Some(parent)
     }
 
-- 
2.43.0


From 53ecb6627a81b5e294218ec3512e8ef44c7f183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 08/47] fix: the merkle proof gadget must lead from its index
 exactly to the root

---
 gadgets/src/merkletree/cbmt_constraints.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gadgets/src/merkletree/cbmt_constraints.rs b/gadgets/src/merkletree/cbmt_constraints.rs
index 5d09c30..a89dcf9 100644
--- a/gadgets/src/merkletree/cbmt_constraints.rs
+++ b/gadgets/src/merkletree/cbmt_constraints.rs
@@ -29,6 +29,11 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
         let mut lemmas_iter = self.lemmas.iter().enumerate();
         loop {
             if let Some((i, sibling)) = lemmas_iter.next() {
+                // the root has no sibling, the path is longer than the tree.
+                if index.is_root() {
+                    return Err(SynthesisError::Unsatisfiable);
+                }
+
                 let parent_variable_vec = parent.get_variables();
                 let parent_value_vec = parent.get_variable_values();
                 let sibling_variable_vec = sibling.get_variables();
@@ -94,6 +99,11 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
             }
         }
 
+        // the path must end at the root.
+        if !index.is_root() || parent.get_variables().len() != root.get_variables().len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
+
         let pre = parent
             .get_variables()
             .iter()
-- 
2.43.0


From 951902b0e838a095859a1de5b3c6e86eba161b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 09/47] hook: cfg(zkp_mc) makes marlin's pc, ahp and fs_rng
 modules reachable

---
 marlin/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index ce31855..cca20ec 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -35,10 +35,16 @@ use ark_std::UniformRand;
 use rand::Rng;
 use zkp_r1cs::{ConstraintSynthesizer, SynthesisError};
 
+#[cfg(not(zkp_mc))]
 mod pc;
+#[cfg(zkp_mc)]
+pub mod pc;
 use pc::{Evaluations, LabeledCommitment, PC};
 
+#[cfg(not(zkp_mc))]
 mod ahp;
+#[cfg(zkp_mc)]
+pub mod ahp;
 use ahp::AHP;
 
 mod errors;
@@ -51,7 +57,10 @@ pub use pc::UniversalParams;
 /// standard verify key name.
 pub type VerifyKey<E> = IndexVerifierKey<E>;
 
+#[cfg(not(zkp_mc))]
 mod fs_rng;
+#[cfg(zkp_mc)]
+pub mod fs_rng;
 use fs_rng::FiatShamirRng;
 
 pub fn universal_setup<E: PairingEngine, R: Rng>(
-- 
2.43.0


From 2b3564ee4b4cac2bdb0b77b1238ea3dcaff343b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 10/47] fix: marlin indexer underflows when balancing matrices
 with unequal rows

---
 marlin/src/ahp/constraint_systems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 54c318e..3d7f4c7 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -106,8 +106,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
                 let a_row_size = a_row.len();
                 let b_row_size = b_row.len();
                 core::mem::swap(a_row, &mut b_row);
-                a_density += b_row_size - a_row_size;
-                b_density += a_row_size - b_row_size;
+                a_density = a_density + b_row_size - a_row_size;
+                b_density = b_density + a_row_size - b_row_size;
                 a_is_denser = a_density > b_density;
             }
         }
-- 
2.43.0


From 37f76d5ffb665348c1f3311e733d0e72516090ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 11/47] fix: marlin pads the public inputs to its input domain
 and checks their number

---
 marlin/src/ahp/constraint_systems.rs | 14 ++++++++++++++
 marlin/src/ahp/indexer.rs            |  6 +++++-
 marlin/src/ahp/prover.rs             |  5 ++++-
 marlin/src/lib.rs                    |  4 ++++
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 3d7f4c7..015f469 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -6,6 +6,18 @@ use zkp_r1cs::{
 use crate::ahp::arithmetic::{matrix_density, sort_matrix_columns, Matrix};
 use crate::{String, Vec};
 
+/// The public inputs live on a domain of their own, whose size is a power of two:
+/// every element of it must be a (possibly zero) input variable.
+fn pad_input_variables<F: Field, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    num_input_variables: usize,
+) {
+    for i in num_input_variables..num_input_variables.next_power_of_two() {
+        cs.alloc_input(|| format!("pad input {}", i), || Ok(F::zero()))
+            .expect("alloc failed");
+    }
+}
+
 fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     cs: &mut CS,
     num_formatted_variables: usize,
@@ -67,6 +79,7 @@ impl<F: Field> IndexerConstraintSystem<F> {
     }
 
     pub(crate) fn make_matrices_square(&mut self) {
+        pad_input_variables(self, self.num_input_variables);
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
     }
@@ -213,6 +226,7 @@ impl<F: Field> ProverConstraintSystem<F> {
     }
 
     pub(crate) fn make_matrices_square(&mut self) {
+        pad_input_variables(self, self.num_input_variables);
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
     }
diff --git a/marlin/src/ahp/indexer.rs b/marlin/src/ahp/indexer.rs
index b87a28c..7402ace 100644
--- a/marlin/src/ahp/indexer.rs
+++ b/marlin/src/ahp/indexer.rs
@@ -14,6 +14,7 @@ pub struct IndexInfo {
     pub num_constraints: usize,
     pub num_variables: usize,
     pub num_non_zeros: usize,
+    pub num_public_inputs: usize,
 }
 
 impl ToBytes for IndexInfo {
@@ -21,7 +22,8 @@ impl ToBytes for IndexInfo {
     fn write<W: io::Write>(&self, mut w: W) -> io::Result<()> {
         (self.num_variables as u64).write(&mut w)?;
         (self.num_constraints as u64).write(&mut w)?;
-        (self.num_non_zeros as u64).write(&mut w)
+        (self.num_non_zeros as u64).write(&mut w)?;
+        (self.num_public_inputs as u64).write(&mut w)
     }
 }
 
@@ -71,6 +73,7 @@ impl<F: PrimeField> AHP<F> {
     pub fn index<'a, C: ConstraintSynthesizer<F>>(c: C) -> Result<Index<'a, F>, Error> {
         let mut ics = IndexerConstraintSystem::new();
         c.generate_constraints(&mut ics)?;
+        let num_public_inputs = ics.num_input_variables - 1;
         ics.make_matrices_square();
         ics.process_matrices();
 
@@ -102,6 +105,7 @@ impl<F: PrimeField> AHP<F> {
             num_constraints,
             num_variables,
             num_non_zeros,
+            num_public_inputs,
         };
 
         Ok(Index {
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 0d6a19d..d8234f5 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -41,7 +41,7 @@ pub struct ProverState<'a, 'b, F: PrimeField> {
 
 impl<'a, 'b, F: PrimeField> ProverState<'a, 'b, F> {
     pub fn public_input(&self) -> Vec<F> {
-        self.formatted_input_assignment[1..].to_vec()
+        self.formatted_input_assignment[1..=self.index.index_info.num_public_inputs].to_vec()
     }
 }
 
@@ -89,6 +89,9 @@ impl<F: PrimeField> AHP<F> {
     ) -> Result<ProverState<'a, 'b, F>, Error> {
         let mut pcs = ProverConstraintSystem::new();
         c.generate_constraints(&mut pcs)?;
+        if pcs.num_input_variables != index.index_info.num_public_inputs + 1 {
+            return Err(Error::InstanceDoesNotMatchIndex);
+        }
         pcs.make_matrices_square();
 
         let ProverConstraintSystem {
diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index cca20ec..f3bc7eb 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -195,6 +195,10 @@ pub fn verify_proof<E: PairingEngine>(
     proof: &Proof<E>,
     public_input: &[E::Fr],
 ) -> Result<bool, SynthesisError> {
+    if public_input.len() != ivk.index_info.num_public_inputs {
+        return Ok(false);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
-- 
2.43.0


From a948905a952eada0582474f141f2796754116c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 12/47] fix: marlin handles relations without constraints,
 variables or non-zero entries

---
 marlin/src/ahp/constraint_systems.rs | 31 ++++++++++++++--------------
 marlin/src/ahp/prover.rs             |  4 ++--
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 015f469..da51080 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -23,22 +23,20 @@ fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     num_formatted_variables: usize,
 ) {
     let num_constraints = cs.num_constraints();
-    let num_paddings = ((num_formatted_variables as isize) - (num_constraints as isize)).abs();
-    if num_formatted_variables < num_constraints {
-        for i in 0..num_paddings {
-            cs.alloc(|| format!("pad varible {}", i), || Ok(F::one()))
-                .expect("alloc failed");
-        }
-    } else {
-        for i in 0..num_paddings {
-            use core::convert::identity;
-            cs.enforce(
-                || format!("pad constraint {}", i),
-                identity,
-                identity,
-                identity,
-            );
-        }
+    // the degree bounds of the sumchecks need domains of at least two elements.
+    let size = num_formatted_variables.max(num_constraints).max(2);
+    for i in num_formatted_variables..size {
+        cs.alloc(|| format!("pad varible {}", i), || Ok(F::one()))
+            .expect("alloc failed");
+    }
+    for i in num_constraints..size {
+        use core::convert::identity;
+        cs.enforce(
+            || format!("pad constraint {}", i),
+            identity,
+            identity,
+            identity,
+        );
     }
 }
 
@@ -108,6 +106,7 @@ impl<F: Field> IndexerConstraintSystem<F> {
             .iter()
             .max()
             .expect("density iterator is not empty")
+            .max(&2) // the inner sumcheck needs a domain of at least two elements.
     }
 
     fn balance_matrices(a: &mut Matrix<F>, b: &mut Matrix<F>) {
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index d8234f5..4871d6d 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -308,7 +308,7 @@ impl<F: PrimeField> AHP<F> {
             });
         let q_1_poly = mask_poly + &r_alpha_evals.interpolate();
         let (h_1_poly, x_g_1_poly) = q_1_poly.divide_by_vanishing_poly(domain_h).unwrap();
-        let g_1_poly = DensePolynomial::from_coefficients_slice(&x_g_1_poly.coeffs[1..]);
+        let g_1_poly = DensePolynomial::from_coefficients_slice(x_g_1_poly.coeffs.get(1..).unwrap_or(&[]));
         let oracles = ProverSecondOracles {
             t: LabeledPolynomial::new_owned("t".to_string(), t_poly, None, None),
             h_1: LabeledPolynomial::new_owned("h_1".to_string(), h_1_poly, None, None),
@@ -378,7 +378,7 @@ impl<F: PrimeField> AHP<F> {
         }
 
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_k, domain_k).interpolate();
-        let g_2_poly = DensePolynomial::from_coefficients_slice(&t_poly.coeffs[1..]);
+        let g_2_poly = DensePolynomial::from_coefficients_slice(t_poly.coeffs.get(1..).unwrap_or(&[]));
 
         let denom_a: Vec<_> = cfg_iter!(a_star.row_evals_on_b.evals)
             .zip(&a_star.col_evals_on_b.evals)
-- 
2.43.0


From 0d5459e0e75cd4df675e4b535fb0af54f16e7c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 13/47] fix: marlin commits to and opens constant and zero
 polynomials

---
 marlin/src/pc/kzg10.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index e94d946..b3e8da2 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -173,9 +173,7 @@ impl<E: PairingEngine> KZG10<E> {
     }
 
     fn check_degree_is_within_bounds(degree: usize, powers: usize) -> Result<(), Error> {
-        if degree < 1 {
-            Err(Error::DegreeIsZero)
-        } else if degree > powers {
+        if degree > powers {
             Err(Error::DegreeOutOfBound)
         } else {
             Ok(())
@@ -186,7 +184,7 @@ impl<E: PairingEngine> KZG10<E> {
         p: &Polynomial<F>,
     ) -> (usize, Vec<F::BigInt>) {
         let mut num_leading_zeros = 0;
-        while p.coeffs[num_leading_zeros].is_zero() && num_leading_zeros < p.coeffs.len() {
+        while num_leading_zeros < p.coeffs.len() && p.coeffs[num_leading_zeros].is_zero() {
             num_leading_zeros += 1;
         }
         let coeffs = Self::convert_to_bigints(&p.coeffs[num_leading_zeros..]);
-- 
2.43.0


From bf9d10f1483d68ad878b574fc14ef3e90f3036ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 14/47] fix: marlin verifier rejects malformed proofs instead
 of regrouping rounds or panicking

---
 marlin/src/lib.rs    | 6 ++++++
 marlin/src/pc/mod.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index f3bc7eb..936a46c 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -201,6 +201,12 @@ pub fn verify_proof<E: PairingEngine>(
 
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
+    // every challenge must come after the commitments of its round.
+    let num_comms: Vec<usize> = proof.commitments.iter().map(|c| c.len()).collect();
+    if num_comms != [4, 3, 2] {
+        return Ok(false);
+    }
+
     let first_comms = &proof.commitments[0];
     fs_rng.absorb(&to_bytes![first_comms].unwrap());
     let (vstate, _) = AHP::<E::Fr>::verifier_first_round(ivk.index_info, &mut fs_rng)?;
diff --git a/marlin/src/pc/mod.rs b/marlin/src/pc/mod.rs
index 1e42d09..1450971 100644
--- a/marlin/src/pc/mod.rs
+++ b/marlin/src/pc/mod.rs
@@ -174,7 +174,9 @@ impl<E: PairingEngine> PC<E> {
             let labels = point_to_labels_map.entry(point).or_insert(BTreeSet::new());
             labels.insert(label);
         }
-        assert_eq!(point_to_labels_map.len(), proofs.len());
+        if point_to_labels_map.len() != proofs.len() {
+            return Ok(false);
+        }
 
         let commitments: BTreeMap<_, _> = commitments.into_iter().map(|c| (c.label(), c)).collect();
 
@@ -215,7 +217,9 @@ impl<E: PairingEngine> PC<E> {
         for (labeled_commitment, value) in commitments.into_iter().zip(values) {
             let degree_bound = labeled_commitment.degree_bound();
             let commitment = labeled_commitment.commitment();
-            assert_eq!(degree_bound.is_some(), commitment.shifted_comm.is_some());
+            if degree_bound.is_some() != commitment.shifted_comm.is_some() {
+                return Err(Error::DegreeOutOfBound);
+            }
             combined_comm += &commitment.comm.0.mul(challenge);
             combined_value += &(value * &challenge);
 
-- 
2.43.0


From fe7f1df79f7b0f5f7e4dff88e4fc8730dfe18b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 15/47] fix: bulletproofs adds up repeated variables of a
 linear combination

---
 bulletproofs/src/arithmetic_circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 0229cd7..a8aaf3c 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -231,21 +231,21 @@ where
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CL[i][index] = *coeff;
+            CL[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.bt[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CR[i][index] = *coeff;
+            CR[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.ct[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CO[i][index] = *coeff;
+            CO[i][index] += coeff;
         }
     }
 
-- 
2.43.0


From 62067295a6861b70e8c6f755496aecd2a543ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 16/47] fix: bulletproofs proves relations without constraints

---
 bulletproofs/src/arithmetic_circuit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index a8aaf3c..3945548 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -207,6 +207,11 @@ where
     // Synthesize the circuit.
     circuit.generate_constraints(&mut prover)?; // TODO: maybe we should move this out becasue we do not need a trusted setup for bp
 
+    // the protocol needs at least one constraint: 0 * 0 = 0.
+    if prover.at.is_empty() {
+        prover.enforce(|| "", |lc| lc, |lc| lc, |lc| lc);
+    }
+
     let num_constraints = prover.at.len();
     assert_eq!(num_constraints, prover.bt.len());
     assert_eq!(num_constraints, prover.ct.len());
-- 
2.43.0


From f875057342478c9e65c8757b2c82d52290ace827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 17/47] fix: bulletproofs verifier ties the inner product
 argument to l_x, r_x and t_x

---
 bulletproofs/src/arithmetic_circuit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 3945548..f722bb2 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -804,6 +804,13 @@ pub fn verify_proof<G: Curve>(
     // check tx ?= <lx, rx>
     // USE IPP here
     // assert_eq!(proof.t_x, inner_product::<G::Fr>(&proof.l_x, &proof.r_x));
+    // the inner product argument must be about l_x, r_x and t_x.
+    let IPP_P = quick_multiexp::<G>(&proof.l_x, &gens.g_vec_N)
+        + &quick_multiexp::<G>(&proof.r_x, &gens.h_vec_N)
+        + &ux.mul(proof.t_x);
+    if IPP_P.into_affine() != proof.IPP_P {
+        return Ok(false);
+    }
     if !inner_product_proof::verify(
         &mut transcript,
         gens.g_vec_N.clone(),
-- 
2.43.0


From e627704e65e5ee07c46aff577107b8d3a009dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 18/47] fix: bulletproofs verifier rejects wrong lengths and
 failed checks instead of panicking

---
 bulletproofs/src/arithmetic_circuit.rs  | 10 +++++++++-
 bulletproofs/src/inner_product_proof.rs | 11 ++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index f722bb2..a74bf1d 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -627,6 +627,12 @@ pub fn verify_proof<G: Curve>(
     let one = G::Fr::one();
     let mut r1_public_inputs = vec![one];
     r1_public_inputs.extend(public_inputs);
+    if r1_public_inputs.len() != gens.k {
+        return Ok(false);
+    }
+    if proof.l_x.len() != gens.N || proof.r_x.len() != gens.N {
+        return Ok(false);
+    }
 
     // generators
     let g_vec: Vec<G::Affine> = gens.g_vec_N.clone();
@@ -840,7 +846,9 @@ pub fn verify_proof<G: Curve>(
             + &proof.T_9.mul(xxxx * &(xxxx * &x))
             + &proof.T_10.mul(xxxx * &(xxxx * &xx));
 
-    assert_eq!(checkT_lhs, checkT_rhs);
+    if checkT_lhs != checkT_rhs {
+        return Ok(false);
+    }
 
     let y_n_neg: Vec<G::Fr> = (0..gens.N).map(|i| -one * &y_n[i]).collect();
     let P = proof.A_I.mul(xx)
diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 6ddb672..f679713 100755
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -118,9 +118,14 @@ pub fn verify<G: Curve>(
     P: &G::Projective,
     proof: &Proof<G>,
 ) -> bool {
-    let lg_n = proof.L_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.R_vec.len());
+    let n = g_vec.len();
+    if !n.is_power_of_two() || h_vec.len() != n {
+        return false;
+    }
+    let lg_n = n.trailing_zeros() as usize;
+    if proof.L_vec.len() != lg_n || proof.R_vec.len() != lg_n {
+        return false;
+    }
     transcript.append_u64(b"n", n as u64);
     transcript.append_message(b"u", &to_bytes!(u).unwrap());
     transcript.append_message(b"P", &to_bytes!(P).unwrap());
-- 
2.43.0


From 054fed3ce4efa7879b5155809e763ba09e725657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 19/47] fix: spartan verifier rejects malformed lists and
 failed checks instead of regrouping or panicking

---
 spartan/src/inner_product.rs |   6 +-
 spartan/src/verify.rs        | 111 +++++++++++++++++++++--------------
 2 files changed, 71 insertions(+), 46 deletions(-)

diff --git a/spartan/src/inner_product.rs b/spartan/src/inner_product.rs
index defc662..39ce431 100644
--- a/spartan/src/inner_product.rs
+++ b/spartan/src/inner_product.rs
@@ -110,7 +110,9 @@ pub fn bullet_inner_product_verify<G: Curve>(
 ) -> Result<(G::Fr, G::Affine, G::Affine), SynthesisError> {
     let lg_n = proof.l_vec.len();
     let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.r_vec.len());
+    if lg_n != proof.r_vec.len() || b_vec.len() != n || g_vec.len() < n {
+        return Err(SynthesisError::MalformedVerifyingKey);
+    }
 
     let mut x_sq_vec = Vec::with_capacity(lg_n);
     let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
@@ -123,7 +125,7 @@ pub fn bullet_inner_product_verify<G: Curve>(
         let mut buf_x = [0u8; 31];
         transcript.challenge_bytes(b"x", &mut buf_x);
         let x = random_bytes_to_fr::<G>(&buf_x);
-        let x_inv = x.inverse().unwrap();
+        let x_inv = x.inverse().ok_or(SynthesisError::DivisionByZero)?;
         x_sq_vec.push(x * &x);
         x_inv_sq_vec.push(x_inv * &x_inv);
         allinv = allinv * &x_inv;
diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 91d242d..239b784 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -22,6 +22,15 @@ use crate::{
     Vec,
 };
 
+// Rejects a proof: everything taken from it is under the prover's control.
+macro_rules! ensure {
+    ($cond:expr) => {
+        if !($cond) {
+            return Err(SynthesisError::MalformedVerifyingKey);
+        }
+    };
+}
+
 pub fn verify_nizk_proof<G: Curve>(
     params: &NizkParameters<G>,
     r1cs: &R1CSInstance<G>,
@@ -299,6 +308,10 @@ fn sum_check_verify<G: Curve>(
 ) -> Result<(Vec<G::Fr>, G::Affine), SynthesisError> {
     let mut commit_claim = commit_claim;
 
+    ensure!(proof.comm_polys.len() == num_rounds);
+    ensure!(proof.comm_evals.len() == num_rounds);
+    ensure!(proof.proofs.len() == num_rounds);
+
     let mut rx: Vec<G::Fr> = Vec::new();
     for i in 0..num_rounds {
         let commit_poly = proof.comm_polys[i];
@@ -347,6 +360,8 @@ fn sum_check_eval_verify<G: Curve>(
     size: usize,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure!(proof.z.len() == size);
+
     let w = (0..2)
         .map(|_i| {
             let mut buf = [0u8; 31];
@@ -433,6 +448,7 @@ fn product_verify<G: Curve>(
     prod_commit: G::Affine,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure!(proof.z.len() == 5);
     let z1 = proof.z[0];
     let z2 = proof.z[1];
     let z3 = proof.z[2];
@@ -505,6 +521,10 @@ fn inner_product_verify<G: Curve>(
     let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
     let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
 
+    ensure!(commits_witness.len() == l_eq_ry.len());
+    ensure!(proof.inner_product_proof.l_vec.len() == size - size / 2);
+    ensure!(proof.inner_product_proof.r_vec.len() == size - size / 2);
+
     let commit_lz =
         poly_commit_vec::<G>(commits_witness, &l_eq_ry, &params.gen_1.h, G::Fr::zero())?.commit;
 
@@ -553,7 +573,7 @@ fn sparse_poly_eval_verify<G: Curve>(
     let (rx, ry) = equalize_length::<G>(&rx, &ry)?;
 
     let (n, m) = (encode_commit.n, encode_commit.m);
-    assert_eq!((2usize).pow(rx.len() as u32), m);
+    ensure!((2usize).pow(rx.len() as u32) == m);
 
     transcript.append_message(
         b"comm_poly_row_col_ops_val",
@@ -577,9 +597,9 @@ fn sparse_poly_eval_verify<G: Curve>(
             &vec![eval_a_r, eval_b_r, eval_c_r],
             transcript,
         )?;
-    assert_eq!(claims_mem.len(), 4);
-    assert_eq!(claims_ops.len(), 12);
-    assert_eq!(claims_ops_dotp.len(), 9);
+    ensure!(claims_mem.len() == 4);
+    ensure!(claims_ops.len() == 12);
+    ensure!(claims_ops_dotp.len() == 9);
 
     let claims_ops_row_read = claims_ops[0..3].to_vec();
     let claims_ops_row_write = claims_ops[3..6].to_vec();
@@ -611,7 +631,7 @@ fn sparse_poly_eval_verify<G: Curve>(
         transcript,
     )
     .is_ok();
-    assert!(result);
+    ensure!(result);
 
     Ok(true)
 }
@@ -641,19 +661,19 @@ where
     let (col_init, col_read_list, col_write_list, col_audit) = &proof.eval_col;
     let (eval_dotp_left_list, eval_dotp_right_list) = &proof.eval_dotp;
 
-    assert_eq!(row_read_list.len(), 3);
-    assert_eq!(row_write_list.len(), 3);
-    assert_eq!(col_read_list.len(), 3);
-    assert_eq!(col_write_list.len(), 3);
-    assert_eq!(eval_dotp_left_list.len(), 3);
-    assert_eq!(eval_dotp_right_list.len(), 3);
-    assert_eq!(evals.len(), 3);
+    ensure!(row_read_list.len() == 3);
+    ensure!(row_write_list.len() == 3);
+    ensure!(col_read_list.len() == 3);
+    ensure!(col_write_list.len() == 3);
+    ensure!(eval_dotp_left_list.len() == 3);
+    ensure!(eval_dotp_right_list.len() == 3);
+    ensure!(evals.len() == 3);
 
     let row_read: G::Fr = (0..row_read_list.len()).map(|i| row_read_list[i]).product();
     let row_write: G::Fr = (0..row_write_list.len())
         .map(|i| row_write_list[i])
         .product();
-    assert_eq!(*row_init * &row_write, row_read * row_audit);
+    ensure!(*row_init * &row_write == row_read * row_audit);
 
     transcript.append_message(b"claim_row_eval_init", &to_bytes!(row_init)?);
     transcript.append_message(b"claim_row_eval_read", &to_bytes!(row_read_list)?);
@@ -664,7 +684,7 @@ where
     let col_write: G::Fr = (0..col_write_list.len())
         .map(|i| col_write_list[i])
         .product();
-    assert_eq!(*col_init * &col_write, col_read * col_audit);
+    ensure!(*col_init * &col_write == col_read * col_audit);
 
     transcript.append_message(b"claim_col_eval_init", &to_bytes!(col_init)?);
     transcript.append_message(b"claim_col_eval_read", &to_bytes!(col_read_list)?);
@@ -673,7 +693,7 @@ where
 
     let mut claims_dotp_circuit = Vec::new();
     for i in 0..eval_dotp_left_list.len() {
-        assert_eq!(eval_dotp_left_list[i] + &eval_dotp_right_list[i], evals[i]);
+        ensure!(eval_dotp_left_list[i] + &eval_dotp_right_list[i] == evals[i]);
         transcript.append_message(b"claim_eval_dotp_left", &to_bytes!(eval_dotp_left_list[i])?);
         transcript.append_message(
             b"claim_eval_dotp_right",
@@ -724,7 +744,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
     let layer_num = log2(n) as usize;
     let mut claims_to_verify = claims_prod_circuit.clone();
 
-    assert_eq!(proof.layers_proof.len(), layer_num);
+    ensure!(proof.layers_proof.len() == layer_num);
 
     let mut num_rounds = 0;
     let mut rands = Vec::new();
@@ -754,14 +774,14 @@ pub fn product_circuit_eval_verify<G: Curve>(
         )?;
         let claim_prod_left = &proof.layers_proof[i].claim_prod_left;
         let claim_prod_right = &proof.layers_proof[i].claim_prod_right;
-        assert_eq!(claim_prod_left.len(), claim_prod_right.len());
-        assert_eq!(claim_prod_left.len(), claims_prod_circuit.len());
+        ensure!(claim_prod_left.len() == claim_prod_right.len());
+        ensure!(claim_prod_left.len() == claims_prod_circuit.len());
         for i in 0..claim_prod_left.len() {
             transcript.append_message(b"claim_prod_left", &to_bytes!(claim_prod_left[i])?);
             transcript.append_message(b"claim_prod_right", &to_bytes!(claim_prod_right[i])?);
         }
 
-        assert_eq!(rands.len(), r.len());
+        ensure!(rands.len() == r.len());
         let eq: G::Fr = (0..r.len())
             .map(|i| r[i] * &rands[i] + &((G::Fr::one() - &r[i]) * &(G::Fr::one() - &rands[i])))
             .product();
@@ -772,6 +792,9 @@ pub fn product_circuit_eval_verify<G: Curve>(
 
         if i == layer_num - 1 {
             let (claim_dotp_row, claim_dotp_col, claim_dotp_val) = &proof.claim_dotp;
+            ensure!(claim_dotp_row.len() == claims_dotp_circuit.len());
+            ensure!(claim_dotp_col.len() == claims_dotp_circuit.len());
+            ensure!(claim_dotp_val.len() == claims_dotp_circuit.len());
             for i in 0..claim_dotp_row.len() {
                 transcript.append_message(b"claim_dotp_row", &to_bytes!(claim_dotp_row[i])?);
                 transcript.append_message(b"claim_dotp_col", &to_bytes!(claim_dotp_col[i])?);
@@ -784,7 +807,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
             }
         }
 
-        assert_eq!(claim_expected, claim_final);
+        ensure!(claim_expected == claim_final);
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_r_layer", &mut buf);
         let r_layer = random_bytes_to_fr::<G>(&buf);
@@ -823,13 +846,10 @@ pub fn sum_check_cubic_verify<G: Curve>(
     let mut claim_per_round = claim;
     let mut r = Vec::new();
 
-    assert_eq!(proof_poly.len(), num_rounds);
+    ensure!(proof_poly.len() == num_rounds);
     for poly in proof_poly.iter() {
         transcript.append_message(b"comm_poly", &to_bytes!(poly.coeffs)?);
-        assert_eq!(
-            poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-            claim_per_round
-        );
+        ensure!(poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) == claim_per_round);
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_nextround", &mut buf);
         let r_j = random_bytes_to_fr::<G>(&buf);
@@ -855,7 +875,7 @@ pub fn hash_layer_verify<G: Curve>(
 ) -> Result<(), SynthesisError> {
     transcript.append_message(b"protocol-name", b"Sparse polynomial hash layer proof");
 
-    assert_eq!(claims_dotp.len(), 9);
+    ensure!(claims_dotp.len() == 9);
     let (ops_rands, mem_rands) = rands;
     let (rx, ry) = r;
     // let (gamma1,gamma2) = gamma;
@@ -863,8 +883,8 @@ pub fn hash_layer_verify<G: Curve>(
     // let  (claims_col_init, claims_col_read_list, claims_col_write_list, claims_col_audit) = claims_col;
 
     let (eval_row_ops_val, eval_col_ops_val) = &proof.evals_derefs;
-    assert_eq!(eval_row_ops_val.len(), eval_col_ops_val.len());
-    assert_eq!(eval_row_ops_val.len(), 3);
+    ensure!(eval_row_ops_val.len() == eval_col_ops_val.len());
+    ensure!(eval_row_ops_val.len() == 3);
     let mut evals = eval_row_ops_val.clone();
     evals.extend(eval_col_ops_val.clone());
     evals.resize(evals.len().next_power_of_two(), G::Fr::zero());
@@ -883,7 +903,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals, cs[i]);
     }
-    assert_eq!(evals.len(), 1);
+    ensure!(evals.len() == 1);
     let claim_eval = evals[0];
     // let mut rs = cs;
     cs.extend(ops_rands);
@@ -905,13 +925,13 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_derefs,
         transcript,
     )?;
-    assert!(result);
+    ensure!(result);
     let eval_val_list = &proof.evals_val;
-    assert_eq!(eval_val_list.len(), 3);
+    ensure!(eval_val_list.len() == 3);
     for i in 0..3 {
-        assert_eq!(claims_dotp[i * 3], eval_row_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 1], eval_col_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 2], eval_val_list[i]);
+        ensure!(claims_dotp[i * 3] == eval_row_ops_val[i]);
+        ensure!(claims_dotp[i * 3 + 1] == eval_col_ops_val[i]);
+        ensure!(claims_dotp[i * 3 + 2] == eval_val_list[i]);
     }
 
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) =
@@ -919,6 +939,9 @@ pub fn hash_layer_verify<G: Curve>(
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) =
         proof.evals_col.clone();
 
+    ensure!(row_eval_addr_ops_list.len() == 3 && row_eval_read_ts_list.len() == 3);
+    ensure!(col_eval_addr_ops_list.len() == 3 && col_eval_read_ts_list.len() == 3);
+
     let mut evals_ops: Vec<G::Fr> = Vec::new();
     evals_ops.extend(row_eval_addr_ops_list);
     evals_ops.extend(row_eval_read_ts_list);
@@ -939,7 +962,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_ops.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_ops, cs_ops[i]);
     }
-    assert_eq!(evals_ops.len(), 1);
+    ensure!(evals_ops.len() == 1);
     let claim_eval_ops = evals_ops[0];
     // let mut rs_ops = cs_ops;
     cs_ops.extend(ops_rands);
@@ -960,7 +983,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_ops,
         transcript,
     )?;
-    assert!(result);
+    ensure!(result);
     let mut evals_mem = vec![row_eval_audit_ts_val, col_eval_audit_ts_val];
     transcript.append_message(b"claim_evals_mem", &to_bytes!(evals_mem)?);
     let mut cs_mem = (0..log2(evals_mem.len()))
@@ -974,7 +997,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_mem.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_mem, cs_mem[i]);
     }
-    assert_eq!(evals_mem.len(), 1);
+    ensure!(evals_mem.len() == 1);
     let claim_eval_mem = evals_mem[0];
     // let mut rs_mem = cs_mem;
     cs_mem.extend(mem_rands);
@@ -997,7 +1020,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_mem,
         transcript,
     )?;
-    assert!(result);
+    ensure!(result);
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) = &proof.evals_row;
     let result = behind_verify_for_timestamp::<G>(
         rands,
@@ -1010,7 +1033,7 @@ pub fn hash_layer_verify<G: Curve>(
         gamma,
     )
     .is_ok();
-    assert!(result);
+    ensure!(result);
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) = &proof.evals_col;
     let result = behind_verify_for_timestamp::<G>(
         rands,
@@ -1023,7 +1046,7 @@ pub fn hash_layer_verify<G: Curve>(
         gamma,
     )
     .is_ok();
-    assert!(result);
+    ensure!(result);
     Ok(())
 }
 
@@ -1054,14 +1077,14 @@ where
     let eval_init_val = eval_eq_x_y::<G>(&r, &rands_mem);
     let hash_init_at_rand_mem =
         eval_init_addr * &gamma1 * &gamma1 + &(eval_init_val * &gamma1) - &gamma2;
-    assert_eq!(claim_init, hash_init_at_rand_mem);
+    ensure!(claim_init == hash_init_at_rand_mem);
 
     for i in 0..eval_addr_ops_list.len() {
         let hash_read_at_rand_ops = eval_addr_ops_list[i] * &gamma1 * &gamma1
             + &(eval_ops_val[i] * &gamma1)
             + &eval_read_ts_list[i]
             - &gamma2;
-        assert_eq!(claim_read_list[i], hash_read_at_rand_ops);
+        ensure!(claim_read_list[i] == hash_read_at_rand_ops);
     }
 
     for i in 0..eval_addr_ops_list.len() {
@@ -1069,7 +1092,7 @@ where
             + &(eval_ops_val[i] * &gamma1)
             + &(eval_read_ts_list[i] + &G::Fr::one())
             - &gamma2;
-        assert_eq!(claim_write_list[i], hash_write_at_rand_ops);
+        ensure!(claim_write_list[i] == hash_write_at_rand_ops);
     }
 
     let eval_audit_addr = eval_init_addr;
@@ -1077,7 +1100,7 @@ where
     let hash_audit_at_rand_mem =
         eval_audit_addr * &gamma1 * &gamma1 + &(eval_audit_val * &gamma1) + eval_audit_ts_val
             - &gamma2;
-    assert_eq!(cliam_audit, hash_audit_at_rand_mem);
+    ensure!(cliam_audit == hash_audit_at_rand_mem);
 
     Ok(true)
 }
-- 
2.43.0


From 929480e2b663fd3a5ed5e7d1e2aae421a3fff0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 20/47] fix: spartan NIZK verifier derives the evaluation point
 instead of trusting the prover's

---
 spartan/src/verify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 239b784..287aac9 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -44,11 +44,16 @@ pub fn verify_nizk_proof<G: Curve>(
     transcript.append_message(b"params_hash", &to_bytes!(params_hash).unwrap());
 
 
+    // `proof.r` is the prover's claim of the evaluation point: it must be the one derived below.
     let (rx, ry) = &proof.r;
+    let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
+    if rx.len() != log2(r1cs.num_constraints) as usize || ry.len() != log2(t) as usize + 1 {
+        return Ok(false);
+    }
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
-    let (result, _, _) = r1cs_satisfied_verify::<G>(
+    let (result, derived_rx, derived_ry) = r1cs_satisfied_verify::<G>(
         &params.r1cs_satisfied_params,
         r1cs,
         inputs,
@@ -57,7 +62,7 @@ pub fn verify_nizk_proof<G: Curve>(
         &mut transcript,
     )?;
 
-    Ok(result)
+    Ok(result && *rx == derived_rx && *ry == derived_ry)
 }
 
 pub fn verify_snark_proof<G: Curve>(
-- 
2.43.0


From 0d921b35f7d09d9dc174b04cedebd26e8f0ab1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 21/47] fix: spartan verifier checks the number of public
 inputs

---
 spartan/src/verify.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 287aac9..1b0c14f 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -124,6 +124,9 @@ pub fn r1cs_satisfied_verify<G: Curve>(
 ) -> Result<(bool, Vec<G::Fr>, Vec<G::Fr>), SynthesisError> {
     let (eval_a_r, eval_b_r, eval_c_r) = matrix_evals;
 
+    // one public input per input variable, the constant one aside
+    ensure!(inputs.len() + 1 == r1cs.num_inputs);
+
     let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
     let (num_rounds_x, num_rounds_y) = (log2(r1cs.num_constraints) as usize, log2(t) as usize + 1);
     let mut public_inputs = vec![G::Fr::one()];
-- 
2.43.0


From 6099cb5204054af17e3d275daf6bb55fd3686f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 22/47] fix: spartan public inputs that are zero keep their
 position

---
 spartan/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spartan/src/polynomial.rs b/spartan/src/polynomial.rs
index b3d7e17..b182f1d 100644
--- a/spartan/src/polynomial.rs
+++ b/spartan/src/polynomial.rs
@@ -41,8 +41,8 @@ pub fn sparse_evaluate_value<G: Curve>(value: &Vec<G::Fr>, r: &Vec<G::Fr>) -> G:
     let num_bits = r.len();
     let result = value
         .iter()
-        .filter(|&v| !v.is_zero())
         .enumerate()
+        .filter(|(_, v)| !v.is_zero())
         .map(|(i, v)| {
             let bits = (0..num_bits)
                 .map(|shift_amount| ((i & (1 << (num_bits - shift_amount - 1))) > 0))
-- 
2.43.0


From d8488d159ea0e0599a552b42957136e9f3f50367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 23/47] fix: spartan encodes matrices with at most one non-zero
 entry

---
 spartan/src/spark.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spartan/src/spark.rs b/spartan/src/spark.rs
index d267615..5b49071 100644
--- a/spartan/src/spark.rs
+++ b/spartan/src/spark.rs
@@ -35,7 +35,9 @@ pub fn encode<G: Curve, R: Rng>(
     assert_eq!(c_val.len(), c_row.len());
     assert_eq!(c_row.len(), c_col.len());
 
+    // the product circuits need at least one layer
     let n = cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len()).next_power_of_two();
+    let n = cmp::max(n, 2);
     a_row.resize(n, 0);
     b_row.resize(n, 0);
     c_row.resize(n, 0);
-- 
2.43.0


From ba050bfb1f793974a2102954078a694973d8df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 24/47] fix: spartan proofs no longer reveal the witness
 polynomial's evaluation

---
 spartan/src/data_structure.rs | 1 -
 spartan/src/prover.rs         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spartan/src/data_structure.rs b/spartan/src/data_structure.rs
index 805dd26..ef38f6e 100644
--- a/spartan/src/data_structure.rs
+++ b/spartan/src/data_structure.rs
@@ -191,7 +191,6 @@ pub struct R1CSSatProof<G: Curve> {
     pub commit_witness: Vec<G::Affine>,
     pub proof_one: SumCheckProof<G>,
     pub proof_two: SumCheckProof<G>,
-    pub w_ry: G::Fr,
     pub product_proof: DotProductProof<G>,
     pub knowledge_product_commit: KnowledgeProductCommit<G>,
     pub knowledge_product_proof: KnowledgeProductProof<G>,
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 95b672d..f2cfe37 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -407,7 +407,6 @@ where
         commit_witness: commit_witness,
         proof_one: proof_sc1,
         proof_two: proof_sc2,
-        w_ry: eval_w_ry,
         product_proof: wproof,
         knowledge_product_commit,
         knowledge_product_proof,
-- 
2.43.0


From c3238c7c18ad1077fe4256cfa65842d4d131f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 25/47] fix: libra proves circuits with uneven layers, padding
 and one-gate layers

---
 libra/src/circuit.rs             | 8 ++++++--
 libra/src/libra_zk_linear_gkr.rs | 3 +++
 libra/src/sumcheck.rs            | 8 ++++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index ff03927..e5be2ce 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -151,9 +151,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
@@ -177,6 +177,10 @@ impl Circuit {
                     }
                 }
             }
+            if d + 1 < self.depth {
+                // what the layer above reads is a full cube; the outputs stay as they are
+                values.resize(1 << layer.bit_size, G::Fr::zero());
+            }
             next_layer_values = values.clone();
             evals.push(values);
         }
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index bfa0653..85e50c3 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -58,6 +58,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             &to_bytes!(circuit_evals[circuit_evals.len() - 1]).unwrap(),
         );
 
+        // the witness half of the input layer
+        let mut witnesses = witnesses.clone();
+        witnesses.resize(1 << (circuit.layers[0].bit_size - 1), G::Fr::zero());
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
             &witnesses,
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index 77c9029..c916a80 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -302,7 +302,9 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], ru)
+        // a layer of one gate takes no rounds: the claim is passed on as it is
+        let blind = blind_evals.last().cloned().unwrap_or(blind_claim);
+        (proof, poly_value_at_r, blind, ru)
     }
 
     pub fn phase_two_prover<R: Rng>(
@@ -422,7 +424,9 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], rv)
+        // a layer of one gate takes no rounds: the claim is passed on as it is
+        let blind = blind_evals.last().cloned().unwrap_or(blind_claim);
+        (proof, poly_value_at_r, blind, rv)
     }
 }
 
-- 
2.43.0


From af7366d87420920eff26bb8356512e6c44f88103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 26/47] fix: libra verifier checks the circuit's wiring,
 degrees and list lengths

---
 libra/src/libra_linear_gkr.rs | 52 +++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 82ae52f..fd6fe7d 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -114,6 +114,13 @@ impl<G: Curve> LinearGKRProof<G> {
     }
 
     pub fn verify(&self, circuit: &Circuit, outputs: &Vec<G::Fr>, inputs: &Vec<G::Fr>, circuit_to_hash: G::Fr) -> bool {
+        if circuit.depth < 2
+            || self.proofs.len() != circuit.depth - 1
+            || outputs.len() > 1 << circuit.layers[circuit.depth - 1].bit_size
+            || inputs.len() > 1 << circuit.layers[0].bit_size
+        {
+            return false;
+        }
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         
@@ -122,7 +129,7 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
-        let (mut result_u, _) = eval_output::<G>(
+        let (mut result_u, mut gu_vec) = eval_output::<G>(
             &outputs,
             circuit.layers[circuit.depth - 1].bit_size,
             &mut transcript,
@@ -132,20 +139,28 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut eval_rv_y = G::Fr::zero();
         let mut ru_vec = Vec::new();
         let mut rv_vec = Vec::new();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
+        let mut gv_vec = vec![G::Fr::zero(); gu_vec.len()];
         for (d, lproof) in self.proofs.iter().enumerate() {
             let mut claim = alpha * &result_u + &(beta * &result_v);
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
             ru_vec = Vec::new();
             rv_vec = Vec::new();
+            if proof1.polys.len() != bit_size
+                || proof2.polys.len() != bit_size
+                || proof1.poly_value_at_r.len() != 4
+                || proof2.poly_value_at_r.len() != 3
+            {
+                return false;
+            }
             // let mut comm_claim = comm_claim;
             for i in 0..bit_size {
                 let poly = &proof1.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.coeffs.len() > 3
+                    || poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim
+                {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -158,13 +173,16 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_ru_final[0] * &eval_ru_final[1]
                 + &(eval_ru_final[0] * &eval_ru_final[2])
                 + &eval_ru_final[3];
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
             for i in 0..bit_size {
                 let poly = &proof2.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.coeffs.len() > 3
+                    || poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim
+                {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -177,7 +195,17 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_rv_final[1] * &eval_rv_final[0] * &eval_ru_final[0]
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
+            // the claimed values of the gates' indicators are those of the circuit
+            let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
+                .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
+            if eval_rv_final[1] != mult_gate_eval || eval_rv_final[2] != add_gate_eval {
+                return false;
+            }
+            gu_vec = ru_vec.clone();
+            gv_vec = rv_vec.clone();
             if d < circuit.depth - 2 {
                 result_u = eval_ru_final[0];
                 result_v = eval_rv_final[0];
-- 
2.43.0


From f678757998222ddc25dcc6d2926198c65dee74eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 27/47] fix: libra zk verifier rejects malformed proofs instead
 of panicking

---
 libra/src/commitment.rs          |  8 ++++++
 libra/src/libra_zk_linear_gkr.rs | 46 +++++++++++++++++++++++++-------
 libra/src/sumcheck.rs            |  9 +++++++
 3 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index b1bdb5d..a86061c 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -176,6 +176,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -400,6 +403,11 @@ impl<G: Curve> LogDotProductProof<G> {
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
 
+        let rounds = log2(a_vec.len()) as usize;
+        let reduce = &self.bullet_reduce_proof;
+        if reduce.l_vec.len() != rounds || reduce.r_vec.len() != rounds {
+            return false;
+        }
         let gamma = comm_x + comm_y;
         let (a_hat, g_hat, gamma_hat) =
             self.bullet_reduce_proof
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index 85e50c3..eb9cd7a 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -280,6 +280,16 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         circuit_to_hash: G::Fr,
         params_to_hash: G::Fr,
     ) -> bool {
+        if circuit.depth < 2 || self.proofs.len() != circuit.depth - 1 {
+            return false;
+        }
+        let input_bits = circuit.layers[0].bit_size - 1;
+        if outputs.len() > 1 << circuit.layers[circuit.depth - 1].bit_size
+            || inputs.len() > 1 << input_bits
+            || self.comm_witness.len() != 1 << (input_bits / 2)
+        {
+            return false;
+        }
         let mut transcript = Transcript::new(b"libra - zk linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
@@ -311,12 +321,14 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         let mut rv_vec = Vec::new();
         let mut gu_vec = gu.clone();
         let mut gv_vec = gu.clone();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
         for (d, lproof) in self.proofs.iter().enumerate() {
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
             ru_vec = Vec::new();
             rv_vec = Vec::new();
+            if !proof1.has_rounds(bit_size) || !proof2.has_rounds(bit_size) {
+                return false;
+            }
             // let mut comm_claim = comm_claim;
             for i in 0..bit_size {
                 let comm_poly = proof1.comm_polys[i];
@@ -336,7 +348,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 ru_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -360,7 +374,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 rv_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -373,7 +389,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 lproof.comm_z,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
                 .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
@@ -386,7 +404,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 comm_claim,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             gu_vec = ru_vec.clone();
             gv_vec = rv_vec.clone();
@@ -419,7 +439,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &ru_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -438,7 +460,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
         let rs = self.prod_proof1.reduce_verifier(
             &params.pc_params,
             &rv_vec[1..].to_vec(),
@@ -446,7 +470,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &rv_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -465,7 +491,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index c916a80..11bb3d6 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -183,6 +183,12 @@ pub struct ZKSumCheckProof<G: Curve> {
 }
 
 impl<G: Curve> ZKSumCheckProof<G> {
+    pub(crate) fn has_rounds(&self, rounds: usize) -> bool {
+        self.comm_polys.len() == rounds
+            && self.comm_evals.len() == rounds
+            && self.proofs.len() == rounds
+    }
+
     pub fn phase_one_prover<R: Rng>(
         params: &SumCheckCommitmentSetupParameters<G>,
         f_vec: &Vec<G::Fr>,
@@ -535,6 +541,9 @@ impl<G: Curve> SumCheckEvalProof<G> {
         bit_size: usize,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != bit_size {
+            return false;
+        }
         let w = (0..2)
             .map(|_i| {
                 let mut buf = [0u8; 32];
-- 
2.43.0


From bee72a44534d63024cf391bcc4e6df3938bec81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 28/47] fix: hyrax proves circuits with uneven layers and draws
 a blind per gate variable

---
 hyrax/src/circuit.rs           |  4 +--
 hyrax/src/evaluate.rs          | 52 +++++++++-------------------------
 hyrax/src/hyrax_proof.rs       |  8 +++---
 hyrax/src/zk_sumcheck_proof.rs |  7 ++---
 4 files changed, 23 insertions(+), 48 deletions(-)

diff --git a/hyrax/src/circuit.rs b/hyrax/src/circuit.rs
index 42b2bd7..1e32ff3 100644
--- a/hyrax/src/circuit.rs
+++ b/hyrax/src/circuit.rs
@@ -129,9 +129,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
diff --git a/hyrax/src/evaluate.rs b/hyrax/src/evaluate.rs
index 88ad5a0..a2da5ab 100644
--- a/hyrax/src/evaluate.rs
+++ b/hyrax/src/evaluate.rs
@@ -167,45 +167,21 @@ pub fn construct_matrix<G: Curve>(
         .map(|_| vec![G::Fr::zero(); 4 * log_n + 6 * log_g + 3])
         .collect::<Vec<_>>();
 
-    mm[0][0] = G::Fr::one().double();
-    mm[0][1] = G::Fr::one();
-    mm[0][2] = G::Fr::one();
-    mm[0][3] = G::Fr::one();
-    for i in 0..log_n - 1 {
-        let mut r = G::Fr::one().neg();
-        mm[i + 1][i * 4] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 1] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 2] = r;
-        r *= &rs[i];
-        mm[i + 1][i * 4 + 3] = r;
-        mm[i + 1][i * 4 + 4] = G::Fr::one().double();
-        mm[i + 1][i * 4 + 5] = G::Fr::one();
-        mm[i + 1][i * 4 + 6] = G::Fr::one();
-        mm[i + 1][i * 4 + 7] = G::Fr::one();
-    }
-    let mut r = G::Fr::one().neg();
-    mm[log_n][(log_n - 1) * 4] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 1] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 2] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 3] = r;
-    mm[log_n][(log_n - 1) * 4 + 4] = G::Fr::one().double();
-    mm[log_n][(log_n - 1) * 4 + 5] = G::Fr::one();
-    mm[log_n][(log_n - 1) * 4 + 6] = G::Fr::one();
-    for i in 0..2 * log_g {
+    // a round over the copies has four coefficients, a round over the gates three
+    let rounds = log_n + 2 * log_g;
+    for j in 0..rounds {
+        let (column, width, challenge) = if j < log_n {
+            (4 * j, 4, rs[j])
+        } else {
+            (log_n + 3 * j, 3, rs_vec[j - log_n])
+        };
         let mut r = G::Fr::one().neg();
-        mm[log_n + 1 + i][log_n * 4 + i * 3] = r;
-        r *= &rs_vec[i];
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 1] = r;
-        r *= &rs_vec[i];
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 2] = r;
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 3] = G::Fr::one().double();
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 4] = G::Fr::one();
-        mm[log_n + 1 + i][log_n * 4 + i * 3 + 5] = G::Fr::one();
+        for k in 0..width {
+            mm[j][column + k] = G::Fr::one();
+            mm[j + 1][column + k] = r;
+            r *= &challenge;
+        }
+        mm[j][column] = G::Fr::one().double();
     }
 
     let eval_0 = eval_eq_x_y::<G>(q_aside_vec, rs);
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index d2bd23c..1833fd6 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -57,8 +57,8 @@ impl<G: Curve> HyraxProof<G> {
         for i in 0..n {
             let witness = witnesses[i].clone();
             witness_vec.extend(witness);
-            let wl = witnesses[i].len();
-            witness_vec.extend(vec![G::Fr::zero(); wl.next_power_of_two() - wl]);
+            // the witness half of the input layer
+            witness_vec.resize((i + 1) << (circuit.layers[0].bit_size - 1), G::Fr::zero());
         }
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -286,8 +286,8 @@ impl<G: Curve> HyraxProof<G> {
         for i in 0..n {
             let input = inputs[i].clone();
             input_vec.extend(input);
-            let al = inputs[i].len();
-            input_vec.extend(vec![G::Fr::zero(); al.next_power_of_two() - al]);
+            // the input half of the input layer
+            input_vec.resize((i + 1) << (circuit.layers[0].bit_size - 1), G::Fr::zero());
         }
 
         let mut rl_q_vec = q_aside_vec.clone();
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 1d8f373..e45d011 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -58,7 +58,6 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let mut comm_claim = comm_a0;
         let mut claim = claim;
 
-        let log_g = ql_vec.len();
         let log_ng: usize = log2(ng) as usize;
         let log_n: usize = log2(n) as usize;
         let fr_two: G::Fr = 2u32.into();
@@ -87,13 +86,13 @@ impl<G: Curve> ZkSumcheckProof<G> {
             .map(|i| eq_ql_vec[i] * &u0 + &(eq_qr_vec[i] * &u1))
             .collect::<Vec<_>>();
         let mut temp_vec = Vec::new();
-        for i in 0..xg_q.len() {
+        assert!(gates.len() <= xg_q.len());
+        for i in 0..gates.len() {
             let temp_p_vec = (0..eq_vec.len())
                 .map(|t| eq_vec[t] * &xg_q[i])
                 .collect::<Vec<_>>();
             temp_vec.push(temp_p_vec);
         }
-        assert_eq!(temp_vec.len(), gates.len());
 
         // sumcheck #1
         let mut rs = Vec::new();
@@ -428,7 +427,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 &params.gen_1.generators,
                 &vec![eval_ri],
                 &params.gen_1.h,
-                r_alpha_eval_vec[log_n + log_g + j],
+                r_alpha_eval_vec[log_n + log_ng + j],
             );
             transcript.append_message(b"comm_claim_per_round", &to_bytes!(comm_claim).unwrap());
             transcript.append_message(b"comm_eval", &to_bytes!(comm_eval).unwrap());
-- 
2.43.0


From 846079baf4c0966dbb31ef07e64851795a1d56e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 29/47] fix: hyrax verifier ties the first commitment to the
 claimed outputs

---
 hyrax/src/zk_sumcheck_proof.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index e45d011..d7eb9e7 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -629,6 +629,8 @@ impl<G: Curve> ZkSumcheckProof<G> {
         ng: usize,
         transcript: &mut Transcript,
     ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+        // the claim is the verifier's, not one of the prover's choice
+        let claim_matches = self.comm_a0 == comm_claim;
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
@@ -659,7 +661,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
 
         let m_vec = construct_matrix::<G>((&rs, &r0, &r1), q_vec, gates, u, log_n, log_ng);
 
-        let result = self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript);
+        let result = claim_matches && self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript);
         assert!(result);
 
         (self.comm_x, self.comm_y, rs, r0, r1)
-- 
2.43.0


From 8b1ad096d449676765113f1b729468ff6ca8c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 30/47] fix: hyrax verifier rejects malformed proofs instead of
 panicking

---
 hyrax/src/commitment.rs        |  8 +++++
 hyrax/src/hyrax_proof.rs       | 56 +++++++++++++++++++++++-----------
 hyrax/src/zk_sumcheck_proof.rs | 23 +++++++++++---
 3 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 6241114..241fa84 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -177,6 +177,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -402,6 +405,11 @@ impl<G: Curve> LogDotProductProof<G> {
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
 
+        let rounds = log2(a_vec.len()) as usize;
+        let reduce = &self.bullet_reduce_proof;
+        if reduce.l_vec.len() != rounds || reduce.r_vec.len() != rounds {
+            return false;
+        }
         let gamma = comm_x + comm_y;
         let (a_hat, g_hat, gamma_hat) =
             self.bullet_reduce_proof
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index 1833fd6..d03a832 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -1,5 +1,6 @@
 use ark_ff::{to_bytes, One, UniformRand, Zero};
 use ark_serialize::*;
+use ark_std::log2;
 use merlin::Transcript;
 use rand::Rng;
 use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
@@ -225,8 +226,18 @@ impl<G: Curve> HyraxProof<G> {
         transcript.append_message(b"param_to_hash", &to_bytes!(param_to_hash).unwrap());   
 
         let n = outputs.len();
-        assert_eq!(n.next_power_of_two(), n);
-        assert!(n > 0);
+        if !n.is_power_of_two() || inputs.len() != n || circuit.depth < 2 {
+            return false;
+        }
+        let input_bits = circuit.layers[0].bit_size - 1;
+        let output_layer = &circuit.layers[circuit.depth - 1];
+        if outputs.iter().any(|v| v.len() != output_layer.gates_count)
+            || inputs.iter().any(|v| v.len() > 1 << input_bits)
+            || self.proofs.len() != circuit.depth - 1
+            || self.comm_witness.len() != 1 << ((log2(n) as usize + input_bits) / 2)
+        {
+            return false;
+        }
 
         for i in 0..n {
             transcript.append_message(b"input_i", &to_bytes!(inputs[i]).unwrap());
@@ -252,17 +263,20 @@ impl<G: Curve> HyraxProof<G> {
         for d in 0..circuit.depth - 1 {
             let next_gate_num = circuit.layers[circuit.depth - d - 2].gates_count;
             let ng = next_gate_num.next_power_of_two();
-            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) = self.proofs[d]
-                .verify(
-                    &params.sc_params,
-                    comm_a,
-                    (u0, u1),
-                    (&q_aside_vec, &ql_vec, &qr_vec),
-                    &circuit.layers[circuit.depth - d - 1].gates,
-                    n,
-                    ng,
-                    &mut transcript,
-                );
+            let verified = self.proofs[d].verify(
+                &params.sc_params,
+                comm_a,
+                (u0, u1),
+                (&q_aside_vec, &ql_vec, &qr_vec),
+                &circuit.layers[circuit.depth - d - 1].gates,
+                n,
+                ng,
+                &mut transcript,
+            );
+            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) = match verified {
+                Some(v) => v,
+                None => return false,
+            };
 
             comm_x = comm_x_tmp;
             comm_y = comm_y_tmp;
@@ -299,7 +313,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rl_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -318,7 +334,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         let mut rr_q_vec = q_aside_vec.clone();
         rr_q_vec.extend(qr_vec[1..qr_vec.len()].to_vec());
@@ -329,7 +347,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rr_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -348,7 +368,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index d7eb9e7..af6a822 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -628,17 +628,26 @@ impl<G: Curve> ZkSumcheckProof<G> {
         n: usize,
         ng: usize,
         transcript: &mut Transcript,
-    ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+    ) -> Option<(G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>)> {
         // the claim is the verifier's, not one of the prover's choice
         let claim_matches = self.comm_a0 == comm_claim;
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
 
+        let rounds = log_n + 2 * log_ng;
+        if self.comm_polys.len() != rounds
+            || self.comm_evals.len() != rounds
+            || self.comm_deltas.len() != rounds
+            || self.z_delta_vec.len() != rounds
+            || self.z_vec.len() != 4 * log_n + 6 * log_ng
+        {
+            return None;
+        }
         let mut rs = Vec::new();
         let mut r0 = Vec::new();
         let mut r1 = Vec::new();
-        for j in 0..log_n + 2 * log_ng {
+        for j in 0..rounds {
             let comm_poly = self.comm_polys[j];
             let comm_eval = self.comm_evals[j];
             transcript.append_message(b"comm_poly", &to_bytes!(comm_poly).unwrap());
@@ -662,9 +671,11 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let m_vec = construct_matrix::<G>((&rs, &r0, &r1), q_vec, gates, u, log_n, log_ng);
 
         let result = claim_matches && self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript);
-        assert!(result);
+        if !result {
+            return None;
+        }
 
-        (self.comm_x, self.comm_y, rs, r0, r1)
+        Some((self.comm_x, self.comm_y, rs, r0, r1))
     }
 
     pub fn sumcheck_verify(
@@ -682,7 +693,9 @@ impl<G: Curve> ZkSumcheckProof<G> {
             self.comm_z,
             transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         for i in 0..self.comm_deltas.len() {
             transcript.append_message(b"comm_delta", &to_bytes!(self.comm_deltas[i]).unwrap());
-- 
2.43.0


From 6f1eeea6c75f3ab443f7dd8f77242006511fd8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 31/47] fix: plonk verifier rejects proofs with commitments
 outside their round or wrong lengths

---
 plonk/src/ahp/mod.rs |  3 +++
 plonk/src/lib.rs     | 20 +++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/plonk/src/ahp/mod.rs b/plonk/src/ahp/mod.rs
index b8dede5..7631388 100644
--- a/plonk/src/ahp/mod.rs
+++ b/plonk/src/ahp/mod.rs
@@ -26,6 +26,9 @@ impl<F: Field> AHPForPLONK<F> {
     pub const LABELS: [&'static str; 9] =
         ["w_0", "w_1", "w_2", "w_3", "z", "t_0", "t_1", "t_2", "t_3"];
 
+    /// The number of commitments in each round.
+    pub const ROUNDS: [usize; 3] = [4, 1, 4];
+
     pub fn construct_linear_combinations(
         info: &IndexInfo<F>,
         first_msg: &FirstMsg<F>,
diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 7f21878..6861758 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -21,7 +21,7 @@ use ark_ff::{to_bytes, FftField as Field};
 use ark_poly::univariate::DensePolynomial;
 use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
 
-use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
+use ark_std::{collections::BTreeSet, marker::PhantomData, string::ToString, vec, vec::Vec};
 use digest::Digest;
 use rand_core::RngCore;
 
@@ -208,6 +208,15 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        // every commitment belongs to the round it was sent in, and nothing else is sent
+        let rounds: Vec<_> = proof.commitments.iter().map(|c| c.len()).collect();
+        if rounds != AHPForPLONK::<F>::ROUNDS {
+            return Ok(false);
+        }
+        if public_inputs.len() > vk.info.n {
+            return Ok(false);
+        }
+
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
             FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
@@ -225,6 +234,15 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         let (vs, third_msg) = AHPForPLONK::verifier_third_round(vs, &mut fs_rng)?;
 
         let query_set = AHPForPLONK::verifier_query_set(&vs);
+        if proof.evaluations.len() != query_set.len() {
+            return Ok(false);
+        }
+        // one opening for each of the points
+        let points: BTreeSet<_> = query_set.iter().map(|(_, (label, _))| label).collect();
+        let openings: Vec<PC::Proof> = proof.pc_proof.proof.clone().into();
+        if openings.len() != points.len() {
+            return Ok(false);
+        }
         fs_rng.absorb(&proof.evaluations);
         let epsilon = F::rand(&mut fs_rng);
 
-- 
2.43.0


From e3c98f478cdd403d623ff64f385fa4e856a8623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 32/47] fix: plonk verifier weighs the batched openings after
 they are fixed

---
 plonk/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 6861758..c85100b 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -20,6 +20,7 @@ use std::collections::HashMap as Map;
 use ark_ff::{to_bytes, FftField as Field};
 use ark_poly::univariate::DensePolynomial;
 use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
+use ark_serialize::CanonicalSerialize;
 
 use ark_std::{collections::BTreeSet, marker::PhantomData, string::ToString, vec, vec::Vec};
 use digest::Digest;
@@ -266,6 +267,14 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         };
 
         let pc_check = {
+            // the openings are checked as one batch, with weights fixed after all of them
+            let mut openings = vec![];
+            proof
+                .pc_proof
+                .serialize(&mut openings)
+                .map_err(|_| Error::Other)?;
+            fs_rng.absorb(&openings);
+
             let labels: Vec<_> = vk
                 .labels
                 .iter()
@@ -300,7 +309,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
                 &evaluations,
                 &proof.pc_proof,
                 epsilon,
-                &mut ark_std::test_rng(), // we now impl default rng (not use)
+                &mut fs_rng,
             )
             .map_err(Error::from_pc_err)?
         };
-- 
2.43.0


From ab26b9758d5403f55e97e430508ee0764491e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 33/47] fix: plonk challenges depend on the circuit

---
 plonk/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index c85100b..c12e159 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -98,8 +98,9 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
     ) -> Result<Proof<F, PC>, Error<PC::Error>> {
         let public_inputs = cs.public_inputs();
 
-        let mut fs_rng =
-            FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
+        let mut fs_rng = FiatShamirRng::<D>::from_seed(
+            &to_bytes![&Self::PROTOCOL_NAME, pk.vk.comms, public_inputs].unwrap(),
+        );
 
         let ps = AHPForPLONK::prover_init(cs, &pk.index)?;
         let vs = AHPForPLONK::verifier_init(&pk.vk.info)?;
@@ -219,8 +220,9 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         }
 
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
-        let mut fs_rng =
-            FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
+        let mut fs_rng = FiatShamirRng::<D>::from_seed(
+            &to_bytes![&Self::PROTOCOL_NAME, vk.comms, public_inputs].unwrap(),
+        );
 
         let first_comms = &proof.commitments[0];
         fs_rng.absorb(&to_bytes![first_comms].unwrap());
-- 
2.43.0


From 8b7f13156adde2b0ee1ff2242012a332d2f1a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 34/47] fix: asvc verifiers accepted mismatched, repeated and
 out-of-range positions

---
 asvc/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index f57fb0d..7ae06f4 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -235,6 +235,18 @@ pub fn verify_pos<E>(
 where
     E: PairingEngine,
 {
+    // one value for each position, no position twice, none outside the vector
+    let n = vrk_params.powers_of_g1.len() - 1;
+    if points.len() != point_values.len() || points.iter().any(|i| *i as usize >= n) {
+        return Ok(false);
+    }
+    let mut sorted_points = points.clone();
+    sorted_points.sort_unstable();
+    sorted_points.dedup();
+    if sorted_points.len() != points.len() {
+        return Ok(false);
+    }
+
     // A_I(x) = ∏(x - ω^i)
     let mut a_polynomial = DensePolynomial::from_coefficients_vec(vec![E::Fr::one()]);
     for point in points.iter() {
@@ -294,6 +306,9 @@ where
     E: PairingEngine,
 {
     let n = vrk_params.powers_of_g1.len() - 1;
+    if point as usize >= n {
+        return Ok(false);
+    }
     // e(a_i, g^i/g^(w^i)) = e(a,g)
     // ω^i
     let omega_i = omega.pow(&[point as u64]);
-- 
2.43.0


From 3994c1e53ecd8c92d62fb6c958842ad3d64bc763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 35/47] fix: curve25519 scalar field constants (generator, root
 of unity, halves) were wrong, so square roots and symbols failed

---
 curve25519/src/fr.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/curve25519/src/fr.rs b/curve25519/src/fr.rs
index 7d47627..28a047c 100644
--- a/curve25519/src/fr.rs
+++ b/curve25519/src/fr.rs
@@ -17,10 +17,10 @@ impl FftParameters for FrParameters {
 
     #[rustfmt::skip]
     const TWO_ADIC_ROOT_OF_UNITY: BigInteger = BigInteger([
-        0x0,
-        0x0,
-        0x0,
-        0x0,
+        8969215743819189885u64,
+        5516037659391044808u64,
+        15508184678381615533u64,
+        385507852950656554u64,
     ]);
 }
 
@@ -62,38 +62,38 @@ impl FpParameters for FrParameters {
     /// INV = -(q^{-1} mod 2^64) mod 2^64
     const INV: u64 = 15183074304973897243u64;
 
-    /// GENERATOR = 9
+    /// GENERATOR = 2
     const GENERATOR: BigInteger = BigInteger([
-        14824341744311508637u64,
-        6301218275840713796u64,
-        18446744073709551604u64,
+        6180627327055779405u64,
+        8718896354912633355u64,
+        18446744073709551613u64,
         1152921504606846975u64,
     ]);
 
     /// (Self::MODULUS - 1) / 2
     #[rustfmt::skip]
     const MODULUS_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        13876462170967809896,
-        12031312481604134578,
+        3173121894899182070,
+        751957030100258411,
         0,
-        0
+        576460752303423488
     ]);
 
     /// t for 2^s * t = MODULUS - 1
     #[rustfmt::skip]
     const T: BigInteger = BigInteger([
-        6938231085483904948,
-        6015656240802067289,
+        10809932984304366843,
+        375978515050129205,
         0,
-        0
+        288230376151711744
     ]);
 
     /// (t - 1) / 2
     #[rustfmt::skip]
     const T_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        2367949182742163228,
-        18046968722406201868,
+        14628338529006959229,
+        187989257525064602,
         0,
-        0
+        144115188075855872
     ]);
 }
-- 
2.43.0


From e99a82dba35132f6f34dfa3e210668f28768ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 36/47] fix: curve25519 points were serialized with a length
 prefix their decoder and declared size do not have

---
 curve25519/src/group.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 59707c0..add48e6 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -292,8 +292,9 @@ impl Zeroize for Curve25519Point {
 
 impl CanonicalSerialize for Curve25519Point {
     #[inline]
-    fn serialize<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize<W: io::Write>(&self, mut writer: W) -> Result<(), SerializationError> {
+        // the declared 32 bytes, without the length prefix of a byte slice
+        Ok(writer.write_all(self.0.compress().as_bytes())?)
     }
 
     #[inline]
@@ -303,7 +304,7 @@ impl CanonicalSerialize for Curve25519Point {
 
     #[inline]
     fn serialize_uncompressed<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+        self.serialize(writer)
     }
 
     #[inline]
-- 
2.43.0


From 9914d28130e6bbbc334d203230f4f3e7302fe853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 37/47] fix: curve25519 points panicked on doubling,
 normalization, generator and cofactor operations

---
 curve25519/src/group.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index add48e6..b84b77f 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -1,4 +1,4 @@
-use ark_ff::{FromBytes, PrimeField, ToBytes, Zero};
+use ark_ff::{Field, FromBytes, PrimeField, ToBytes, Zero};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
 use ark_std::io;
 use curve25519_dalek::ristretto::CompressedRistretto;
@@ -85,12 +85,13 @@ impl AffineCurve for Curve25519Point {
     }
 
     fn mul_by_cofactor_inv(&self) -> Self {
-        //self *= (Fr::from(8u32).inverse().unwrap())
-        panic!("Curve mul_by_cofactor_inv");
+        let mut p = self.clone();
+        p *= Fr::from(8u32).inverse().unwrap();
+        p.into()
     }
 
     fn mul_by_cofactor_to_projective(&self) -> Self::Projective {
-        panic!("Curve mul_by_cofactor_to_projective");
+        self.mul_by_cofactor()
     }
 }
 
@@ -102,11 +103,11 @@ impl ProjectiveCurve for Curve25519Point {
     const COFACTOR: &'static [u64] = &[0, 0, 0, 0];
 
     fn prime_subgroup_generator() -> Self {
-        panic!("Curve prime_subgroup_generator");
+        <Self as AffineCurve>::prime_subgroup_generator()
     }
 
     fn batch_normalization(_v: &mut [Self]) {
-        panic!("Curve batch normalization");
+        // a single representation serves as affine and as projective point
     }
 
     fn batch_normalization_into_affine(v: &[Self]) -> crate::Vec<Self::Affine> {
@@ -116,7 +117,7 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn is_normalized(&self) -> bool {
-        panic!("Curve is_normalized");
+        true
     }
 
     fn double(&self) -> Self {
@@ -126,7 +127,8 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn double_in_place(&mut self) -> &mut Self {
-        panic!("Curve double_in_place");
+        *self += *self;
+        self
     }
 
     fn into_affine(&self) -> Self::Affine {
-- 
2.43.0


From b30eb4a472892f154963855a5204ffd915a242f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 38/47] fix: spartan relation hash marks the rows of the
 matrices

---
 spartan/src/r1cs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spartan/src/r1cs.rs b/spartan/src/r1cs.rs
index f4987b0..89bdda8 100644
--- a/spartan/src/r1cs.rs
+++ b/spartan/src/r1cs.rs
@@ -31,6 +31,7 @@ impl <G: Curve> R1CSInstance<G> {
     
         for matrix in self.a_matrix.iter(){
             
+            transcript.append_u64(b"a_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"a_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -41,6 +42,7 @@ impl <G: Curve> R1CSInstance<G> {
         }
         for matrix in self.b_matrix.iter(){
             
+            transcript.append_u64(b"b_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"b_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -51,6 +53,7 @@ impl <G: Curve> R1CSInstance<G> {
         }
         for matrix in self.c_matrix.iter(){
             
+            transcript.append_u64(b"c_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"c_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
-- 
2.43.0


From 63e2bc956e37af4b1cb1d77e1854d45c7a1214cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 39/47] fix: plonk verifier rejects commitments with degree
 bounds instead of panicking

---
 plonk/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index c12e159..15cbf2c 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -19,7 +19,9 @@ use std::collections::HashMap as Map;
 
 use ark_ff::{to_bytes, FftField as Field};
 use ark_poly::univariate::DensePolynomial;
-use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
+use ark_poly_commit::{
+    Evaluations, LabeledCommitment, PCCommitment, PCUniversalParams, PolynomialCommitment,
+};
 use ark_serialize::CanonicalSerialize;
 
 use ark_std::{collections::BTreeSet, marker::PhantomData, string::ToString, vec, vec::Vec};
@@ -215,6 +217,10 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         if rounds != AHPForPLONK::<F>::ROUNDS {
             return Ok(false);
         }
+        // none of the polynomials has a degree bound, so neither has a commitment
+        if proof.commitments.iter().flatten().any(|c| c.has_degree_bound()) {
+            return Ok(false);
+        }
         if public_inputs.len() > vk.info.n {
             return Ok(false);
         }
-- 
2.43.0


From 11cac18220121d85d4e2f2588434f1fcf1117d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 40/47] fix: r1cs index decoding accepts only the two tags
 encoding writes

---
 r1cs/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/r1cs/src/lib.rs b/r1cs/src/lib.rs
index 89ce6f5..6343609 100644
--- a/r1cs/src/lib.rs
+++ b/r1cs/src/lib.rs
@@ -137,7 +137,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 
@@ -147,7 +148,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 
@@ -157,7 +159,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 }
-- 
2.43.0


From 686648797b3b4111ba6dd6d8e6a03f08aabf130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 41/47] fix: marlin prover dropped coefficients when the
 blinded polynomials differ in degree

---
 marlin/src/ahp/prover.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 4871d6d..aba361f 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -249,10 +249,16 @@ impl<F: PrimeField> AHP<F> {
         let z_c_poly = z_a.polynomial() * z_b.polynomial();
         let mut m_coeffs = z_c_poly.coeffs;
         cfg_iter_mut!(m_coeffs).for_each(|c| *c *= &eta_c);
-        cfg_iter_mut!(m_coeffs)
-            .zip(&z_a.polynomial().coeffs)
-            .zip(&z_b.polynomial().coeffs)
-            .for_each(|((c, a), b)| *c += (eta_a * a) + &(eta_b * b));
+        // the two polynomials may differ in degree, and their product may vanish
+        for (eta, z) in [(eta_a, z_a), (eta_b, z_b)].iter() {
+            let coeffs = &z.polynomial().coeffs;
+            if m_coeffs.len() < coeffs.len() {
+                m_coeffs.resize(coeffs.len(), F::zero());
+            }
+            cfg_iter_mut!(m_coeffs)
+                .zip(coeffs)
+                .for_each(|(c, z)| *c += *eta * z);
+        }
         let m_poly = DensePolynomial::from_coefficients_vec(m_coeffs);
         // r_alpha
         let r_alpha_evals_on_h = domain_h.batch_evals(alpha);
-- 
2.43.0


From f24cdd55fa1097b0f06b28fa1c120efa33446d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 42/47] fix: marlin prover panicked when the mask polynomial
 vanishes on the domain

---
 marlin/src/ahp/prover.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index aba361f..032ac9c 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -204,8 +204,10 @@ impl<F: PrimeField> AHP<F> {
 
         let mask_degree = 3 * domain_h.size() + 2 * zk_bound - 3;
         let mut mask_poly = DensePolynomial::<F>::rand(mask_degree, rng);
-        let sigma = (mask_poly.divide_by_vanishing_poly(domain_h).unwrap().1)[0]; // r_0
-        mask_poly[0] -= sigma; // forcing r_0 = 0, sum_over_h(mask_poly) = 0
+        let remainder = mask_poly.divide_by_vanishing_poly(domain_h).unwrap().1;
+        if let Some(sigma) = remainder.coeffs.first() {
+            mask_poly[0] -= sigma; // forcing r_0 = 0, sum_over_h(mask_poly) = 0
+        }
 
         let w = LabeledPolynomial::new_owned("w".to_string(), w_poly, None, Some(zk_bound));
         let z_a = LabeledPolynomial::new_owned("z_a".to_string(), z_a_poly, None, Some(zk_bound));
-- 
2.43.0


From 6698901a11e620281965f70d236bd1c20a5f5796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 43/47] fix: cli hash circuit ties its public image to the mimc
 output

---
 cli/src/circuits/hash.rs   | 17 ++++++++++++-----
 gadgets/src/hashes/mimc.rs | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/cli/src/circuits/hash.rs b/cli/src/circuits/hash.rs
index 0cc482e..87191a9 100644
--- a/cli/src/circuits/hash.rs
+++ b/cli/src/circuits/hash.rs
@@ -1,5 +1,5 @@
 use ark_ff::PrimeField;
-use zkp_gadgets::hashes::mimc::{hash, mimc};
+use zkp_gadgets::hashes::mimc::{hash, mimc_image};
 use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};
 
 use super::{CliCircuit, Publics};
@@ -14,17 +14,24 @@ impl<F: PrimeField> ConstraintSynthesizer<F> for Hash<F> {
         self,
         cs: &mut CS,
     ) -> Result<(), SynthesisError> {
-        let value = if let Some(bytes) = self.image {
-            mimc(cs.ns(|| "mimc-gadget"), Some(&bytes))?
+        let (value, var_hash) = if let Some(bytes) = self.image {
+            mimc_image(cs.ns(|| "mimc-gadget"), Some(&bytes))?
         } else {
-            mimc(cs.ns(|| "mimc-gadget"), None)?
+            mimc_image(cs.ns(|| "mimc-gadget"), None)?
         };
 
-        let _ = cs.alloc_input(
+        let var_image = cs.alloc_input(
             || "image",
             || value.ok_or(SynthesisError::AssignmentMissing),
         )?;
 
+        cs.enforce(
+            || "image = mimc(preimage)",
+            |lc| lc + var_hash,
+            |lc| lc + CS::one(),
+            |lc| lc + var_image,
+        );
+
         Ok(())
     }
 }
diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index e1b148e..e6f0e4e 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -98,9 +98,17 @@ pub fn hash<F: PrimeField>(b: &[u8]) -> F {
 }
 
 pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
-    mut cs: CS,
+    cs: CS,
     b: Option<&[u8]>,
 ) -> Result<Option<F>, SynthesisError> {
+    mimc_image(cs, b).map(|(value, _)| value)
+}
+
+/// like `mimc`, and also returns the variable of the image.
+pub fn mimc_image<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    b: Option<&[u8]>,
+) -> Result<(Option<F>, Variable), SynthesisError> {
     let constants = constants::<F>();
     let (xl_value, xr_value, image_value) = match b {
         Some(bytes) => {
@@ -119,9 +127,10 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         || xr_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
 
-    mimc_block_enforce(&mut cs, (xl_value, var_xl), (xr_value, var_xr), &constants)?;
+    let (_, var_image) =
+        mimc_block_enforce(&mut cs, (xl_value, var_xl), (xr_value, var_xr), &constants)?;
 
-    Ok(image_value)
+    Ok((image_value, var_image))
 }
 
 /// the circuit of `mimc_block`, returns the value and the variable of its output.
-- 
2.43.0


From 6591b2e8104198862c6286c3248e155a5e445dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:47 +0000
Subject: [PATCH 44/47] fix: Spartan verifier contracts pass the hashes their
 verifier binds

---
 .../contracts/universal_spartan_nizk_verifier/src/entry.rs  | 5 ++++-
 .../contracts/universal_spartan_snark_verifier/src/entry.rs | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs b/ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs
index 86cb292..dff2cba 100644
--- a/ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs
@@ -33,7 +33,10 @@ pub fn main() -> Result<(), Error> {
     let mut publics = Vec::new();
     publics.push(Fr::deserialize(&public_data[..]).map_err(|_e| Error::Encoding)?);
 
-    match verify_proof(&vk, &proof, &publics) {
+    let r1cs_hash = vk.r1cs.r1cs_to_hash();
+    let params_hash = vk.params.param_to_hash();
+
+    match verify_proof(&vk, &proof, &publics, r1cs_hash, params_hash) {
         Ok(true) => Ok(()),
         _ => Err(Error::Verify),
     }
diff --git a/ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs b/ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs
index 8438629..1a60bb8 100644
--- a/ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs
@@ -33,7 +33,11 @@ pub fn main() -> Result<(), Error> {
     let mut publics = Vec::new();
     publics.push(Fr::deserialize(&public_data[..]).map_err(|_e| Error::Encoding)?);
 
-    match verify_proof(&vk, &proof, &publics) {
+    let r1cs_hash = vk.r1cs.r1cs_to_hash();
+    let params_hash = vk.params.param_to_hash();
+    let encode_hash = vk.encode_comm.encode_to_hash();
+
+    match verify_proof(&vk, &proof, &publics, r1cs_hash, params_hash, encode_hash) {
         Ok(true) => Ok(()),
         _ => Err(Error::Verify),
     }
-- 
2.43.0


From ab1163ad32389d43d132caa04b3f63c0cb8504f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:47 +0000
Subject: [PATCH 45/47] fix: Libra and Hyrax verifier contracts pass the
 circuit and parameter hashes

---
 .../contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs | 5 ++++-
 .../contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs b/ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs
index 75502e4..7094915 100644
--- a/ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs
@@ -61,7 +61,10 @@ pub fn main() -> Result<(), Error> {
     // inputs length is 4, witness length is 4.
     let circuit = Circuit::new(4, 4, &layers());
 
-    match proof.verify(&params, &outputs, &inputs, &circuit) {
+    let circuit_hash = circuit.circuit_to_hash::<E>();
+    let params_hash = params.param_to_hash();
+
+    match proof.verify(&params, &outputs, &inputs, &circuit, circuit_hash, params_hash) {
         true => Ok(()),
         false => Err(Error::Verify),
     }
diff --git a/ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs b/ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs
index 65fe817..118c625 100644
--- a/ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs
@@ -61,7 +61,10 @@ pub fn main() -> Result<(), Error> {
     // inputs length is 4, witness length is 4.
     let circuit = Circuit::new(4, 4, &layers());
 
-    match proof.verify(&params, &circuit, &outputs, &inputs) {
+    let circuit_hash = circuit.circuit_to_hash::<E>();
+    let params_hash = params.param_to_hash();
+
+    match proof.verify(&params, &circuit, &outputs, &inputs, circuit_hash, params_hash) {
         true => Ok(()),
         false => Err(Error::Verify),
     }
-- 
2.43.0


From 4480b2bac74786dbf8c249a820479ebccf55ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:01 +0000
Subject: [PATCH 46/47] fix: Hyrax dot-product argument sums, absorbs its own
 messages and checks the vector length

---
 hyrax/src/commitment.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 241fa84..0fe3e70 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -251,16 +251,16 @@ impl<G: Curve> DotProductProof<G> {
 
         let delta =
             poly_commit_vec::<G>(&params.gen_n.generators, &d_vec, &params.gen_n.h, r_delta);
-        transcript.append_message(b"delta", &to_bytes!(comm_x).unwrap());
+        transcript.append_message(b"delta", &to_bytes!(delta).unwrap());
 
-        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).product();
+        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).sum();
         let beta = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_a_d],
             &params.gen_1.h,
             r_beta,
         );
-        transcript.append_message(b"beta", &to_bytes!(comm_y).unwrap());
+        transcript.append_message(b"beta", &to_bytes!(beta).unwrap());
 
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"c", &mut buf);
@@ -292,6 +292,9 @@ impl<G: Curve> DotProductProof<G> {
         a_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z_vec.len() != a_vec.len() {
+            return false;
+        }
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
@@ -313,11 +316,11 @@ impl<G: Curve> DotProductProof<G> {
         let rs2_lhs = comm_y.mul(c).into_affine() + self.beta;
         let dotprod_z_a = (0..a_vec.len())
             .map(|i| self.z_vec[i] * &a_vec[i])
-            .product();
+            .sum();
         let rs2_rhs = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_z_a],
-            &params.gen_n.h,
+            &params.gen_1.h,
             self.z_beta,
         );
         let rs2 = rs2_lhs == rs2_rhs;
-- 
2.43.0


From a204ab662b47d33abb586d372dc88dc46409cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:01 +0000
Subject: [PATCH 47/47] fix: Libra dot-product argument sums, absorbs its own
 messages and checks the vector length

---
 libra/src/commitment.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index a86061c..38dd3d8 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -249,16 +249,16 @@ impl<G: Curve> DotProductProof<G> {
 
         let delta =
             poly_commit_vec::<G>(&params.gen_n.generators, &d_vec, &params.gen_n.h, r_delta);
-        transcript.append_message(b"delta", &to_bytes!(comm_x).unwrap());
+        transcript.append_message(b"delta", &to_bytes!(delta).unwrap());
 
-        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).product();
+        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).sum();
         let beta = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_a_d],
             &params.gen_1.h,
             r_beta,
         );
-        transcript.append_message(b"beta", &to_bytes!(comm_y).unwrap());
+        transcript.append_message(b"beta", &to_bytes!(beta).unwrap());
 
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"c", &mut buf);
@@ -290,6 +290,9 @@ impl<G: Curve> DotProductProof<G> {
         a_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z_vec.len() != a_vec.len() {
+            return false;
+        }
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
@@ -311,11 +314,11 @@ impl<G: Curve> DotProductProof<G> {
         let rs2_lhs = comm_y.mul(c).into_affine() + self.beta;
         let dotprod_z_a = (0..a_vec.len())
             .map(|i| self.z_vec[i] * &a_vec[i])
-            .product();
+            .sum();
         let rs2_rhs = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_z_a],
-            &params.gen_n.h,
+            &params.gen_1.h,
             self.z_beta,
         );
         let rs2 = rs2_lhs == rs2_rhs;
-- 
2.43.0

