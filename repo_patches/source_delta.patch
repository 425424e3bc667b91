From 252021e67eaff11ed19bbb6449eee35b12535204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 01/16] verif: hooks guarded by cfg(hodor_verif)

---
 src/fft/multicore.rs |  2 +
 src/lib.rs           |  4 ++
 src/verif_hooks.rs   | 95 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 101 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/fft/multicore.rs b/src/fft/multicore.rs
index 1736c2e..6937a9d 100644
--- a/src/fft/multicore.rs
+++ b/src/fft/multicore.rs
@@ -32,6 +32,8 @@ impl Worker {
 
     pub fn new() -> Worker {
         let cpus = num_cpus::get();
+        #[cfg(hodor_verif)]
+        let cpus = crate::verif_hooks::cpus_override().unwrap_or(cpus);
         Self::new_with_cpus(cpus)
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 10694a5..e41757b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -28,6 +28,10 @@ pub mod prover;
 
 mod experiments;
 
+#[cfg(hodor_verif)]
+#[allow(unexpected_cfgs)]
+pub mod verif_hooks;
+
 pub(crate) mod bn256;
 
 use ff::{Field, PrimeField, PrimeFieldRepr};
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..4fcbf23
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,95 @@
+/*
+
+Verification hooks. This module only exists when the crate is compiled with `--cfg hodor_verif`
+and re-exports items that are otherwise private to the crate, so that external conformance checks can
+drive them. Nothing in the crate depends on it, except that the number of threads used by `Worker::new`
+can be overridden.
+
+*/
+
+use ff::PrimeField;
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+pub use crate::fft::multicore::Worker;
+
+static CPUS: AtomicUsize = AtomicUsize::new(0);
+
+/// Zero means "no override"
+pub fn set_cpus(cpus: usize) {
+    CPUS.store(cpus, Ordering::SeqCst);
+}
+
+pub fn cpus_override() -> Option<usize> {
+    match CPUS.load(Ordering::SeqCst) {
+        0 => None,
+        n => Some(n)
+    }
+}
+
+pub fn worker_with_cpus(cpus: usize) -> Worker {
+    Worker::new_with_cpus(cpus)
+}
+
+pub fn best_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, use_cpus_hint: Option<usize>) {
+    crate::fft::best_fft(a, worker, omega, log_n, use_cpus_hint)
+}
+
+pub fn best_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, lde_factor: usize) {
+    crate::fft::best_lde(a, worker, omega, log_n, lde_factor)
+}
+
+/// Transform kernels, only with the additional `--cfg hodor_verif_kernels`
+#[cfg(hodor_verif_kernels)]
+pub mod kernels {
+    use super::*;
+
+    pub fn serial_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
+        crate::fft::fft::serial_fft(a, omega, log_n)
+    }
+
+    pub fn parallel_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32) {
+        crate::fft::fft::parallel_fft(a, worker, omega, log_n, log_cpus)
+    }
+
+    pub fn serial_lde<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32, lde_factor: usize) {
+        crate::fft::lde::serial_lde(a, omega, log_n, lde_factor)
+    }
+
+    pub fn radix4_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32) {
+        crate::fft::radix4_fft::best_fft(a, worker, omega, log_n)
+    }
+
+    pub fn serial_radix4_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
+        crate::fft::radix4_fft::serial_fft_radix_4(a, omega, log_n)
+    }
+
+    pub fn dit_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, non_zero: usize) {
+        crate::fft::dit_fft::best_DIT_fft(a, worker, omega, log_n, non_zero)
+    }
+
+    pub fn serial_dit_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32, non_zero: usize) {
+        crate::fft::dit_fft::serial_DIT_fft(a, omega, log_n, non_zero)
+    }
+}
+
+/// Instance builders, only with the additional `--cfg hodor_verif_builders`
+#[cfg(hodor_verif_builders)]
+pub mod builders {
+    pub use crate::experiments::vdf::VDF;
+    pub use crate::experiments::cubic_vdf::CubicVDF;
+    use crate::air::{IntoAIR, TestTraceSystem, Fibonacci};
+    use super::*;
+
+    pub fn new_trace_system<F: PrimeField>() -> TestTraceSystem<F> {
+        TestTraceSystem::<F>::new()
+    }
+
+    pub fn fibonacci_trace<F: PrimeField>(final_b: Option<u64>, at_step: Option<usize>, steps: usize) -> TestTraceSystem<F> {
+        let fib = Fibonacci::<F> { final_b, at_step, _marker: std::marker::PhantomData };
+        let mut tracer = TestTraceSystem::<F>::new();
+        fib.trace(&mut tracer).expect("traced");
+        tracer.calculate_witness(1, 1, steps);
+
+        tracer
+    }
+}
-- 
2.43.0


From a32c90f9c50c7d0f9973dea33960b8385519d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 02/16] fix: pad witness to the domain size before
 interpolation

---
 src/arp/per_register/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index d78b9ba..e82f097 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -27,6 +27,11 @@ fn make_witness_polymonials<F: PrimeField>(
     let omega_inv = omega.inverse().expect("is some");
     let minv = F::from_str(&domain.size.to_string()).expect("exists").inverse().expect("exists");
 
+    // pad to the size of the domain
+    for w in witness.iter_mut() {
+        w.resize(num_rows_sup, F::zero());
+    }
+
     let mut result = vec![];
 
     let num_cpus = worker.cpus;
-- 
2.43.0


From 28d7a698c1f3a1c5fae16ac267513465c5710b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 03/16] fix: start every constraint batch from zeroes in
 calculate_g

---
 src/ali/per_register/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 62ac346..621f1ec 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -252,7 +252,8 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
         assert!(witness.len() == self.properties.num_registers);
 
         // all zeroes
-        let mut g_values = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
+        let zero_values = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
+        let mut g_values = zero_values.clone();
 
         fn evaluate_for_mask<F: PrimeField> (
             mut f: Polynomial<F, Coefficients>,
@@ -423,7 +424,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         // now evaluate normal constraints
         for (density, batch) in self.constraints_batched_by_density.iter() {
-            let mut batch_values = g_values.clone();
+            let mut batch_values = zero_values.clone();
             for c in batch.iter()   {
                 let constraint_power = c.degree;
                 assert!(self.max_constraint_power >= constraint_power);
@@ -446,7 +447,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                     Some(adj_poly)
                 };
 
-                let mut constraint_values = g_values.clone();
+                let mut constraint_values = zero_values.clone();
                 for t in c.terms.iter() {
                     let subval = evaluate_constraint_term_into_values(
                         t, 
-- 
2.43.0


From 4ebf3d8f7b42ee4721f17baf1aa4aa9adf07e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 04/16] fix: allow constraint degrees that are not powers of
 two in calculate_g

---
 src/ali/per_register/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 621f1ec..efd2a1e 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -422,6 +422,9 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         let mut evaluated_terms_map: IndexMap::<WitnessEvaluationData<F>, Polynomial<F, Values>> = IndexMap::new();
 
+        // max constraint power is not necessary a power of two, but size of the evaluation domain is
+        let constraints_lde_factor = self.constraints_domain.size / self.column_domain.size;
+
         // now evaluate normal constraints
         for (density, batch) in self.constraints_batched_by_density.iter() {
             let mut batch_values = zero_values.clone();
@@ -453,7 +456,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                         t, 
                         &mask_applied_polynomials, 
                         &mut evaluated_terms_map, 
-                        self.max_constraint_power, 
+                        constraints_lde_factor, 
                         &worker
                     )?;
                     constraint_values.add_assign(&worker, &subval);
@@ -477,7 +480,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             g_values.add_assign(&worker, &batch_values);
         }
 
-        let boundary_lde_factor = self.max_constraint_power;
+        let boundary_lde_factor = constraints_lde_factor;
 
         // now evaluate normal constraints
         for b_c in self.properties.boundary_constraints.iter() {
-- 
2.43.0


From 4fac26864dca8b080f2698255c94ae9dc833bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 05/16] fix: count all the registers when trace is converted
 into ARP

---
 src/arp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 60ea21e..c80966d 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -236,7 +236,7 @@ impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
 
         let properties = InstanceProperties::<F> {
             num_rows,
-            num_registers,
+            num_registers: total_registers,
             constraints,
             boundary_constraints,
         };
-- 
2.43.0


From 047d0eceec69ca2ddb439d5df38bcae247df0a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 06/16] fix: reject Merkle openings with an index outside of
 the tree

---
 src/iop/blake2s_trivial_iop.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 4f08daa..2cddaf0 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -245,6 +245,11 @@ impl<'a, F: PrimeField> IopTree<F> for Blake2sIopTree<F> {
             idx >>= 1;
         }
 
+        // index must be inside of the tree
+        if idx != 0 {
+            return false;
+        }
+
         &hash == root
     }
 
-- 
2.43.0


From e3bb281c9a8e2bcdec00499706ed240177fd3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 07/16] fix: return an error for domain sizes that overflow

---
 src/domains/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domains/mod.rs b/src/domains/mod.rs
index 682377e..b0bb708 100644
--- a/src/domains/mod.rs
+++ b/src/domains/mod.rs
@@ -19,7 +19,7 @@ pub struct Domain<F: PrimeField> {
 
 impl<F: PrimeField> Domain<F> {
     pub fn new_for_size(size: u64) -> Result<Self, SynthesisError> {
-        let size = size.next_power_of_two();
+        let size = size.checked_next_power_of_two().ok_or(SynthesisError::Error)?;
         let mut power_of_two = 0;
         let mut k = size;
         while k != 1 {
-- 
2.43.0


From 102eec0fe2b50f3baa4c0b032af63428a35c3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 08/16] fix: keep exactly CAPACITY bits when a digest is
 interpreted as a field element

---
 src/iop/blake2s_trivial_iop.rs |  6 ++----
 src/transcript/mod.rs          | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 2cddaf0..4423ee8 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -2,6 +2,7 @@ use ff::{PrimeField, PrimeFieldRepr};
 use blake2s_simd::{Params, State};
 use crate::fft::multicore::Worker;
 use crate::utils::log2_floor;
+use crate::transcript::shave_to_capacity;
 use super::*;
 use super::trivial_coset_combiner::*;
 
@@ -20,7 +21,6 @@ pub struct Blake2sLeafEncoder<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sLeafEncoder<F>  {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     pub fn new() -> Self {
         assert!(F::NUM_BITS < 256);
 
@@ -48,11 +48,9 @@ impl<F: PrimeField> HashEncoder<F> for Blake2sLeafEncoder<F>{
     fn interpret_hash(value: &Self::Input) -> F {
         let value = *value;
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
         // repr.read_le(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        shave_to_capacity::<F>(&mut repr);
         // let value = F::from_raw_repr(repr).expect("in a field");
         let value = F::from_repr(repr).expect("in a field");
 
diff --git a/src/transcript/mod.rs b/src/transcript/mod.rs
index ce3e407..4af8284 100644
--- a/src/transcript/mod.rs
+++ b/src/transcript/mod.rs
@@ -17,6 +17,17 @@ lazy_static! {
     };
 }
 
+/// Keeps only the lowest `CAPACITY` bits, so the representation is always in a field
+pub(crate) fn shave_to_capacity<F: PrimeField>(repr: &mut F::Repr) {
+    for (i, limb) in repr.as_mut().iter_mut().enumerate() {
+        let bits_below = 64 * (i as u32);
+        let bits_to_keep = F::CAPACITY.saturating_sub(bits_below);
+        if bits_to_keep < 64 {
+            *limb &= (1u64 << bits_to_keep) - 1;
+        }
+    }
+}
+
 pub trait Transcript<F: PrimeField>: Sized + Clone + 'static {
     fn new() -> Self;
     fn commit_bytes(&mut self, bytes: &[u8]);
@@ -32,7 +43,6 @@ pub struct Blake2sTranscript<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sTranscript<F> {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     const REPR_SIZE: usize = std::mem::size_of::<F::Repr>();
 }
 
@@ -69,10 +79,8 @@ impl<F: PrimeField> Transcript<F> for Blake2sTranscript<F> {
         self.state.update(&value[..]);
         
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        shave_to_capacity::<F>(&mut repr);
         let value = F::from_repr(repr).expect("in a field");
 
         value
-- 
2.43.0


From 0d7e153f69509a9fdaf604856d25656645961428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 09/16] fix: compare the last FRI layer with the final
 polynomial instead of folding it

---
 src/fri/verifier.rs | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index dd40c3f..8796027 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -171,6 +171,8 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
         }
 
+        let num_layers = proof.roots.len();
+
         for (round, (root, queries)) in proof.roots.iter()
                                 .zip(proof.queries.chunks_exact(degree)) 
                                 .enumerate()
@@ -230,6 +232,25 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 }
             }
 
+            // the last layer is not folded anymore, it has to be equal to the evaluations 
+            // of the final polynomial
+            if round + 1 == num_layers {
+                for q in queries.iter() {
+                    let evaluation_point = omega.pow([q.natural_index() as u64]);
+                    let mut value_from_coefficients = F::zero();
+                    for c in proof.final_coefficients.iter().rev() {
+                        value_from_coefficients.mul_assign(&evaluation_point);
+                        value_from_coefficients.add_assign(c);
+                    }
+
+                    if q.value() != value_from_coefficients {
+                        return Ok(false);
+                    }
+                }
+
+                return Ok(true);
+            }
+
             let f_at_minus_omega = (&queries[1]).value();
             let divisor = omega_inv.pow([coset_values[0] as u64]);
 
@@ -266,25 +287,7 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             omega_inv.square();
         }
 
-
-        // finally we need to get expected value from coefficients
-
-        let mut expected_value_from_coefficients = F::zero();
-        let mut power = F::one();
-        let evaluation_point = omega.pow([domain_idx as u64]);
-
-        for c in proof.final_coefficients.iter() {
-            let mut tmp = power;
-            tmp.mul_assign(c);
-
-            expected_value_from_coefficients.add_assign(&tmp);
-            power.mul_assign(&evaluation_point);
-        }
-        
-        let expected_value = expected_value.expect("is some");
-
-        let valid = expected_value_from_coefficients == expected_value;
-
-        Ok(valid)
+        // there were no layers
+        Ok(false)
     }
 }
-- 
2.43.0


From 4f3923456fdc59bf305062a81abbc61e7a394603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 10/16] fix: support FRI without folding steps

---
 src/fri/fri_on_values.rs | 2 +-
 src/fri/mod.rs           | 2 +-
 src/fri/verifier.rs      | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fri/fri_on_values.rs b/src/fri/fri_on_values.rs
index 6806d0c..e09c14f 100644
--- a/src/fri/fri_on_values.rs
+++ b/src/fri/fri_on_values.rs
@@ -121,7 +121,7 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         // final challenge is not necessary
         challenges.pop().expect("will work");
 
-        let final_root = roots.pop().expect("will work");
+        let final_root = roots.pop().unwrap_or(l0_commitment.get_root());
 
         assert!(challenges.len() == num_steps);
         assert!(intermediate_commitments.len() == num_steps);
diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index c8ba386..78d709e 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -223,7 +223,7 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
 
     challenges.pop().expect("will work");
 
-    let final_root = roots.pop().expect("will work");
+    let final_root = roots.pop().unwrap_or(l0_commitment.get_root());
 
     assert!(challenges.len() == num_steps);
     assert!(intermediate_commitments.len() == num_steps);
diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index 8796027..b87e421 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -121,7 +121,8 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             power.mul_assign(&evaluation_point);
         }
         
-        let expected_value = expected_value.expect("is some");
+        // if there were no folding steps then the initial layer is itself the final one
+        let expected_value = expected_value.unwrap_or(*I::get_for_natural_index(leaf_values.as_ref(), natural_element_index));
 
         let valid = expected_value_from_coefficients == expected_value;
 
-- 
2.43.0


From b3ed9025ceb40cb0f86adc4f8df3b3970fce2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 11/16] fix: check shape of the FRI proof against its
 parameters instead of panicking

---
 src/fri/verifier.rs | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index b87e421..54fd6b4 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -144,7 +144,41 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
 
         // start from the bottom: we need to get a "pair" and calculate FRI step
 
-        let domain = Domain::<F>::new_for_size((proof.initial_degree_plus_one * proof.lde_factor) as u64)?;
+        let initial_degree_plus_one = proof.initial_degree_plus_one;
+        let output_coeffs_at_degree_plus_one = proof.output_coeffs_at_degree_plus_one;
+
+        if !initial_degree_plus_one.is_power_of_two()
+            || !output_coeffs_at_degree_plus_one.is_power_of_two()
+            || !proof.lde_factor.is_power_of_two()
+            || output_coeffs_at_degree_plus_one > initial_degree_plus_one 
+        {
+            return Err(SynthesisError::InvalidValue("invalid FRI parameters".to_owned()));
+        }
+
+        // number of layers and coefficients is determined by the parameters
+        let num_steps = log2_floor(initial_degree_plus_one / output_coeffs_at_degree_plus_one) as usize;
+
+        if proof.roots.len() != num_steps + 1 {
+            return Err(SynthesisError::InvalidValue(format!("invalid number of FRI roots, expected {}, got {}", num_steps + 1, proof.roots.len())));
+        }
+
+        if proof.queries.len() != proof.roots.len() * degree {
+            return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
+        }
+
+        if proof.final_coefficients.len() != output_coeffs_at_degree_plus_one {
+            return Err(SynthesisError::InvalidValue(format!("invalid number of final coefficients, expected {}, got {}", output_coeffs_at_degree_plus_one, proof.final_coefficients.len())));
+        }
+
+        let initial_domain_size = initial_degree_plus_one.checked_mul(proof.lde_factor).ok_or(
+            SynthesisError::InvalidValue("FRI domain size overflows".to_owned())
+        )?;
+
+        let domain = Domain::<F>::new_for_size(initial_domain_size as u64)?;
+
+        if natural_element_index >= initial_domain_size {
+            return Err(SynthesisError::InvalidValue(format!("query index {} is not in the LDE domain", natural_element_index)));
+        }
 
         let domain_element = domain.generator.pow([natural_element_index as u64]);
 
@@ -168,10 +202,6 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         let mut domain_size = domain.size as usize;
         let mut domain_idx = natural_element_index;
 
-        if proof.queries.len() % degree != 0 {
-            return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
-        }
-
         let num_layers = proof.roots.len();
 
         for (round, (root, queries)) in proof.roots.iter()
@@ -203,7 +233,10 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 if q.tree_index() != tree_index {
                     return Err(SynthesisError::InvalidValue(format!("invalid tree index for element at natural index {}: expected {}, got {}", c, tree_index, q.tree_index())));
                 }
-                assert!(q.natural_index() == *c, "coset values and produced queries are expected to be sorted!");
+                // coset values and produced queries are expected to be sorted
+                if q.natural_index() != *c {
+                    return Ok(false);
+                }
             }
 
             for q in queries.iter() {
-- 
2.43.0


From 943b534a6d3912e42e7d4e2ee0003d6038c44622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 12/16] fix: bind FRI proofs to the sizes known by the verifier
 and to the committed roots

---
 src/fri/mod.rs      | 15 +++++++++++++++
 src/verifier/mod.rs | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index 78d709e..59578dc 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -31,6 +31,9 @@ pub trait FriProofPrototype<F: PrimeField, I: IOP<F>> {
 
 pub trait FriProof<F: PrimeField, I: IOP<F>> {
     fn get_final_coefficients(&self) -> &[F];
+    fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput];
+    fn get_initial_degree_plus_one(&self) -> usize;
+    fn get_lde_factor(&self) -> usize;
 }
 
 pub trait FriIop<F: PrimeField> {
@@ -150,6 +153,18 @@ impl<F: PrimeField, I: IOP<F>> FriProof<F, I> for FRIProof<F, I> {
     fn get_final_coefficients(&self) -> &[F] {
         &self.final_coefficients
     }
+
+    fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput] {
+        &self.roots
+    }
+
+    fn get_initial_degree_plus_one(&self) -> usize {
+        self.initial_degree_plus_one
+    }
+
+    fn get_lde_factor(&self) -> usize {
+        self.lde_factor
+    }
 }
 
 impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 98d3f13..fbca653 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -266,6 +266,21 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         &self,
         proof: &InstanceProof<F, T, I, P, PR, FRI, PerRegisterARP>
     ) -> Result<bool, SynthesisError> {
+        // FRI proofs must be for the degrees and domains that are determined by the instance,
+        // and use the same roots that are used to get challenges
+        for (fri_proof, roots, domain) in [
+            (&proof.fri_proof_h1, &proof.h1_iop_roots, &self.column_domain),
+            (&proof.fri_proof_h2, &proof.h2_iop_roots, &self.constraints_domain)
+        ].iter() {
+            if fri_proof.get_initial_degree_plus_one() as u64 != domain.size || fri_proof.get_lde_factor() != self.lde_factor {
+                return Err(SynthesisError::InvalidValue("parameters of the FRI proof are different from the expected ones".to_owned()));
+            }
+
+            if roots.is_empty() || fri_proof.get_roots() != roots.as_slice() {
+                return Err(SynthesisError::InvalidValue("roots of the FRI proof are different from the committed ones".to_owned()));
+            }
+        }
+
         let mut scratch_space: InstanceProofScratchSpace<F, T, I, PerRegisterARP> = InstanceProofScratchSpace::new();
 
         for r in proof.f_iop_roots.iter() {
-- 
2.43.0


From 6fefdd39765a1121a76cbce5f0f4d35b3caa58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 13/16] fix: absorb claimed witness values into the transcript
 before they are combined

---
 src/ali/per_register/deep.rs | 2 ++
 src/verifier/mod.rs          | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ali/per_register/deep.rs b/src/ali/per_register/deep.rs
index ab69ef7..e624046 100644
--- a/src/ali/per_register/deep.rs
+++ b/src/ali/per_register/deep.rs
@@ -52,6 +52,8 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
             let witness_value_at_z = f_polys[reg_num].evaluate_at(&worker, root);
 
+            // combination challenges must depend on the claimed values
+            transcript.commit_field_element(&witness_value_at_z);
             f_at_z_m.push(witness_value_at_z);
         
             let divisor = if let Some(d) = divisors_for_masks.get(&m.steps_difference) {
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index fbca653..0d1df41 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -308,7 +308,12 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
         let z = scratch_space.transcript.get_challenge();
 
-        for _ in self.all_masks.iter() {
+        if proof.f_at_z_m.len() != self.all_masks.len() {
+            return Err(SynthesisError::Unsatisfied(format!("expected {} values of witness polynomials, got {}", self.all_masks.len(), proof.f_at_z_m.len())));
+        }
+
+        for f_at_z in proof.f_at_z_m.iter() {
+            scratch_space.transcript.commit_field_element(f_at_z);
             let alpha = scratch_space.transcript.get_challenge();
 
             scratch_space.h1_poly_challenges.push(alpha);
-- 
2.43.0


From 62c19f2eac404927d7817c2b098daa33e11b034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 14/16] fix: absorb all the FRI roots into the transcript
 before query positions are drawn

---
 src/prover/mod.rs   | 10 ++++++----
 src/verifier/mod.rs |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/prover/mod.rs b/src/prover/mod.rs
index d0a6e26..66b4b8f 100644
--- a/src/prover/mod.rs
+++ b/src/prover/mod.rs
@@ -115,13 +115,15 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         let h1_iop_roots = h1_fri_proof_proto.get_roots();
         let h2_iop_roots = h2_fri_proof_proto.get_roots();
 
-        // TODO: we can also potentially commit intermediate roots
-
-        transcript.commit_bytes(&h1_fri_proof_proto.get_final_root().as_ref());
+        for root in h1_iop_roots.iter() {
+            transcript.commit_bytes(root.as_ref());
+        }
         for el in h1_fri_proof_proto.get_final_coefficients().into_iter() {
             transcript.commit_field_element(&el);
         }
-        transcript.commit_bytes(&h2_fri_proof_proto.get_final_root().as_ref());
+        for root in h2_iop_roots.iter() {
+            transcript.commit_bytes(root.as_ref());
+        }
         for el in h2_fri_proof_proto.get_final_coefficients().into_iter() {
             transcript.commit_field_element(&el);
         }
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 0d1df41..7ced74b 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -322,12 +322,16 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         // println!("Final root for h1 in verifier = {:?}", proof.h1_iop_roots.last().expect("there is one").as_ref());
         // println!("Final root for h1 in verifier = {:?}", proof.h2_iop_roots.last().expect("there is one").as_ref());
 
-        scratch_space.transcript.commit_bytes(proof.h1_iop_roots.last().expect("there is one").as_ref());
+        for root in proof.h1_iop_roots.iter() {
+            scratch_space.transcript.commit_bytes(root.as_ref());
+        }
         for el in proof.fri_proof_h1.get_final_coefficients().iter() {
             scratch_space.transcript.commit_field_element(&el);
         }
 
-        scratch_space.transcript.commit_bytes(proof.h2_iop_roots.last().expect("there is one").as_ref());
+        for root in proof.h2_iop_roots.iter() {
+            scratch_space.transcript.commit_bytes(root.as_ref());
+        }
         for el in proof.fri_proof_h2.get_final_coefficients().iter() {
             scratch_space.transcript.commit_field_element(&el);
         }
-- 
2.43.0


From 1205691f57896cf3160f1af8424e81052d1f55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:27 +0000
Subject: [PATCH 15/16] verif: hooks only re-export items, kernels behind their
 own cfg

---
 src/verif_hooks.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 4fcbf23..ebdeefe 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -26,23 +26,19 @@ pub fn cpus_override() -> Option<usize> {
     }
 }
 
-pub fn worker_with_cpus(cpus: usize) -> Worker {
-    Worker::new_with_cpus(cpus)
-}
-
-pub fn best_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, use_cpus_hint: Option<usize>) {
-    crate::fft::best_fft(a, worker, omega, log_n, use_cpus_hint)
-}
-
-pub fn best_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, lde_factor: usize) {
-    crate::fft::best_lde(a, worker, omega, log_n, lde_factor)
-}
-
 /// Transform kernels, only with the additional `--cfg hodor_verif_kernels`
 #[cfg(hodor_verif_kernels)]
 pub mod kernels {
     use super::*;
 
+    pub fn best_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, use_cpus_hint: Option<usize>) {
+        crate::fft::best_fft(a, worker, omega, log_n, use_cpus_hint)
+    }
+
+    pub fn best_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, lde_factor: usize) {
+        crate::fft::best_lde(a, worker, omega, log_n, lde_factor)
+    }
+
     pub fn serial_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
         crate::fft::fft::serial_fft(a, omega, log_n)
     }
-- 
2.43.0


From e953969a02c607b1aec7b739e84546993fa6eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:39 +0000
Subject: [PATCH 16/16] fix: refused padding leaves the polynomial as it was

---
 src/polynomials/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/mod.rs b/src/polynomials/mod.rs
index ffae8d7..b503eda 100644
--- a/src/polynomials/mod.rs
+++ b/src/polynomials/mod.rs
@@ -92,9 +92,9 @@ impl<F: PrimeField, P: PolynomialForm> Polynomial<F, P> {
         }
 
         let new_size = self.coeffs.len() * factor;
+        let domain = Domain::new_for_size(new_size as u64)?;
         self.coeffs.resize(new_size, F::zero());
 
-        let domain = Domain::new_for_size(new_size as u64)?;
         self.exp = domain.power_of_two as u32;
         let m = domain.size as usize;
         self.omega = domain.generator;
@@ -112,9 +112,9 @@ impl<F: PrimeField, P: PolynomialForm> Polynomial<F, P> {
         if new_size != next_power_of_two {
             return Err(SynthesisError::Error);
         }
+        let domain = Domain::new_for_size(new_size as u64)?;
         self.coeffs.resize(new_size, F::zero());
 
-        let domain = Domain::new_for_size(new_size as u64)?;
         self.exp = domain.power_of_two as u32;
         let m = domain.size as usize;
         self.omega = domain.generator;
-- 
2.43.0

