From b8903c0867634e8fdceb13c8d005cd61d4a6499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 1/2] ml-kem: cfg(kems_verif) entry points for the verification
 harness

---
 ml-kem/src/lib.rs         |   8 ++
 ml-kem/src/verif/hooks.rs | 237 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 245 insertions(+)
 create mode 100644 ml-kem/src/verif/hooks.rs

diff --git a/ml-kem/src/lib.rs b/ml-kem/src/lib.rs
index 51b98d0..af47e7f 100644
--- a/ml-kem/src/lib.rs
+++ b/ml-kem/src/lib.rs
@@ -65,6 +65,14 @@ pub mod kem;
 /// Section 7. Parameter Sets
 mod param;
 
+/// Entry points for the verification harness; empty unless built with `--cfg kems_verif`
+#[doc(hidden)]
+#[allow(unexpected_cfgs)]
+pub mod verif {
+    #[cfg(kems_verif)]
+    pub mod hooks;
+}
+
 use ::kem::{Decapsulate, Encapsulate};
 use core::fmt::Debug;
 use hybrid_array::{
diff --git a/ml-kem/src/verif/hooks.rs b/ml-kem/src/verif/hooks.rs
new file mode 100644
index 0000000..e773fbc
--- /dev/null
+++ b/ml-kem/src/verif/hooks.rs
@@ -0,0 +1,237 @@
+//! Entry points for the verification harness.  Compiled only under `--cfg kems_verif`; nothing in
+//! here is part of the crate's API and nothing in the crate depends on it.
+//!
+//! Every function converts plain integers / bytes to the crate's internal types, calls one
+//! internal operation, and converts the result back.
+#![allow(missing_docs, clippy::missing_panics_doc, clippy::must_use_candidate)]
+
+use core::ops::{Div, Mul, Rem};
+use hybrid_array::typenum::{Unsigned, U1, U10, U11, U12, U2, U3, U4, U5, U6, U7, U8, U9};
+use hybrid_array::{
+    typenum::{Prod, Quot, U0},
+    Array, ArraySize as Size,
+};
+use sha3::digest::XofReader;
+
+use crate::algebra::{FieldElement, NttPolynomial, NttVector, Polynomial};
+use crate::compress::Compress;
+use crate::encode::Encode;
+use crate::param::{ArraySize, EncodedPolynomial, EncodingSize, PkeParams};
+use crate::pke::{DecryptionKey, EncryptionKey};
+use crate::util::{Flatten, Unflatten, B32};
+use crate::{MlKem1024Params, MlKem512Params, MlKem768Params};
+
+pub type Coeffs = [u16; 256];
+
+fn poly(x: &Coeffs) -> Polynomial {
+    Polynomial(Array::from_fn(|i| FieldElement(x[i])))
+}
+
+fn ntt_poly(x: &Coeffs) -> NttPolynomial {
+    NttPolynomial(Array::from_fn(|i| FieldElement(x[i])))
+}
+
+fn raw(x: &Polynomial) -> Coeffs {
+    core::array::from_fn(|i| x.0[i].0)
+}
+
+fn raw_ntt(x: &NttPolynomial) -> Coeffs {
+    core::array::from_fn(|i| x.0[i].0)
+}
+
+pub fn fe_add(x: u16, y: u16) -> u16 {
+    (FieldElement(x) + FieldElement(y)).0
+}
+
+pub fn fe_sub(x: u16, y: u16) -> u16 {
+    (FieldElement(x) - FieldElement(y)).0
+}
+
+pub fn fe_mul(x: u16, y: u16) -> u16 {
+    (FieldElement(x) * FieldElement(y)).0
+}
+
+pub fn poly_add(x: &Coeffs, y: &Coeffs) -> Coeffs {
+    raw(&(&poly(x) + &poly(y)))
+}
+
+pub fn poly_sub(x: &Coeffs, y: &Coeffs) -> Coeffs {
+    raw(&(&poly(x) - &poly(y)))
+}
+
+pub fn ntt(x: &Coeffs) -> Coeffs {
+    raw_ntt(&poly(x).ntt())
+}
+
+pub fn ntt_inverse(x: &Coeffs) -> Coeffs {
+    raw(&ntt_poly(x).ntt_inverse())
+}
+
+pub fn ntt_add(x: &Coeffs, y: &Coeffs) -> Coeffs {
+    raw_ntt(&(&ntt_poly(x) + &ntt_poly(y)))
+}
+
+pub fn ntt_mul(x: &Coeffs, y: &Coeffs) -> Coeffs {
+    raw_ntt(&(&ntt_poly(x) * &ntt_poly(y)))
+}
+
+fn dot_k<K: ArraySize>(x: &[Coeffs], y: &[Coeffs]) -> Coeffs {
+    let x: NttVector<K> = NttVector(Array::from_fn(|i| ntt_poly(&x[i])));
+    let y: NttVector<K> = NttVector(Array::from_fn(|i| ntt_poly(&y[i])));
+    raw_ntt(&(&x * &y))
+}
+
+/// Dot product of two vectors of 1 to 4 NTT-domain polynomials.
+pub fn ntt_dot(x: &[Coeffs], y: &[Coeffs]) -> Coeffs {
+    assert_eq!(x.len(), y.len());
+    match x.len() {
+        1 => dot_k::<U1>(x, y),
+        2 => dot_k::<U2>(x, y),
+        3 => dot_k::<U3>(x, y),
+        4 => dot_k::<U4>(x, y),
+        _ => panic!("unsupported dimension"),
+    }
+}
+
+pub fn sample_uniform(xof: &mut impl XofReader) -> Coeffs {
+    raw_ntt(&NttPolynomial::sample_uniform(xof))
+}
+
+pub fn sample_cbd2(b: &[u8; 128]) -> Coeffs {
+    raw(&Polynomial::sample_cbd::<U2>(&Array(*b)))
+}
+
+pub fn sample_cbd3(b: &[u8; 192]) -> Coeffs {
+    raw(&Polynomial::sample_cbd::<U3>(&Array(*b)))
+}
+
+fn encode_d<D: EncodingSize>(x: &Coeffs, out: &mut [u8]) -> usize {
+    let n = <Polynomial as Encode<D>>::EncodedSize::USIZE;
+    let p = Encode::<D>::encode(&poly(x));
+    let q = Encode::<D>::encode(&ntt_poly(x));
+    assert_eq!(p, q, "the two domains encode differently");
+    out[..n].copy_from_slice(&p);
+    n
+}
+
+fn decode_d<D: EncodingSize>(b: &[u8]) -> Coeffs {
+    let b: &EncodedPolynomial<D> = b.try_into().expect("length");
+    let p: Polynomial = Encode::<D>::decode(b);
+    let q: NttPolynomial = Encode::<D>::decode(b);
+    assert_eq!(raw(&p), raw_ntt(&q), "the two domains decode differently");
+    raw(&p)
+}
+
+fn compress_d<D: EncodingSize>(x: &Coeffs) -> Coeffs {
+    let mut p = poly(x);
+    p.compress::<D>();
+    raw(&p)
+}
+
+fn decompress_d<D: EncodingSize>(x: &Coeffs) -> Coeffs {
+    let mut p = poly(x);
+    p.decompress::<D>();
+    raw(&p)
+}
+
+macro_rules! by_width {
+    ($d:expr, $f:ident ( $($a:expr),* )) => {
+        match $d {
+            1 => $f::<U1>($($a),*),
+            2 => $f::<U2>($($a),*),
+            3 => $f::<U3>($($a),*),
+            4 => $f::<U4>($($a),*),
+            5 => $f::<U5>($($a),*),
+            6 => $f::<U6>($($a),*),
+            7 => $f::<U7>($($a),*),
+            8 => $f::<U8>($($a),*),
+            9 => $f::<U9>($($a),*),
+            10 => $f::<U10>($($a),*),
+            11 => $f::<U11>($($a),*),
+            12 => $f::<U12>($($a),*),
+            _ => panic!("unsupported width"),
+        }
+    };
+}
+
+/// Encodes with `d` bits per coefficient; returns the number of bytes written to `out`.
+pub fn byte_encode(d: usize, x: &Coeffs, out: &mut [u8]) -> usize {
+    by_width!(d, encode_d(x, out))
+}
+
+pub fn byte_decode(d: usize, b: &[u8]) -> Coeffs {
+    by_width!(d, decode_d(b))
+}
+
+pub fn compress(d: usize, x: &Coeffs) -> Coeffs {
+    by_width!(d, compress_d(x))
+}
+
+pub fn decompress(d: usize, x: &Coeffs) -> Coeffs {
+    by_width!(d, decompress_d(x))
+}
+
+fn decrypt_p<P: PkeParams>(dk: &[u8], ct: &[u8]) -> [u8; 32] {
+    DecryptionKey::<P>::from_bytes(dk.try_into().expect("dk length"))
+        .decrypt(ct.try_into().expect("ct length"))
+        .into()
+}
+
+fn encrypt_p<P: PkeParams>(ek: &[u8], m: &[u8; 32], r: &[u8; 32], out: &mut [u8]) -> usize {
+    let ct = EncryptionKey::<P>::from_bytes(ek.try_into().expect("ek length"))
+        .encrypt(&B32::from(*m), &B32::from(*r));
+    out[..ct.len()].copy_from_slice(&ct);
+    ct.len()
+}
+
+/// K-PKE.Decrypt for the parameter set of rank `k`.
+pub fn pke_decrypt(k: usize, dk: &[u8], ct: &[u8]) -> [u8; 32] {
+    match k {
+        2 => decrypt_p::<MlKem512Params>(dk, ct),
+        3 => decrypt_p::<MlKem768Params>(dk, ct),
+        4 => decrypt_p::<MlKem1024Params>(dk, ct),
+        _ => panic!("unsupported rank"),
+    }
+}
+
+/// K-PKE.Encrypt for the parameter set of rank `k`; returns the ciphertext length.
+pub fn pke_encrypt(k: usize, ek: &[u8], m: &[u8; 32], r: &[u8; 32], out: &mut [u8]) -> usize {
+    match k {
+        2 => encrypt_p::<MlKem512Params>(ek, m, r, out),
+        3 => encrypt_p::<MlKem768Params>(ek, m, r, out),
+        4 => encrypt_p::<MlKem1024Params>(ek, m, r, out),
+        _ => panic!("unsupported rank"),
+    }
+}
+
+/// `Flatten` on an array of `N` arrays of `M` elements.
+pub fn flatten<T, M, N>(x: Array<Array<T, M>, N>) -> Array<T, Prod<M, N>>
+where
+    M: Size + Mul<N>,
+    N: Size,
+    Prod<M, N>: Size,
+{
+    x.flatten()
+}
+
+/// `Unflatten` of `N` owned elements into `M` arrays.
+pub fn unflatten<T, N, M>(x: Array<T, N>) -> Array<Array<T, Quot<N, M>>, M>
+where
+    T: Default,
+    N: Size + Div<M> + Rem<M, Output = U0>,
+    M: Size,
+    Quot<N, M>: Size,
+{
+    x.unflatten()
+}
+
+/// `Unflatten` of `N` borrowed elements into `M` references.
+pub fn unflatten_ref<T, N, M>(x: &Array<T, N>) -> Array<&Array<T, Quot<N, M>>, M>
+where
+    T: Default,
+    N: Size + Div<M> + Rem<M, Output = U0>,
+    M: Size,
+    Quot<N, M>: Size,
+{
+    x.unflatten()
+}
-- 
2.43.0


From 760d18281c0b7a548c0251ecd52b786b51d8f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 2/2] fix: x-wing: compare encapsulation keys by their
 encodings

Keys whose X25519 parts are different encodings of one curve point compared
equal although encapsulating to them gives different shared secrets.
---
 x-wing/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x-wing/src/lib.rs b/x-wing/src/lib.rs
index cd24274..043ac07 100644
--- a/x-wing/src/lib.rs
+++ b/x-wing/src/lib.rs
@@ -68,12 +68,20 @@ pub type SharedSecret = [u8; 32];
 // _x -> x25519 related key
 
 /// X-Wing encapsulation or public key.
-#[derive(Clone, PartialEq)]
+#[derive(Clone)]
 pub struct EncapsulationKey {
     pk_m: MlKem768EncapsulationKey,
     pk_x: x25519_dalek::PublicKey,
 }
 
+impl PartialEq for EncapsulationKey {
+    fn eq(&self, other: &Self) -> bool {
+        // The combiner hashes the X25519 key as transmitted, so different encodings of the same
+        // curve point (which `x25519_dalek::PublicKey` treats as equal) are different keys.
+        self.pk_m == other.pk_m && self.pk_x.as_bytes() == other.pk_x.as_bytes()
+    }
+}
+
 impl Encapsulate<Ciphertext, SharedSecret> for EncapsulationKey {
     type Error = Infallible;
 
-- 
2.43.0

