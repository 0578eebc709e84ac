// @generated by tools/custom_sets.py
use crate::one::Face;
use crate::scheme::*;
use ml_kem::array::typenum::{U1, U10, U11, U2, U3, U4, U5, U6, U7, U8, U9};
use ml_kem::kem::{Decapsulate, DecapsulationKey, Encapsulate, EncapsulationKey, Kem};
use ml_kem::{EncodedSizeUser, KemCore};
use rand_core::CryptoRngCore;
use vlib::mlkem::Params;

macro_rules! set {
    ($set:ident, $scheme:ident, $k:ty, $a:ty, $b:ty, $du:ty, $dv:ty, $params:expr) => {
        #[derive(Default, Clone, Debug, PartialEq)]
        pub struct $set;
        impl ml_kem::ParameterSet for $set {
            type K = $k;
            type Eta1 = $a;
            type Eta2 = $b;
            type Du = $du;
            type Dv = $dv;
        }
        scheme!($scheme, $set, $params);
    };
}
#[cfg(not(feature = "deep"))]
mod quick {
    use super::*;
    set!(Set1_2_2_10_4, S1_2_2_10_4, U1, U2, U2, U10, U4, Params { k: 1, eta1: 2, eta2: 2, du: 10, dv: 4 });
    set!(Set1_2_3_11_4, S1_2_3_11_4, U1, U2, U3, U11, U4, Params { k: 1, eta1: 2, eta2: 3, du: 11, dv: 4 });
    set!(Set1_3_2_9_5, S1_3_2_9_5, U1, U3, U2, U9, U5, Params { k: 1, eta1: 3, eta2: 2, du: 9, dv: 5 });
    set!(Set1_3_3_5_5, S1_3_3_5_5, U1, U3, U3, U5, U5, Params { k: 1, eta1: 3, eta2: 3, du: 5, dv: 5 });
    set!(Set2_2_2_10_3, S2_2_2_10_3, U2, U2, U2, U10, U3, Params { k: 2, eta1: 2, eta2: 2, du: 10, dv: 3 });
    set!(Set2_2_3_11_3, S2_2_3_11_3, U2, U2, U3, U11, U3, Params { k: 2, eta1: 2, eta2: 3, du: 11, dv: 3 });
    set!(Set2_3_2_9_8, S2_3_2_9_8, U2, U3, U2, U9, U8, Params { k: 2, eta1: 3, eta2: 2, du: 9, dv: 8 });
    set!(Set2_3_3_5_8, S2_3_3_5_8, U2, U3, U3, U5, U8, Params { k: 2, eta1: 3, eta2: 3, du: 5, dv: 8 });
    set!(Set3_2_2_10_4, S3_2_2_10_4, U3, U2, U2, U10, U4, Params { k: 3, eta1: 2, eta2: 2, du: 10, dv: 4 });
    set!(Set3_2_3_11_4, S3_2_3_11_4, U3, U2, U3, U11, U4, Params { k: 3, eta1: 2, eta2: 3, du: 11, dv: 4 });
    set!(Set3_3_2_9_5, S3_3_2_9_5, U3, U3, U2, U9, U5, Params { k: 3, eta1: 3, eta2: 2, du: 9, dv: 5 });
    set!(Set3_3_3_5_5, S3_3_3_5_5, U3, U3, U3, U5, U5, Params { k: 3, eta1: 3, eta2: 3, du: 5, dv: 5 });
    set!(Set4_2_2_10_3, S4_2_2_10_3, U4, U2, U2, U10, U3, Params { k: 4, eta1: 2, eta2: 2, du: 10, dv: 3 });
    set!(Set4_2_3_11_3, S4_2_3_11_3, U4, U2, U3, U11, U3, Params { k: 4, eta1: 2, eta2: 3, du: 11, dv: 3 });
    set!(Set4_3_2_9_8, S4_3_2_9_8, U4, U3, U2, U9, U8, Params { k: 4, eta1: 3, eta2: 2, du: 9, dv: 8 });
    set!(Set4_3_3_5_8, S4_3_3_5_8, U4, U3, U3, U5, U8, Params { k: 4, eta1: 3, eta2: 3, du: 5, dv: 8 });
    set!(Set5_2_2_10_4, S5_2_2_10_4, U5, U2, U2, U10, U4, Params { k: 5, eta1: 2, eta2: 2, du: 10, dv: 4 });
    set!(Set5_2_3_11_4, S5_2_3_11_4, U5, U2, U3, U11, U4, Params { k: 5, eta1: 2, eta2: 3, du: 11, dv: 4 });
    set!(Set5_3_2_9_5, S5_3_2_9_5, U5, U3, U2, U9, U5, Params { k: 5, eta1: 3, eta2: 2, du: 9, dv: 5 });
    set!(Set5_3_3_5_5, S5_3_3_5_5, U5, U3, U3, U5, U5, Params { k: 5, eta1: 3, eta2: 3, du: 5, dv: 5 });
    set!(Set3_2_2_1_4, S3_2_2_1_4, U3, U2, U2, U1, U4, Params { k: 3, eta1: 2, eta2: 2, du: 1, dv: 4 });
    set!(Set1_2_2_10_1, S1_2_2_10_1, U1, U2, U2, U10, U1, Params { k: 1, eta1: 2, eta2: 2, du: 10, dv: 1 });
    set!(Set2_2_3_1_11, S2_2_3_1_11, U2, U2, U3, U1, U11, Params { k: 2, eta1: 2, eta2: 3, du: 1, dv: 11 });
    set!(Set1_2_2_2_4, S1_2_2_2_4, U1, U2, U2, U2, U4, Params { k: 1, eta1: 2, eta2: 2, du: 2, dv: 4 });
    set!(Set2_2_2_10_2, S2_2_2_10_2, U2, U2, U2, U10, U2, Params { k: 2, eta1: 2, eta2: 2, du: 10, dv: 2 });
    set!(Set2_2_3_2_10, S2_2_3_2_10, U2, U2, U3, U2, U10, Params { k: 2, eta1: 2, eta2: 3, du: 2, dv: 10 });
    set!(Set2_2_2_3_4, S2_2_2_3_4, U2, U2, U2, U3, U4, Params { k: 2, eta1: 2, eta2: 2, du: 3, dv: 4 });
    set!(Set3_2_2_10_3, S3_2_2_10_3, U3, U2, U2, U10, U3, Params { k: 3, eta1: 2, eta2: 2, du: 10, dv: 3 });
    set!(Set2_2_3_3_9, S2_2_3_3_9, U2, U2, U3, U3, U9, Params { k: 2, eta1: 2, eta2: 3, du: 3, dv: 9 });
    set!(Set3_2_2_4_4, S3_2_2_4_4, U3, U2, U2, U4, U4, Params { k: 3, eta1: 2, eta2: 2, du: 4, dv: 4 });
    set!(Set2_2_3_4_8, S2_2_3_4_8, U2, U2, U3, U4, U8, Params { k: 2, eta1: 2, eta2: 3, du: 4, dv: 8 });
    set!(Set1_2_2_5_4, S1_2_2_5_4, U1, U2, U2, U5, U4, Params { k: 1, eta1: 2, eta2: 2, du: 5, dv: 4 });
    set!(Set2_2_2_10_5, S2_2_2_10_5, U2, U2, U2, U10, U5, Params { k: 2, eta1: 2, eta2: 2, du: 10, dv: 5 });
    set!(Set2_2_3_5_7, S2_2_3_5_7, U2, U2, U3, U5, U7, Params { k: 2, eta1: 2, eta2: 3, du: 5, dv: 7 });
    set!(Set2_2_2_6_4, S2_2_2_6_4, U2, U2, U2, U6, U4, Params { k: 2, eta1: 2, eta2: 2, du: 6, dv: 4 });
    set!(Set3_2_2_10_6, S3_2_2_10_6, U3, U2, U2, U10, U6, Params { k: 3, eta1: 2, eta2: 2, du: 10, dv: 6 });
    set!(Set2_2_3_6_6, S2_2_3_6_6, U2, U2, U3, U6, U6, Params { k: 2, eta1: 2, eta2: 3, du: 6, dv: 6 });
    set!(Set3_2_2_7_4, S3_2_2_7_4, U3, U2, U2, U7, U4, Params { k: 3, eta1: 2, eta2: 2, du: 7, dv: 4 });
    set!(Set1_2_2_10_7, S1_2_2_10_7, U1, U2, U2, U10, U7, Params { k: 1, eta1: 2, eta2: 2, du: 10, dv: 7 });
    set!(Set2_2_3_7_5, S2_2_3_7_5, U2, U2, U3, U7, U5, Params { k: 2, eta1: 2, eta2: 3, du: 7, dv: 5 });
    set!(Set1_2_2_8_4, S1_2_2_8_4, U1, U2, U2, U8, U4, Params { k: 1, eta1: 2, eta2: 2, du: 8, dv: 4 });
    set!(Set2_2_2_10_8, S2_2_2_10_8, U2, U2, U2, U10, U8, Params { k: 2, eta1: 2, eta2: 2, du: 10, dv: 8 });
    set!(Set2_2_3_8_4, S2_2_3_8_4, U2, U2, U3, U8, U4, Params { k: 2, eta1: 2, eta2: 3, du: 8, dv: 4 });
    set!(Set2_2_2_9_4, S2_2_2_9_4, U2, U2, U2, U9, U4, Params { k: 2, eta1: 2, eta2: 2, du: 9, dv: 4 });
    set!(Set3_2_2_10_9, S3_2_2_10_9, U3, U2, U2, U10, U9, Params { k: 3, eta1: 2, eta2: 2, du: 10, dv: 9 });
    set!(Set2_2_3_9_3, S2_2_3_9_3, U2, U2, U3, U9, U3, Params { k: 2, eta1: 2, eta2: 3, du: 9, dv: 3 });
    set!(Set1_2_2_10_10, S1_2_2_10_10, U1, U2, U2, U10, U10, Params { k: 1, eta1: 2, eta2: 2, du: 10, dv: 10 });
    set!(Set2_2_3_10_2, S2_2_3_10_2, U2, U2, U3, U10, U2, Params { k: 2, eta1: 2, eta2: 3, du: 10, dv: 2 });
    set!(Set1_2_2_11_4, S1_2_2_11_4, U1, U2, U2, U11, U4, Params { k: 1, eta1: 2, eta2: 2, du: 11, dv: 4 });
    set!(Set2_2_2_10_11, S2_2_2_10_11, U2, U2, U2, U10, U11, Params { k: 2, eta1: 2, eta2: 2, du: 10, dv: 11 });
    set!(Set2_2_3_11_1, S2_2_3_11_1, U2, U2, U3, U11, U1, Params { k: 2, eta1: 2, eta2: 3, du: 11, dv: 1 });
    set!(Set4_2_2_1_1, S4_2_2_1_1, U4, U2, U2, U1, U1, Params { k: 4, eta1: 2, eta2: 2, du: 1, dv: 1 });
    set!(Set5_3_2_1_2, S5_3_2_1_2, U5, U3, U2, U1, U2, Params { k: 5, eta1: 3, eta2: 2, du: 1, dv: 2 });
    set!(Set1_2_3_1_3, S1_2_3_1_3, U1, U2, U3, U1, U3, Params { k: 1, eta1: 2, eta2: 3, du: 1, dv: 3 });
    set!(Set3_2_2_1_5, S3_2_2_1_5, U3, U2, U2, U1, U5, Params { k: 3, eta1: 2, eta2: 2, du: 1, dv: 5 });
    set!(Set4_3_2_1_6, S4_3_2_1_6, U4, U3, U2, U1, U6, Params { k: 4, eta1: 3, eta2: 2, du: 1, dv: 6 });
    set!(Set5_2_3_1_7, S5_2_3_1_7, U5, U2, U3, U1, U7, Params { k: 5, eta1: 2, eta2: 3, du: 1, dv: 7 });
    set!(Set1_3_3_1_8, S1_3_3_1_8, U1, U3, U3, U1, U8, Params { k: 1, eta1: 3, eta2: 3, du: 1, dv: 8 });
    set!(Set2_2_2_1_9, S2_2_2_1_9, U2, U2, U2, U1, U9, Params { k: 2, eta1: 2, eta2: 2, du: 1, dv: 9 });
    set!(Set3_3_2_1_10, S3_3_2_1_10, U3, U3, U2, U1, U10, Params { k: 3, eta1: 3, eta2: 2, du: 1, dv: 10 });
    set!(Set1_3_3_2_1, S1_3_3_2_1, U1, U3, U3, U2, U1, Params { k: 1, eta1: 3, eta2: 3, du: 2, dv: 1 });
    set!(Set2_2_2_2_2, S2_2_2_2_2, U2, U2, U2, U2, U2, Params { k: 2, eta1: 2, eta2: 2, du: 2, dv: 2 });
    set!(Set3_3_2_2_3, S3_3_2_2_3, U3, U3, U2, U2, U3, Params { k: 3, eta1: 3, eta2: 2, du: 2, dv: 3 });
    set!(Set5_3_3_2_5, S5_3_3_2_5, U5, U3, U3, U2, U5, Params { k: 5, eta1: 3, eta2: 3, du: 2, dv: 5 });
    set!(Set1_2_2_2_6, S1_2_2_2_6, U1, U2, U2, U2, U6, Params { k: 1, eta1: 2, eta2: 2, du: 2, dv: 6 });
    set!(Set2_3_2_2_7, S2_3_2_2_7, U2, U3, U2, U2, U7, Params { k: 2, eta1: 3, eta2: 2, du: 2, dv: 7 });
    set!(Set3_2_3_2_8, S3_2_3_2_8, U3, U2, U3, U2, U8, Params { k: 3, eta1: 2, eta2: 3, du: 2, dv: 8 });
    set!(Set4_3_3_2_9, S4_3_3_2_9, U4, U3, U3, U2, U9, Params { k: 4, eta1: 3, eta2: 3, du: 2, dv: 9 });
    set!(Set1_3_2_2_11, S1_3_2_2_11, U1, U3, U2, U2, U11, Params { k: 1, eta1: 3, eta2: 2, du: 2, dv: 11 });
    set!(Set3_2_3_3_1, S3_2_3_3_1, U3, U2, U3, U3, U1, Params { k: 3, eta1: 2, eta2: 3, du: 3, dv: 1 });
    set!(Set4_3_3_3_2, S4_3_3_3_2, U4, U3, U3, U3, U2, Params { k: 4, eta1: 3, eta2: 3, du: 3, dv: 2 });
    set!(Set5_2_2_3_3, S5_2_2_3_3, U5, U2, U2, U3, U3, Params { k: 5, eta1: 2, eta2: 2, du: 3, dv: 3 });
    set!(Set2_2_3_3_5, S2_2_3_3_5, U2, U2, U3, U3, U5, Params { k: 2, eta1: 2, eta2: 3, du: 3, dv: 5 });
    set!(Set3_3_3_3_6, S3_3_3_3_6, U3, U3, U3, U3, U6, Params { k: 3, eta1: 3, eta2: 3, du: 3, dv: 6 });
    set!(Set4_2_2_3_7, S4_2_2_3_7, U4, U2, U2, U3, U7, Params { k: 4, eta1: 2, eta2: 2, du: 3, dv: 7 });
    set!(Set5_3_2_3_8, S5_3_2_3_8, U5, U3, U2, U3, U8, Params { k: 5, eta1: 3, eta2: 2, du: 3, dv: 8 });
    set!(Set2_3_3_3_10, S2_3_3_3_10, U2, U3, U3, U3, U10, Params { k: 2, eta1: 3, eta2: 3, du: 3, dv: 10 });
    set!(Set3_2_2_3_11, S3_2_2_3_11, U3, U2, U2, U3, U11, Params { k: 3, eta1: 2, eta2: 2, du: 3, dv: 11 });
    set!(Set5_2_3_4_1, S5_2_3_4_1, U5, U2, U3, U4, U1, Params { k: 5, eta1: 2, eta2: 3, du: 4, dv: 1 });
    set!(Set1_3_3_4_2, S1_3_3_4_2, U1, U3, U3, U4, U2, Params { k: 1, eta1: 3, eta2: 3, du: 4, dv: 2 });
    set!(Set2_2_2_4_3, S2_2_2_4_3, U2, U2, U2, U4, U3, Params { k: 2, eta1: 2, eta2: 2, du: 4, dv: 3 });
    set!(Set4_2_3_4_5, S4_2_3_4_5, U4, U2, U3, U4, U5, Params { k: 4, eta1: 2, eta2: 3, du: 4, dv: 5 });
    set!(Set5_3_3_4_6, S5_3_3_4_6, U5, U3, U3, U4, U6, Params { k: 5, eta1: 3, eta2: 3, du: 4, dv: 6 });
    set!(Set1_2_2_4_7, S1_2_2_4_7, U1, U2, U2, U4, U7, Params { k: 1, eta1: 2, eta2: 2, du: 4, dv: 7 });
    set!(Set3_2_3_4_9, S3_2_3_4_9, U3, U2, U3, U4, U9, Params { k: 3, eta1: 2, eta2: 3, du: 4, dv: 9 });
    set!(Set4_3_3_4_10, S4_3_3_4_10, U4, U3, U3, U4, U10, Params { k: 4, eta1: 3, eta2: 3, du: 4, dv: 10 });
    set!(Set5_2_2_4_11, S5_2_2_4_11, U5, U2, U2, U4, U11, Params { k: 5, eta1: 2, eta2: 2, du: 4, dv: 11 });
    set!(Set2_3_2_5_1, S2_3_2_5_1, U2, U3, U2, U5, U1, Params { k: 2, eta1: 3, eta2: 2, du: 5, dv: 1 });
    set!(Set3_2_3_5_2, S3_2_3_5_2, U3, U2, U3, U5, U2, Params { k: 3, eta1: 2, eta2: 3, du: 5, dv: 2 });
    set!(Set4_3_3_5_3, S4_3_3_5_3, U4, U3, U3, U5, U3, Params { k: 4, eta1: 3, eta2: 3, du: 5, dv: 3 });
    set!(Set2_2_3_5_6, S2_2_3_5_6, U2, U2, U3, U5, U6, Params { k: 2, eta1: 2, eta2: 3, du: 5, dv: 6 });
    set!(Set5_3_2_5_9, S5_3_2_5_9, U5, U3, U2, U5, U9, Params { k: 5, eta1: 3, eta2: 2, du: 5, dv: 9 });
    set!(Set1_2_3_5_10, S1_2_3_5_10, U1, U2, U3, U5, U10, Params { k: 1, eta1: 2, eta2: 3, du: 5, dv: 10 });
    set!(Set2_3_3_5_11, S2_3_3_5_11, U2, U3, U3, U5, U11, Params { k: 2, eta1: 3, eta2: 3, du: 5, dv: 11 });
    set!(Set4_2_2_6_1, S4_2_2_6_1, U4, U2, U2, U6, U1, Params { k: 4, eta1: 2, eta2: 2, du: 6, dv: 1 });
    set!(Set5_3_2_6_2, S5_3_2_6_2, U5, U3, U2, U6, U2, Params { k: 5, eta1: 3, eta2: 2, du: 6, dv: 2 });
    set!(Set1_2_3_6_3, S1_2_3_6_3, U1, U2, U3, U6, U3, Params { k: 1, eta1: 2, eta2: 3, du: 6, dv: 3 });
    set!(Set3_2_2_6_5, S3_2_2_6_5, U3, U2, U2, U6, U5, Params { k: 3, eta1: 2, eta2: 2, du: 6, dv: 5 });
    set!(Set5_2_3_6_7, S5_2_3_6_7, U5, U2, U3, U6, U7, Params { k: 5, eta1: 2, eta2: 3, du: 6, dv: 7 });
    set!(Set1_3_3_6_8, S1_3_3_6_8, U1, U3, U3, U6, U8, Params { k: 1, eta1: 3, eta2: 3, du: 6, dv: 8 });
    set!(Set2_2_2_6_9, S2_2_2_6_9, U2, U2, U2, U6, U9, Params { k: 2, eta1: 2, eta2: 2, du: 6, dv: 9 });
    set!(Set3_3_2_6_10, S3_3_2_6_10, U3, U3, U2, U6, U10, Params { k: 3, eta1: 3, eta2: 2, du: 6, dv: 10 });
    set!(Set4_2_3_6_11, S4_2_3_6_11, U4, U2, U3, U6, U11, Params { k: 4, eta1: 2, eta2: 3, du: 6, dv: 11 });
    set!(Set1_3_3_7_1, S1_3_3_7_1, U1, U3, U3, U7, U1, Params { k: 1, eta1: 3, eta2: 3, du: 7, dv: 1 });
    set!(Set2_2_2_7_2, S2_2_2_7_2, U2, U2, U2, U7, U2, Params { k: 2, eta1: 2, eta2: 2, du: 7, dv: 2 });
    set!(Set3_3_2_7_3, S3_3_2_7_3, U3, U3, U2, U7, U3, Params { k: 3, eta1: 3, eta2: 2, du: 7, dv: 3 });
    set!(Set1_2_2_7_6, S1_2_2_7_6, U1, U2, U2, U7, U6, Params { k: 1, eta1: 2, eta2: 2, du: 7, dv: 6 });
    set!(Set2_3_2_7_7, S2_3_2_7_7, U2, U3, U2, U7, U7, Params { k: 2, eta1: 3, eta2: 2, du: 7, dv: 7 });
    set!(Set3_2_3_7_8, S3_2_3_7_8, U3, U2, U3, U7, U8, Params { k: 3, eta1: 2, eta2: 3, du: 7, dv: 8 });
    set!(Set4_3_3_7_9, S4_3_3_7_9, U4, U3, U3, U7, U9, Params { k: 4, eta1: 3, eta2: 3, du: 7, dv: 9 });
    set!(Set5_2_2_7_10, S5_2_2_7_10, U5, U2, U2, U7, U10, Params { k: 5, eta1: 2, eta2: 2, du: 7, dv: 10 });
    set!(Set1_3_2_7_11, S1_3_2_7_11, U1, U3, U2, U7, U11, Params { k: 1, eta1: 3, eta2: 2, du: 7, dv: 11 });
    set!(Set3_3_3_8_1, S3_3_3_8_1, U3, U3, U3, U8, U1, Params { k: 3, eta1: 3, eta2: 3, du: 8, dv: 1 });
    set!(Set4_2_2_8_2, S4_2_2_8_2, U4, U2, U2, U8, U2, Params { k: 4, eta1: 2, eta2: 2, du: 8, dv: 2 });
    set!(Set5_3_2_8_3, S5_3_2_8_3, U5, U3, U2, U8, U3, Params { k: 5, eta1: 3, eta2: 2, du: 8, dv: 3 });
    set!(Set2_3_3_8_5, S2_3_3_8_5, U2, U3, U3, U8, U5, Params { k: 2, eta1: 3, eta2: 3, du: 8, dv: 5 });
    set!(Set3_2_2_8_6, S3_2_2_8_6, U3, U2, U2, U8, U6, Params { k: 3, eta1: 2, eta2: 2, du: 8, dv: 6 });
    set!(Set4_3_2_8_7, S4_3_2_8_7, U4, U3, U2, U8, U7, Params { k: 4, eta1: 3, eta2: 2, du: 8, dv: 7 });
    set!(Set5_2_3_8_8, S5_2_3_8_8, U5, U2, U3, U8, U8, Params { k: 5, eta1: 2, eta2: 3, du: 8, dv: 8 });
    set!(Set1_3_3_8_9, S1_3_3_8_9, U1, U3, U3, U8, U9, Params { k: 1, eta1: 3, eta2: 3, du: 8, dv: 9 });
    set!(Set2_2_2_8_10, S2_2_2_8_10, U2, U2, U2, U8, U10, Params { k: 2, eta1: 2, eta2: 2, du: 8, dv: 10 });
    set!(Set3_3_2_8_11, S3_3_2_8_11, U3, U3, U2, U8, U11, Params { k: 3, eta1: 3, eta2: 2, du: 8, dv: 11 });
    set!(Set5_2_3_9_1, S5_2_3_9_1, U5, U2, U3, U9, U1, Params { k: 5, eta1: 2, eta2: 3, du: 9, dv: 1 });
    set!(Set1_3_3_9_2, S1_3_3_9_2, U1, U3, U3, U9, U2, Params { k: 1, eta1: 3, eta2: 3, du: 9, dv: 2 });
    set!(Set5_3_3_9_6, S5_3_3_9_6, U5, U3, U3, U9, U6, Params { k: 5, eta1: 3, eta2: 3, du: 9, dv: 6 });
    set!(Set1_2_2_9_7, S1_2_2_9_7, U1, U2, U2, U9, U7, Params { k: 1, eta1: 2, eta2: 2, du: 9, dv: 7 });
    set!(Set3_2_3_9_9, S3_2_3_9_9, U3, U2, U3, U9, U9, Params { k: 3, eta1: 2, eta2: 3, du: 9, dv: 9 });
    set!(Set4_3_3_9_10, S4_3_3_9_10, U4, U3, U3, U9, U10, Params { k: 4, eta1: 3, eta2: 3, du: 9, dv: 10 });
    set!(Set5_2_2_9_11, S5_2_2_9_11, U5, U2, U2, U9, U11, Params { k: 5, eta1: 2, eta2: 2, du: 9, dv: 11 });
    set!(Set5_3_2_11_2, S5_3_2_11_2, U5, U3, U2, U11, U2, Params { k: 5, eta1: 3, eta2: 2, du: 11, dv: 2 });
    set!(Set3_2_2_11_5, S3_2_2_11_5, U3, U2, U2, U11, U5, Params { k: 3, eta1: 2, eta2: 2, du: 11, dv: 5 });
    set!(Set4_3_2_11_6, S4_3_2_11_6, U4, U3, U2, U11, U6, Params { k: 4, eta1: 3, eta2: 2, du: 11, dv: 6 });
    set!(Set5_2_3_11_7, S5_2_3_11_7, U5, U2, U3, U11, U7, Params { k: 5, eta1: 2, eta2: 3, du: 11, dv: 7 });
    set!(Set1_3_3_11_8, S1_3_3_11_8, U1, U3, U3, U11, U8, Params { k: 1, eta1: 3, eta2: 3, du: 11, dv: 8 });
    set!(Set2_2_2_11_9, S2_2_2_11_9, U2, U2, U2, U11, U9, Params { k: 2, eta1: 2, eta2: 2, du: 11, dv: 9 });
    set!(Set3_3_2_11_10, S3_3_2_11_10, U3, U3, U2, U11, U10, Params { k: 3, eta1: 3, eta2: 2, du: 11, dv: 10 });
    set!(Set4_2_3_11_11, S4_2_3_11_11, U4, U2, U3, U11, U11, Params { k: 4, eta1: 2, eta2: 3, du: 11, dv: 11 });
}
#[cfg(not(feature = "deep"))]
pub fn faces() -> Vec<Face> {
    vec![
        Face::of::<quick::S1_2_2_10_4>(),
        Face::of::<quick::S1_2_3_11_4>(),
        Face::of::<quick::S1_3_2_9_5>(),
        Face::of::<quick::S1_3_3_5_5>(),
        Face::of::<quick::S2_2_2_10_3>(),
        Face::of::<quick::S2_2_3_11_3>(),
        Face::of::<quick::S2_3_2_9_8>(),
        Face::of::<quick::S2_3_3_5_8>(),
        Face::of::<quick::S3_2_2_10_4>(),
        Face::of::<quick::S3_2_3_11_4>(),
        Face::of::<quick::S3_3_2_9_5>(),
        Face::of::<quick::S3_3_3_5_5>(),
        Face::of::<quick::S4_2_2_10_3>(),
        Face::of::<quick::S4_2_3_11_3>(),
        Face::of::<quick::S4_3_2_9_8>(),
        Face::of::<quick::S4_3_3_5_8>(),
        Face::of::<quick::S5_2_2_10_4>(),
        Face::of::<quick::S5_2_3_11_4>(),
        Face::of::<quick::S5_3_2_9_5>(),
        Face::of::<quick::S5_3_3_5_5>(),
        Face::of::<quick::S3_2_2_1_4>(),
        Face::of::<quick::S1_2_2_10_1>(),
        Face::of::<quick::S2_2_3_1_11>(),
        Face::of::<quick::S1_2_2_2_4>(),
        Face::of::<quick::S2_2_2_10_2>(),
        Face::of::<quick::S2_2_3_2_10>(),
        Face::of::<quick::S2_2_2_3_4>(),
        Face::of::<quick::S3_2_2_10_3>(),
        Face::of::<quick::S2_2_3_3_9>(),
        Face::of::<quick::S3_2_2_4_4>(),
        Face::of::<quick::S2_2_3_4_8>(),
        Face::of::<quick::S1_2_2_5_4>(),
        Face::of::<quick::S2_2_2_10_5>(),
        Face::of::<quick::S2_2_3_5_7>(),
        Face::of::<quick::S2_2_2_6_4>(),
        Face::of::<quick::S3_2_2_10_6>(),
        Face::of::<quick::S2_2_3_6_6>(),
        Face::of::<quick::S3_2_2_7_4>(),
        Face::of::<quick::S1_2_2_10_7>(),
        Face::of::<quick::S2_2_3_7_5>(),
        Face::of::<quick::S1_2_2_8_4>(),
        Face::of::<quick::S2_2_2_10_8>(),
        Face::of::<quick::S2_2_3_8_4>(),
        Face::of::<quick::S2_2_2_9_4>(),
        Face::of::<quick::S3_2_2_10_9>(),
        Face::of::<quick::S2_2_3_9_3>(),
        Face::of::<quick::S1_2_2_10_10>(),
        Face::of::<quick::S2_2_3_10_2>(),
        Face::of::<quick::S1_2_2_11_4>(),
        Face::of::<quick::S2_2_2_10_11>(),
        Face::of::<quick::S2_2_3_11_1>(),
        Face::of::<quick::S4_2_2_1_1>(),
        Face::of::<quick::S5_3_2_1_2>(),
        Face::of::<quick::S1_2_3_1_3>(),
        Face::of::<quick::S3_2_2_1_5>(),
        Face::of::<quick::S4_3_2_1_6>(),
        Face::of::<quick::S5_2_3_1_7>(),
        Face::of::<quick::S1_3_3_1_8>(),
        Face::of::<quick::S2_2_2_1_9>(),
        Face::of::<quick::S3_3_2_1_10>(),
        Face::of::<quick::S1_3_3_2_1>(),
        Face::of::<quick::S2_2_2_2_2>(),
        Face::of::<quick::S3_3_2_2_3>(),
        Face::of::<quick::S5_3_3_2_5>(),
        Face::of::<quick::S1_2_2_2_6>(),
        Face::of::<quick::S2_3_2_2_7>(),
        Face::of::<quick::S3_2_3_2_8>(),
        Face::of::<quick::S4_3_3_2_9>(),
        Face::of::<quick::S1_3_2_2_11>(),
        Face::of::<quick::S3_2_3_3_1>(),
        Face::of::<quick::S4_3_3_3_2>(),
        Face::of::<quick::S5_2_2_3_3>(),
        Face::of::<quick::S2_2_3_3_5>(),
        Face::of::<quick::S3_3_3_3_6>(),
        Face::of::<quick::S4_2_2_3_7>(),
        Face::of::<quick::S5_3_2_3_8>(),
        Face::of::<quick::S2_3_3_3_10>(),
        Face::of::<quick::S3_2_2_3_11>(),
        Face::of::<quick::S5_2_3_4_1>(),
        Face::of::<quick::S1_3_3_4_2>(),
        Face::of::<quick::S2_2_2_4_3>(),
        Face::of::<quick::S4_2_3_4_5>(),
        Face::of::<quick::S5_3_3_4_6>(),
        Face::of::<quick::S1_2_2_4_7>(),
        Face::of::<quick::S3_2_3_4_9>(),
        Face::of::<quick::S4_3_3_4_10>(),
        Face::of::<quick::S5_2_2_4_11>(),
        Face::of::<quick::S2_3_2_5_1>(),
        Face::of::<quick::S3_2_3_5_2>(),
        Face::of::<quick::S4_3_3_5_3>(),
        Face::of::<quick::S2_2_3_5_6>(),
        Face::of::<quick::S5_3_2_5_9>(),
        Face::of::<quick::S1_2_3_5_10>(),
        Face::of::<quick::S2_3_3_5_11>(),
        Face::of::<quick::S4_2_2_6_1>(),
        Face::of::<quick::S5_3_2_6_2>(),
        Face::of::<quick::S1_2_3_6_3>(),
        Face::of::<quick::S3_2_2_6_5>(),
        Face::of::<quick::S5_2_3_6_7>(),
        Face::of::<quick::S1_3_3_6_8>(),
        Face::of::<quick::S2_2_2_6_9>(),
        Face::of::<quick::S3_3_2_6_10>(),
        Face::of::<quick::S4_2_3_6_11>(),
        Face::of::<quick::S1_3_3_7_1>(),
        Face::of::<quick::S2_2_2_7_2>(),
        Face::of::<quick::S3_3_2_7_3>(),
        Face::of::<quick::S1_2_2_7_6>(),
        Face::of::<quick::S2_3_2_7_7>(),
        Face::of::<quick::S3_2_3_7_8>(),
        Face::of::<quick::S4_3_3_7_9>(),
        Face::of::<quick::S5_2_2_7_10>(),
        Face::of::<quick::S1_3_2_7_11>(),
        Face::of::<quick::S3_3_3_8_1>(),
        Face::of::<quick::S4_2_2_8_2>(),
        Face::of::<quick::S5_3_2_8_3>(),
        Face::of::<quick::S2_3_3_8_5>(),
        Face::of::<quick::S3_2_2_8_6>(),
        Face::of::<quick::S4_3_2_8_7>(),
        Face::of::<quick::S5_2_3_8_8>(),
        Face::of::<quick::S1_3_3_8_9>(),
        Face::of::<quick::S2_2_2_8_10>(),
        Face::of::<quick::S3_3_2_8_11>(),
        Face::of::<quick::S5_2_3_9_1>(),
        Face::of::<quick::S1_3_3_9_2>(),
        Face::of::<quick::S5_3_3_9_6>(),
        Face::of::<quick::S1_2_2_9_7>(),
        Face::of::<quick::S3_2_3_9_9>(),
        Face::of::<quick::S4_3_3_9_10>(),
        Face::of::<quick::S5_2_2_9_11>(),
        Face::of::<quick::S5_3_2_11_2>(),
        Face::of::<quick::S3_2_2_11_5>(),
        Face::of::<quick::S4_3_2_11_6>(),
        Face::of::<quick::S5_2_3_11_7>(),
        Face::of::<quick::S1_3_3_11_8>(),
        Face::of::<quick::S2_2_2_11_9>(),
        Face::of::<quick::S3_3_2_11_10>(),
        Face::of::<quick::S4_2_3_11_11>(),
    ]
}
#[cfg(feature = "deep")]
macro_rules! every {
    ($k:expr, $a:expr, $b:expr, $K:ty, $A:ty, $B:ty) => {
        set!(Set1_1, S1_1, $K, $A, $B, U1, U1, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 1 });
        set!(Set1_2, S1_2, $K, $A, $B, U1, U2, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 2 });
        set!(Set1_3, S1_3, $K, $A, $B, U1, U3, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 3 });
        set!(Set1_4, S1_4, $K, $A, $B, U1, U4, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 4 });
        set!(Set1_5, S1_5, $K, $A, $B, U1, U5, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 5 });
        set!(Set1_6, S1_6, $K, $A, $B, U1, U6, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 6 });
        set!(Set1_7, S1_7, $K, $A, $B, U1, U7, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 7 });
        set!(Set1_8, S1_8, $K, $A, $B, U1, U8, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 8 });
        set!(Set1_9, S1_9, $K, $A, $B, U1, U9, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 9 });
        set!(Set1_10, S1_10, $K, $A, $B, U1, U10, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 10 });
        set!(Set1_11, S1_11, $K, $A, $B, U1, U11, Params { k: $k, eta1: $a, eta2: $b, du: 1, dv: 11 });
        set!(Set2_1, S2_1, $K, $A, $B, U2, U1, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 1 });
        set!(Set2_2, S2_2, $K, $A, $B, U2, U2, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 2 });
        set!(Set2_3, S2_3, $K, $A, $B, U2, U3, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 3 });
        set!(Set2_4, S2_4, $K, $A, $B, U2, U4, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 4 });
        set!(Set2_5, S2_5, $K, $A, $B, U2, U5, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 5 });
        set!(Set2_6, S2_6, $K, $A, $B, U2, U6, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 6 });
        set!(Set2_7, S2_7, $K, $A, $B, U2, U7, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 7 });
        set!(Set2_8, S2_8, $K, $A, $B, U2, U8, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 8 });
        set!(Set2_9, S2_9, $K, $A, $B, U2, U9, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 9 });
        set!(Set2_10, S2_10, $K, $A, $B, U2, U10, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 10 });
        set!(Set2_11, S2_11, $K, $A, $B, U2, U11, Params { k: $k, eta1: $a, eta2: $b, du: 2, dv: 11 });
        set!(Set3_1, S3_1, $K, $A, $B, U3, U1, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 1 });
        set!(Set3_2, S3_2, $K, $A, $B, U3, U2, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 2 });
        set!(Set3_3, S3_3, $K, $A, $B, U3, U3, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 3 });
        set!(Set3_4, S3_4, $K, $A, $B, U3, U4, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 4 });
        set!(Set3_5, S3_5, $K, $A, $B, U3, U5, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 5 });
        set!(Set3_6, S3_6, $K, $A, $B, U3, U6, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 6 });
        set!(Set3_7, S3_7, $K, $A, $B, U3, U7, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 7 });
        set!(Set3_8, S3_8, $K, $A, $B, U3, U8, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 8 });
        set!(Set3_9, S3_9, $K, $A, $B, U3, U9, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 9 });
        set!(Set3_10, S3_10, $K, $A, $B, U3, U10, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 10 });
        set!(Set3_11, S3_11, $K, $A, $B, U3, U11, Params { k: $k, eta1: $a, eta2: $b, du: 3, dv: 11 });
        set!(Set4_1, S4_1, $K, $A, $B, U4, U1, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 1 });
        set!(Set4_2, S4_2, $K, $A, $B, U4, U2, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 2 });
        set!(Set4_3, S4_3, $K, $A, $B, U4, U3, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 3 });
        set!(Set4_4, S4_4, $K, $A, $B, U4, U4, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 4 });
        set!(Set4_5, S4_5, $K, $A, $B, U4, U5, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 5 });
        set!(Set4_6, S4_6, $K, $A, $B, U4, U6, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 6 });
        set!(Set4_7, S4_7, $K, $A, $B, U4, U7, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 7 });
        set!(Set4_8, S4_8, $K, $A, $B, U4, U8, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 8 });
        set!(Set4_9, S4_9, $K, $A, $B, U4, U9, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 9 });
        set!(Set4_10, S4_10, $K, $A, $B, U4, U10, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 10 });
        set!(Set4_11, S4_11, $K, $A, $B, U4, U11, Params { k: $k, eta1: $a, eta2: $b, du: 4, dv: 11 });
        set!(Set5_1, S5_1, $K, $A, $B, U5, U1, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 1 });
        set!(Set5_2, S5_2, $K, $A, $B, U5, U2, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 2 });
        set!(Set5_3, S5_3, $K, $A, $B, U5, U3, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 3 });
        set!(Set5_4, S5_4, $K, $A, $B, U5, U4, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 4 });
        set!(Set5_5, S5_5, $K, $A, $B, U5, U5, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 5 });
        set!(Set5_6, S5_6, $K, $A, $B, U5, U6, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 6 });
        set!(Set5_7, S5_7, $K, $A, $B, U5, U7, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 7 });
        set!(Set5_8, S5_8, $K, $A, $B, U5, U8, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 8 });
        set!(Set5_9, S5_9, $K, $A, $B, U5, U9, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 9 });
        set!(Set5_10, S5_10, $K, $A, $B, U5, U10, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 10 });
        set!(Set5_11, S5_11, $K, $A, $B, U5, U11, Params { k: $k, eta1: $a, eta2: $b, du: 5, dv: 11 });
        set!(Set6_1, S6_1, $K, $A, $B, U6, U1, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 1 });
        set!(Set6_2, S6_2, $K, $A, $B, U6, U2, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 2 });
        set!(Set6_3, S6_3, $K, $A, $B, U6, U3, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 3 });
        set!(Set6_4, S6_4, $K, $A, $B, U6, U4, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 4 });
        set!(Set6_5, S6_5, $K, $A, $B, U6, U5, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 5 });
        set!(Set6_6, S6_6, $K, $A, $B, U6, U6, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 6 });
        set!(Set6_7, S6_7, $K, $A, $B, U6, U7, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 7 });
        set!(Set6_8, S6_8, $K, $A, $B, U6, U8, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 8 });
        set!(Set6_9, S6_9, $K, $A, $B, U6, U9, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 9 });
        set!(Set6_10, S6_10, $K, $A, $B, U6, U10, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 10 });
        set!(Set6_11, S6_11, $K, $A, $B, U6, U11, Params { k: $k, eta1: $a, eta2: $b, du: 6, dv: 11 });
        set!(Set7_1, S7_1, $K, $A, $B, U7, U1, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 1 });
        set!(Set7_2, S7_2, $K, $A, $B, U7, U2, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 2 });
        set!(Set7_3, S7_3, $K, $A, $B, U7, U3, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 3 });
        set!(Set7_4, S7_4, $K, $A, $B, U7, U4, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 4 });
        set!(Set7_5, S7_5, $K, $A, $B, U7, U5, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 5 });
        set!(Set7_6, S7_6, $K, $A, $B, U7, U6, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 6 });
        set!(Set7_7, S7_7, $K, $A, $B, U7, U7, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 7 });
        set!(Set7_8, S7_8, $K, $A, $B, U7, U8, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 8 });
        set!(Set7_9, S7_9, $K, $A, $B, U7, U9, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 9 });
        set!(Set7_10, S7_10, $K, $A, $B, U7, U10, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 10 });
        set!(Set7_11, S7_11, $K, $A, $B, U7, U11, Params { k: $k, eta1: $a, eta2: $b, du: 7, dv: 11 });
        set!(Set8_1, S8_1, $K, $A, $B, U8, U1, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 1 });
        set!(Set8_2, S8_2, $K, $A, $B, U8, U2, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 2 });
        set!(Set8_3, S8_3, $K, $A, $B, U8, U3, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 3 });
        set!(Set8_4, S8_4, $K, $A, $B, U8, U4, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 4 });
        set!(Set8_5, S8_5, $K, $A, $B, U8, U5, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 5 });
        set!(Set8_6, S8_6, $K, $A, $B, U8, U6, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 6 });
        set!(Set8_7, S8_7, $K, $A, $B, U8, U7, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 7 });
        set!(Set8_8, S8_8, $K, $A, $B, U8, U8, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 8 });
        set!(Set8_9, S8_9, $K, $A, $B, U8, U9, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 9 });
        set!(Set8_10, S8_10, $K, $A, $B, U8, U10, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 10 });
        set!(Set8_11, S8_11, $K, $A, $B, U8, U11, Params { k: $k, eta1: $a, eta2: $b, du: 8, dv: 11 });
        set!(Set9_1, S9_1, $K, $A, $B, U9, U1, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 1 });
        set!(Set9_2, S9_2, $K, $A, $B, U9, U2, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 2 });
        set!(Set9_3, S9_3, $K, $A, $B, U9, U3, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 3 });
        set!(Set9_4, S9_4, $K, $A, $B, U9, U4, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 4 });
        set!(Set9_5, S9_5, $K, $A, $B, U9, U5, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 5 });
        set!(Set9_6, S9_6, $K, $A, $B, U9, U6, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 6 });
        set!(Set9_7, S9_7, $K, $A, $B, U9, U7, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 7 });
        set!(Set9_8, S9_8, $K, $A, $B, U9, U8, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 8 });
        set!(Set9_9, S9_9, $K, $A, $B, U9, U9, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 9 });
        set!(Set9_10, S9_10, $K, $A, $B, U9, U10, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 10 });
        set!(Set9_11, S9_11, $K, $A, $B, U9, U11, Params { k: $k, eta1: $a, eta2: $b, du: 9, dv: 11 });
        set!(Set10_1, S10_1, $K, $A, $B, U10, U1, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 1 });
        set!(Set10_2, S10_2, $K, $A, $B, U10, U2, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 2 });
        set!(Set10_3, S10_3, $K, $A, $B, U10, U3, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 3 });
        set!(Set10_4, S10_4, $K, $A, $B, U10, U4, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 4 });
        set!(Set10_5, S10_5, $K, $A, $B, U10, U5, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 5 });
        set!(Set10_6, S10_6, $K, $A, $B, U10, U6, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 6 });
        set!(Set10_7, S10_7, $K, $A, $B, U10, U7, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 7 });
        set!(Set10_8, S10_8, $K, $A, $B, U10, U8, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 8 });
        set!(Set10_9, S10_9, $K, $A, $B, U10, U9, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 9 });
        set!(Set10_10, S10_10, $K, $A, $B, U10, U10, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 10 });
        set!(Set10_11, S10_11, $K, $A, $B, U10, U11, Params { k: $k, eta1: $a, eta2: $b, du: 10, dv: 11 });
        set!(Set11_1, S11_1, $K, $A, $B, U11, U1, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 1 });
        set!(Set11_2, S11_2, $K, $A, $B, U11, U2, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 2 });
        set!(Set11_3, S11_3, $K, $A, $B, U11, U3, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 3 });
        set!(Set11_4, S11_4, $K, $A, $B, U11, U4, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 4 });
        set!(Set11_5, S11_5, $K, $A, $B, U11, U5, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 5 });
        set!(Set11_6, S11_6, $K, $A, $B, U11, U6, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 6 });
        set!(Set11_7, S11_7, $K, $A, $B, U11, U7, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 7 });
        set!(Set11_8, S11_8, $K, $A, $B, U11, U8, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 8 });
        set!(Set11_9, S11_9, $K, $A, $B, U11, U9, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 9 });
        set!(Set11_10, S11_10, $K, $A, $B, U11, U10, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 10 });
        set!(Set11_11, S11_11, $K, $A, $B, U11, U11, Params { k: $k, eta1: $a, eta2: $b, du: 11, dv: 11 });
        pub fn faces() -> Vec<Face> {
            vec![
                Face::of::<S1_1>(), Face::of::<S1_2>(), Face::of::<S1_3>(), Face::of::<S1_4>(), Face::of::<S1_5>(), Face::of::<S1_6>(), Face::of::<S1_7>(), Face::of::<S1_8>(), Face::of::<S1_9>(), Face::of::<S1_10>(), Face::of::<S1_11>(),
                Face::of::<S2_1>(), Face::of::<S2_2>(), Face::of::<S2_3>(), Face::of::<S2_4>(), Face::of::<S2_5>(), Face::of::<S2_6>(), Face::of::<S2_7>(), Face::of::<S2_8>(), Face::of::<S2_9>(), Face::of::<S2_10>(), Face::of::<S2_11>(),
                Face::of::<S3_1>(), Face::of::<S3_2>(), Face::of::<S3_3>(), Face::of::<S3_4>(), Face::of::<S3_5>(), Face::of::<S3_6>(), Face::of::<S3_7>(), Face::of::<S3_8>(), Face::of::<S3_9>(), Face::of::<S3_10>(), Face::of::<S3_11>(),
                Face::of::<S4_1>(), Face::of::<S4_2>(), Face::of::<S4_3>(), Face::of::<S4_4>(), Face::of::<S4_5>(), Face::of::<S4_6>(), Face::of::<S4_7>(), Face::of::<S4_8>(), Face::of::<S4_9>(), Face::of::<S4_10>(), Face::of::<S4_11>(),
                Face::of::<S5_1>(), Face::of::<S5_2>(), Face::of::<S5_3>(), Face::of::<S5_4>(), Face::of::<S5_5>(), Face::of::<S5_6>(), Face::of::<S5_7>(), Face::of::<S5_8>(), Face::of::<S5_9>(), Face::of::<S5_10>(), Face::of::<S5_11>(),
                Face::of::<S6_1>(), Face::of::<S6_2>(), Face::of::<S6_3>(), Face::of::<S6_4>(), Face::of::<S6_5>(), Face::of::<S6_6>(), Face::of::<S6_7>(), Face::of::<S6_8>(), Face::of::<S6_9>(), Face::of::<S6_10>(), Face::of::<S6_11>(),
                Face::of::<S7_1>(), Face::of::<S7_2>(), Face::of::<S7_3>(), Face::of::<S7_4>(), Face::of::<S7_5>(), Face::of::<S7_6>(), Face::of::<S7_7>(), Face::of::<S7_8>(), Face::of::<S7_9>(), Face::of::<S7_10>(), Face::of::<S7_11>(),
                Face::of::<S8_1>(), Face::of::<S8_2>(), Face::of::<S8_3>(), Face::of::<S8_4>(), Face::of::<S8_5>(), Face::of::<S8_6>(), Face::of::<S8_7>(), Face::of::<S8_8>(), Face::of::<S8_9>(), Face::of::<S8_10>(), Face::of::<S8_11>(),
                Face::of::<S9_1>(), Face::of::<S9_2>(), Face::of::<S9_3>(), Face::of::<S9_4>(), Face::of::<S9_5>(), Face::of::<S9_6>(), Face::of::<S9_7>(), Face::of::<S9_8>(), Face::of::<S9_9>(), Face::of::<S9_10>(), Face::of::<S9_11>(),
                Face::of::<S10_1>(), Face::of::<S10_2>(), Face::of::<S10_3>(), Face::of::<S10_4>(), Face::of::<S10_5>(), Face::of::<S10_6>(), Face::of::<S10_7>(), Face::of::<S10_8>(), Face::of::<S10_9>(), Face::of::<S10_10>(), Face::of::<S10_11>(),
                Face::of::<S11_1>(), Face::of::<S11_2>(), Face::of::<S11_3>(), Face::of::<S11_4>(), Face::of::<S11_5>(), Face::of::<S11_6>(), Face::of::<S11_7>(), Face::of::<S11_8>(), Face::of::<S11_9>(), Face::of::<S11_10>(), Face::of::<S11_11>(),
            ]
        }
    };
}
#[cfg(feature = "k122")]
mod deep {
    use super::*;
    every!(1, 2, 2, U1, U2, U2);
}
#[cfg(feature = "k123")]
mod deep {
    use super::*;
    every!(1, 2, 3, U1, U2, U3);
}
#[cfg(feature = "k132")]
mod deep {
    use super::*;
    every!(1, 3, 2, U1, U3, U2);
}
#[cfg(feature = "k133")]
mod deep {
    use super::*;
    every!(1, 3, 3, U1, U3, U3);
}
#[cfg(feature = "k222")]
mod deep {
    use super::*;
    every!(2, 2, 2, U2, U2, U2);
}
#[cfg(feature = "k223")]
mod deep {
    use super::*;
    every!(2, 2, 3, U2, U2, U3);
}
#[cfg(feature = "k232")]
mod deep {
    use super::*;
    every!(2, 3, 2, U2, U3, U2);
}
#[cfg(feature = "k233")]
mod deep {
    use super::*;
    every!(2, 3, 3, U2, U3, U3);
}
#[cfg(feature = "k322")]
mod deep {
    use super::*;
    every!(3, 2, 2, U3, U2, U2);
}
#[cfg(feature = "k323")]
mod deep {
    use super::*;
    every!(3, 2, 3, U3, U2, U3);
}
#[cfg(feature = "k332")]
mod deep {
    use super::*;
    every!(3, 3, 2, U3, U3, U2);
}
#[cfg(feature = "k333")]
mod deep {
    use super::*;
    every!(3, 3, 3, U3, U3, U3);
}
#[cfg(feature = "k422")]
mod deep {
    use super::*;
    every!(4, 2, 2, U4, U2, U2);
}
#[cfg(feature = "k423")]
mod deep {
    use super::*;
    every!(4, 2, 3, U4, U2, U3);
}
#[cfg(feature = "k432")]
mod deep {
    use super::*;
    every!(4, 3, 2, U4, U3, U2);
}
#[cfg(feature = "k433")]
mod deep {
    use super::*;
    every!(4, 3, 3, U4, U3, U3);
}
#[cfg(feature = "k522")]
mod deep {
    use super::*;
    every!(5, 2, 2, U5, U2, U2);
}
#[cfg(feature = "k523")]
mod deep {
    use super::*;
    every!(5, 2, 3, U5, U2, U3);
}
#[cfg(feature = "k532")]
mod deep {
    use super::*;
    every!(5, 3, 2, U5, U3, U2);
}
#[cfg(feature = "k533")]
mod deep {
    use super::*;
    every!(5, 3, 3, U5, U3, U3);
}
#[cfg(feature = "deep")]
pub use deep::faces;
