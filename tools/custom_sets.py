#!/usr/bin/env python3
"""Writes harness/cust/src/sets.rs: the parameter sets explored for C22."""
import os
quick, seen = [], set()
def add(l, s):
    if s not in seen:
        seen.add(s); l.append(s)
i = 0
for k in (1, 2, 3, 4, 5):
    for a in (2, 3):
        for b in (2, 3):
            add(quick, (k, a, b, (10, 11, 9, 5)[i % 4], (4, 5, 3, 8)[(i // 2) % 4])); i += 1
for d in range(1, 12):
    add(quick, ((2, 3, 1)[d % 3], 2, 2, d, 4))
    add(quick, ((3, 1, 2)[d % 3], 2, 2, 10, d))
    add(quick, (2, 2, 3, d, 12 - d))
# every pair of compression widths, the ranks and noise widths spread over them
for du in range(1, 12):
    for dv in range(1, 12):
        k = (2 * du + dv) % 5 + 1
        n = (du * 3 + dv * 5 + du // 4) % 4
        if not any(s[3:] == (du, dv) for s in quick):
            add(quick, (k, 2 + n % 2, 2 + n // 2, du, dv))
out = ["// @generated by tools/custom_sets.py", "use crate::one::Face;", "use crate::scheme::*;",
       "use ml_kem::array::typenum::{U1, U10, U11, U2, U3, U4, U5, U6, U7, U8, U9};",
       "use ml_kem::kem::{Decapsulate, DecapsulationKey, Encapsulate, EncapsulationKey, Kem};",
       "use ml_kem::{EncodedSizeUser, KemCore};", "use rand_core::CryptoRngCore;", "use vlib::mlkem::Params;", "",
       "macro_rules! set {", "    ($set:ident, $scheme:ident, $k:ty, $a:ty, $b:ty, $du:ty, $dv:ty, $params:expr) => {",
       "        #[derive(Default, Clone, Debug, PartialEq)]", "        pub struct $set;",
       "        impl ml_kem::ParameterSet for $set {", "            type K = $k;", "            type Eta1 = $a;", "            type Eta2 = $b;",
       "            type Du = $du;", "            type Dv = $dv;", "        }", "        scheme!($scheme, $set, $params);", "    };", "}"]
def emit(l, cfg):
    for s in l:
        n = "_".join(map(str, s))
        out.append(f"{cfg}set!(Set{n}, S{n}, U{s[0]}, U{s[1]}, U{s[2]}, U{s[3]}, U{s[4]}, Params {{ k: {s[0]}, eta1: {s[1]}, eta2: {s[2]}, du: {s[3]}, dv: {s[4]} }});")
out.append("#[cfg(not(feature = \"deep\"))]\nmod quick {\n    use super::*;")
emit(quick, "    ")
out.append("}\n#[cfg(not(feature = \"deep\"))]\npub fn faces() -> Vec<Face> {\n    vec![")
for s in quick:
    out.append(f"        Face::of::<quick::S{'_'.join(map(str, s))}>(),")
out.append("    ]\n}")
out.append("#[cfg(feature = \"deep\")]\nmacro_rules! every {\n    ($k:expr, $a:expr, $b:expr, $K:ty, $A:ty, $B:ty) => {")
for du in range(1, 12):
    for dv in range(1, 12):
        out.append(f"        set!(Set{du}_{dv}, S{du}_{dv}, $K, $A, $B, U{du}, U{dv}, Params {{ k: $k, eta1: $a, eta2: $b, du: {du}, dv: {dv} }});")
out.append("        pub fn faces() -> Vec<Face> {\n            vec![")
for du in range(1, 12):
    out.append("                " + " ".join(f"Face::of::<S{du}_{dv}>()," for dv in range(1, 12)))
out.append("            ]\n        }\n    };\n}")
# all sets of one rank and pair of noise widths, one build each
for k in (1, 2, 3, 4, 5):
    for a in (2, 3):
        for b in (2, 3):
            f = f'#[cfg(feature = "k{k}{a}{b}")]'
            out.append(f"{f}\nmod deep {{\n    use super::*;\n    every!({k}, {a}, {b}, U{k}, U{a}, U{b});\n}}")
out.append("""#[cfg(feature = "deep")]
pub use deep::faces;
""")
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/cust/src/sets.rs")
open(p, "w").write("\n".join(out))
print(len(quick))
