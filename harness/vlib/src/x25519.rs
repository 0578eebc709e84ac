//! X25519 by RFC 7748, section 5, on 16 limbs of 16 bits.
type Fe = [i64; 16];

const P: Fe = {
    let mut p = [0xffffi64; 16];
    p[0] = 0xffed;
    p[15] = 0x7fff;
    p
};

fn carry(o: &mut Fe) {
    for i in 0..16 {
        let c = o[i] >> 16;
        o[i] -= c << 16;
        if i < 15 {
            o[i + 1] += c;
        } else {
            o[0] += 38 * c;
        }
    }
}

fn mul(a: &Fe, b: &Fe) -> Fe {
    let mut t = [0i64; 31];
    for i in 0..16 {
        for j in 0..16 {
            t[i + j] += a[i] * b[j];
        }
    }
    for i in 0..15 {
        t[i] += 38 * t[i + 16];
    }
    let mut o: Fe = t[..16].try_into().unwrap();
    carry(&mut o);
    carry(&mut o);
    o
}

fn add(a: &Fe, b: &Fe) -> Fe {
    core::array::from_fn(|i| a[i] + b[i])
}

fn sub(a: &Fe, b: &Fe) -> Fe {
    core::array::from_fn(|i| a[i] - b[i])
}

fn unpack(b: &[u8; 32]) -> Fe {
    let mut o: Fe = core::array::from_fn(|i| b[2 * i] as i64 + ((b[2 * i + 1] as i64) << 8));
    o[15] &= 0x7fff; // RFC 7748: the most significant bit is ignored
    o
}

fn pack(a: &Fe) -> [u8; 32] {
    let mut t = *a;
    for _ in 0..3 {
        carry(&mut t);
    }
    // at most two subtractions of p bring the value into 0..p
    for _ in 0..2 {
        let mut s = sub(&t, &P);
        for i in 0..15 {
            let c = s[i] >> 16;
            s[i] -= c << 16;
            s[i + 1] += c;
        }
        if s[15] >= 0 {
            t = s;
        }
    }
    let mut o = [0; 32];
    for i in 0..16 {
        o[2 * i] = t[i] as u8;
        o[2 * i + 1] = (t[i] >> 8) as u8;
    }
    o
}

fn invert(a: &Fe) -> Fe {
    // a^(p-2); p - 2 = 2^255 - 21: all bits set except bits 2 and 4
    let mut r = *a;
    for i in (0..254).rev() {
        r = mul(&r, &r);
        if i != 2 && i != 4 {
            r = mul(&r, a);
        }
    }
    r
}

pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let mut k = *k;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    let x1 = unpack(u);
    let (mut x2, mut z2, mut x3, mut z3) = ([0i64; 16], [0i64; 16], x1, [0i64; 16]);
    x2[0] = 1;
    z3[0] = 1;
    let mut a24 = [0i64; 16];
    a24[0] = 121665 & 0xffff;
    a24[1] = 121665 >> 16;
    let mut swap = false;
    for t in (0..255).rev() {
        let kt = (k[t / 8] >> (t % 8)) & 1 == 1;
        if swap != kt {
            core::mem::swap(&mut x2, &mut x3);
            core::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = add(&x2, &z2);
        let aa = mul(&a, &a);
        let b = sub(&x2, &z2);
        let bb = mul(&b, &b);
        let e = sub(&aa, &bb);
        let c = add(&x3, &z3);
        let d = sub(&x3, &z3);
        let da = mul(&d, &a);
        let cb = mul(&c, &b);
        let s = add(&da, &cb);
        let f = sub(&da, &cb);
        x3 = mul(&s, &s);
        z3 = mul(&x1, &mul(&f, &f));
        x2 = mul(&aa, &bb);
        z2 = mul(&e, &add(&aa, &mul(&a24, &e)));
    }
    if swap {
        core::mem::swap(&mut x2, &mut x3);
        core::mem::swap(&mut z2, &mut z3);
    }
    pack(&mul(&x2, &invert(&z2)))
}

pub const BASE: [u8; 32] = {
    let mut b = [0; 32];
    b[0] = 9;
    b
};

/// Interesting u-coordinates: low-order points, non-canonical encodings, high-bit variants.
pub fn special_points() -> Vec<(String, [u8; 32])> {
    let mut v: Vec<(String, [u8; 32])> = vec![];
    let small = |n: u8| {
        let mut b = [0u8; 32];
        b[0] = n;
        b
    };
    let near_p = |n: i32| {
        // p + n, for small n, as a 255-bit string
        let mut b = [0xffu8; 32];
        b[31] = 0x7f;
        b[0] = (0xed + n) as u8;
        b
    };
    for n in [0u8, 1, 2, 9] {
        v.push((format!("u={n}"), small(n)));
    }
    for n in -2..=18 {
        v.push((format!("u=p{n:+}"), near_p(n)));
    }
    // the two order-8 points of RFC 7748 / "may the fourth"
    let h = |s: &str| -> [u8; 32] {
        core::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
    };
    v.push(("order 8, a".into(), h("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800")));
    v.push(("order 8, b".into(), h("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157")));
    let n = v.len();
    for i in 0..n {
        let (name, mut b) = v[i].clone();
        b[31] |= 0x80;
        v.push((format!("{name} with high bit"), b));
    }
    v
}

pub fn self_check() {
    let h = |s: &str| -> [u8; 32] {
        core::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
    };
    // RFC 7748, section 5.2
    assert_eq!(
        x25519(
            &h("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
            &h("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")
        ),
        h("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
    );
    let (mut k, mut u) = (BASE, BASE);
    for _ in 0..1000 {
        (k, u) = (x25519(&k, &u), k);
    }
    assert_eq!(k, h("684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51"));
}
