//! C19: encapsulation and decapsulation compute the Diffie-Hellman value.
use crate::face::Dh;
use crate::script::Script;
use vlib::ensure;
use vlib::engine::{expect_eq, Run};

fn one<D: Dh>(run: &mut Run) {
    let scalars = D::scalars(run.thorough());
    let (ns, scalars) = (scalars.len() as u64, &scalars);
    let publics: Vec<Vec<u8>> = scalars.iter().map(|s| D::public(s)).collect();
    let publics = &publics;
    run.explore(
        &format!("{}: pairs of secrets", D::NAME),
        "all (receiver secret, ephemeral secret) pairs of the boundary pool (1, 2, .., n-1, halves, powers of two, digit patterns, values with leading zero bytes): key pair, encapsulation (to the generated and to the parsed key) and decapsulation against the model",
        ns * ns,
        |i, t| {
            let (a, b) = (&scalars[(i % ns) as usize], &scalars[(i / ns) as usize]);
            let (pa, pb) = (&publics[(i % ns) as usize], &publics[(i / ns) as usize]);
            let want = D::dh2(a, b);
            let what = |s: &str| format!("{}: {s} (receiver {}, ephemeral {})", D::NAME, vlib::hex(a), vlib::hex(b));
            let (d, e) = D::keypair(&mut Script::new(a));
            expect_eq("public-key", &what("public key"), &D::ek_bytes(&e), pa)?;
            let (c, s) = D::enc(&e, &mut Script::new(b));
            expect_eq("encapsulated-key", &what("encapsulated key"), &c, pb)?;
            expect_eq("sender-secret", &what("sender's secret"), &s, &want)?;
            expect_eq("receiver-secret", &what("receiver's secret"), &D::dec(&d, &c), &want)?;
            if i % 8 == 0 {
                let (c2, s2) = D::enc(&D::ek(pa), &mut Script::new(b));
                expect_eq("parsed-key", &what("encapsulation to the parsed key"), &[c2, s2].concat(), &[&pb[..], &want].concat())?;
                t.ops(1);
            }
            t.ops(3);
            t.trace();
            t.outcome(&want);
            t.sample(|| format!("{} -> {}", what("secret"), vlib::hex(&want)));
            Ok(())
        },
    );
    let peers = D::peers();
    let (np, peers) = (peers.len() as u64, &peers);
    let few: Vec<&Vec<u8>> = scalars.iter().step_by(run.pick(5, 1)).collect();
    let (nf, few) = (few.len() as u64, &few);
    run.explore(
        &format!("{}: peers", D::NAME),
        "every peer of the pool (small multiples, extreme and structured coordinates, both encodings; for X25519 every low-order and non-canonical value) x a subset of the secrets (thorough: all): decapsulation of it, and encapsulation to it",
        np * nf,
        |i, t| {
            let (name, q) = &peers[(i % np) as usize];
            let k = few[(i / np) as usize];
            let want = D::dh(k, q);
            let what = |s: &str| format!("{}: {s} with peer {name} and secret {}", D::NAME, vlib::hex(k));
            let (d, _) = D::keypair(&mut Script::new(k));
            expect_eq("decapsulation", &what("decapsulation"), &D::dec(&d, q), &want)?;
            let (c, s) = D::enc(&D::ek(q), &mut Script::new(k));
            expect_eq("encapsulation", &what("encapsulation"), &s, &want)?;
            expect_eq("encapsulated-key", &what("encapsulated key"), &c, &D::public(k))?;
            t.ops(3);
            t.trace();
            t.outcome(&want);
            t.sample(|| format!("{} -> {}", what("secret"), vlib::hex(&want)));
            Ok(())
        },
    );
    // freshness: one generator, a sequence of operations
    let words = run.pick(6u32, 9);
    run.explore(
        &format!("{}: fresh secrets", D::NAME),
        "all words of 1..6 (thorough: 9) operations from {encapsulate, generate a key pair} on one generator: each operation uses its own, the next, secret",
        (1 << (words + 1)) - 2,
        |i, t| {
            let (mut j, mut len) = (i, 1u32);
            while j >= 1 << len {
                j -= 1 << len;
                len += 1;
            }
            let script: Vec<u8> = (0..len as usize).flat_map(|x| scalars[(x * 7 + 11) % scalars.len()].clone()).collect();
            let mut g = Script::new(&script);
            let peer = &publics[publics.len() - 1];
            let e = D::ek(peer);
            for x in 0..len as usize {
                let k = &scalars[(x * 7 + 11) % scalars.len()];
                let what = || format!("{}: operation {x} of word {j:b}", D::NAME);
                if j >> x & 1 == 0 {
                    let (c, s) = D::enc(&e, &mut g);
                    expect_eq("fresh", &what(), &[c, s].concat(), &[D::public(k), D::dh2(k, &scalars[scalars.len() - 1])].concat())?;
                } else {
                    let (d, p) = D::keypair(&mut g);
                    expect_eq("fresh", &what(), &[D::ek_bytes(&p), D::dec(&d, peer)].concat(), &[D::public(k), D::dh2(k, &scalars[scalars.len() - 1])].concat())?;
                }
                t.ops(1);
                t.trace();
                ensure!(g.used == (x + 1) * D::LEN, "fresh", "{}: {} bytes drawn", what(), g.used);
            }
            Ok(())
        },
    );
}

pub fn run(run: &mut Run) {
    for i in 0..5 {
        with_dh!(i, D => one::<D>(run));
    }
}
