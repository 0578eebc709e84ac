//! C11 (DH-KEM part).
use crate::face::Dh;
use crate::script::*;
use vlib::ensure;
use vlib::engine::{expect_eq, Outcome, Run};

fn one<D: Dh>(run: &mut Run) {
    let scalars = D::scalars(false);
    let bg = scalars.last().unwrap().clone();
    let bad = D::rejected();
    let peer_secret = scalars[2].clone();
    let peer = D::public(&peer_secret);
    let (scalars, bg, bad, peer_secret, peer) = (&scalars, &bg, &bad, &peer_secret, &peer);
    let check = |script: &[u8], used: usize, k: &[u8], which: u64, what: &dyn Fn() -> String| -> Outcome {
        let padded = [script, &[0x01; 140]].concat();
        let mut g = Script::new(&padded);
        if which == 0 {
            let (d, e) = D::keypair(&mut g);
            ensure!(g.used == used, "rng-amount", "{}: key generation drew {} bytes ({:?}), not {used}", what(), g.used, g.calls);
            expect_eq("rng-keygen", &what(), &D::ek_bytes(&e), &D::public(k))?;
            expect_eq("rng-keygen", &what(), &D::dec(&d, peer), &D::dh2(k, peer_secret))
        } else {
            let (c, s) = D::enc(&D::ek(peer), &mut g);
            ensure!(g.used == used, "rng-amount", "{}: encapsulation drew {} bytes ({:?}), not {used}", what(), g.used, g.calls);
            expect_eq("rng-encaps", &what(), &c, &D::public(k))?;
            expect_eq("rng-encaps", &what(), &s, &D::dh2(k, peer_secret))
        }
    };
    let check = &check;
    let step = run.pick(17u64, 1);
    let nv = 255 / step;
    run.explore(
        &format!("{}: drawn bytes", D::NAME),
        "{key generation, encapsulation} x every byte of the scalar x 15 (thorough: all 255) differences over a dense background: one scalar, exactly its bytes",
        2 * D::LEN as u64 * nv,
        |i, t| {
            let mut k = bg.clone();
            let at = (i / 2 / nv) as usize;
            k[at] ^= (1 + i / 2 % nv * step) as u8;
            if !D::in_range(&k) {
                return Ok(());
            }
            t.ops(1);
            t.trace();
            check(&k, D::LEN, &k, i % 2, &|| format!("{}: scalar {}", D::NAME, vlib::hex(&k)))
        },
    );
    let nb = bad.len() as u64;
    if nb > 0 {
        let ns = scalars.len() as u64;
        let m = ns.min(run.pick(4, 12));
        run.explore(
            &format!("{}: redraws", D::NAME),
            "{key generation, encapsulation} x all words of 0..3 out-of-range draws (0, n, n+1, ..) x scalars of the pool: redrawn as often as out of range, then exactly the first scalar in range",
            2 * (1 + nb + nb * nb + nb * nb * nb) * m,
            |i, t| {
                let (which, mut i) = (i % 2, i / 2);
                let k = &scalars[((i % m) * 5 % ns) as usize];
                i /= m;
                let mut len = 0;
                let mut block = 1;
                while i >= block {
                    i -= block;
                    block *= nb;
                    len += 1;
                    if len > 3 {
                        return Ok(());
                    }
                }
                let mut script = vec![];
                for _ in 0..len {
                    script.extend(&bad[(i % nb) as usize]);
                    i /= nb;
                }
                script.extend(k);
                t.ops(1);
                t.trace();
                check(&script, (len + 1) * D::LEN, k, which, &|| format!("{}: {len} out-of-range draws then {}", D::NAME, vlib::hex(k)))
            },
        );
    }
    run.explore(
        &format!("{}: generator failures", D::NAME),
        "{key generation, encapsulation} x scalars x {0, 1, 2 redraws first} x failure at every call after {none, one, half, all but one, all} bytes: no result, key unchanged and usable",
        2 * 8 * if nb > 0 { 3 } else { 1 },
        |i, t| {
            let k = &scalars[(i / 2 % 8 * 3) as usize];
            let redraws = (i / 16) as usize;
            let script = [bad.iter().take(redraws).flatten().copied().collect::<Vec<u8>>(), k.clone()].concat();
            let (d, e) = D::keypair(&mut Script::new(k));
            let alive = || -> Outcome {
                expect_eq("rng-failure-key", "key after a failed operation", &D::ek_bytes(&e), &D::public(k))?;
                expect_eq("rng-failure-key", "decapsulation after a failed operation", &D::dec(&d, peer), &D::dh2(k, peer_secret))
            };
            let n = if i % 2 == 0 {
                every_failure(&format!("{} key generation", D::NAME), &script, |g| Some(D::keypair(g)), alive)?
            } else {
                every_failure(&format!("{} encapsulation", D::NAME), &script, |g| Some(D::enc(&e, g)), alive)?
            };
            t.states += n;
            t.ops(n);
            t.traces += n;
            Ok(())
        },
    );
}

pub fn run(run: &mut Run) {
    for i in 0..5 {
        with_dh!(i, D => one::<D>(run));
    }
}
