//! C12 (X-Wing part): histories, nesting and interleavings.
use crate::face::*;
use crate::script::Script;
use std::cell::RefCell;
use std::rc::Rc;
use vlib::engine::{expect_eq, fail, Op, Run, Solo};
use vlib::rng::stream;
use vlib::sched::{all_schedules, de_bruijn};
use vlib::xwing;

fn ops() -> Vec<Op> {
    let s0: [u8; 32] = stream("C12 x-wing seed");
    let s1: [u8; 32] = flip(&s0, 31, 1).try_into().unwrap();
    let e0: [u8; 64] = stream("C12 x-wing randomness");
    let e1: [u8; 64] = flip(&e0, 63, 0x80 >> 2).try_into().unwrap();
    let e2: [u8; 64] = flip(&e0, 0, 1).try_into().unwrap();
    let pk0 = xwing::public_key(&s0);
    let pk1 = xwing::public_key(&s1);
    let mut out: Vec<Op> = vec![];
    for (n, s) in [("A", s0), ("B", s1)] {
        let want = [&s[..], &xwing::public_key(&s)].concat();
        out.push(Op::new(format!("generate {n}"), want, move || {
            let (d, p) = x_wing::generate_key_pair(&mut Script::new(&s));
            [&d.as_bytes()[..], &p.as_bytes()].concat()
        }));
    }
    let eks = [
        ("key A", pk0.clone()),
        ("key B", pk1.clone()),
        ("key A, last X25519 byte changed", flip(&pk0, 1215, 0x80)),
        ("key A, matrix seed changed", flip(&pk0, 1183, 1)),
        ("ML-KEM part of A, X25519 part of B", [&pk0[..1184], &pk1[1184..]].concat()),
    ];
    for (j, (n, k)) in eks.iter().enumerate() {
        let key = Rc::new(RefCell::new(ek(k)));
        for (en, e) in [("r0", e0), ("r1", e1), ("r2", e2)].into_iter().take(if j == 0 { 3 } else { 1 }) {
            let (c, s) = xwing::encaps(k, &e);
            let key = key.clone();
            out.push(Op::new(format!("encaps({n}, {en})"), [&c[..], &s].concat(), move || {
                let (c, s) = enc_rng(&key.borrow(), &mut Script::new(&e));
                [&c.as_bytes()[..], &s].concat()
            }));
        }
        if j == 0 {
            let (key, k) = (key.clone(), k.clone());
            out.push(Op::new("parse and clone key A again", k.clone(), move || {
                let fresh = ek(&k);
                *key.borrow_mut() = fresh.clone();
                let r = key.borrow().as_bytes().to_vec();
                r
            }));
        }
    }
    let (c0, _) = xwing::encaps(&pk0, &e0);
    let (c1, _) = xwing::encaps(&pk0, &e1);
    let dks = [("A", s0), ("B", s1)];
    let cts = [
        ("honest", c0.clone()),
        ("other honest", c1),
        ("last byte changed", flip(&c0, 1119, 0x80)),
        ("first byte changed", flip(&c0, 0, 1)),
        ("ML-KEM part end changed", flip(&c0, 1087, 1)),
    ];
    for (dn, s) in dks {
        let key = Rc::new(RefCell::new(dk(&s)));
        for (cn, c) in &cts[..if dn == "A" { 5 } else { 2 }] {
            let want = xwing::decaps(&s, c).to_vec();
            let (key, c) = (key.clone(), ct(c));
            out.push(Op::new(format!("decaps({dn}, {cn})"), want, move || dec(&key.borrow(), &c).to_vec()));
        }
        let (k1, k2) = (key.clone(), key.clone());
        out.push(Op::new(format!("public key of {dn}"), xwing::public_key(&s), move || k1.borrow().encapsulation_key().as_bytes().to_vec()));
        out.push(Op::new(format!("clone and drop {dn}"), s.to_vec(), move || {
            let c = k2.borrow().clone();
            *k2.borrow_mut() = c;
            let r = k2.borrow().as_bytes().to_vec();
            r
        }));
    }
    out
}

type Outer = (String, Box<dyn Fn(&mut dyn FnMut(usize)) -> Vec<u8>>, Vec<u8>);

fn outers() -> Vec<Outer> {
    let s0: [u8; 32] = stream("C12 x-wing seed");
    let e0: [u8; 64] = stream("C12 x-wing randomness");
    let pk0 = xwing::public_key(&s0);
    let (c, k) = xwing::encaps(&pk0, &e0);
    let key = ek(&pk0);
    vec![
        (
            "key pair generation".into(),
            Box::new(move |h: &mut dyn FnMut(usize)| {
                let mut g = Script::new(&s0);
                // the script borrows the hook only for this call
                g.hook = Some(unsafe { std::mem::transmute::<&mut dyn FnMut(usize), &mut dyn FnMut(usize)>(h) });
                let (d, p) = x_wing::generate_key_pair(&mut g);
                [&d.as_bytes()[..], &p.as_bytes()].concat()
            }),
            [&s0[..], &pk0].concat(),
        ),
        (
            "encapsulation".into(),
            Box::new(move |h: &mut dyn FnMut(usize)| {
                let mut g = Script::new(&e0);
                g.hook = Some(unsafe { std::mem::transmute::<&mut dyn FnMut(usize), &mut dyn FnMut(usize)>(h) });
                let (c, k) = enc_rng(&key, &mut g);
                [&c.as_bytes()[..], &k].concat()
            }),
            [&c[..], &k].concat(),
        ),
    ]
}

/// Successive operations on inputs that a careless cache would take for equal.
fn near_equal(run: &mut Run) {
    use crate::near::{explore, far, near};
    let s0: [u8; 32] = stream("C12 x-wing seed");
    let e0: [u8; 64] = stream("C12 x-wing randomness");
    let pk = xwing::public_key(&s0);
    let (c, _) = xwing::encaps(&pk, &e0);
    let step = run.pick(16, 1);
    let a32 = |x: &[u8]| -> [u8; 32] { x.try_into().unwrap() };
    explore(
        run,
        "near-equal seeds",
        "generation, public key, and decapsulation, from a seed",
        &s0,
        near(32, |_| true, 1),
        |x| {
            let pk = xwing::public_key(&a32(x));
            [&pk[..], &pk, &pk, &xwing::decaps(&a32(x), &c)].concat()
        },
        |x| {
            let (d, p) = x_wing::generate_key_pair(&mut Script::new(x));
            let d2 = dk(&a32(x));
            let parts = [p.as_bytes().to_vec(), d.encapsulation_key().as_bytes().to_vec(), d2.encapsulation_key().as_bytes().to_vec(), dec(&d2, &ct(&c)).to_vec()];
            parts.concat()
        },
    );
    let key = Solo(ek(&pk));
    explore(
        run,
        "near-equal randomness",
        "encapsulation with 64 bytes of randomness",
        &e0,
        near(64, |_| true, 1),
        |x| {
            let (c, k) = xwing::encaps(&pk, x.try_into().unwrap());
            [&c[..], &k].concat()
        },
        |x| {
            let (c, k) = enc(key.get(), x.try_into().unwrap());
            [&c[..], &k].concat()
        },
    );
    let canonical = |x: &[u8]| [&vlib::mlkem::canonical_ek(&vlib::mlkem::P768, &x[..1184])[..], &x[1184..]].concat();
    explore(
        run,
        "near-equal encapsulation keys",
        "parsing an encapsulation key and encapsulating to it",
        &pk,
        near(pk.len(), far, step),
        |x| {
            let x = canonical(x);
            let (c, k) = xwing::encaps(&x, &e0);
            [&x[..], &c, &k].concat()
        },
        |x| {
            let e = ek(&canonical(x));
            let (c, k) = enc(&e, &e0);
            [&e.as_bytes()[..], &c, &k].concat()
        },
    );
    let key = Solo(dk(&s0));
    explore(
        run,
        "near-equal ciphertexts",
        "decapsulation of a ciphertext",
        &c,
        near(c.len(), far, step),
        |x| xwing::decaps(&s0, x).to_vec(),
        |x| dec(key.get(), &ct(x)).to_vec(),
    );
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let all = Solo(ops());
    let n = all.get().len();
    let order = run.pick(3, 4);
    let seq = de_bruijn(n, order);
    run.history("histories", "every sequence of 3 (thorough: 4) operations over near-colliding keys (generate, encapsulate, decapsulate good and bad, derive, parse, clone, drop), as one long history in one process", &all, &seq, order);
    let outer = Solo(outers());
    let no = outer.get().len() as u64;
    let ni = n as u64;
    run.explore_on(1, "operations inside the generator callback", "every drawing operation x every pair of operations run inside its generator callback", no * ni * ni, |i, t| {
        let (name, f, want) = &outer.get()[(i % no) as usize];
        let inner = [&all.get()[(i / no % ni) as usize], &all.get()[(i / no / ni) as usize]];
        let mut bad = None;
        let mut k = 0;
        let got = f(&mut |call| {
            k += 1;
            let op = inner[call % 2];
            if let Err(e) = op.exec(|| format!("inside the generator of {name}, call {call}")) {
                bad.get_or_insert(e);
            }
        });
        t.ops(1 + k);
        t.trace();
        if let Some(e) = bad {
            return Err(e);
        }
        expect_eq("nested", &format!("{name} with {} and {} inside its generator", inner[0].name, inner[1].name), &got, want)
    });
    let depth = run.pick(2u32, 3);
    run.explore_on(1, "thread interleavings", "all 2-tuples (thorough: 3-tuples) of drawing operations on shared keys in real threads, each followed by one of the other operations, every schedule of their hand-overs at generator calls", no.pow(depth) * ni, |i, t| {
        let last = &all.get()[(i / no.pow(depth)) as usize];
        let pick: Vec<usize> = (0..depth).map(|d| (i / no.pow(d) % no) as usize).collect();
        let solo = Solo(last);
        let bodies: Vec<Box<dyn Fn(&dyn Fn()) -> Vec<u8> + Sync>> = pick
            .iter()
            .map(|&p| {
                let (outer, solo) = (&outer, &solo);
                Box::new(move |pause: &dyn Fn()| {
                    let (_, f, _) = &outer.get()[p];
                    let r = f(&mut |_| pause());
                    pause();
                    let last = solo.get();
                    if (last.run)() != last.want {
                        panic!("{} differs", last.name);
                    }
                    r
                }) as Box<dyn Fn(&dyn Fn()) -> Vec<u8> + Sync>
            })
            .collect();
        let refs: Vec<&(dyn Fn(&dyn Fn()) -> Vec<u8> + Sync)> = bodies.iter().map(|b| &**b).collect();
        let k = all_schedules(&refs, |r, sched| {
            for (j, x) in r.iter().enumerate() {
                let (name, _, want) = &outer.get()[pick[j]];
                match x {
                    Ok(g) => expect_eq("interleaving", &format!("{name} in thread {j}, schedule {sched:?}"), g, want)?,
                    Err(m) => return fail("interleaving", format!("{name} in thread {j}, schedule {sched:?}: {m}")),
                }
            }
            Ok(())
        })?;
        t.states += k;
        t.ops(2 * k * depth as u64);
        t.traces += k;
        Ok(())
    });
    near_equal(run);
    let got = [
        ("X-Wing decapsulation key", shareable!(DecapsulationKey)),
        ("X-Wing encapsulation key", shareable!(EncapsulationKey)),
        ("X-Wing ciphertext", shareable!(Ciphertext)),
    ];
    run.explore("key types across threads", "every key type is Send and Sync", got.len() as u64, |i, t| {
        let (name, (send, sync)) = got[i as usize];
        t.trace();
        if !send || !sync {
            return fail("not-shareable", format!("{name}: Send {send}, Sync {sync}"));
        }
        Ok(())
    });
}
