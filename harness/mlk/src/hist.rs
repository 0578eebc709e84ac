//! C12 (ML-KEM part): histories, nesting and interleavings.
use crate::scheme::*;
use crate::script::Script;
use std::cell::RefCell;
use std::rc::Rc;
use vlib::engine::{expect_eq, fail, Op, Run, Solo};
use vlib::mlkem;
use vlib::rng::stream;
use vlib::sched::{all_schedules, de_bruijn};

fn flip(b: &[u8], at: usize, x: u8) -> Vec<u8> {
    let mut v = b.to_vec();
    v[at] ^= x;
    v
}

/// Operations on persistent, near-colliding keys of one set. `level` 0: the core, 1: everything.
pub fn ops<S: Scheme>(level: u8) -> Vec<Op> {
    let p = S::P;
    let n = 384 * p.k;
    let nm = p.name();
    let d0: [u8; 32] = stream("C12 d");
    let z0: [u8; 32] = stream("C12 z");
    let d1: [u8; 32] = flip(&d0, 31, 1).try_into().unwrap();
    let z1: [u8; 32] = flip(&z0, 0, 0x80).try_into().unwrap();
    let (ek0, dk0) = mlkem::keygen(&p, &d0, &z0);
    let mut out: Vec<Op> = vec![];
    for (name, d, z) in [("seed A", d0, z0), ("seed A, other z", d0, z1), ("seed B", d1, z0)].into_iter().take(if level == 0 { 2 } else { 3 }) {
        let (e, k) = mlkem::keygen(&p, &d, &z);
        out.push(Op::new(format!("{nm} keygen({name})"), [&e[..], &k].concat(), move || {
            let (dk, ek) = S::gen_rng(&mut Script::new(&[d, z].concat()));
            [S::ek_bytes(&ek), S::dk_bytes(&dk)].concat()
        }));
    }
    // encapsulation keys that collide in all but one byte of the seed or one coefficient
    let eks = [
        ("key A", ek0.clone()),
        ("key A, last seed byte changed", flip(&ek0, n + 31, 1)),
        ("key A, first seed byte changed", flip(&ek0, n, 1)),
        ("key A, first coefficient changed", mlkem::canonical_ek(&p, &flip(&ek0, 0, 1))),
        ("key A, last coefficient changed", mlkem::canonical_ek(&p, &flip(&ek0, n - 1, 1))),
    ];
    let m0 = [0x11u8; 32];
    let m1: [u8; 32] = flip(&m0, 31, 0x80).try_into().unwrap();
    for (j, (name, e)) in eks.iter().enumerate().take(if level == 0 { 2 } else { 5 }) {
        let key = Rc::new(RefCell::new(S::ek_parse(e)));
        for (mi, m) in [m0, m1].into_iter().enumerate().take(if j < 2 { 2 } else { 1 }) {
            let (c, k) = mlkem::encaps(&p, e, &m);
            let key = key.clone();
            out.push(Op::new(format!("{nm} encaps({name}, m{mi})"), [&c[..], &k].concat(), move || {
                let (c, k) = S::enc_rng(&key.borrow(), &mut Script::new(&m));
                [&c[..], &k].concat()
            }));
        }
        if level == 1 && j == 0 {
            let e2 = e.clone();
            let k2 = key.clone();
            out.push(Op::new(format!("{nm} parse again({name})"), e2.clone(), move || {
                *k2.borrow_mut() = S::ek_parse(&e2);
                S::ek_bytes(&k2.borrow())
            }));
        }
    }
    // decapsulation keys that collide in all but one part
    let dks = [
        ("key A", dk0.clone()),
        ("key A, z changed", flip(&dk0, 2 * n + 95, 1)),
        ("key A, matrix seed changed", flip(&dk0, 2 * n + 31, 1)),
        ("key A, hash changed", flip(&dk0, 2 * n + 32, 1)),
        ("key A, secret changed", mlkem::canonical_dk(&p, &flip(&dk0, 0, 1))),
    ];
    let (c0, _) = mlkem::encaps(&p, &ek0, &m0);
    let (c1, _) = mlkem::encaps(&p, &ek0, &m1);
    let cts = [("honest", c0.clone()), ("honest, last byte changed", flip(&c0, c0.len() - 1, 1)), ("other honest", c1), ("first byte changed", flip(&c0, 0, 1))];
    for (j, (name, b)) in dks.iter().enumerate().take(if level == 0 { 2 } else { 5 }) {
        let key = Rc::new(RefCell::new(S::dk_parse(b)));
        for (cn, c) in cts.iter().take(if j == 0 { 4 } else { 2 }) {
            let want = mlkem::decaps(&p, b, c);
            let (key, c) = (key.clone(), c.clone());
            out.push(Op::new(format!("{nm} decaps({name}, {cn})"), want.to_vec(), move || S::dec(&key.borrow(), &c).to_vec()));
        }
        if j == 0 && level == 1 {
            let (k1, k2, k3, b1) = (key.clone(), key.clone(), key.clone(), b.clone());
            out.push(Op::new(format!("{nm} clone and drop({name})"), b.clone(), move || {
                let c = k1.borrow().clone();
                *k1.borrow_mut() = c;
                S::dk_bytes(&k1.borrow())
            }));
            out.push(Op::new(format!("{nm} parse again({name})"), b.clone(), move || {
                *k2.borrow_mut() = S::dk_parse(&b1);
                S::dk_bytes(&k2.borrow())
            }));
            out.push(Op::new(format!("{nm} public key of({name})"), ek0.clone(), move || S::ek_bytes(S::ek_of(&k3.borrow()))));
        }
    }
    out
}

/// An encapsulation or key generation whose generator runs `inner` at each of its calls.
type Outer = (String, Box<dyn Fn(&mut dyn FnMut(usize)) -> Vec<u8>>, Vec<u8>);

fn outers<S: Scheme>() -> Vec<Outer> {
    let p = S::P;
    let d0: [u8; 32] = stream("C12 d");
    let z0: [u8; 32] = stream("C12 z");
    let (ek0, dk0) = mlkem::keygen(&p, &d0, &z0);
    let m = [0x11u8; 32];
    let (c, k) = mlkem::encaps(&p, &ek0, &m);
    let key = S::ek_parse(&ek0);
    vec![
        (
            format!("{} keygen", p.name()),
            Box::new(move |h: &mut dyn FnMut(usize)| {
                let b = [d0, z0].concat();
                let mut s = Script::new(&b);
                // the script borrows the hook only for this call
                s.hook = Some(unsafe { std::mem::transmute::<&mut dyn FnMut(usize), &mut dyn FnMut(usize)>(h) });
                let (dk, ek) = S::gen_rng(&mut s);
                [S::ek_bytes(&ek), S::dk_bytes(&dk)].concat()
            }),
            [&ek0[..], &dk0].concat(),
        ),
        (
            format!("{} encaps", p.name()),
            Box::new(move |h: &mut dyn FnMut(usize)| {
                let mut s = Script::new(&m);
                s.hook = Some(unsafe { std::mem::transmute::<&mut dyn FnMut(usize), &mut dyn FnMut(usize)>(h) });
                let (c, k) = S::enc_rng(&key, &mut s);
                [&c[..], &k].concat()
            }),
            [&c[..], &k].concat(),
        ),
    ]
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let mixed = Solo({
        let mut v = ops::<S512>(0);
        v.extend(ops::<S768>(0));
        v.extend(ops::<S1024>(0));
        v
    });
    let order = run.pick(3, 3);
    let seq = de_bruijn(mixed.get().len(), order);
    run.history("histories across sets", "every sequence of 3 operations over near-colliding keys of all three sets, as one long history (de Bruijn sequence) in one process", &mixed, &seq, order);
    for i in 0..3u64 {
        with_scheme!(i, S => {
            let one = Solo(ops::<S>(1));
            let seq = de_bruijn(one.get().len(), 3);
            run.history(&format!("histories {}", S::P.name()), "every sequence of 3 operations (key generation, encapsulation, decapsulation of good and bad ciphertexts, parse, clone and drop, serialise) over near-colliding keys", &one, &seq, 3);
            if run.thorough() {
                let few = Solo(ops::<S>(0));
                let seq = de_bruijn(few.get().len(), 4);
                run.history(&format!("longer histories {}", S::P.name()), "every sequence of 4 operations over the core of the alphabet", &few, &seq, 4);
            }
        });
    }
    near_equal::<S512>(run);
    if run.thorough() || !cfg!(feature = "zeroize") {
        near_equal::<S768>(run);
        near_equal::<S1024>(run);
    }
    let outer = Solo([outers::<S512>(), outers::<S768>(), outers::<S1024>()].into_iter().flatten().collect::<Vec<_>>());
    let no = outer.get().len() as u64;
    let ni = mixed.get().len() as u64;
    run.explore_on(
        1,
        "operations inside the generator callback",
        "every drawing operation x every pair of operations run inside its generator callback: the outer and the inner results are all as if alone",
        no * ni * ni,
        |i, t| {
            let (name, f, want) = &outer.get()[(i % no) as usize];
            let inner = [&mixed.get()[(i / no % ni) as usize], &mixed.get()[(i / no / ni) as usize]];
            let mut bad = None;
            let mut n = 0;
            let got = f(&mut |call| {
                let op = inner[call % 2];
                n += 1;
                if let Err(e) = op.exec(|| format!("inside the generator of {name}, call {call}")) {
                    bad.get_or_insert(e);
                }
                if n == 1 {
                    if let Err(e) = inner[1].exec(|| format!("inside the generator of {name}, call {call}, second")) {
                        bad.get_or_insert(e);
                    }
                }
            });
            t.ops(2 + n);
            t.trace();
            if let Some(e) = bad {
                return Err(e);
            }
            expect_eq("nested", &format!("{name} with {} and {} inside its generator", inner[0].name, inner[1].name), &got, want)
        },
    );
    // threads that hand over at the generator calls, sharing the keys
    let depth = run.pick(2u32, 3);
    let n = no.pow(depth);
    run.explore_on(
        1,
        "thread interleavings",
        "all 2-tuples (thorough: 3-tuples) of drawing operations on shared keys in real threads, every schedule of their hand-overs at generator calls, each followed by a decapsulation",
        n,
        |i, t| {
            let pick: Vec<usize> = (0..depth).map(|d| (i / no.pow(d) % no) as usize).collect();
            let bodies: Vec<Box<dyn Fn(&dyn Fn()) -> Vec<u8> + Sync>> = pick
                .iter()
                .map(|&p| {
                    let outer = &outer;
                    let mixed = &mixed;
                    Box::new(move |pause: &dyn Fn()| {
                        let (_, f, _) = &outer.get()[p];
                        let r = f(&mut |_| pause());
                        pause();
                        let last = mixed.get().last().unwrap();
                        if (last.run)() != last.want {
                            panic!("{} differs", last.name);
                        }
                        r
                    }) as Box<dyn Fn(&dyn Fn()) -> Vec<u8> + Sync>
                })
                .collect();
            let refs: Vec<&(dyn Fn(&dyn Fn()) -> Vec<u8> + Sync)> = bodies.iter().map(|b| &**b).collect();
            let k = all_schedules(&refs, |r, sched| {
                for (j, x) in r.iter().enumerate() {
                    let (name, _, want) = &outer.get()[pick[j]];
                    match x {
                        Ok(g) => expect_eq("interleaving", &format!("{name} in thread {j}, schedule {sched:?}"), g, want)?,
                        Err(m) => return fail("interleaving", format!("{name} in thread {j}, schedule {sched:?}: {m}")),
                    }
                }
                Ok(())
            })?;
            t.states += k;
            t.ops(2 * k * depth as u64);
            t.traces += k;
            t.sample(|| format!("{}: {k} schedules", pick.iter().map(|&p| outer.get()[p].0.clone()).collect::<Vec<_>>().join(" || ")));
            Ok(())
        },
    );
    send_sync(run);
}

/// Successive operations on inputs that a careless cache would take for equal.
fn near_equal<S: Scheme>(run: &mut Run) {
    use crate::near::{explore, far, near, Near};
    let p = S::P;
    let nm = p.name();
    let all = run.thorough();
    let base: [u8; 96] = stream("C12 d z m");
    let list: Vec<Near> = near(96, |d| all || d < 32 || d % 8 == 0, 1)
        .into_iter()
        .filter(|a| all || !matches!(a, Near::Xor(_, _, 0x40)))
        .collect();
    let part = |x: &[u8], i: usize| -> [u8; 32] { x[32 * i..32 * i + 32].try_into().unwrap() };
    explore(
        run,
        &format!("near-equal seeds {nm}"),
        "key generation, encapsulation and decapsulation of an honest and an altered ciphertext, from 96 bytes (d, z, m)",
        &base,
        list,
        |x| {
            let (ek, dk) = mlkem::keygen(&p, &part(x, 0), &part(x, 1));
            let (c, k) = mlkem::encaps(&p, &ek, &part(x, 2));
            let bad = mlkem::decaps(&p, &dk, &flip(&c, 7, 1));
            [&ek[..], &dk, &c, &k, &k, &bad].concat()
        },
        |x| {
            let (dk, ek) = S::gen_rng(&mut Script::new(&x[..64]));
            let (c, k) = S::enc_rng(&ek, &mut Script::new(&x[64..]));
            let (k2, k3) = (S::dec(&dk, &c), S::dec(&dk, &flip(&c, 7, 1)));
            [S::ek_bytes(&ek), S::dk_bytes(&dk), c, k.to_vec(), k2.to_vec(), k3.to_vec()].concat()
        },
    );
    let (ek, dk) = mlkem::keygen(&p, &part(&base, 0), &part(&base, 1));
    let m = part(&base, 2);
    let (c, _) = mlkem::encaps(&p, &ek, &m);
    let step = run.pick(16, 1);
    explore(
        run,
        &format!("near-equal encapsulation keys {nm}"),
        "parsing an encapsulation key and encapsulating to it",
        &ek,
        near(ek.len(), far, step),
        |x| {
            let x = mlkem::canonical_ek(&p, x);
            let (c, k) = mlkem::encaps(&p, &x, &m);
            [&x[..], &c, &k].concat()
        },
        |x| {
            let e = S::ek_parse(&mlkem::canonical_ek(&p, x));
            let (c, k) = S::enc_rng(&e, &mut Script::new(&m));
            [S::ek_bytes(&e), c, k.to_vec()].concat()
        },
    );
    explore(
        run,
        &format!("near-equal decapsulation keys {nm}"),
        "parsing a decapsulation key and decapsulating with it",
        &dk,
        near(dk.len(), far, 4 * step),
        |x| mlkem::decaps(&p, &mlkem::canonical_dk(&p, x), &c).to_vec(),
        |x| S::dec(&S::dk_parse(&mlkem::canonical_dk(&p, x)), &c).to_vec(),
    );
    let key = Solo(S::dk_parse(&dk));
    explore(
        run,
        &format!("near-equal ciphertexts {nm}"),
        "decapsulation of a ciphertext",
        &c,
        near(c.len(), far, step),
        |x| mlkem::decaps(&p, &dk, x).to_vec(),
        |x| S::dec(key.get(), x).to_vec(),
    );
}

fn send_sync(run: &mut Run) {
    use ml_kem::kem::{DecapsulationKey, EncapsulationKey};
    use ml_kem::{MlKem1024Params as P4, MlKem512Params as P2, MlKem768Params as P3};
    let got = [
        ("ML-KEM-512 decapsulation key", shareable!(DecapsulationKey<P2>)),
        ("ML-KEM-512 encapsulation key", shareable!(EncapsulationKey<P2>)),
        ("ML-KEM-768 decapsulation key", shareable!(DecapsulationKey<P3>)),
        ("ML-KEM-768 encapsulation key", shareable!(EncapsulationKey<P3>)),
        ("ML-KEM-1024 decapsulation key", shareable!(DecapsulationKey<P4>)),
        ("ML-KEM-1024 encapsulation key", shareable!(EncapsulationKey<P4>)),
    ];
    run.explore("key types across threads", "every key type is Send and Sync", got.len() as u64, |i, t| {
        let (name, (send, sync)) = got[i as usize];
        t.trace();
        if !send || !sync {
            return fail("not-shareable", format!("{name}: Send {send}, Sync {sync}"));
        }
        Ok(())
    });
}
