//! C12 (DH-KEM part).
use crate::face::Dh;
use crate::script::Script;
use std::cell::RefCell;
use std::rc::Rc;
use vlib::engine::{expect_eq, fail, Op, Run, Solo};
use vlib::sched::{all_schedules, de_bruijn};

fn ops<D: Dh>(few: bool) -> Vec<Op> {
    let s = D::scalars(false);
    let l = s.len();
    let (a, b, e0, e1) = (s[l - 1].clone(), s[l - 2].clone(), s[l - 3].clone(), s[1].clone());
    let mut out: Vec<Op> = vec![];
    let keys: Vec<_> = [("A", a.clone()), ("B", b.clone())]
        .into_iter()
        .map(|(n, k)| (n, k.clone(), Rc::new(RefCell::new(D::keypair(&mut Script::new(&k))))))
        .collect();
    for (n, k, pair) in &keys {
        let (k2, p2) = (k.clone(), pair.clone());
        let peer = D::public(&e0);
        let peer2 = peer.clone();
        if !few || *n == "A" {
            out.push(Op::new(format!("{} generate {n}", D::NAME), [D::public(k), D::dh2(k, &e0)].concat(), move || {
                *p2.borrow_mut() = D::keypair(&mut Script::new(&k2));
                let p = p2.borrow();
                [D::ek_bytes(&p.1), D::dec(&p.0, &peer2)].concat()
            }));
        }
        for (en, e) in [("e0", &e0), ("e1", &e1)].into_iter().take(if few { 1 } else { 2 }) {
            let (pair, e2) = (pair.clone(), e.clone());
            out.push(Op::new(format!("{} encaps({n}, {en})", D::NAME), [D::public(e), D::dh2(k, e)].concat(), move || {
                let (c, s) = D::enc(&pair.borrow().1, &mut Script::new(&e2));
                [c, s].concat()
            }));
            let (pair, c) = (keys.iter().find(|x| x.0 == *n).unwrap().2.clone(), D::public(e));
            out.push(Op::new(format!("{} decaps({n}, {en})", D::NAME), D::dh2(k, e), move || D::dec(&pair.borrow().0, &c)));
        }
    }
    out
}

type Outer = (String, Box<dyn Fn(&mut dyn FnMut(usize)) -> Vec<u8>>, Vec<u8>);

fn outers<D: Dh>() -> Vec<Outer> {
    let s = D::scalars(false);
    let l = s.len();
    let (a, e) = (s[l - 1].clone(), s[l - 3].clone());
    // one draw out of range first, so that there are two calls
    let pre: Vec<u8> = D::rejected().first().cloned().unwrap_or_default();
    let (d1, d2) = ([&pre[..], &a].concat(), [&pre[..], &e].concat());
    let key = D::keypair(&mut Script::new(&a)).1;
    vec![
        (
            format!("{} key pair generation", D::NAME),
            Box::new(move |h: &mut dyn FnMut(usize)| {
                let mut g = Script::new(&d1);
                // the script borrows the hook only for this call
                g.hook = Some(unsafe { std::mem::transmute::<&mut dyn FnMut(usize), &mut dyn FnMut(usize)>(h) });
                D::ek_bytes(&D::keypair(&mut g).1)
            }),
            D::public(&a),
        ),
        (
            format!("{} encapsulation", D::NAME),
            Box::new(move |h: &mut dyn FnMut(usize)| {
                let mut g = Script::new(&d2);
                g.hook = Some(unsafe { std::mem::transmute::<&mut dyn FnMut(usize), &mut dyn FnMut(usize)>(h) });
                let (c, s) = D::enc(&key, &mut g);
                [c, s].concat()
            }),
            [D::public(&e), D::dh2(&a, &e)].concat(),
        ),
    ]
}

/// Successive operations on inputs that a careless cache would take for equal.
fn near_equal<D: Dh>(run: &mut Run) {
    use crate::near::{explore, near};
    let s = D::scalars(false);
    let l = s.len();
    let other = s[l - 2].clone();
    // within the range whatever is altered
    let mut base: Vec<u8> = vlib::rng::stream::<66>("C12 near-equal scalar")[..D::LEN].to_vec();
    base[0] &= 1;
    base[D::LEN - 1] &= 0x7f;
    let all = run.thorough();
    let list = near(D::LEN, |d| if all { true } else { d % 8 == 0 }, run.pick(3, 1))
        .into_iter()
        .filter(|a| D::in_range(&a.apply(&base)) && (all || !matches!(a, crate::near::Near::Xor(_, _, 0x40))))
        .collect();
    let key = Solo(D::keypair(&mut Script::new(&other)));
    explore(
        run,
        &format!("near-equal scalars {}", D::NAME),
        "generation, encapsulation and decapsulation with a scalar",
        &base,
        list,
        |x| [&D::public(x)[..], &D::public(x), &D::dh2(&other, x), &D::dh2(&other, x)].concat(),
        |x| {
            let (d, e) = D::keypair(&mut Script::new(x));
            let (c, k) = D::enc(&key.get().1, &mut Script::new(x));
            [D::ek_bytes(&e), c, k, D::dec(&d, &D::public(&other))].concat()
        },
    );
}

pub fn run(run: &mut Run) {
    for i in 0..5u64 {
        with_dh!(i, D => near_equal::<D>(run));
    }
    for i in 0..5u64 {
        with_dh!(i, D => {
            let all = Solo(ops::<D>(false));
            let order = run.pick(3, 4);
            let seq = de_bruijn(all.get().len(), order);
            run.history(&format!("histories {}", D::NAME), "every sequence of 3 (thorough: 4) operations (generate, encapsulate, decapsulate) on two keys, as one long history in one process", &all, &seq, order);
        });
    }
    let mixed = Solo((0..5u64).flat_map(|i| with_dh!(i, D => ops::<D>(true))).collect::<Vec<_>>());
    let order = run.pick(2, 3);
    let seq = de_bruijn(mixed.get().len(), order);
    run.history("histories across curves", "every sequence of 2 (thorough: 3) operations across all five curves", &mixed, &seq, order);
    let outer = Solo((0..5u64).flat_map(|i| with_dh!(i, D => outers::<D>())).collect::<Vec<_>>());
    let (no, ni) = (outer.get().len() as u64, mixed.get().len() as u64);
    run.explore_on(1, "operations inside the generator callback", "every drawing operation x every pair of operations (of all curves) run inside its generator callbacks", no * ni * ni, |i, t| {
        let (name, f, want) = &outer.get()[(i % no) as usize];
        let inner = [&mixed.get()[(i / no % ni) as usize], &mixed.get()[(i / no / ni) as usize]];
        let mut bad = None;
        let mut k = 0;
        let got = f(&mut |call| {
            k += 1;
            if let Err(e) = inner[call % 2].exec(|| format!("inside the generator of {name}, call {call}")) {
                bad.get_or_insert(e);
            }
        });
        t.ops(1 + k);
        t.trace();
        if let Some(e) = bad {
            return Err(e);
        }
        expect_eq("nested", &format!("{name} with {} and {} inside its generator", inner[0].name, inner[1].name), &got, want)
    });
    let depth = run.pick(2u32, 3);
    run.explore_on(1, "thread interleavings", "all 2-tuples (thorough: 3-tuples) of drawing operations in real threads, every schedule of their hand-overs at generator calls", no.pow(depth), |i, t| {
        let pick: Vec<usize> = (0..depth).map(|d| (i / no.pow(d) % no) as usize).collect();
        let bodies: Vec<Box<dyn Fn(&dyn Fn()) -> Vec<u8> + Sync>> = pick
            .iter()
            .map(|&p| {
                let outer = &outer;
                Box::new(move |pause: &dyn Fn()| {
                    let r = (outer.get()[p].1)(&mut |_| pause());
                    pause();
                    r
                }) as Box<dyn Fn(&dyn Fn()) -> Vec<u8> + Sync>
            })
            .collect();
        let refs: Vec<&(dyn Fn(&dyn Fn()) -> Vec<u8> + Sync)> = bodies.iter().map(|b| &**b).collect();
        let k = all_schedules(&refs, |r, sched| {
            for (j, x) in r.iter().enumerate() {
                let (name, _, want) = &outer.get()[pick[j]];
                match x {
                    Ok(g) => expect_eq("interleaving", &format!("{name} in thread {j}, schedule {sched:?}"), g, want)?,
                    Err(m) => return fail("interleaving", format!("{name} in thread {j}, schedule {sched:?}: {m}")),
                }
            }
            Ok(())
        })?;
        t.states += k;
        t.ops(2 * k * depth as u64);
        t.traces += k;
        Ok(())
    });
    use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};
    macro_rules! kt {
        ($k:ty) => {
            [
                (concat!(stringify!($k), " decapsulation key"), shareable!(<$k as DhKem>::DecapsulatingKey)),
                (concat!(stringify!($k), " encapsulation key"), shareable!(<$k as DhKem>::EncapsulatingKey)),
            ]
        };
    }
    let mut got = vec![("wrapped byte string (decapsulator)", shareable!(DhDecapsulator<Vec<u8>>)), ("wrapped byte string (encapsulator)", shareable!(DhEncapsulator<Vec<u8>>))];
    got.extend(kt!(dhkem::Secp256k1Kem));
    got.extend(kt!(dhkem::NistP256Kem));
    got.extend(kt!(dhkem::NistP384Kem));
    got.extend(kt!(dhkem::NistP521Kem));
    got.extend(kt!(dhkem::X25519Kem));
    run.explore("key types across threads", "every key type is Send and Sync", got.len() as u64, |i, t| {
        let (name, (send, sync)) = got[i as usize];
        t.trace();
        if !send || !sync {
            return fail("not-shareable", format!("{name}: Send {send}, Sync {sync}"));
        }
        Ok(())
    });
}
