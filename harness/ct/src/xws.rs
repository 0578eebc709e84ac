use crate::mls::{word, words};
use crate::worker::{Subject, Tape};
use crate::{explore, Input};
use kem::{Decapsulate, Encapsulate};
use std::hint::black_box;
use vlib::engine::Run;
use vlib::rng::stream;
use vlib::xwing;
use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};

/// input: seed, ciphertext
struct Decaps {
    dk: Option<DecapsulationKey>,
    ct: Option<Ciphertext>,
}
impl Subject for Decaps {
    fn set(&mut self, input: &[u8]) {
        let (a, b) = input.split_at(32);
        self.dk = Some(DecapsulationKey::from(<[u8; 32]>::try_from(a).unwrap()));
        self.ct = Some(Ciphertext::from(<&[u8; 1120]>::try_from(b).unwrap()));
    }
    fn run(&mut self) {
        black_box(self.dk.as_ref().unwrap().decapsulate(self.ct.as_ref().unwrap()).unwrap());
    }
}
/// input: encapsulation key, 64 bytes
struct Encaps {
    ek: Option<EncapsulationKey>,
    tape: Tape,
}
impl Subject for Encaps {
    fn set(&mut self, input: &[u8]) {
        let (a, b) = input.split_at(1216);
        self.ek = Some(EncapsulationKey::from(<&[u8; 1216]>::try_from(a).unwrap()));
        self.tape.load(b);
    }
    fn run(&mut self) {
        self.tape.at = 0;
        black_box(self.ek.as_ref().unwrap().encapsulate(&mut self.tape).unwrap());
    }
}

pub fn subject(op: u8) -> Box<dyn Subject> {
    match op {
        30 => Box::new(Decaps { dk: None, ct: None }),
        _ => Box::new(Encaps { ek: None, tape: Tape::new() }),
    }
}

pub fn run(run: &mut Run) {
    let seed: [u8; 32] = stream("C21 x-wing");
    let pk = xwing::public_key(&seed);
    let e0: [u8; 64] = stream("C21 x-wing randomness");
    let honest = xwing::encaps(&pk, &e0).0;
    let input = |what: String, c: &[u8]| Input { what, bytes: [&seed[..], c].concat() };
    let mut cts = vec![input("the honest ciphertext".into(), &honest)];
    for i in 1..words() {
        let mut e = e0;
        e[..32].copy_from_slice(&word(i));
        cts.push(input(format!("honest ciphertext of message {}", vlib::hex(&word(i))), &xwing::encaps(&pk, &e).0));
        let mut c = honest.clone();
        c[1088..].copy_from_slice(&word(i));
        cts.push(input(format!("X25519 part {}", vlib::hex(&word(i))), &c));
    }
    for i in 0..honest.len() {
        if run.thorough() || i % 2 == 1 || i + 40 > honest.len() {
            let mut c = honest.clone();
            c[i] ^= 0x40;
            cts.push(input(format!("byte {i} altered"), &c));
        }
    }
    for b in [0u8, 0xff, 0x80, 1] {
        cts.push(input(format!("all bytes {b:#x}"), &vec![b; honest.len()]));
    }
    explore(run, "X-Wing decapsulation", "honest and altered ciphertexts for one seed", 30, 24, &cts);
    let mut es = vec![];
    for i in 0..words() {
        for half in 0..2 {
            let mut e = e0;
            e[32 * half..32 * half + 32].copy_from_slice(&word(i));
            es.push(Input { what: format!("half {half} of the randomness {}", vlib::hex(&word(i))), bytes: [&pk[..], &e].concat() });
        }
    }
    explore(run, "X-Wing encapsulation", "randomness for one public key", 31, 24, &es);
}
