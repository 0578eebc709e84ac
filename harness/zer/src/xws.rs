use crate::memory::{self, Way};
use crate::Subject;
use kem::{Decapsulate, Encapsulate};
use vlib::engine::Run;
use vlib::rng::stream;
use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};

struct Fill(u8);
impl rand_core::RngCore for Fill {
    fn next_u32(&mut self) -> u32 {
        self.0 as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.fill(self.0)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Fill {}

fn word(v: u64) -> [u8; 32] {
    match v {
        0 => stream("C13 x-wing"),
        1 => [0xff; 32],
        2..=33 => {
            let mut s = [0; 32];
            s[v as usize - 2] = 0x81;
            s
        }
        _ => [1; 32],
    }
}

struct Seed;
impl Subject for Seed {
    type T = DecapsulationKey;
    fn name() -> String {
        "X-Wing decapsulation key".into()
    }
    fn variants() -> u64 {
        36
    }
    fn describe(v: u64) -> String {
        if v == 35 { "generated".into() } else { format!("seed {}", vlib::hex(&word(v))) }
    }
    fn make(v: u64) -> DecapsulationKey {
        if v == 35 { DecapsulationKey::generate(&mut Fill(0x77)) } else { DecapsulationKey::from(word(v)) }
    }
    fn reference(_: u64) -> DecapsulationKey {
        DecapsulationKey::from([0; 32])
    }
    fn ops() -> Vec<(&'static str, Box<dyn Fn(&DecapsulationKey) + Sync>)> {
        let c = [0x33; 1120];
        vec![
            ("decapsulate", Box::new(move |k| drop(std::hint::black_box(k.decapsulate(&Ciphertext::from(&c)))))),
            ("public key", Box::new(|k| drop(std::hint::black_box(k.encapsulation_key())))),
            ("serialise", Box::new(|k| { std::hint::black_box(k.as_bytes()); })),
            ("clone", Box::new(|k| drop(std::hint::black_box(k.clone())))),
        ]
    }
    fn ways() -> Vec<Way<DecapsulationKey>> {
        memory::ways().into_iter().chain(memory::sent()).chain(memory::cloned()).chain(memory::zeroized()).collect()
    }
}

struct Ct;
impl Ct {
    fn bytes(v: u64) -> [u8; 1120] {
        let mut b = [0; 1120];
        match v {
            0 => b = stream("C13 ciphertext"),
            1 => b = [0xff; 1120],
            2 => b[1088..].fill(0x42),
            3 => b[..1088].fill(0x42),
            _ => b[[0, 1, 1086, 1087, 1088, 1118, 1119, 544][v as usize - 4]] = 0x99,
        }
        b
    }
}
impl Subject for Ct {
    type T = Ciphertext;
    fn name() -> String {
        "X-Wing ciphertext".into()
    }
    fn variants() -> u64 {
        13
    }
    fn describe(v: u64) -> String {
        format!("ciphertext {v}")
    }
    fn make(v: u64) -> Ciphertext {
        if v == 12 {
            let k = DecapsulationKey::from([5; 32]).encapsulation_key();
            return k.encapsulate(&mut Fill(9)).unwrap().0;
        }
        Ciphertext::from(&Self::bytes(v))
    }
    fn reference(_: u64) -> Ciphertext {
        Ciphertext::from(&[0; 1120])
    }
    fn ops() -> Vec<(&'static str, Box<dyn Fn(&Ciphertext) + Sync>)> {
        let k = DecapsulationKey::from([5; 32]);
        let k = std::sync::Mutex::new(k);
        vec![
            ("decapsulate", Box::new(move |c| drop(std::hint::black_box(k.lock().unwrap().decapsulate(c))))),
            ("serialise", Box::new(|c| { std::hint::black_box(c.as_bytes()); })),
            ("clone", Box::new(|c| drop(std::hint::black_box(c.clone())))),
            ("compare", Box::new(|c| { std::hint::black_box(c == &Ciphertext::from(&[0; 1120])); })),
        ]
    }
    fn ways() -> Vec<Way<Ciphertext>> {
        memory::ways().into_iter().chain(memory::sent()).chain(memory::cloned()).chain(memory::zeroized()).collect()
    }
}

pub fn run(run: &mut Run) {
    let _ = |k: &EncapsulationKey| k.clone();
    crate::explore::<Seed>(run);
    crate::explore::<Ct>(run);
}
