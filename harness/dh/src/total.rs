//! C15 (DH-KEM part): no secret, peer or generator output makes an operation fail.
use crate::face::Dh;
use crate::script::Script;
use vlib::engine::Run;

fn one<D: Dh>(run: &mut Run) {
    let scalars = D::scalars(true);
    let peers = D::peers();
    let (ns, np) = (scalars.len() as u64, peers.len() as u64);
    run.explore(&format!("{}: secrets and peers", D::NAME), "every secret of the full boundary pool x peers (quick: 8 of them rotating, thorough: all): key generation, encapsulation and decapsulation complete", ns * run.pick(8, np), |i, t| {
        let k = &scalars[(i % ns) as usize];
        let q = &peers[((i / ns * 13 + i % ns) % np) as usize].1;
        let (d, e) = D::keypair(&mut Script::new(k));
        let (c, s) = D::enc(&D::ek(q), &mut Script::new(k));
        let r = D::dec(&d, q);
        let _ = (D::ek_bytes(&e.clone()), c);
        t.ops(4);
        t.trace();
        t.outcome(&r);
        vlib::ensure!(r == s && r.len() == D::LEN, "size", "{}: {} and {} bytes of secret", D::NAME, r.len(), s.len());
        Ok(())
    });
}

pub fn run(run: &mut Run) {
    for i in 0..5 {
        with_dh!(i, D => one::<D>(run));
    }
}
