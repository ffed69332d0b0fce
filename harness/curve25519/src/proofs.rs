//! the curve-generic proof systems running on the wrapper: honest proofs verify, survive their
//! encoding, and false claims or altered proofs are rejected
use crate::*;
use zkp_bulletproofs as bp;
use zkp_spartan::{nizk, snark};

type E = Curve25519;

fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
type Checker = Box<dyn Fn(&[u8], &[Fr]) -> Verdict>;
type Made = Result<(Vec<u8>, usize, Checker), String>;
fn bulletproof(c: &Case<Fr>) -> Made {
    let (g, r, p) = flat(guard(|| bp::create_random_proof::<E, _, _>(c.inst_with(&c.public, &c.aux), &mut Coins::seeded(1))))?;
    let size = p.serialized_size();
    Ok((ser(&p), size, Box::new(move |b, x| match guard(|| bp::Proof::<E>::deserialize(b)) {
        Ok(Ok(p)) => Verdict::of(guard(|| bp::verify_proof(&g, &p, &r, x))),
        Ok(Err(e)) => Verdict::Reject(format!("{:?}", e)),
        Err(e) => Verdict::Crash(e),
    })))
}
fn spartan_snark(c: &Case<Fr>) -> Made {
    let p = flat(guard(|| snark::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1))))?;
    let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash()];
    let (pk, vk) = p.keypair();
    let p = flat(guard(|| snark::create_random_proof(&pk, c.inst_with(&c.public, &c.aux), h[0], h[1], h[2], &mut Coins::seeded(1))))?;
    let size = p.serialized_size();
    Ok((ser(&p), size, Box::new(move |b, x| match guard(|| snark::Proof::<E>::deserialize(b)) {
        Ok(Ok(p)) => Verdict::of(guard(|| snark::verify_proof(&vk, &p, x, h[0], h[1], h[2]))),
        Ok(Err(e)) => Verdict::Reject(format!("{:?}", e)),
        Err(e) => Verdict::Crash(e),
    })))
}
fn spartan_nizk(c: &Case<Fr>) -> Made {
    let p = flat(guard(|| nizk::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1))))?;
    let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash()];
    let (pk, vk) = p.keypair();
    let p = flat(guard(|| nizk::create_random_proof(&pk, c.inst_with(&c.public, &c.aux), h[0], h[1], &mut Coins::seeded(1))))?;
    let size = p.serialized_size();
    Ok((ser(&p), size, Box::new(move |b, x| match guard(|| nizk::Proof::<E>::deserialize(b)) {
        Ok(Ok(p)) => Verdict::of(guard(|| nizk::verify_proof(&vk, &p, x, h[0], h[1]))),
        Ok(Err(e)) => Verdict::Reject(format!("{:?}", e)),
        Err(e) => Verdict::Crash(e),
    })))
}
pub fn run(ctx: &Ctx) {
    let cases: Vec<Case<Fr>> = (0..SHAPES).flat_map(|s| ctx.b(vec![1, 3], vec![1, 2, 3, 5, 8]).into_iter().map(move |n| shaped::<Fr>(s, n, 2, 0))).collect();
    let systems: [(&str, fn(&Case<Fr>) -> Made); 3] = [("bulletproofs", bulletproof), ("spartan snark", spartan_snark), ("spartan nizk", spartan_nizk)];
    let most = ctx.b(40usize, 300);
    ctx.bound(format!("{} relations under each of 3 curve-generic proof systems over the wrapper, honest and with {} evenly spaced bytes of the proof changed", cases.len(), most));
    let jobs: Vec<(usize, usize)> = (0..3).flat_map(|s| (0..cases.len()).map(move |c| (s, c))).collect();
    par_for(&jobs, |_, &(s, c)| {
        let (name, make) = systems[s];
        let c = &cases[c];
        ctx.trace(1);
        match make(c) {
            Err(e) => ctx.violate("prove-fails", || format!("{} {}: {}", name, c.show(), e)),
            Ok((b, size, check)) => {
                ctx.step(1);
                ctx.check(b.len() == size, "proof-size", || format!("{} {}: {} bytes, declared {}", name, c.show(), b.len(), size));
                let v = check(&b, &c.public);
                ctx.check(v.acc(), "honest-proof-rejected", || format!("{} {}: {}", name, c.show(), v.show()));
                if !v.acc() {
                    return;
                }
                for i in 0..c.public.len() {
                    let mut x = c.public.clone();
                    x[i] += Fr::one();
                    ctx.step(1);
                    ctx.check(matches!(check(&b, &x), Verdict::Reject(_)), "wrong-public", || format!("{} {} input {}", name, c.show(), i));
                }
                for i in (0..b.len()).step_by((b.len() / most).max(1)) {
                    let mut x = b.clone();
                    x[i] ^= 1;
                    ctx.step(1);
                    let v = check(&x, &c.public);
                    ctx.check(matches!(v, Verdict::Reject(_)), "altered-proof", || format!("{} {} byte {}: {}", name, c.show(), i, v.show()));
                }
            }
        }
    });
}
