//! Z01: every encodable object survives a round trip, in all three encodings, on the toy groups
//! and on BLS12-381.
use ark_bls12_381::Bls12_381;
use ark_ec::PairingEngine;
use ark_ff::{PrimeField, SquareRootField};
use ark_serialize::*;
use mccore::toy::*;
use mccore::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Compressed,
    Uncompressed,
    Unchecked,
}
const MODES: [M; 3] = [M::Compressed, M::Uncompressed, M::Unchecked];
fn enc<T: CanonicalSerialize>(t: &T, m: M) -> Result<Vec<u8>, String> {
    flat(guard(|| {
        let mut v = vec![];
        match m {
            M::Compressed => t.serialize(&mut v),
            M::Uncompressed => t.serialize_uncompressed(&mut v),
            M::Unchecked => t.serialize_unchecked(&mut v),
        }
        .map(|_| v)
    }))
}
fn dec<T: CanonicalDeserialize>(b: &mut &[u8], m: M) -> Result<T, String> {
    flat(guard(|| match m {
        M::Compressed => T::deserialize(b),
        M::Uncompressed => T::deserialize_uncompressed(b),
        M::Unchecked => T::deserialize_unchecked(b),
    }))
}
struct Z<'a> {
    ctx: &'a Ctx,
    curve: &'static str,
    /// kind of object -> encoding -> (behaviour, which object)
    seen: Mutex<BTreeMap<String, BTreeMap<Vec<u8>, (String, String)>>>,
    /// encodings up to this length: every position; longer ones: two positions per `stride`
    limit: usize,
    stride: usize,
}
impl<'a> Z<'a> {
    /// `behave`: what can be observed of the object; what stands before a line break belongs to
    /// the object alone
    fn trip<T: CanonicalSerialize + CanonicalDeserialize>(&self, kind: &str, which: &str, t: &T, behave: &dyn Fn(&T) -> String) {
        let ctx = self.ctx;
        let bad = |m: M, what: &str, detail: String| {
            ctx.violate(&format!("{}: {} ({:?})", kind, what, m), || format!("{} {}: {}", self.curve, which, detail));
        };
        let honest = behave(t);
        for m in MODES {
            ctx.trace(1);
            let b = match enc(t, m) {
                Ok(b) => b,
                Err(e) => {
                    bad(m, "encoding fails", e);
                    continue;
                }
            };
            ctx.count("objects encoded", 1);
            let size = guard(|| if m == M::Compressed { t.serialized_size() } else { t.uncompressed_size() });
            ctx.check(size == Ok(b.len()), &format!("{}: declared size ({:?})", kind, m), || format!("{} {}: declared {:?}, encoded {}", self.curve, which, size, b.len()));
            // with foreign bytes behind: decoding consumes exactly what encoding produced
            let mut long = b.clone();
            long.extend_from_slice(&[0xa5; 9]);
            let mut r = &long[..];
            match dec::<T>(&mut r, m) {
                Err(e) => bad(m, "decoding fails", e),
                Ok(u) => {
                    ctx.check(r.len() == 9, &format!("{}: bytes consumed ({:?})", kind, m), || format!("{} {}: {} left over of 9", self.curve, which, r.len()));
                    for n in MODES {
                        let again = enc(&u, n);
                        ctx.check(again == enc(t, n), &format!("{}: re-encoding differs ({:?} -> {:?})", kind, m, n), || format!("{} {}", self.curve, which));
                    }
                    let got = behave(&u);
                    ctx.check(got == honest, &format!("{}: behaviour differs after decoding ({:?})", kind, m), || format!("{} {}: {} / {}", self.curve, which, cut(&honest), cut(&got)));
                }
            }
            // every truncation
            let whole = b.len() <= self.limit;
            for k in 0..b.len() {
                if !whole && k % self.stride > 1 && k > 4 * self.stride && k + 4 * self.stride < b.len() {
                    continue;
                }
                ctx.step(1);
                let mut r = &b[..k];
                match dec::<T>(&mut r, m) {
                    Err(e) if e.contains("panic") => {
                        bad(m, "decoding a truncation panics", format!("{} of {} bytes: {}", k, b.len(), e));
                        break;
                    }
                    Err(_) => ctx.count("truncations refused", 1),
                    Ok(_) => {
                        bad(m, "truncation accepted", format!("{} of {} bytes", k, b.len()));
                        break;
                    }
                }
            }
            // every single-byte change: another object or none, never the same one. The
            // unvalidated decoder is for trusted bytes, and validates nothing
            // (on a real curve the point at infinity is encoded as a flag next to ignored bytes)
            if m != M::Unchecked && self.curve == "toy" {
                for k in 0..b.len() {
                    if !whole && k % self.stride > 1 && k > 4 * self.stride && k + 4 * self.stride < b.len() {
                        continue;
                    }
                    for d in [1u8, 2] {
                        ctx.step(1);
                        let mut c = b.clone();
                        c[k] ^= d;
                        // element counts beyond the data make the decoder reserve memory: the
                        // change of a high byte of a count is not tried
                        let mut r = &c[..];
                        if let Ok(u) = dec::<T>(&mut r, m) {
                            ctx.count("altered encodings decoded", 1);
                            if r.is_empty() && enc(&u, m).as_ref() == Ok(&b) {
                                bad(m, "altered encoding decodes to the same object", format!("byte {} xor {} of {}", k, d, b.len()));
                                break;
                            }
                        } else {
                            ctx.count("altered encodings refused", 1);
                        }
                    }
                }
            }
            ctx.state(&(kind.to_string(), m as u8, b.clone()));
            let mut s = self.seen.lock().unwrap();
            let e = s.entry(format!("{} {:?}", kind, m)).or_default();
            let alone = honest.split('\n').next().unwrap().to_string();
            if let Some((h, w)) = e.get(&b) {
                ctx.check(*h == alone, &format!("{}: two objects, one encoding ({:?})", kind, m), || format!("{} {} and {}", self.curve, which, w));
            } else {
                e.insert(b, (alone, which.into()));
            }
        }
    }
}
fn cut(s: &str) -> String {
    s.chars().take(120).collect()
}
fn show<T: std::fmt::Debug>(t: &T) -> String {
    format!("{:?}", t)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn own<T: CanonicalSerialize>(t: &T) -> String {
    enc(t, M::Compressed).map(|b| hex(&b)).unwrap_or_else(|e| e)
}
/// public inputs to try: the right ones, and each of them changed, one missing, one more
fn tries<F: PrimeField>(p: &[F]) -> Vec<Vec<F>> {
    let mut v = vec![p.to_vec()];
    for i in 0..p.len() {
        let mut q = p.to_vec();
        q[i] += F::one();
        v.push(q);
    }
    if !p.is_empty() {
        v.push(p[1..].to_vec());
    }
    let mut q = p.to_vec();
    q.push(F::zero());
    v.push(q);
    v
}
fn verdicts<F: PrimeField>(p: &[F], f: impl Fn(&[F]) -> Verdict) -> String {
    tries(p).iter().map(|q| if f(q).acc() { 'A' } else { 'r' }).collect()
}
fn groth16<E: PairingEngine>(z: &Z, c: &Case<E::Fr>) {
    use zkp_groth16::*;
    let w = c.show();
    let ctx = z.ctx;
    let p = match flat(guard(|| generator::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1)))) {
        Ok(p) => p,
        Err(_) => return ctx.count("no parameters", 1),
    };
    let prove = |p: &Parameters<E>| flat(guard(|| create_random_proof(p, c.inst(), &mut Coins::seeded(2))));
    let pr = match prove(&p) {
        Ok(p) => p,
        Err(_) => return ctx.count("no proof", 1),
    };
    let judge = |vk: &VerifyKey<E>, pr: &Proof<E>| {
        let k = prepare_verifying_key(vk);
        verdicts(&c.public, |q| Verdict::of(guard(|| verify_proof(&k, pr, q))))
    };
    z.trip("groth16 Parameters", &w, &p, &|x| format!("{}\n{} {}", show(x), *x == p, prove(x).map(|q| show(&q)).unwrap_or_else(|e| e)));
    z.trip("groth16 VerifyKey", &w, &p.vk, &|x| format!("{}\n{} {}", show(x), *x == p.vk, judge(x, &pr)));
    z.trip("groth16 Proof", &w, &pr, &|x| format!("{}\n{} {}", show(x), *x == pr, judge(&p.vk, x)));
    z.trip("groth16 default VerifyKey", "", &VerifyKey::<E>::default(), &show);
}
fn marlin<E: PairingEngine>(z: &Z, c: &Case<E::Fr>) {
    use zkp_marlin::*;
    let w = c.show();
    let ctx = z.ctx;
    let r = flat(guard(|| universal_setup::<E, _>(mc_marlin::degree(&c.rel), &mut Coins::seeded(1))));
    let srs = match r {
        Ok(p) => p,
        Err(_) => return ctx.count("no parameters", 1),
    };
    let (pk, vk) = match flat(guard(|| index(&srs, c.blank()))) {
        Ok(p) => p,
        Err(_) => return ctx.count("no parameters", 1),
    };
    let pr = match flat(guard(|| create_random_proof(&pk, c.inst(), &mut Coins::seeded(2)))) {
        Ok(p) => p,
        Err(_) => return ctx.count("no proof", 1),
    };
    let judge = |vk: &IndexVerifierKey<E>, pr: &Proof<E>| verdicts(&c.public, |q| Verdict::of(guard(|| verify_proof(vk, pr, q))));
    z.trip("marlin IndexVerifierKey", &w, &vk, &|x| format!("{}\n{}", show(x), judge(x, &pr)));
    z.trip("marlin Proof", &w, &pr, &|x| format!("{}\n{}", show(x), judge(&vk, x)));
    z.trip("marlin IndexInfo", &w, &vk.index_info, &show);
    z.trip("marlin VerifierKey", &w, &vk.verifier_key, &show);
    z.trip("marlin CommitterKey", &w, &pk.committer_key, &|x| {
        let k = IndexProverKey { index: pk.index.clone(), index_rands: pk.index_rands.clone(), index_verifier_key: vk.clone(), committer_key: x.clone() };
        format!("{}\n{}", show(x), flat(guard(|| create_random_proof(&k, c.inst(), &mut Coins::seeded(2)))).map(|p| show(&p)).unwrap_or_else(|e| e))
    });
    for r in &pr.commitments {
        for k in r {
            z.trip("marlin Commitment", &w, k, &show);
        }
    }
    for k in &pr.opening_proofs {
        z.trip("marlin pc::Proof", &w, k, &show);
    }
    for p in pk.index.iter() {
        z.trip("marlin LabeledPolynomial", &w, p, &|x| format!("{} {:?} {:?} {:?}", x.label(), x.degree_bound(), x.hiding_bound(), x.polynomial().coeffs));
    }
}
fn bulletproofs<E: PairingEngine>(z: &Z, c: &Case<E::Fr>)
where
    E::Fr: SquareRootField + From<u32>,
{
    use zkp_bulletproofs::arithmetic_circuit::*;
    let w = c.show();
    let (g, r, pr) = match flat(guard(|| create_random_proof::<E, _, _>(c.inst(), &mut Coins::seeded(2)))) {
        Ok(p) => p,
        Err(_) => return z.ctx.count("no proof", 1),
    };
    let judge = |g: &Generators<E>, r: &R1csCircuit<E>, pr: &Proof<E>| verdicts(&c.public, |q| Verdict::of(guard(|| verify_proof(g, pr, r, q))));
    z.trip("bulletproofs Generators", &w, &g, &|x| format!("{}\n{}", own(x), judge(x, &r, &pr)));
    z.trip("bulletproofs R1csCircuit", &w, &r, &|x| format!("{:?} {:?} {:?} {:?} {:?} {:?}\n{}", x.CL, x.CR, x.CO, x.CL_T, x.CR_T, x.CO_T, judge(&g, x, &pr)));
    z.trip("bulletproofs Proof", &w, &pr, &|x| format!("{}\n{}", own(x), judge(&g, &r, x)));
}
fn spartan<E: PairingEngine>(z: &Z, c: &Case<E::Fr>, snark: bool)
where
    E::Fr: SquareRootField + From<u32>,
{
    use zkp_r1cs::Index;
    use zkp_spartan::r1cs::R1CSInstance;
    let w = c.show();
    let ctx = z.ctx;
    let rel = |r: &R1CSInstance<E>| {
        let m = |m: &Vec<Vec<(E::Fr, Index)>>| format!("{:?}", m);
        format!("{} {} {} {} {} {}", r.num_inputs, r.num_aux, r.num_constraints, m(&r.a_matrix), m(&r.b_matrix), m(&r.c_matrix))
    };
    {
        use zkp_spartan::nizk::*;
        let gen = || flat(guard(|| generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1))));
        let p = match gen() {
            Ok(p) => p,
            Err(_) => return ctx.count("no parameters", 1),
        };
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash()];
        let run = |pk: &ProveKey<E>, h: &[E::Fr; 2]| flat(guard(|| create_random_proof(pk, c.inst(), h[0], h[1], &mut Coins::seeded(2))));
        let judge = |vk: &VerifyKey<E>, h: &[E::Fr; 2], pr: &Proof<E>| verdicts(&c.public, |q| Verdict::of(guard(|| verify_proof(vk, pr, q, h[0], h[1]))));
        let hash = |r: &R1CSInstance<E>, p: &zkp_spartan::data_structure::NizkParameters<E>| [r.r1cs_to_hash(), p.param_to_hash()];
        z.trip("spartan nizk Parameters", &w, &p, &|x| format!("{:?} {} {}", hash(&x.r1cs, &x.params), rel(&x.r1cs), own(&x.params)));
        z.trip("spartan R1CSInstance", &w, &p.r1cs, &|x| format!("{} {:?}", rel(x), x.r1cs_to_hash()));
        let (pk, vk) = p.keypair();
        let pr = match run(&pk, &h) {
            Ok(p) => p,
            Err(_) => return ctx.count("no proof", 1),
        };
        z.trip("spartan nizk ProveKey", &w, &pk, &|x| format!("{}\n{:?}", rel(&x.r1cs), run(x, &hash(&x.r1cs, &x.params)).map(|p| own(&p))));
        z.trip("spartan nizk VerifyKey", &w, &vk, &|x| format!("{}\n{}", rel(&x.r1cs), judge(x, &hash(&x.r1cs, &x.params), &pr)));
        z.trip("spartan nizk Proof", &w, &pr, &|x| format!("{}\n{}", own(x), judge(&vk, &h, x)));
    }
    if snark {
        use zkp_spartan::data_structure::{EncodeCommit, SnarkParameters};
        use zkp_spartan::snark::*;
        let p = match flat(guard(|| generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1)))) {
            Ok(p) => p,
            Err(_) => return ctx.count("no parameters", 1),
        };
        type H<E> = [<E as PairingEngine>::Fr; 3];
        let hash = |r: &R1CSInstance<E>, p: &SnarkParameters<E>, e: &EncodeCommit<E>| [r.r1cs_to_hash(), p.param_to_hash(), e.encode_to_hash()];
        let h = hash(&p.r1cs, &p.params, &p.encode_comm);
        let run = |pk: &ProveKey<E>, h: &H<E>| flat(guard(|| create_random_proof(pk, c.inst(), h[0], h[1], h[2], &mut Coins::seeded(2))));
        let judge = |vk: &VerifyKey<E>, h: &H<E>, pr: &Proof<E>| verdicts(&c.public, |q| Verdict::of(guard(|| verify_proof(vk, pr, q, h[0], h[1], h[2]))));
        z.trip("spartan snark Parameters", &w, &p, &|x| format!("{:?} {} {} {}", hash(&x.r1cs, &x.params, &x.encode_comm), rel(&x.r1cs), own(&x.params), own(&x.encode)));
        z.trip("spartan EncodeMemory", &w, &p.encode, &own);
        z.trip("spartan EncodeCommit", &w, &p.encode_comm, &|x| format!("{:?} {}", x.encode_to_hash(), own(x)));
        let (pk, vk) = p.keypair();
        let pr = match run(&pk, &h) {
            Ok(p) => p,
            Err(_) => return ctx.count("no proof", 1),
        };
        z.trip("spartan snark ProveKey", &w, &pk, &|x| format!("{}\n{:?}", rel(&x.r1cs), run(x, &hash(&x.r1cs, &x.params, &x.encode_comm)).map(|p| own(&p))));
        z.trip("spartan snark VerifyKey", &w, &vk, &|x| format!("{}\n{}", rel(&x.r1cs), judge(x, &hash(&x.r1cs, &x.params, &x.encode_comm), &pr)));
        z.trip("spartan snark Proof", &w, &pr, &|x| format!("{}\n{}", own(x), judge(&vk, &h, x)));
    }
}
fn plonk(z: &Z, c: &Case<FBig>) {
    use mc_plonk as pl;
    let w = c.show();
    let cs = pl::compile(&c.rel, &c.public, &c.aux);
    let (pk, vk) = match pl::keys(&cs, 1) {
        Ok(k) => k,
        Err(_) => return z.ctx.count("no parameters", 1),
    };
    let pr = match pl::prove(&pk, &cs, 2) {
        Ok(k) => k,
        Err(_) => return z.ctx.count("no proof", 1),
    };
    let pi = cs.public_inputs().to_vec();
    let judge = |vk: &pl::Vk, pr: &zkp_plonk::Proof<FBig, pl::PC>| verdicts(&pi, |q| pl::verify(vk, q, pr));
    z.trip("plonk VerifierKey", &w, &vk, &|x| format!("{:?} {:?} {:?} {:?}\n{}", x.info, x.labels, x.comms, own(&x.rk), judge(x, &pr)));
    z.trip("plonk Proof", &w, &pr, &|x| format!("{:?} {:?} {}\n{}", x.commitments, x.evaluations, own(&x.pc_proof), judge(&vk, x)));
    z.trip("plonk IndexInfo", &w, &vk.info, &show);
}
fn layered<E: PairingEngine>(z: &Z, c: &LCase<E::Fr>)
where
    E::Fr: SquareRootField + From<u32>,
{
    let w = c.show();
    {
        use zkp_libra::{circuit::Circuit, libra_linear_gkr::LinearGKRProof, libra_zk_linear_gkr::ZKLinearGKRProof, params::Parameters};
        let k = Circuit::new(c.c.ni, c.c.na, &c.c.layers);
        let ch = k.circuit_to_hash::<E>();
        let n = if z.curve == "toy" { 8 } else { 4 };
        let pp = Parameters::<E>::new(&mut Coins::seeded(3), n);
        let run = |p: &Parameters<E>| guard(|| ZKLinearGKRProof::<E>::prover(p, &k, &c.inputs[0], &c.aux[0], ch, p.param_to_hash(), &mut Coins::seeded(2)));
        if let Ok((pr, out)) = run(&pp) {
            let judge = |p: &Parameters<E>, x: &ZKLinearGKRProof<E>| verdicts(&c.inputs[0], |q| Verdict::of(guard(|| x.verify(p, &k, &out, &q.to_vec(), ch, p.param_to_hash())).map(Ok::<bool, String>)));
            z.trip("libra Parameters", &w, &pp, &|x| format!("{}\n{} {:?}", own(x), judge(x, &pr), run(x).map(|r| own(&r.0))));
            z.trip("libra ZKLinearGKRProof", &w, &pr, &|x| format!("{}\n{}", own(x), judge(&pp, x)));
        }
        if let Ok((pr, _)) = guard(|| LinearGKRProof::<E>::prover(&k, &c.inputs[0], &c.aux[0], ch)) {
            for l in &pr.proofs {
                for s in [&l.proof_phase_one, &l.proof_phase_two] {
                    z.trip("libra SumCheckProof", &w, s, &|x| format!("{:?} {:?}", x.polys.iter().map(|p| p.coeffs.clone()).collect::<Vec<_>>(), x.poly_value_at_r));
                }
            }
        }
    }
    {
        use zkp_hyrax::{circuit::Circuit, hyrax_proof::HyraxProof, params::Parameters};
        let k = Circuit::new(c.c.ni, c.c.na, &c.c.layers);
        let ch = k.circuit_to_hash::<E>();
        let pp = Parameters::<E>::new(&mut Coins::seeded(3), if z.curve == "toy" { 9 } else { 4 });
        let run = |p: &Parameters<E>| guard(|| HyraxProof::<E>::prover(p, &c.aux, &c.inputs, &k, ch, p.param_to_hash(), c.aux.len(), &mut Coins::seeded(2)));
        if let Ok((pr, out)) = run(&pp) {
            let judge = |p: &Parameters<E>, x: &HyraxProof<E>| {
                verdicts(&c.inputs[0], |q| {
                    let mut i = c.inputs.clone();
                    i[0] = q.to_vec();
                    Verdict::of(guard(|| x.verify(p, &out, &i, &k, ch, p.param_to_hash())).map(Ok::<bool, String>))
                })
            };
            z.trip("hyrax Parameters", &w, &pp, &|x| format!("{}\n{} {:?}", own(x), judge(x, &pr), run(x).map(|r| own(&r.0))));
            z.trip("hyrax HyraxProof", &w, &pr, &|x| format!("{}\n{}", own(x), judge(&pp, x)));
        }
    }
}
fn curve25519(z: &Z) {
    use ark_ec::AffineCurve;
    use zkp_curve25519::Curve25519Point;
    let g = <Curve25519Point as AffineCurve>::prime_subgroup_generator();
    let mut p = g;
    for i in 0..12 {
        z.trip("curve25519 point", &format!("{} G", i + 1), &p, &|x| format!("{}", *x == p));
        p = p + g;
    }
}
pub fn z01(ctx: &Ctx) {
    ctx.assume("toy groups carry a separate uncompressed form; one pairing-friendly curve (BLS12-381) stands for the real ones");
    let cases: Vec<Case<FBig>> = {
        let mut v = sweep::<FBig>(ctx.b(2, 4), &[0, 1, 3]);
        v.extend((0..SHAPES).map(|k| shaped(k, ctx.b(5, 9), 2, 1)));
        v
    };
    let real: Vec<Case<<Bls12_381 as PairingEngine>::Fr>> = {
        let mut v = vec![shaped(0, 1, 1, 0), shaped(1, 3, 2, 0)];
        if ctx.thorough() {
            v.push(shaped(6, 3, 0, 1));
            v.extend((0..SHAPES).map(|k| shaped(k, 3, 2, 0)));
        }
        v
    };
    ctx.bound(format!("toy groups: {} relations, each through groth16, marlin, bulletproofs, both spartans and plonk; {} relations on BLS12-381; layered circuits through libra and hyrax; every truncation and every change of one of the two lowest bits of a byte (long encodings and real curves: a regular subset of positions)", cases.len(), real.len()));
    let z = Z { ctx, curve: "toy", seen: Default::default(), limit: ctx.b(6000, 60000), stride: 8 };
    par_for(&cases, |_, c| {
        groth16::<EBig>(&z, c);
        marlin::<EBig>(&z, c);
        bulletproofs::<EBig>(&z, c);
        spartan::<EBig>(&z, c, c.rel.cons.len() < 4);
        plonk(&z, c);
    });
    let ls: Vec<LCase<FBig>> = patterned(&[(1, 1), (2, 3)], &[1, 3], 2, 1).iter().take(ctx.b(6, 40)).flat_map(|c| [values::<FBig>(c, 1, 0), values::<FBig>(c, 2, 1)]).collect();
    par_for(&ls, |_, c| layered::<EBig>(&z, c));
    for i in 0..5usize {
        for x in [zkp_r1cs::Index::Input(i), zkp_r1cs::Index::Aux(i)] {
            z.trip("r1cs Index", &format!("{:?}", x), &x, &show);
        }
    }
    curve25519(&z);
    let z = Z { ctx, curve: "bls12-381", seen: Default::default(), limit: ctx.b(0, 600), stride: ctx.b(48, 16) };
    let jobs: Vec<(usize, usize)> = tuples(&[0, 1, 2, 3], 1).iter().flat_map(|k| (0..real.len()).map(|i| (i, k[0])).collect::<Vec<_>>()).collect();
    par_for(&jobs, |_, (i, k)| {
        let c = &real[*i];
        match *k {
            0 => groth16::<Bls12_381>(&z, c),
            1 => marlin::<Bls12_381>(&z, c),
            2 => bulletproofs::<Bls12_381>(&z, c),
            _ => spartan::<Bls12_381>(&z, c, c.rel.cons.len() < ctx.b(2, 4)),
        }
    });
    let ls: Vec<LCase<<Bls12_381 as PairingEngine>::Fr>> = patterned(&[(1, 1)], &[1], 1, 1).iter().take(ctx.b(1, 4)).map(|c| values(c, 1, 0)).collect();
    par_for(&ls, |_, c| layered::<Bls12_381>(&z, c));
}
