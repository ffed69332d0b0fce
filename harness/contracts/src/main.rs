//! N01: the contract scripts of ckb-contracts, compiled from their own sources against a stand-in for
//! the chain's system calls, driven through transactions and compared with the library verifiers.
use ark_bls12_381::{Bls12_381 as E, Fr};
use ark_ff::{One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly_commit::marlin_pc::MarlinKZG10;
use ark_serialize::*;
use ckb_std::{ckb_constants::Source, error::SysError, within, Tx};
use mccore::*;
use rand::Rng;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};

fn main() {
    mccore::run_main(&[("N01", n01)])
}
type Cells = [Vec<u8>; 3];
const NAMES: [&str; 3] = ["key", "proof", "public"];
/// the library's verdict on the data of the three cells; None: they do not decode
type Lib = fn(&Cells, bool) -> Option<bool>;

struct Script {
    name: &'static str,
    run: fn() -> i8,
    lib: Lib,
    /// honest transactions: (what, cells, statement); equal statements may share proofs
    honest: Vec<(String, Cells, String)>,
    /// transactions made by the prover for something the script must not accept
    foreign: Vec<(String, Cells)>,
    /// the public data in other words: (what, cells)
    lies: Vec<(String, Cells)>,
    /// the cell with the key is read
    keyed: bool,
}

fn transaction(cells: &Cells) -> Tx {
    Tx { cells: cells.iter().enumerate().map(|(i, c)| ((i, Source::Output), Ok(c.clone()))).collect() }
}
/// the script's exit code; a panic aborts the script
fn exit(ctx: &Ctx, s: &Script, tx: Tx) -> i8 {
    ctx.step(1);
    match guard(|| within(tx, s.run)) {
        Ok(c) => c,
        Err(_) => {
            ctx.count("aborts", 1);
            -1
        }
    }
}
fn lib(s: &Script, c: &Cells, strict: bool) -> Option<bool> {
    guard(|| (s.lib)(c, strict)).unwrap_or(None)
}
fn bytes(f: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
    let mut v = vec![];
    f(&mut v);
    v
}
fn fr(x: i64) -> Fr {
    if x < 0 {
        -Fr::from((-x) as u64)
    } else {
        Fr::from(x as u64)
    }
}

/// x * (y + c) = z, `num` times over, with `z` public; as in the repository's own tests for `c` = 2
#[derive(Clone, Copy)]
struct Mini {
    w: Option<(i64, i64)>,
    c: i64,
    num: u32,
}
impl Mini {
    fn z(&self) -> i64 {
        let (x, y) = self.w.unwrap();
        x * (y + self.c)
    }
}
impl ConstraintSynthesizer<Fr> for Mini {
    fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let w = self.w.ok_or(SynthesisError::AssignmentMissing);
        let x = cs.alloc(|| "x", || w.map(|w| fr(w.0)))?;
        let y = cs.alloc(|| "y", || self.w.ok_or(SynthesisError::AssignmentMissing).map(|w| fr(w.1)))?;
        let z = cs.alloc_input(|| "z", || self.w.ok_or(SynthesisError::AssignmentMissing).map(|_| fr(self.z())))?;
        for _ in 0..self.num {
            cs.enforce(|| "m", |lc| lc + x, |lc| lc + y + (fr(self.c), CS::one()), |lc| lc + z);
        }
        Ok(())
    }
}
/// the keys of a scheme for a circuit, and its proofs
trait Universal {
    const LOOSE: bool;
    fn new(m: Mini, r: &mut Coins) -> Self;
    fn key(&self) -> Vec<u8>;
    fn prove(&self, m: Mini, r: &mut Coins) -> Vec<u8>;
}
fn public<U: Universal>(z: Fr) -> Vec<u8> {
    bytes(|b| if U::LOOSE { z.serialize_uncompressed(b).unwrap() } else { z.serialize(b).unwrap() })
}
fn universal<U: Universal>(name: &'static str, run: fn() -> i8, lib: Lib, ctx: &Ctx) -> Script {
    let mut honest = vec![];
    let mut lies = vec![];
    let ws = ctx.b(vec![(2, 3), (0, 1)], vec![(2, 3), (0, 1), (1, 1), (-1, 4), (7, -2), (2, -2)]);
    for (i, (c, num)) in ctx.b(vec![(2, 10), (3, 1)], vec![(2, 10), (3, 1), (2, 1), (0, 3), (-2, 10)]).into_iter().enumerate() {
        let u = U::new(Mini { w: None, c, num }, &mut Coins::seeded(100 + i as u64));
        for (j, w) in ws.iter().enumerate() {
            let m = Mini { w: Some(*w), c, num };
            let mut r = Coins::seeded((i * 10 + j) as u64);
            let cells = [u.key(), u.prove(m, &mut r), public::<U>(fr(m.z()))];
            for z in [m.z() + 1, m.z() - 1, -m.z(), w.0, w.1, 0, 1] {
                if z != m.z() {
                    let mut l = cells.clone();
                    l[2] = public::<U>(fr(z));
                    lies.push((format!("x={} y={} z={} for x*(y+{})=z", w.0, w.1, z, c), l));
                }
            }
            honest.push((format!("x={} y={} for {} times x*(y+{})=z", w.0, w.1, num, c), cells, format!("{}*{}:{}", num, c, m.z())));
        }
    }
    Script { name, run, lib, honest, foreign: vec![], lies, keyed: true }
}
mod groth {
    use super::*;
    use zkp_groth16::*;
    pub struct U(Parameters<E>);
    impl Universal for U {
        const LOOSE: bool = true;
        fn new(m: Mini, r: &mut Coins) -> U {
            U(generate_random_parameters::<E, _, _>(m, r).unwrap())
        }
        fn key(&self) -> Vec<u8> {
            bytes(|b| self.0.vk.serialize_uncompressed(b).unwrap())
        }
        fn prove(&self, m: Mini, r: &mut Coins) -> Vec<u8> {
            let p = create_random_proof(&self.0, m, r).unwrap();
            bytes(|b| p.serialize_uncompressed(b).unwrap())
        }
    }
    pub fn lib(c: &Cells, strict: bool) -> Option<bool> {
        let (vk, p, z) = if strict {
            (VerifyKey::<E>::deserialize_uncompressed(&c[0][..]).ok()?, Proof::<E>::deserialize_uncompressed(&c[1][..]).ok()?, Fr::deserialize_uncompressed(&c[2][..]).ok()?)
        } else {
            (VerifyKey::<E>::deserialize_unchecked(&c[0][..]).ok()?, Proof::<E>::deserialize_unchecked(&c[1][..]).ok()?, Fr::deserialize_unchecked(&c[2][..]).ok()?)
        };
        verify_proof(&prepare_verifying_key(&vk), &p, &[z]).ok()
    }
}
mod marlin {
    use super::*;
    use zkp_marlin::*;
    pub struct U(IndexProverKey<'static, E>, VerifyKey<E>);
    impl Universal for U {
        const LOOSE: bool = false;
        fn new(m: Mini, r: &mut Coins) -> U {
            let srs = Box::leak(Box::new(universal_setup::<E, _>(1 << 8, r).unwrap()));
            let (pk, vk) = index(srs, m).unwrap();
            U(pk, vk)
        }
        fn key(&self) -> Vec<u8> {
            bytes(|b| self.1.serialize(b).unwrap())
        }
        fn prove(&self, m: Mini, r: &mut Coins) -> Vec<u8> {
            let p = create_random_proof(&self.0, m, r).unwrap();
            bytes(|b| p.serialize(b).unwrap())
        }
    }
    pub fn lib(c: &Cells, _: bool) -> Option<bool> {
        let vk = VerifyKey::<E>::deserialize(&c[0][..]).ok()?;
        let p = Proof::<E>::deserialize(&c[1][..]).ok()?;
        verify_proof(&vk, &p, &[Fr::deserialize(&c[2][..]).ok()?]).ok()
    }
}
mod nizk {
    use super::*;
    use zkp_spartan::nizk::*;
    pub struct U(ProveKey<E>, VerifyKey<E>);
    impl Universal for U {
        const LOOSE: bool = false;
        fn new(m: Mini, r: &mut Coins) -> U {
            let (pk, vk) = generate_random_parameters::<E, _, _>(m, r).unwrap().keypair();
            U(pk, vk)
        }
        fn key(&self) -> Vec<u8> {
            bytes(|b| self.1.serialize(b).unwrap())
        }
        fn prove(&self, m: Mini, r: &mut Coins) -> Vec<u8> {
            let (a, b) = (self.1.r1cs.r1cs_to_hash(), self.1.params.param_to_hash());
            let p = create_random_proof(&self.0, m, a, b, r).unwrap();
            bytes(|b| p.serialize(b).unwrap())
        }
    }
    pub fn lib(c: &Cells, _: bool) -> Option<bool> {
        let vk = VerifyKey::<E>::deserialize(&c[0][..]).ok()?;
        let p = Proof::<E>::deserialize(&c[1][..]).ok()?;
        verify_proof(&vk, &p, &[Fr::deserialize(&c[2][..]).ok()?], vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash()).ok()
    }
}
mod snark {
    use super::*;
    use zkp_spartan::snark::*;
    pub struct U(ProveKey<E>, VerifyKey<E>);
    impl Universal for U {
        const LOOSE: bool = false;
        fn new(m: Mini, r: &mut Coins) -> U {
            let (pk, vk) = generate_random_parameters::<E, _, _>(m, r).unwrap().keypair();
            U(pk, vk)
        }
        fn key(&self) -> Vec<u8> {
            bytes(|b| self.1.serialize(b).unwrap())
        }
        fn prove(&self, m: Mini, r: &mut Coins) -> Vec<u8> {
            let (a, b, c) = (self.1.r1cs.r1cs_to_hash(), self.1.params.param_to_hash(), self.1.encode_comm.encode_to_hash());
            let p = create_random_proof(&self.0, m, a, b, c, r).unwrap();
            bytes(|b| p.serialize(b).unwrap())
        }
    }
    pub fn lib(c: &Cells, _: bool) -> Option<bool> {
        let vk = VerifyKey::<E>::deserialize(&c[0][..]).ok()?;
        let p = Proof::<E>::deserialize(&c[1][..]).ok()?;
        let z = Fr::deserialize(&c[2][..]).ok()?;
        verify_proof(&vk, &p, &[z], vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash(), vk.encode_comm.encode_to_hash()).ok()
    }
}
mod bullet {
    use super::*;
    use zkp_bulletproofs::*;
    fn cells(m: Mini, r: &mut Coins) -> Cells {
        let (g, q, p) = create_random_proof::<E, _, _>(m, r).unwrap();
        [
            vec![],
            bytes(|b| {
                g.serialize(&mut *b).unwrap();
                q.serialize(&mut *b).unwrap();
                p.serialize(b).unwrap();
            }),
            bytes(|b| fr(m.z()).serialize(b).unwrap()),
        ]
    }
    fn lib(c: &Cells, _: bool) -> Option<bool> {
        let (g, q, p) = <(Generators<E>, R1csCircuit<E>, Proof<E>)>::deserialize(&c[1][..]).ok()?;
        verify_proof(&g, &p, &q, &[Fr::deserialize(&c[2][..]).ok()?]).ok()
    }
    pub fn script(ctx: &Ctx) -> Script {
        let (mut honest, mut lies, mut foreign) = (vec![], vec![], vec![]);
        for (j, w) in ctx.b(vec![(2, 3), (0, 1)], vec![(2, 3), (0, 1), (1, 1), (-1, 4), (7, -2)]).into_iter().enumerate() {
            let m = Mini { w: Some(w), c: 2, num: 10 };
            let c = cells(m, &mut Coins::seeded(j as u64));
            for z in [m.z() + 1, m.z() - 1, -m.z(), w.0, w.1, 0, 1] {
                if z != m.z() {
                    let mut l = c.clone();
                    l[2] = bytes(|b| fr(z).serialize(b).unwrap());
                    lies.push((format!("x={} y={} z={}", w.0, w.1, z), l));
                }
            }
            honest.push((format!("x={} y={}", w.0, w.1), c, format!("{}", m.z())));
        }
        for (c, num) in [(3, 10), (2, 9), (0, 1)] {
            foreign.push((format!("{} times x*(y+{})=z", num, c), cells(Mini { w: Some((2, 3)), c, num }, &mut Coins::seeded(50))));
        }
        Script { name: "mini_bulletproofs_verifier", run: mini_bulletproofs_verifier::script, lib, honest, foreign, lies, keyed: false }
    }
}
type Layers = Vec<Vec<(u8, usize, usize)>>;
/// the circuit of the repository's own tests
fn layers() -> Layers {
    vec![vec![(0, 1, 2), (1, 0, 4), (1, 3, 4), (1, 4, 4)], vec![(1, 0, 1), (1, 2, 3)], vec![(0, 0, 1)]]
}
/// every circuit one gate away
fn neighbours() -> Vec<(String, Layers)> {
    let mut v = vec![];
    let widths = [8, 4, 2];
    for d in 0..3 {
        for g in 0..layers()[d].len() {
            for alt in 0..3 {
                let mut l = layers();
                let x = &mut l[d][g];
                match alt {
                    0 => x.0 ^= 1,
                    1 => x.1 = (x.1 + 1) % widths[d],
                    _ => x.2 = (x.2 + 1) % widths[d],
                }
                v.push((format!("layer {} gate {} is {:?}", d, g, l[d][g]), l));
            }
        }
    }
    v
}
fn frs(v: &[i64]) -> Vec<Fr> {
    v.iter().map(|x| fr(*x)).collect()
}
/// what the circuit computes on 4 private inputs, then 4 public ones
fn outputs(l: &Layers, input: &[Fr], witness: &[Fr]) -> Vec<Fr> {
    let mut v: Vec<Fr> = witness.iter().chain(input).cloned().collect();
    for layer in l {
        v = layer.iter().map(|g| if g.0 == 0 { v[g.1] + v[g.2] } else { v[g.1] * v[g.2] }).collect();
    }
    v
}
fn points(ctx: &Ctx) -> Vec<(Vec<i64>, Vec<i64>)> {
    let mut v = vec![(vec![2, -10, 1, 0], vec![2, 3, 0, 0]), (vec![0; 4], vec![0; 4]), (vec![1, 2, 3, 4], vec![5, 6, 7, 8])];
    if ctx.thorough() {
        for i in 0..8 {
            let mut a = vec![1; 8];
            a[i] = 3;
            v.push((a[..4].to_vec(), a[4..].to_vec()));
        }
    }
    v
}
mod libra {
    use super::*;
    use zkp_libra::{circuit::Circuit, libra_zk_linear_gkr::ZKLinearGKRProof, params::Parameters};
    fn cells(l: &Layers, input: &[Fr], witness: &[Fr], r: &mut Coins) -> (Cells, Vec<Fr>) {
        let params = Parameters::<E>::new(r, 8);
        let c = Circuit::new(4, 4, l);
        let (p, o) = ZKLinearGKRProof::prover::<_>(&params, &c, &input.to_vec(), &witness.to_vec(), c.circuit_to_hash::<E>(), params.param_to_hash(), r);
        (
            [
                bytes(|b| params.serialize(b).unwrap()),
                bytes(|b| p.serialize(b).unwrap()),
                bytes(|b| (input.to_vec(), o.clone()).serialize(b).unwrap()),
            ],
            o,
        )
    }
    fn lib(c: &Cells, _: bool) -> Option<bool> {
        let params = Parameters::<E>::deserialize(&c[0][..]).ok()?;
        let p = ZKLinearGKRProof::<E>::deserialize(&c[1][..]).ok()?;
        let (i, o) = <(Vec<Fr>, Vec<Fr>)>::deserialize(&c[2][..]).ok()?;
        let k = Circuit::new(4, 4, &layers());
        Some(p.verify(&params, &k, &o, &i, k.circuit_to_hash::<E>(), params.param_to_hash()))
    }
    pub fn script(ctx: &Ctx) -> Script {
        let (mut honest, mut lies, mut foreign) = (vec![], vec![], vec![]);
        for (j, (i, w)) in points(ctx).iter().enumerate() {
            let (c, o) = cells(&layers(), &frs(i), &frs(w), &mut Coins::seeded(j as u64));
            let want = outputs(&layers(), &frs(i), &frs(w));
            ctx.check(o[..want.len()] == want[..], "libra circuit evaluates to something else", || format!("{:?} {:?}", i, w));
            for at in 0..4 + o.len() {
                let (mut a, mut b) = (frs(i), o.clone());
                if at < 4 {
                    a[at] += Fr::one();
                } else {
                    b[at - 4] += Fr::one();
                }
                let mut l = c.clone();
                l[2] = bytes(|v| (a, b).serialize(v).unwrap());
                lies.push((format!("{:?} {:?} with number {} changed", i, w, at), l));
            }
            honest.push((format!("{:?} {:?}", i, w), c, format!("{:?}{:?}", i, w)));
        }
        let (i, w) = (frs(&[1, 2, 3, 4]), frs(&[5, 6, 7, 8]));
        let o = outputs(&layers(), &i, &w);
        for (what, l) in neighbours() {
            // where the other circuit gives the same outputs its proof is for the same statement, but
            // not for the same circuit
            ctx.count(if outputs(&l, &i, &w) == o { "neighbour circuits with equal outputs" } else { "neighbour circuits" }, 1);
            foreign.push((what, cells(&l, &i, &w, &mut Coins::seeded(60)).0));
        }
        Script { name: "mini_libra_zk_linear_gkr_verifier", run: mini_libra_zk_linear_gkr_verifier::script, lib, honest, foreign, lies, keyed: true }
    }
}
mod hyrax {
    use super::*;
    use zkp_hyrax::{circuit::Circuit, hyrax_proof::HyraxProof, params::Parameters};
    type V2 = Vec<Vec<Fr>>;
    fn cells(l: &Layers, input: &V2, witness: &V2, r: &mut Coins) -> (Cells, V2) {
        let params = Parameters::<E>::new(r, 8);
        let c = Circuit::new(4, 4, l);
        let (p, o) = HyraxProof::prover::<_>(&params, witness, input, &c, c.circuit_to_hash::<E>(), params.param_to_hash(), witness.len(), r);
        (
            [
                bytes(|b| params.serialize(b).unwrap()),
                bytes(|b| p.serialize(b).unwrap()),
                bytes(|b| (input.clone(), o.clone()).serialize(b).unwrap()),
            ],
            o,
        )
    }
    fn lib(c: &Cells, _: bool) -> Option<bool> {
        let params = Parameters::<E>::deserialize(&c[0][..]).ok()?;
        let p = HyraxProof::<E>::deserialize(&c[1][..]).ok()?;
        let (i, o) = <(V2, V2)>::deserialize(&c[2][..]).ok()?;
        let k = Circuit::new(4, 4, &layers());
        Some(p.verify(&params, &o, &i, &k, k.circuit_to_hash::<E>(), params.param_to_hash()))
    }
    pub fn script(ctx: &Ctx) -> Script {
        let (mut honest, mut lies, mut foreign) = (vec![], vec![], vec![]);
        let ps = points(ctx);
        for j in 0..ps.len() {
            let two = [&ps[j], &ps[(j + 1) % ps.len()]];
            let i: V2 = two.iter().map(|p| frs(&p.0)).collect();
            let w: V2 = two.iter().map(|p| frs(&p.1)).collect();
            let (c, o) = cells(&layers(), &i, &w, &mut Coins::seeded(j as u64));
            for k in 0..2 {
                let want = outputs(&layers(), &i[k], &w[k]);
                ctx.check(o[k][..want.len()] == want[..], "hyrax circuit evaluates to something else", || format!("{:?}", two[k]));
                for at in 0..4 + o[k].len() {
                    let (mut a, mut b) = (i.clone(), o.clone());
                    if at < 4 {
                        a[k][at] += Fr::one();
                    } else {
                        b[k][at - 4] += Fr::one();
                    }
                    let mut l = c.clone();
                    l[2] = bytes(|v| (a, b).serialize(v).unwrap());
                    lies.push((format!("{:?} with number {} of copy {} changed", two, at, k), l));
                }
            }
            honest.push((format!("{:?}", two), c, format!("{:?}", two)));
        }
        let (i, w) = (vec![frs(&[1, 2, 3, 4]); 2], vec![frs(&[5, 6, 7, 8]); 2]);
        for (what, l) in neighbours() {
            foreign.push((what, cells(&l, &i, &w, &mut Coins::seeded(60)).0));
        }
        Script { name: "mini_hyrax_zk_linear_gkr_verifier", run: mini_hyrax_zk_linear_gkr_verifier::script, lib, honest, foreign, lies, keyed: true }
    }
}
mod plonk {
    use super::*;
    use blake2::Blake2s;
    use zkp_plonk::*;
    type PC = MarlinKZG10<E, DensePolynomial<Fr>>;
    type Inst = Plonk<Fr, Blake2s, PC>;
    /// x + y = s, x * y = p, s and p public
    fn circuit(x: Fr, y: Fr) -> Composer<Fr> {
        let mut cs = Composer::new();
        let (one, zero) = (Fr::one(), Fr::zero());
        let a = cs.alloc_and_assign(x);
        let b = cs.alloc_and_assign(y);
        let s = cs.alloc_and_assign(x + y);
        let p = cs.alloc_and_assign(x * y);
        cs.create_add_gate((a, one), (b, one), s, None, zero, zero);
        cs.create_mul_gate(a, b, p, None, one, zero, zero);
        cs.constrain_to_constant(s, zero, x + y);
        cs.constrain_to_constant(p, zero, x * y);
        cs
    }
    fn lib(c: &Cells, strict: bool) -> Option<bool> {
        let (vk, p, z) = if strict {
            (VerifierKey::<Fr, PC>::deserialize_uncompressed(&c[0][..]).ok()?, Proof::<Fr, PC>::deserialize_uncompressed(&c[1][..]).ok()?, Vec::<Fr>::deserialize_uncompressed(&c[2][..]).ok()?)
        } else {
            (VerifierKey::<Fr, PC>::deserialize_unchecked(&c[0][..]).ok()?, Proof::<Fr, PC>::deserialize_unchecked(&c[1][..]).ok()?, Vec::<Fr>::deserialize_unchecked(&c[2][..]).ok()?)
        };
        Inst::verify(&vk, &z, p).ok()
    }
    pub fn script(ctx: &Ctx) -> Script {
        let (mut honest, mut lies) = (vec![], vec![]);
        let srs = Inst::setup(8, &mut Coins::seeded(7)).unwrap();
        let ks = [fr(1), fr(7), fr(13), fr(17)];
        for (x, y) in ctx.b(vec![(2, 3), (0, 1)], vec![(2, 3), (0, 1), (1, 1), (-1, 4), (7, -2)]) {
            let cs = circuit(fr(x), fr(y));
            let (pk, vk) = Inst::keygen(&srs, &cs, ks).unwrap();
            let p = Inst::prove(&pk, &cs, &mut Coins::seeded(8)).unwrap();
            let z = cs.public_inputs().to_vec();
            let c = [bytes(|b| vk.serialize_unchecked(b).unwrap()), bytes(|b| p.serialize_unchecked(b).unwrap()), bytes(|b| z.serialize_unchecked(b).unwrap())];
            for at in 0..z.len() {
                for d in [fr(1), fr(-1)] {
                    let mut a = z.clone();
                    a[at] += d;
                    let mut l = c.clone();
                    l[2] = bytes(|b| a.serialize_unchecked(b).unwrap());
                    lies.push((format!("x={} y={} with number {} changed", x, y, at), l));
                }
            }
            honest.push((format!("x={} y={}", x, y), c, format!("{:?}", z)));
        }
        Script { name: "universal_plonk_verifier", run: universal_plonk_verifier::script, lib, honest, foreign: vec![], lies, keyed: true }
    }
}

/// one cell's answer
const FAULTS: [&str; 8] = ["absent", "item missing", "short", "encoding", "unknown", "empty", "another cell's data", "honest"];
fn answer(c: &Cells, i: usize, f: usize) -> Option<Result<Vec<u8>, SysError>> {
    Some(match f {
        0 => return None,
        1 => Err(SysError::ItemMissing),
        2 => Err(SysError::LengthNotEnough(8)),
        3 => Err(SysError::Encoding),
        4 => Err(SysError::Unknown(77)),
        5 => Ok(vec![]),
        6 => Ok(c[(i + 1) % 3].clone()),
        _ => Ok(c[i].clone()),
    })
}
fn compare(ctx: &Ctx, s: &Script, what: &str, kind: &str, cells: &Cells) -> i8 {
    let got = exit(ctx, s, transaction(cells));
    ctx.trace(1);
    ctx.check(got != 0 || lib(s, cells, false) == Some(true), &format!("{} accepts what the library refuses", s.name), || format!("{}: {}", what, kind));
    ctx.check(got == 0 || lib(s, cells, true) != Some(true), &format!("{} refuses what the library accepts", s.name), || format!("{}: {} (exit code {})", what, kind, got));
    got
}
fn drive(ctx: &Ctx, s: &Script) {
    // honest transactions, with nothing or anything beside them
    for (what, c, _) in &s.honest {
        ctx.state(&(s.name, what));
        ctx.sample(s.name, || format!("{}: cells of {} {} {} bytes", what, c[0].len(), c[1].len(), c[2].len()));
        let got = compare(ctx, s, what, "honest", c);
        ctx.check(got == 0, &format!("{} refuses an honest proof", s.name), || format!("{}: exit code {}", what, got));
        let mut tx = transaction(c);
        for (i, src) in [(3, Source::Output), (0, Source::Input), (1, Source::Input), (0, Source::CellDep), (0, Source::GroupOutput), (1, Source::GroupInput)] {
            tx.cells.insert(0, ((i, src), Ok(vec![1, 2, 3])));
        }
        let got = exit(ctx, s, tx);
        ctx.check(got == 0, &format!("{} refuses an honest proof", s.name), || format!("{} with other cells around: exit code {}", what, got));
    }
    // the public data says something else
    par_for(&s.lies, |_, (what, c)| {
        ctx.state(&(s.name, what));
        let got = compare(ctx, s, what, "false public data", c);
        ctx.check(got != 0, &format!("{} accepts false public data", s.name), || what.clone());
    });
    // proofs for something else
    par_for(&s.foreign, |_, (what, c)| {
        ctx.state(&(s.name, what));
        let got = exit(ctx, s, transaction(c));
        ctx.trace(1);
        ctx.check(got != 0, &format!("{} accepts a proof for another relation", s.name), || what.clone());
    });
    // the cells of different honest transactions
    let n = s.honest.len();
    let mixes = product(&[n, n, n]);
    par_for(&mixes, |_, m| {
        let c = [s.honest[m[0]].1[0].clone(), s.honest[m[1]].1[1].clone(), s.honest[m[2]].1[2].clone()];
        let got = compare(ctx, s, &format!("cells of {:?}", m), "mixed", &c);
        // a statement may be the same in both; keys may be shared
        let same = |a: usize, b: usize, i: usize| s.honest[a].1[i] == s.honest[b].1[i];
        let fits = (!s.keyed || same(m[0], m[1], 0)) && same(m[1], m[2], 2);
        ctx.check(got != 0 || fits, &format!("{} accepts mixed cells", s.name), || format!("{} / {} / {}", s.honest[m[0]].0, s.honest[m[1]].0, s.honest[m[2]].0));
    });
    // failing system calls
    let (what, c, _) = &s.honest[0];
    let all = product(&[FAULTS.len(); 3]);
    par_for(&all, |_, f| {
        let mut tx = Tx::default();
        for i in 0..3 {
            if let Some(a) = answer(c, i, f[i]) {
                tx.cells.push(((i, Source::Output), a));
            }
            // the honest data is elsewhere
            for src in [Source::Input, Source::CellDep, Source::GroupInput] {
                tx.cells.push(((i, src), Ok(c[i].clone())));
            }
            tx.cells.push(((i + 3, Source::Output), Ok(c[i].clone())));
        }
        let got = exit(ctx, s, tx);
        ctx.trace(1);
        ctx.state(&(s.name, f));
        // a script with a fixed key need not look at its content
        let fine = (0..3).all(|i| f[i] == 7 || (i == 0 && !s.keyed && [5, 6].contains(&f[i])));
        let say = || (0..3).map(|i| format!("{}: {}", NAMES[i], FAULTS[f[i]])).collect::<Vec<_>>().join(", ");
        if fine {
            ctx.check(got == 0, &format!("{} refuses an honest proof", s.name), say);
        } else if f.iter().enumerate().all(|(i, x)| (i == 0 && !s.keyed) || *x == 7) {
            // only the unread key cell fails: either answer is right
            ctx.count("unread cells failing", 1);
        } else {
            ctx.check(got != 0, &format!("{} accepts without its cells", s.name), say);
        }
    });
    // damaged data: every prefix, every byte
    let mut damaged: Vec<(String, Cells)> = vec![];
    for i in 0..3 {
        let len = c[i].len();
        let most = ctx.b([24, 40, 24][i], [80, 240, 80][i]);
        let step = (len + most - 1) / most.max(1);
        let step = step.max(1);
        ctx.count(&format!("bytes of {} data damaged", NAMES[i]), ((len + step - 1) / step) as u64);
        for k in (0..len).step_by(step) {
            for x in ctx.b(vec![0x01u8, 0x80], vec![0x01, 0x40, 0x80]) {
                let mut d = c.clone();
                d[i][k] ^= x;
                damaged.push((format!("byte {} of {} xor {:#x}", k, NAMES[i], x), d));
            }
            let mut d = c.clone();
            d[i].truncate(k);
            damaged.push((format!("{} cut to {} of {}", NAMES[i], k, len), d));
        }
        for k in (len.saturating_sub(34)..len).rev().step_by(ctx.b(11, 1)) {
            let mut d = c.clone();
            d[i].truncate(k);
            damaged.push((format!("{} cut to {} of {}", NAMES[i], k, len), d));
        }
        for k in [1, 8, 32] {
            let mut d = c.clone();
            d[i].extend(vec![0xff; k]);
            damaged.push((format!("{} with {} bytes more", NAMES[i], k), d));
        }
    }
    par_for(&damaged, |_, (kind, d)| {
        ctx.state(&(s.name, kind));
        let got = compare(ctx, s, what, kind, d);
        ctx.check(got != 0 || !kind.contains(" cut to ") || (!s.keyed && d[0] != c[0]), &format!("{} accepts truncated data", s.name), || kind.clone());
        ctx.count(if got == 0 { "damaged data accepted as the library does" } else { "damaged data refused" }, 1);
    });
}
fn n01(ctx: &Ctx) {
    ctx.assume("the scripts run on a stand-in for ckb-std: `load_cell_data` answers from an explored transaction and a panic counts as a refusal (the chain's profile aborts)");
    ctx.bound("the 8 scripts whose proof system is part of the repository; the two clinkv2 scripts have no library here");
    ctx.bound(format!("{} circuits of one public number; the fixed circuits and every circuit one gate away", ctx.b(2, 5)));
    ctx.bound(format!("every assignment of {} answers to the 3 cells; all mixes of honest cells; single-byte alterations and prefixes of each cell ({})", FAULTS.len(), ctx.b("strided", "strided over large keys")));
    let _ = Coins::seeded(0).gen::<u64>();
    let mut scripts = vec![
        universal::<groth::U>("universal_groth16_verifier", universal_groth16_verifier::script, groth::lib, ctx),
        universal::<marlin::U>("universal_marlin_verifier", universal_marlin_verifier::script, marlin::lib, ctx),
        universal::<nizk::U>("universal_spartan_nizk_verifier", universal_spartan_nizk_verifier::script, nizk::lib, ctx),
        universal::<snark::U>("universal_spartan_snark_verifier", universal_spartan_snark_verifier::script, snark::lib, ctx),
    ];
    scripts.push(bullet::script(ctx));
    scripts.push(libra::script(ctx));
    scripts.push(hyrax::script(ctx));
    scripts.push(plonk::script(ctx));
    for s in &scripts {
        let t = ctx.elapsed();
        drive(ctx, s);
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("{}: {:.1}s", s.name, ctx.elapsed() - t);
        }
    }
}
