//! Reference R1CS model: tiny relations, their direct semantics, and their synthesis into the
//! code under test.
use ark_ff::Field;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

/// Linear combination over variable numbers: 0 = constant one, 1..=n_pub public, then aux.
/// Terms may repeat a variable; the meaning is the sum.
pub type L = Vec<(usize, i64)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rel {
    pub n_pub: usize,
    pub n_aux: usize,
    pub cons: Vec<[L; 3]>,
}
pub fn fi<F: Field>(v: i64) -> F {
    if v >= 0 {
        F::from(v as u64)
    } else {
        -F::from((-v) as u64)
    }
}
impl Rel {
    pub fn lc_val<F: Field>(l: &L, z: &[F]) -> F {
        l.iter().fold(F::zero(), |a, (v, c)| a + z[*v] * fi::<F>(*c))
    }
    /// z = (1, public..., aux...)
    pub fn sat<F: Field>(&self, z: &[F]) -> bool {
        self.cons
            .iter()
            .all(|c| Self::lc_val(&c[0], z) * Self::lc_val(&c[1], z) == Self::lc_val(&c[2], z))
    }
    pub fn z<F: Field>(public: &[F], aux: &[F]) -> Vec<F> {
        let mut z = vec![F::one()];
        z.extend_from_slice(public);
        z.extend_from_slice(aux);
        z
    }
    pub fn inst<F: Field>(&self, a: Option<(&[F], &[F])>) -> Inst<F> {
        Inst {
            rel: self.clone(),
            public: a.map(|x| x.0.to_vec()),
            aux: a.map(|x| x.1.to_vec()),
            order: 0,
        }
    }
    pub fn show(&self) -> String {
        let l = |l: &L| {
            if l.is_empty() {
                "0".to_string()
            } else {
                l.iter()
                    .map(|(v, c)| {
                        let n = if *v == 0 {
                            "1".to_string()
                        } else if *v <= self.n_pub {
                            format!("p{}", v)
                        } else {
                            format!("w{}", v - self.n_pub)
                        };
                        if *c == 1 { n } else { format!("{}*{}", c, n) }
                    })
                    .collect::<Vec<_>>()
                    .join("+")
            }
        };
        format!(
            "pub={} aux={} {{{}}}",
            self.n_pub,
            self.n_aux,
            self.cons
                .iter()
                .map(|c| format!("({})*({})=({})", l(&c[0]), l(&c[1]), l(&c[2])))
                .collect::<Vec<_>>()
                .join("; ")
        )
    }
}
#[derive(Clone, Debug)]
pub struct Inst<F: Field> {
    pub rel: Rel,
    pub public: Option<Vec<F>>,
    pub aux: Option<Vec<F>>,
    /// allocation order: 0 = publics first, 1 = witnesses first, 2 = alternating
    pub order: u8,
}
impl<F: Field> ConstraintSynthesizer<F> for Inst<F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let (np, na) = (self.rel.n_pub, self.rel.n_aux);
        let mut vars: Vec<Variable> = vec![CS::one(); 1 + np + na];
        let seq: Vec<usize> = match self.order {
            0 => (1..1 + np + na).collect(),
            1 => (1 + np..1 + np + na).chain(1..1 + np).collect(),
            _ => {
                let mut s = vec![];
                for i in 0..np.max(na) {
                    if i < na {
                        s.push(1 + np + i);
                    }
                    if i < np {
                        s.push(1 + i);
                    }
                }
                s
            }
        };
        for k in seq {
            if k <= np {
                let i = k - 1;
                let v = self.public.as_ref().map(|p| p[i]);
                vars[k] = cs.alloc_input(|| format!("p{}", i), || v.ok_or(SynthesisError::AssignmentMissing))?;
            } else {
                let i = k - 1 - np;
                let v = self.aux.as_ref().map(|p| p[i]);
                vars[k] = cs.alloc(|| format!("w{}", i), || v.ok_or(SynthesisError::AssignmentMissing))?;
            }
        }
        for (k, c) in self.rel.cons.iter().enumerate() {
            let add = |mut lc: LinearCombination<F>, l: &L| {
                for (v, co) in l {
                    lc = lc + (fi::<F>(*co), vars[*v]);
                }
                lc
            };
            cs.enforce(|| format!("c{}", k), |lc| add(lc, &c[0]), |lc| add(lc, &c[1]), |lc| add(lc, &c[2]));
        }
        Ok(())
    }
}

/// A recording constraint system: stores everything synthesised so that a reference evaluator
/// can decide satisfiability under any assignment (independent of the crates' own systems).
#[derive(Clone, Debug)]
pub struct Recorder<F: Field> {
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<[Vec<(Index, F)>; 3]>,
    pub names: Vec<String>,
    pub missing: bool,
    /// setup mode: witness closures are not called
    pub setup: bool,
    ns: Vec<String>,
    pub ns_underflow: bool,
}
impl<F: Field> Recorder<F> {
    pub fn new() -> Self {
        Recorder { inputs: vec![F::one()], aux: vec![], cons: vec![], names: vec![], missing: false, setup: false, ns: vec![], ns_underflow: false }
    }
    pub fn for_setup() -> Self {
        let mut r = Self::new();
        r.setup = true;
        r
    }
    pub fn ns_depth(&self) -> usize {
        self.ns.len()
    }
    pub fn eval(l: &[(Index, F)], inputs: &[F], aux: &[F]) -> F {
        l.iter().fold(F::zero(), |a, (i, c)| {
            a + *c
                * match i {
                    Index::Input(k) => inputs[*k],
                    Index::Aux(k) => aux[*k],
                }
        })
    }
    pub fn sat_with(&self, inputs: &[F], aux: &[F]) -> bool {
        self.cons.iter().all(|c| {
            Self::eval(&c[0], inputs, aux) * Self::eval(&c[1], inputs, aux) == Self::eval(&c[2], inputs, aux)
        })
    }
    pub fn sat(&self) -> bool {
        self.sat_with(&self.inputs, &self.aux)
    }
    pub fn first_unsat(&self) -> Option<usize> {
        (0..self.cons.len()).find(|k| {
            let c = &self.cons[*k];
            Self::eval(&c[0], &self.inputs, &self.aux) * Self::eval(&c[1], &self.inputs, &self.aux)
                != Self::eval(&c[2], &self.inputs, &self.aux)
        })
    }
    pub fn value(&self, v: Variable) -> F {
        match v.get_unchecked() {
            Index::Input(k) => self.inputs[k],
            Index::Aux(k) => self.aux[k],
        }
    }
    /// (A,B,C) with merged coefficients, for comparing the shape of two syntheses
    pub fn canonical(&self) -> Vec<Vec<(u8, usize, F)>> {
        let mut out = vec![];
        for c in &self.cons {
            for l in c {
                let mut m: std::collections::BTreeMap<(u8, usize), F> = Default::default();
                for (i, co) in l {
                    let k = match i {
                        Index::Input(k) => (0u8, *k),
                        Index::Aux(k) => (1u8, *k),
                    };
                    *m.entry(k).or_insert(F::zero()) += co;
                }
                out.push(m.into_iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (k.0, k.1, v)).collect());
            }
        }
        out
    }
}
impl<F: Field> ConstraintSystem<F> for Recorder<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, ann: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.setup { F::zero() } else { f()? };
        self.aux.push(v);
        self.names.push(ann().into());
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _ann: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.setup { F::zero() } else { f()? };
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let g = |l: LinearCombination<F>| l.as_ref().iter().map(|(v, c)| (v.get_unchecked(), *c)).collect::<Vec<_>>();
        let z = LinearCombination::zero;
        self.cons.push([g(a(z())), g(b(z())), g(c(z()))]);
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.ns.push(n().into());
    }
    fn pop_namespace(&mut self) {
        if self.ns.pop().is_none() {
            self.ns_underflow = true;
        }
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
    fn num_constraints(&self) -> usize {
        self.cons.len()
    }
}
