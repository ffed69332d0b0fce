//! Toy prime fields and a transparent pairing engine.
//!
//! G1 = G2 = (F_r, +) (discrete logs are visible), GT = the order-r subgroup of F_q^*,
//! e(a, b) = h^(ab).  Every curve-generic routine of the code under test runs on it
//! unchanged; group equations become field equations a reference model can compute.
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{
    biginteger::BigInteger64,
    bytes::{FromBytes, ToBytes},
    fields::{FftParameters, Fp64, Fp64Parameters, FpParameters},
    Field, One, PrimeField, UniformRand, Zero,
};
use ark_serialize::{
    CanonicalDeserialize, CanonicalSerialize, SerializationError,
};
use ark_std::io::{Read, Result as IoResult, Write};
use core::fmt::{Debug, Display, Formatter};
use core::hash::Hash;
use core::marker::PhantomData;
use core::ops::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use zeroize::Zeroize;

pub const fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % (p as u128)) as u64
}
pub const fn powmod(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1u64 % p;
    a %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, p);
        }
        a = mulmod(a, a, p);
        e >>= 1;
    }
    r
}
pub const fn adicity(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}
pub const fn bits(p: u64) -> u32 {
    64 - p.leading_zeros()
}
pub const fn mont(a: u64, p: u64) -> u64 {
    ((((a % p) as u128) << 64) % (p as u128)) as u64
}
pub const fn neg_inv(p: u64) -> u64 {
    // -p^{-1} mod 2^64 by Newton iteration
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(p.wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}

#[macro_export]
macro_rules! toy_field {
    ($name:ident, $params:ident, $p:expr, $g:expr) => {
        pub struct $params;
        impl ark_ff::fields::Fp64Parameters for $params {}
        impl ark_ff::fields::FftParameters for $params {
            type BigInt = ark_ff::biginteger::BigInteger64;
            const TWO_ADICITY: u32 = $crate::toy::adicity($p);
            const TWO_ADIC_ROOT_OF_UNITY: ark_ff::biginteger::BigInteger64 =
                ark_ff::biginteger::BigInteger64([$crate::toy::mont(
                    $crate::toy::powmod($g, ($p - 1) >> $crate::toy::adicity($p), $p),
                    $p,
                )]);
        }
        impl ark_ff::fields::FpParameters for $params {
            const MODULUS: ark_ff::biginteger::BigInteger64 = ark_ff::biginteger::BigInteger64([$p]);
            const MODULUS_BITS: u32 = $crate::toy::bits($p);
            const REPR_SHAVE_BITS: u32 = 64 - $crate::toy::bits($p);
            const R: ark_ff::biginteger::BigInteger64 =
                ark_ff::biginteger::BigInteger64([$crate::toy::mont(1, $p)]);
            const R2: ark_ff::biginteger::BigInteger64 =
                ark_ff::biginteger::BigInteger64([$crate::toy::mont($crate::toy::mont(1, $p), $p)]);
            const INV: u64 = $crate::toy::neg_inv($p);
            const GENERATOR: ark_ff::biginteger::BigInteger64 =
                ark_ff::biginteger::BigInteger64([$crate::toy::mont($g, $p)]);
            const CAPACITY: u32 = $crate::toy::bits($p) - 1;
            const T: ark_ff::biginteger::BigInteger64 =
                ark_ff::biginteger::BigInteger64([($p - 1) >> $crate::toy::adicity($p)]);
            const T_MINUS_ONE_DIV_TWO: ark_ff::biginteger::BigInteger64 =
                ark_ff::biginteger::BigInteger64([((($p - 1) >> $crate::toy::adicity($p)) - 1) / 2]);
            const MODULUS_MINUS_ONE_DIV_TWO: ark_ff::biginteger::BigInteger64 =
                ark_ff::biginteger::BigInteger64([($p - 1) / 2]);
        }
        pub type $name = ark_ff::fields::Fp64<$params>;
    };
}

/// Marker for a toy engine: which fields, and the target-group generator.
pub trait ToyCfg: 'static + Copy + Clone + Debug + Send + Sync + Eq + PartialEq + Hash + Default {
    type RP: Fp64Parameters;
    type QP: Fp64Parameters;
    const QGEN: u64;
}

pub type FrOf<C> = Fp64<<C as ToyCfg>::RP>;
pub type FqOf<C> = Fp64<<C as ToyCfg>::QP>;

/// Projective element of toy group number `W` (1 or 2).
pub struct P<C: ToyCfg, const W: usize>(pub FrOf<C>, PhantomData<C>);
/// Affine element of toy group number `W` (1 or 2).
pub struct A<C: ToyCfg, const W: usize>(pub FrOf<C>, PhantomData<C>);

macro_rules! common {
    ($t:ident) => {
        impl<C: ToyCfg, const W: usize> $t<C, W> {
            pub fn of(x: FrOf<C>) -> Self {
                $t(x, PhantomData)
            }
        }
        impl<C: ToyCfg, const W: usize> Clone for $t<C, W> {
            fn clone(&self) -> Self { *self }
        }
        impl<C: ToyCfg, const W: usize> Copy for $t<C, W> {}
        impl<C: ToyCfg, const W: usize> PartialEq for $t<C, W> {
            fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
        }
        impl<C: ToyCfg, const W: usize> Eq for $t<C, W> {}
        impl<C: ToyCfg, const W: usize> Hash for $t<C, W> {
            fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.into_repr().0.hash(h) }
        }
        impl<C: ToyCfg, const W: usize> Default for $t<C, W> {
            fn default() -> Self { Self::of(Zero::zero()) }
        }
        impl<C: ToyCfg, const W: usize> Debug for $t<C, W> {
            fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
                write!(f, "G{}[{}]", W, self.0.into_repr().0[0])
            }
        }
        impl<C: ToyCfg, const W: usize> Display for $t<C, W> {
            fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
                write!(f, "G{}[{}]", W, self.0.into_repr().0[0])
            }
        }
        impl<C: ToyCfg, const W: usize> Zeroize for $t<C, W> {
            fn zeroize(&mut self) { self.0 = Zero::zero(); }
        }
        impl<C: ToyCfg, const W: usize> Zero for $t<C, W> {
            fn zero() -> Self { Self::of(Zero::zero()) }
            fn is_zero(&self) -> bool { self.0.is_zero() }
        }
        impl<C: ToyCfg, const W: usize> Neg for $t<C, W> {
            type Output = Self;
            fn neg(self) -> Self { Self::of(-self.0) }
        }
        impl<C: ToyCfg, const W: usize> Add for $t<C, W> {
            type Output = Self;
            fn add(self, o: Self) -> Self { Self::of(self.0 + o.0) }
        }
        impl<C: ToyCfg, const W: usize> ToBytes for $t<C, W> {
            fn write<Wr: Write>(&self, w: Wr) -> IoResult<()> { self.0.write(w) }
        }
        impl<C: ToyCfg, const W: usize> FromBytes for $t<C, W> {
            fn read<R: Read>(r: R) -> IoResult<Self> { Ok(Self::of(FrOf::<C>::read(r)?)) }
        }
        impl<C: ToyCfg, const W: usize> CanonicalSerialize for $t<C, W> {
            fn serialize<Wr: Write>(&self, w: Wr) -> Result<(), SerializationError> { self.0.serialize(w) }
            fn serialized_size(&self) -> usize { self.0.serialized_size() }
            // the uncompressed form carries a second coordinate, as on a real curve
            fn serialize_uncompressed<Wr: Write>(&self, mut w: Wr) -> Result<(), SerializationError> {
                self.0.serialize(&mut w)?;
                second::<C>(&self.0).serialize(&mut w)
            }
            fn uncompressed_size(&self) -> usize { 2 * self.0.serialized_size() }
        }
        impl<C: ToyCfg, const W: usize> CanonicalDeserialize for $t<C, W> {
            fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
                Ok(Self::of(FrOf::<C>::deserialize(r)?))
            }
            fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let x = FrOf::<C>::deserialize(&mut r)?;
                if FrOf::<C>::deserialize(&mut r)? != second::<C>(&x) {
                    return Err(SerializationError::InvalidData);
                }
                Ok(Self::of(x))
            }
            fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let x = FrOf::<C>::deserialize(&mut r)?;
                let _ = FrOf::<C>::deserialize(&mut r)?;
                Ok(Self::of(x))
            }
        }
    };
}
/// the second coordinate of an uncompressed element
fn second<C: ToyCfg>(x: &FrOf<C>) -> FrOf<C> {
    *x * x + FrOf::<C>::from(7u64)
}
common!(P);
common!(A);

impl<C: ToyCfg, const W: usize> From<A<C, W>> for P<C, W> {
    fn from(a: A<C, W>) -> Self { P::of(a.0) }
}
impl<C: ToyCfg, const W: usize> From<P<C, W>> for A<C, W> {
    fn from(a: P<C, W>) -> Self { A::of(a.0) }
}
impl<C: ToyCfg, const W: usize> Sub for P<C, W> {
    type Output = Self;
    fn sub(self, o: Self) -> Self { Self::of(self.0 - o.0) }
}
impl<'a, C: ToyCfg, const W: usize> Add<&'a Self> for P<C, W> {
    type Output = Self;
    fn add(self, o: &'a Self) -> Self { Self::of(self.0 + o.0) }
}
impl<'a, C: ToyCfg, const W: usize> Sub<&'a Self> for P<C, W> {
    type Output = Self;
    fn sub(self, o: &'a Self) -> Self { Self::of(self.0 - o.0) }
}
impl<C: ToyCfg, const W: usize> AddAssign for P<C, W> {
    fn add_assign(&mut self, o: Self) { self.0 += o.0 }
}
impl<C: ToyCfg, const W: usize> SubAssign for P<C, W> {
    fn sub_assign(&mut self, o: Self) { self.0 -= o.0 }
}
impl<'a, C: ToyCfg, const W: usize> AddAssign<&'a Self> for P<C, W> {
    fn add_assign(&mut self, o: &'a Self) { self.0 += o.0 }
}
impl<'a, C: ToyCfg, const W: usize> SubAssign<&'a Self> for P<C, W> {
    fn sub_assign(&mut self, o: &'a Self) { self.0 -= o.0 }
}
impl<C: ToyCfg, const W: usize> MulAssign<FrOf<C>> for P<C, W> {
    fn mul_assign(&mut self, s: FrOf<C>) { self.0 *= s }
}
impl<C: ToyCfg, const W: usize> core::iter::Sum<Self> for P<C, W> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) }
}
impl<'a, C: ToyCfg, const W: usize> core::iter::Sum<&'a Self> for P<C, W> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + *b) }
}
impl<C: ToyCfg, const W: usize> Distribution<P<C, W>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> P<C, W> { P::of(FrOf::<C>::rand(r)) }
}
impl<C: ToyCfg, const W: usize> Distribution<A<C, W>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> A<C, W> { A::of(FrOf::<C>::rand(r)) }
}

impl<C: ToyCfg, const W: usize> ProjectiveCurve for P<C, W> {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = FrOf<C>;
    type BaseField = FqOf<C>;
    type Affine = A<C, W>;
    fn prime_subgroup_generator() -> Self { Self::of(One::one()) }
    fn batch_normalization(_v: &mut [Self]) {}
    fn is_normalized(&self) -> bool { true }
    fn double_in_place(&mut self) -> &mut Self {
        self.0.double_in_place();
        self
    }
    fn add_assign_mixed(&mut self, o: &A<C, W>) { self.0 += o.0 }
    fn mul<S: AsRef<[u64]>>(self, s: S) -> Self {
        // multi-limb scalar: reduce through the field
        let mut k = FrOf::<C>::zero();
        let two64 = {
            let t = FrOf::<C>::from(1u64 << 32);
            t * t
        };
        for l in s.as_ref().iter().rev() {
            k = k * two64 + FrOf::<C>::from(*l);
        }
        Self::of(self.0 * k)
    }
}
impl<C: ToyCfg, const W: usize> AffineCurve for A<C, W> {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = FrOf<C>;
    type BaseField = FqOf<C>;
    type Projective = P<C, W>;
    fn prime_subgroup_generator() -> Self { Self::of(One::one()) }
    fn from_random_bytes(b: &[u8]) -> Option<Self> {
        FrOf::<C>::from_random_bytes(b).map(Self::of)
    }
    fn mul<S: Into<BigInteger64>>(&self, s: S) -> P<C, W> {
        let k: BigInteger64 = s.into();
        P::of(self.0 * FrOf::<C>::from(k.0[0]))
    }
    fn mul_by_cofactor_to_projective(&self) -> P<C, W> { P::of(self.0) }
    fn mul_by_cofactor_inv(&self) -> Self { *self }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Toy<C: ToyCfg>(PhantomData<C>);

impl<C: ToyCfg> PairingEngine for Toy<C> {
    type Fr = FrOf<C>;
    type G1Projective = P<C, 1>;
    type G1Affine = A<C, 1>;
    type G1Prepared = A<C, 1>;
    type G2Projective = P<C, 2>;
    type G2Affine = A<C, 2>;
    type G2Prepared = A<C, 2>;
    type Fq = FqOf<C>;
    type Fqe = FqOf<C>;
    type Fqk = FqOf<C>;
    fn miller_loop<'a, I>(i: I) -> FqOf<C>
    where
        I: IntoIterator<Item = &'a (A<C, 1>, A<C, 2>)>,
    {
        let mut e = FrOf::<C>::zero();
        for (a, b) in i {
            e += a.0 * b.0;
        }
        let h: FqOf<C> = FqOf::<C>::from(Self::h());
        h.pow(e.into_repr())
    }
    fn final_exponentiation(x: &FqOf<C>) -> Option<FqOf<C>> {
        if x.is_zero() { None } else { Some(*x) }
    }
}
impl<C: ToyCfg> Toy<C> {
    /// generator of the order-r subgroup of F_q^*
    pub fn h() -> u64 {
        let q = <C::QP as FpParameters>::MODULUS.0[0];
        let r = <C::RP as FpParameters>::MODULUS.0[0];
        powmod(C::QGEN, (q - 1) / r, q)
    }
}

#[macro_export]
macro_rules! toy_engine {
    ($eng:ident, $cfg:ident, $fr:ident, $frp:ident, $fq:ident, $fqp:ident, $r:expr, $rg:expr, $q:expr, $qg:expr) => {
        $crate::toy_field!($fr, $frp, $r, $rg);
        $crate::toy_field!($fq, $fqp, $q, $qg);
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
        pub struct $cfg;
        impl $crate::toy::ToyCfg for $cfg {
            type RP = $frp;
            type QP = $fqp;
            const QGEN: u64 = $qg;
        }
        pub type $eng = $crate::toy::Toy<$cfg>;
    };
}

toy_field!(F3, F3P, 3u64, 2u64);
toy_field!(F5x, F5xP, 5u64, 2u64);
toy_field!(F7, F7P, 7u64, 3u64);
toy_field!(F31, F31P, 31u64, 3u64);
toy_field!(F127, F127P, 127u64, 3u64);
toy_field!(F8191, F8191P, 8191u64, 17u64);
toy_engine!(E17, Cfg17, F17, F17P, F103, F103P, 17u64, 3u64, 103u64, 5u64);
toy_engine!(E97, Cfg97, F97, F97P, F389, F389P, 97u64, 5u64, 389u64, 2u64);
toy_engine!(E257, Cfg257, F257, F257P, F1543, F1543P, 257u64, 3u64, 1543u64, 5u64);
// r just below 2^61 with 2-adicity 23: Fiat-Shamir challenges drawn as masked bytes are
// below r except with probability 3e-10 each.
toy_engine!(
    EBig, CfgBig, FBig, FBigP, FqBig, FqBigP,
    2305843008467107841u64, 3u64, 4611686016934215683u64, 2u64
);

/// value of a toy field element as u64
pub fn val<PP: Fp64Parameters>(f: &Fp64<PP>) -> u64 {
    f.into_repr().0[0]
}
/// p of a toy field
pub fn modulus<F: PrimeField>() -> u64 {
    <F::Params as FpParameters>::MODULUS.as_ref()[0]
}
#[allow(dead_code)]
fn _assert_traits<T: FftParameters>() {}
