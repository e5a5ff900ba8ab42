//! A tiny prime field, so that a circuit's whole witness space can be enumerated.
use ff::{Field, FieldBits, PrimeField, PrimeFieldBits};
use halo2curves::{FieldExt, Group};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Zp<const P: u64>(pub u64);

impl<const P: u64> std::fmt::Debug for Zp<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl<const P: u64> Zp<P> {
    pub fn all() -> impl Iterator<Item = Self> {
        (0..P).map(Zp)
    }
    const fn inv_of(v: u64) -> u64 {
        let mut i = 1;
        while i < P {
            if (i * v) % P == 1 {
                return i;
            }
            i += 1;
        }
        0
    }
    const fn pw(b: u64, mut e: u64) -> u64 {
        let mut r = 1;
        while e > 0 {
            r = r * b % P;
            e -= 1;
        }
        r
    }
    const fn generator() -> u64 {
        let mut g = 1;
        while g < P {
            let mut x = g;
            let mut ord = 1;
            while x != 1 {
                x = x * g % P;
                ord += 1;
            }
            if ord == P - 1 {
                return g;
            }
            g += 1;
        }
        0
    }
    const fn two_adicity() -> u32 {
        (P - 1).trailing_zeros()
    }
}

macro_rules! bin {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, $e:expr) => {
        impl<const P: u64> $t for Zp<P> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let f: fn(u64, u64, u64) -> u64 = $e;
                Zp(f(self.0, o.0, P))
            }
        }
        impl<'a, const P: u64> $t<&'a Self> for Zp<P> {
            type Output = Self;
            fn $f(self, o: &Self) -> Self {
                $t::$f(self, *o)
            }
        }
        impl<const P: u64> $ta for Zp<P> {
            fn $fa(&mut self, o: Self) {
                *self = $t::$f(*self, o)
            }
        }
        impl<'a, const P: u64> $ta<&'a Self> for Zp<P> {
            fn $fa(&mut self, o: &Self) {
                *self = $t::$f(*self, *o)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, |a, b, p| (a + b) % p);
bin!(Sub, sub, SubAssign, sub_assign, |a, b, p| (a + p - b) % p);
bin!(Mul, mul, MulAssign, mul_assign, |a, b, p| (a * b) % p);

impl<const P: u64> Neg for Zp<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Zp((P - self.0) % P)
    }
}
impl<const P: u64> From<u64> for Zp<P> {
    fn from(v: u64) -> Self {
        Zp(v % P)
    }
}
impl<const P: u64> From<bool> for Zp<P> {
    fn from(v: bool) -> Self {
        Zp(v as u64)
    }
}
impl<const P: u64> ConstantTimeEq for Zp<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u64> ConditionallySelectable for Zp<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Zp(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u64> Field for Zp<P> {
    fn random(mut rng: impl rand_core::RngCore) -> Self {
        Zp(rng.next_u64() % P)
    }
    fn zero() -> Self {
        Zp(0)
    }
    fn one() -> Self {
        Zp(1)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Zp(Self::inv_of(self.0)), ((self.0 != 0) as u8).into())
    }
    fn sqrt(&self) -> CtOption<Self> {
        let r = Self::all().find(|x| *x * *x == *self);
        CtOption::new(r.unwrap_or_default(), (r.is_some() as u8).into())
    }
}
impl<const P: u64> PrimeField for Zp<P> {
    type Repr = [u8; 8];
    fn from_repr(r: [u8; 8]) -> CtOption<Self> {
        let v = u64::from_le_bytes(r);
        CtOption::new(Zp(v % P), ((v < P) as u8).into())
    }
    fn to_repr(&self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        ((self.0 & 1) as u8).into()
    }
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = 63 - P.leading_zeros();
    fn multiplicative_generator() -> Self {
        Zp(Self::generator())
    }
    const S: u32 = Self::two_adicity();
    fn root_of_unity() -> Self {
        Zp(Self::pw(Self::generator(), (P - 1) >> Self::two_adicity()))
    }
}
impl<const P: u64> PrimeFieldBits for Zp<P> {
    type ReprBits = [u64; 1];
    fn to_le_bits(&self) -> FieldBits<[u64; 1]> {
        FieldBits::<[u64; 1]>::new([self.0])
    }
    fn char_le_bits() -> FieldBits<[u64; 1]> {
        FieldBits::<[u64; 1]>::new([P])
    }
}
impl<const P: u64> pasta_curves::arithmetic::SqrtRatio for Zp<P> {
    const T_MINUS1_OVER2: [u64; 4] = [(((P - 1) >> Self::two_adicity()) - 1) / 2, 0, 0, 0];
    fn get_lower_32(&self) -> u32 {
        self.0 as u32
    }
}
impl<const P: u64> Group for Zp<P> {
    type Scalar = Self;
    fn group_zero() -> Self {
        Zp(0)
    }
    fn group_add(&mut self, o: &Self) {
        *self += *o
    }
    fn group_sub(&mut self, o: &Self) {
        *self -= *o
    }
    fn group_scale(&mut self, by: &Self) {
        *self *= *by
    }
}
impl<const P: u64> FieldExt for Zp<P> {
    const MODULUS: &'static str = "";
    const ROOT_OF_UNITY_INV: Self = Zp(Self::inv_of(Self::pw(Self::generator(), (P - 1) >> Self::two_adicity())));
    const DELTA: Self = Zp(Self::pw(Self::generator(), 1 << Self::two_adicity()));
    const TWO_INV: Self = Zp(Self::inv_of(2));
    const ZETA: Self = Zp(Self::pw(Self::generator(), (P - 1) / 3));
    fn from_u128(v: u128) -> Self {
        Zp((v % P as u128) as u64)
    }
    fn from_bytes_wide(b: &[u8; 64]) -> Self {
        b.iter().rev().fold(Zp(0), |a, x| a * Zp(256 % P) + Zp(*x as u64 % P))
    }
    fn get_lower_128(&self) -> u128 {
        self.0 as u128
    }
}
