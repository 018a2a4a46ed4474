//! The types with which a caller uses the library: coordinate system, labels
//! and scalars. With `sim_plain` the caller brings no types of its own, for a
//! library whose traits ask for more than these offer.

use num_bigint::BigInt;
use num_rational::{BigRational, Ratio};
use num_traits::{One, ToPrimitive, Zero};
use rust_systre::pgraphs::LabelVector;
use std::fmt::{Debug, Display};
use std::ops::{Add, Mul, Neg, Sub};

use crate::frac::Q;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct World;

/// What every label of a caller's can be asked for anyway.
pub trait Label: LabelVector<World> + Debug + Display + Send + Sync + 'static {}
impl<L: LabelVector<World> + Debug + Display + Send + Sync + 'static> Label for L {}

#[cfg(not(sim_plain))]
pub use labels::{LN, T};
#[cfg(not(sim_plain))]
pub use scalars::S;
#[cfg(sim_plain)]
pub type T<L> = L;
#[cfg(sim_plain)]
pub type S<X> = X;

/// Conversion between the scalars of the library and of the model.
/// What every scalar of the library's can be asked for anyway.
pub trait Num:
    Clone + Debug + Display + PartialEq + PartialOrd + Zero + One
    + Neg<Output = Self> + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Send + Sync + 'static
{
    fn of(q: Q) -> Self;
    fn q(&self) -> Option<Q>;
}
impl Num for BigRational {
    fn of(q: Q) -> Self {
        q.to_big()
    }
    fn q(&self) -> Option<Q> {
        Q::from_big(self)
    }
}
impl Num for Ratio<i64> {
    fn of(q: Q) -> Self {
        Ratio::new(q.n as i64, q.d as i64)
    }
    fn q(&self) -> Option<Q> {
        Some(Q::new(*self.numer() as i128, *self.denom() as i128))
    }
}
impl Num for i64 {
    fn of(q: Q) -> Self {
        q.n as i64
    }
    fn q(&self) -> Option<Q> {
        Some(Q::int(*self))
    }
}
impl Num for i32 {
    fn of(q: Q) -> Self {
        q.n as i32
    }
    fn q(&self) -> Option<Q> {
        Some(Q::int(*self as i64))
    }
}
impl Num for BigInt {
    fn of(q: Q) -> Self {
        BigInt::from(q.n)
    }
    fn q(&self) -> Option<Q> {
        Some(Q::new(self.to_i128()?, 1))
    }
}
impl Num for f64 {
    fn of(q: Q) -> Self {
        q.n as f64 / q.d as f64
    }
    /// Exactly, for numbers that are neither tiny nor huge.
    fn q(&self) -> Option<Q> {
        let big = *self * (1u64 << 40) as f64;
        (big == big.trunc() && big.abs() < 1e25).then(|| Q::new(big as i128, 1i128 << 40))
    }
}

#[cfg(not(sim_plain))]
mod labels {
    use rust_systre::pgraphs::LabelVector;
    use std::cmp::Ordering;
    use std::fmt;
    use std::hash::{Hash, Hasher};
    use std::ops::{Add, Neg, Sub};

    use super::World;
    use crate::seam;

    /// A caller's label type of which every operation is a point where the
    /// caller may panic or another thread may run. The arithmetic is that of L.
    #[derive(Clone, Copy, Debug)]
    pub struct T<L>(pub L);

    impl<L: PartialEq> PartialEq for T<L> {
        fn eq(&self, o: &Self) -> bool {
            seam::tick();
            self.0 == o.0
        }
    }
    impl<L: Eq> Eq for T<L> {}
    impl<L: Ord> PartialOrd for T<L> {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl<L: Ord> Ord for T<L> {
        fn cmp(&self, o: &Self) -> Ordering {
            seam::tick();
            self.0.cmp(&o.0)
        }
    }
    impl<L: Hash> Hash for T<L> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            seam::tick();
            self.0.hash(h)
        }
    }
    impl<L: Neg<Output = L>> Neg for T<L> {
        type Output = Self;
        fn neg(self) -> Self {
            seam::tick();
            T(-self.0)
        }
    }
    impl<L: Add<Output = L>> Add for T<L> {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            seam::tick();
            T(self.0 + o.0)
        }
    }
    impl<L: Sub<Output = L>> Sub for T<L> {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            seam::tick();
            T(self.0 - o.0)
        }
    }
    impl<L: fmt::Display> fmt::Display for T<L> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<L: LabelVector<World>> LabelVector<World> for T<L> {
        fn dim() -> usize {
            L::dim()
        }
        fn zero() -> Self {
            seam::tick();
            T(L::zero())
        }
        fn is_zero(&self) -> bool {
            seam::tick();
            self.0.is_zero()
        }
        fn is_negative(&self) -> bool {
            seam::tick();
            self.0.is_negative()
        }
        fn is_positive(&self) -> bool {
            seam::tick();
            self.0.is_positive()
        }
        fn to_vec(&self) -> Vec<i32> {
            seam::tick();
            self.0.to_vec()
        }
        fn from_vec(v: &[i32]) -> Self {
            seam::tick();
            T(L::from_vec(v))
        }
    }

    /// A caller's label type for other dimensions.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct LN<const N: usize>([i32; N]);

    impl<const N: usize> Neg for LN<N> {
        type Output = Self;
        fn neg(self) -> Self {
            LN(self.0.map(|x| -x))
        }
    }
    impl<const N: usize> Add for LN<N> {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            let mut r = self.0;
            for i in 0..N {
                r[i] += o.0[i];
            }
            LN(r)
        }
    }
    impl<const N: usize> Sub for LN<N> {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            self + (-o)
        }
    }
    impl<const N: usize> fmt::Display for LN<N> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            let s: Vec<_> = self.0.iter().map(|x| x.to_string()).collect();
            write!(f, "({})", s.join(", "))
        }
    }
    impl<const N: usize> LabelVector<World> for LN<N> {
        fn dim() -> usize {
            N
        }
        fn zero() -> Self {
            LN([0; N])
        }
        fn is_zero(&self) -> bool {
            self.0.iter().all(|x| *x == 0)
        }
        fn is_negative(&self) -> bool {
            self.0.iter().find(|x| **x != 0).map(|x| *x < 0).unwrap_or(false)
        }
        fn is_positive(&self) -> bool {
            self.0.iter().find(|x| **x != 0).map(|x| *x > 0).unwrap_or(false)
        }
        fn to_vec(&self) -> Vec<i32> {
            self.0.to_vec()
        }
        fn from_vec(v: &[i32]) -> Self {
            LN(v.try_into().unwrap())
        }
    }
}

#[cfg(not(sim_plain))]
mod scalars {
    use num_bigint::BigInt;
    use num_rational::{BigRational, Ratio};
    use num_traits::{Num as NumTrait, One, Signed, Zero};
    use rust_systre::arithmetic::linear_algebra::Scalar;
    use rust_systre::spacegroups::types::{Coord, CoordPtr};
    use std::cmp::Ordering;
    use std::fmt;
    use std::hash::{Hash, Hasher};
    use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, Sub, SubAssign};

    use crate::frac::Q;
    use super::Num;
    use crate::seam;

    type B = S<BigRational>;

    /// A caller's scalar type of which every operation is a point where the
    /// caller may panic or another thread may run. The arithmetic is that of X.
    #[derive(Debug)]
    pub struct S<X>(pub X);

    impl<X: Clone> Clone for S<X> {
        fn clone(&self) -> Self {
            seam::tick();
            S(self.0.clone())
        }
    }
    impl<X: PartialEq> PartialEq for S<X> {
        fn eq(&self, o: &Self) -> bool {
            seam::tick();
            self.0 == o.0
        }
    }
    impl<X: Eq> Eq for S<X> {}
    impl<X: Hash> Hash for S<X> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            seam::tick();
            self.0.hash(h)
        }
    }
    impl<X: Add<Output = X>> Add for S<X> {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            seam::tick();
            S(self.0 + o.0)
        }
    }
    impl<X: Mul<Output = X>> Mul for S<X> {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            seam::tick();
            S(self.0 * o.0)
        }
    }
    impl<X: Rem<Output = X>> Rem for S<X> {
        type Output = Self;
        fn rem(self, o: Self) -> Self {
            seam::tick();
            S(self.0 % o.0)
        }
    }
    impl<X: Neg<Output = X>> Neg for S<X> {
        type Output = Self;
        fn neg(self) -> Self {
            seam::tick();
            S(-self.0)
        }
    }
    impl<X: Zero> Zero for S<X> {
        fn zero() -> Self {
            S(X::zero())
        }
        fn is_zero(&self) -> bool {
            seam::tick();
            self.0.is_zero()
        }
    }
    impl<X: One> One for S<X> {
        fn one() -> Self {
            S(X::one())
        }
    }
    impl<'a, X: for<'b> AddAssign<&'b X>> AddAssign<&'a S<X>> for S<X> {
        fn add_assign(&mut self, o: &S<X>) {
            seam::tick();
            self.0 += &o.0
        }
    }
    impl<'a, X: for<'b> MulAssign<&'b X>> MulAssign<&'a S<X>> for S<X> {
        fn mul_assign(&mut self, o: &S<X>) {
            seam::tick();
            self.0 *= &o.0
        }
    }

    fn strip<X: Clone>(v: &[S<X>]) -> Vec<X> {
        v.iter().map(|x| x.0.clone()).collect()
    }
    fn wrap<X>(v: Vec<X>) -> Vec<S<X>> {
        v.into_iter().map(S).collect()
    }

    impl<X: Scalar + Clone + Add<Output = X> + Mul<Output = X> + Neg<Output = X>> Scalar for S<X> {
        fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
            seam::tick();
            let (mut x, mut y) = (strip(v), strip(b));
            X::clear_column(col, &mut x, &mut y);
            *v = wrap(x);
            seam::tick(); // abandoned here, the row is lost
            *b = wrap(y);
        }
        fn normalize_column(col: usize, v: &mut Vec<Self>) {
            let mut x = strip(v);
            X::normalize_column(col, &mut x);
            *v = wrap(x);
        }
        fn reduce_column(col: usize, v: &mut Vec<Self>, b: &Vec<Self>) {
            let mut x = strip(v);
            X::reduce_column(col, &mut x, &strip(b));
            *v = wrap(x);
        }
        fn solve_row(a: &Vec<Self>, x: &Vec<Vec<Self>>, b: &Vec<Self>) -> Option<Vec<Self>> {
            let y: Vec<Vec<X>> = x.iter().map(|r| strip(r)).collect();
            X::solve_row(&strip(a), &y, &strip(b)).map(wrap)
        }
    }

    impl<X: Num> Num for S<X> {
        fn of(q: Q) -> Self {
            S(X::of(q))
        }
        fn q(&self) -> Option<Q> {
            self.0.q()
        }
    }

    impl<X: Sub<Output = X>> Sub for S<X> {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            seam::tick();
            S(self.0 - o.0)
        }
    }
    impl<X: Div<Output = X>> Div for S<X> {
        type Output = Self;
        fn div(self, o: Self) -> Self {
            seam::tick();
            S(self.0 / o.0)
        }
    }
    impl<X: PartialOrd> PartialOrd for S<X> {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            seam::tick();
            self.0.partial_cmp(&o.0)
        }
    }
    impl<X: NumTrait> NumTrait for S<X> {
        type FromStrRadixErr = X::FromStrRadixErr;
        fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
            X::from_str_radix(s, r).map(S)
        }
    }
    impl<X: Signed> Signed for S<X> {
        fn abs(&self) -> Self {
            seam::tick();
            S(self.0.abs())
        }
        fn abs_sub(&self, o: &Self) -> Self {
            seam::tick();
            S(self.0.abs_sub(&o.0))
        }
        fn signum(&self) -> Self {
            seam::tick();
            S(self.0.signum())
        }
        fn is_positive(&self) -> bool {
            seam::tick();
            self.0.is_positive()
        }
        fn is_negative(&self) -> bool {
            seam::tick();
            self.0.is_negative()
        }
    }

    macro_rules! by_reference {
        ($($x:ty),*) => { $(
            impl<'a> Mul<&'a S<$x>> for S<$x> {
                type Output = S<$x>;
                fn mul(self, o: &S<$x>) -> S<$x> {
                    seam::tick();
                    S(self.0 * &o.0)
                }
            }
            impl<'a> Mul<&'a S<$x>> for &'a S<$x> {
                type Output = S<$x>;
                fn mul(self, o: &S<$x>) -> S<$x> {
                    seam::tick();
                    S(&self.0 * &o.0)
                }
            }
        )* }
    }
    by_reference!(BigRational, BigInt, i64, i32, f64);

    impl<'a> Add<&'a B> for B {
        type Output = B;
        fn add(self, o: &B) -> B {
            seam::tick();
            S(self.0 + &o.0)
        }
    }
    impl<'a> SubAssign<&'a B> for B {
        fn sub_assign(&mut self, o: &B) {
            seam::tick();
            self.0 -= &o.0
        }
    }
    impl<'a> Add for &'a B {
        type Output = B;
        fn add(self, o: &B) -> B {
            seam::tick();
            S(&self.0 + &o.0)
        }
    }
    impl<'a> Sub for &'a B {
        type Output = B;
        fn sub(self, o: &B) -> B {
            seam::tick();
            S(&self.0 - &o.0)
        }
    }
    impl<'a> Sub<B> for &'a B {
        type Output = B;
        fn sub(self, o: B) -> B {
            seam::tick();
            S(&self.0 - o.0)
        }
    }
    impl<'a> Neg for &'a B {
        type Output = B;
        fn neg(self) -> B {
            seam::tick();
            S(-&self.0)
        }
    }
    impl Coord for B {
        fn round(&self) -> Self {
            seam::tick();
            S(Coord::round(&self.0))
        }
        fn div_rounded(&self, other: &Self) -> Self {
            seam::tick();
            S(Coord::div_rounded(&self.0, &other.0))
        }
        fn epsilon() -> Self {
            S(BigRational::epsilon())
        }
        fn promote(q: Ratio<i32>) -> Self {
            S(BigRational::promote(q))
        }
    }
    impl<'a> CoordPtr<B> for &'a B {}

    impl<'a> SubAssign<&'a S<i64>> for S<i64> {
        fn sub_assign(&mut self, o: &S<i64>) {
            seam::tick();
            self.0 -= o.0
        }
    }

    impl<'a> SubAssign<&'a S<f64>> for S<f64> {
        fn sub_assign(&mut self, o: &S<f64>) {
            seam::tick();
            self.0 -= o.0
        }
    }
    impl<'a, X: for<'b> DivAssign<&'b X>> DivAssign<&'a S<X>> for S<X> {
        fn div_assign(&mut self, o: &S<X>) {
            seam::tick();
            self.0 /= &o.0
        }
    }
    impl<X: AddAssign> AddAssign for S<X> {
        fn add_assign(&mut self, o: S<X>) {
            seam::tick();
            self.0 += o.0
        }
    }
    impl<X: fmt::Display> fmt::Display for S<X> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            seam::tick();
            self.0.fmt(f)
        }
    }
}
