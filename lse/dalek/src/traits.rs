use crate::scalar::Scalar;
use core::borrow::Borrow;
use subtle::ConstantTimeEq;
pub trait Identity { fn identity() -> Self; }
pub trait IsIdentity { fn is_identity(&self) -> bool; }
impl<T: ConstantTimeEq + Identity> IsIdentity for T { fn is_identity(&self) -> bool { self.ct_eq(&T::identity()).unwrap_u8() == 1u8 } }
pub trait MultiscalarMul {
    type Point;
    fn multiscalar_mul<I, J>(scalars: I, points: J) -> Self::Point
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator, J::Item: Borrow<Self::Point>;
}
pub trait VartimeMultiscalarMul {
    type Point;
    fn optional_multiscalar_mul<I, J>(scalars: I, points: J) -> Option<Self::Point>
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator<Item = Option<Self::Point>>;
    fn vartime_multiscalar_mul<I, J>(scalars: I, points: J) -> Self::Point
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator, J::Item: Borrow<Self::Point>, Self::Point: Clone {
        Self::optional_multiscalar_mul(scalars, points.into_iter().map(|p| Some(p.borrow().clone()))).unwrap()
    }
}
