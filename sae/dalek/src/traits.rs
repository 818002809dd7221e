use scalar::Scalar;
use std::borrow::Borrow;
use subtle;

pub trait Identity { fn identity() -> Self; }
pub trait IsIdentity { fn is_identity(&self) -> bool; }
impl<T> IsIdentity for T where T: subtle::ConstantTimeEq + Identity {
    fn is_identity(&self) -> bool { self.ct_eq(&T::identity()).unwrap_u8() == 1u8 }
}
pub trait MultiscalarMul {
    type Point;
    fn multiscalar_mul<I, J>(scalars: I, points: J) -> Self::Point
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator, J::Item: Borrow<Self::Point>;
}
pub trait VartimeMultiscalarMul {
    type Point;
    fn optional_multiscalar_mul<I, J>(scalars: I, points: J) -> Option<Self::Point>
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator<Item = Option<Self::Point>>;
    fn vartime_multiscalar_mul<I, J>(scalars: I, points: J) -> Self::Point
    where I: IntoIterator, I::Item: Borrow<Scalar>, J: IntoIterator, J::Item: Borrow<Self::Point>, Self::Point: Clone,
    {
        Self::optional_multiscalar_mul(scalars, points.into_iter().map(|P| Some(P.borrow().clone()))).unwrap()
    }
}
