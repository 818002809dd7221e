use crate::ristretto::{CompressedRistretto, RistrettoBasepointTable, RistrettoPoint, B};
use crate::scalar::{Scalar, ELL};
pub const RISTRETTO_BASEPOINT_COMPRESSED: CompressedRistretto = CompressedRistretto(B);
pub const RISTRETTO_BASEPOINT_POINT: RistrettoPoint = RistrettoPoint { bytes: B };
pub const RISTRETTO_BASEPOINT_TABLE: RistrettoBasepointTable = RistrettoBasepointTable(RISTRETTO_BASEPOINT_POINT);
pub const BASEPOINT_ORDER: Scalar = Scalar { bytes: ELL };
