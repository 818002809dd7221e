use ristretto::{CompressedRistretto, RistrettoBasepointTable, RistrettoPoint};
use scalar::Scalar;
use symcore::BASE_BYTES;

pub const RISTRETTO_BASEPOINT_COMPRESSED: CompressedRistretto = CompressedRistretto(BASE_BYTES);
pub const RISTRETTO_BASEPOINT_POINT: RistrettoPoint = RistrettoPoint { bytes: BASE_BYTES };
pub const RISTRETTO_BASEPOINT_TABLE: RistrettoBasepointTable =
    RistrettoBasepointTable(RistrettoPoint { bytes: BASE_BYTES });
pub const BASEPOINT_ORDER: Scalar = Scalar { bytes: [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10] };
