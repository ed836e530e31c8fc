pub use num_bigint as bigint; pub use num_bigint::BigInt;
