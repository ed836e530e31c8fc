//! Stand-in for switchboard-on-demand 0.1: PullFeedAccountData with the on-chain layout (checked against the repository's account fixture).
use bytemuck::{Pod, Zeroable};
pub const PRECISION: u32 = 18;
#[derive(Clone, Copy, Debug)]
pub struct Decimal { pub mantissa: i128, pub scale: u32 }
#[derive(Debug)]
pub struct DecErr;
impl std::fmt::Display for DecErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("decimal error") }
}
impl TryInto<f64> for Decimal {
    type Error = DecErr;
    fn try_into(self) -> Result<f64, DecErr> { Ok(self.mantissa as f64 / 10f64.powi(self.scale as i32)) }
}
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct CurrentResult {
    pub value: i128,
    pub std_dev: i128,
    pub mean: i128,
    pub range: i128,
    pub min_value: i128,
    pub max_value: i128,
    pub num_samples: u8,
    pub padding1: [u8; 7],
    pub slot: u64,
    pub min_slot: u64,
    pub max_slot: u64,
}
unsafe impl Zeroable for CurrentResult {}
unsafe impl Pod for CurrentResult {}
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct PullFeedAccountData {
    pub submissions: [[u64; 8]; 32],
    pub authority: [u8; 32],
    pub queue: [u8; 32],
    pub feed_hash: [u8; 32],
    pub initialized_at: i64,
    pub permissions: u64,
    pub max_variance: u64,
    pub min_responses: u32,
    pub name: [u8; 32],
    pub padding1: [u8; 2],
    pub historical_result_idx: u8,
    pub min_sample_size: u8,
    pub last_update_timestamp: i64,
    pub lut_slot: u64,
    pub reserved1: [u8; 32],
    pub result: CurrentResult,
    pub max_staleness: u32,
    pub ebuf4: [u8; 20],
    pub ebuf3: [u8; 24],
    pub ebuf2: [u8; 256],
    pub ebuf1: [u8; 512],
}
const _: () = assert!(std::mem::size_of::<PullFeedAccountData>() == 3200);
unsafe impl Zeroable for PullFeedAccountData {}
unsafe impl Pod for PullFeedAccountData {}
impl PullFeedAccountData {
    pub fn value(&self) -> Option<Decimal> {
        if self.result.num_samples == 0 { None } else { Some(Decimal { mantissa: self.result.value, scale: PRECISION }) }
    }
    pub fn std_dev(&self) -> Option<Decimal> {
        if self.result.num_samples == 0 { None } else { Some(Decimal { mantissa: self.result.std_dev, scale: PRECISION }) }
    }
}
