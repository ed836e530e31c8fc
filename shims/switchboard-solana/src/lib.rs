//! Stand-in for switchboard-solana 0.28: AggregatorAccountData reduced to what is read here
//! (latest confirmed round); NOT the on-chain layout.
use bytemuck::{Pod, Zeroable};
#[derive(Clone, Copy, Debug, Default)]
#[repr(C, packed)]
pub struct SwitchboardDecimal { pub mantissa: i128, pub scale: u32 }
unsafe impl Zeroable for SwitchboardDecimal {}
unsafe impl Pod for SwitchboardDecimal {}
#[derive(Debug)]
pub enum SwitchboardError { InvalidAggregatorRound, DecimalConversionError }
impl std::fmt::Display for SwitchboardError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("switchboard error") }
}
impl TryInto<f64> for SwitchboardDecimal {
    type Error = SwitchboardError;
    fn try_into(self) -> Result<f64, SwitchboardError> {
        let (m, s) = (self.mantissa, self.scale);
        Ok(m as f64 / 10f64.powi(s as i32))
    }
}
#[derive(Clone, Copy, Debug, Default)]
#[repr(C, packed)]
pub struct AggregatorRound {
    pub num_success: u32,
    pub num_error: u32,
    pub is_closed: u8,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
}
unsafe impl Zeroable for AggregatorRound {}
unsafe impl Pod for AggregatorRound {}
#[derive(Clone, Copy, Debug, Default)]
#[repr(C, packed)]
pub struct AggregatorAccountData {
    pub min_oracle_results: u32,
    pub latest_confirmed_round: AggregatorRound,
}
unsafe impl Zeroable for AggregatorAccountData {}
unsafe impl Pod for AggregatorAccountData {}
impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> {
        let (min, n) = (self.min_oracle_results, self.latest_confirmed_round.num_success);
        if min > n { return Err(SwitchboardError::InvalidAggregatorRound); }
        Ok(self.latest_confirmed_round.result)
    }
}
