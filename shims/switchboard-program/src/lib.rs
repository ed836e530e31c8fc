//! Stand-in for switchboard-program 0.2 (obsolete V1 oracles).
#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResult {
    pub num_success: i32,
    pub num_error: i32,
    pub result: f64,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub min_response: f64,
    pub max_response: f64,
    pub decimals: u32,
}
#[derive(Clone, Copy, Debug)]
pub struct FastRoundResultAccountData {
    pub discriminator: [u8; 32],
    pub result: FastRoundResult,
}
#[derive(Debug)]
pub struct DeError;
impl FastRoundResultAccountData {
    pub fn deserialize(d: &[u8]) -> Result<Self, DeError> {
        if d.len() < 32 + 60 { return Err(DeError); }
        let f8 = |o: usize| -> [u8; 8] { let mut b = [0u8; 8]; b.copy_from_slice(&d[o..o + 8]); b };
        let f4 = |o: usize| -> [u8; 4] { let mut b = [0u8; 4]; b.copy_from_slice(&d[o..o + 4]); b };
        let mut discriminator = [0u8; 32];
        discriminator.copy_from_slice(&d[..32]);
        Ok(Self {
            discriminator,
            result: FastRoundResult {
                num_success: i32::from_le_bytes(f4(32)),
                num_error: i32::from_le_bytes(f4(36)),
                result: f64::from_le_bytes(f8(40)),
                round_open_slot: u64::from_le_bytes(f8(48)),
                round_open_timestamp: i64::from_le_bytes(f8(56)),
                min_response: f64::from_le_bytes(f8(64)),
                max_response: f64::from_le_bytes(f8(72)),
                decimals: u32::from_le_bytes(f4(80)),
            },
        })
    }
}
