//! Stand-in for pyth-solana-receiver-sdk 0.3: PriceUpdateV2 layout as published.
solana_program::declare_id!("rec5EKMGg6MxZYaMdyBfgwp4d5rB9T1VQH5pJv5LtFJ");
pub mod price_update {
    use borsh::{BorshDeserialize, BorshSerialize};
    use solana_program::pubkey::Pubkey;
    #[derive(BorshSerialize, BorshDeserialize, Copy, Clone, PartialEq, Debug)]
    pub enum VerificationLevel {
        Partial { num_signatures: u8 },
        Full,
    }
    #[derive(BorshSerialize, BorshDeserialize, Copy, Clone, PartialEq, Debug)]
    pub struct PriceFeedMessage {
        pub feed_id: [u8; 32],
        pub price: i64,
        pub conf: u64,
        pub exponent: i32,
        pub publish_time: i64,
        pub prev_publish_time: i64,
        pub ema_price: i64,
        pub ema_conf: u64,
    }
    #[derive(BorshSerialize, BorshDeserialize, Clone, PartialEq, Debug)]
    pub struct PriceUpdateV2 {
        pub write_authority: Pubkey,
        pub verification_level: VerificationLevel,
        pub price_message: PriceFeedMessage,
        pub posted_slot: u64,
    }
}
