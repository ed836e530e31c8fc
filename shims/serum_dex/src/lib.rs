//! Stand-in for serum_dex (openbook-dex/program, not reachable offline): account layouts and
//! instruction encoding as published.
pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct DexError(pub u32);
    pub type DexResult<T = ()> = Result<T, DexError>;
}
pub mod matching {
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    #[derive(Eq, PartialEq, Copy, Clone, Debug, TryFromPrimitive, IntoPrimitive, serde::Serialize, serde::Deserialize)]
    #[repr(u8)]
    pub enum Side { Bid = 0, Ask = 1 }
    #[derive(Eq, PartialEq, Copy, Clone, Debug, TryFromPrimitive, IntoPrimitive, serde::Serialize, serde::Deserialize)]
    #[repr(u8)]
    pub enum OrderType { Limit = 0, ImmediateOrCancel = 1, PostOnly = 2 }
}
pub mod instruction {
    use crate::matching::{OrderType, Side};
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    use std::num::NonZeroU64;
    #[derive(Eq, PartialEq, Copy, Clone, Debug, TryFromPrimitive, IntoPrimitive)]
    #[repr(u8)]
    pub enum SelfTradeBehavior { DecrementTake = 0, CancelProvide = 1, AbortTransaction = 2 }
    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct NewOrderInstructionV3 {
        pub side: Side,
        pub limit_price: NonZeroU64,
        pub max_coin_qty: NonZeroU64,
        pub max_native_pc_qty_including_fees: NonZeroU64,
        pub self_trade_behavior: SelfTradeBehavior,
        pub order_type: OrderType,
        pub client_order_id: u64,
        pub limit: u16,
        pub max_ts: i64,
    }
    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct CancelOrderInstructionV2 { pub side: Side, pub order_id: u128 }
    #[derive(PartialEq, Eq, Debug, Clone)]
    pub enum MarketInstruction {
        NewOrderV3(NewOrderInstructionV3),
        CancelOrderV2(CancelOrderInstructionV2),
        CancelOrderByClientIdV2(u64),
        SettleFunds,
        CloseOpenOrders,
        InitOpenOrders,
    }
    impl MarketInstruction {
        pub fn pack(&self) -> Vec<u8> {
            let mut v = vec![0u8];
            let mut tag = |t: u32, v: &mut Vec<u8>| v.extend_from_slice(&t.to_le_bytes());
            match self {
                Self::NewOrderV3(o) => {
                    tag(10, &mut v);
                    v.extend_from_slice(&(o.side as u8 as u32).to_le_bytes());
                    v.extend_from_slice(&o.limit_price.get().to_le_bytes());
                    v.extend_from_slice(&o.max_coin_qty.get().to_le_bytes());
                    v.extend_from_slice(&o.max_native_pc_qty_including_fees.get().to_le_bytes());
                    v.extend_from_slice(&(o.self_trade_behavior as u8 as u32).to_le_bytes());
                    v.extend_from_slice(&(o.order_type as u8 as u32).to_le_bytes());
                    v.extend_from_slice(&o.client_order_id.to_le_bytes());
                    v.extend_from_slice(&o.limit.to_le_bytes());
                    v.extend_from_slice(&o.max_ts.to_le_bytes());
                }
                Self::CancelOrderV2(c) => {
                    tag(11, &mut v);
                    v.extend_from_slice(&(c.side as u8 as u32).to_le_bytes());
                    v.extend_from_slice(&c.order_id.to_le_bytes());
                }
                Self::CancelOrderByClientIdV2(id) => {
                    tag(12, &mut v);
                    v.extend_from_slice(&id.to_le_bytes());
                }
                Self::SettleFunds => tag(5, &mut v),
                Self::CloseOpenOrders => tag(14, &mut v),
                Self::InitOpenOrders => tag(15, &mut v),
            }
            v
        }
    }
}
pub mod state {
    use crate::error::*;
    use solana_program::pubkey::Pubkey;
    pub const ACCOUNT_HEAD_PADDING: &[u8; 5] = b"serum";
    pub const ACCOUNT_TAIL_PADDING: &[u8; 7] = b"padding";
    pub trait ToAlignedBytes { fn to_aligned_bytes(&self) -> [u64; 4]; }
    impl ToAlignedBytes for Pubkey {
        fn to_aligned_bytes(&self) -> [u64; 4] { bytemuck::cast(self.to_bytes()) }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[repr(u64)]
    pub enum AccountFlag {
        Initialized = 1, Market = 2, OpenOrders = 4, RequestQueue = 8, EventQueue = 16,
        Bids = 32, Asks = 64, Disabled = 128, Closed = 256, Permissioned = 512, CrankAuthorityRequired = 1024,
    }
    #[derive(Copy, Clone)]
    #[repr(packed)]
    pub struct MarketState {
        pub account_flags: u64,
        pub own_address: [u64; 4],
        pub vault_signer_nonce: u64,
        pub coin_mint: [u64; 4],
        pub pc_mint: [u64; 4],
        pub coin_vault: [u64; 4],
        pub coin_deposits_total: u64,
        pub coin_fees_accrued: u64,
        pub pc_vault: [u64; 4],
        pub pc_deposits_total: u64,
        pub pc_fees_accrued: u64,
        pub pc_dust_threshold: u64,
        pub req_q: [u64; 4],
        pub event_q: [u64; 4],
        pub bids: [u64; 4],
        pub asks: [u64; 4],
        pub coin_lot_size: u64,
        pub pc_lot_size: u64,
        pub fee_rate_bps: u64,
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl bytemuck::Zeroable for MarketState {}
    unsafe impl bytemuck::Pod for MarketState {}
    impl MarketState {
        pub fn check_flags(&self, allow_disabled: bool) -> DexResult {
            let flags = self.account_flags;
            let required = AccountFlag::Initialized as u64 | AccountFlag::Market as u64;
            let allowed = required | AccountFlag::Permissioned as u64 | AccountFlag::CrankAuthorityRequired as u64
                | if allow_disabled { AccountFlag::Disabled as u64 } else { 0 };
            if flags & required != required || flags & !allowed != 0 { return Err(DexError(1)); }
            Ok(())
        }
    }
    #[derive(Copy, Clone)]
    #[repr(packed)]
    pub struct OpenOrders {
        pub account_flags: u64,
        pub market: [u64; 4],
        pub owner: [u64; 4],
        pub native_coin_free: u64,
        pub native_coin_total: u64,
        pub native_pc_free: u64,
        pub native_pc_total: u64,
        pub free_slot_bits: u128,
        pub is_bid_bits: u128,
        pub orders: [u128; 128],
        pub client_order_ids: [u64; 128],
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl bytemuck::Zeroable for OpenOrders {}
    unsafe impl bytemuck::Pod for OpenOrders {}
}
pub mod critbit {
    /// reduced: a flat list of leaves instead of the critbit tree (only find_by_key is used)
    #[repr(transparent)]
    pub struct Slab([u8]);
    #[derive(Copy, Clone, Debug)]
    pub struct NodeRef;
    impl Slab {
        pub fn new(raw: &mut [u8]) -> &mut Self { unsafe { &mut *(raw as *mut [u8] as *mut Slab) } }
        pub fn find_by_key(&self, key: u128) -> Option<u32> {
            self.0.chunks_exact(16).position(|c| {
                let mut b = [0u8; 16];
                b.copy_from_slice(c);
                u128::from_le_bytes(b) == key
            }).map(|i| i as u32)
        }
    }
}
