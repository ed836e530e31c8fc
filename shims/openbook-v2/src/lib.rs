//! Stand-in for openbook-v2: only what mango-v4 names (program id type, market mints).
use anchor_lang::prelude::*;
declare_id!("opnb2LAfJYbRMAHHvqjCwQxanZn7ReEHp1k81EohpZb");
pub mod program {
    #[derive(Clone)]
    pub struct OpenbookV2;
    impl anchor_lang::Id for OpenbookV2 {
        fn id() -> anchor_lang::prelude::Pubkey { crate::ID }
    }
}
pub mod state {
    use super::*;
    #[account(zero_copy)]
    pub struct Market {
        pub base_mint: Pubkey,
        pub quote_mint: Pubkey,
        pub base_lot_size: i64,
        pub quote_lot_size: i64,
        pub bids: Pubkey,
        pub asks: Pubkey,
        pub event_heap: Pubkey,
        pub market_base_vault: Pubkey,
        pub market_quote_vault: Pubkey,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, AnchorSerialize, AnchorDeserialize)]
    #[repr(u8)]
    pub enum Side { Bid = 0, Ask = 1 }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, AnchorSerialize, AnchorDeserialize)]
    #[repr(u8)]
    pub enum SelfTradeBehavior { DecrementTake = 0, CancelProvide = 1, AbortTransaction = 2 }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, AnchorSerialize, AnchorDeserialize)]
    #[repr(u8)]
    pub enum PlaceOrderType { Limit = 0, ImmediateOrCancel = 1, PostOnly = 2, Market = 3, PostOnlySlide = 4 }
}
