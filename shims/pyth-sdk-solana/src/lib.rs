//! Stand-in for pyth-sdk-solana 0.8: account layout as published.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PythError { InvalidAccountData, BadVersionNumber, WrongAccountType }
pub mod state {
    use super::PythError;
    use solana_program::pubkey::Pubkey;
    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[repr(transparent)]
    pub struct PriceStatus(u32);
    #[allow(non_upper_case_globals)]
    impl PriceStatus {
        pub const Unknown: Self = PriceStatus(0);
        pub const Trading: Self = PriceStatus(1);
        pub const Halted: Self = PriceStatus(2);
        pub const Auction: Self = PriceStatus(3);
        pub const Ignored: Self = PriceStatus(4);
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: u32,
        pub pub_slot: u64,
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: Pubkey,
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct Rational { pub val: i64, pub numer: i64, pub denom: i64 }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceAccount {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: u32,
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub drv2: u8,
        pub drv3: u16,
        pub drv4: u32,
        pub prod: Pubkey,
        pub next: Pubkey,
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }
    unsafe impl bytemuck::Zeroable for PriceAccount {}
    unsafe impl bytemuck::Pod for PriceAccount {}
    pub fn load_price_account(data: &[u8]) -> Result<&PriceAccount, PythError> {
        let p: &PriceAccount = match data.get(0..std::mem::size_of::<PriceAccount>()) {
            None => return Err(PythError::InvalidAccountData),
            Some(d) => match bytemuck::try_from_bytes(d) { Ok(p) => p, Err(_) => return Err(PythError::InvalidAccountData) },
        };
        if p.magic != MAGIC { return Err(PythError::InvalidAccountData); }
        if p.ver != VERSION_2 { return Err(PythError::BadVersionNumber); }
        if p.atype != 3 { return Err(PythError::WrongAccountType); }
        Ok(p)
    }
}
