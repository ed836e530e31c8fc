// Mango program state for instruction-level harnesses.
#![allow(dead_code)]
use super::api::*;
pub use super::svm::*;
use crate::state::*;
use anchor_lang::prelude::*;
use anchor_lang::{Discriminator, Owner, ZeroCopy};
use fixed::types::I80F48;

/// call first
pub fn begin() {
    unsafe { DERIVED = group_signs; }
    begin_svm()
}
pub fn zc<T: ZeroCopy + Owner + Discriminator>(k: Pubkey) -> (Ai, &'static mut T) {
    let d = leak_bytes(8 + std::mem::size_of::<T>());
    d[..8].copy_from_slice(&T::discriminator());
    let p = unsafe { &mut *(d.as_mut_ptr().add(8) as *mut T) };
    (ai(k, T::owner(), d), p)
}
/// typed view of the data of a zero-copy account
pub fn view<T>(a: &Ai) -> &'static mut T {
    let p = a.data.borrow().as_ptr() as *mut u8;
    unsafe { &mut *(p.add(8) as *mut T) }
}

/// the seeds of group 0: ("Group", creator, group_num, bump)
fn group_signs(auth: &Pubkey, s: &[&[u8]]) -> bool {
    *auth == key(K_GROUP, 0) && s.len() == 4 && s[0] == b"Group"
        && s[1] == key(K_ADMIN, 0).as_ref() && s[2] == 7u32.to_le_bytes() && s[3] == [254u8]
}
// ---- program state ----
pub fn group() -> (Ai, &'static mut Group) {
    let (a, g) = zc::<Group>(key(K_GROUP, 0));
    g.creator = key(K_ADMIN, 0);
    g.admin = key(K_ADMIN, 0);
    g.security_admin = key(K_ADMIN, 1);
    g.fast_listing_admin = key(K_ADMIN, 2);
    g.group_num = 7;
    g.bump = 254;
    g.version = 2;
    g.insurance_vault = key(K_INSURANCE, 0);
    g.insurance_mint = key(K_MINT, 0);
    (a, g)
}
/// bank `n` (token index n): a plain configuration with every limit off and weights 1
pub fn bank(n: u8) -> (Ai, &'static mut Bank) { bank_at(n as u16, key(K_BANK, n), n) }
pub fn bank_at(token_index: u16, k: Pubkey, n: u8) -> (Ai, &'static mut Bank) {
    let (a, b) = zc::<Bank>(k);
    b.group = key(K_GROUP, 0);
    b.mint = key(K_MINT, n);
    b.vault = key(K_VAULT, n);
    b.oracle = key(K_ORACLE, n);
    b.fallback_oracle = Pubkey::default();
    b.oracle_config.conf_filter = I80F48::ONE;
    b.oracle_config.max_staleness_slots = -1;
    b.deposit_index = I80F48::ONE;
    b.borrow_index = I80F48::ONE;
    b.token_index = token_index;
    b.mint_decimals = 6;
    b.maint_asset_weight = I80F48::ONE;
    b.init_asset_weight = I80F48::ONE;
    b.maint_liab_weight = I80F48::ONE;
    b.init_liab_weight = I80F48::ONE;
    b.net_borrow_limit_window_size_ts = 86400;
    b.net_borrow_limit_per_window_quote = -1;
    b.borrow_weight_scale_start_quote = f64::MAX;
    b.deposit_weight_scale_start_quote = f64::MAX;
    b.interest_curve_scaling = 1.0;
    b.interest_target_utilization = 0.5;
    b.util0 = I80F48::from_bits(ONE / 2);
    b.util1 = I80F48::from_bits(ONE / 4 * 3);
    b.stable_price_model.stable_price = 1.0;
    (a, b)
}
pub fn stub_oracle(n: u8, price: I80F48) -> (Ai, &'static mut StubOracle) { stub_oracle_at(key(K_ORACLE, n), n, price) }
pub fn stub_oracle_at(k: Pubkey, n: u8, price: I80F48) -> (Ai, &'static mut StubOracle) {
    let (a, o) = zc::<StubOracle>(k);
    o.group = key(K_GROUP, 0);
    o.mint = key(K_MINT, n);
    o.price = price;
    (a, o)
}
/// perp market `n` settling in token 0: lot sizes 10 and 10, weights 1, every limit off
pub fn perp_market(n: u8) -> (Ai, &'static mut PerpMarket) {
    let (a, p) = zc::<PerpMarket>(key(K_PERP, n));
    p.group = key(K_GROUP, 0);
    p.perp_market_index = n as u16;
    p.base_decimals = 6;
    p.bids = key(K_BIDS, n);
    p.asks = key(K_ASKS, n);
    p.event_queue = key(K_EVENTS, n);
    p.oracle = key(K_ORACLE, 32 + n);
    p.oracle_config.conf_filter = I80F48::ONE;
    p.oracle_config.max_staleness_slots = -1;
    p.stable_price_model.stable_price = 1.0;
    p.quote_lot_size = 10;
    p.base_lot_size = 10;
    p.maint_base_asset_weight = I80F48::ONE;
    p.init_base_asset_weight = I80F48::ONE;
    p.maint_base_liab_weight = I80F48::ONE;
    p.init_base_liab_weight = I80F48::ONE;
    p.maint_overall_asset_weight = I80F48::ONE;
    p.init_overall_asset_weight = I80F48::ONE;
    p.settle_pnl_limit_factor = -1.0;
    p.settle_pnl_limit_window_size_ts = 86400;
    (a, p)
}
pub fn vault(n: u8, amount: u64) -> Ai { token_account(key(K_VAULT, n), key(K_MINT, n), key(K_GROUP, 0), amount) }

#[derive(Clone)]
pub struct Ma { pub a: Ai, tok: usize, ser: usize, perp: usize, oo: usize, tcs: usize }
/// A mango account with the given numbers of slots, laid out by the program's own code.
pub fn mango_account(n: u8, tokens: u8, serum3: u8, perps: u8, oos: u8, tcs: u8) -> Ma {
    let info = ai(key(K_ACCOUNT, n), crate::ID, leak_bytes(MangoAccount::space(tokens, serum3, perps, oos, tcs)));
    {
        let loader: AccountLoader<'static, MangoAccountFixed> = AccountLoader::try_from_unchecked(&crate::ID, leak(info.clone())).unwrap();
        let l: &'static AccountLoader<'static, MangoAccountFixed> = leak(loader);
        let mut acc = l.load_full_init().unwrap();
        acc.fixed.group = key(K_GROUP, 0);
        acc.fixed.owner = key(K_OWNER, n);
        acc.fixed.account_num = n as u32;
        acc.resize_dynamic_content(tokens, serum3, perps, oos, tcs).unwrap();
    }
    let b = 8 + std::mem::size_of::<MangoAccountFixed>();
    Ma {
        a: info,
        tok: b + MangoAccount::dynamic_token_vec_offset() + 4,
        ser: b + MangoAccount::dynamic_serum3_vec_offset(tokens) + 4,
        perp: b + MangoAccount::dynamic_perp_vec_offset(tokens, serum3) + 4,
        oo: b + MangoAccount::dynamic_perp_oo_vec_offset(tokens, serum3, perps) + 4,
        tcs: b + MangoAccount::dynamic_token_conditional_swap_vec_offset(tokens, serum3, perps, oos) + 4,
    }
}
impl Ma {
    fn at<T>(&self, off: usize, i: usize) -> &'static mut T {
        let p = self.a.data.borrow().as_ptr() as *mut u8;
        unsafe { &mut *(p.add(off + i * std::mem::size_of::<T>()) as *mut T) }
    }
    pub fn fixed(&self) -> &'static mut MangoAccountFixed { view::<MangoAccountFixed>(&self.a) }
    pub fn token(&self, i: usize) -> &'static mut TokenPosition { self.at(self.tok, i) }
    pub fn serum3(&self, i: usize) -> &'static mut Serum3Orders { self.at(self.ser, i) }
    pub fn perp(&self, i: usize) -> &'static mut PerpPosition { self.at(self.perp, i) }
    pub fn perp_oo(&self, i: usize) -> &'static mut PerpOpenOrder { self.at(self.oo, i) }
    pub fn tcs(&self, i: usize) -> &'static mut TokenConditionalSwap { self.at(self.tcs, i) }
    /// put a position of `token_index` into slot i
    pub fn set_token(&self, i: usize, token_index: u16, indexed: I80F48) -> &'static mut TokenPosition {
        let t = self.token(i);
        *t = TokenPosition::default();
        t.token_index = token_index;
        t.indexed_position = indexed;
        t
    }
    /// put a position in perp market `market` into slot i
    pub fn set_perp(&self, i: usize, market: u16, base_lots: i64, quote: I80F48) -> &'static mut PerpPosition {
        let t = self.perp(i);
        *t = PerpPosition::default();
        t.market_index = market;
        t.base_position_lots = base_lots;
        t.quote_position_native = quote;
        t
    }
}
pub fn ok(r: Result<()>) -> bool { match r { Ok(()) => true, Err(e) => { if !symbolic() && std::env::var("RSYM_LOG").is_ok() { eprintln!("error: {:?}", e); } std::mem::forget(e); false } } }
/// serialized arguments of an instruction
pub fn args<T: AnchorSerialize>(t: T) -> Vec<u8> { t.try_to_vec().unwrap() }
/// a serum open orders account; its fields are packed
pub fn open_orders(n: u8) -> (Ai, &'static mut serum_dex::state::OpenOrders) {
    let d = leak_bytes(12 + std::mem::size_of::<serum_dex::state::OpenOrders>());
    d[..5].copy_from_slice(b"serum");
    let l = d.len();
    d[l - 7..].copy_from_slice(b"padding");
    let p = unsafe { &mut *(d.as_mut_ptr().add(5) as *mut serum_dex::state::OpenOrders) };
    p.account_flags = 5;
    (ai(key(K_OO, n), key(K_SERUM, 0), d), p)
}
/// instructions sysvar: each instruction is (program, accounts, data)
pub fn ix_sysvar(ixs: &[(Pubkey, Vec<Pubkey>, Vec<u8>)], current: u16) -> Ai {
    let mut d = vec![];
    d.extend_from_slice(&(ixs.len() as u16).to_le_bytes());
    let mut at = 2 + 2 * ixs.len();
    for (_, a, b) in ixs { d.extend_from_slice(&(at as u16).to_le_bytes()); at += 2 + 33 * a.len() + 32 + 2 + b.len(); }
    for (p, a, b) in ixs {
        d.extend_from_slice(&(a.len() as u16).to_le_bytes());
        for k in a { d.push(2); d.extend_from_slice(k.as_ref()); }
        d.extend_from_slice(p.as_ref());
        d.extend_from_slice(&(b.len() as u16).to_le_bytes());
        d.extend_from_slice(b);
    }
    d.extend_from_slice(&current.to_le_bytes());
    let mem = leak_bytes(d.len());
    mem.copy_from_slice(&d);
    ai(solana_program::sysvar::instructions::ID, solana_program::sysvar::ID, mem)
}
pub fn val<T>(r: Result<T>) -> Option<T> { match r { Ok(v) => Some(v), Err(e) => { if !symbolic() && std::env::var("RSYM_LOG").is_ok() { eprintln!("error: {:?}", e); } std::mem::forget(e); None } } }
/// run f on the loaded account
pub fn with_acc<R>(a: &Ma, f: impl FnOnce(&MangoAccountRef) -> R) -> R {
    let l: &'static AccountLoader<'static, MangoAccountFixed> = leak(AccountLoader::try_from_unchecked(&crate::ID, leak(a.a.clone())).unwrap());
    let x = l.load_full().unwrap();
    let r = f(&x.borrow());
    r
}
/// run f on the mutably loaded account
pub fn with_acc_mut<R>(a: &Ma, f: impl FnOnce(&mut MangoAccountLoadedRefCellMut) -> R) -> R {
    let l: &'static AccountLoader<'static, MangoAccountFixed> = leak(AccountLoader::try_from_unchecked(&crate::ID, leak(a.a.clone())).unwrap());
    let mut x = l.load_full_mut().unwrap();
    f(&mut x)
}
