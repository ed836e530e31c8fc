// T07: bank configuration
//@fn h_copy reach=ok : every content of the existing bank (all 383 words symbolic), any vault number and bump
//@fn h_weights reach=accepted,refused : the four weights and both liquidation fees symbolic in [-4, 4]
//@fn h_curve reach=accepted,refused : utilizations and rates symbolic in [-2, 2]
//@fn h_rest reach=accepted,refused : each other parameter in turn, any value (floats by cases; NaN is not considered)
//@fn h_force reach=accepted,refused : reduce only, asset liquidation and force withdraw flags, any maintenance asset weight
use super::api::*;
use super::world::*;
use crate::state::*;
use fixed::types::I80F48;

const N: usize = std::mem::size_of::<Bank>();
fn words(b: &Bank) -> &'static mut [u64] { unsafe { std::slice::from_raw_parts_mut(b as *const Bank as *mut u64, N / 8) } }
#[no_mangle]
pub extern "C" fn h_copy() {
    begin();
    panic_is_violation("copying a bank cannot fail");
    let (_a, b) = bank(0);
    for w in words(b) { *w = sym_u64("w"); }
    let (num, bump) = (sym_u32("bank_num"), sym_u8("bump"));
    let n = Bank::from_existing_bank(b, key(K_VAULT, 77), num, bump);
    check(n.vault == key(K_VAULT, 77), "the new bank has its own vault");
    check(and(n.bank_num == num, n.bump == bump), "the new bank has its own address");
    check(and(and(n.indexed_deposits.is_zero(), n.indexed_borrows.is_zero()), n.dust.is_zero()), "the new bank holds no positions");
    check(and(n.collected_fees_native.is_zero(), and(n.collected_liquidation_fees.is_zero(), n.collected_collateral_fees.is_zero())), "the new bank holds no fees");
    check(and(n.fees_withdrawn == 0, n.potential_serum_tokens == 0), "the new bank holds no fees");
    check(and(n.flash_loan_approved_amount == 0, n.flash_loan_token_account_initial == u64::MAX), "the new bank has no flash loan");
    check(n.net_borrows_in_window == 0, "the new bank has lent nothing");
    // everything else is shared by the banks of a token
    let mut own = [false; N];
    macro_rules! reset { ($($f:ident)*) => { $( {
        let at = &b.$f as *const _ as usize - b as *const Bank as usize;
        for i in at..at + std::mem::size_of_val(&b.$f) { own[i] = true; }
    } )* } }
    reset!(vault indexed_deposits indexed_borrows dust collected_fees_native collected_liquidation_fees collected_collateral_fees fees_withdrawn flash_loan_approved_amount flash_loan_token_account_initial net_borrows_in_window potential_serum_tokens bump bank_num reserved);
    let (x, y) = (words(b), words(&n));
    let mut same = true;
    for i in 0..N / 8 {
        let mut m = 0u64;
        for j in 0..8 { if !own[i * 8 + j] { m |= 0xffu64 << (8 * j); } }
        if m != 0 { same = and(same, x[i] & m == y[i] & m); }
    }
    check(same, "everything else is copied");
    check(n.reserved == [0u8; 1900], "reserved bytes are zero");
    reach("ok");
}
fn accepts(b: &Bank) -> bool { ok(b.verify()) }
fn verdict(a: bool, want: bool) {
    check(implies(a, want), "only sane configurations are accepted");
    check(implies(want, a), "sane configurations are accepted");
    if a { reach("accepted"); } else { reach("refused"); }
}
fn any(name: &'static str) -> I80F48 { in_fx(name, -4 * ONE, 4 * ONE) }
#[no_mangle]
pub extern "C" fn h_weights() {
    begin();
    let (_a, b) = bank(0);
    b.init_asset_weight = any("init_asset");
    b.maint_asset_weight = any("maint_asset");
    b.init_liab_weight = any("init_liab");
    b.maint_liab_weight = any("maint_liab");
    b.liquidation_fee = any("liquidation_fee");
    b.platform_liquidation_fee = any("platform_fee");
    let z = I80F48::ZERO;
    let want = and(and(and(z <= b.init_asset_weight, b.init_asset_weight <= b.maint_asset_weight), and(z <= b.maint_liab_weight, b.maint_liab_weight <= b.init_liab_weight)), and(b.liquidation_fee >= z, b.platform_liquidation_fee >= z));
    verdict(accepts(b), want);
}
#[no_mangle]
pub extern "C" fn h_curve() {
    begin();
    let (_a, b) = bank(0);
    b.util0 = any("util0");
    b.util1 = any("util1");
    b.rate0 = any("rate0");
    b.rate1 = any("rate1");
    b.max_rate = any("max_rate");
    b.zero_util_rate = any("zero_util_rate");
    b.adjustment_factor = any("adjustment_factor");
    b.loan_fee_rate = any("loan_fee_rate");
    b.loan_origination_fee_rate = any("loan_origination_fee_rate");
    let z = I80F48::ZERO;
    let mut want = and(and(z <= b.util0, b.util0 <= b.util1), b.util1 <= I80F48::ONE);
    for x in [b.rate0, b.rate1, b.max_rate, b.zero_util_rate, b.adjustment_factor, b.loan_fee_rate, b.loan_origination_fee_rate] { want = and(want, x >= z); }
    verdict(accepts(b), want);
}
#[no_mangle]
pub extern "C" fn h_rest() {
    begin();
    let (_a, b) = bank(0);
    let f = [0.0f64, -0.0, 1.0, -1.0e-9, 1.0e-9, 0.999, 1.001, f64::INFINITY, f64::NEG_INFINITY];
    let g = [0.0f32, -0.0, 1.0, -1.0e-9, 1.0e-9, f32::INFINITY];
    macro_rules! fl { () => { f[case("float", 9) as usize] } }
    macro_rules! fs { () => { g[case("single", 6) as usize] } }
    let want = match case("parameter", 17) {
        0 => { b.oracle_config.conf_filter = any("x"); b.oracle_config.conf_filter >= 0 }
        1 => { b.stable_price_model.delay_growth_limit = fs!(); b.stable_price_model.delay_growth_limit >= 0.0 }
        2 => { b.stable_price_model.stable_growth_limit = fs!(); b.stable_price_model.stable_growth_limit >= 0.0 }
        3 => { let x = fl!(); b.min_vault_to_deposits_ratio = x; x >= 0.0 && x <= 1.0 }
        4 => { let x = sym_i64("limit"); b.net_borrow_limit_per_window_quote = x; x >= -1 }
        5 => { let x = fl!(); b.borrow_weight_scale_start_quote = x; x > 0.0 }
        6 => { let x = fl!(); b.deposit_weight_scale_start_quote = x; x > 0.0 }
        7 => { let x = sym_u8("reduce_only"); b.reduce_only = x; x <= 2 }
        8 => { let x = fs!(); b.token_conditional_swap_taker_fee_rate = x; x >= 0.0 }
        9 => { let x = fs!(); b.token_conditional_swap_maker_fee_rate = x; x >= 0.0 }
        10 => { let x = fs!(); b.flash_loan_swap_fee_rate = x; x >= 0.0 }
        11 => { let x = fl!(); b.interest_curve_scaling = x; x >= 1.0 }
        12 => { let x = fs!(); b.interest_target_utilization = x; x >= 0.0 && x <= 1.0 }
        13 => { b.maint_weight_shift_duration_inv = any("x"); b.maint_weight_shift_duration_inv >= 0 }
        14 => { b.maint_weight_shift_asset_target = any("x"); b.maint_weight_shift_asset_target >= 0 }
        15 => { b.maint_weight_shift_liab_target = any("x"); b.maint_weight_shift_liab_target >= 0 }
        _ => { let x = fs!(); b.collateral_fee_per_day = x; x >= 0.0 }
    };
    verdict(accepts(b), want);
}
#[no_mangle]
pub extern "C" fn h_force() {
    begin();
    let (_a, b) = bank(0);
    b.reduce_only = case("reduce_only", 4) as u8;
    b.disable_asset_liquidation = case("disable_asset_liquidation", 2) as u8;
    b.force_withdraw = case("force_withdraw", 2) as u8;
    b.init_asset_weight = I80F48::ZERO;
    b.maint_asset_weight = in_fx("maint_asset", 0, ONE);
    let mut want = b.reduce_only <= 2;
    if b.disable_asset_liquidation == 1 { want = and(want, and(b.reduce_only > 0, b.maint_asset_weight.is_zero())); }
    if b.force_withdraw == 1 { want = and(want, and(b.reduce_only == 1, and(b.disable_asset_liquidation == 1, b.maint_asset_weight.is_zero()))); }
    verdict(accepts(b), want);
}
