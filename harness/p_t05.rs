// T05: limits and weights of a bank
//@mod spec
//@fn h_window reach=new,same : update_net_borrows: any signed amount up to 2^60, any window start and size 1 s..30 d
//@fn h_window_clamp reach=ok : amounts beyond 64 bits
//@fn h_net_borrow_limit reach=ok,refused : check_net_borrows and remaining_net_borrows_quote: any net borrows, limit, oracle price 2^-20..2^20, stable prices {0, 0.5, 3}
//@fn h_deposit_limit reach=ok,refused,off : check_deposit_and_oo_limit: totals up to 2^46 indexed, index 1..2^10, potential serum tokens and limits up to 2^62
//@fn h_deposit_remaining reach=ok : depositing what remaining_deposits_until_limit returns never trips the limit; index 1..2^10
//@fn h_utilization reach=ok,refused : enforce_borrows_lte_deposits, enforce_max_utilization_on_borrow, minimum vault ratios {0, 0.2, 0.5, 1}
//@fn h_serum_tokens reach=ok : update_potential_serum_tokens, every old/new pair
//@fn h_maint_weights reach=before,during,after : maint_weights: weights and targets 0..2^4, shift lengths {1 s, 7 s, 1 h, 30 d}, every time
//@fn h_maint_monotone reach=ok tier=thorough : two times during one shift: the later weight is nearer to the target
//@fn h_init_asset reach=full,scaled : scaled_init_asset_weight: any weight 0..1, deposits from {0, just below, at and just above the start, 4 and 1000.7 times it}, price 2, start 2^20 quote
//@fn h_init_liab reach=full,scaled : scaled_init_liab_weight, any weight 1..4, borrows from the same set
//@fn h_init_asset_dep reach=full,scaled tier=thorough : weight 0.8, any native deposits up to 2^40
//@fn h_init_liab_bor reach=full,scaled tier=thorough : weight 1.2, any native borrows up to 2^40
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn fx(b: i128) -> I80F48 { I80F48::from_bits(b) }
fn mk() -> &'static mut Bank { begin(); let (_, b) = bank(0); b }

#[no_mangle]
pub extern "C" fn h_window() {
    let b = mk();
    let start = in_u64("start", 0, NOW);
    let size = in_u64("size", 1, 86400 * 30);
    let n0 = in_i64("net_borrows", -(1 << 61), 1 << 61);
    let amount = in_fx("amount", -(ONE << 60), ONE << 60);
    b.last_net_borrows_window_start_ts = start;
    b.net_borrow_limit_window_size_ts = size;
    b.net_borrows_in_window = n0;
    panic_is_violation("net borrows can be tracked");
    b.update_net_borrows(amount, NOW);
    let fresh = NOW >= start + size;
    let up = -((-Z::fx(amount)).div_floor(Z::s(ONE)));
    check(Z::s(b.net_borrows_in_window as i128).eq(Z::ite(fresh, up, Z::s(n0 as i128) + up)), "net borrows count the amount, rounded up, in the current window only");
    let w = b.last_net_borrows_window_start_ts;
    check(or(fresh, w == start), "a running window keeps its start");
    check(and(w <= NOW, NOW - w < size || !fresh), "the window covers the current time");
    check(implies(fresh, Z::u(w as u128).rem_floor(Z::u(size as u128)).eq(zero())), "windows start at multiples of their size");
    if fresh { reach("new"); } else { reach("same"); }
}
#[no_mangle]
pub extern "C" fn h_window_clamp() {
    let b = mk();
    b.last_net_borrows_window_start_ts = 0;
    b.net_borrow_limit_window_size_ts = 86400;
    let amount = in_i128("amount", -(1i128 << 126), 1i128 << 126);
    panic_is_violation("net borrows can be tracked");
    b.update_net_borrows(fx(amount), NOW);
    let up = -((-Z::s(amount)).div_floor(Z::s(ONE)));
    let want = up.max(Z::s(i64::MIN as i128)).min(Z::s(i64::MAX as i128));
    check(Z::s(b.net_borrows_in_window as i128).eq(want), "very large amounts are clamped, not wrapped");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_net_borrow_limit() {
    let b = mk();
    let n = in_i64("net_borrows", -(1 << 50), 1 << 50);
    let limit = in_i64("limit", -1, i64::MAX);
    let price = in_fx("price", ONE >> 20, ONE << 20);
    b.net_borrows_in_window = n;
    b.net_borrow_limit_per_window_quote = limit;
    let sp = match in_u32("stable", 0, 2) { 0 => { b.stable_price_model.stable_price = 0.0; 0 } 1 => { b.stable_price_model.stable_price = 0.5; ONE / 2 } _ => { b.stable_price_model.stable_price = 3.0; ONE * 3 } };
    panic_is_violation("the net borrow limit can be checked");
    let r = ok(b.check_net_borrows(price));
    let used = Z::s(n as i128) * Z::fx(price).max(Z::s(sp));
    let off = or(n < 0, limit < 0);
    check(r == or(off, used.le(Z::s(limit as i128) * Z::s(ONE))), "net borrows at the larger of oracle and stable price stay within the limit");
    let rem = b.remaining_net_borrows_quote(price);
    check(or(off, Z::fx(rem).eq(Z::s(limit as i128) * Z::s(ONE) - used)), "the remaining net borrows are the limit minus what is used");
    check(implies(off, rem == I80F48::MAX), "without a limit everything remains");
    if r { reach("ok"); } else { reach("refused"); }
}
fn dep_bank() -> &'static mut Bank {
    let b = mk();
    b.deposit_index = in_fx("deposit_index", ONE, ONE << 10);
    b.indexed_deposits = in_fx("deposits", 0, ONE << 46);
    b.deposit_limit = in_u64("limit", 0, 1 << 62);
    b.potential_serum_tokens = in_u64("serum", 0, 1 << 62);
    b
}
#[no_mangle]
pub extern "C" fn h_deposit_limit() {
    let b = dep_bank();
    panic_is_violation("the deposit limit can be checked");
    let r = ok(b.check_deposit_and_oo_limit());
    let total = mulfx(b.deposit_index, b.indexed_deposits) + Z::u(b.potential_serum_tokens as u128) * Z::s(ONE);
    let within = total.le(Z::u(b.deposit_limit as u128) * Z::s(ONE));
    check(r == or(b.deposit_limit == 0, within), "deposits and potential serum tokens stay within the deposit limit");
    if b.deposit_limit == 0 { reach("off"); } else if r { reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_deposit_remaining() {
    let b = dep_bank();
    let rem = b.remaining_deposits_until_limit();
    if b.deposit_limit == 0 { check(rem == I80F48::MAX, "without a limit everything remains"); return; }
    let total = mulfx(b.deposit_index, b.indexed_deposits) + Z::u(b.potential_serum_tokens as u128) * Z::s(ONE);
    let exact_rem = Z::u(b.deposit_limit as u128) * Z::s(ONE) - total;
    check(and(Z::fx(rem).le(exact_rem), Z::fx(rem).ge(exact_rem - Z::fx(b.deposit_index).div_floor(Z::s(ONE)) - Z::s(2))), "the remaining deposits are the limit minus the deposits, at most one unit less");
    if rem.to_bits() < 0 { return; }
    let mut t = TokenPosition::default();
    t.in_use_count = 1;
    t.previous_index = I80F48::ONE;
    match b.deposit(&mut t, rem, NOW) { Ok(_) => {} Err(e) => { std::mem::forget(e); check(false, "the deposit succeeds"); } }
    check(ok(b.check_deposit_and_oo_limit()), "depositing the remaining amount stays within the limit");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_utilization() {
    let b = mk();
    b.deposit_index = fx(ONE / 4 * 5);
    b.borrow_index = fx(ONE / 2 * 3);
    b.indexed_deposits = in_fx("deposits", 0, ONE << 46);
    b.indexed_borrows = in_fx("borrows", 0, ONE << 46);
    // 0.2 as the program sees it: 1 - I80F48::from_num(0.2f64)
    let (r, keep) = match in_u32("ratio", 0, 3) { 0 => (0.0, 0), 1 => (0.2, 56294995342131), 2 => (0.5, ONE / 2), _ => (1.0, ONE) };
    b.min_vault_to_deposits_ratio = r;
    let (nd, nb) = (mulfx(b.deposit_index, b.indexed_deposits), mulfx(b.borrow_index, b.indexed_borrows));
    panic_is_violation("utilization can be checked");
    let a = ok(b.enforce_borrows_lte_deposits());
    check(a == nb.le(nd), "borrows do not exceed deposits");
    let c = ok(b.enforce_max_utilization_on_borrow());
    check(c == nb.le((nd * Z::s(ONE - keep)).div_floor(Z::s(ONE))), "borrowing keeps the minimum vault ratio");
    if c { reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_serum_tokens() {
    let b = mk();
    let p = sym_u64("potential");
    let (old, new) = (sym_u64("old"), sym_u64("new"));
    b.potential_serum_tokens = p;
    panic_is_abort();
    b.update_potential_serum_tokens(old, new);
    let d = Z::u(p as u128) + Z::u(new as u128) - Z::u(old as u128);
    check(Z::u(b.potential_serum_tokens as u128).eq(Z::ite(new >= old, d, d.max(zero()))), "the potential serum tokens follow the change, never below zero");
    reach("ok");
}
fn shifting(dur: u64) -> &'static mut Bank {
    let b = mk();
    b.maint_asset_weight = in_fx("asset", 0, ONE << 4);
    b.maint_liab_weight = in_fx("liab", 0, ONE << 4);
    b.maint_weight_shift_asset_target = in_fx("asset_target", 0, ONE << 4);
    b.maint_weight_shift_liab_target = in_fx("liab_target", 0, ONE << 4);
    b.maint_weight_shift_start = NOW;
    b.maint_weight_shift_end = NOW + dur;
    // as token_edit computes it
    b.maint_weight_shift_duration_inv = I80F48::ONE / I80F48::from(dur);
    b
}
fn dur() -> u64 { match in_u32("duration", 0, 3) { 0 => 1, 1 => 7, 2 => 3600, _ => 86400 * 30 } }
#[no_mangle]
pub extern "C" fn h_maint_weights() {
    let d = dur();
    let b = shifting(d);
    let now = in_u64("now", NOW - 1_000_000, NOW + 10_000_000);
    panic_is_violation("weights are always defined");
    let (a, l) = b.maint_weights(now);
    let one = |w: I80F48, w0: I80F48, w1: I80F48| {
        let (z, z0, z1) = (Z::fx(w), Z::fx(w0), Z::fx(w1));
        check(implies(now <= NOW, w == w0), "before the shift the weight is the old one");
        check(implies(now >= NOW + d, w == w1), "after the shift the weight is the target");
        check(and(z.ge(z0.min(z1) - Z::s(1)), z.le(z0.max(z1))), "during the shift the weight lies between old and target");
        // linear: distance from the line below 2^-48 * (dur * |target - old| + 2), relative to the elapsed time
        let e = Z::s(now as i128 - NOW as i128);
        let err = (z - z0) * Z::u(d as u128) - (z1 - z0) * e;
        let tol = Z::u(d as u128) * Z::s(2) + Z::u(d as u128) * Z::s(d as i128 * 16 + 16);
        check(implies(and(now > NOW, now < NOW + d), and(err.le(tol), err.ge(-tol))), "the weight moves linearly");
    };
    one(a, b.maint_asset_weight, b.maint_weight_shift_asset_target);
    one(l, b.maint_liab_weight, b.maint_weight_shift_liab_target);
    if now <= NOW { reach("before"); } else if now < NOW + d { reach("during"); } else { reach("after"); }
}
#[no_mangle]
pub extern "C" fn h_maint_monotone() {
    let b = shifting(86400);
    let t0 = in_u64("t0", NOW, NOW + 100_000);
    let t1 = in_u64("t1", NOW, NOW + 100_000);
    assume(t0 <= t1);
    let (a0, l0) = b.maint_weights(t0);
    let (a1, l1) = b.maint_weights(t1);
    check(implies(b.maint_asset_weight <= b.maint_weight_shift_asset_target, a0 <= a1), "a rising asset weight never falls on the way");
    check(implies(b.maint_liab_weight >= b.maint_weight_shift_liab_target, l0.to_bits() + 1 >= l1.to_bits()), "a falling liability weight never rises on the way");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_init_asset() { init_asset(in_fx("weight", 0, ONE), amounts(1000 * ONE)) }
#[no_mangle]
pub extern "C" fn h_init_asset_dep() { init_asset(fx(ONE / 10 * 8), in_fx("deposits", 0, ONE << 40)) }
fn amounts(less: i128) -> I80F48 {
    let at = ONE << 19;
    fx(match in_u32("amount", 0, 5) { 0 => 0, 1 => at - less - 1, 2 => at - less, 3 => at - less + 70000000, 4 => 4 * at + 12345, _ => at * 10007 / 10 })
}
fn init_asset(weight: I80F48, deposits: I80F48) {
    let b = mk();
    b.init_asset_weight = weight;
    b.indexed_deposits = deposits;
    b.potential_serum_tokens = 1000;
    b.deposit_weight_scale_start_quote = 1048576.0;
    let w = b.scaled_init_asset_weight(fx(ONE * 2));
    check(and(w.to_bits() >= 0, w <= b.init_asset_weight), "scaling never raises the asset weight");
    let quote = (Z::fx(b.indexed_deposits) + Z::s(1000 * ONE)) * Z::s(2);
    let full = quote.le(Z::s(ONE << 20) );
    check(implies(full, w == b.init_asset_weight), "below the start the weight is not scaled");
    // weight * deposits stays at weight * start, within 2^-40
    let have = Z::fx(w) * quote;
    let cap = Z::fx(b.init_asset_weight) * Z::s(ONE << 20);
    check(or(full, and(have.le(cap + cap.div_floor(Z::pow2(40)) + quote), have.ge(cap - cap.div_floor(Z::pow2(40)) - Z::s(2) * quote))), "beyond the start the weighted deposits stay constant");
    if quote.le(Z::s(ONE << 20)) { reach("full"); } else { reach("scaled"); }
}
#[no_mangle]
pub extern "C" fn h_init_liab() { init_liab(in_fx("weight", ONE, ONE * 4), amounts(0)) }
#[no_mangle]
pub extern "C" fn h_init_liab_bor() { init_liab(fx(ONE / 10 * 12), in_fx("borrows", 0, ONE << 40)) }
fn init_liab(weight: I80F48, borrows: I80F48) {
    let b = mk();
    b.init_liab_weight = weight;
    b.indexed_borrows = borrows;
    b.borrow_weight_scale_start_quote = 1048576.0;
    let w = b.scaled_init_liab_weight(fx(ONE * 2));
    check(w >= b.init_liab_weight, "scaling never lowers the liability weight");
    let quote = Z::fx(b.indexed_borrows) * Z::s(2);
    let full = quote.le(Z::s(ONE << 20));
    check(implies(full, w == b.init_liab_weight), "below the start the weight is not scaled");
    let have = Z::fx(w) * Z::s(ONE << 20);
    let want = Z::fx(b.init_liab_weight) * quote;
    check(or(full, and(have.le(want + want.div_floor(Z::pow2(40))), have.ge(want - want.div_floor(Z::pow2(40)) - Z::s(ONE << 24)))), "beyond the start the weight grows with the borrows");
    if quote.le(Z::s(ONE << 20)) { reach("full"); } else { reach("scaled"); }
}
