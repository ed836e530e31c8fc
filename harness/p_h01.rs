// H01: account health over tokens
//@mod spec
//@fn h_value reach=ok : health (all three types) of two token positions: positions up to +-2^40 indexed, indexes 1.25/1.5, weights 0..2, oracle price 2 (token 0) and 0.5 (token 1), stable prices from {lower, equal, higher}
//@fn h_order reach=ok : init <= liquidation end <= maint for every bank the program accepts (weights ordered as Bank::verify demands; second token's weights fixed), same ranges
//@fn h_price reach=ok : oracle prices 2^-20..2^20 symbolic, one position
//@fn h_monotone reach=ok : two accounts that differ in one position: the larger position has the larger health
//@fn h_scanning reach=ok : the scanning retriever, banks in reverse order, and the fixed retriever see the same health
//@fn h_skipping reach=ok,missing,badoracle : health that skips missing banks and bad oracles is at most the full health and never skips a borrow
//@fn h_adjust reach=ok : adjust_token_balance equals recomputation, scaled weights off or on, stable price below or above the oracle's
//@fn h_retriever reach=ok,refused : swapped banks, swapped oracles, missing accounts, a bank of another group, foreign owner, stale oracle
//@fn h_assets reach=ok : health_assets_and_liabs: assets minus liabilities is the health; ratio sign; assets_and_liabs independent of token order
//@fn h_taken reach=ok,nothing : spot_amount_taken_for_health_zero / given: taking the amount leaves nonnegative health, prices from 3 weighted pairs
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::health::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn fx(b: i128) -> I80F48 { I80F48::from_bits(b) }
pub struct W { acc: Ma, b: [Ai; 2], bk: [&'static mut Bank; 2], o: [Ai; 2], so: [&'static mut StubOracle; 2] }
fn world() -> W {
    begin();
    set_clock(NOW, 1000);
    let _ = group();
    let acc = mango_account(0, 3, 0, 0, 0, 0);
    let (b0, bk0) = bank(0);
    let (b1, bk1) = bank(1);
    let (o0, s0) = stub_oracle(0, fx(ONE * 2));
    let (o1, s1) = stub_oracle(1, fx(ONE / 2));
    for b in [&mut *bk0, &mut *bk1] { b.deposit_index = fx(ONE / 4 * 5); b.borrow_index = fx(ONE / 2 * 3); }
    bk0.stable_price_model.stable_price = 2.0;
    bk1.stable_price_model.stable_price = 0.5;
    W { acc, b: [b0, b1], bk: [bk0, bk1], o: [o0, o1], so: [s0, s1] }
}
fn weights(b: &mut Bank, n: &'static [&'static str; 4]) {
    b.maint_asset_weight = in_fx(n[0], 0, ONE * 2);
    b.init_asset_weight = in_fx(n[1], 0, ONE * 2);
    b.maint_liab_weight = in_fx(n[2], 0, ONE * 2);
    b.init_liab_weight = in_fx(n[3], 0, ONE * 2);
}
const N0: [&str; 4] = ["maint_asset0", "init_asset0", "maint_liab0", "init_liab0"];
const N1: [&str; 4] = ["maint_asset1", "init_asset1", "maint_liab1", "init_liab1"];
fn verified(b: &Bank) -> bool { and(b.maint_asset_weight >= b.init_asset_weight, b.init_liab_weight >= b.maint_liab_weight) }
fn accs(w: &W) -> &'static Vec<Ai> { leak(vec![w.b[0].clone(), w.b[1].clone(), w.o[0].clone(), w.o[1].clone()]) }
fn types() -> [HealthType; 3] { [HealthType::Init, HealthType::LiquidationEnd, HealthType::Maint] }
fn health(w: &W, t: HealthType, ais: &'static [Ai]) -> Option<I80F48> { with_acc(&w.acc, |a| val(compute_health_from_fixed_accounts(a, t, ais, NOW))) }
/// the contribution of a native balance (2^48) with exact weights and prices, scaled by 2^144
fn contribution(native: Z, b: &Bank, t: HealthType, oracle: Z, stable: Z) -> Z {
    let (aw, lw) = match t { HealthType::Maint => (b.maint_asset_weight, b.maint_liab_weight), _ => (b.init_asset_weight, b.init_liab_weight) };
    let (ap, lp) = match t { HealthType::Init => (oracle.min(stable), oracle.max(stable)), _ => (oracle, oracle) };
    Z::ite(native.lt(zero()), native * (Z::fx(lw) * lp), native * (Z::fx(aw) * ap))
}
fn native(t: &TokenPosition, b: &Bank) -> Z { exact(t.indexed_position, b).div_floor(Z::pow2(48)) }
fn stable(case: u32, oracle: i128) -> (f64, i128) {
    let o = oracle as f64 / ONE as f64;
    match case { 0 => (o, oracle), 1 => (o / 2.0, oracle / 2), _ => (o * 4.0, oracle * 4) }
}
#[no_mangle]
pub extern "C" fn h_value() {
    let w = world();
    weights(w.bk[0], &N0);
    weights(w.bk[1], &N1);
    let c = case("stable", 3);
    let (s0, z0) = match c { 0 => stable(0, ONE * 2), 1 => stable(1, ONE * 2), _ => stable(2, ONE * 2) };
    w.bk[0].stable_price_model.stable_price = s0;
    let t0 = w.acc.set_token(0, 0, in_fx("pos0", -(ONE << 40), ONE << 40));
    let t1 = w.acc.set_token(2, 1, in_fx("pos1", -(ONE << 40), ONE << 40));
    let which = case("type", 3);
    let t = match which { 0 => HealthType::Init, 1 => HealthType::LiquidationEnd, _ => HealthType::Maint };
    let h = match health(&w, t, accs(&w)) { Some(h) => h, None => { check(false, "health can be computed"); return; } };
    let (n0, n1) = (native(t0, w.bk[0]), native(t1, w.bk[1]));
    let want = contribution(n0, w.bk[0], t, Z::s(ONE * 2), Z::s(z0)) + contribution(n1, w.bk[1], t, Z::s(ONE / 2), Z::s(ONE / 2));
    let got = Z::fx(h) * Z::pow2(96);
    let tol = (n0.abs() + n1.abs()) * Z::pow2(49) + Z::pow2(98);
    check(and(got.le(want + tol), got.ge(want - tol)), "health is the sum of the weighted position values");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_order() {
    let w = world();
    weights(w.bk[0], &N0);
    assume(verified(w.bk[0]));
    w.bk[1].init_asset_weight = fx(ONE / 10 * 7);
    w.bk[1].init_liab_weight = fx(ONE / 10 * 13);
    let c = case("stable", 3);
    w.bk[0].stable_price_model.stable_price = match c { 0 => 2.0, 1 => 1.0, _ => 8.0 };
    w.acc.set_token(0, 0, in_fx("pos0", -(ONE << 40), ONE << 40));
    w.acc.set_token(1, 1, in_fx("pos1", -(ONE << 40), ONE << 40));
    let ais = accs(&w);
    let h: Vec<Option<I80F48>> = types().iter().map(|t| health(&w, *t, ais)).collect();
    match (h[0], h[1], h[2]) {
        (Some(i), Some(l), Some(m)) => { check(i <= l, "initial health is at most liquidation end health"); check(l <= m, "liquidation end health is at most maintenance health"); }
        _ => check(false, "health can be computed"),
    }
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_price() {
    let w = world();
    let p = in_fx("price", ONE >> 20, ONE << 20);
    w.so[0].price = p;
    w.bk[0].maint_asset_weight = fx(ONE / 10 * 9);
    w.bk[0].maint_liab_weight = fx(ONE / 10 * 11);
    w.bk[0].init_asset_weight = fx(ONE / 10 * 8);
    w.bk[0].init_liab_weight = fx(ONE / 10 * 12);
    w.bk[0].stable_price_model.stable_price = 3.0;
    let t0 = w.acc.set_token(1, 0, in_fx("pos0", -(ONE << 40), ONE << 40));
    let t = match case("type", 3) { 0 => HealthType::Init, 1 => HealthType::LiquidationEnd, _ => HealthType::Maint };
    let ais = leak(vec![w.b[0].clone(), w.o[0].clone()]);
    let h = match health(&w, t, ais) { Some(h) => h, None => { check(false, "health can be computed"); return; } };
    let n0 = native(t0, w.bk[0]);
    let want = contribution(n0, w.bk[0], t, Z::fx(p), Z::s(ONE * 3));
    let got = Z::fx(h) * Z::pow2(96);
    let tol = n0.abs() * Z::pow2(49) + Z::pow2(98);
    check(and(got.le(want + tol), got.ge(want - tol)), "health uses the more conservative of oracle and stable price");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_monotone() {
    let w = world();
    weights(w.bk[0], &N0);
    assume(w.bk[0].maint_liab_weight >= w.bk[0].maint_asset_weight && w.bk[0].init_liab_weight >= w.bk[0].init_asset_weight);
    let (a, b) = (in_fx("pos_a", -(ONE << 40), ONE << 40), in_fx("pos_b", -(ONE << 40), ONE << 40));
    assume(a <= b);
    let t = match case("type", 3) { 0 => HealthType::Init, 1 => HealthType::LiquidationEnd, _ => HealthType::Maint };
    w.acc.set_token(1, 1, fx(-(ONE << 20)));
    w.acc.set_token(0, 0, a);
    let ais = accs(&w);
    let ha = health(&w, t, ais);
    w.acc.set_token(0, 0, b);
    let hb = health(&w, t, ais);
    match (ha, hb) { (Some(x), Some(y)) => check(x <= y, "more of a token is never less health"), _ => check(false, "health can be computed") }
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_scanning() {
    let w = world();
    weights(w.bk[0], &N0);
    weights(w.bk[1], &N1);
    w.acc.set_token(0, 0, in_fx("pos0", -(ONE << 40), ONE << 40));
    w.acc.set_token(1, 1, in_fx("pos1", -(ONE << 40), ONE << 40));
    let t = match case("type", 3) { 0 => HealthType::Init, 1 => HealthType::LiquidationEnd, _ => HealthType::Maint };
    let h = health(&w, t, accs(&w));
    let ais: &'static Vec<Ai> = leak(vec![w.b[1].clone(), w.b[0].clone(), w.o[1].clone(), w.o[0].clone()]);
    let g = with_acc(&w.acc, |a| { let r = match val(ScanningAccountRetriever::new(ais, &key(K_GROUP, 0))) { Some(r) => leak(r), None => return None }; val(compute_health(a, t, r, NOW)) });
    match (h, g) { (Some(x), Some(y)) => check(x == y, "account order does not change health"), _ => check(false, "health can be computed") }
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_skipping() {
    let w = world();
    weights(w.bk[0], &N0);
    let p0 = in_fx("pos0", -(ONE << 40), ONE << 40);
    w.acc.set_token(0, 0, p0);
    w.acc.set_token(1, 1, in_fx("pos1", -(ONE << 40), ONE << 40));
    let t = match case("type", 3) { 0 => HealthType::Init, 1 => HealthType::LiquidationEnd, _ => HealthType::Maint };
    let full = health(&w, t, accs(&w));
    let which = case("case", 3);
    let ais: &'static Vec<Ai> = match which {
        0 => accs(&w),
        1 => leak(vec![w.b[1].clone(), w.o[1].clone()]),
        _ => { w.bk[0].oracle_config.max_staleness_slots = 10; w.so[0].last_update_slot = 900; accs(&w) }
    };
    let g = with_acc(&w.acc, |a| {
        let r = match val(new_fixed_order_account_retriever_with_optional_banks(ais, a, (NOW, 1000))) { Some(r) => leak(r), None => return None };
        val(new_health_cache_skipping_missing_banks_and_bad_oracles(a, r, NOW)).map(|c| c.health(t))
    });
    let full = match full { Some(f) => f, None => { check(false, "health can be computed"); return; } };
    match g {
        Some(g) => {
            check(g <= full, "skipping assets never raises health");
            check(or(which == 0, p0.to_bits() >= 0), "a borrow is never skipped");
            check(or(which != 0, g == full), "nothing is skipped when everything is there");
            match which { 0 => reach("ok"), 1 => reach("missing"), _ => reach("badoracle") }
        }
        None => check(and(which != 0, p0.to_bits() < 0), "assets with bad oracles can be skipped"),
    }
}
#[no_mangle]
pub extern "C" fn h_adjust() {
    let w = world();
    w.bk[0].maint_asset_weight = fx(ONE / 10 * 9);
    w.bk[0].maint_liab_weight = fx(ONE / 10 * 11);
    w.bk[0].init_asset_weight = fx(ONE / 10 * 8);
    w.bk[0].init_liab_weight = fx(ONE / 10 * 12);
    w.bk[0].deposit_index = I80F48::ONE;
    w.bk[0].borrow_index = I80F48::ONE;
    let which = case("case", 6);
    if which >= 3 {
        w.bk[0].indexed_deposits = fx(ONE << 30);
        w.bk[0].indexed_borrows = fx(ONE << 29);
        w.bk[0].deposit_weight_scale_start_quote = 1048576.0;
        w.bk[0].borrow_weight_scale_start_quote = 524288.0;
    }
    w.bk[0].stable_price_model.stable_price = match which { 0 | 3 => 2.0, 1 | 4 => 1.0, _ => 8.0 };
    let (p0, d) = if which < 3 { (in_fx("pos0", -(ONE << 30), ONE << 30), in_fx("change", -(ONE << 30), ONE << 30)) }
        else if sym_bool("borrow") { (in_fx("pos0", -(ONE << 30), 0), in_fx("change", -(ONE << 30), -1)) }
        else { (in_fx("pos0", 0, ONE << 30), in_fx("change", 1, ONE << 30)) };
    let t0 = w.acc.set_token(0, 0, p0);
    w.acc.set_token(1, 1, fx(-(ONE << 20)));
    let ais = accs(&w);
    let mk = |w: &W| with_acc(&w.acc, |a| { let r = match val(new_fixed_order_account_retriever(ais, a, (NOW, 1000))) { Some(r) => leak(r), None => return None }; val(new_health_cache(a, r, NOW)) });
    let mut c = match mk(&w) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    // the bank's totals move as well
    t0.indexed_position = p0 + d;
    if which >= 3 { w.bk[0].indexed_deposits = fx(ONE << 31); w.bk[0].indexed_borrows = fx(3 * (ONE << 29)); }
    if val(c.adjust_token_balance(w.bk[0], d)).is_none() { check(false, "the balance can be adjusted"); return; }
    let f = match mk(&w) { Some(c) => c, None => return };
    for t in types() { check(c.health(t) == f.health(t), "adjusted health equals recomputed health"); }
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_retriever() {
    let w = world();
    w.acc.set_token(0, 0, fx(ONE * 100));
    w.acc.set_token(1, 1, fx(-ONE * 10));
    let (b, o) = (|i: usize| w.b[i].clone(), |i: usize| w.o[i].clone());
    let which = case("case", 8);
    let ais = match which {
        0 => vec![b(0), b(1), o(0), o(1)],
        1 => vec![b(1), b(0), o(1), o(0)],
        2 => vec![b(0), b(1), o(1), o(0)],
        3 => vec![b(0), o(0)],
        4 => { w.bk[1].group = key(K_GROUP, 1); vec![b(0), b(1), o(0), o(1)] }
        5 => { let mut x = b(1); x.owner = leak(key(K_OTHER, 1)); vec![b(0), x, o(0), o(1)] }
        6 => { w.bk[1].oracle_config.max_staleness_slots = 10; w.so[1].last_update_slot = 900; vec![b(0), b(1), o(0), o(1)] }
        _ => vec![b(0), b(0), o(0), o(0)],
    };
    let ais = leak(ais);
    let h = health(&w, HealthType::Init, ais);
    // the fixed order lets a bank stand left of its position only
    check(h.is_some() == (which == 0), "health needs each position's own bank and fresh oracle");
    if h.is_some() { reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_assets() {
    let w = world();
    weights(w.bk[0], &N0);
    let rev = sym_bool("reversed");
    let (i, j) = if rev { (1, 0) } else { (0, 1) };
    w.acc.set_token(i, 0, in_fx("pos0", -(ONE << 40), ONE << 40));
    w.acc.set_token(j, 1, in_fx("pos1", -(ONE << 40), ONE << 40));
    let ais: &'static Vec<Ai> = if rev { leak(vec![w.b[1].clone(), w.b[0].clone(), w.o[1].clone(), w.o[0].clone()]) } else { accs(&w) };
    let t = match case("type", 3) { 0 => HealthType::Init, 1 => HealthType::LiquidationEnd, _ => HealthType::Maint };
    let c = with_acc(&w.acc, |a| { let r = match val(new_fixed_order_account_retriever(ais, a, (NOW, 1000))) { Some(r) => leak(r), None => return None }; val(new_health_cache(a, r, NOW)) });
    let c = match c { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let h = c.health(t);
    let (a1, l1) = c.health_assets_and_liabs_stable_assets(t);
    let (a2, l2) = c.health_assets_and_liabs_stable_liabs(t);
    let near = |x: I80F48, y: I80F48| { let d = Z::fx(x) - Z::fx(y); and(d.le(Z::s(4)), d.ge(Z::s(-4))) };
    check(and(near(a1 - l1, h), near(a2 - l2, h)), "assets minus liabilities is the health");
    check(and(and(a1.to_bits() >= 0, l1.to_bits() >= 0), and(a2.to_bits() >= 0, l2.to_bits() >= 0)), "assets and liabilities are not negative");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_taken() {
    begin();
    let health = in_fx("health", -(ONE << 40), ONE << 40);
    let spot = in_fx("spot", -(ONE << 40), ONE << 40);
    let (ap, lp) = match case("prices", 4) { 0 => (ONE, ONE), 1 => (ONE / 10 * 8, ONE / 10 * 12), 2 => (0, ONE * 3), _ => (ONE * 100, ONE * 200) };
    let t = match val(spot_amount_taken_for_health_zero(health, spot, fx(ap), fx(lp))) { Some(t) => t, None => { check(false, "the amount is defined"); return; } };
    check(t.to_bits() >= 0, "the amount is not negative");
    check(implies(health.to_bits() <= 0, t.is_zero()), "nothing can be taken without health");
    // value of a balance: asset price above zero, liability price below
    let value = |x: Z| Z::ite(x.lt(zero()), x * Z::s(lp), x * Z::s(ap));
    let lost = value(Z::fx(spot)) - value(Z::fx(spot) - Z::fx(t));
    check(implies(health.to_bits() > 0, lost.le(Z::fx(health) * Z::s(ONE) + Z::pow2(49))), "taking the amount leaves nonnegative health");
    check(implies(health.to_bits() > 0, lost.ge(Z::fx(health) * Z::s(ONE) - Z::s(2) * Z::s(lp) - Z::pow2(50))), "taking more would make health negative");
    if t.is_zero() { reach("nothing"); } else { reach("ok"); }
    // the mirrored question
    let g = match val(spot_amount_given_for_health_zero(health, spot, fx(ap), fx(lp))) { Some(t) => t, None => { check(ap == 0, "the given amount is defined"); return; } };
    let won = value(Z::fx(spot) + Z::fx(g)) - value(Z::fx(spot));
    check(implies(health.to_bits() < 0, and(won.le(-Z::fx(health) * Z::s(ONE) + Z::pow2(49) + Z::s(2) * Z::s(lp)), won.ge(-Z::fx(health) * Z::s(ONE) - Z::s(2) * Z::s(lp) - Z::pow2(50)))), "giving the amount brings health to zero");
}
