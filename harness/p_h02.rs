// H02: perp positions in account health
//@mod spec
//@assume perp market weights are ordered: init asset <= maint asset <= maint liab <= init liab, overall init <= overall maint <= 1 (the program does not check this on creation)
//@fn h_value reach=ok,negative : unsettled pnl of one perp position, all health types: base +-2^24 lots, open bids/asks and taker lots up to 2^20, quote +-2^40, weights 0..2, overall weights 0..1, oracle price 2, stable price 1, 2 or 8, lot sizes 10
//@fn h_order reach=ok : init <= liquidation end == maint for fixed weights equal in init and maint, same ranges
//@fn h_order_weights reach=ok : init == liquidation end <= maint for ordered weights (all symbolic), base -100/0/100, bids and asks 0/70/150, quote symbolic
//@fn h_worst reach=bid,ask : executing any part of the open orders at the oracle price or better never lowers the value, fixed weights, all health types, stable price lower/equal/higher
//@fn h_upnl reach=ok : health pnl <= unweighted <= pnl at the oracle price, for every ordered weight
//@fn h_health reach=ok : health of one token position and one perp position settling in it
//@fn h_adjust reach=ok : recompute_perp_info equals a fresh cache after an arbitrary change of the position
//@fn h_assets reach=ok : assets_and_liabs with the settle token's position in the first or second slot
//@fn h_settle reach=ok,zero : perp_max_settle: settling that amount leaves the non-perp health at zero, two tokens and two perp positions, base 0, quote +-2^40
//@fn h_phases reach=one,two,three,none : liquidation phases of accounts with two tokens, one perp position, one serum open orders account: balances +-2^20
//@fn h_retriever reach=ok,refused : swapped perp markets, swapped oracles, foreign group or owner, stale oracle
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::health::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn fx(b: i128) -> I80F48 { I80F48::from_bits(b) }
pub struct W { acc: Ma, b: [Ai; 2], bk: [&'static mut Bank; 2], o: [Ai; 2], pm: [Ai; 2], pk: [&'static mut PerpMarket; 2], po: [Ai; 2], so: [&'static mut StubOracle; 2] }
/// two tokens with price 2 and 1/2, two perp markets with price 2 settling in token 0
fn world(oos: u8) -> W {
    begin();
    set_clock(NOW, 1000);
    let _ = group();
    let acc = mango_account(0, 3, oos, 2, 2, 0);
    let (b0, bk0) = bank(0);
    let (b1, bk1) = bank(1);
    let (o0, _) = stub_oracle(0, fx(ONE * 2));
    let (o1, _) = stub_oracle(1, fx(ONE / 2));
    bk0.stable_price_model.stable_price = 2.0;
    bk1.stable_price_model.stable_price = 0.5;
    let (p0, pk0) = perp_market(0);
    let (p1, pk1) = perp_market(1);
    let (q0, s0) = stub_oracle(32, fx(ONE * 2));
    let (q1, s1) = stub_oracle(33, fx(ONE * 2));
    for p in [&mut *pk0, &mut *pk1] { p.stable_price_model.stable_price = 2.0; }
    W { acc, b: [b0, b1], bk: [bk0, bk1], o: [o0, o1], pm: [p0, p1], pk: [pk0, pk1], po: [q0, q1], so: [s0, s1] }
}
fn cache(w: &W, ais: &'static [Ai]) -> Option<HealthCache> {
    with_acc(&w.acc, |a| { let r = match val(new_fixed_order_account_retriever(ais, a, (NOW, 1000))) { Some(r) => leak(r), None => return None }; val(new_health_cache(a, r, NOW)) })
}
/// one token, one perp
fn accs1(w: &W) -> &'static Vec<Ai> { leak(vec![w.b[0].clone(), w.o[0].clone(), w.pm[0].clone(), w.po[0].clone()]) }
fn htype(c: u32) -> HealthType { match c { 0 => HealthType::Init, 1 => HealthType::LiquidationEnd, _ => HealthType::Maint } }
fn stable_case() -> (f64, i128) { match case("stable", 3) { 0 => (2.0, 2 * ONE), 1 => (1.0, ONE), _ => (8.0, 8 * ONE) } }
fn weights(p: &mut PerpMarket) {
    p.maint_base_asset_weight = in_fx("maint_asset", 0, ONE * 2);
    p.init_base_asset_weight = in_fx("init_asset", 0, ONE * 2);
    p.maint_base_liab_weight = in_fx("maint_liab", 0, ONE * 2);
    p.init_base_liab_weight = in_fx("init_liab", 0, ONE * 2);
    p.maint_overall_asset_weight = in_fx("maint_overall", 0, ONE);
    p.init_overall_asset_weight = in_fx("init_overall", 0, ONE);
}
fn ordered(p: &PerpMarket) -> bool {
    let a = and(p.init_base_asset_weight <= p.maint_base_asset_weight, p.maint_base_asset_weight <= I80F48::ONE);
    let b = and(p.init_base_liab_weight >= p.maint_base_liab_weight, p.maint_base_liab_weight >= I80F48::ONE);
    and(and(a, b), p.init_overall_asset_weight <= p.maint_overall_asset_weight)
}
fn const_weights(p: &mut PerpMarket) {
    p.maint_base_asset_weight = fx(ONE / 10 * 9);
    p.init_base_asset_weight = fx(ONE / 10 * 8);
    p.maint_base_liab_weight = fx(ONE / 10 * 11);
    p.init_base_liab_weight = fx(ONE / 10 * 12);
    p.maint_overall_asset_weight = fx(ONE / 10 * 6);
    p.init_overall_asset_weight = fx(ONE / 10 * 5);
}
fn position(w: &W) -> &'static mut PerpPosition {
    let p = w.acc.set_perp(0, 0, in_i64("base", -(1 << 24), 1 << 24), in_fx("quote", -(ONE << 40), ONE << 40));
    p.bids_base_lots = in_i64("bids", 0, 1 << 20);
    p.asks_base_lots = in_i64("asks", 0, 1 << 20);
    p.taker_base_lots = in_i64("taker_base", -(1 << 20), 1 << 20);
    p.taker_quote_lots = in_i64("taker_quote", -(1 << 20), 1 << 20);
    p
}
/// value of a position in settle native scaled by 2^96 (before the overall weight): worse of all bids and all asks executing
fn unweighted(p: &PerpPosition, m: &PerpMarket, t: HealthType, oracle: i128, stable: i128) -> Z {
    let (aw, lw) = match t { HealthType::Maint => (m.maint_base_asset_weight, m.maint_base_liab_weight), _ => (m.init_base_asset_weight, m.init_base_liab_weight) };
    let (ap, lp) = match t { HealthType::Init => (oracle.min(stable), oracle.max(stable)), _ => (oracle, oracle) };
    let base = Z::s(p.base_position_lots as i128) + Z::s(p.taker_base_lots as i128);
    let side = |orders: Z, price: i128| {
        let net = (base + orders) * Z::s(10);
        let v = Z::ite(net.lt(zero()), net * Z::fx(lw) * Z::s(lp), net * Z::fx(aw) * Z::s(ap));
        v - orders * Z::s(10) * Z::s(price) * Z::pow2(48)
    };
    let worst = side(Z::s(p.bids_base_lots as i128), lp).min(side(-Z::s(p.asks_base_lots as i128), ap));
    // funding is owed on the settled position only
    let b = Z::s(p.base_position_lots as i128);
    let f = Z::ite(b.gt(zero()), Z::fx(m.long_funding) - Z::fx(p.long_settled_funding), Z::fx(m.short_funding) - Z::fx(p.short_settled_funding));
    let quote = Z::fx(p.quote_position_native) - b * f + Z::s(p.taker_quote_lots as i128) * Z::s(10 * ONE);
    quote * Z::pow2(48) + worst
}
fn near96(x: I80F48, want: Z, ulps: u32) -> bool {
    let d = fx96(x) - want;
    and(d.le(Z::s((ulps as i128) << 48)), d.ge(Z::s(-((ulps as i128) << 48))))
}
#[no_mangle]
pub extern "C" fn h_value() {
    let w = world(0);
    weights(w.pk[0]);
    let (s, zs) = stable_case();
    w.pk[0].stable_price_model.stable_price = s;
    w.acc.set_token(0, 0, fx(ONE));
    let p = position(&w);
    w.pk[0].long_funding = in_fx("long_funding", -(ONE << 10), ONE << 10);
    w.pk[0].short_funding = in_fx("short_funding", -(ONE << 10), ONE << 10);
    p.long_settled_funding = fx(ONE / 2);
    p.short_settled_funding = fx(-ONE / 4);
    let c = match cache(&w, accs1(&w)) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let t = htype(case("type", 3));
    let pi = &c.perp_infos[0];
    let u = pi.unweighted_health_unsettled_pnl(t);
    check(near96(u, unweighted(p, w.pk[0], t, 2 * ONE, zs), 4), "the unsettled pnl is the worse of all bids and all asks executing");
    let h = pi.health_unsettled_pnl(t);
    let ow = match t { HealthType::Maint => w.pk[0].maint_overall_asset_weight, _ => w.pk[0].init_overall_asset_weight };
    check(Z::fx(h).eq(Z::ite(Z::fx(u).gt(zero()), mulfx(ow, u), Z::fx(u))), "only positive unsettled pnl is weighted");
    if u.to_bits() < 0 { reach("negative"); } else { reach("ok"); }
}
#[no_mangle]
pub extern "C" fn h_order() {
    let w = world(0);
    const_weights(w.pk[0]);
    w.pk[0].maint_base_asset_weight = w.pk[0].init_base_asset_weight;
    w.pk[0].maint_base_liab_weight = w.pk[0].init_base_liab_weight;
    w.pk[0].maint_overall_asset_weight = w.pk[0].init_overall_asset_weight;
    let (s, _) = stable_case();
    w.pk[0].stable_price_model.stable_price = s;
    w.acc.set_token(0, 0, fx(ONE));
    position(&w);
    let c = match cache(&w, accs1(&w)) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let pi = &c.perp_infos[0];
    let (i, l, m) = (pi.health_unsettled_pnl(HealthType::Init), pi.health_unsettled_pnl(HealthType::LiquidationEnd), pi.health_unsettled_pnl(HealthType::Maint));
    check(i <= l, "initial health is at most liquidation end health");
    check(l == m, "liquidation end and maintenance health use the same prices");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_order_weights() {
    let w = world(0);
    weights(w.pk[0]);
    assume(ordered(w.pk[0]));
    w.acc.set_token(0, 0, fx(ONE));
    let p = w.acc.set_perp(0, 0, [-100, 0, 100][case("base", 3) as usize], in_fx("quote", -(ONE << 40), ONE << 40));
    p.bids_base_lots = [0, 70, 150][case("bids", 3) as usize];
    p.asks_base_lots = [0, 70, 150][case("asks", 3) as usize];
    let c = match cache(&w, accs1(&w)) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let pi = &c.perp_infos[0];
    let (i, l, m) = (pi.health_unsettled_pnl(HealthType::Init), pi.health_unsettled_pnl(HealthType::LiquidationEnd), pi.health_unsettled_pnl(HealthType::Maint));
    check(i == l, "initial and liquidation end health use the same weights");
    check(l <= m, "liquidation end health is at most maintenance health");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_worst() {
    let w = world(0);
    const_weights(w.pk[0]);
    let (s, zs) = stable_case();
    w.pk[0].stable_price_model.stable_price = s;
    w.acc.set_token(0, 0, fx(ONE));
    let p = position(&w);
    let t = htype(case("type", 3));
    let ais = accs1(&w);
    let before = match cache(&w, ais) { Some(c) => c.perp_infos[0].unweighted_health_unsettled_pnl(t), None => { check(false, "health can be computed"); return; } };
    let (ap, lp) = match t { HealthType::Init => (zs.min(2 * ONE), zs.max(2 * ONE)), _ => (2 * ONE, 2 * ONE) };
    let k = in_i64("filled", 0, 1 << 20);
    let bid = case("side", 2) == 0;
    // bids execute at the liability price or lower, asks at the asset price or higher
    if bid {
        assume(k <= p.bids_base_lots);
        p.bids_base_lots -= k;
        p.base_position_lots += k;
        p.quote_position_native -= I80F48::from(k * 10) * fx(lp);
    } else {
        assume(k <= p.asks_base_lots);
        p.asks_base_lots -= k;
        p.base_position_lots -= k;
        p.quote_position_native += I80F48::from(k * 10) * fx(ap);
    }
    let after = match cache(&w, ais) { Some(c) => c.perp_infos[0].unweighted_health_unsettled_pnl(t), None => { check(false, "health can be computed"); return; } };
    check(Z::fx(after).ge(Z::fx(before) - Z::s(4)), "open orders are accounted for at their worst");
    if bid { reach("bid"); } else { reach("ask"); }
}
#[no_mangle]
pub extern "C" fn h_upnl() {
    let w = world(0);
    weights(w.pk[0]);
    assume(ordered(w.pk[0]));
    w.acc.set_token(0, 0, fx(ONE));
    let p = position(&w);
    p.taker_base_lots = 0;
    p.taker_quote_lots = 0;
    let t = htype(case("type", 3));
    let c = match cache(&w, accs1(&w)) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let u = c.perp_infos[0].unweighted_health_unsettled_pnl(t);
    let h = c.perp_infos[0].health_unsettled_pnl(t);
    let pnl = match val(p.unsettled_pnl(w.pk[0], fx(2 * ONE))) { Some(x) => x, None => { check(false, "pnl can be computed"); return; } };
    check(and(h <= u, u <= pnl), "health pnl never exceeds the position's pnl");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_health() {
    let w = world(0);
    const_weights(w.pk[0]);
    w.bk[0].maint_asset_weight = fx(ONE / 10 * 9);
    w.bk[0].maint_liab_weight = fx(ONE / 10 * 11);
    w.bk[0].init_asset_weight = fx(ONE / 10 * 8);
    w.bk[0].init_liab_weight = fx(ONE / 10 * 12);
    let spot = in_fx("spot", -(ONE << 40), ONE << 40);
    w.acc.set_token(0, 0, spot);
    position(&w);
    let t = htype(case("type", 3));
    let c = match cache(&w, accs1(&w)) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let pnl = c.perp_infos[0].health_unsettled_pnl(t);
    let (aw, lw) = match t { HealthType::Maint => (w.bk[0].maint_asset_weight, w.bk[0].maint_liab_weight), _ => (w.bk[0].init_asset_weight, w.bk[0].init_liab_weight) };
    let bal = Z::fx(spot) + Z::fx(pnl);
    let want = bal * Z::ite(bal.lt(zero()), Z::fx(lw), Z::fx(aw)) * Z::s(2);
    let got = c.health(t);
    // weighted price rounds once, the product once
    let d = fx96(got) - want;
    let tol = bal.abs() + Z::pow2(50);
    check(and(d.le(tol), d.ge(-tol)), "perp pnl counts as balance of the settle token");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_adjust() {
    let w = world(0);
    const_weights(w.pk[0]);
    w.acc.set_token(0, 0, fx(ONE));
    w.acc.set_perp(0, 0, 5, fx(ONE * 77)).bids_base_lots = 3;
    w.pk[0].stable_price_model.stable_price = match case("stable", 2) { 0 => 1.0, _ => 8.0 };
    let ais = accs1(&w);
    let mut c = match cache(&w, ais) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let p = position(&w);
    w.pk[0].long_funding = in_fx("long_funding", -(ONE << 10), ONE << 10);
    if val(c.recompute_perp_info(p, w.pk[0])).is_none() { check(false, "the perp info can be recomputed"); return; }
    let f = match cache(&w, ais) { Some(c) => c, None => return };
    for t in [HealthType::Init, HealthType::LiquidationEnd, HealthType::Maint] {
        check(c.health(t) == f.health(t), "recomputed health equals fresh health");
    }
    check(and(c.has_perp_open_orders() == f.has_perp_open_orders(), c.has_perp_open_fills() == f.has_perp_open_fills()), "recomputed order flags equal fresh ones");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_assets() {
    let w = world(0);
    const_weights(w.pk[0]);
    let first = case("settle_token_first", 2) == 0;
    let spot = in_fx("spot", -(ONE << 40), ONE << 40);
    let (i, j) = if first { (0, 1) } else { (1, 0) };
    w.acc.set_token(i, 0, spot);
    w.acc.set_token(j, 1, fx(ONE * 1000));
    let base = in_i64("base", -(1 << 24), 1 << 24);
    let quote = in_fx("quote", -(ONE << 40), ONE << 40);
    w.acc.set_perp(0, 0, base, quote);
    let ais: &'static Vec<Ai> = if first { leak(vec![w.b[0].clone(), w.b[1].clone(), w.o[0].clone(), w.o[1].clone(), w.pm[0].clone(), w.po[0].clone()]) }
        else { leak(vec![w.b[1].clone(), w.b[0].clone(), w.o[1].clone(), w.o[0].clone(), w.pm[0].clone(), w.po[0].clone()]) };
    let c = match cache(&w, ais) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let (a, l) = c.assets_and_liabs();
    // prices: settle token 2, other token 1/2, perp base 2
    let parts = [Z::fx(spot) * Z::s(2), Z::s(ONE * 500), Z::fx(quote) * Z::s(2), Z::s(base as i128) * Z::s(40 * ONE)];
    let (mut wa, mut wl) = (zero(), zero());
    for p in parts { wa = wa + p.max(zero()); wl = wl - p.min(zero()); }
    check(and(Z::fx(a).eq(wa), Z::fx(l).eq(wl)), "assets and liabilities are the positions at oracle prices");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_settle() {
    let w = world(0);
    const_weights(w.pk[0]);
    const_weights(w.pk[1]);
    w.bk[0].maint_asset_weight = fx(ONE / 10 * 9);
    w.bk[0].maint_liab_weight = fx(ONE / 10 * 11);
    let (s0, s1) = (in_fx("spot0", -(ONE << 40), ONE << 40), in_fx("spot1", -(ONE << 40), ONE << 40));
    let (q0, q1) = (in_fx("quote0", -(ONE << 40), ONE << 40), in_fx("quote1", -(ONE << 40), ONE << 40));
    w.acc.set_token(0, 0, s0);
    w.acc.set_token(1, 1, s1);
    w.acc.set_perp(0, 0, 0, q0);
    w.acc.set_perp(1, 1, 0, q1);
    let ais = leak(vec![w.b[0].clone(), w.b[1].clone(), w.o[0].clone(), w.o[1].clone(), w.pm[0].clone(), w.pm[1].clone(), w.po[0].clone(), w.po[1].clone()]);
    let c = match cache(&w, ais) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let m = match val(c.perp_max_settle(0)) { Some(m) => m, None => { check(false, "the limit is defined"); return; } };
    // only positive (weighted) perp pnl counts
    let pos = |q: I80F48| mulfx(fx(ONE / 10 * 6), q).max(zero());
    let bal = Z::fx(s0) + pos(q0) + pos(q1);
    let (aw, lw) = (w.bk[0].maint_asset_weight, w.bk[0].maint_liab_weight);
    let value = |x: Z| x * Z::ite(x.lt(zero()), Z::fx(lw), Z::fx(aw)) * Z::s(2);
    let other = Z::fx(s1) * Z::s(ONE / 2);
    let h = value(bal) + other;
    let tol = (bal.abs() + Z::fx(m).abs()) * Z::s(2) + Z::pow2(52);
    check(m.to_bits() >= 0, "the limit is not negative");
    check(implies(h.le(-tol), m.is_zero()), "without other collateral nothing can be settled");
    check(implies(m.to_bits() > 0, (value(bal - Z::fx(m)) + other).ge(-tol)), "settling the limit is covered by other collateral");
    check(implies(h.ge(tol), (value(bal - Z::fx(m)) + other).le(tol)), "everything covered can be settled");
    if m.is_zero() { reach("zero"); } else { reach("ok"); }
}
#[no_mangle]
pub extern "C" fn h_phases() {
    let w = world(1);
    const_weights(w.pk[0]);
    w.bk[0].maint_asset_weight = fx(ONE / 10 * 9);
    let noliq = case("asset_liquidation", 2);
    w.bk[1].disable_asset_liquidation = noliq as u8;
    let (s0, s1) = (in_fx("spot0", -(ONE << 20), ONE << 20), in_fx("spot1", -(ONE << 20), ONE << 20));
    w.acc.set_token(0, 0, s0);
    w.acc.set_token(1, 1, s1);
    let p = w.acc.set_perp(0, 0, in_i64("base", -1, 1), in_fx("quote", -(ONE << 20), ONE << 20));
    let orders = case("orders", 3);
    if orders == 1 { p.bids_base_lots = in_i64("bids", 0, 9); } else if orders == 2 { p.asks_base_lots = in_i64("asks", 0, 9); }
    p.taker_base_lots = in_i64("taker_base", -1, 1);
    p.taker_quote_lots = in_i64("taker_quote", -1, 1);
    let s = w.acc.serum3(0);
    *s = Serum3Orders::default();
    s.open_orders = key(K_OO, 0);
    s.market_index = 0;
    s.base_token_index = 1;
    s.quote_token_index = 0;
    let (oo, ood) = open_orders(0);
    ood.native_pc_total = in_u64("oo_quote", 0, 9);
    ood.native_coin_total = in_u64("oo_base", 0, 9);
    ood.referrer_rebates_accrued = in_u64("oo_rebates", 0, 9);
    let ais = leak(vec![w.b[0].clone(), w.b[1].clone(), w.o[0].clone(), w.o[1].clone(), w.pm[0].clone(), w.po[0].clone(), oo]);
    let c = match cache(&w, ais) { Some(c) => c, None => { check(false, "health can be computed"); return; } };
    let t = HealthType::LiquidationEnd;
    let b0 = Z::fx(s0) + Z::fx(c.perp_infos[0].health_unsettled_pnl(t));
    let one = Z::s(ONE);
    let assets = or(and(Z::fx(s0).ge(one), b0.ge(one)), and(noliq == 0, Z::fx(s1).ge(one)));
    let borrows = or(and(s0.to_bits() < 0, b0.lt(zero())), s1.to_bits() < 0);
    let serum = or(or(ood.native_pc_total != 0, ood.native_coin_total != 0), ood.referrer_rebates_accrued != 0);
    let one_ = or(serum, or(p.bids_base_lots != 0, p.asks_base_lots != 0));
    let base = Z::s(p.base_position_lots as i128) + Z::s(p.taker_base_lots as i128);
    let quote = Z::fx(p.quote_position_native) + Z::s(p.taker_quote_lots as i128) * Z::s(10 * ONE);
    let flat = base.eq(zero());
    let fills = or(p.taker_base_lots != 0, p.taker_quote_lots != 0);
    let two = or(or(and(assets, borrows), !flat), or(fills, and(flat, quote.gt(zero()))));
    let three = or(borrows, and(flat, quote.lt(zero())));
    check(c.has_liq_spot_assets() == assets, "liquidatable spot assets");
    check(c.has_liq_spot_borrows() == borrows, "liquidatable spot borrows");
    check(c.in_phase1_liquidation() == one_, "phase one: open orders and unsettled funds");
    check(c.in_phase2_liquidation() == and(!one_, two), "phase two: spot pairs, perp base positions and fills, positive pnl");
    check(c.in_phase3_liquidation() == and(and(!one_, !two), three), "phase three: bankruptcy only when nothing else is left");
    let r1 = val(c.require_after_phase1_liquidation()).is_some();
    let r2 = val(c.require_after_phase2_liquidation()).is_some();
    check(and(r1 == !one_, r2 == and(!one_, !two)), "later phases require the earlier ones to be over");
    if one_ { reach("one"); } else if two { reach("two"); } else if three { reach("three"); } else { reach("none"); }
}
#[no_mangle]
pub extern "C" fn h_retriever() {
    let w = world(0);
    w.acc.set_token(0, 0, fx(ONE * 100));
    w.acc.set_perp(0, 0, 1, fx(ONE));
    w.acc.set_perp(1, 1, 2, fx(ONE));
    let (m, o) = (|i: usize| w.pm[i].clone(), |i: usize| w.po[i].clone());
    let (b, q) = (w.b[0].clone(), w.o[0].clone());
    let which = case("case", 7);
    let ais = leak(match which {
        0 => vec![b, q, m(0), m(1), o(0), o(1)],
        1 => vec![b, q, m(1), m(0), o(1), o(0)],
        2 => vec![b, q, m(0), m(1), o(1), o(0)],
        3 => vec![b, q, m(0), o(0)],
        4 => { w.pk[1].group = key(K_GROUP, 1); vec![b, q, m(0), m(1), o(0), o(1)] }
        5 => { let mut x = m(1); x.owner = leak(key(K_OTHER, 1)); vec![b, q, m(0), x, o(0), o(1)] }
        _ => { w.pk[1].oracle_config.max_staleness_slots = 10; w.so[1].last_update_slot = 900; vec![b, q, m(0), m(1), o(0), o(1)] }
    });
    let h = cache(&w, ais);
    check(h.is_some() == (which == 0), "health needs each position's own perp market and fresh oracle");
    if h.is_some() { reach("ok"); } else { reach("refused"); }
}
