// L03: perp liquidation (perp_liq_base_or_positive_pnl)
//@mod spec
//@fn h_long_any tier=thorough reach=liquidated,recovered,not : a long of 2^20 lots, overall asset weight 0; any quote balance up to 2^30 with four token balances, account being liquidated, no maxima
//@fn h_long_max reach=liquidated,recovered : the same; two token balances and any maximum of base or pnl, four quote balances, account not yet marked
//@fn h_long_tok reach=liquidated,recovered,not : the same; any token balance, three quote balances, no maxima
//@fn h_long_all tier=thorough reach=liquidated,recovered,not : the same; any quote and token balance, maxima, mark
//@fn h_longw_any tier=thorough reach=liquidated,recovered,not : the same with overall asset weight 1/4; any quote balance up to 2^30 with four token balances, account being liquidated, no maxima
//@fn h_longw_max tier=thorough reach=liquidated,recovered : the same; two token balances and any maximum of base or pnl, four quote balances, account not yet marked
//@fn h_longw_tok reach=liquidated,recovered,not : the same; any token balance, three quote balances, no maxima
//@fn h_longw_all tier=thorough reach=liquidated,recovered,not : the same; any quote and token balance, maxima, mark
//@fn h_short_any tier=thorough reach=liquidated,recovered,not : a short of 2^20 lots, overall asset weight 1/4; any quote balance up to 2^30 with four token balances, account being liquidated, no maxima
//@fn h_short_max reach=liquidated,recovered : the same; two token balances and any maximum of base or pnl, four quote balances, account not yet marked
//@fn h_short_tok tier=thorough reach=liquidated,recovered,not : the same; any token balance, three quote balances, no maxima
//@fn h_short_all tier=thorough reach=liquidated,recovered,not : the same; any quote and token balance, maxima, mark
//@fn h_shortw_any tier=thorough reach=liquidated,recovered,not : the same with overall asset weight 0; any quote balance up to 2^30 with four token balances, account being liquidated, no maxima
//@fn h_shortw_max reach=liquidated,recovered : the same; two token balances and any maximum of base or pnl, four quote balances, account not yet marked
//@fn h_shortw_tok reach=liquidated,recovered,not : the same; any token balance, three quote balances, no maxima
//@fn h_shortw_all tier=thorough reach=liquidated,recovered,not : the same; any quote and token balance, maxima, mark
//@fn h_zero_any tier=thorough reach=liquidated,recovered,not : no base position, overall asset weight 1/4; any quote balance up to 2^30 with four token balances, account being liquidated, no maxima
//@fn h_zero_max reach=liquidated : the same; two token balances and any maximum of base or pnl, four quote balances, account not yet marked
//@fn h_zero_tok reach=liquidated,recovered,not : the same; any token balance, three quote balances, no maxima
//@fn h_zero_all tier=thorough reach=liquidated,recovered,not : the same; any quote and token balance, maxima, mark
//@fn h_full_any tier=thorough reach=liquidated,recovered,not : a short of 2^20 lots with overall asset weight 1/2, where settling brings nothing; any quote balance up to 2^30 with four token balances, account being liquidated, no maxima
//@fn h_full_max reach=liquidated,recovered : the same; two token balances and any maximum of base or pnl, four quote balances, account not yet marked
//@fn h_full_tok reach=liquidated,recovered,not : the same; any token balance, three quote balances, no maxima
//@fn h_full_all tier=thorough reach=liquidated,recovered,not : the same; any quote and token balance, maxima, mark
//@fn h_limits reach=ok : a fixed profit taken over with any recurring and one-time allowances, limit factors 0 and 1
//@fn h_liqor reach=ok,refused : a fixed liquidation with any token balance of the liquidator, inside and outside a health region
//@fn h_auth reach=refused : same, foreign, frozen, unsigned, liquidated accounts, wrong markets, banks, oracles, vaults, open orders and fills
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
const L: i64 = 1 << 20;
const BIG: i128 = ONE << 30;
fn q(n: i128, d: i128) -> I80F48 { I80F48::from_bits(ONE * n / d) }
pub struct W { g: Ai, gr: &'static mut Group, e: Ma, r: Ma, b: Ai, bk: &'static mut Bank, v: Ai, o: Ai, pm: Ai, pk: &'static mut PerpMarket, po: Ai }
/// overall weights (init, maint) in eighths
fn world(ow: (i128, i128)) -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, gr) = group();
    let e = mango_account(0, 2, 0, 1, 1, 0);
    let r = mango_account(1, 2, 0, 1, 1, 0);
    let (b, bk) = bank(0);
    bk.init_asset_weight = q(1, 2);
    bk.maint_asset_weight = q(3, 4);
    bk.init_liab_weight = q(2, 1);
    bk.maint_liab_weight = q(3, 2);
    bk.indexed_deposits = I80F48::from_bits(ONE << 60);
    bk.indexed_borrows = I80F48::from_bits(ONE << 58);
    let o = stub_oracle(0, I80F48::ONE).0;
    let (pm, pk) = perp_market(0);
    pk.base_lot_size = 8;
    // elsewhere than the oracle price: liquidation does not look at it
    pk.stable_price_model.stable_price = 2.0;
    pk.init_base_asset_weight = q(1, 2);
    pk.maint_base_asset_weight = q(5, 8);
    pk.init_base_liab_weight = q(3, 2);
    pk.maint_base_liab_weight = q(11, 8);
    pk.init_overall_asset_weight = q(ow.0, 8);
    pk.maint_overall_asset_weight = q(ow.1, 8);
    pk.base_liquidation_fee = q(1, 8);
    pk.platform_liquidation_fee = q(1, 8);
    pk.positive_pnl_liquidation_fee = q(1, 2);
    pk.settle_pnl_limit_factor = 0.0;
    pk.open_interest = 10 * L;
    let po = stub_oracle(32, I80F48::ONE).0;
    W { g, gr, e, r, b, bk, v: vault(0, 1 << 40), o, pm, pk, po }
}
fn accounts(w: &W) -> Vec<Ai> {
    vec![w.g.clone(), w.pm.clone(), w.po.clone(), w.r.a.clone(), signer(&ai_plain(key(K_OWNER, 1))), w.e.a.clone(), w.b.clone(), w.v.clone(), w.o.clone(),
        w.b.clone(), w.o.clone(), w.pm.clone(), w.po.clone()]
}
fn liq(x: &[Ai], max_base_transfer: i64, max_pnl_transfer: u64) -> bool {
    ok(crate::__private::__global::perp_liq_base_or_positive_pnl(&crate::ID, x, &args(crate::instruction::PerpLiqBaseOrPositivePnl { max_base_transfer, max_pnl_transfer })))
}
fn zi(x: i64) -> Z { Z::s(x as i128) * Z::s(ONE) }
/// unweighted perp health of `base` lots and a quote position; scaled by 8 * 2^48; weights in eighths
fn uh(base: Z, quote: Z, wa: i128, wl: i128) -> Z { quote * Z::s(8) + base * Z::s(8) * Z::ite(base.ge(zero()), Z::s(wa), Z::s(wl)) }
/// account health scaled by 64 * 2 * 2^48: token, base, quote, overall weight in eighths, base weights in eighths, token weights in halves of halves
fn health(t: Z, base: Z, quote: Z, ow: i128, bw: (i128, i128), tw: (i128, i128)) -> Z {
    let u = uh(base, quote, bw.0, bw.1);
    let e = t * Z::s(64) + u * Z::ite(u.gt(zero()), Z::s(ow), Z::s(8));
    e * Z::ite(e.ge(zero()), Z::s(tw.0), Z::s(tw.1))
}
fn int_or_fx(n: &'static str, _mode: u32) -> I80F48 {
    in_fx(n, -BIG, BIG)
}
fn run(lots: i64, ow: (i128, i128), mode: u32) {
    let w = world(ow);
    // the base position is worth 2^23; at these, its health or that of the account changes sign
    let quotes: &[i64] = if mode == 1 { &[-(3 << 22), -(1 << 22), 5000, 3 << 22] } else { &[-(3 << 22), -5000, 3 << 22] };
    let q0 = if mode == 1 || mode == 3 { I80F48::from_num(quotes[case("quote", quotes.len() as u32) as usize] * if lots == 0 { 1 } else { lots.signum() } ) } else { int_or_fx("quote", mode) };
    let tokens: &[i64] = if mode == 1 { &[-(1 << 24), -(1 << 20)] } else { &[-(1 << 24), -(1 << 20), 0, 1 << 22] };
    let t0 = if mode < 2 { I80F48::from_num(tokens[case("token", tokens.len() as u32) as usize]) } else { int_or_fx("token", mode) };
    let et = w.e.set_token(0, 0, t0);
    et.in_use_count = 1;
    let ep = w.e.set_perp(0, 0, lots, q0);
    let rt0 = I80F48::from_bits(ONE << 50);
    let rt = w.r.set_token(0, 0, rt0);
    rt.in_use_count = 1;
    // the liquidator has an opposite position
    let rp = w.r.set_perp(0, 0, -2 * lots, I80F48::ZERO);
    w.r.fixed().set_in_health_region(true);
    let being = if mode == 2 { case("being_liquidated", 2) == 1 } else { mode != 1 };
    w.e.fixed().set_being_liquidated(being);
    // which maximum is open: 1 base, 2 pnl
    let which = match mode { 1 => 1 + case("maximum", 2), 2 => 3, _ => 0 };
    let mb = if which & 1 == 0 { lots * 2 } else { in_i64("max_base", if lots > 0 { 0 } else { -2 * L }, if lots > 0 { 2 * L } else { 0 }) };
    let mp = if which & 2 == 0 { 1 << 40 } else { in_u64("max_pnl", 0, 1 << 32) };
    let s0 = snap(w.bk);
    let (oi0, fees0) = (w.pk.open_interest, w.pk.fees_accrued);
    let end = |t: I80F48, b: i64, qq: I80F48| health(Z::fx(t), zi(b), Z::fx(qq), ow.0, (4, 12), (2, 8));
    let unit = Z::s(64 * 4 * ONE);
    let tol = Z::s(1 << 14);
    let end0 = end(t0, lots, q0);
    let maint0 = health(Z::fx(t0), zi(lots), Z::fx(q0), ow.1, (5, 11), (3, 6));
    let h0 = if being { end0 + unit } else { maint0 };
    let done = liq(&accounts(&w), mb, mp);
    if !done {
        check(false, "liquidatable accounts can be liquidated");
        return;
    }
    let (t1, b1, q1) = (et.indexed_position, ep.base_position_lots, ep.quote_position_native);
    let flag = w.e.fixed().being_liquidated();
    let same = and(and(t1 == t0, q1 == q0), b1 == lots);
    check(implies(h0.gt(tol), and(same, !flag)), "only liquidatable accounts are liquidated");
    if and(h0.ge(-tol), same) { reach("not"); return; }
    // base
    let db = lots - b1;
    let (dir, dabs) = if lots > 0 { (db >= 0, db) } else { (db <= 0, -db) };
    check(and(dir, if lots > 0 { b1 >= 0 } else { b1 <= 0 }), "the base position moves towards zero, not beyond");
    check(dabs <= if lots > 0 { mb } else { -mb }, "no more base is transferred than the maximum");
    check(rp.base_position_lots == -2 * lots + db, "the liquidator takes over the base");
    check(w.pk.open_interest == oi0 - 2 * dabs, "open interest follows the positions");
    // pnl: tokens are paid at half the pnl
    let dt = Z::fx(t1) - Z::fx(t0);
    let pnl = dt * Z::s(2);
    check(dt.ge(zero()), "the liquidated account is paid for its pnl");
    check((Z::fx(rt0) - Z::fx(rt.indexed_position)).eq(dt), "the liquidator pays what the liquidated account gets");
    check(pnl.le(Z::s(mp as i128) * Z::s(ONE) + Z::s(2)), "no more pnl is taken over than the maximum");
    // quote: 8 a lot, a quarter less for longs, more for shorts; then the pnl moves over; pnl is odd by at most a bit
    let v = zi(db) * Z::s(8);
    let (all, part) = if lots > 0 { (6, 7) } else { (10, 9) };
    let near = |a: Z, b: Z, t: i128| (a - b).abs().le(Z::s(t));
    let fee = Z::fx(w.pk.fees_accrued) - Z::fx(fees0);
    check(near((Z::fx(q1) - Z::fx(q0) + pnl) * Z::s(8), v * Z::s(all), 32), "the liquidated account trades at the oracle price less the fees, and gives up its pnl");
    check(near((Z::fx(rp.quote_position_native) - pnl) * Z::s(8), -v * Z::s(part), 32), "the liquidator trades at the oracle price with its fee, and gets the pnl");
    check((Z::fx(q1) - Z::fx(q0) + Z::fx(rp.quote_position_native) + fee).eq(zero()), "quote is conserved: the rest is the platform fee");
    check(and(fee.ge(zero()), w.pk.accrued_liquidation_fees == fee_of(w.pk, fees0)), "the platform fee is counted as a liquidation fee");
    // health
    let end1 = end(t1, b1, q1);
    check(end1.ge(end0 - tol), "liquidation does not lower the account's health");
    let u1 = uh(zi(b1), Z::fx(q1), 4, 12);
    check(implies(pnl.gt(zero()), u1.ge(-tol)), "pnl is taken over only from accounts with unsettled profit");
    // a lot brings two quote, weighed with at most 2
    check(end1.le(tol + if dabs > 0 { unit * Z::s(4) } else { zero() }), "no more is liquidated than needed to reach health zero");
    let noslack = and(dabs != (if lots > 0 { lots } else { -lots }), dabs < (if lots > 0 { mb } else { -mb }));
    let no_pnl_left = or(pnl.ge(Z::s(mp as i128) * Z::s(ONE) - Z::s(4)), or(u1.le(tol), ow.0 >= 4));
    let enough = end1.ge(-tol - unit.div_floor(Z::s(2)));
    // with an overall weight of zero, base is reduced only as far as its pnl can be taken over
    let base_useless = and(ow.0 == 0, and(u1.ge(-tol), pnl.ge(Z::s(mp as i128) * Z::s(ONE) - Z::s(4))));
    let base_left = and(noslack, !base_useless);
    // a loss of some 2^-48 is worth no lot, and then nothing further happens
    let dust = and(u1.lt(zero()), u1.ge(-tol));
    check(or(enough, or(dust, and(!base_left, no_pnl_left))), "liquidation goes on until health zero, the maxima, or the end of base and pnl");
    check(and(implies(end1.gt(tol - unit), !flag), implies(end1.lt(-tol - unit), flag)), "the account is marked as being liquidated until its health is restored");
    check_totals(w.bk, &s0, (Z::fx(rt.indexed_position) - Z::fx(rt0)) + dt);
    let tr = dt.div_floor(Z::s(ONE));
    check(and(Z::s(ep.perp_spot_transfers as i128).eq(tr), Z::s(rp.perp_spot_transfers as i128).eq(-tr)), "transfers are counted");
    check(and(Z::s(w.e.fixed().perp_spot_transfers as i128).eq(tr), Z::s(w.r.fixed().perp_spot_transfers as i128).eq(-tr)), "transfers are counted");
    if flag { reach("liquidated"); } else { reach("recovered"); }
}
fn fee_of(pk: &PerpMarket, f0: I80F48) -> I80F48 { pk.fees_accrued - f0 }
#[no_mangle]
pub extern "C" fn h_long_any() { run(L, (0, 0), 0) }
#[no_mangle]
pub extern "C" fn h_long_max() { run(L, (0, 0), 1) }
#[no_mangle]
pub extern "C" fn h_long_tok() { run(L, (0, 0), 3) }
#[no_mangle]
pub extern "C" fn h_long_all() { run(L, (0, 0), 2) }
#[no_mangle]
pub extern "C" fn h_longw_any() { run(L, (2, 3), 0) }
#[no_mangle]
pub extern "C" fn h_longw_max() { run(L, (2, 3), 1) }
#[no_mangle]
pub extern "C" fn h_longw_tok() { run(L, (2, 3), 3) }
#[no_mangle]
pub extern "C" fn h_longw_all() { run(L, (2, 3), 2) }
#[no_mangle]
pub extern "C" fn h_short_any() { run(-L, (2, 3), 0) }
#[no_mangle]
pub extern "C" fn h_short_max() { run(-L, (2, 3), 1) }
#[no_mangle]
pub extern "C" fn h_short_tok() { run(-L, (2, 3), 3) }
#[no_mangle]
pub extern "C" fn h_short_all() { run(-L, (2, 3), 2) }
#[no_mangle]
pub extern "C" fn h_shortw_any() { run(-L, (0, 0), 0) }
#[no_mangle]
pub extern "C" fn h_shortw_max() { run(-L, (0, 0), 1) }
#[no_mangle]
pub extern "C" fn h_shortw_tok() { run(-L, (0, 0), 3) }
#[no_mangle]
pub extern "C" fn h_shortw_all() { run(-L, (0, 0), 2) }
#[no_mangle]
pub extern "C" fn h_zero_any() { run(0, (2, 3), 0) }
#[no_mangle]
pub extern "C" fn h_zero_max() { run(0, (2, 3), 1) }
#[no_mangle]
pub extern "C" fn h_zero_tok() { run(0, (2, 3), 3) }
#[no_mangle]
pub extern "C" fn h_zero_all() { run(0, (2, 3), 2) }
#[no_mangle]
pub extern "C" fn h_full_any() { run(-L, (4, 5), 0) }
#[no_mangle]
pub extern "C" fn h_full_max() { run(-L, (4, 5), 1) }
#[no_mangle]
pub extern "C" fn h_full_tok() { run(-L, (4, 5), 3) }
#[no_mangle]
pub extern "C" fn h_full_all() { run(-L, (4, 5), 2) }
#[no_mangle]
pub extern "C" fn h_limits() {
    let w = world((0, 0));
    // 1000 profit, a debt of 2000 in another token's place: everything is taken over, paying 500
    w.pk.settle_pnl_limit_factor = [0.0, 1.0][case("factor", 2) as usize];
    let et = w.e.set_token(0, 0, I80F48::from_num(-2000));
    et.in_use_count = 1;
    let part = case("part", 2) == 1;
    let ep = w.e.set_perp(0, 0, 0, I80F48::from_num(1000));
    ep.recurring_settle_pnl_allowance = in_i64("recurring", 0, 1 << 20);
    ep.oneshot_settle_pnl_allowance = in_fx("oneshot", -(ONE << 20), ONE << 20);
    w.r.set_token(0, 0, I80F48::from_num(100_000)).in_use_count = 1;
    let rp = w.r.set_perp(0, 0, 0, I80F48::ZERO);
    let (r0, o0) = (ep.recurring_settle_pnl_allowance, Z::fx(ep.oneshot_settle_pnl_allowance));
    let settle = if part { 400 } else { 1000 };
    check(liq(&accounts(&w), 0, settle), "profits can be taken over");
    check(rp.quote_position_native == I80F48::from_num(settle), "the requested profit is taken over");
    let (dr, dos) = (Z::s(rp.recurring_settle_pnl_allowance as i128), Z::fx(rp.oneshot_settle_pnl_allowance));
    check(and(dr.ge(zero()), dos.ge(zero())), "the liquidator gets non-negative settle limits");
    check((dr * Z::s(ONE) + dos).le(Z::s(settle as i128 * ONE)), "the liquidator gets no more settle limit than profit");
    check((dr * Z::s(ONE) + dos).ge(Z::s(ONE)), "the liquidator gets some settle limit");
    // the share taken over: settle / 1000 of the limits, which are at most 1000
    let rec = Z::s(r0 as i128).min(Z::s(1000));
    let osh = (-((-o0.max(zero())).div_floor(Z::s(ONE)))).max(zero());
    let s = Z::s(settle as i128);
    let wr = (rec * s).div_floor(Z::s(1000)).min(s).max(Z::s(1));
    let wo = (osh * s).div_floor(Z::s(1000)).min(s - wr).max(zero());
    check(and(dr.eq(wr), dos.eq(wo * Z::s(ONE))), "the settle limit follows the profit in proportion");
    check(and(ep.recurring_settle_pnl_allowance >= 0, Z::s(ep.recurring_settle_pnl_allowance as i128).le(Z::s(r0 as i128))), "the liquidated account's allowances do not grow");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_liqor() {
    let w = world((2, 3));
    let et = w.e.set_token(0, 0, I80F48::from_num(-2000));
    et.in_use_count = 1;
    w.e.set_perp(0, 0, 100, I80F48::from_num(0));
    let rt0 = in_fx("liqor_token", -(ONE << 20), ONE << 20);
    let rt = w.r.set_token(0, 0, rt0);
    rt.in_use_count = 1;
    let rp = w.r.set_perp(0, 0, 0, I80F48::ZERO);
    let region = case("health_region", 2);
    w.r.fixed().set_in_health_region(region == 1);
    let done = liq(&accounts(&w), 100, 0);
    // the liquidator buys 100 lots of 8 at 7/8 each, at stable price 2 and oracle price 1 the asset is worth 1 * 1/2 a piece
    let h = health(Z::fx(rt0), zi(100), Z::s(-700 * ONE), 2, (4, 12), (2, 8));
    let tol = Z::s(1 << 14);
    if region == 1 { check(done, "liquidators in a health region are checked at its end"); } else {
        check(implies(h.lt(-tol), !done), "the liquidator must be healthy afterwards");
        check(implies(h.gt(tol), done), "healthy liquidators can liquidate");
    }
    if done { check(and(rp.base_position_lots == 100, rp.quote_position_native == -700), "the liquidator takes over the base"); reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_auth() {
    let w = world((2, 3));
    w.e.set_token(0, 0, I80F48::from_num(-2000)).in_use_count = 1;
    let ep = w.e.set_perp(0, 0, 100, I80F48::from_num(0));
    w.r.set_token(0, 0, I80F48::from_num(100_000)).in_use_count = 1;
    w.r.set_perp(0, 0, 0, I80F48::ZERO);
    let mut x = accounts(&w);
    let g2 = key(K_OTHER, 9);
    let mut mb = 100;
    match case("wrong", 20) {
        0 => { x[3] = w.e.a.clone(); x[4] = signer(&ai_plain(key(K_OWNER, 0))); }
        1 => x[4] = ai_plain(key(K_OWNER, 1)),
        2 => x[4] = signer(&ai_plain(key(K_OWNER, 0))),
        3 => w.e.fixed().group = g2,
        4 => w.r.fixed().group = g2,
        5 => w.e.fixed().frozen_until = NOW + 1,
        6 => w.r.fixed().frozen_until = NOW + 1,
        7 => w.r.fixed().set_being_liquidated(true),
        8 => w.gr.ix_gate = 1 << (IxGate::PerpLiqBaseOrPositivePnl as u32),
        9 => mb = -100,
        10 => x[2] = stub_oracle(41, I80F48::from_num(100)).0,
        11 => x[8] = stub_oracle(41, I80F48::from_num(100)).0,
        12 => x[7] = vault(5, 1 << 40),
        13 => { let (b, _) = bank(1); x[6] = b; x[7] = vault(1, 1 << 40); x[8] = stub_oracle(1, I80F48::ONE).0; }
        14 => { let (b, bk) = bank_at(0, key(K_BANK, 41), 0); bk.group = g2; x[6] = b; }
        15 => { let (p, _) = perp_market(1); x[1] = p; x[2] = stub_oracle(33, I80F48::ONE).0; }
        16 => w.pk.group = g2,
        17 => { ep.bids_base_lots = 1; w.e.perp_oo(0).market = 0; w.e.perp_oo(0).id = 5; }
        18 => ep.taker_base_lots = 1,
        _ => { x.truncate(11); }
    }
    check(!liq(&x, mb, 0), "unauthorized or impossible liquidations are refused");
    check(and(ep.base_position_lots == 100, w.e.token(0).indexed_position == -2000), "refused liquidations change nothing");
    reach("refused");
}
