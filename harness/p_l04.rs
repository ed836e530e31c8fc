// L04: perp losses: settlement by the liquidator, insurance, socialized loss (perp_liq_negative_pnl_or_bankruptcy)
//@mod spec
//@fn h_fee reach=liquidated,recovered,not,profit : any loss, settle token balance, insurance fund and maximum up to 2^30; liquidation fee 100 %
//@fn h_price reach=liquidated,recovered,not,profit : the same without a fee, prices 2 and 1/2
//@fn h_same reach=liquidated,recovered,not,profit : the same, settling in the insurance token
//@fn h_plain reach=liquidated,recovered,not,profit : the same, a market without insurance
//@fn h_debt reach=liquidated,profit : the same, another token's debt of 1000
//@fn h_limit reach=ok : losses within any settle limit, plenty of tokens
//@fn h_nooi reach=ok : any loss of the only position in a market
//@fn h_liqor reach=ok,refused : a fixed loss, any token balance of the liquidator, inside and outside a health region
//@fn h_auth reach=refused : same, foreign, frozen, unsigned, liquidated accounts, wrong markets, banks, oracles, vaults, earlier liquidation phases
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
const BIG: i128 = ONE << 30;
const OI: i64 = 1 << 10;
fn q(n: i128, d: i128) -> I80F48 { I80F48::from_bits(ONE * n / d) }
/// banks: 0 insurance token, 1 settle token, 2 another token
pub struct W { g: Ai, gr: &'static mut Group, e: Ma, r: Ma, b: Vec<Ai>, bk: Vec<&'static mut Bank>, o: Vec<Ai>, pm: Ai, pk: &'static mut PerpMarket, po: Ai, iv: Ai, v: Vec<Ai>, t: usize, sp: i128, fee: i128 }
fn world(kind: u32, fund: u64) -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, gr) = group();
    let e = mango_account(0, 3, 0, 1, 1, 0);
    let r = mango_account(1, 3, 0, 1, 1, 0);
    let (mut b, mut bk, mut o, mut v) = (vec![], vec![], vec![], vec![]);
    // prices in halves
    let p = if kind == 1 { [1, 4, 2] } else { [2, 2, 2] };
    for n in 0..3u8 {
        let (a, k) = bank(n);
        k.init_asset_weight = q(1, 4);
        k.maint_asset_weight = q(1, 2);
        k.init_liab_weight = q(2, 1);
        k.maint_liab_weight = q(1, 1);
        k.stable_price_model.stable_price = p[n as usize] as f64 / 2.0;
        k.indexed_deposits = I80F48::from_bits(ONE << 60);
        k.indexed_borrows = I80F48::from_bits(ONE << 58);
        b.push(a);
        bk.push(k);
        o.push(stub_oracle(n, q(p[n as usize], 2)).0);
        v.push(vault(n, 1 << 40));
    }
    let (pm, pk) = perp_market(0);
    let t = if kind == 2 { 0 } else { 1 };
    pk.settle_token_index = t as u16;
    pk.group_insurance_fund = if kind == 3 { 0 } else { 1 };
    pk.base_liquidation_fee = if kind == 1 { q(0, 1) } else { q(1, 1) };
    pk.open_interest = OI;
    let po = stub_oracle(32, I80F48::ONE).0;
    let iv = token_account(key(K_INSURANCE, 0), key(K_MINT, 0), key(K_GROUP, 0), fund);
    // insurance tokens per settle token: price with fee over price
    let fee = if kind == 1 { 4 } else { 2 };
    W { g, gr, e, r, b, bk, o, pm, pk, po, iv, v, t, sp: p[1] / 2, fee }
}
fn accounts(w: &W) -> Vec<Ai> {
    let mut x = vec![w.g.clone(), w.r.a.clone(), signer(&ai_plain(key(K_OWNER, 1))), w.e.a.clone(), w.pm.clone(), w.po.clone(),
        w.b[w.t].clone(), w.v[w.t].clone(), w.o[w.t].clone(), w.iv.clone(), w.b[0].clone(), w.v[0].clone(), w.o[0].clone(), token_program()];
    x.extend(w.b.iter().cloned());
    x.extend(w.o.iter().cloned());
    x.push(w.pm.clone());
    x.push(w.po.clone());
    x
}
fn liq(x: &[Ai], max_liab_transfer: u64) -> bool {
    ok(crate::__private::__global::perp_liq_negative_pnl_or_bankruptcy_v2(&crate::ID, x, &args(crate::instruction::PerpLiqNegativePnlOrBankruptcyV2 { max_liab_transfer })))
}
/// weighted value in quarters
fn weigh(x: Z, a: i128, l: i128) -> Z { x * Z::ite(x.ge(zero()), Z::s(a), Z::s(l)) }
fn run(kind: u32) {
    let fund = in_u64("fund", 0, 1 << 30);
    let w = world(kind, fund);
    let t0 = in_fx("token", -BIG, BIG);
    let q0 = in_fx("quote", -BIG, ONE);
    let et = w.e.set_token(0, w.t as u16, t0);
    et.in_use_count = 1;
    let ep = w.e.set_perp(0, 0, 0, q0);
    let debt = if kind == 4 { w.e.set_token(1, 2, I80F48::from_num(-1000)).in_use_count = 1; 1000 } else { 0 };
    let zero_id = 0u16;
    let rt0 = I80F48::from_bits(ONE << 50);
    let rt = w.r.set_token(0, w.t as u16, rt0);
    rt.in_use_count = 1;
    let ri = if w.t == 0 { None } else { let x = w.r.set_token(1, zero_id, rt0); x.in_use_count = 1; Some(x) };
    let rp = w.r.set_perp(0, 0, 0, I80F48::ZERO);
    w.r.fixed().set_in_health_region(true);
    let being = case("being_liquidated", 2) == 1;
    w.e.fixed().set_being_liquidated(being);
    let max = in_u64("max", 0, 1 << 31);
    let s: Vec<BankBefore> = w.bk.iter().map(|b| snap(b)).collect();
    let one = Z::s(ONE);
    let tol = Z::s(1 << 12);
    let d = Z::s(debt * ONE);
    // health in quarters: prices cancel except for the debt's
    let sp = Z::s(w.sp);
    let health = |t: I80F48, p: I80F48, a: i128, l: i128| weigh(Z::fx(t) + Z::fx(p), a, l) * sp - d * Z::s(l);
    let end0 = health(t0, q0, 1, 8);
    let maint0 = health(t0, q0, 2, 4);
    let h0 = if being { end0 + Z::s(4 * ONE) } else { maint0 };
    let done = liq(&accounts(&w), max);
    let (t1, q1) = (et.indexed_position, ep.quote_position_native);
    if !done {
        // profits are liquidated in an earlier phase, and so are tokens next to a debt
        check(or(q0 >= 0, and(debt != 0, (Z::fx(t0) + Z::fx(q0)).gt(zero()))), "perp losses can be liquidated");
        reach("profit");
        return;
    }
    let flag = w.e.fixed().being_liquidated();
    let paid = Z::u(fund as u128) - Z::u(token_amount(&w.iv) as u128);
    let nothing = and(and(t1 == t0, q1 == q0), paid.eq(zero()));
    check(implies(h0.gt(tol), and(nothing, !flag)), "only liquidatable accounts are liquidated");
    if and(h0.ge(-tol), nothing) { reach("not"); return; }
    let loss = -Z::fx(q0);
    // settlement: as far as the account's own tokens go
    let taken = Z::fx(t0) - Z::fx(t1);
    // weighted tokens beyond the other debt
    let room = if debt == 0 { Z::fx(t0).max(zero()) } else { ((Z::fx(t0) * Z::s(2) - d * Z::s(4)).div_floor(Z::s(2))).max(zero()).min(Z::fx(t0).max(zero())) };
    let smax = room.min(loss);
    let settle = smax.min(Z::u(max as u128) * one);
    check((taken - settle).abs().le(Z::s(64)), "the liquidator takes over losses as far as tokens and maximum go");
    check((Z::fx(rt.indexed_position) - Z::fx(rt0) - if w.t == 0 { paid * one } else { zero() }).eq(taken), "the liquidator gets the tokens for the losses it takes over");
    // the insurance fund
    let rest = loss - taken;
    let all = (smax - taken).le(Z::s(64));
    let e1 = Z::fx(t0) + Z::fx(q0);
    let need = if debt == 0 { (-e1).max(zero()) } else { Z::s(1 << 60) * one };
    let bankrupt = and(all, rest.gt(Z::s(64)));
    let from = rest.min(need).max(zero());
    let to = from.min(Z::u(max as u128) * one - taken).max(zero());
    let avail = if kind == 3 { zero() } else { Z::u(fund as u128) };
    let f = if kind == 1 { 4 } else { 2 };
    let cost = -((-(to * Z::s(f))).div_floor(one));
    let want = Z::ite(bankrupt, cost.min(avail), zero());
    check((paid - want).abs().le(Z::s(1)), "the insurance fund pays for the remaining loss at the oracle price plus fee, up to maximum and fund");
    check(implies(!bankrupt, paid.le(Z::s(1))), "the insurance fund pays only for losses that cannot be settled");
    check((Z::u(token_amount(&w.v[0]) as u128) - Z::u(1 << 40)).eq(paid), "the fund's payment arrives in the bank's vault");
    if let Some(x) = &ri { check((Z::fx(x.indexed_position) - Z::fx(rt0)).eq(paid * one), "the liquidator is credited what the fund pays"); }
    // what the liquidator took over
    let over = -Z::fx(rp.quote_position_native) - taken;
    check(over.ge(zero()), "the liquidator takes over losses only");
    check((over * Z::s(f)).le(paid * one), "the liquidator is paid for every loss it takes over");
    check((over * Z::s(f)).ge((paid * one).min(to * Z::s(f)) - Z::s(64)), "the liquidator takes over the loss it is paid for");
    // socialized loss
    let social = (Z::fx(q1) - Z::fx(q0)) - taken - over;
    let exhausted = paid.eq(avail);
    let dl = Z::fx(w.pk.long_funding) * Z::s(OI as i128);
    let ds = -Z::fx(w.pk.short_funding) * Z::s(OI as i128);
    check(social.ge(zero()), "nothing is added to the loss");
    check(and(implies(social.gt(zero()), exhausted), implies(social.gt(Z::s(64)), bankrupt)), "a loss is socialized only once the insurance fund is exhausted");
    let sure = and(bankrupt, (Z::u(max as u128) * one - taken).gt(Z::s(64)));
    check(implies(and(exhausted, sure), (social - (from - over)).abs().le(Z::s(64))), "an exhausted fund leaves no loss needed for health zero");
    check(and(dl.eq(ds), (dl - social).abs().lt(Z::s(OI as i128))), "the open interest bears the socialized loss");
    // health
    let end1 = health(t1, q1, 1, 8);
    check(end1.ge(end0 - tol), "liquidation does not lower the account's health");
    check(end1.le(tol), "no loss is forgiven beyond health zero");
    check(and(implies(end1.gt(tol - Z::s(4 * ONE)), !flag), implies(end1.lt(-tol - Z::s(4 * ONE)), flag)), "the account is marked as being liquidated until its health is restored");
    check_totals(w.bk[w.t], &s[w.t], if w.t == 0 { paid * one } else { zero() });
    if w.t != 0 { check_totals(w.bk[0], &s[0], paid * one); }
    let tr = taken.div_floor(one);
    check(and(Z::s(ep.perp_spot_transfers as i128).eq(-tr), Z::s(rp.perp_spot_transfers as i128).eq(tr)), "transfers are counted");
    check(and(Z::s(w.e.fixed().perp_spot_transfers as i128).eq(-tr), Z::s(w.r.fixed().perp_spot_transfers as i128).eq(tr)), "transfers are counted");
    if flag { reach("liquidated"); } else { reach("recovered"); }
}
#[no_mangle]
pub extern "C" fn h_fee() { run(0) }
#[no_mangle]
pub extern "C" fn h_price() { run(1) }
#[no_mangle]
pub extern "C" fn h_same() { run(2) }
#[no_mangle]
pub extern "C" fn h_plain() { run(3) }
#[no_mangle]
pub extern "C" fn h_debt() { run(4) }
#[no_mangle]
pub extern "C" fn h_limit() {
    let w = world(0, 0);
    let et = w.e.set_token(0, 1, I80F48::from_num(1000));
    et.in_use_count = 1;
    let ep = w.e.set_perp(0, 0, 0, I80F48::from_num(-1500));
    w.pk.settle_pnl_limit_factor = 0.0;
    w.pk.open_interest = 0;
    let part = case("part", 2);
    ep.recurring_settle_pnl_allowance = if part == 0 { in_i64("recurring", 0, 1 << 20) } else { 100 };
    ep.oneshot_settle_pnl_allowance = if part == 0 { I80F48::from_num(-50) } else { in_fx("oneshot", -(ONE << 20), ONE << 20) };
    let (r0, o0) = (Z::s(ep.recurring_settle_pnl_allowance as i128), Z::fx(ep.oneshot_settle_pnl_allowance));
    w.r.set_token(0, 1, I80F48::from_num(100_000)).in_use_count = 1;
    w.r.set_perp(0, 0, 0, I80F48::ZERO);
    check(liq(&accounts(&w), 1 << 30), "losses can be taken over");
    let one = Z::s(ONE);
    let lim = (r0.min(Z::s(1500)) - (o0.min(zero())).div_floor(one)) * one;
    let taken = Z::s(1000 * ONE) - Z::fx(et.indexed_position);
    check(taken.eq(lim.min(Z::s(1000 * ONE))), "losses are settled up to the settle limit");
    // the rest of the loss is covered by the account's tokens up to 500
    check((Z::fx(ep.quote_position_native) - taken).eq(Z::s(-1000 * ONE)), "no loss is forgiven beyond health zero");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_nooi() {
    let w = world(3, 0);
    w.pk.open_interest = 0;
    w.e.set_token(0, 1, I80F48::ZERO).in_use_count = 1;
    let ep = w.e.set_perp(0, 0, 0, in_fx("quote", -BIG, -2 * ONE));
    w.r.set_token(0, 1, I80F48::from_num(100_000)).in_use_count = 1;
    w.r.set_perp(0, 0, 0, I80F48::ZERO);
    check(liq(&accounts(&w), 1 << 30), "losses without open interest can be liquidated");
    check(and(ep.quote_position_native.abs() <= I80F48::from_bits(64), and(w.pk.long_funding == 0, w.pk.short_funding == 0)), "without open interest there is nobody to bear the loss");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_liqor() {
    let w = world(3, 0);
    w.e.set_token(0, 1, I80F48::from_num(1000)).in_use_count = 1;
    w.e.set_perp(0, 0, 0, I80F48::from_num(-2000));
    let rt0 = in_fx("liqor_token", -(ONE << 20), ONE << 20);
    let rt = w.r.set_token(0, 1, rt0);
    rt.in_use_count = 1;
    let rp = w.r.set_perp(0, 0, 0, in_fx("liqor_quote", -(ONE << 20), ONE << 20));
    let rq0 = rp.quote_position_native;
    let region = case("health_region", 2);
    w.r.fixed().set_in_health_region(region == 1);
    let done = liq(&accounts(&w), 700);
    let h = Z::fx(rt0) + Z::fx(rq0);
    let tol = Z::s(64);
    if region == 1 { check(done, "liquidators in a health region are checked at its end"); } else {
        check(implies(h.lt(-tol), !done), "the liquidator must be healthy afterwards");
        check(implies(h.gt(tol), done), "healthy liquidators can liquidate");
    }
    if done {
        check(and(rt.indexed_position == rt0 + I80F48::from_num(700), rp.quote_position_native == rq0 - I80F48::from_num(700)), "the liquidator takes over losses for tokens");
        reach("ok");
    } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_auth() {
    let mut w = world(0, 1000);
    let et = w.e.set_token(0, 1, I80F48::from_num(1000));
    et.in_use_count = 1;
    let ep = w.e.set_perp(0, 0, 0, I80F48::from_num(-2000));
    w.r.set_token(0, 1, I80F48::from_num(100_000)).in_use_count = 1;
    w.r.set_perp(0, 0, 0, I80F48::ZERO);
    let mut x = accounts(&w);
    let g2 = key(K_OTHER, 9);
    match case("wrong", 24) {
        0 => { x[1] = w.e.a.clone(); x[2] = signer(&ai_plain(key(K_OWNER, 0))); }
        1 => x[2] = ai_plain(key(K_OWNER, 1)),
        2 => x[2] = signer(&ai_plain(key(K_OWNER, 0))),
        3 => w.e.fixed().group = g2,
        4 => w.r.fixed().group = g2,
        5 => w.e.fixed().frozen_until = NOW + 1,
        6 => w.r.fixed().frozen_until = NOW + 1,
        7 => w.r.fixed().set_being_liquidated(true),
        8 => w.gr.ix_gate = 1 << (IxGate::PerpLiqNegativePnlOrBankruptcy as u32),
        9 => x[5] = stub_oracle(41, I80F48::from_num(100)).0,
        10 => x[8] = stub_oracle(41, I80F48::from_num(100)).0,
        11 => x[7] = vault(2, 1 << 40),
        12 => { x[6] = w.b[2].clone(); x[7] = w.v[2].clone(); x[8] = w.o[2].clone(); }
        13 => { let (b, bk) = bank_at(1, key(K_BANK, 41), 1); bk.group = g2; x[6] = b; }
        14 => x[9] = token_account(key(K_INSURANCE, 1), key(K_MINT, 0), key(K_GROUP, 0), 1000),
        15 => { x[10] = w.b[2].clone(); x[11] = w.v[2].clone(); x[12] = w.o[2].clone(); }
        16 => { let (b, bk) = bank_at(0, key(K_BANK, 42), 0); bk.group = g2; x[10] = b; }
        17 => x[11] = token_account(key(K_OTHER, 7), key(K_MINT, 0), key(K_OWNER, 1), 0),
        18 => x[12] = stub_oracle(42, I80F48::from_bits(ONE / 100)).0,
        19 => { let (p, _) = perp_market(1); x[4] = p; x[5] = stub_oracle(33, I80F48::ONE).0; }
        20 => w.pk.group = g2,
        21 => { ep.bids_base_lots = 1; w.e.perp_oo(0).market = 0; w.e.perp_oo(0).id = 5; }
        22 => ep.base_position_lots = 1,
        _ => { et.indexed_position = I80F48::from_num(-10); w.e.set_token(1, 2, I80F48::from_num(10)).in_use_count = 1; }
    }
    check(!liq(&x, 100), "unauthorized or impossible liquidations are refused");
    reach("refused");
}
