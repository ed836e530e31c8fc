// L01: token liquidation (token_liq_with_token)
//@mod spec
//@fn h_liq0 reach=liquidated,recovered,not,nothing : any asset and debt up to 2^40 native, any maximum, prices 1 and 1, fees on the asset
//@fn h_liq1 reach=liquidated,recovered,not,nothing : the same with prices 2 and 0.5, stable prices elsewhere, fees on the debt
//@fn h_liq2 reach=liquidated,recovered,not,nothing : the same with prices 0.25 and 4, fees on both, a loan origination fee
//@fn h_liq3 reach=liquidated,recovered,not,nothing : the same with prices 1 and 1, a third token with a debt
//@fn h_liq4 tier=thorough reach=liquidated,recovered,not,nothing : the same with prices 2 and 0.5, stable prices elsewhere, indexes 2 and 4
//@fn h_real reach=liquidated,recovered,not,nothing : realistic fees and weights, five pairs of positions, any maximum
//@fn h_perp reach=liquidated,refused : any perp pnl up to 2^30 settling in the asset or the debt token, unlimited maximum
//@fn h_liqor reach=ok,refused : a fixed liquidation with any asset and debt token balance of the liquidator up to 2^30, inside and outside a health region
//@fn h_auth reach=refused : same, foreign, frozen, unsigned, liquidated accounts, wrong tokens and signs, open orders, disabled liquidation
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn q(n: i128, d: i128) -> I80F48 { I80F48::from_bits(ONE * n / d) }
pub struct W { g: Ai, gr: &'static mut Group, e: Ma, r: Ma, b: Vec<Ai>, bk: Vec<&'static mut Bank>, o: Vec<Ai>, pa: i128, pl: i128, wa: (i128, i128), wl: (i128, i128), fa: (i128, i128), fl: (i128, i128) }
/// prices in quarters
fn world(kind: u32) -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, gr) = group();
    let e = mango_account(0, 3, 0, 1, 1, 0);
    let r = mango_account(1, 3, 0, 0, 0, 0);
    let (pa, pl) = [(4, 4), (8, 2), (1, 16), (4, 4), (8, 2), (4, 4)][kind as usize];
    // (init, maint) asset weight, (init, maint) liab weight in sixteenths: with the fees below, everything divides exactly
    let (wa, wl) = [((4, 6), (16, 14)), ((4, 6), (16, 14)), ((2, 4), (16, 14)), ((4, 6), (16, 14)), ((4, 6), (16, 14)), ((12, 14), (20, 18))][kind as usize];
    // (liquidation fee, platform fee) of asset and debt in 128ths
    let (fa, fl) = [((96, 32), (0, 0)), ((0, 0), (64, 64)), ((96, 32), (64, 64)), ((96, 32), (0, 0)), ((0, 0), (64, 64)), ((8, 1), (4, 2))][kind as usize];
    let (mut b, mut bk, mut o) = (vec![], vec![], vec![]);
    for n in 0..3u8 {
        let (a, k) = bank(n);
        k.maint_asset_weight = q(wa.1, 16);
        k.init_asset_weight = q(wa.0, 16);
        k.maint_liab_weight = q(wl.1, 16);
        k.init_liab_weight = q(wl.0, 16);
        let f = [fa, fl, (3, 3)][n as usize];
        k.liquidation_fee = q(f.0, 128);
        k.platform_liquidation_fee = q(f.1, 128);
        let p = [pa, pl, 4][n as usize];
        k.stable_price_model.stable_price = p as f64 / 4.0 * if kind == 1 || kind == 4 { [0.5, 2.0, 1.0][n as usize] } else { 1.0 };
        if kind == 4 {
            k.deposit_index = q(2, 1);
            k.borrow_index = q(4, 1);
        }
        if kind == 2 { k.loan_origination_fee_rate = q(1, 64); }
        k.indexed_deposits = I80F48::from_bits(ONE << 60);
        k.indexed_borrows = I80F48::from_bits(ONE << 58);
        b.push(a);
        bk.push(k);
        o.push(stub_oracle(n, q(p, 4)).0);
    }
    W { g, gr, e, r, b, bk, o, pa, pl, wa, wl, fa, fl }
}
fn accounts(w: &W, third: bool) -> Vec<Ai> {
    let mut x = vec![w.g.clone(), w.r.a.clone(), signer(&ai_plain(key(K_OWNER, 1))), w.e.a.clone()];
    let n = if third { 3 } else { 2 };
    x.extend(w.b[..n].iter().cloned());
    x.extend(w.o[..n].iter().cloned());
    x
}
fn liq(x: &[Ai], asset: u16, liab: u16, max: I80F48) -> bool {
    ok(crate::__private::__global::token_liq_with_token(&crate::ID, x, &args(crate::instruction::TokenLiqWithToken { asset_token_index: asset, liab_token_index: liab, max_liab_transfer: max })))
}
/// health at oracle prices with weights in sixteenths; scaled by 64 * 2^96
fn health(vs: &[(Z, i128)], wa: i128, wl: i128) -> Z {
    let mut h = zero();
    for (v, p) in vs { h = h + *v * Z::s(*p) * Z::ite(v.ge(zero()), Z::s(wa), Z::s(wl)); }
    h
}
fn run(kind: u32) {
    let w = world(kind);
    let third = kind == 3;
    let loan = kind == 2;
    let (a0, l0) = if kind == 5 {
        let (a, l) = [(100_000, 95_000), (100_000, 90_000), (95_000, 100_000), (50_000, 100_000), (100_000, 70_000)][case("positions", 5) as usize];
        (q(a, 1), -q(l, 1))
    } else { (in_fx("asset", 1, ONE << 40), -in_fx("debt", 1, ONE << 40)) };
    let (ea, el) = (w.e.set_token(0, 0, a0), w.e.set_token(1, 1, l0));
    let t = if third { w.e.set_token(2, 2, I80F48::from_num(-1000)); Some((exact(I80F48::from_num(-1000), w.bk[2]), 4)) } else { None };
    let max = in_fx("max", -(ONE << 20), ONE << 41);
    w.r.set_token(0, 0, I80F48::from_bits(ONE << 60));
    let rl0 = I80F48::from_bits(if loan { 0 } else { ONE << 60 });
    w.r.set_token(1, 1, rl0);
    let (ra, rl) = (w.r.token(0), w.r.token(1));
    let ra0 = ra.indexed_position;
    let being = case("being_liquidated", 2) == 1;
    w.e.fixed().set_being_liquidated(being);
    let (sa, sl) = (snap(w.bk[0]), snap(w.bk[1]));
    let vs = |a: I80F48, l: I80F48| { let mut v = vec![(exact(a, w.bk[0]), w.pa), (exact(l, w.bk[1]), w.pl)]; v.extend(t); v };
    let (va0, vl0) = (exact(a0, w.bk[0]), exact(l0, w.bk[1]));
    let tol = Z::pow2(58) * Z::s(64);
    let unit = one96() * Z::s(64);
    let maint0 = health(&vs(a0, l0), w.wa.1, w.wl.1);
    let end0 = health(&vs(a0, l0), w.wa.0, w.wl.0);
    let done = liq(&accounts(&w, third), 0, 1, max);
    // accounts being liquidated are released a native quote unit below zero
    let h0 = if being { end0 + unit } else { maint0 };
    if !done {
        // a recovered or healthy account is not an error; otherwise only the maximum may stand in the way, or an asset too small to buy anything
        check(or(max <= 0, h0.ge(-tol)), "liquidatable accounts can be liquidated");
        reach("nothing");
        return;
    }
    let (a1, l1) = (ea.indexed_position, el.indexed_position);
    let same = a1 == a0 && l1 == l0;
    if same && (w.bk[0].collected_fees_native == 0) && rl.indexed_position == rl0 && ra.indexed_position == ra0 {
        check(or(h0.ge(-tol), or(max.to_bits() < 1 << 20, or((va0 * Z::s(w.pa)).le(unitq(w.pl)), end0.ge(-tol)))), "a liquidatable account is liquidated");
        check(implies(h0.gt(tol), !w.e.fixed().being_liquidated()), "a healthy account is not marked as being liquidated");
        reach("not");
        return;
    }
    check(h0.lt(tol), "only liquidatable accounts are liquidated");
    let (va1, vl1) = (exact(a1, w.bk[0]), exact(l1, w.bk[1]));
    let (da, dl) = (va0 - va1, vl1 - vl0);
    check(and(da.ge(zero()), dl.ge(zero())), "the liquidated account gives assets and gets debt repaid");
    check(and(va1.ge(zero()), vl1.le(zero())), "liquidation does not overshoot a position");
    // dust (less than a native unit) may be swept from a closed position
    let dust_a = Z::ite(a1 == 0, one96(), zero());
    let small = Z::pow2(56);
    // what moved, on the liquidator's side
    let gain = exact(ra.indexed_position, w.bk[0]) - exact(ra0, w.bk[0]);
    let pay = exact(rl0, w.bk[1]) - exact(rl.indexed_position, w.bk[1]);
    let fee = fx96(w.bk[0].collected_fees_native);
    let lofee = fx96(w.bk[1].collected_fees_native);
    check(w.bk[0].collected_liquidation_fees == w.bk[0].collected_fees_native, "liquidation fees are counted");
    let near = |x: Z, y: Z, t: Z| and((x - y).le(t), (y - x).le(t));
    let liab = pay - lofee;
    check(and((dl - liab).le(small), (liab - dl).le(small + one96())), "the debt repaid is what the liquidator paid");
    check(implies(l1 != 0, near(dl, liab, small)), "the debt repaid is what the liquidator paid");
    check(and((gain + fee - da).le(small), (da - gain - fee).le(small + dust_a)), "the assets given are what the liquidator and the platform got");
    check(liab.le(fx96(max) + small), "no more debt is repaid than the maximum");
    // price: liab * pl / pa * (1 + fees)
    let ff = |l: i128, a: i128| liab * Z::s(w.pl * (128 + l) * (128 + a));
    check(near(gain * Z::s(w.pa << 14), ff(w.fl.0, w.fa.0), small * Z::s(1 << 20)), "the liquidator gets the oracle value plus the liquidation fees");
    check(near((gain + fee) * Z::s(w.pa << 14), ff(w.fl.0 + w.fl.1, w.fa.0 + w.fa.1), small * Z::s(1 << 20)), "the platform gets its liquidation fees");
    if loan { check(near(lofee * Z::s(64), liab, small), "the liquidator's loan pays the origination fee"); } else { check(lofee.eq(zero()), "a liquidator without a loan pays no origination fee"); }
    // health
    let end1 = health(&vs(a1, l1), w.wa.0, w.wl.0);
    check((end1 - end0).ge(-tol - dust_a * Z::s(w.wa.0 * w.pa)), "liquidation does not lower the account's health");
    check(end1.le(tol + one96() * Z::s(w.wl.0 * w.pl)), "no more is liquidated than needed to reach health zero");
    check(implies(l1 != 0, end1.le(tol)), "no more is liquidated than needed to reach health zero");
    let swept = or(a1 == 0, va1.le(small * Z::s(64)));
    let finished = or(end1.ge(-tol), or(swept, or(vl1.ge(-small), liab.ge(fx96(max) - small))));
    check(finished, "liquidation goes on until health zero, the maximum, or the end of asset or debt");
    let flag = w.e.fixed().being_liquidated();
    check(and(implies(end1.gt(tol - unit), !flag), implies(end1.lt(-tol - unit), flag)), "the account is marked as being liquidated until its health is restored");
    // books
    check_totals(w.bk[0], &sa, (Z::fx(ra.indexed_position) - Z::fx(ra0)) + Z::fx(a1) - Z::fx(a0));
    check_totals(w.bk[1], &sl, (Z::fx(rl.indexed_position) - Z::fx(rl0)) + Z::fx(l1) - Z::fx(l0));
    if flag { reach("liquidated"); } else { reach("recovered"); }
}
fn unitq(p: i128) -> Z { one96() * Z::s(p) }
#[no_mangle]
pub extern "C" fn h_liq0() { run(0) }
#[no_mangle]
pub extern "C" fn h_liq1() { run(1) }
#[no_mangle]
pub extern "C" fn h_liq2() { run(2) }
#[no_mangle]
pub extern "C" fn h_liq3() { run(3) }
#[no_mangle]
pub extern "C" fn h_liq4() { run(4) }
#[no_mangle]
pub extern "C" fn h_real() { run(5) }
#[no_mangle]
pub extern "C" fn h_perp() {
    let w = world(5);
    let (a0, l0) = (q(100_000, 1), q(-95_000, 1));
    let (ea, el) = (w.e.set_token(0, 0, a0), w.e.set_token(1, 1, l0));
    w.r.set_token(0, 0, I80F48::from_bits(ONE << 60));
    w.r.set_token(1, 1, I80F48::from_bits(ONE << 60));
    let (pm, pk) = perp_market(0);
    let t = case("settle_token", 2);
    pk.settle_token_index = t as u16;
    let pnl = in_fx("pnl", -(ONE << 30), ONE << 30);
    w.e.set_perp(0, 0, 0, pnl);
    // a third token's debt can keep health down
    let third = case("third", 2) as i128;
    if third == 1 { w.e.set_token(2, 2, q(-200_000, 1)); }
    let mut x = accounts(&w, third == 1);
    x.push(pm);
    x.push(stub_oracle(32, I80F48::ONE).0);
    let done = liq(&x, 0, 1, q(1 << 40, 1));
    let p = Z::fx(pnl);
    let (pa, pl) = if t == 0 { (p, zero()) } else { (zero(), p) };
    let (da, dl) = (Z::fx(a0) - Z::fx(ea.indexed_position), Z::fx(el.indexed_position) - Z::fx(l0));
    let v = |x: Z, wa: i128, wl: i128| x * Z::s(4) * Z::ite(x.ge(zero()), Z::s(wa), Z::s(wl));
    let h = |da: Z, dl: Z, wa: (i128, i128)| v(Z::fx(a0) - da + pa, wa.0, wa.1) + v(Z::fx(l0) + dl + pl, wa.0, wa.1) - Z::s(third * 200_000 * ONE * 4 * wa.1);
    let m0 = h(zero(), zero(), (14, 18));
    let e1 = h(da, dl, (12, 20));
    let one = Z::s(ONE);
    let (ra, rl) = (Z::fx(a0) + pa, -(Z::fx(l0) + pl));
    if !done {
        check(or(m0.ge(zero()), or(rl.le(zero()), ra.le(zero()))), "liquidatable accounts with asset and debt can be liquidated");
        check(and(da.eq(zero()), dl.eq(zero())), "refusals change nothing");
        reach("refused");
        return;
    }
    let moved = dl.gt(zero());
    let tol = Z::s(1 << 10) * Z::s(64);
    check(implies(moved, m0.lt(zero())), "only liquidatable accounts are liquidated");
    check(implies(moved, dl.le(rl + one)), "perp profit covering the debt is not liquidated");
    check(implies(moved, da.le(ra + one)), "assets covering perp losses are not liquidated");
    check(implies(and(moved, and(dl.lt(rl.min(-Z::fx(l0)) - one), da.lt(ra.min(Z::fx(a0)) - one))), e1.abs().le(tol)), "liquidation restores health");
    let small = Z::s(1 << 10);
    if moved { reach("liquidated"); }
    check(or(!moved, e1.ge(h(zero(), zero(), (12, 20)) - small - one * Z::s(48))), "liquidation does not lower the account's health");
}
#[no_mangle]
pub extern "C" fn h_liqor() {
    let w = world(5);
    w.e.set_token(0, 0, I80F48::from_num(100_000));
    w.e.set_token(1, 1, I80F48::from_num(-95_000));
    let ra0 = in_fx("liqor_asset", -(ONE << 30), ONE << 30);
    let rl0 = in_fx("liqor_debt_token", -(ONE << 30), ONE << 30);
    let (ra, rl) = (w.r.set_token(0, 0, ra0), w.r.set_token(1, 1, rl0));
    ra.in_use_count = 1;
    rl.in_use_count = 1;
    let region = case("health_region", 2);
    w.r.fixed().set_in_health_region(region == 1);
    let done = liq(&accounts(&w, false), 0, 1, I80F48::from_num(10_000));
    // 10000 native of debt for 10000 * 132/128 * 136/128 assets
    let (a, l) = (fx96(ra0) + one96() * Z::s(10_000 * 132 * 136).div_floor(Z::s(128 * 128)), fx96(rl0) - one96() * Z::s(10_000));
    let h = health(&[(a, 4), (l, 4)], 12, 20);
    let tol = one96() * Z::s(128);
    if region == 1 { check(done, "liquidators in a health region are checked at its end"); } else {
        check(implies(h.lt(-tol), !done), "the liquidator must be healthy afterwards");
        check(implies(h.gt(tol), done), "healthy liquidators can liquidate");
    }
    if done { reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_auth() {
    let mut w = world(5);
    w.e.set_token(0, 0, I80F48::from_num(100_000));
    w.e.set_token(1, 1, I80F48::from_num(-95_000));
    w.r.set_token(0, 0, I80F48::from_num(1_000_000));
    w.r.set_token(1, 1, I80F48::from_num(1_000_000));
    let mut x = accounts(&w, false);
    let g2 = key(K_OTHER, 9);
    let (mut asset, mut liab) = (0, 1);
    let k = case("wrong", 17);
    match k {
        0 => { x[1] = w.e.a.clone(); x[2] = signer(&ai_plain(key(K_OWNER, 0))); }
        1 => x[2] = ai_plain(key(K_OWNER, 1)),
        2 => x[2] = signer(&ai_plain(key(K_OWNER, 0))),
        3 => w.e.fixed().group = g2,
        4 => w.r.fixed().group = g2,
        5 => w.e.fixed().frozen_until = NOW + 1,
        6 => w.r.fixed().frozen_until = NOW + 1,
        7 => w.r.fixed().set_being_liquidated(true),
        8 => w.gr.ix_gate = 1 << (IxGate::TokenLiqWithToken as u32),
        9 => liab = 0,
        10 => { asset = 1; liab = 0; }
        11 => w.bk[0].disable_asset_liquidation = 1,
        12 => { w.e.set_perp(0, 0, 0, I80F48::ZERO).bids_base_lots = 1; w.e.perp_oo(0).market = 0; w.e.perp_oo(0).id = 5; let (pm, _) = perp_market(0); let (po, _) = stub_oracle(32, I80F48::ONE); x.push(pm); x.push(po); }
        13 => { x.remove(5); }
        14 => x[5] = bank_at(1, key(K_BANK, 40), 1).0,
        15 => x[7] = stub_oracle(41, I80F48::from_num(100)).0,
        _ => { let (b, bk) = bank_at(1, key(K_BANK, 41), 1); bk.group = g2; x[5] = b; }
    }
    if k == 14 {
        // another bank of the same token is fine
        check(liq(&x, asset, liab, I80F48::from_num(10)), "another bank of the token can be used");
    } else {
        check(!liq(&x, asset, liab, I80F48::from_num(10)), "unauthorized or impossible liquidations are refused");
        check(and(w.e.token(0).indexed_position == 100_000, w.e.token(1).indexed_position == -95_000), "refused liquidations change nothing");
    }
    reach("refused");
}
