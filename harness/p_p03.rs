// P03: settling perp pnl and fees, settle limits
//@mod spec
//@fn h_limit reach=open,limited : five combinations of position, stable price and limit factor; any quote position, allowances and window use
//@fn h_window reach=same,new : window sizes 1, 3600, 86400, any window number and time
//@fn h_record0 reach=ok : any settlement within the available limit, of any such position with -7 lots at 1, factor 0.25
//@fn h_record1 tier=thorough reach=ok : any settlement within the available limit, of any such position with 5 lots at 2.5, factor 2
//@fn h_record2 reach=ok : any settlement within the available limit, of any such position with no base position
//@fn h_fee reach=none,flat,low : any settlement, pnl and position value up to 2^40, eight health pairs
//@fn h_pnl reach=settled,refused,limited : settling pnl between two accounts: any quote positions, positions 0 or 3 lots, any token balance of the losing account
//@fn h_limits_a reach=settled,refused : a fixed profit with any one-time allowance and window use, or any recurring allowance
//@fn h_limits_b reach=settled,refused : any loss of a 3 lot short with any one-time allowance and window use, or any recurring allowance
//@fn h_pnl_auth reach=refused : same account twice, foreign accounts, frozen accounts, wrong bank, wrong oracle, no signature
//@fn h_fees reach=settled,nothing,unhealthy : settling fees: any quote position, fees, maximum and token balance, without limits
//@fn h_fees_limit reach=settled,nothing : the same with any one-time allowance and window use, plenty of tokens
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
const BIG: i128 = ONE << 40;
fn zl(x: i64) -> Z { Z::s(x as i128) }
fn ceil(z: Z) -> Z { -((-z).div_floor(Z::s(ONE))) }
fn sym_pos(m: &Ma, n: i64) -> &'static mut PerpPosition {
    let p = m.set_perp(0, 0, n, in_fx("quote", -BIG, BIG));
    p.oneshot_settle_pnl_allowance = in_fx("oneshot", -BIG, BIG);
    p.recurring_settle_pnl_allowance = in_i64("recurring", -(1 << 40), 1 << 40);
    p.settle_pnl_limit_settled_in_current_window_native = in_i64("used", -(1 << 40), 1 << 40);
    p
}
/// base position, its value at the stable price and the limit on it, scaled 2^48 (concrete)
fn market(i: u32) -> (i64, &'static mut PerpMarket, i128, i128) {
    let (_p, pk) = perp_market(0);
    let (n, sp, s, f) = [(-7i64, 1.0, 2i128, 0.25f32), (5, 2.5, 5, 2.0), (0, 2.5, 5, 0.25), (5, 1.0, 2, 0.0), (3, 1.0, 2, -1.0)][i as usize];
    pk.stable_price_model.stable_price = sp;
    pk.settle_pnl_limit_factor = f;
    let v = n as i128 * 10 * s * ONE / 2;
    let u = if f < 0.0 { 0 } else { v.abs() / ONE * (f * 4.0) as i128 / 4 };
    (n, pk, v, u)
}
/// the settle limit: base value part, recurring part, one-time part
fn limits(p: &PerpPosition, v: i128, u: i128) -> (Z, Z) {
    let upnl = ceil((Z::fx(p.quote_position_native) + Z::s(v)).abs());
    let m = Z::s(u) + zl(p.recurring_settle_pnl_allowance).abs().min(upnl);
    let o = Z::fx(p.oneshot_settle_pnl_allowance);
    (-m + o.min(zero()).div_floor(Z::s(ONE)), m + ceil(o.max(zero())))
}
#[no_mangle]
pub extern "C" fn h_limit() {
    begin();
    let (n, pk, v, u) = market(case("position", 5));
    let m = mango_account(0, 1, 0, 1, 1, 0);
    let p = sym_pos(&m, n);
    panic_is_violation("settle limits can always be computed");
    let (lo, hi) = p.settle_limit(pk);
    let (alo, ahi) = p.available_settle_limit(pk);
    let pnl = in_fx("pnl", -BIG, BIG);
    let got = p.apply_pnl_settle_limit(pk, pnl);
    if pk.settle_pnl_limit_factor < 0.0 {
        check(and(and(lo == i64::MIN, hi == i64::MAX), and(alo == i64::MIN, ahi == i64::MAX)), "a negative factor is no limit");
        check(got == pnl, "a negative factor is no limit");
        reach("open");
        return;
    }
    let (wlo, whi) = limits(p, v, u);
    check(and(zl(lo).eq(wlo), zl(hi).eq(whi)), "the settle limit is that of position, recurring and one-time allowance");
    let used = zl(p.settle_pnl_limit_settled_in_current_window_native);
    check(and(zl(alo).eq((wlo - used).min(zero())), zl(ahi).eq((whi - used).max(zero()))), "what was settled in the window is no longer available");
    let w = Z::ite(pnl < 0, Z::fx(pnl).max(zl(alo) * Z::s(ONE)), Z::fx(pnl).min(zl(ahi) * Z::s(ONE)));
    check(Z::fx(got).eq(w), "pnl is limited to what is available");
    reach("limited");
}
#[no_mangle]
pub extern "C" fn h_window() {
    begin();
    let (_p, pk) = perp_market(0);
    let m = mango_account(0, 1, 0, 1, 1, 0);
    let p = sym_pos(&m, 3);
    let w = [1u64, 3600, 86400][case("window", 3) as usize];
    pk.settle_pnl_limit_window_size_ts = w;
    p.settle_pnl_limit_window = in_u32("number", 0, 1 << 20);
    let (n0, used) = (p.settle_pnl_limit_window as u64, p.settle_pnl_limit_settled_in_current_window_native);
    let now = in_u64("now", 0, (1 << 20) * w);
    panic_is_violation("the window can always be updated");
    p.update_settle_limit(pk, now);
    check(p.settle_pnl_limit_window as u64 == now / w, "the window is that of the time");
    let same = n0 == now / w;
    check(implies(same, p.settle_pnl_limit_settled_in_current_window_native == used), "within a window the use is kept");
    check(implies(!same, p.settle_pnl_limit_settled_in_current_window_native == 0), "a new window starts unused");
    if same { reach("same"); } else { reach("new"); }
}
#[no_mangle]
pub extern "C" fn h_record0() { record(0) }
#[no_mangle]
pub extern "C" fn h_record1() { record(1) }
#[no_mangle]
pub extern "C" fn h_record2() { record(2) }
fn record(i: u32) {
    begin();
    let (n, pk, _v, _u) = market(i);
    let m = mango_account(0, 1, 0, 1, 1, 0);
    let p = sym_pos(&m, n);
    let b = *p;
    let (lo, hi) = p.available_settle_limit(pk);
    let s = in_fx("settlement", -BIG, BIG);
    assume(and(Z::fx(s).ge(zl(lo) * Z::s(ONE)), Z::fx(s).le(zl(hi) * Z::s(ONE))));
    panic_is_violation("settlements within the limit can be recorded");
    p.record_settle(s, pk);
    check((Z::fx(b.quote_position_native) - Z::fx(p.quote_position_native)).eq(Z::fx(s)), "the quote position gives up the settled amount");
    check(and(p.base_position_lots == b.base_position_lots, p.market_index == b.market_index), "the base position is untouched");
    let (o0, o1) = (Z::fx(b.oneshot_settle_pnl_allowance), Z::fx(p.oneshot_settle_pnl_allowance));
    let pos = s > 0;
    check(o1.eq(Z::ite(pos, Z::ite(o0.gt(zero()), (o0 - Z::fx(s)).max(zero()), o0), Z::ite(o0.lt(zero()), (o0 - Z::fx(s)).min(zero()), o0))), "the one-time allowance is used first, and not beyond itself");
    let (r0, r1) = (zl(b.recurring_settle_pnl_allowance).abs(), zl(p.recurring_settle_pnl_allowance));
    check(and(r1.ge(zero()), r1.le(r0)), "the recurring allowance never grows by settling");
    // total budget of the window in the direction of the settlement
    let (u0, u1) = (zl(b.settle_pnl_limit_settled_in_current_window_native), zl(p.settle_pnl_limit_settled_in_current_window_native));
    let one = Z::s(ONE);
    let before = Z::ite(pos, r0 * one + o0.max(zero()) - u0 * one, r0 * one + (-o0).max(zero()) + u0 * one);
    let after = Z::ite(pos, r1 * one + o1.max(zero()) - u1 * one, r1 * one + (-o1).max(zero()) + u1 * one);
    check((before - after).gt(Z::fx(s).abs() - one), "a settlement uses up its amount of the window's budget");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_fee() {
    begin();
    let (_p, pk) = perp_market(0);
    pk.settle_fee_flat = 3.0;
    pk.settle_fee_amount_threshold = 1000.0;
    pk.settle_fee_fraction_low_health = 0.25;
    let (h, mh) = [(5i64, 9i64), (0, 0), (-4, -1), (-4, -4), (-4, 0), (-4, 12), (-1, 1 << 30), (0, 5)][case("health", 8) as usize];
    let s = in_fx("settlement", 0, ONE << 40);
    let (pv, posv) = (in_fx("pnl_value", 0, ONE << 40), in_fx("position_value", 0, ONE << 40));
    panic_is_violation("the fee can always be computed");
    let fee = match val(pk.compute_settle_fee(s, pv, posv, I80F48::from_num(h), I80F48::from_num(mh))) { Some(f) => f, None => { check(false, "the fee can always be computed"); return; } };
    check(and(fee >= 0, fee <= s), "the settle fee is between nothing and the settlement");
    let tiny = (Z::fx(pv) * Z::s(100)).le(Z::fx(posv));
    check(implies(tiny, fee.is_zero()), "small pnl on a large position earns no fee");
    let big = and(!tiny, s >= 1000);
    check(implies(big, fee == 3), "large settlements earn the flat fee");
    let z = Z::fx(s);
    // quarter of the settlement, in proportion to how far health is between liquidation end and maintenance
    let part = if h >= 0 { zero() } else if mh < 0 { z.div_floor(Z::s(4)) } else { (z.div_floor(Z::s(4)) * Z::s((-h) as i128)).div_floor(Z::s((mh - h) as i128)) };
    let want = part.min(Z::s(6 * ONE)).min(z);
    let e = Z::fx(fee) - want;
    let tol = z.div_floor(Z::s(ONE)) + Z::s(2);
    check(implies(and(!tiny, s < 1000), and(e.le(tol), e.ge(-tol))), "small settlements earn a fee only if health is low, at most twice the flat fee");
    if tiny { reach("none"); } else if big { reach("flat"); } else { reach("low"); }
}
pub struct W { g: Ai, gr: &'static mut Group, a: Ma, b: Ma, st: Ma, pm: Ai, pk: &'static mut PerpMarket, bank: Ai, bk: &'static mut Bank, po: Ai, so: Ai }
fn world() -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, gr) = group();
    let a = mango_account(0, 2, 0, 1, 1, 0);
    let b = mango_account(1, 2, 0, 1, 1, 0);
    let st = mango_account(2, 2, 0, 1, 1, 0);
    let (pm, pk) = perp_market(0);
    let (bank, bk) = bank(0);
    bk.indexed_deposits = I80F48::from_bits(ONE << 60);
    bk.indexed_borrows = I80F48::from_bits(ONE << 58);
    let (po, _) = stub_oracle(32, I80F48::from_num(2));
    let (so, _) = stub_oracle(0, I80F48::ONE);
    pk.settle_fee_flat = 3.0;
    pk.settle_fee_amount_threshold = 1000.0;
    W { g, gr, a, b, st, pm, pk, bank, bk, po, so }
}
fn accounts(w: &W) -> Vec<Ai> {
    vec![w.g.clone(), w.st.a.clone(), signer(&ai_plain(key(K_OWNER, 2))), w.pm.clone(), w.a.a.clone(), w.b.a.clone(), w.po.clone(), w.bank.clone(), w.so.clone(), w.bank.clone(), w.so.clone(), w.pm.clone(), w.po.clone()]
}
fn settle(x: &[Ai]) -> bool { ok(crate::__private::__global::perp_settle_pnl(&crate::ID, x, &args(crate::instruction::PerpSettlePnl {}))) }
fn pnl(w: &mut W, lim: Option<u32>) {
    let limited = lim.is_some();
    let (na, nb) = (if limited || case("a_base", 2) == 1 { 3 } else { 0 }, if limited || case("b_base", 2) == 1 { -3 } else { 0 });
    let fixed = I80F48::from_bits(ONE << 38);
    let qa = if lim == Some(1) || lim == Some(0) { fixed } else { in_fx("a_quote", -(ONE << 40), ONE << 40) };
    let qb = if lim == Some(0) { -fixed } else { in_fx("b_quote", -(ONE << 40), ONE << 40) };
    let pa = w.a.set_perp(0, 0, na, qa);
    let pb = w.b.set_perp(0, 0, nb, qb);
    w.pk.settle_pnl_limit_factor = if limited { 0.0 } else { -1.0 };
    let who = lim.unwrap_or(0);
    if limited {
        for (i, p) in [&mut *pa, &mut *pb].into_iter().enumerate() {
            if i as u32 != who {
                p.oneshot_settle_pnl_allowance = I80F48::from_bits(if i == 0 { 1 } else { -1 } * (ONE << 50));
                p.settle_pnl_limit_window = (NOW / 86400) as u32;
                continue;
            }
            let kind = case("kind", 2);
            if kind == 0 {
                p.oneshot_settle_pnl_allowance = in_fx("oneshot", -(ONE << 40), ONE << 40);
                p.recurring_settle_pnl_allowance = 1000;
            } else {
                p.oneshot_settle_pnl_allowance = I80F48::from_bits(if i == 0 { 7 } else { -7 } * ONE / 2);
                p.recurring_settle_pnl_allowance = in_i64("recurring", 0, 1 << 40);
            }
            p.settle_pnl_limit_settled_in_current_window_native = if kind == 0 { in_i64("used", -(1 << 40), 1 << 40) } else { if i == 0 { 100 } else { -100 } };
            p.settle_pnl_limit_window = (NOW / 86400) as u32 - if kind == 0 { case("stale", 2) } else { 0 };
        }
    }
    let ta = w.a.set_token(0, 0, I80F48::from_num(if limited { 1 << 20 } else { [1 << 20, -(1 << 10)][case("a_tokens", 2) as usize] }));
    let db = if limited { I80F48::from_bits(ONE << 50) } else { in_fx("b_tokens", -(ONE << 40), ONE << 50) };
    let tb = w.b.set_token(0, 0, db);
    ta.in_use_count = 1;
    tb.in_use_count = 1;
    let ts = w.st.set_token(0, 0, I80F48::from_num(100));
    let (ta0, ts0) = (ta.indexed_position, ts.indexed_position);
    let s0 = snap(w.bk);
    let (pa0, pb0) = (*pa, *pb);
    let done = settle(&accounts(w));
    let (dqa, dqb) = (Z::fx(qa) - Z::fx(pa.quote_position_native), Z::fx(qb) - Z::fx(pb.quote_position_native));
    if !done {
        check(true, "refusals are observed");
        reach("refused");
        return;
    }
    let s = dqa;
    check(s.ge(zero()), "the profitable account settles profit");
    check(dqb.eq(-s), "what one position gives up the other gains");
    let pnl_a = Z::fx(qa) + Z::s(na as i128 * 20 * ONE);
    let pnl_b = Z::fx(qb) + Z::s(nb as i128 * 20 * ONE);
    check(and(pnl_a.gt(zero()), pnl_b.lt(zero())), "only profit settles against loss");
    check(and(s.le(pnl_a), s.le(-pnl_b)), "no more is settled than there is profit and loss");
    let (da, d_b, dst) = (Z::fx(ta.indexed_position) - Z::fx(ta0), Z::fx(tb.indexed_position) - Z::fx(db), Z::fx(ts.indexed_position) - Z::fx(ts0));
    let tiny = Z::s(4);
    let near = |x: Z, y: Z| and((x - y).le(tiny), (y - x).le(tiny));
    check(near(d_b, -s), "the losing account pays the settlement in tokens");
    check(and(dst.ge(-tiny), dst.le(Z::s(6 * ONE) + tiny)), "the settler earns at most twice the flat fee");
    check(near(da + dst, s), "the profitable account receives the settlement minus the fee");
    check((da + d_b + dst).le(zero()), "no tokens are created");
    check_totals(w.bk, &s0, da + d_b + dst);
    check(Z::fx(tb.indexed_position).ge(zero().min(Z::fx(db)) - tiny), "settling does not put the losing account into debt");
    check(and(pa.base_position_lots == na, pb.base_position_lots == nb), "base positions are untouched");
    if limited {
        let w1 = |p: &PerpPosition| p.settle_pnl_limit_window as u64 == NOW / 86400;
        check(w1(pa) && w1(pb), "the window is that of the time");
        let up = |q: I80F48, n: i64| ceil((Z::fx(q) + Z::s(n as i128 * 10 * ONE)).abs());
        let usd = |p: &PerpPosition| if p.settle_pnl_limit_window as u64 == NOW / 86400 { zl(p.settle_pnl_limit_settled_in_current_window_native) } else { zero() };
        let la = zl(pa0.recurring_settle_pnl_allowance).min(up(qa, na)) + ceil(Z::fx(pa0.oneshot_settle_pnl_allowance).max(zero())) - usd(&pa0);
        let lb = zl(pb0.recurring_settle_pnl_allowance).min(up(qb, nb)) + ceil((-Z::fx(pb0.oneshot_settle_pnl_allowance)).max(zero())) + usd(&pb0);
        check(s.le(if who == 0 { la } else { lb } * Z::s(ONE)), "no more is settled than both accounts' limits allow");
    } else {
        let full = pnl_a.min(-pnl_b);
        check(or(s.eq(full), Z::fx(tb.indexed_position).abs().le(tiny)), "as much is settled as profit, loss and the loser's tokens allow");
        if s.lt(full) { reach("limited"); }
    }
    reach("settled");
}
#[no_mangle]
pub extern "C" fn h_pnl() { let mut w = world(); pnl(&mut w, None) }
#[no_mangle]
pub extern "C" fn h_limits_a() { let mut w = world(); pnl(&mut w, Some(0)) }
#[no_mangle]
pub extern "C" fn h_limits_b() { let mut w = world(); pnl(&mut w, Some(1)) }
#[no_mangle]
pub extern "C" fn h_pnl_auth() {
    let w = world();
    w.a.set_perp(0, 0, 0, I80F48::from_num(1000));
    w.b.set_perp(0, 0, 0, I80F48::from_num(-1000));
    w.a.set_token(0, 0, I80F48::from_num(5));
    w.b.set_token(0, 0, I80F48::from_num(5000));
    w.st.set_token(0, 0, I80F48::from_num(5));
    let mut x = accounts(&w);
    let g2 = key(K_OTHER, 9);
    match case("wrong", 14) {
        0 => { x[5] = x[4].clone(); }
        1 => x[2] = ai_plain(key(K_OWNER, 2)),
        2 => x[2] = signer(&ai_plain(key(K_OWNER, 1))),
        3 => w.a.fixed().group = g2,
        4 => w.b.fixed().group = g2,
        5 => w.st.fixed().group = g2,
        6 => w.a.fixed().frozen_until = NOW + 1,
        7 => w.b.fixed().frozen_until = NOW + 1,
        8 => w.pk.group = g2,
        9 => { let (b1, _) = bank(1); let (o1, _) = stub_oracle(1, I80F48::ONE); x[7] = b1; x[8] = o1; }
        10 => x[6] = stub_oracle(40, I80F48::from_num(100)).0,
        11 => x[8] = stub_oracle(41, I80F48::from_num(100)).0,
        12 => w.gr.ix_gate = 1 << (IxGate::PerpSettlePnl as u32),
        _ => { x.truncate(9); }
    }
    check(!settle(&x), "unrelated or unauthorized accounts cannot be settled");
    reach("refused");
}
#[no_mangle]
pub extern "C" fn h_fees() { fees(false) }
#[no_mangle]
pub extern "C" fn h_fees_limit() { fees(true) }
fn fees(limited: bool) {
    let w = world();
    let n = if case("base", 2) == 0 { 0 } else { -3 };
    let q = in_fx("quote", -(ONE << 40), ONE << 40);
    let p = w.a.set_perp(0, 0, n, q);
    w.pk.settle_pnl_limit_factor = if limited { 0.0 } else { -1.0 };
    let mut avail = zero();
    if limited {
        p.oneshot_settle_pnl_allowance = in_fx("oneshot", -(ONE << 40), ONE << 40);
        let used = in_i64("used", -(1 << 40), 1 << 40);
        p.settle_pnl_limit_settled_in_current_window_native = used;
        let stale = case("stale", 2);
        p.settle_pnl_limit_window = (NOW / 86400) as u32 - stale;
        avail = (ceil((-Z::fx(p.oneshot_settle_pnl_allowance)).max(zero())) + if stale == 1 { zero() } else { zl(used) }).max(zero()) * Z::s(ONE);
    }
    let f0 = in_fx("fees", -(ONE << 30), ONE << 40);
    let fs = in_fx("settled", 0, ONE << 40);
    w.pk.fees_accrued = f0;
    w.pk.fees_settled = fs;
    let max = in_u64("max", 0, 1 << 41);
    let t0 = if limited { I80F48::from_bits(ONE << 42) } else { in_fx("tokens", -(ONE << 41), ONE << 41) };
    let t = w.a.set_token(0, 0, t0);
    t.in_use_count = 1;
    let s0 = snap(w.bk);
    let x = vec![w.g.clone(), w.pm.clone(), w.a.a.clone(), w.po.clone(), w.bank.clone(), w.so.clone(), w.bank.clone(), w.so.clone(), w.pm.clone(), w.po.clone()];
    let done = ok(crate::__private::__global::perp_settle_fees(&crate::ID, &x, &args(crate::instruction::PerpSettleFees { max_settle_amount: max })));
    let s = Z::fx(p.quote_position_native) - Z::fx(q);
    let loss = -(Z::fx(q) + Z::s(n as i128 * 20 * ONE));
    let zf = Z::fx(f0);
    let mut want = loss.min(zf).min(Z::u(max as u128) * Z::s(ONE));
    if limited { want = want.min(avail); }
    want = want.max(zero());
    if done {
        check(max > 0, "the maximum is positive");
        check(s.eq(want), "fees settle against the loss, up to the fees accrued, the maximum and the limit");
        check((zf - Z::fx(w.pk.fees_accrued)).eq(s), "settled fees are no longer due");
        check((Z::fx(w.pk.fees_settled) - Z::fx(fs)).eq(s), "settled fees are counted");
        let dt = Z::fx(t.indexed_position) - Z::fx(t0);
        check(and((dt + s).le(zero()), (dt + s).ge(Z::s(-4))), "the account pays in tokens");
        check_totals(w.bk, &s0, dt);
        // tokens at weight 1 plus the remaining pnl (init health)
        check(implies(s.gt(zero()), (Z::fx(t.indexed_position) + Z::fx(p.quote_position_native) + Z::s(n as i128 * 20 * ONE)).ge(Z::s(-8))), "an unhealthy account's fees are not settled");
        if s.gt(zero()) { reach("settled"); } else { reach("nothing"); }
    } else {
        let h = Z::fx(t0) - loss;
        check(or(max == 0, h.lt(Z::s(8))), "fees of healthy accounts can be settled");
        reach("unhealthy");
    }
}
