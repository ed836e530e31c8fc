// H03: margin gates: health checks before and after an operation, being liquidated, health regions
//@mod spec
//@fn h_post reach=ok,refused : health after an operation against health before, both +-2^60 (fixed point)
//@fn h_pre reach=ok,refused,recovered : operations of accounts being liquidated: positions +-2^40, fixed weights, flag symbolic
//@fn h_liquidatable reach=became,not,started,continues : the liquidation state machine, same ranges
//@fn h_withdraw reach=ok,refused : token_withdraw of an account with two positions (+-2^40) in either token order, any u64 amount, being liquidated or not, all health accounts given
//@fn h_withdraw_partial reach=ok,refused : token_withdraw when the token's own bank is missing from the health accounts
//@fn h_check reach=ok,refused : the health_check instruction, all six kinds, minimum from {-1000, 0, 1, 50}
//@fn h_sequence reach=ok,refused : the sequence_check instruction, every number
//@fn h_region_begin reach=ok,refused : health_region_begin with one inner instruction of any 8-byte discriminator, program mango or other, end for this or another account, or none
//@fn h_region reach=ok,refused : begin, arbitrary change of the positions, end
//@fn h_region_state reach=refused : begin twice, end without begin, begin by CPI
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::accounts_ix::*;
use crate::health::*;
use crate::state::*;
use anchor_lang::prelude::*;
use anchor_lang::Discriminator;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn fx(b: i128) -> I80F48 { I80F48::from_bits(b) }
pub struct W { g: Ai, acc: Ma, b: [Ai; 2], bk: [&'static mut Bank; 2], o: [Ai; 2] }
fn world() -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, _) = group();
    let acc = mango_account(0, 3, 0, 0, 0, 0);
    let (b0, bk0) = bank(0);
    let (b1, bk1) = bank(1);
    let (o0, _) = stub_oracle(0, fx(ONE * 2));
    let (o1, _) = stub_oracle(1, fx(ONE));
    bk0.stable_price_model.stable_price = 2.0;
    for b in [&mut *bk0, &mut *bk1] {
        b.maint_asset_weight = fx(ONE / 10 * 9);
        b.init_asset_weight = fx(ONE / 10 * 8);
        b.maint_liab_weight = fx(ONE / 10 * 11);
        b.init_liab_weight = fx(ONE / 10 * 12);
    }
    W { g, acc, b: [b0, b1], bk: [bk0, bk1], o: [o0, o1] }
}
fn accs(w: &W) -> &'static Vec<Ai> { leak(vec![w.b[0].clone(), w.b[1].clone(), w.o[0].clone(), w.o[1].clone()]) }
fn cache(w: &W) -> HealthCache {
    let ais = accs(w);
    match with_acc(&w.acc, |a| { let r = match val(new_fixed_order_account_retriever(ais, a, (NOW, 1000))) { Some(r) => r, None => return None }; val(new_health_cache(a, &r, NOW)) }) {
        Some(c) => c,
        None => { check(false, "health can be computed"); stop(); unreachable!() }
    }
}
fn positions(w: &W) {
    w.acc.set_token(0, 0, in_fx("pos0", -(ONE << 40), ONE << 40));
    w.acc.set_token(1, 1, in_fx("pos1", -(ONE << 40), ONE << 40));
}
/// what the program must demand of the health after an operation
fn allowed(pre: I80F48, post: I80F48) -> bool {
    let ceil = |x: I80F48| -(-Z::fx(x)).div_floor(Z::s(ONE));
    or(post.to_bits() >= 0, or(and(post.to_bits() >= -1000 * ONE, post >= pre), and(post.to_bits() < -1000 * ONE, ceil(post).ge(ceil(pre)))))
}
#[no_mangle]
pub extern "C" fn h_post() {
    let w = world();
    let (pre, post) = (in_fx("pre", -(ONE << 60), ONE << 60), in_fx("post", -(ONE << 60), ONE << 60));
    let strict = case("strict", 2) == 1;
    let r = with_acc_mut(&w.acc, |a| ok(if strict { a.check_health_post_checks_strict(post) } else { a.check_health_post_checks(pre, post) }));
    if strict { check(r == (post.to_bits() >= 0), "the strict check demands nonnegative health"); }
    else { check(r == allowed(pre, post), "health is nonnegative or does not decrease"); }
    if r { reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_pre() {
    let w = world();
    positions(&w);
    let was = in_u8("being_liquidated", 0, 1);
    w.acc.fixed().set_being_liquidated(was == 1);
    let c = cache(&w);
    let h = c.health(HealthType::Init);
    let l = c.health(HealthType::LiquidationEnd);
    let r = with_acc_mut(&w.acc, |a| val(a.check_health_pre(&c)));
    let now = w.acc.fixed().being_liquidated() as u8;
    let recovered = l.to_bits() > -ONE;
    check(r.is_some() == or(was == 0, recovered), "an account being liquidated does nothing else before it recovers");
    check((now == 0) == or(was == 0, recovered), "recovery is recorded");
    if let Some(r) = r { check(r == h, "the initial health is reported"); if was == 0 { reach("ok"); } else { reach("recovered"); } } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_liquidatable() {
    let w = world();
    positions(&w);
    let was = in_u8("being_liquidated", 0, 1);
    w.acc.fixed().set_being_liquidated(was == 1);
    let c = cache(&w);
    let (m, l) = (c.health(HealthType::Maint), c.health(HealthType::LiquidationEnd));
    let r = match with_acc_mut(&w.acc, |a| val(a.check_liquidatable(&c))) { Some(r) => r, None => { check(false, "the check does not fail"); return; } };
    let now = w.acc.fixed().being_liquidated();
    let liq = or(and(was == 0, m.to_bits() < 0), and(was != 0, l.to_bits() <= -ONE));
    check((r == CheckLiquidatable::Liquidatable) == liq, "liquidation starts below zero maintenance health and goes on until liquidation end health recovers");
    check(now == liq, "the account is marked exactly while it is being liquidated");
    if was == 1 { if liq { reach("continues"); } else { check(r == CheckLiquidatable::BecameNotLiquidatable, "recovery is told"); reach("became"); } }
    else if liq { reach("started"); } else { reach("not"); }
}
fn withdraw(partial: bool) {
    let w = world();
    let order = case("order", 2);
    // the withdrawn token is token 0
    let p = in_fx("pos0", if partial { 0 } else { -(ONE << 40) }, ONE << 40);
    let q = in_fx("pos1", -(ONE << 40), ONE << 40);
    let (i, j) = if order == 0 { (0, 1) } else { (1, 0) };
    w.acc.set_token(i, 0, p).in_use_count = 1;
    w.acc.set_token(j, 1, q).in_use_count = 1;
    let was = in_u8("being_liquidated", 0, 1);
    w.acc.fixed().set_being_liquidated(was == 1);
    let amount = in_u64("amount", 1, 1 << 42);
    let ta = token_account(key(K_TOKACC, 0), key(K_MINT, 0), key(K_OTHER, 0), 0);
    let v = vault(0, 1 << 50);
    let (b0, b1, o0, o1) = (w.b[0].clone(), w.b[1].clone(), w.o[0].clone(), w.o[1].clone());
    let mut a = vec![w.g.clone(), w.acc.a.clone(), signer(&ai_plain(key(K_OWNER, 0))), b0.clone(), v, o0.clone(), ta, token_program()];
    if partial { a.extend([b1, o1]); } else if order == 0 { a.extend([b0, b1, o0, o1]); } else { a.extend([b1, b0, o1, o0]); }
    w.bk[0].indexed_deposits = fx(ONE << 46);
    // health by definition: token price 2 and 1
    let value = |x: Z, aw: i128, lw: i128| x * Z::ite(x.lt(zero()), Z::s(lw), Z::s(aw));
    let health = |x: I80F48, y: I80F48| value(Z::fx(x) * Z::s(2), ONE / 10 * 8, ONE / 10 * 12) + value(Z::fx(y), ONE / 10 * 8, ONE / 10 * 12);
    let (pre, end) = (health(p, q), health(p, q));
    let other = value(Z::fx(q), ONE / 10 * 8, ONE / 10 * 12);
    let r = ok(crate::__private::__global::token_withdraw(&crate::ID, &a, &args(crate::instruction::TokenWithdraw { amount, allow_borrow: true })));
    if !r { reach("refused"); return; }
    let post = health(w.acc.token(i).indexed_position, q);
    let tol = Z::pow2(94);
    let slack = Z::s(ONE) * Z::s(ONE); // one native
    check(implies(!partial, or(post.ge(-tol), post.ge(pre - tol))), "a withdraw leaves nonnegative initial health");
    check(implies(partial, and(other.ge(-tol), post.ge(-tol))), "without the token's own bank the rest must be healthy");
    check(implies(was == 1, or(end.ge(-slack - tol), and(partial, other.ge(-slack - tol)))), "an account being liquidated cannot withdraw");
    check(implies(was == 1, !w.acc.fixed().being_liquidated()), "the withdraw of a recovered account ends its liquidation");
    reach("ok");
}
#[no_mangle] pub extern "C" fn h_withdraw() { withdraw(false) }
#[no_mangle] pub extern "C" fn h_withdraw_partial() { withdraw(true) }
#[no_mangle]
pub extern "C" fn h_check() {
    let w = world();
    positions(&w);
    let k = case("kind", 6);
    let kind = match k { 0 => HealthCheckKind::Maint, 1 => HealthCheckKind::Init, 2 => HealthCheckKind::LiquidationEnd, 3 => HealthCheckKind::MaintRatio, 4 => HealthCheckKind::InitRatio, _ => HealthCheckKind::LiquidationEndRatio };
    let (mf, mi) = match case("minimum", 4) { 0 => (-1000.0, -1000), 1 => (0.0, 0), 2 => (1.0, 1), _ => (50.0, 50) };
    let c = cache(&w);
    let t = match k { 0 | 3 => HealthType::Maint, 1 | 4 => HealthType::Init, _ => HealthType::LiquidationEnd };
    let h = c.health(t);
    let (a, l) = c.health_assets_and_liabs_stable_liabs(t);
    let mut x = vec![w.g.clone(), w.acc.a.clone()];
    x.extend(accs(&w).iter().cloned());
    let r = ok(crate::__private::__global::health_check(&crate::ID, &x, &args(crate::instruction::HealthCheck { min_health_value: mf, check_kind: kind })));
    if k < 3 { check(r == (h.to_bits() >= mi * ONE), "health_check compares the health asked for"); }
    else {
        // 100 * (assets - liabs) / liabs >= min
        let d = Z::s(100) * (Z::fx(a) - Z::fx(l)) - Z::s(mi) * Z::fx(l);
        let tol = Z::fx(l) + Z::s(200);
        let none = l.to_bits() <= 0;
        check(implies(none, r), "without liabilities the ratio is unbounded");
        check(implies(and(!none, r), (d * Z::s(ONE)).ge(-tol)), "health_check accepts only a sufficient ratio");
        check(implies(and(!none, !r), (d * Z::s(ONE)).le(tol)), "health_check accepts every sufficient ratio");
    }
    if r { reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_sequence() {
    let w = world();
    let (s, e) = (in_u8("sequence", 0, 255), in_u8("expected", 0, 255));
    w.acc.fixed().sequence_number = s;
    let who = case("who", 2) as u8;
    let x = vec![w.g.clone(), w.acc.a.clone(), signer(&ai_plain(key(K_OWNER, who)))];
    let r = ok(crate::__private::__global::sequence_check(&crate::ID, &x, &args(crate::instruction::SequenceCheck { expected_sequence_number: e })));
    check(r == and(who == 0, s == e), "the sequence check passes for the expected number only");
    check(w.acc.fixed().sequence_number == if r { s.wrapping_add(1) } else { s }, "each number is used once");
    if r { reach("ok"); } else { reach("refused"); }
}
fn begin_ix(w: &W, sv: Ai) -> bool {
    let mut x = vec![sv, w.g.clone(), w.acc.a.clone()];
    x.extend(accs(w).iter().cloned());
    ok(crate::__private::__global::health_region_begin(&crate::ID, &x, &args(crate::instruction::HealthRegionBegin {})))
}
fn end_ix(w: &W) -> bool {
    let mut x = vec![w.acc.a.clone()];
    x.extend(accs(w).iter().cloned());
    ok(crate::__private::__global::health_region_end(&crate::ID, &x, &args(crate::instruction::HealthRegionEnd {})))
}
fn ix(d: [u8; 8]) -> Vec<u8> { d.to_vec() }
const BEGIN: [u8; 8] = crate::instruction::HealthRegionBegin::DISCRIMINATOR;
const END: [u8; 8] = crate::instruction::HealthRegionEnd::DISCRIMINATOR;
#[no_mangle]
pub extern "C" fn h_region_begin() {
    let w = world();
    w.acc.set_token(0, 0, fx(ONE * 5));
    w.acc.set_token(1, 1, fx(ONE * 5));
    let me = key(K_ACCOUNT, 0);
    let d = sym_u64("inner").to_le_bytes();
    let shape = case("shape", 6);
    let b = (crate::ID, vec![key(K_OTHER, 1), me], ix(BEGIN));
    let inner = |p: Pubkey| (p, vec![me], ix(d));
    let end = |a: Pubkey| (crate::ID, vec![a], ix(END));
    let other = key(K_ACCOUNT, 1);
    let ixs = match shape {
        0 => vec![b, inner(crate::ID), end(me)],
        1 => vec![b, inner(key(K_OTHER, 9)), end(me)],
        2 => vec![b, inner(crate::ID), end(other)],
        3 => vec![b, inner(crate::ID)],
        4 => vec![b, end(other), end(me)],
        _ => vec![b, inner(crate::ID), inner(crate::ID), end(me), inner(key(K_OTHER, 9))],
    };
    let r = begin_ix(&w, ix_sysvar(&ixs, 0));
    let allowed = [
        crate::instruction::PerpCancelAllOrders::DISCRIMINATOR, crate::instruction::PerpCancelAllOrdersBySide::DISCRIMINATOR, crate::instruction::PerpCancelOrder::DISCRIMINATOR,
        crate::instruction::PerpCancelOrderByClientOrderId::DISCRIMINATOR, crate::instruction::PerpPlaceOrder::DISCRIMINATOR, crate::instruction::PerpPlaceOrderV2::DISCRIMINATOR,
        crate::instruction::PerpPlaceOrderPegged::DISCRIMINATOR, crate::instruction::PerpPlaceOrderPeggedV2::DISCRIMINATOR, crate::instruction::Serum3CancelAllOrders::DISCRIMINATOR,
        crate::instruction::Serum3CancelOrder::DISCRIMINATOR, crate::instruction::Serum3PlaceOrder::DISCRIMINATOR, crate::instruction::Serum3PlaceOrderV2::DISCRIMINATOR,
        crate::instruction::Serum3SettleFunds::DISCRIMINATOR, crate::instruction::Serum3SettleFundsV2::DISCRIMINATOR,
    ];
    let mut safe = false;
    let di = u64::from_le_bytes(d);
    for a in allowed { safe = or(safe, di == u64::from_le_bytes(a)); }
    // an end for the account in place of the inner instruction closes the region as well
    let closes = di == u64::from_le_bytes(END);
    let well = match shape { 0 | 5 => or(safe, closes), 2 | 3 => closes, _ => false };
    check(implies(r, well), "a health region holds trading instructions only and is closed in the same transaction");
    check(implies(and(safe, shape == 0), r), "trading instructions can be wrapped");
    if r { check(w.acc.fixed().is_in_health_region(), "the region is recorded"); reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_region() {
    let w = world();
    positions(&w);
    let me = key(K_ACCOUNT, 0);
    let sv = ix_sysvar(&[(crate::ID, vec![key(K_OTHER, 1), me], ix(BEGIN)), (crate::ID, vec![me], ix(END))], 0);
    let pre = cache(&w).health(HealthType::Init);
    if !begin_ix(&w, sv) { return; }
    w.acc.token(0).indexed_position = in_fx("new0", -(ONE << 40), ONE << 40);
    w.acc.token(1).indexed_position = in_fx("new1", -(ONE << 40), ONE << 40);
    let post = cache(&w).health(HealthType::Init);
    let r = end_ix(&w);
    let rounded = fx(0) + I80F48::from_bits(-((-pre.to_bits()) >> 48) << 48);
    check(implies(r, allowed(rounded, post)), "a region ends with nonnegative or undiminished health");
    check(implies(and(!r, post.to_bits() >= 0), false), "a region with good health can be ended");
    if r { check(and(!w.acc.fixed().is_in_health_region(), w.acc.fixed().health_region_begin_init_health == 0), "the region is over"); reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_region_state() {
    let w = world();
    w.acc.set_token(0, 0, fx(ONE * 5));
    w.acc.set_token(1, 1, fx(ONE * 5));
    let me = key(K_ACCOUNT, 0);
    let mk = |p: Pubkey| ix_sysvar(&[(p, vec![key(K_OTHER, 1), me], ix(BEGIN)), (crate::ID, vec![me], ix(END))], 0);
    let r = match case("case", 5) {
        0 => { w.acc.fixed().set_in_health_region(true); begin_ix(&w, mk(crate::ID)) }
        1 => end_ix(&w),
        2 => begin_ix(&w, mk(key(K_OTHER, 9))),
        3 => { w.acc.fixed().group = key(K_GROUP, 1); begin_ix(&w, mk(crate::ID)) }
        _ => { w.acc.fixed().frozen_until = NOW + 1; begin_ix(&w, mk(crate::ID)) }
    };
    check(!r, "regions do not nest, are begun before they end and not from other programs");
    reach("refused");
}
