// T02: withdraws
//@mod spec
//@fn h_withdraw reach=ok,closed,kept : withdraw from a deposit (no borrow): all u64 amounts, vault and position values (position up to 2^44 indexed native); indexes 1..2^16; in-use 0/1; borrows allowed or not; price 2^-20..2^14
//@fn h_withdraw_all reach=ok,nothing : the special amount u64::MAX without borrowing
//@fn h_borrow_more reach=ok : withdraw on top of a borrow, otherwise as h_borrow
//@fn h_borrow reach=ok : withdraw of more than the deposit (zero included), backed by another token; price 3; fee rates up to 1/8; reduce-only flags; all limits off
//@fn h_limits reach=ok : borrow with net-borrow limit, minimum vault ratio and stale/unconfident oracle settings symbolic
//@fn h_delegate reach=ok : signed by the delegate instead of the owner; destination right or wrong
//@fn h_auth reach=refused : signed by a stranger, or the account frozen, or another group's account
//@assume SPL token transfer follows its documented behaviour; derived addresses are an injective function of their seeds
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use fixed::types::I80F48;

struct W { g: Ai, b: Ai, bk: &'static mut Bank, o: Ai, so: &'static mut StubOracle, v: Ai, acc: Ma, ta: Ai, b1: Ai, bk1: &'static mut Bank, o1: Ai, gr: &'static mut Group }
const NOW: u64 = 1_700_000_000;
fn world(price: I80F48) -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, gr) = group();
    let (b, bk) = bank(0);
    sym_bank(bk);
    let (o, so) = stub_oracle(0, price);
    let v = vault(0, sym_u64("vault"));
    let acc = mango_account(0, 2, 0, 0, 0, 0);
    acc.fixed().owner = key(K_OWNER, 0);
    let (b1, bk1) = bank(1);
    let (o1, _) = stub_oracle(1, I80F48::ONE);
    let ta = token_account(key(K_TOKACC, 0), key(K_MINT, 0), key(K_OTHER, 0), sym_u64("balance"));
    W { g, b, bk, o, so, v, acc, ta, b1, bk1, o1, gr }
}
fn call(w: &W, owner: Ai, amount: u64, allow_borrow: bool) -> bool {
    let accs = vec![w.g.clone(), w.acc.a.clone(), owner, w.b.clone(), w.v.clone(), w.o.clone(), w.ta.clone(), token_program(), w.b.clone(), w.b1.clone(), w.o.clone(), w.o1.clone()];
    ok(crate::__private::__global::token_withdraw(&crate::ID, &accs, &args(crate::instruction::TokenWithdraw { amount, allow_borrow })))
}
/// (tokens moved, indexed change, exact value before, after)
struct Out { moved: u64, p0: I80F48, p1: I80F48, e0: Z, e1: Z }
fn outcome(w: &W, v0: u64, t0: u64, p0: I80F48, e0: Z) -> Out {
    let t = w.acc.token(0);
    let moved = v0.wrapping_sub(token_amount(&w.v));
    check(token_amount(&w.v) <= v0, "a withdraw never adds tokens to the vault");
    check(token_amount(&w.ta).wrapping_sub(t0) == moved, "what leaves the vault arrives at the destination");
    Out { moved, p0, p1: t.indexed_position, e0, e1: exact(t.indexed_position, w.bk) }
}
fn simple(all: bool) {
    let w = world(in_fx("price", ONE >> 20, ONE << 14));
    let t = w.acc.set_token(0, 0, in_fx("pos", 0, ONE << 44));
    let in_use = in_u16("in_use", 0, 1);
    t.in_use_count = in_use;
    t.previous_index = I80F48::ONE;
    let other = w.acc.set_token(1, 1, I80F48::from_bits(12345 << 40));
    let amount = if all { u64::MAX } else { sym_u64("amount") };
    let allow = if all { false } else { sym_bool("allow_borrow") };
    w.bk.loan_origination_fee_rate = I80F48::from_bits(ONE / 100);
    let (v0, t0, nd0, s, p0) = (token_amount(&w.v), token_amount(&w.ta), w.acc.fixed().net_deposits, snap(w.bk), t.indexed_position);
    let e0 = exact(p0, w.bk);
    let native = (Z::fx(p0) * Z::fx(w.bk.deposit_index)).div_floor(Z::pow2(48));
    if !all { assume(amount < u64::MAX); assume((Z::u(amount as u128) * Z::s(ONE)).le(native)); }
    if !call(&w, signer(&ai_plain(key(K_OWNER, 0))), amount, allow) { return; }
    let r = outcome(&w, v0, t0, p0, e0);
    if all { check(Z::u(r.moved as u128).eq(native.div_floor(Z::s(ONE))), "everything withdrawable is withdrawn"); }
    else { check(r.moved == amount, "the requested amount is withdrawn"); check(amount > 0, "empty withdraws are refused"); }
    check(r.p1.to_bits() >= 0, "a withdraw within the deposit creates no borrow");
    check_totals(w.bk, &s, Z::fx(r.p1) - Z::fx(r.p0));
    let active = t.token_index == 0;
    let gap = r.e0 - nat96(r.moved) - r.e1 + fx96(s.dust) - fx96(w.bk.dust);
    check(and(gap.ge(-Z::s(2) * Z::fx(s.di)), gap.le(Z::pow2(48))), "position and dust together lose exactly the withdrawn amount");
    check(implies(active, and((r.e0 - nat96(r.moved) - r.e1).le(Z::s(2) * Z::fx(s.di)), w.bk.dust == s.dust)), "only a closed position gives up dust");
    check(implies(!active, and(and(r.p1.to_bits() == 0, in_use == 0), (r.e0 - nat96(r.moved)).lt(one96() + Z::pow2(48)))), "only an empty, unused position is closed and the dust is below one native token");
    check(and(w.bk.collected_fees_native == s.fees, and(w.bk.collected_liquidation_fees == s.liqfees, w.bk.collected_collateral_fees == s.colfees)), "a withdraw of deposits pays no fee");
    check(and(other.token_index == 1, other.indexed_position.to_bits() == 12345 << 40), "other positions are untouched");
    check(w.bk.net_borrows_in_window == 0, "a withdraw of deposits is no net borrow");
    let dn = Z::s(w.acc.fixed().net_deposits as i128) - Z::s(nd0 as i128);
    check(dn.eq(-(Z::u(r.moved as u128) * Z::fx(w.so.price)).div_floor(Z::pow2(48))), "net deposits fall by the value withdrawn");
    reach("ok");
    if !all { if active { reach("kept"); } else { reach("closed"); } }
    if r.moved == 0 { reach("nothing"); }
}
#[no_mangle]
pub extern "C" fn h_withdraw() { simple(false) }
#[no_mangle]
pub extern "C" fn h_withdraw_all() { simple(true) }

fn borrow(limits: bool, more: bool) {
    let w = world(I80F48::from_bits(ONE * 3));
    let t = w.acc.set_token(0, 0, in_fx("pos", if more { -(ONE << 40) } else { 0 }, if more { -1 } else { ONE << 40 }));
    t.previous_index = I80F48::ONE;
    w.acc.set_token(1, 1, I80F48::from_bits(ONE << 60));
    let amount = in_u64("amount", 0, u64::MAX - 1);
    let allow = sym_bool("allow_borrow");
    w.bk.loan_origination_fee_rate = in_fx("fee_rate", 0, ONE / 8);
    if limits {
        w.bk.deposit_index = I80F48::ONE;
        w.bk.borrow_index = I80F48::ONE;
        w.bk.net_borrow_limit_per_window_quote = in_i64("net_borrow_limit", -1, 1 << 40);
        w.bk.net_borrows_in_window = in_i64("net_borrows", -(1 << 40), 1 << 40);
        w.bk.last_net_borrows_window_start_ts = in_u64("window_start", NOW - 200_000, NOW);
        w.bk.min_vault_to_deposits_ratio = 0.25;
        w.bk.stable_price_model.stable_price = 2.5;
        w.bk.oracle_config.max_staleness_slots = in_i64("max_staleness", -1, 1000);
        w.so.last_update_slot = in_u64("oracle_slot", 1, 1000);
        w.so.deviation = in_fx("deviation", 0, ONE * 4);
        w.bk.oracle_config.conf_filter = I80F48::from_bits(ONE / 10);
    } else { w.bk.reduce_only = in_u8("reduce_only", 0, 2); }
    let (v0, t0, s, p0) = (token_amount(&w.v), token_amount(&w.ta), snap(w.bk), t.indexed_position);
    let (nb0, ws0) = (w.bk.net_borrows_in_window, w.bk.last_net_borrows_window_start_ts);
    let e0 = exact(p0, w.bk);
    let neg = p0.is_negative();
    // the position as the program sees it: rounded down
    let native = e0.div_floor(Z::pow2(48));
    assume(native.lt(Z::u(amount as u128) * Z::s(ONE)));
    if !call(&w, signer(&ai_plain(key(K_OWNER, 0))), amount, allow) { return; }
    let r = outcome(&w, v0, t0, p0, e0);
    check(allow, "borrowing needs the request's consent");
    check(w.bk.reduce_only == 0, "reduce-only tokens are not borrowed");
    check(r.moved == amount, "the requested amount is withdrawn");
    check_totals(w.bk, &s, Z::fx(r.p1) - Z::fx(r.p0));
    // only the part that is not covered by deposits is a loan
    let loan = Z::ite(neg, Z::u(amount as u128) * Z::s(ONE), Z::u(amount as u128) * Z::s(ONE) - native);
    let fee = (loan * Z::fx(w.bk.loan_origination_fee_rate)).div_floor(Z::pow2(48));
    check((Z::fx(w.bk.collected_fees_native) - Z::fx(s.fees)).eq(fee), "the loan origination fee is the rate times the newly borrowed part");
    let gap = r.e0 - nat96(r.moved) - fee * Z::pow2(48) - r.e1;
    check(and(gap.ge(-Z::s(2) * Z::fx(s.bi) - Z::pow2(49)), gap.le(Z::fx(s.di) + Z::pow2(49))), "the position loses the amount and the fee");
    check(w.bk.dust == s.dust, "a borrow leaves no dust");
    check(and(r.p1.to_bits() <= 0, t.token_index == 0), "the borrow is on the account");
    if limits {
        let dep = Z::fx(w.bk.indexed_deposits);
        let bor = Z::fx(w.bk.indexed_borrows);
        check((bor * Z::s(4)).le(dep * Z::s(3)), "the minimum vault to deposits ratio is kept");
        let limit = Z::s(w.bk.net_borrow_limit_per_window_quote as i128);
        let total = loan + fee;
        let ceil = -((-total).div_floor(Z::s(ONE)));
        let in_new = NOW >= ws0 + 86400;
        let nb = Z::ite(in_new, ceil, Z::s(nb0 as i128) + ceil);
        check(Z::s(w.bk.net_borrows_in_window as i128).eq(nb), "net borrows of the window include the loan");
        check(w.bk.last_net_borrows_window_start_ts == if in_new { NOW / 86400 * 86400 } else { ws0 }, "the window advances");
        check(or(limit.lt(Z::s(0)), or(nb.lt(Z::s(0)), (nb * Z::s(3)).le(limit))), "the net borrow limit holds at the larger of oracle and stable price");
        check(or(w.bk.oracle_config.max_staleness_slots < 0, w.so.last_update_slot as i128 + w.bk.oracle_config.max_staleness_slots as i128 >= 1000), "no borrow against a stale oracle");
        check((Z::fx(w.so.deviation) * Z::s(ONE)).le(Z::s(ONE / 10) * Z::fx(w.so.price) ), "no borrow against an unconfident oracle");
    }
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_borrow() { borrow(false, false) }
#[no_mangle]
pub extern "C" fn h_borrow_more() { borrow(false, true) }
#[no_mangle]
pub extern "C" fn h_limits() { borrow(true, false) }

#[no_mangle]
pub extern "C" fn h_delegate() {
    let mut w = world(I80F48::ONE);
    let t = w.acc.set_token(0, 0, in_fx("pos", 0, ONE << 44));
    w.acc.set_token(1, 1, I80F48::from_bits(ONE << 50));
    w.acc.fixed().delegate = key(K_OTHER, 4);
    let right = sym_bool("to_owner_ata");
    let mint = key(K_MINT, 0);
    let ata = anchor_spl::associated_token::get_associated_token_address(&key(K_OWNER, 0), &mint);
    let right_owner = sym_bool("owned_by_owner");
    w.ta = token_account(if right { ata } else { key(K_TOKACC, 0) }, mint, if right_owner { key(K_OWNER, 0) } else { key(K_OTHER, 4) }, sym_u64("dest"));
    let v0 = token_amount(&w.v);
    let allow = sym_bool("allow_borrow");
    if !call(&w, signer(&ai_plain(key(K_OTHER, 4))), sym_u64("amount"), allow) { return; }
    let moved = v0 != token_amount(&w.v);
    check(implies(moved, and(right, right_owner)), "a delegate withdraws only to the owner's associated token account");
    check(implies(moved, t.token_index != 0), "a delegate's withdraw must close the position");
    if moved { reach("ok"); }
}
#[no_mangle]
pub extern "C" fn h_auth() {
    let mut w = world(I80F48::ONE);
    w.acc.set_token(0, 0, in_fx("pos", 0, ONE << 44));
    w.acc.set_token(1, 1, I80F48::from_bits(ONE << 50));
    let v0 = token_amount(&w.v);
    let how = in_u8("how", 0, 6);
    let mut who = signer(&ai_plain(key(K_OWNER, 0)));
    if how == 0 { who = signer(&ai_plain(key(K_OWNER, 1))); }
    if how == 1 { who = ai_plain(key(K_OWNER, 0)); }
    if how == 2 { w.acc.fixed().frozen_until = in_u64("frozen_until", NOW + 1, u64::MAX); }
    if how == 3 { w.acc.fixed().group = key(K_GROUP, 1); }
    if how == 4 { w.bk.group = key(K_GROUP, 1); }
    if how == 5 { w.v = token_account(key(K_VAULT, 3), key(K_MINT, 0), key(K_GROUP, 0), sym_u64("othervault")); }
    if how == 6 { w.gr.ix_gate = 1 << (IxGate::TokenWithdraw as u32); }
    let v1 = token_amount(&w.v);
    let r = call(&w, who, sym_u64("amount"), sym_bool("allow_borrow"));
    check(!r, "unauthorized withdraws are refused");
    check(or(v0 == token_amount(&w.v), v1 == token_amount(&w.v)), "a refused withdraw moves nothing");
    reach("refused");
}
