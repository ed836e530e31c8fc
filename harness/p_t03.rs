// T03: position primitives of the bank
//@mod spec
//@fn h_deposit reach=repaid,crossed,dusted,added : Bank::deposit of any fractional amount 0..2^44 into a position -2^44..2^44 (indexed native), indexes 1..2^16, in-use or not
//@fn h_deposit_dusting reach=dusted,added : deposit_with_dusting, same ranges
//@fn h_withdraw reach=kept,dusted,crossed,more : Bank::withdraw_without_fee / withdraw_without_fee_with_dusting, same ranges
//@fn h_withdraw_fee reach=nofee,fee : Bank::withdraw_with_fee, fee rates 0..1/8
//@fn h_fee_later reach=ok : withdraw_loan_origination_fee for any earlier loan up to 2^40
//@fn h_roundtrip reach=ok : deposit of any amount followed by a withdraw of the same amount
//@fn h_transfer reach=ok,reduce : checked_transfer_with_fee between two positions of any sign with differing amounts, reduce-only flags, limits off, indexes 1.5 and 3
//@fn h_transfer_indexes reach=ok,reduce tier=thorough : the same with any indexes
//@fn h_limits reach=ok,depfull,borfull : checked_transfer_with_fee under a net borrow limit and a deposit limit, index 1
//@fn h_negative reach=refused : negative amounts
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn mk() -> &'static mut Bank { begin(); set_clock(NOW, 1000); let (_, b) = bank(0); sym_bank(b); b }
fn pos(name: &'static str, lo: i128, hi: i128) -> TokenPosition {
    let mut t = TokenPosition::default();
    t.token_index = 0;
    t.indexed_position = in_fx(name, lo, hi);
    t.previous_index = I80F48::ONE;
    t
}
fn val(r: Result<bool>) -> Option<bool> { match r { Ok(v) => Some(v), Err(e) => { std::mem::forget(e); None } } }
/// tolerance of one rounding at the given index, plus the rounding of the value itself
fn tol(i: I80F48) -> Z { Z::s(2) * Z::fx(i) + Z::pow2(49) }

fn deposit(dusting: bool) {
    let b = mk();
    let mut t = pos("pos", -(ONE << 44), ONE << 44);
    t.in_use_count = in_u16("in_use", 0, 1);
    let amount = in_fx("amount", 0, ONE << 44);
    let s = snap(b);
    let (p0, iu) = (t.indexed_position, t.in_use_count);
    let e0 = exact(p0, b);
    let r = val(if dusting { b.deposit_with_dusting(&mut t, amount, NOW) } else { b.deposit(&mut t, amount, NOW) });
    let active = match r { Some(v) => v, None => { check(false, "a deposit does not fail"); return; } };
    let p1 = t.indexed_position;
    let dust = fx96(b.dust) - fx96(s.dust);
    check_totals(b, &s, Z::fx(p1) - Z::fx(p0));
    let gap = exact(p1, b) + dust - e0 - fx96(amount);
    check(gap.ge(-Z::pow2(48) - Z::pow2(49)), "the depositor gets at least what was deposited");
    check(gap.le(tol(s.di) + tol(s.bi)), "no value appears");
    check(and(dust.ge(-tol(s.bi)), dust.lt(one96())), "dust is less than one native token");
    check(implies(!active, and(p1.to_bits() == 0, iu == 0)), "a closed position is empty and unused");
    check(implies(!(b.dust == s.dust), p1.to_bits() == 0), "dust leaves an empty position");
    check(b.collected_fees_native == s.fees, "deposits take no fee");
    check(t.in_use_count == iu, "the in-use count is kept");
    check(p1.to_bits() >= p0.to_bits() || b.dust != s.dust, "a deposit does not lower the position");
    if p0.to_bits() < 0 {
        if b.dust != s.dust { reach("dusted"); } else if p1.to_bits() < 0 { reach("repaid"); } else { reach("crossed"); }
    } else { reach("added"); }
}
#[no_mangle] pub extern "C" fn h_deposit() { deposit(false) }
#[no_mangle] pub extern "C" fn h_deposit_dusting() { deposit(true) }

#[no_mangle]
pub extern "C" fn h_withdraw() {
    let b = mk();
    let mut t = pos("pos", -(ONE << 44), ONE << 44);
    t.in_use_count = in_u16("in_use", 0, 1);
    let amount = in_fx("amount", 0, ONE << 44);
    let dusting = sym_bool("dusting");
    let s = snap(b);
    let (p0, iu) = (t.indexed_position, t.in_use_count);
    let e0 = exact(p0, b);
    let r = val(if dusting { b.withdraw_without_fee_with_dusting(&mut t, amount, NOW) } else { b.withdraw_without_fee(&mut t, amount, NOW) });
    let active = match r { Some(v) => v, None => { check(false, "a withdraw does not fail"); return; } };
    let p1 = t.indexed_position;
    let dust = fx96(b.dust) - fx96(s.dust);
    check_totals(b, &s, Z::fx(p1) - Z::fx(p0));
    let gap = e0 - fx96(amount) - exact(p1, b) - dust;
    check(and(gap.ge(-tol(s.di) - tol(s.bi)), gap.le(tol(s.di))), "position and dust together lose what was withdrawn");
    check(and(dust.ge(zero()), dust.lt(one96())), "dust is less than one native token");
    check(implies(!active, and(p1.to_bits() == 0, iu == 0)), "a closed position is empty and unused");
    check(implies(!(b.dust == s.dust), p1.to_bits() == 0), "dust leaves an empty position");
    check(implies(and(iu == 1, !dusting), b.dust == s.dust), "an in-use position is not dusted unasked");
    check(b.collected_fees_native == s.fees, "withdraws without fee take none");
    check(p1.to_bits() <= p0.to_bits(), "a withdraw does not raise the position");
    if p0.to_bits() < 0 { reach("more"); } else if p1.to_bits() < 0 { reach("crossed"); } else if b.dust != s.dust { reach("dusted"); } else { reach("kept"); }
}
#[no_mangle]
pub extern "C" fn h_withdraw_fee() {
    let b = mk();
    let mut t = pos("pos", -(ONE << 44), ONE << 44);
    let amount = in_fx("amount", 0, ONE << 44);
    b.loan_origination_fee_rate = in_fx("rate", 0, ONE / 8);
    let s = snap(b);
    let p0 = t.indexed_position;
    let e0 = exact(p0, b);
    let native = e0.div_floor(Z::pow2(48));
    let r = match b.withdraw_with_fee(&mut t, amount, NOW) { Ok(r) => r, Err(e) => { std::mem::forget(e); check(false, "a withdraw does not fail"); return; } };
    let loan = Z::ite(native.lt(zero()), Z::fx(amount), Z::ite(native.lt(Z::fx(amount)), Z::fx(amount) - native, zero()));
    let fee = (loan * Z::fx(b.loan_origination_fee_rate)).div_floor(Z::pow2(48));
    check(Z::fx(r.loan_origination_fee).eq(fee), "the origination fee is charged on the new loan only");
    check((Z::fx(b.collected_fees_native) - Z::fx(s.fees)).eq(fee), "the fee goes to the collected fees");
    check(Z::fx(r.loan_amount).eq(Z::ite(loan.gt(zero()), loan + fee, zero())), "the reported loan includes the fee");
    check_totals(b, &s, Z::fx(t.indexed_position) - Z::fx(p0));
    let gap = e0 - fx96(amount) - fee * Z::pow2(48) - exact(t.indexed_position, b) - (fx96(b.dust) - fx96(s.dust));
    check(and(gap.ge(-tol(s.di) - tol(s.bi)), gap.le(tol(s.di))), "the position pays the amount and the fee");
    // borrows are counted against the window, rounded up
    let ceil = -((-(loan + fee)).div_floor(Z::s(ONE)));
    check(Z::s(b.net_borrows_in_window as i128).eq(Z::ite(loan.gt(zero()), ceil, zero())), "the loan counts as net borrow");
    if r.loan_origination_fee.to_bits() > 0 { reach("fee"); } else { reach("nofee"); }
}
#[no_mangle]
pub extern "C" fn h_fee_later() {
    let b = mk();
    let mut t = pos("pos", -(ONE << 44), ONE << 44);
    t.in_use_count = 1;
    let loan = in_fx("loan", 0, ONE << 40);
    b.loan_origination_fee_rate = in_fx("rate", 0, ONE / 8);
    let s = snap(b);
    let p0 = t.indexed_position;
    let e0 = exact(p0, b);
    let r = match b.withdraw_loan_origination_fee(&mut t, loan, NOW) { Ok(r) => r, Err(e) => { std::mem::forget(e); check(false, "the fee withdraw does not fail"); return; } };
    let fee = mulfx(loan, b.loan_origination_fee_rate);
    check(and(Z::fx(r.loan_origination_fee).eq(fee), (Z::fx(b.collected_fees_native) - Z::fx(s.fees)).eq(fee)), "the later fee is the rate times the loan, once");
    check_totals(b, &s, Z::fx(t.indexed_position) - Z::fx(p0));
    let gap = e0 - fee * Z::pow2(48) - exact(t.indexed_position, b);
    check(and(gap.ge(-tol(s.di) - tol(s.bi)), gap.le(tol(s.di))), "the position pays the fee");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_roundtrip() {
    let b = mk();
    let mut t = pos("pos", 0, ONE << 40);
    t.in_use_count = 1;
    let amount = Z::u(in_u64("amount", 0, 1 << 40) as u128);
    let a = I80F48::from_bits(in_u64("amount2", 0, 1 << 40) as i128 * ONE);
    assume(Z::fx(a).eq(amount * Z::s(ONE)));
    let p0 = t.indexed_position;
    if val(b.deposit(&mut t, a, NOW)).is_none() { return; }
    check(fx96(a).le(exact(t.indexed_position, b) - exact(p0, b) + Z::pow2(48)), "the deposited amount is withdrawable again");
    if val(b.withdraw_without_fee(&mut t, a, NOW)).is_none() { return; }
    check(t.indexed_position.to_bits() >= p0.to_bits() - 1, "nothing is lost by a deposit and withdraw");
    check((exact(t.indexed_position, b) - exact(p0, b)).le(tol(b.deposit_index)), "nothing is won by a deposit and withdraw");
    reach("ok");
}
fn transfer(limits: bool, any_index: bool) {
    let b = mk();
    if !any_index { b.deposit_index = I80F48::from_bits(ONE / 2 * 3); b.borrow_index = I80F48::from_bits(ONE * 3); }
    if limits { b.deposit_index = I80F48::ONE; b.borrow_index = I80F48::ONE; }
    let (lo, hi) = (-(ONE << 40), ONE << 40);
    let mut src = pos("src", lo, hi);
    let mut dst = pos("dst", lo, hi);
    src.in_use_count = 1;
    dst.in_use_count = 1;
    let (sa, ta) = (in_fx("src_amount", 0, ONE << 40), in_fx("dst_amount", 0, ONE << 40));
    b.loan_origination_fee_rate = I80F48::from_bits(ONE / 100);
    let price = I80F48::from_bits(ONE * 2);
    if limits {
        b.net_borrow_limit_per_window_quote = in_i64("borrow_limit", -1, 1 << 44);
        b.net_borrows_in_window = in_i64("net_borrows", -(1 << 40), 1 << 40);
        b.last_net_borrows_window_start_ts = NOW - 100;
        b.deposit_limit = in_u64("deposit_limit", 0, 1 << 50);
        b.potential_serum_tokens = in_u64("serum", 0, 1 << 40);
        b.stable_price_model.stable_price = 3.0;
    } else { b.reduce_only = in_u8("reduce_only", 0, 2); }
    let s = snap(b);
    let (s0, d0, nb0) = (src.indexed_position, dst.indexed_position, b.net_borrows_in_window);
    let (es, ed) = (exact(s0, b), exact(d0, b));
    let r = match b.checked_transfer_with_fee(&mut src, sa, &mut dst, ta, NOW, price) { Ok(r) => r, Err(e) => { std::mem::forget(e); if limits { if b.deposit_limit > 0 { reach("depfull"); } if b.net_borrow_limit_per_window_quote >= 0 { reach("borfull"); } } else { reach("reduce"); } return; } };
    check_totals(b, &s, Z::fx(src.indexed_position) - Z::fx(s0) + Z::fx(dst.indexed_position) - Z::fx(d0));
    check(implies(and(!sa.is_zero(), src.indexed_position.to_bits() < 0), b.reduce_only == 0), "the source does not borrow a reduce-only token");
    check(implies(and(!ta.is_zero(), dst.indexed_position.to_bits() > 0), b.reduce_only != 1), "the target does not deposit a reduce-only token");
    let fee = Z::fx(b.collected_fees_native) - Z::fx(s.fees);
    check(fee.eq(Z::fx(r.loan_origination_fee)), "the transfer's fee is collected");
    let gs = es - fx96(sa) - fee * Z::pow2(48) - exact(src.indexed_position, b);
    check(and(gs.ge(-tol(s.di) - tol(s.bi)), gs.le(tol(s.di))), "the source pays the source amount and the fee");
    let gd = exact(dst.indexed_position, b) - ed - fx96(ta);
    check(and(gd.ge(-Z::pow2(50)), gd.le(tol(s.di) + tol(s.bi))), "the target gets the target amount");
    if limits {
        let dep = Z::fx(b.indexed_deposits);
        check(or(or(b.deposit_limit == 0, dep.le(Z::fx(s.dep) + Z::s(1))), (dep + Z::u(b.potential_serum_tokens as u128) * Z::s(ONE)).le(Z::u(b.deposit_limit as u128) * Z::s(ONE))), "deposits do not grow beyond the deposit limit");
        let nb = Z::s(b.net_borrows_in_window as i128);
        check(or(or(b.net_borrow_limit_per_window_quote < 0, Z::fx(b.indexed_borrows).le(Z::fx(s.bor) + Z::s(1))), or(nb.lt(zero()), (nb * Z::s(3)).le(Z::s(b.net_borrow_limit_per_window_quote as i128)))), "borrows do not grow beyond the net borrow limit");
        // net borrows: loans rounded up, repayments rounded towards zero repayment
        let loan = Z::fx(r.loan_amount);
        let repay = Z::ite(Z::fx(d0).lt(zero()), (-Z::fx(d0)).min(Z::fx(ta)), zero());
        check(nb.eq(Z::s(nb0 as i128) - (-loan).div_floor(Z::s(ONE)) - repay.div_floor(Z::s(ONE))), "net borrows follow loans and repayments");
    }
    reach("ok");
}
#[no_mangle] pub extern "C" fn h_transfer() { transfer(false, false) }
#[no_mangle] pub extern "C" fn h_transfer_indexes() { transfer(false, true) }
#[no_mangle] pub extern "C" fn h_limits() { transfer(true, false) }
#[no_mangle]
pub extern "C" fn h_negative() {
    let b = mk();
    let mut t = pos("pos", -(ONE << 44), ONE << 44);
    let amount = in_fx("amount", -(ONE << 60), -1);
    let s = snap(b);
    let p0 = t.indexed_position;
    let r = match in_u8("which", 0, 3) {
        0 => val(b.deposit(&mut t, amount, NOW)),
        1 => val(b.withdraw_without_fee(&mut t, amount, NOW)),
        2 => match b.withdraw_with_fee(&mut t, amount, NOW) { Ok(r) => Some(r.position_is_active), Err(e) => { std::mem::forget(e); None } },
        _ => val(b.deposit_with_dusting(&mut t, amount, NOW)),
    };
    check(r.is_none(), "negative amounts are refused");
    check(and(t.indexed_position == p0, and(b.indexed_deposits == s.dep, b.indexed_borrows == s.bor)), "a refused change has no effect");
    reach("refused");
}
