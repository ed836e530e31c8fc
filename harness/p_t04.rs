// T04: interest accrual
//@mod spec
//@fn h_curve reach=low,mid,high : Bank::interest_rate_curve_calculator: any utilization 0..2, all rates 0..16 (any order), util0 1/2, util1 3/4, scaling off
//@fn h_curve_zero reach=ok : util0 = 0 and util0 = util1 corner curves: rates at every utilization
//@fn h_curve_bounds reach=low,mid,high : util0 and util1 from {0, 0.3, 0.7, 0.9, 1}, non-decreasing rates 0..16, any utilization: the rate lies between the segment's end points, never negative
//@fn h_index reach=ok : compute_index with a flat curve 10%/year: totals 0 or 1..2^40 native, indexes from {1, 1.25, 3}, loan fee rate 0..1, steps up to one hour
//@fn h_index_conserve reach=ok,over : depositors' and borrowers' interest, totals up to 2^36 native, indexes 1.25/1.5, one hour step
//@fn h_avg reach=ok : compute_new_avg_utilization: any former average 0..1, times within a day
//@fn h_scaling reach=up,down : update_interest_rate_scaling: any average utilization 0..1, adjustment factor 2%, targets 0.5 and 1
//@fn h_ix reach=ok,twobanks,capped : token_update_index_and_rate with two banks of the token: any totals, update times up to a day apart
//@fn h_ix_rate reach=scaled : the hourly rate update with two banks, 0 s to 2 h after the last one
//@fn h_ix_shift reach=done,pending : maintenance weight shift end
//@fn h_ix_tx reach=ok,refused : the transaction's other instruction: program and 8 discriminator bytes symbolic
//@fn h_ix_guard reach=stale_err,stale_ok,refused : stale oracle with and without early exit; wrong bank lists, wrong oracle, gate off, wrong group
//@assume the instructions sysvar account has the runtime's layout
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;
use solana_program::sysvar::instructions as tx_instructions;

const NOW: u64 = 1_700_000_000;
const YEAR: i128 = 31_536_000;
fn fx(b: i128) -> I80F48 { I80F48::from_bits(b) }

fn rates() -> [I80F48; 4] { [in_fx("zero_util_rate", 0, ONE * 16), in_fx("rate0", 0, ONE * 16), in_fx("rate1", 0, ONE * 16), in_fx("max_rate", 0, ONE * 16)] }
#[no_mangle]
pub extern "C" fn h_curve() {
    let r = rates();
    let u = in_fx("utilization", 0, ONE * 2);
    panic_is_violation("the curve is defined everywhere");
    let v = Bank::interest_rate_curve_calculator(u, r[0], fx(ONE / 2), r[1], fx(ONE / 4 * 3), r[2], r[3], 0.0);
    let uc = Z::fx(u).min(Z::s(ONE));
    // the line through the two ends of a segment
    let line = |a: I80F48, b: I80F48, from: i128, inv: i128| Z::fx(a) * Z::s(ONE) + (Z::fx(b) - Z::fx(a)) * Z::s(inv) * (uc - Z::s(from));
    let low = uc.le(Z::s(ONE / 2));
    let mid = uc.le(Z::s(ONE / 4 * 3));
    let want = Z::ite(low, line(r[0], r[1], 0, 2), Z::ite(mid, line(r[1], r[2], ONE / 2, 4), line(r[2], r[3], ONE / 4 * 3, 4)));
    let d = Z::fx(v) * Z::s(ONE) - want;
    check(and(d.le(Z::s(0)), d.gt(Z::s(-2 * ONE))), "the rate is the line between the curve's points, rounded down");
    if u.to_bits() <= ONE / 2 { reach("low"); } else if u.to_bits() <= ONE / 4 * 3 { reach("mid"); } else { reach("high"); }
}
#[no_mangle]
pub extern "C" fn h_curve_zero() {
    let r = rates();
    let u = in_fx("utilization", 0, ONE);
    panic_is_violation("the curve is defined everywhere");
    let (u0, u1) = match in_u32("case", 0, 3) { 0 => (0, 0), 1 => (0, ONE / 2), 2 => (ONE / 2, ONE / 2), _ => (ONE, ONE) };
    let v = Bank::interest_rate_curve_calculator(u, r[0], fx(u0), r[1], fx(u1), r[2], r[3], 0.0);
    let lo = Z::fx(r[0]).min(Z::fx(r[1])).min(Z::fx(r[2])).min(Z::fx(r[3]));
    let hi = Z::fx(r[0]).max(Z::fx(r[1])).max(Z::fx(r[2])).max(Z::fx(r[3]));
    check(and((Z::fx(v) + Z::s(2)).ge(lo), Z::fx(v).le(hi + Z::s(2))), "the rate stays within the curve's points");
    check(implies(and(u1 == 0, u.is_zero()), v == r[2]), "at zero utilization a curve without lower segments starts at rate1");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_curve_bounds() {
    let r = rates();
    let u = in_fx("utilization", 0, ONE);
    assume(and(r[0] <= r[1], and(r[1] <= r[2], r[2] <= r[3])));
    panic_is_violation("the curve is defined everywhere");
    let (u0, u1) = match in_u32("case", 0, 5) { 0 => (0, 7), 1 => (3, 7), 2 => (7, 9), 3 => (3, 10), 4 => (7, 7), _ => (9, 10) };
    let (u0, u1) = (fx(ONE * u0 / 10), fx(ONE * u1 / 10));
    let v = Bank::interest_rate_curve_calculator(u, r[0], u0, r[1], u1, r[2], r[3], 0.0);
    check(v.to_bits() >= 0, "rates are not negative");
    check(implies(u < u0, and(v >= r[0], v <= r[1])), "below util0 the rate is between the zero rate and rate0");
    check(implies(and(u > u0, u <= u1), and(v >= r[1], v <= r[2])), "between util0 and util1 the rate is between rate0 and rate1");
    check(implies(u > u1, and(v >= r[2], v <= r[3])), "above util1 the rate is between rate1 and the maximum");
    if u < u0 { reach("low"); } else if u < u1 { reach("mid"); } else { reach("high"); }
}

const RATE: i128 = ONE / 10;
fn flat(b: &mut Bank) {
    b.zero_util_rate = fx(RATE);
    b.rate0 = fx(RATE);
    b.rate1 = fx(RATE);
    b.max_rate = fx(RATE);
    b.interest_curve_scaling = 1.0;
}
#[no_mangle]
pub extern "C" fn h_index() {
    begin();
    set_clock(NOW, 1000);
    let (_, b) = bank(0);
    flat(b);
    let (di, bi) = match in_u32("indexes", 0, 2) { 0 => (ONE, ONE), 1 => (ONE / 4 * 5, ONE * 3), _ => (ONE * 3, ONE / 4 * 5) };
    b.deposit_index = fx(di);
    b.borrow_index = fx(bi);
    b.loan_fee_rate = in_fx("loan_fee_rate", 0, ONE);
    let dep = in_fx("deposits", 0, ONE << 40);
    let bor = in_fx("borrows", 0, ONE << 40);
    let dt = in_u64("dt", 0, 3600);
    assume(or(dep.is_zero(), dep.to_bits() >= ONE)); // a fraction of a native token against 2^40 borrowed: utilization does not fit
    panic_is_violation("interest can be computed");
    let (ndi, nbi, fees, rate, drate) = match b.compute_index(dep, bor, fx(dt as i128 * ONE)) { Ok(r) => r, Err(e) => { std::mem::forget(e); return; } };
    check(and(ndi.to_bits() >= di, nbi.to_bits() >= bi), "indexes never fall");
    check(rate == fx(RATE), "the borrow rate is the curve's");
    check(and(drate.to_bits() >= 0, drate <= rate), "the deposit rate is between zero and the borrow rate");
    // growth within three roundings of index * rate * dt / YEAR
    let want = Z::s(bi) * (Z::s(RATE) + Z::fx(b.loan_fee_rate)) * Z::u(dt as u128);
    let got = (Z::fx(nbi) - Z::s(bi)) * Z::s(ONE) * Z::s(YEAR);
    check(and(got.le(want), got.gt(want - Z::s(3) * Z::s(ONE) * Z::s(YEAR))), "the borrow index grows by rate and fee over the elapsed time");
    let wantd = Z::s(di) * Z::fx(drate) * Z::u(dt as u128);
    let gotd = (Z::fx(ndi) - Z::s(di)) * Z::s(ONE) * Z::s(YEAR);
    check(and(gotd.le(wantd), gotd.gt(wantd - Z::s(3) * Z::s(ONE) * Z::s(YEAR))), "the deposit index grows by the deposit rate over the elapsed time");
    let nb = Z::s(bi) * Z::fx(bor); // native borrows 2^96
    let wf = nb * Z::fx(b.loan_fee_rate) * Z::u(dt as u128);
    let gf = Z::fx(fees) * Z::s(ONE) * Z::s(ONE) * Z::s(YEAR);
    check(and(gf.le(wf), gf.gt(wf - Z::s(8) * Z::s(ONE) * Z::s(ONE) * Z::s(YEAR))), "the collected fee is the fee part of the borrowers' interest");
    check(implies(dep.is_zero(), ndi.to_bits() == di), "no deposits, no deposit interest");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_index_conserve() {
    begin();
    let (_, b) = bank(0);
    flat(b);
    b.deposit_index = fx(ONE / 4 * 5);
    b.borrow_index = fx(ONE / 2 * 3);
    b.loan_fee_rate = fx(ONE / 100);
    let dep = in_fx("deposits", ONE, ONE << 36);
    let bor = in_fx("borrows", 0, ONE << 36);
    let (ndi, nbi, fees, _, drate) = match b.compute_index(dep, bor, fx(3600 * ONE)) { Ok(r) => r, Err(e) => { std::mem::forget(e); return; } };
    let earned = (Z::fx(ndi) - Z::fx(b.deposit_index)) * Z::fx(dep);
    let paid = (Z::fx(nbi) - Z::fx(b.borrow_index)) * Z::fx(bor);
    let fee96 = fx96(fees);
    // utilization = borrows over deposits (native), at most one
    let (nd, nb) = (mulfx(b.deposit_index, dep), mulfx(b.borrow_index, bor));
    let over = nb.ge(nd);
    check(implies(over, drate == fx(RATE)), "at full utilization depositors earn the borrow rate");
    check(implies(!over, and((Z::fx(drate) * nd).le(nb * Z::s(RATE)), (nb * Z::s(RATE)).le((Z::fx(drate) + Z::s(2)) * nd))), "the deposit rate is the borrow rate times utilization");
    check((earned + fee96).le(paid + Z::s(4) * (Z::fx(dep) + Z::fx(bor)) + Z::pow2(52)), "depositors and fees get no more than the borrowers pay");
    if nb.ge(nd) { reach("over"); } else { reach("ok"); }
}
#[no_mangle]
pub extern "C" fn h_avg() {
    begin();
    let (_, b) = bank(0);
    b.avg_utilization = in_fx("avg", 0, ONE);
    let util = in_fx("util", 0, ONE);
    // deposits 1: instantaneous utilization equals the borrows
    let t0 = NOW;
    let t1 = t0 + match in_u32("prev", 0, 3) { 0 => 0, 1 => 60, 2 => 1000, _ => 3600 };
    let now = t1 + in_u64("dt", 0, 86400);
    b.bank_rate_last_updated = t0;
    b.index_last_updated = t1;
    let v = b.compute_new_avg_utilization(fx(ONE), util, now);
    let total = Z::u((now - t0) as u128);
    let want = Z::fx(b.avg_utilization) * Z::u((t1 - t0) as u128) + Z::fx(util) * Z::u((now - t1) as u128);
    let ok = and((Z::fx(v) * total).le(want), ((Z::fx(v) + Z::s(2)) * total).gt(want));
    check(or(ok, and(now == t0, v == util)), "the average utilization is the time-weighted average");
    check(and(v.to_bits() >= 0, v.to_bits() <= ONE), "the average utilization is between zero and one");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_scaling() {
    begin();
    let (_, b) = bank(0);
    b.avg_utilization = in_fx("avg", 0, ONE);
    b.adjustment_factor = fx(ONE / 50);
    let full = sym_bool("target_one");
    b.interest_target_utilization = if full { 1.0 } else { 0.5 };
    b.interest_curve_scaling = 1.5;
    panic_is_violation("scaling can be updated");
    b.update_interest_rate_scaling();
    let s = b.interest_curve_scaling;
    check(s >= 1.0, "the scaling never falls below one");
    check(s <= 1.5 * 1.0201 && s >= 1.5 * 0.9799, "one update changes the scaling by at most the adjustment factor");
    let above = b.avg_utilization.to_bits() > if full { ONE } else { ONE / 2 };
    if above { check(s >= 1.5, "rates do not fall above the target utilization"); reach("up"); } else { check(s <= 1.5, "rates do not rise below the target utilization"); reach("down"); }
}

// ---- the instruction ----
/// instructions sysvar with this instruction and another one
fn sysvar(other: Pubkey, disc: [u8; 8]) -> Ai {
    let ix: [(&Pubkey, &[u8]); 2] = [(&crate::ID, &<crate::instruction::TokenUpdateIndexAndRate as anchor_lang::Discriminator>::DISCRIMINATOR), (&other, &disc)];
    let mut d = vec![];
    d.extend_from_slice(&2u16.to_le_bytes());
    let one = 2 + 32 + 2 + 8;
    let base = 2 + 2 * 2;
    d.extend_from_slice(&(base as u16).to_le_bytes());
    d.extend_from_slice(&((base + one) as u16).to_le_bytes());
    for (p, b) in ix.iter() {
        d.extend_from_slice(&0u16.to_le_bytes());
        d.extend_from_slice(p.as_ref());
        d.extend_from_slice(&8u16.to_le_bytes());
        d.extend_from_slice(b);
    }
    d.extend_from_slice(&0u16.to_le_bytes());
    let mem = leak_bytes(d.len());
    mem.copy_from_slice(&d);
    ai(tx_instructions::ID, solana_program::sysvar::ID, mem)
}
struct W { g: Ai, gr: &'static mut Group, mi: Ai, m: &'static mut MintInfo, o: Ai, so: &'static mut StubOracle, sv: Ai, b0: Ai, bk0: &'static mut Bank, b1: Ai, bk1: &'static mut Bank }
fn compute_budget() -> Pubkey { crate::instructions::compute_budget::ID }
fn world() -> W { world_tx(sysvar(compute_budget(), [2; 8])) }
fn world_tx(sv: Ai) -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, gr) = group();
    let (o, so) = stub_oracle(0, I80F48::ONE);
    let (b0, bk0) = bank_at(0, key(K_BANK, 0), 0);
    let (b1, bk1) = bank_at(0, key(K_BANK, 1), 0);
    let (mi, m) = zc::<MintInfo>(key(K_MINTINFO, 0));
    m.group = key(K_GROUP, 0);
    m.oracle = key(K_ORACLE, 0);
    m.mint = key(K_MINT, 0);
    m.banks[0] = key(K_BANK, 0);
    m.banks[1] = key(K_BANK, 1);
    for b in [&mut *bk0, &mut *bk1] {
        flat(b);
        b.deposit_index = fx(ONE / 4 * 5);
        b.borrow_index = fx(ONE / 2 * 3);
        b.loan_fee_rate = fx(ONE / 100);
        b.index_last_updated = NOW;
        b.bank_rate_last_updated = NOW;
        b.stable_price_model.last_update_timestamp = u64::MAX;
    }
    W { g, gr, mi, m, o, so, sv, b0, bk0, b1, bk1 }
}
fn call(w: &W, banks: &[&Ai], resilient: bool) -> bool {
    let mut accs = vec![w.g.clone(), w.mi.clone(), w.o.clone(), w.sv.clone()];
    for b in banks { accs.push((*b).clone()); }
    if resilient { ok(crate::__private::__global::token_update_index_and_rate_resilient(&crate::ID, leak(accs), &[])) }
    else { ok(crate::__private::__global::token_update_index_and_rate(&crate::ID, leak(accs), &[])) }
}
#[no_mangle]
pub extern "C" fn h_ix() {
    let w = world();
    let upd = in_u64("index_last_updated", NOW - 86400, NOW);
    let rate_upd = NOW - 3600;
    assume(or(upd >= rate_upd, true));
    for (b, n) in [(&mut *w.bk0, 0), (&mut *w.bk1, 1)] {
        b.indexed_deposits = in_fx(if n == 0 { "dep0" } else { "dep1" }, 0, ONE << 40);
        b.indexed_borrows = in_fx(if n == 0 { "bor0" } else { "bor1" }, 0, ONE << 40);
        b.index_last_updated = upd;
        b.bank_rate_last_updated = NOW - 100_000;
        b.interest_curve_scaling = 1.0;
    }
    // the hourly part is the subject of h_ix_rate
    w.bk0.bank_rate_last_updated = upd;
    w.bk1.bank_rate_last_updated = upd;
    assume(upd >= NOW - 3600 || upd == NOW - 86400);
    if upd == NOW - 86400 { w.bk0.adjustment_factor = I80F48::ZERO; }
    let (s0, s1) = (snap(w.bk0), snap(w.bk1));
    if !call(&w, &[&w.b0, &w.b1], false) { check(false, "the update succeeds"); return; }
    let dep = Z::fx(s0.dep) + Z::fx(s1.dep);
    let bor = Z::fx(s0.bor) + Z::fx(s1.bor);
    let dt = Z::u((NOW - upd) as u128).min(Z::s(3600));
    check(and(w.bk0.deposit_index == w.bk1.deposit_index, w.bk0.borrow_index == w.bk1.borrow_index), "all banks of a token have the same indexes");
    check(and(w.bk0.deposit_index >= s0.di, w.bk0.borrow_index >= s0.bi), "indexes never fall");
    check(and(w.bk0.index_last_updated == NOW, w.bk1.index_last_updated == NOW), "the update time is recorded on all banks");
    check(and(w.bk0.avg_utilization == w.bk1.avg_utilization, and(w.bk0.avg_utilization.to_bits() >= 0, w.bk0.avg_utilization.to_bits() <= ONE)), "all banks have the same average utilization");
    let want = Z::fx(s0.bi) * Z::s(RATE + ONE / 100) * dt;
    let got = (Z::fx(w.bk0.borrow_index) - Z::fx(s0.bi)) * Z::s(ONE) * Z::s(YEAR);
    check(and(got.le(want), got.gt(want - Z::s(3) * Z::s(ONE) * Z::s(YEAR))), "borrowers pay the rate for at most one hour");
    // fees are those of all banks' borrows, collected once
    let wf = Z::fx(s0.bi) * bor * Z::s(ONE / 100) * dt;
    let gf = (Z::fx(w.bk0.collected_fees_native) - Z::fx(s0.fees) + Z::fx(w.bk1.collected_fees_native) - Z::fx(s1.fees)) * Z::s(ONE) * Z::s(ONE) * Z::s(YEAR);
    check(and(gf.le(wf), gf.gt(wf - Z::s(8) * Z::s(ONE) * Z::s(ONE) * Z::s(YEAR))), "the fee on all borrows is collected once");
    // deposit interest follows the utilization over all banks
    let (nd, nb) = (mulfx_z(s0.di, dep), mulfx_z(s0.bi, bor));
    let gd = (Z::fx(w.bk0.deposit_index) - Z::fx(s0.di)) * Z::s(YEAR) * Z::s(ONE);
    check(implies(nb.ge(nd), gd.le(Z::fx(s0.di) * Z::s(RATE) * dt)), "depositors earn at most the borrow rate");
    check(implies(bor.eq(zero()), w.bk0.deposit_index == s0.di), "without borrows there is no interest for depositors");
    check(and(and(w.bk0.indexed_deposits == s0.dep, w.bk1.indexed_deposits == s1.dep), and(w.bk0.indexed_borrows == s0.bor, w.bk1.indexed_borrows == s1.bor)), "indexed totals are untouched");
    reach("ok");
    if s1.bor.to_bits() > 0 { reach("twobanks"); }
    if upd == NOW - 86400 { reach("capped"); }
}
fn mulfx_z(a: I80F48, b: Z) -> Z { (Z::fx(a) * b).div_floor(Z::s(ONE)) }
#[no_mangle]
pub extern "C" fn h_ix_rate() {
    let w = world();
    let last = match in_u32("rate_updated", 0, 4) { 0 => NOW, 1 => NOW - 3599, 2 => NOW - 3600, 3 => NOW - 3601, _ => NOW - 7200 };
    for b in [&mut *w.bk0, &mut *w.bk1] {
        b.indexed_deposits = fx(ONE * 1000);
        b.indexed_borrows = fx(ONE * 800);
        b.index_last_updated = NOW;
        b.bank_rate_last_updated = last;
        b.interest_curve_scaling = 1.5;
        b.adjustment_factor = fx(ONE / 50);
        b.avg_utilization = fx(ONE / 10 * 9);
    }
    if !call(&w, &[&w.b0, &w.b1], false) { check(false, "the update succeeds"); return; }
    let due = NOW - last > 3600;
    let (a, b) = (&*w.bk0, &*w.bk1);
    check(and(a.interest_curve_scaling == b.interest_curve_scaling, a.bank_rate_last_updated == b.bank_rate_last_updated), "all banks get the same rate scaling");
    check(a.bank_rate_last_updated == if due { NOW } else { last }, "the rate update happens once an hour");
    check(or(due, a.interest_curve_scaling == 1.5), "the scaling is kept within the hour");
    check(or(!due, a.interest_curve_scaling > 1.5), "the scaling rises while utilization is above target");
    check(and(a.rate0 == fx(RATE), and(a.rate1 == fx(RATE), a.max_rate == fx(RATE))), "the curve's points are kept");
    check(and(b.rate0 == fx(RATE), and(b.rate1 == fx(RATE), b.max_rate == fx(RATE))), "the curve's points are kept on all banks");
    if due { reach("scaled"); }
}
#[no_mangle]
pub extern "C" fn h_ix_shift() {
    let w = world();
    let end = in_u64("shift_end", NOW - 1000, NOW + 1000);
    let on = sym_bool("shifting");
    for b in [&mut *w.bk0, &mut *w.bk1] {
        b.maint_asset_weight = fx(ONE / 10 * 9);
        b.maint_liab_weight = fx(ONE / 10 * 11);
        b.maint_weight_shift_start = NOW - 2000;
        b.maint_weight_shift_end = end;
        b.maint_weight_shift_duration_inv = if on { fx(ONE / 1000) } else { I80F48::ZERO };
        b.maint_weight_shift_asset_target = fx(ONE / 10 * 7);
        b.maint_weight_shift_liab_target = fx(ONE / 10 * 13);
    }
    let (a0, l0) = (w.bk0.maint_asset_weight, w.bk0.maint_liab_weight);
    let before = w.bk0.maint_weights(NOW);
    if !call(&w, &[&w.b0, &w.b1], false) { check(false, "the update succeeds"); return; }
    let done = on && NOW >= end;
    for b in [&*w.bk0, &*w.bk1] {
        if done {
            check(and(b.maint_asset_weight.to_bits() == ONE / 10 * 7, b.maint_liab_weight.to_bits() == ONE / 10 * 13), "a finished weight shift ends at its target");
            check(and(b.maint_weight_shift_duration_inv.is_zero(), and(b.maint_weight_shift_start == 0, b.maint_weight_shift_end == 0)), "a finished weight shift is cleared");
            check(b.maint_weights(NOW) == before, "finishing a weight shift does not change the weights in effect");
        } else {
            check(and(b.maint_asset_weight == a0, b.maint_liab_weight == l0), "a pending weight shift keeps the start weights");
            check(and(b.maint_weight_shift_end == end, b.maint_weight_shift_duration_inv.is_zero() == !on), "a pending weight shift keeps its parameters");
        }
    }
    if done { reach("done"); } else if on { reach("pending"); }
}
#[no_mangle]
pub extern "C" fn h_ix_tx() {
    let mut disc = [0u8; 8];
    disc.copy_from_slice(&sym_u64("discriminator").to_le_bytes());
    let which = in_u32("program", 0, 2);
    let prog = match which { 0 => crate::ID, 1 => compute_budget(), _ => key(K_OTHER, 9) };
    let w = world_tx(sysvar(prog, disc));
    let own = or(disc == <crate::instruction::TokenUpdateIndexAndRate as anchor_lang::Discriminator>::DISCRIMINATOR, disc == <crate::instruction::TokenUpdateIndexAndRateResilient as anchor_lang::Discriminator>::DISCRIMINATOR);
    let allowed = or(which == 1, and(which == 0, own));
    let done = call(&w, &[&w.b0, &w.b1], sym_bool("resilient"));
    check(done == allowed, "the update runs only beside other index updates and compute budget instructions");
    if done { reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_ix_guard() {
    let w = world();
    for b in [&mut *w.bk0, &mut *w.bk1] { b.index_last_updated = NOW - 1000; b.indexed_deposits = fx(ONE * 100); b.indexed_borrows = fx(ONE * 50); }
    let resilient = sym_bool("resilient");
    let which = in_u32("case", 0, 7);
    let mut banks = vec![&w.b0, &w.b1];
    let (_o2, _) = stub_oracle_at(key(K_OTHER, 3), 0, I80F48::ONE);
    let mut stale = false;
    let (bx, _) = bank_at(1, key(K_BANK, 2), 1);
    let mut o = w.o.clone();
    match which {
        0 => { w.bk0.oracle_config.max_staleness_slots = 10; w.so.last_update_slot = 900; stale = true; }
        1 => { banks = vec![&w.b0]; }
        2 => { banks = vec![&w.b1, &w.b0]; }
        3 => { banks = vec![&w.b0, &w.b1, &bx]; }
        4 => { o = _o2; }
        5 => { w.gr.ix_gate = u128::MAX; }
        6 => { w.m.group = key(K_GROUP, 1); }
        _ => { banks = vec![&w.b0, &bx]; }
    }
    let mut accs = vec![w.g.clone(), w.mi.clone(), o, w.sv.clone()];
    for b in banks { accs.push((*b).clone()); }
    let accs = leak(accs);
    let r = if resilient { ok(crate::__private::__global::token_update_index_and_rate_resilient(&crate::ID, accs, &[])) } else { ok(crate::__private::__global::token_update_index_and_rate(&crate::ID, accs, &[])) };
    check(r == (stale && resilient), "wrong banks, oracle, group or a disabled instruction are refused");
    let same = |b: &Bank| and(and(b.deposit_index == fx(ONE / 4 * 5), b.borrow_index == fx(ONE / 2 * 3)), and(b.index_last_updated == NOW - 1000, b.collected_fees_native.is_zero()));
    check(and(same(w.bk0), same(w.bk1)), "a refused or skipped update changes nothing");
    if stale { if resilient { reach("stale_ok"); } else { reach("stale_err"); } } else { reach("refused"); }
}
