// T01: deposits
//@mod spec
//@fn h_deposit reach=ok,repaid,dusted : one deposit by anyone into an account with an existing position; amount, balances: all u64; position: |indexed| <= 2^44 native, borrow or deposit; indexes 1..2^16; in-use 0/1; oracle price 2^-20..2^14
//@fn h_deposit_reduce reach=ok,repaid : the same with the reduce-only flags of the request and the bank in every combination
//@fn h_deposit_new reach=ok : first deposit of a token: position slot is created (2 free slots)
//@assume SPL token transfer follows its documented behaviour
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use fixed::types::I80F48;

fn run(existing: bool, reduce: bool) {
    begin();
    set_clock(1_700_000_000, 1000);
    let (g, _gr) = group();
    let (b, bk) = bank(0);
    sym_bank(bk);
    if reduce { bk.reduce_only = in_u8("bank_reduce_only", 0, 2); }
    let price = if existing { in_fx("price", ONE >> 20, ONE << 14) } else { I80F48::ONE };
    let (o, _) = stub_oracle(0, price);
    let v = vault(0, sym_u64("vault"));
    let acc = mango_account(0, 2, 0, 0, 0, 0);
    // an unrelated position that must not change
    let other = acc.set_token(1, 7, I80F48::from_bits(12345 << 40));
    let t = acc.token(0);
    if existing {
        acc.set_token(0, 0, in_fx("pos", -(ONE << 44), ONE << 44));
        t.in_use_count = in_u16("in_use", 0, 1);
        t.previous_index = I80F48::ONE;
    }
    let owner = signer(&ai_plain(key(K_OTHER, 0)));
    let ta = token_account(key(K_TOKACC, 0), key(K_MINT, 0), key(K_OTHER, 0), sym_u64("balance"));
    let amount = sym_u64("amount");
    let reduce_only = if reduce { sym_bool("reduce_only") } else { false };
    let (v0, t0) = (token_amount(&v), token_amount(&ta));
    let (p0, in_use) = (t.indexed_position, t.in_use_count);
    let e0 = exact(p0, bk);
    let s = snap(bk);
    let nd0 = acc.fixed().net_deposits;
    let accs = if existing {
        vec![g.clone(), acc.a.clone(), ai_plain(key(K_OWNER, 0)), b.clone(), v.clone(), o.clone(), ta.clone(), owner.clone(), token_program(), b.clone(), o.clone()]
    } else {
        vec![g.clone(), acc.a.clone(), signer(&ai_plain(key(K_OWNER, 0))), b.clone(), v.clone(), o.clone(), ta.clone(), owner.clone(), token_program(), b.clone(), o.clone()]
    };
    let r = if existing {
        crate::__private::__global::token_deposit_into_existing(&crate::ID, &accs[..2].iter().chain(accs[3..].iter()).cloned().collect::<Vec<_>>(), &args(crate::instruction::TokenDepositIntoExisting { amount, reduce_only }))
    } else {
        crate::__private::__global::token_deposit(&crate::ID, &accs, &args(crate::instruction::TokenDeposit { amount, reduce_only }))
    };
    if !ok(r) { return; }
    reach("ok");
    let moved = token_amount(&v).wrapping_sub(v0);
    check(token_amount(&v) >= v0, "a deposit never takes tokens from the vault");
    check(t0.wrapping_sub(token_amount(&ta)) == moved, "what leaves the depositor arrives in the vault");
    check(moved <= amount, "no more than the requested amount is taken");
    let borrow = e0.lt(zero());
    if !(reduce_only || bk.reduce_only == 1) { check(moved == amount, "the full amount is deposited"); }
    else { check(or(Z::u(moved as u128).eq(zero()), (nat96(moved) + e0).lt(one96() + Z::fx(bk.borrow_index))), "reduce-only deposits do not exceed the borrow"); }
    let p1 = t.indexed_position;
    let e1 = exact(p1, bk);
    let dusted = and(p1.to_bits() == 0, and(Z::fx(bk.dust).eq(Z::fx(s.dust)) == false, in_use == 0));
    let full = (e0 + nat96(moved)).le(e1 + Z::pow2(48)); // the position is valued rounded down to 2^-48
    check(or(full, and(and(p1.to_bits() == 0, in_use == 0), (e0 + nat96(moved)).lt(one96() + Z::fx(bk.borrow_index)))), "the depositor is credited at least the deposited amount (up to dust below one native token)");
    check((e1 - e0 - nat96(moved)).le(Z::s(2) * (Z::fx(s.di) + Z::fx(s.bi))), "rounding in the depositor's favour stays below two units in the last place");
    let active = t.token_index != TokenPosition::default().token_index;
    check_totals(bk, &s, Z::fx(p1) - Z::fx(p0));
    let gap = e1 + fx96(bk.dust) - fx96(s.dust) - e0 - nat96(moved);
    check(and(gap.ge(-Z::pow2(48)), gap.le(Z::s(2) * (Z::fx(s.di) + Z::fx(s.bi)))), "position plus dust grow by the deposit");
    check(and(bk.collected_fees_native == s.fees, and(bk.collected_liquidation_fees == s.liqfees, bk.collected_collateral_fees == s.colfees)), "deposits pay no fee");
    check(implies(!active, p1.to_bits() == 0), "only an empty position is closed");
    check(and(other.token_index == 7, other.indexed_position.to_bits() == 12345 << 40), "other positions are untouched");
    if existing { check(active, "the position stays open"); }
    let dn = Z::s(acc.fixed().net_deposits as i128) - Z::s(nd0 as i128);
    check(dn.eq((Z::u(moved as u128) * Z::fx(price)).div_floor(Z::pow2(48))), "net deposits grow by the deposit's value");
    if borrow { reach("repaid"); }
    if dusted { reach("dusted"); }
}
#[no_mangle]
pub extern "C" fn h_deposit() { run(true, false) }
#[no_mangle]
pub extern "C" fn h_deposit_reduce() { run(true, true) }
#[no_mangle]
pub extern "C" fn h_deposit_new() { run(false, false) }
