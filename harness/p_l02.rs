// L02: token bankruptcy (token_liq_bankruptcy)
//@mod spec
//@fn h_a0 reach=covered,socialized,partial : debt, insurance fund and maximum up to 2^40, insurance price factor 1, two banks
//@fn h_a1 reach=covered,socialized,partial : the same, a debt unit costs 2 insurance units with the fee, loan origination fee
//@fn h_a2 reach=covered,socialized,partial : the same, a debt unit costs half an insurance unit, indexes 2 and 4
//@fn h_a3 reach=socialized : a token not eligible for the insurance fund
//@fn h_same reach=covered,socialized,partial : the debt is in the insurance token itself
//@fn h_real reach=covered,socialized,partial : realistic fee and price, four debts, five funds, any maximum, a liquidator with deposits of the token
//@fn h_liqor reach=ok,refused : the liquidator's health, any balances up to 2^30, in and outside health regions
//@fn h_auth reach=refused : accounts that are not bankrupt; same, foreign, frozen, unsigned, liquidated accounts; wrong banks, vaults, mint info
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn q(n: i128, d: i128) -> I80F48 { I80F48::from_bits(ONE * n / d) }
/// banks: 0 insurance token, 1 and 2 the two banks of the debt token (token 1)
pub struct W { g: Ai, gr: &'static mut Group, e: Ma, r: Ma, b: Vec<Ai>, bk: Vec<&'static mut Bank>, o: Vec<Ai>, mi: Ai, m: &'static mut MintInfo, iv: Ai, qv: Ai, tok: u16 }
fn world(kind: u32, fund: u64) -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, gr) = group();
    let e = mango_account(0, 3, 0, 1, 1, 0);
    let r = mango_account(1, 3, 0, 0, 0, 0);
    let (mut b, mut bk) = (vec![], vec![]);
    for n in 0..3u8 {
        let (a, k) = if n == 2 { bank_at(1, key(K_BANK, 2), 1) } else { bank(n) };
        k.vault = key(K_VAULT, n);
        k.liquidation_fee = [q(0, 1), q(1, 1), q(0, 1), q(0, 1), q(0, 1), q(1, 16)][kind as usize];
        if kind == 1 && n > 0 { k.loan_origination_fee_rate = q(1, 64); }
        if kind == 2 && n > 0 { k.deposit_index = q(2, 1); k.borrow_index = q(4, 1); }
        k.maint_asset_weight = q(7, 8);
        k.init_asset_weight = q(6, 8);
        k.maint_liab_weight = q(9, 8);
        k.init_liab_weight = q(10, 8);
        k.indexed_deposits = I80F48::from_bits(ONE << 41);
        k.indexed_borrows = I80F48::from_bits(ONE << 40);
        b.push(a);
        bk.push(k);
    }
    let o = vec![stub_oracle(0, q(1, 1)).0, stub_oracle(1, if kind == 2 { q(1, 2) } else { q(1, 1) }).0];
    bk[1].stable_price_model.stable_price = 1.0;
    let tok = if kind == 4 { 0 } else { 1 };
    let (mi, m) = zc::<MintInfo>(key(K_MINTINFO, 1));
    m.group = key(K_GROUP, 0);
    m.token_index = tok;
    m.group_insurance_fund = if kind == 3 { 0 } else { 1 };
    m.banks = [Pubkey::default(); 6];
    if tok == 1 { m.banks[0] = *b[1].key; m.banks[1] = *b[2].key; } else { m.banks[0] = *b[0].key; }
    let iv = token_account(key(K_INSURANCE, 0), key(K_MINT, 0), key(K_GROUP, 0), fund);
    let qv = vault(0, 1 << 40);
    W { g, gr, e, r, b, bk, o, mi, m, iv, qv, tok }
}
fn accounts(w: &W) -> Vec<Ai> {
    let mut x = vec![w.g.clone(), w.r.a.clone(), signer(&ai_plain(key(K_OWNER, 1))), w.e.a.clone(), w.mi.clone(), w.qv.clone(), w.iv.clone(), token_program()];
    if w.tok == 1 { x.push(w.b[1].clone()); x.push(w.b[2].clone()); } else { x.push(w.b[0].clone()); }
    x.push(w.b[0].clone());
    x.push(w.b[1].clone());
    x.extend(w.o.iter().cloned());
    x
}
fn liq(x: &[Ai], max: I80F48) -> bool {
    ok(crate::__private::__global::token_liq_bankruptcy(&crate::ID, x, &args(crate::instruction::TokenLiqBankruptcy { max_liab_transfer: max })))
}
fn run(kind: u32) {
    let real = kind == 5;
    let fund = if real { [0u64, 7, 5000, 1 << 19, 1 << 31][case("fund", 5) as usize] } else { in_u64("fund", 0, 1 << 40) };
    let mut w = world(kind, fund);
    // insurance per debt
    let f = [(1, 1), (2, 1), (1, 2), (1, 1), (1, 1), (17, 16)][kind as usize];
    let d0 = if real { q([1, 3001, 100_000, 1 << 30][case("debt", 4) as usize] * 2 + 1, 2) } else { in_fx("debt", 1, ONE << 38) };
    let t = w.tok as usize;
    let el = w.e.set_token(0, w.tok, -d0);
    // how much of the debt the first bank's borrows can take
    let split = real || (case("first_bank", 2) == 0 && t == 1);
    if split { w.bk[1].indexed_borrows = q(1000, 1); }
    let max = in_fx("max", -(ONE << 20), ONE << 40);
    let ri = w.r.set_token(0, 0, I80F48::from_bits(ONE << 60));
    let rl = w.r.set_token(1, 1, I80F48::from_bits(if real { ONE << 37 } else { 0 }));
    let (ri0, rl0) = (ri.indexed_position, rl.indexed_position);
    let being = !real && case("being_liquidated", 2) == 1;
    w.e.fixed().set_being_liquidated(being);
    let s: Vec<BankBefore> = w.bk.iter().map(|b| snap(b)).collect();
    let (l0, di0) = (exact(-d0, w.bk[t]), w.bk[t].deposit_index);
    let done = liq(&accounts(&w), max);
    if !done {
        check(false, "bankrupt accounts can be liquidated");
        return;
    }
    let l1 = exact(el.indexed_position, w.bk[t]);
    let debt = -l0;
    let avail = if kind == 3 { 0 } else { fund };
    let m = debt.min(fx96(max));
    // ceil(m * f), the product cut to the fixed point precision
    let m48 = m.div_floor(Z::s(ONE)) * Z::s(f.0);
    let cost = -((-(m48.div_floor(Z::s(f.1)))).div_floor(Z::s(ONE)));
    let want = cost.min(Z::u(avail as u128));
    let paid = Z::u(fund as u128) - Z::u(token_amount(&w.iv) as u128);
    check(paid.eq(want), "the insurance fund pays the debt at the oracle price plus fee, up to the maximum and the fund");
    check((Z::u(token_amount(&w.qv) as u128) - Z::u(1 << 40)).eq(paid), "the fund's payment arrives in the bank's vault");
    let small = Z::pow2(56);
    let near = |x: Z, y: Z, t: Z| and((x - y).le(t), (y - x).le(t));
    let transfer = paid * one96() * Z::s(f.1);   // times f.0
    if t == 1 {
        let gain = exact(ri.indexed_position, w.bk[0]) - exact(ri0, w.bk[0]);
        check(near(gain, paid * one96(), small), "the liquidator is credited what the fund pays");
    } else { check(ri.indexed_position == ri0, "the liquidator is not involved in insurance token bankruptcies"); }
    let exhausted = paid.eq(Z::u(avail as u128));
    // debt left after the insurance payment (a payment rounds up to a native unit; less than a native unit left over is dusted)
    let left = (debt * Z::s(f.0) - transfer).max(zero());
    let social = and(exhausted, left.gt(small));
    // the liquidator's side of the debt
    if t == 1 {
        let fees = fx96(w.bk[1].collected_fees_native);
        // its deposits lose their share of a socialized loss: count in indexed units
        let di = Z::fx(di0);
        let pay = if !real { zero() - exact(rl.indexed_position, w.bk[1]) } else { (Z::fx(rl0) - Z::fx(rl.indexed_position)) * di };
        check(near((pay - fees) * Z::s(f.0), transfer, small * Z::s(32)), "the liquidator takes over the debt it is paid for");
        if kind == 1 { check(near(fees * Z::s(64), pay - fees, small * Z::s(64)), "the liquidator's loan pays the origination fee"); } else { check(fees.eq(zero()), "a liquidator without a loan pays no origination fee"); }
    }
    let di1 = w.bk[t].deposit_index;
    if t == 1 {
        check(w.bk[1].deposit_index == w.bk[2].deposit_index, "all banks of a token keep the same deposit index");
        check(and(w.bk[1].borrow_index == w.bk[2].borrow_index, w.bk[1].borrow_index == s[1].bi), "the borrow index is untouched");
    }
    let total = if real { Z::fx(w.bk[1].indexed_deposits) + Z::fx(w.bk[2].indexed_deposits) } else if t == 1 { Z::s(2 * (ONE << 41)) } else { Z::s(ONE << 41) };
    let drop = (Z::fx(di0) - Z::fx(di1)) * total * Z::s(f.0);
    let ulp = total * Z::s(2 * f.0);
    check(implies(social, and(near(drop, left, ulp + small * Z::s(32)), el.indexed_position == 0)), "the loss the fund cannot cover is spread over all deposits and clears the debt");
    check(implies(!exhausted, di1 == di0), "depositors lose nothing while the insurance fund can pay");
    check(drop.ge(zero()), "depositors never gain from a bankruptcy");
    check(implies(!exhausted, near(-l1 * Z::s(f.0), left, small * Z::s(32) + one96() * Z::s(f.0 * f.1))), "the debt not paid by the fund remains");
    check(l1.le(one96().max(Z::s(f.1) * one96())), "a bankruptcy leaves no credit beyond rounding");
    let e1 = l1 * Z::s(if kind == 2 { 1 } else { 2 }) * Z::s(10);      // health in 1/16 quote
    let flag = w.e.fixed().being_liquidated();
    let slack = small * Z::s(16);
    check(implies(e1.gt(-(one96() * Z::s(16)) + slack), !flag), "accounts without debt are released");
    check(implies(e1.lt(-(one96() * Z::s(16)) - slack), flag), "accounts with debt stay marked as being liquidated");
    // books, in indexed units
    let net = |b: &Bank, s: &BankBefore| Z::fx(b.indexed_deposits) - Z::fx(s.dep) - Z::fx(b.indexed_borrows) + Z::fx(s.bor);
    let dl = Z::fx(el.indexed_position) + Z::fx(d0) + if t == 1 { Z::fx(rl.indexed_position) - Z::fx(rl0) } else { zero() };
    if t == 1 {
        check((net(w.bk[1], &s[1]) + net(w.bk[2], &s[2])).eq(dl), "the banks' totals follow the positions");
        check_totals(w.bk[0], &s[0], Z::fx(ri.indexed_position) - Z::fx(ri0));
        check(implies(paid.eq(zero()), and(w.bk[1].indexed_borrows >= 0, w.bk[2].indexed_borrows >= 0)), "socialized debt is only taken off the borrows a bank has");
    } else { check(net(w.bk[0], &s[0]).eq(dl), "the banks' totals follow the positions"); }
    if social { reach("socialized"); } else if l1.ge(-small) { reach("covered"); } else { reach("partial"); }
}
#[no_mangle]
pub extern "C" fn h_a0() { run(0) }
#[no_mangle]
pub extern "C" fn h_a1() { run(1) }
#[no_mangle]
pub extern "C" fn h_a2() { run(2) }
#[no_mangle]
pub extern "C" fn h_a3() { run(3) }
#[no_mangle]
pub extern "C" fn h_same() { run(4) }
#[no_mangle]
pub extern "C" fn h_real() { run(5) }
#[no_mangle]
pub extern "C" fn h_liqor() {
    let w = world(0, 10_000);
    w.e.set_token(0, 1, q(-10_000, 1));
    let (i0, l0) = (in_fx("insurance_token", -(ONE << 30), ONE << 30), in_fx("debt_token", -(ONE << 30), ONE << 30));
    w.r.set_token(0, 0, i0).in_use_count = 1;
    w.r.set_token(1, 1, l0).in_use_count = 1;
    let region = case("health_region", 2) == 1;
    w.r.fixed().set_in_health_region(region);
    let done = liq(&accounts(&w), q(10_000, 1));
    let v = |x: Z| x * Z::ite(x.ge(zero()), Z::s(6), Z::s(10));
    let h = v(Z::fx(i0) + Z::s(10_000 * ONE)) + v(Z::fx(l0) - Z::s(10_000 * ONE));
    let tol = Z::s(ONE / 1024);
    if region { check(done, "liquidators in a health region are checked at its end"); } else {
        check(implies(h.lt(-tol), !done), "the liquidator must be healthy afterwards");
        check(implies(h.gt(tol), done), "healthy liquidators can liquidate");
    }
    if done { reach("ok"); } else { reach("refused"); }
}
#[no_mangle]
pub extern "C" fn h_auth() {
    let mut w = world(0, 10_000);
    w.e.set_token(0, 1, q(-10_000, 1));
    w.r.set_token(0, 0, q(100_000, 1));
    w.r.set_token(1, 1, q(100_000, 1));
    let mut x = accounts(&w);
    let g2 = key(K_OTHER, 9);
    match case("wrong", 24) {
        0 => { x[1] = w.e.a.clone(); x[2] = signer(&ai_plain(key(K_OWNER, 0))); }
        1 => x[2] = ai_plain(key(K_OWNER, 1)),
        2 => x[2] = signer(&ai_plain(key(K_OWNER, 0))),
        3 => w.e.fixed().group = g2,
        4 => w.r.fixed().group = g2,
        5 => w.e.fixed().frozen_until = NOW + 1,
        6 => w.r.fixed().frozen_until = NOW + 1,
        7 => w.r.fixed().set_being_liquidated(true),
        8 => w.gr.ix_gate = 1 << (IxGate::TokenLiqBankruptcy as u32),
        9 => w.m.group = g2,
        10 => w.gr.insurance_vault = key(K_OTHER, 1),
        11 => x[5] = token_account(key(K_OTHER, 2), key(K_MINT, 0), key(K_GROUP, 0), 0),
        12 => { w.e.set_token(1, 0, q(5, 1)); }
        13 => { w.e.set_token(0, 1, q(10_000, 1)); }
        14 => { x.remove(9); }
        15 => { let y = x[8].clone(); x[9] = y; }
        16 => { let y = x[8].clone(); x[8] = x[9].clone(); x[9] = y; }
        k @ 17..=22 => {
            let p = w.e.set_perp(0, 0, 0, I80F48::ZERO);
            match k {
                17 => p.base_position_lots = 1,
                18 => p.base_position_lots = -1,
                19 => p.taker_base_lots = 1,
                20 => p.taker_quote_lots = -1,
                21 => p.quote_position_native = q(5, 1),
                _ => p.bids_base_lots = 1,
            }
            let (pm, _) = perp_market(0);
            x.push(pm);
            x.push(stub_oracle(32, I80F48::ONE).0);
        }
        _ => { w.m.token_index = 0; }
    }
    check(!liq(&x, q(10, 1)), "unauthorized or impossible liquidations are refused");
    reach("refused");
}
