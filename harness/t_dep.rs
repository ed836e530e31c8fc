use super::api::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;
#[no_mangle]
pub extern "C" fn h_deposit() {
    begin();
    set_clock(1_700_000_000, 1000);
    let (g, _gr) = group();
    let (b, bk) = bank(0);
    let (o, _) = stub_oracle(0, I80F48::ONE);
    let v = vault(0, sym_u64("vault"));
    let acc = mango_account(0, 2, 0, 0, 0, 0);
    let t = acc.set_token(0, 0, in_fx("pos", -(ONE << 60), ONE << 60));
    bk.deposit_index = in_fx("di", ONE, ONE << 20);
    bk.borrow_index = in_fx("bi", ONE, ONE << 20);
    bk.indexed_deposits = in_fx("idep", 0, ONE << 62);
    bk.indexed_borrows = in_fx("ibor", 0, ONE << 62);
    let owner = signer(&ai_plain(key(K_OWNER, 0)));
    let ta = token_account(key(K_TOKACC, 0), key(K_MINT, 0), key(K_OWNER, 0), sym_u64("bal"));
    let amount = sym_u64("amount");
    let (v0, t0) = (token_amount(&v), token_amount(&ta));
    let before = t.native(bk);
    let (d0, b0) = (bk.indexed_deposits, bk.indexed_borrows);
    let accs = [g.clone(), acc.a.clone(), owner.clone(), b.clone(), v.clone(), o.clone(), ta.clone(), owner.clone(), token_program(), b.clone(), o.clone()];
    let data = args(crate::instruction::TokenDeposit { amount, reduce_only: false });
    let r = crate::__private::__global::token_deposit(&crate::ID, &accs, &data);
    if !ok(r) { return; }
    reach("ok");
    check(token_amount(&v) - v0 == amount, "vault");
    check(t0 - token_amount(&ta) == amount, "from");
    let after = t.native(bk);
    check((Z::fx(before) + Z::u(amount as u128) * Z::s(ONE)).le(Z::fx(after)), "credited");
    check((Z::fx(bk.indexed_deposits) - Z::fx(d0) - Z::fx(bk.indexed_borrows) + Z::fx(b0)).ge(Z::s(0)), "x");
}
