// A01: the layout of a mango account: positions, slots, resizing
//@fn h_resize_active reach=kept,refused : 3 token, 1 serum, 2 perp, 2 perp order, 1 conditional swap slots, every pattern of active slots, three target sizes; every slot content
//@fn h_resize_sizes reach=kept,refused : every change of each of the five counts by -1 or +1, two patterns of active slots; every slot content
//@fn h_limits reach=allowed,refused : every pair of old and new slot counts
//@fn h_token reach=found,created,full : a position of any token index among three slots with any indexes
//@fn h_perp reach=found,created,full,unsettled : a perp position of any market among two slots
//@fn h_serum reach=created,exists,full : serum orders of any market among two slots
//@fn h_orders reach=ok,free : adding and removing a perp order, any quantity
//@fn h_buyback reach=ok : fee accrual, expiry and use over any times and amounts up to 2^40
use super::api::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;
use std::mem::size_of;

#[derive(Clone, Copy)]
struct Cnt { t: u8, s: u8, p: u8, o: u8, c: u8 }
fn spc(c: Cnt) -> usize { MangoAccount::space(c.t, c.s, c.p, c.o, c.c) }
/// offsets of the first slot of each kind, from the start of the account
fn offs(c: Cnt) -> [usize; 5] {
    let b = 8 + size_of::<MangoAccountFixed>();
    [b + MangoAccount::dynamic_token_vec_offset() + 4, b + MangoAccount::dynamic_serum3_vec_offset(c.t) + 4, b + MangoAccount::dynamic_perp_vec_offset(c.t, c.s) + 4,
     b + MangoAccount::dynamic_perp_oo_vec_offset(c.t, c.s, c.p) + 4, b + MangoAccount::dynamic_token_conditional_swap_vec_offset(c.t, c.s, c.p, c.o) + 4]
}
const SZ: [usize; 5] = [size_of::<TokenPosition>(), size_of::<Serum3Orders>(), size_of::<PerpPosition>(), size_of::<PerpOpenOrder>(), size_of::<TokenConditionalSwap>()];
fn n_of(c: Cnt) -> [usize; 5] { [c.t as usize, c.s as usize, c.p as usize, c.o as usize, c.c as usize] }
fn loader(a: &Ai) -> &'static AccountLoader<'static, MangoAccountFixed> { leak(AccountLoader::try_from_unchecked(&crate::ID, leak(a.clone())).unwrap()) }
fn at(a: &Ai, off: usize) -> *mut u8 { unsafe { (a.data.borrow().as_ptr() as *mut u8).add(off) } }
fn ld(p: *const u8) -> u64 { unsafe { std::ptr::read_unaligned(p as *const u64) } }
unsafe fn st(p: *mut u8, v: u64) { std::ptr::write_unaligned(p as *mut u64, v) }
fn set_active(k: usize, p: *mut u8, on: bool, i: u16) {
    unsafe {
        match k {
            0 => (*(p as *mut TokenPosition)).token_index = if on { 5 + i } else { TokenIndex::MAX },
            1 => (*(p as *mut Serum3Orders)).market_index = if on { 5 + i } else { Serum3MarketIndex::MAX },
            2 => (*(p as *mut PerpPosition)).market_index = if on { 5 + i } else { PerpMarketIndex::MAX },
            3 => (*(p as *mut PerpOpenOrder)).market = if on { 5 } else { PerpMarketIndex::MAX },
            _ => (*(p as *mut TokenConditionalSwap)).is_configured = on as u8,
        }
    }
}
fn default_bytes(k: usize) -> Vec<u8> {
    match k {
        0 => bytemuck::bytes_of(&TokenPosition::default()).to_vec(),
        1 => bytemuck::bytes_of(&Serum3Orders::default()).to_vec(),
        2 => bytemuck::bytes_of(&PerpPosition::default()).to_vec(),
        3 => bytemuck::bytes_of(&PerpOpenOrder::default()).to_vec(),
        _ => bytemuck::bytes_of(&TokenConditionalSwap::default()).to_vec(),
    }
}
fn resize(old: Cnt, new: Cnt, active: &dyn Fn(usize, usize) -> bool) {
    let cap = spc(old).max(spc(new));
    let a = ai(key(K_ACCOUNT, 0), crate::ID, leak_bytes(cap));
    { let mut l = loader(&a).load_full_init().unwrap(); l.resize_dynamic_content(old.t, old.s, old.p, old.o, old.c).unwrap(); }
    let (oo, on, nn) = (offs(old), n_of(old), n_of(new));
    let mut keep: Vec<Vec<(usize, Vec<u64>)>> = vec![];
    let mut fits = true;
    for k in 0..5 {
        let mut ks = vec![];
        let mut next = 0;
        for i in 0..on[k] {
            let p = at(&a, oo[k] + i * SZ[k]);
            for w in 0..SZ[k] / 8 { unsafe { st(p.add(8 * w), sym_u64("w")) } }
            let act = active(k, i);
            set_active(k, p, act, i as u16);
            if act {
                let mut c = vec![];
                for w in 0..SZ[k] / 8 { c.push(ld(at(&a, oo[k] + i * SZ[k] + 8 * w))); }
                // perp orders keep their slot, the others move to the front in order
                let to = if k == 3 { i } else { next };
                ks.push((to, c));
                if to >= nn[k] { fits = false; }
                next += 1;
            }
        }
        keep.push(ks);
    }
    let fixed_before: Vec<u64> = (0..size_of::<MangoAccountFixed>() / 8).map(|w| ld(at(&a, 8 + 8 * w))).collect();
    let done = { let mut l = loader(&a).load_full_mut().unwrap(); ok(l.resize_dynamic_content(new.t, new.s, new.p, new.o, new.c)) };
    check(done == fits, "a resize succeeds exactly if every active slot fits");
    if !done { reach("refused"); return; }
    let no = offs(new);
    for k in 0..5 {
        let d = default_bytes(k);
        check(u32::from_le_bytes(unsafe { *(at(&a, no[k] - 4) as *const [u8; 4]) }) as usize == nn[k], "the new slot counts are stored");
        for i in 0..nn[k] {
            let mut same = true;
            let src = keep[k].iter().find(|x| x.0 == i);
            // an inactive perp order slot in between is not cleared
            if k == 3 && src.is_none() && keep[3].iter().any(|x| x.0 > i) {
                unsafe { check((*(at(&a, no[3] + i * SZ[3]) as *const PerpOpenOrder)).market == PerpMarketIndex::MAX, "free slots stay free"); }
                continue;
            }
            for w in 0..SZ[k] / 8 {
                let have = ld(at(&a, no[k] + i * SZ[k] + 8 * w));
                let want = match src { Some(x) => x.1[w], None => ld(d[8 * w..].as_ptr()) };
                same = and(same, have == want);
            }
            if src.is_some() { check(same, "active slots keep their content"); } else { check(same, "other slots are empty"); }
        }
    }
    let same = (0..fixed_before.len()).all(|w| ld(at(&a, 8 + 8 * w)) == fixed_before[w]);
    check(same, "the fixed part is untouched");
    let end = no[4] + nn[4] * SZ[4];
    let z = (0..64 / 8).all(|w| ld(at(&a, end + 8 * w)) == 0);
    check(z, "the reserved bytes are zero");
    let h = loader(&a).load_full().unwrap();
    let hh = [h.header.token_count(), h.header.serum3_count(), h.header.perp_count(), h.header.perp_oo_count(), h.header.token_conditional_swap_count()];
    check(hh == nn, "the account reads back with the new counts");
    reach("kept");
}
#[no_mangle]
pub extern "C" fn h_resize_active() {
    begin();
    panic_is_violation("resizing cannot panic");
    let old = Cnt { t: 3, s: 1, p: 2, o: 2, c: 1 };
    let bits = case("active_low", 32) | case("active_high", 16) << 5;
    let bit = [[0usize, 1, 2], [3, 0, 0], [4, 5, 0], [6, 7, 0], [8, 0, 0]];
    let new = [Cnt { t: 2, s: 2, p: 1, o: 1, c: 2 }, Cnt { t: 4, s: 1, p: 3, o: 2, c: 1 }, Cnt { t: 1, s: 0, p: 2, o: 3, c: 0 }][case("target", 3) as usize];
    resize(old, new, &|k, i| bits >> bit[k][i] & 1 == 1);
}
#[no_mangle]
pub extern "C" fn h_resize_sizes() {
    begin();
    panic_is_violation("resizing cannot panic");
    let old = Cnt { t: 2, s: 2, p: 2, o: 2, c: 2 };
    let d = case("change", 32);
    let s = |i: u32| if d >> i & 1 == 1 { 3 } else { 1 };
    let new = Cnt { t: s(0), s: s(1), p: s(2), o: s(3), c: s(4) };
    let pat = case("pattern", 2);
    resize(old, new, &|k, i| if pat == 0 { (i == 1) != (k == 3) } else { k != 3 || i == 0 || d & 8 == 8 });
}
#[no_mangle]
pub extern "C" fn h_limits() {
    begin();
    panic_is_violation("checking limits cannot panic");
    let mk = |a: &'static str, b: &'static str, c: &'static str, d: &'static str, e: &'static str| MangoAccountDynamicHeader { token_count: sym_u8(a), serum3_count: sym_u8(b), perp_count: sym_u8(c), perp_oo_count: sym_u8(d), token_conditional_swap_count: sym_u8(e) };
    let (n, o) = (mk("nt", "ns", "np", "no", "nc"), mk("ot", "os", "op", "oo", "oc"));
    let h = |x: &MangoAccountDynamicHeader| 2 * x.token_count as u32 + x.serum3_count as u32 + 2 * x.perp_count as u32;
    let r = ok(n.check_resize_from(&o));
    let want = and(or(h(&n) <= h(&o), h(&n) <= 28), and(or(n.perp_oo_count <= o.perp_oo_count, n.perp_oo_count <= 64), or(n.token_conditional_swap_count <= o.token_conditional_swap_count, n.token_conditional_swap_count <= 64)));
    check(r == want, "an account grows only within the limits");
    if r { reach("allowed"); } else { reach("refused"); }
}
const NONE: u16 = u16::MAX;
#[no_mangle]
pub extern "C" fn h_token() {
    begin();
    panic_is_violation("looking up positions cannot panic");
    let m = mango_account(0, 3, 0, 1, 1, 0);
    let mut ix = [0u16; 3];
    for i in 0..3 { ix[i] = sym_u16("index"); m.set_token(i, ix[i], I80F48::from_bits(sym_i128("position"))).in_use_count = sym_u16("in_use"); }
    // no two slots have the same token
    assume(and(or(ix[0] != ix[1], ix[0] == NONE), and(or(ix[0] != ix[2], ix[0] == NONE), or(ix[1] != ix[2], ix[1] == NONE))));
    let want = in_u16("wanted", 0, NONE - 1);
    let before = [*m.token(0), *m.token(1), *m.token(2)];
    let r = with_acc_mut(&m, |a| match a.ensure_token_position(want) { Ok((p, raw, active)) => Some((p.token_index, p.indexed_position, p.in_use_count, raw, active)), Err(e) => { std::mem::forget(e); None } });
    let have = or(ix[0] == want, or(ix[1] == want, ix[2] == want));
    let free = or(ix[0] == NONE, or(ix[1] == NONE, ix[2] == NONE));
    match r {
        None => { check(and(!have, !free), "a position is refused only if no slot is free"); reach("full"); }
        Some((tix, pos, in_use, raw, active)) => {
            check(tix == want, "the position is of the wanted token");
            let mut n = 0;
            for i in 0..raw { n += and(ix[i] != NONE, true) as usize; }
            check(active == n, "the active index counts the active positions before");
            let found = ix[raw] == want;
            check(implies(have, found), "an existing position is found");
            check(implies(!found, ix[raw] == NONE), "a new position takes a free slot");
            check(implies(!found, and(pos.is_zero(), in_use == 0)), "a new position is empty");
            check(implies(found, and(pos == before[raw].indexed_position, in_use == before[raw].in_use_count)), "an existing position is not changed");
            for i in 0..3 { if i != raw { let t = m.token(i); check(and(t.token_index == ix[i], and(t.indexed_position == before[i].indexed_position, t.in_use_count == before[i].in_use_count)), "other positions are untouched"); } }
            if found { reach("found"); } else { reach("created"); }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_perp() {
    begin();
    let m = mango_account(0, 2, 0, 2, 1, 0);
    let full = case("token_slots_full", 2) == 1;
    m.set_token(0, if case("settle_token", 2) == 1 { 0 } else { 4 }, I80F48::ZERO).in_use_count = 3;
    if full { m.set_token(1, 9, I80F48::ZERO); }
    let ix = [[NONE, NONE], [1, NONE], [NONE, 1], [1, 2], [2, 3]][case("slots", 5) as usize];
    for i in 0..2 { m.set_perp(i, ix[i], 7 + i as i64, I80F48::from_bits(sym_i128("quote"))); }
    let before = [*m.perp(0), *m.perp(1)];
    let settle_ix = m.token(0).token_index;
    let r = with_acc_mut(&m, |a| match a.ensure_perp_position(1, 0) { Ok((p, raw)) => Some((p.market_index, p.quote_position_native, raw)), Err(e) => { std::mem::forget(e); None } });
    let have = ix[0] == 1 || ix[1] == 1;
    let free = ix[0] == NONE || ix[1] == NONE;
    let tfree = settle_ix == 0 || !full;
    match r {
        None => { check(!have && (!free || !tfree), "a perp position is refused only without room"); if free { reach("unsettled"); } else { reach("full"); } }
        Some((mi, q, raw)) => {
            check(mi == 1, "the perp position is of the wanted market");
            check(have || (free && tfree), "a perp position needs a slot for it and its settle token");
            let found = ix[raw] == 1;
            check(found == have, "an existing perp position is found");
            check(if found { q == before[raw].quote_position_native } else { q.is_zero() && m.perp(raw).base_position_lots == 0 }, "a new perp position is empty, an existing one is unchanged");
            check(m.perp(1 - raw).quote_position_native == before[1 - raw].quote_position_native, "the other perp position is untouched");
            let uses = (0..2).filter(|i| m.token(*i).token_index == 0).map(|i| m.token(i).in_use_count).sum::<u16>();
            let old = if settle_ix == 0 { 3 } else { 0 };
            check(uses == old + if found { 0 } else { 1 }, "each perp position holds its settle token position in use once");
            if found { reach("found"); } else {
                reach("created");
                let d = with_acc_mut(&m, |a| ok(a.deactivate_perp_position_and_log(1, 0, key(K_ACCOUNT, 0))));
                let uses = (0..2).filter(|i| m.token(*i).token_index == 0).map(|i| m.token(i).in_use_count).sum::<u16>();
                check(d && uses == old && m.perp(raw).market_index == NONE, "closing a perp position frees its slot and its hold on the settle token");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_serum() {
    begin();
    let m = mango_account(0, 1, 2, 0, 0, 0);
    let mut ix = [0u16; 2];
    for i in 0..2 { ix[i] = sym_u16("market"); let s = m.serum3(i); *s = Serum3Orders::default(); s.market_index = ix[i]; s.base_borrows_without_fee = sym_u64("borrows"); s.highest_placed_bid_inv = 2.0; }
    assume(or(ix[0] != ix[1], ix[0] == NONE));
    let want = in_u16("wanted", 0, NONE - 1);
    let before = [m.serum3(0).base_borrows_without_fee, m.serum3(1).base_borrows_without_fee];
    let r = with_acc_mut(&m, |a| match a.create_serum3_orders(want) { Ok(s) => Some((s.market_index, s.base_borrows_without_fee, s.quote_borrows_without_fee, s.potential_base_tokens + s.potential_quote_tokens, s.highest_placed_bid_inv)), Err(e) => { std::mem::forget(e); None } });
    let have = or(ix[0] == want, ix[1] == want);
    let free = or(ix[0] == NONE, ix[1] == NONE);
    check(r.is_some() == and(!have, free), "an account has at most one entry per serum market");
    match r {
        None => { if have { reach("exists"); } else { reach("full"); } }
        Some((mi, a, b, c, d)) => {
            check(and(and(mi == want, a == 0), and(b == 0, and(c == 0, d == 0.0))), "a new serum entry is empty");
            let i = if ix[0] == NONE { 1 } else { 0 };
            check(and(m.serum3(i).market_index == ix[i], m.serum3(i).base_borrows_without_fee == before[i]), "the other serum entry is untouched");
            let d = with_acc_mut(&m, |a| ok(a.deactivate_serum3_orders(want)));
            check(and(d, and(m.serum3(i).market_index == ix[i], m.serum3(1 - i).market_index == NONE)), "closing a serum entry frees its slot");
            reach("created");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_orders() {
    begin();
    let m = mango_account(0, 1, 0, 2, 2, 0);
    m.set_perp(0, 1, 0, I80F48::ZERO);
    m.set_perp(1, 0, 0, I80F48::ZERO);
    for i in 0..2 { *m.perp_oo(i) = PerpOpenOrder::default(); }
    let (b0, a0) = (in_i64("bids", 0, 1 << 40), in_i64("asks", 0, 1 << 40));
    let p = m.perp(1);
    p.bids_base_lots = b0;
    p.asks_base_lots = a0;
    let bid = case("side", 2) == 0;
    let side = if bid { Side::Bid } else { Side::Ask };
    let q = in_i64("quantity", 1, 1 << 40);
    let slot = case("slot", 2) as u8;
    let pegged = case("tree", 2) == 1;
    let tree = if pegged { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed };
    let leaf = LeafNode::new(slot, 77u128 << 64, key(K_ACCOUNT, 0), q, 5, PostOrderType::Limit, 0, -1, 99);
    check(with_acc_mut(&m, |a| ok(a.add_perp_order(0, side, tree, &leaf))), "an order can be recorded");
    check(and(p.bids_base_lots == b0 + if bid { q } else { 0 }, p.asks_base_lots == a0 + if bid { 0 } else { q }), "the order's lots are added to its side");
    let o = m.perp_oo(slot as usize);
    check(and(and(o.market == 0, o.id == 77u128 << 64), and(o.client_id == 99, o.quantity == q)), "the order is recorded in its slot");
    check(and(o.side_and_tree().side() == side, o.side_and_tree().order_tree() == tree), "the order's side and tree are recorded");
    check(m.perp_oo(1 - slot as usize).market == PerpMarketIndex::MAX, "other order slots are untouched");
    let q2 = in_i64("removed", 0, 1 << 40);
    check(with_acc_mut(&m, |a| ok(a.remove_perp_order(slot as usize, q2))), "a recorded order can be removed");
    check(and(p.bids_base_lots == b0 + if bid { q - q2 } else { 0 }, p.asks_base_lots == a0 + if bid { 0 } else { q - q2 }), "the lots removed are taken off its side");
    check(o.market == PerpMarketIndex::MAX, "the order's slot is free again");
    check(!with_acc_mut(&m, |a| ok(a.remove_perp_order(slot as usize, 0))), "a free slot has no order to remove");
    check(and(m.perp(0).bids_base_lots == 0, m.perp(0).asks_base_lots == 0), "positions in other markets are untouched");
    reach("ok");
    reach("free");
}
#[no_mangle]
pub extern "C" fn h_buyback() {
    begin();
    let m = mango_account(0, 1, 0, 0, 0, 0);
    let f = m.fixed();
    let (c, p) = (in_u64("current", 0, 1 << 40), in_u64("previous", 0, 1 << 40));
    let (now, iv) = (in_u64("now", 0, 1 << 40), [0u64, 1, 3600][case("interval", 3) as usize]);
    let exp = in_u64("expiry", 0, 1 << 40);
    f.buyback_fees_accrued_current = c;
    f.buyback_fees_accrued_previous = p;
    f.buyback_fees_expiry_timestamp = exp;
    f.expire_buyback_fees(now, iv);
    let total = f.buyback_fees_accrued();
    let want = if iv == 0 { c + p } else { if now < exp { c + p } else if now < exp + iv { c } else { 0 } };
    check(total == want, "fees expire one to two intervals after they accrue");
    check(implies(and(iv > 0, now >= exp), and(f.buyback_fees_expiry_timestamp > now, f.buyback_fees_expiry_timestamp <= now + iv)), "the next expiry is within an interval");
    let add = in_u64("accrued", 0, 1 << 40);
    f.accrue_buyback_fees(add);
    check(f.buyback_fees_accrued() == total + add, "accrued fees are added");
    let used = in_u64("used", 0, 1 << 41);
    if used <= total + add {
        panic_is_violation("using available fees cannot fail");
        f.reduce_buyback_fees_accrued(used);
        check(f.buyback_fees_accrued() == total + add - used, "used fees are gone");
        reach("ok");
    } else {
        f.reduce_buyback_fees_accrued(used);
        check(false, "more fees than available cannot be used");
    }
}
