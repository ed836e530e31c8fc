// P01: perp fills
//@mod spec
//@fn h_fill reach=bought,sold : consume a fill event: maker and taker positions (0,0), (40,-40), (-40,40), (40,40) lots, quantity 1, 40, 41, 2^20, price 1, 999, 2^20, quote +-2^40, fee -1/2048, 0 or 1/1024, both sides
//@fn h_fill_price reach=bought,sold : fills that grow both positions at any price 1..2^20
//@fn h_fill_position reach=ok : any maker and taker base positions +-2^20, price 1, quantity 1, 3, average entry prices 0 (no earlier trade)
//@fn h_self reach=ok : the same account on both sides, prices 1, 999, 2^20
//@fn h_order reach=out,kept,stale : the maker's order slot: order id matching or not, maker_out or not, old fills without id
//@fn h_out reach=freed,stale : out events: slot active or not, order id matching or not, quantity any
//@fn h_funding reach=ok : fills settle funding first: funding indexes +-2^20 per lot (native), positions +-3
//@fn h_queue reach=some,none,missing : consuming up to the limit of three queued events; events whose account is missing stay queued
//@fn h_auth reach=refused : other market's queue, other group's market, foreign account
//@assume the positions' f64 statistics (average entry price and the like) are not specified here
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
fn fx(b: i128) -> I80F48 { I80F48::from_bits(b) }
pub struct W { g: Ai, gr: &'static mut Group, m: Ta, t: Ta, pm: Ai, pk: &'static mut PerpMarket, q: Ai, qk: &'static mut EventQueue }
type Ta = Ma;
fn world() -> W {
    begin();
    set_clock(NOW, 1000);
    let (g, gr) = group();
    let m = mango_account(0, 2, 0, 2, 3, 0);
    let t = mango_account(1, 2, 0, 2, 3, 0);
    let (pm, pk) = perp_market(0);
    let (q, qk) = zc::<EventQueue>(key(K_EVENTS, 0));
    W { g, gr, m, t, pm, pk, q, qk }
}
fn push(w: &mut W, e: AnyEvent) { if w.qk.push_back(e).is_err() { check(false, "a queue with room takes events"); } }
fn fill(taker_side: Side, out: bool, slot: u8, maker: u8, taker: u8, order_id: u128, fee: I80F48, price: i64, quantity: i64) -> AnyEvent {
    let f = FillEvent::new(taker_side, out, slot, NOW, 1, key(K_ACCOUNT, maker), order_id, 0, fee, NOW, key(K_ACCOUNT, taker), 0, I80F48::ZERO, price, quantity);
    unsafe { std::mem::transmute(f) }
}
fn consume(w: &W, limit: usize, a: &[Ai]) -> bool {
    let mut x = vec![w.g.clone(), w.pm.clone(), w.q.clone()];
    x.extend(a.iter().cloned());
    ok(crate::__private::__global::perp_consume_events(&crate::ID, &x, &args(crate::instruction::PerpConsumeEvents { limit: limit as u64 as usize })))
}
fn zl(x: i64) -> Z { Z::s(x as i128) }
struct Snap { base: i64, quote: I80F48, bids: i64, asks: i64, tb: i64, tq: i64, long: I80F48, short: I80F48 }
fn snap_p(p: &PerpPosition) -> Snap { Snap { base: p.base_position_lots, quote: p.quote_position_native, bids: p.bids_base_lots, asks: p.asks_base_lots, tb: p.taker_base_lots, tq: p.taker_quote_lots, long: p.long_settled_funding, short: p.short_settled_funding } }
fn trade(w: &mut W, mb: i64, tb: i64, price: i64, quantity: i64, fee: I80F48, slot: u8, bid: bool) {
    let side = if bid { Side::Bid } else { Side::Ask };
    let mp = w.m.set_perp(1, 0, mb, in_fx("maker_quote", -(ONE << 40), ONE << 40));
    let tp = w.t.set_perp(0, 0, tb, in_fx("taker_quote", -(ONE << 40), ONE << 40));
    mp.bids_base_lots = in_i64("maker_bids", 1 << 24, 1 << 30);
    mp.asks_base_lots = in_i64("maker_asks", 1 << 24, 1 << 30);
    tp.taker_base_lots = in_i64("taker_base", -(1 << 30), 1 << 30);
    tp.taker_quote_lots = in_i64("taker_quote_lots", -(1 << 50), 1 << 50);
    w.pk.open_interest = 1 << 40;
    let (ms, ts, oi0) = (snap_p(mp), snap_p(tp), w.pk.open_interest);
    push(w, fill(side, false, slot, 0, 1, 7, fee, price, quantity));
    if !consume(w, 4, &[w.m.a.clone(), w.t.a.clone()]) { check(false, "fills can be consumed"); return; }
    let (qty, cost) = (zl(quantity), zl(quantity) * zl(price));
    let s = if bid { Z::s(1) } else { Z::s(-1) };
    check((zl(tp.base_position_lots) - zl(ts.base)).eq(s * qty), "the taker's base position moves by the quantity");
    check((zl(mp.base_position_lots) - zl(ms.base)).eq(-(s * qty)), "the maker's base position moves the other way");
    let native = cost * Z::s(10 * ONE);
    check((Z::fx(tp.quote_position_native) - Z::fx(ts.quote)).eq(-(s * native)), "the taker pays price times quantity");
    let mfee = (native * Z::fx(fee)).div_floor(Z::s(ONE));
    check((Z::fx(mp.quote_position_native) - Z::fx(ms.quote)).eq(s * native - mfee), "the maker receives price times quantity minus the maker fee");
    let abs = |x: i64| zl(x).abs();
    check((zl(w.pk.open_interest) - zl(oi0)).eq(abs(mp.base_position_lots) - abs(ms.base) + abs(tp.base_position_lots) - abs(ts.base)), "open interest follows the positions");
    check(and((zl(ts.tb) - zl(tp.taker_base_lots)).eq(s * qty), (zl(ts.tq) - zl(tp.taker_quote_lots)).eq(-(s * cost))), "the pending taker trade is removed");
    check((if bid { and((zl(ms.asks) - zl(mp.asks_base_lots)).eq(qty), mp.bids_base_lots == ms.bids) } else { and((zl(ms.bids) - zl(mp.bids_base_lots)).eq(qty), mp.asks_base_lots == ms.asks) }), "the filled quantity leaves the maker's open order lots");
    check(and(tp.bids_base_lots == 0, tp.asks_base_lots == 0), "the taker's open orders are untouched");
    check(and(w.qk.is_empty(), true), "a processed event leaves the queue");
    if bid { reach("bought"); } else { reach("sold"); }
    reach("ok");
}
fn any_fee() -> I80F48 { match case("fee", 3) { 0 => fx(0), 1 => fx(ONE / 1024), _ => fx(-ONE / 2048) } }
#[no_mangle]
pub extern "C" fn h_fill() {
    let mut w = world();
    let (mb, tb) = match case("bases", 4) { 0 => (0, 0), 1 => (40, -40), 2 => (-40, 40), _ => (40, 40) };
    let fee = any_fee();
    let quantity = [1i64, 40, 41, 1 << 20][case("quantity", 4) as usize];
    let price = [1i64, 999, 1 << 20][case("prices", 3) as usize];
    trade(&mut w, mb, tb, price, quantity, fee, 0, case("taker_side", 2) == 0);
}
#[no_mangle]
pub extern "C" fn h_fill_price() {
    let mut w = world();
    let bid = case("taker_side", 2) == 0;
    let fee = any_fee();
    // both positions grow: reducing one goes through its f64 entry price
    let b = if bid { 40 } else { -40 };
    let q = [1i64, 40, 1 << 20][case("quantity", 3) as usize];
    trade(&mut w, -b, b, in_i64("price", 1, 1 << 20), q, fee, 0, bid);
}
#[no_mangle]
pub extern "C" fn h_fill_position() {
    let mut w = world();
    let q = 1 + 2 * case("quantity", 2) as i64;
    let (mb, tb) = (in_i64("maker_base", -(1 << 20), 1 << 20), in_i64("taker_base_position", -(1 << 20), 1 << 20));
    trade(&mut w, mb, tb, 1, q, fx(ONE / 1024), 0, case("taker_side", 2) == 0);
}
#[no_mangle]
pub extern "C" fn h_self() {
    let mut w = world();
    let bid = case("taker_side", 2) == 0;
    let p = [0i64, 3, -3, 40];
    let b = p[case("base", 4) as usize];
    let mp = w.m.set_perp(1, 0, b, in_fx("quote", -(ONE << 40), ONE << 40));
    let (price, quantity) = ([1i64, 999, 1 << 20][case("price", 3) as usize], [1i64, 3, 4, 1 << 10][case("quantity", 4) as usize]);
    mp.bids_base_lots = 1 << 20;
    mp.asks_base_lots = 1 << 20;
    w.pk.open_interest = 100;
    let s = snap_p(mp);
    push(&mut w, fill(if bid { Side::Bid } else { Side::Ask }, false, 0, 0, 0, 7, fx(ONE / 1024), price, quantity));
    if !consume(&w, 4, &[w.m.a.clone()]) { check(false, "fills can be consumed"); return; }
    let native = zl(quantity) * zl(price) * Z::s(10 * ONE);
    check(mp.base_position_lots == s.base, "a self trade leaves the base position");
    check((Z::fx(s.quote) - Z::fx(mp.quote_position_native)).eq((native * Z::s(ONE / 1024)).div_floor(Z::s(ONE))), "a self trade costs the maker fee");
    check(w.pk.open_interest == 100, "a self trade leaves the open interest");
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_order() {
    let mut w = world();
    let out = case("maker_out", 2) == 1;
    let which = case("order_id", 3);
    let slot = 2 * case("slot", 2) as u8;
    let mp = w.m.set_perp(0, 0, 0, I80F48::ZERO);
    mp.asks_base_lots = 100;
    w.t.set_perp(0, 0, 0, I80F48::ZERO);
    for i in 0..3 {
        let o = w.m.perp_oo(i);
        *o = PerpOpenOrder::default();
        o.market = 0;
        o.id = 7 + i as u128;
        o.quantity = 50;
        o.side_and_tree = SideAndOrderTree::AskFixed.into();
    }
    let id = match which { 0 => 7 + slot as u128, 1 => 99, _ => 0 };
    let q = [1i64, 49, 50, 60][case("quantity", 4) as usize];
    push(&mut w, fill(Side::Bid, out, slot, 0, 1, id, I80F48::ZERO, 5, q));
    if !consume(&w, 1, &[w.m.a.clone(), w.t.a.clone()]) { check(false, "fills can be consumed"); return; }
    let o = w.m.perp_oo(slot as usize);
    let matches = which != 1;
    check((o.market == PerpMarketIndex::MAX) == and(matches, out), "a completely filled order's slot is freed, and only that");
    check(implies(and(matches, !out), o.quantity == (50 - q).max(0)), "the order keeps its unfilled quantity");
    check(implies(!matches, o.quantity == 50), "an order placed later in the slot is not touched");
    for i in 0..3 { if i != slot as usize { let x = w.m.perp_oo(i); check(and(x.market == 0, and(x.id == 7 + i as u128, x.quantity == 50)), "other orders are not touched"); } }
    check(mp.asks_base_lots == 100 - q, "filled lots leave the open order lots in any case");
    if !matches { reach("stale"); } else if out { reach("out"); } else { reach("kept"); }
}
#[no_mangle]
pub extern "C" fn h_out() {
    let mut w = world();
    let bid = case("side", 2) == 0;
    let active = case("active", 3);
    let which = case("order_id", 3);
    let mp = w.m.set_perp(0, 0, 0, I80F48::ZERO);
    mp.bids_base_lots = 1 << 40;
    mp.asks_base_lots = 1 << 40;
    let o = w.m.perp_oo(2);
    *o = PerpOpenOrder::default();
    o.id = 7;
    o.quantity = 50;
    match active { 0 => {} 1 => o.market = 0, _ => o.market = 1 }
    let id = match which { 0 => 7u128, 1 => 8, _ => 0 };
    let q = in_i64("quantity", 0, 1 << 40);
    let e = OutEvent::new(if bid { Side::Bid } else { Side::Ask }, 2, NOW, 1, key(K_ACCOUNT, 0), q, id);
    push(&mut w, unsafe { std::mem::transmute(e) });
    if !consume(&w, 1, &[w.m.a.clone()]) { check(false, "out events can be consumed"); return; }
    check(and(mp.bids_base_lots == if bid { (1 << 40) - q } else { 1 << 40 }, mp.asks_base_lots == if bid { 1 << 40 } else { (1 << 40) - q }), "the lots taken off the book leave the open order lots of their side");
    let free = and(active == 1, which != 1);
    check((o.market == PerpMarketIndex::MAX) == or(active == 0, free), "only the order the event is about is freed");
    check(and(mp.base_position_lots == 0, mp.quote_position_native.is_zero()), "an out event trades nothing");
    if free { reach("freed"); } else { reach("stale"); }
}
#[no_mangle]
pub extern "C" fn h_funding() {
    let mut w = world();
    let p = [0i64, 3, -3];
    let (mb, tb) = (p[case("maker_base", 3) as usize], p[case("taker_base", 3) as usize]);
    w.pk.long_funding = in_fx("long_funding", -(ONE << 20), ONE << 20);
    w.pk.short_funding = in_fx("short_funding", -(ONE << 20), ONE << 20);
    let mp = w.m.set_perp(0, 0, mb, I80F48::ZERO);
    let tp = w.t.set_perp(1, 0, tb, I80F48::ZERO);
    for x in [&mut *mp, &mut *tp] { x.long_settled_funding = fx(ONE * 3); x.short_settled_funding = fx(-ONE * 2); }
    mp.asks_base_lots = 100;
    push(&mut w, fill(Side::Bid, false, 0, 0, 1, 7, I80F48::ZERO, 5, 2));
    if !consume(&w, 1, &[w.m.a.clone(), w.t.a.clone()]) { check(false, "fills can be consumed"); return; }
    let owed = |b: i64| if b > 0 { zl(b) * (Z::fx(w.pk.long_funding) - Z::s(3 * ONE)) } else if b < 0 { zl(b) * (Z::fx(w.pk.short_funding) + Z::s(2 * ONE)) } else { zero() };
    check(Z::fx(mp.quote_position_native).eq(Z::s(100 * ONE) - owed(mb)), "the maker's funding is settled on the old position");
    check(Z::fx(tp.quote_position_native).eq(Z::s(-100 * ONE) - owed(tb)), "the taker's funding is settled on the old position");
    for x in [&*mp, &*tp] { check(and(x.long_settled_funding == w.pk.long_funding, x.short_settled_funding == w.pk.short_funding), "funding is settled once"); check(x.unsettled_funding(w.pk).is_zero(), "nothing is left to settle"); }
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_queue() {
    let mut w = world();
    let mp = w.m.set_perp(0, 0, 0, I80F48::ZERO);
    let tp = w.t.set_perp(0, 0, 0, I80F48::ZERO);
    mp.bids_base_lots = 1000;
    tp.bids_base_lots = 1000;
    // the queue wraps around
    w.qk.header.set_head([0, 487, 486][case("head", 3) as usize]);
    let out = |o: u8, q: i64| -> AnyEvent { unsafe { std::mem::transmute(OutEvent::new(Side::Bid, 0, NOW, 1, key(K_ACCOUNT, o), q, 7)) } };
    push(&mut w, out(0, 1));
    push(&mut w, out(1, 10));
    push(&mut w, out(0, 100));
    check(w.qk.header.seq_num == 3, "events are numbered");
    let limit = case("limit", 5) as usize;
    let missing = case("missing", 2) == 1;
    let a = if missing { vec![w.m.a.clone()] } else { vec![w.m.a.clone(), w.t.a.clone()] };
    if !consume(&w, limit, &a) { check(false, "events can be consumed"); return; }
    let n = if missing { limit.min(1) } else { limit.min(3) };
    check(w.qk.len() == 3 - n, "events are consumed in order up to the limit, none is lost");
    check(and(mp.bids_base_lots == 1000 - if n >= 1 { 1 } else { 0 } - if n >= 3 { 100 } else { 0 }, tp.bids_base_lots == 1000 - if n >= 2 { 10 } else { 0 }), "each consumed event took effect once");
    if missing { reach("missing"); } else if n == 0 { reach("none"); } else { reach("some"); }
}
#[no_mangle]
pub extern "C" fn h_auth() {
    let mut w = world();
    w.m.set_perp(0, 0, 0, I80F48::ZERO).bids_base_lots = 1000;
    let e = OutEvent::new(Side::Bid, 0, NOW, 1, key(K_ACCOUNT, 0), 5, 7);
    push(&mut w, unsafe { std::mem::transmute(e) });
    let mut a = w.m.a.clone();
    match case("how", 5) {
        0 => w.pk.event_queue = key(K_EVENTS, 1),
        1 => w.pk.group = key(K_GROUP, 1),
        2 => a.owner = leak(key(K_OTHER, 1)),
        3 => w.gr.ix_gate = 1 << (IxGate::PerpConsumeEvents as u32),
        _ => w.pk.perp_market_index = 3,
    }
    check(!consume(&w, 1, &[a]), "events are consumed for their own market only");
    check(and(w.m.perp(0).bids_base_lots == 1000, w.qk.len() == 1), "refusal has no effect");
    reach("refused");
}
