// O02: matching a new perp order
//@mod spec
//@fn h_match_bid reach=filled,posted,nothing : a bid of each type against up to three asks (two fixed, one pegged; equal or different prices), every quantity up to 2^40, quote limit up to 2^48, limit prices better, at, between and beyond the resting prices, match limit 0, 1 or 10
//@fn h_match_ask reach=filled,posted,nothing : the same for asks
//@fn h_states reach=filled,expired,self,abort,cancelled : each of three resting orders live, expired, or of the taker itself, the pegged one within or beyond its peg limit; each self trade behaviour; IOC and limit order, any quantities
//@fn h_post reach=posted,refused,expired,kicked : posting with an expired own-side order in either tree, or onto a full side with better and worse orders in each tree, prices within the band
//@fn h_price reach=ok,refused : the price of every order type, any limit price, offset and best opposing price up to 2^40
use super::api::*;
use super::spec::*;
use super::world::*;
use crate::state::*;
use anchor_lang::prelude::*;
use fixed::types::I80F48;

const NOW: u64 = 1_700_000_000;
const F: BookSideOrderTree = BookSideOrderTree::Fixed;
const P: BookSideOrderTree = BookSideOrderTree::OraclePegged;
fn load<T: anchor_lang::ZeroCopy + anchor_lang::Owner>(a: &Ai) -> std::cell::RefMut<'static, T> {
    let l: &'static AccountLoader<'static, T> = leak(AccountLoader::try_from(leak(a.clone())).unwrap());
    l.load_mut().unwrap()
}
#[derive(Clone, Copy, PartialEq)]
enum Ty { Market, Ioc, Limit, PostOnly, Slide, Pegged }
#[derive(Clone, Copy)]
struct R { pegged: bool, price: i64, seq: u64, key: u128, q: i64, own: bool, expired: bool, invalid: bool }
struct W { m: Ma, pk: &'static mut PerpMarket, bids: Ai, asks: Ai, qk: &'static mut EventQueue }
fn world() -> W {
    begin();
    set_clock(NOW, 1000);
    let m = mango_account(0, 2, 0, 2, 3, 0);
    m.set_perp(1, 0, 0, I80F48::ZERO);
    let (_p, pk) = perp_market(0);
    pk.taker_fee = I80F48::from_bits(ONE / 1024);
    pk.maker_fee = I80F48::from_bits(-ONE / 2048);
    pk.fee_penalty = 5.0;
    pk.seq_num = 40;
    pk.maint_base_asset_weight = I80F48::from_bits(ONE / 4 * 3);
    pk.maint_base_liab_weight = I80F48::from_bits(ONE / 4 * 5);
    let (bids, b) = zc::<BookSide>(key(K_BIDS, 0));
    b.nodes.order_tree_type = 0;
    let (asks, a) = zc::<BookSide>(key(K_ASKS, 0));
    a.nodes.order_tree_type = 1;
    let (_q, qk) = zc::<EventQueue>(key(K_EVENTS, 0));
    W { m, pk, bids, asks, qk }
}
fn leaf(side: Side, r: &R, owner: Pubkey) -> LeafNode {
    let tif = if r.expired { 10 } else { 0 };
    let lim = if r.invalid { if side == Side::Bid { r.price - 1 } else { r.price + 1 } } else { -1 };
    LeafNode::new(2, r.key, owner, r.q, NOW - 20, PostOrderType::Limit, tif, lim, 7 + r.seq)
}
fn put(a: &Ai, side: Side, r: &mut R) {
    let d = if r.pegged { oracle_pegged_price_data(r.price - 10) } else { r.price as u64 };
    r.key = new_node_key(side, d, r.seq);
    let l = leaf(side, r, key(K_ACCOUNT, if r.own { 0 } else { 1 }));
    let mut s = load::<BookSide>(a);
    if s.insert_leaf(if r.pegged { P } else { F }, &l).is_err() { check(false, "orders can be inserted"); }
}
struct Ord { ty: Ty, price: i64, base: i64, quote: i64, behavior: SelfTradeBehavior, limit: u8 }
fn place(w: &mut W, side: Side, o: &Ord) -> Option<Option<u128>> {
    let ot = |t| t;
    let params = match o.ty {
        Ty::Market => OrderParams::Market,
        Ty::Ioc => OrderParams::ImmediateOrCancel { price_lots: o.price },
        Ty::Limit => OrderParams::Fixed { price_lots: o.price, order_type: ot(PostOrderType::Limit) },
        Ty::PostOnly => OrderParams::Fixed { price_lots: o.price, order_type: PostOrderType::PostOnly },
        Ty::Slide => OrderParams::Fixed { price_lots: o.price, order_type: PostOrderType::PostOnlySlide },
        Ty::Pegged => OrderParams::OraclePegged { price_offset_lots: o.price - 10, order_type: PostOrderType::Limit, peg_limit: 77, max_oracle_staleness_slots: -1 },
    };
    let order = Order { side, max_base_lots: o.base, max_quote_lots: o.quote, client_order_id: 99, reduce_only: false, time_in_force: 9, self_trade_behavior: o.behavior, params };
    let mut book = Orderbook { bids: load(&w.bids), asks: load(&w.asks) };
    let (pk, qk) = (&mut *w.pk, &mut *w.qk);
    with_acc_mut(&w.m, |a| val(book.new_order(order, pk, qk, I80F48::from_num(10), &mut a.borrow_mut(), &key(K_ACCOUNT, 0), NOW, o.limit)))
}
fn better(side: Side, a: i64, b: i64) -> bool { if side == Side::Bid { a > b } else { a < b } }
/// place the order and compare with the reference matcher
fn run(w: &mut W, side: Side, rest: &mut Vec<R>, o: &Ord) {
    let other = side.invert_side();
    let (ours, theirs) = if side == Side::Bid { (w.bids.clone(), w.asks.clone()) } else { (w.asks.clone(), w.bids.clone()) };
    // insert out of order
    let n = rest.len();
    for i in [1usize, 0, 2] { if i < n { put(&theirs, other, &mut rest[i]); } }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|a, b| { let (a, b) = (&rest[*a], &rest[*b]); (if side == Side::Bid { a.price } else { -a.price }, a.seq).cmp(&(if side == Side::Bid { b.price } else { -b.price }, b.seq)) });
    let fees0 = w.pk.fees_accrued;
    let pos0 = *w.m.perp(1);
    let buy0 = w.m.fixed().buyback_fees_accrued_current;
    let got = place(w, side, o);
    // reference
    let (mut rb, mut rq) = (o.base, o.quote);
    let mut events: Vec<(bool, usize, i64, bool)> = vec![]; // fill?, order, quantity, maker out
    let mut left: Vec<i64> = rest.iter().map(|r| r.q).collect();
    let mut gone = vec![false; n];
    let mut target = !(o.ty == Ty::Market || o.ty == Ty::Ioc);
    let mut price = if o.ty == Ty::Market { if side == Side::Bid { i64::MAX } else { 1 } } else { o.price };
    if o.ty == Ty::Slide {
        let best = order.iter().map(|i| &rest[*i]).find(|r| !r.expired && !r.invalid).map(|r| r.price);
        if let Some(b) = best { price = if side == Side::Bid { price.min(b - 1) } else { price.max(b + 1) }; }
    }
    let mut fee_quote = 0i64;
    let mut limit = o.limit;
    let mut abort = price < 1;
    for i in order.iter().copied() {
        let r = rest[i];
        if rb == 0 || rq == 0 || abort { break; }
        if r.expired || r.invalid { gone[i] = true; events.push((false, i, 0, false)); reach("expired"); continue; }
        if better(side, r.price, price) { break; }
        if o.ty == Ty::PostOnly || o.ty == Ty::Slide || limit == 0 { target = false; break; }
        let aff = rq / r.price;
        if aff == 0 { break; }
        let mut m = rb;
        if r.q < m { m = r.q; }
        if aff < m { m = aff; }
        if r.own {
            reach("self");
            match o.behavior {
                SelfTradeBehavior::AbortTransaction => { abort = true; break; }
                SelfTradeBehavior::CancelProvide => { gone[i] = true; events.push((false, i, 0, false)); reach("cancelled"); continue; }
                SelfTradeBehavior::DecrementTake => {}
            }
        }
        rb -= m;
        rq -= m * r.price;
        if !r.own { fee_quote += m * r.price; }
        left[i] -= m;
        if left[i] == 0 { gone[i] = true; }
        events.push((true, i, m, gone[i]));
        limit -= 1;
    }
    let got = match got { None => { check(abort, "an order only fails for self trades or a price below one"); if abort { reach("abort"); } return; } Some(g) => g };
    check(!abort, "a self trade aborts if asked to");
    // taker
    let p = w.m.perp(1);
    let s = if side == Side::Bid { 1 } else { -1 };
    let (tb, tq) = (o.base - rb, o.quote - rq);
    check(p.taker_base_lots - pos0.taker_base_lots == s * tb, "the taker's pending base is what was filled");
    check(p.taker_quote_lots - pos0.taker_quote_lots == -s * tq, "the taker's pending quote is the price of what was filled");
    check(and(tb <= o.base, tq <= o.quote), "an order never takes more than its limits");
    check(p.base_position_lots == 0, "the position itself moves only when events are consumed");
    let pen = if o.ty == Ty::Ioc { 5 } else { 0 };
    let native = zl(fee_quote) * Z::s(10);
    let (tf, mf) = (native * Z::s(ONE / 1024), native * Z::s(-ONE / 2048));
    check((Z::fx(pos0.quote_position_native) - Z::fx(p.quote_position_native)).eq(tf + Z::s(pen * ONE)), "the taker pays the taker fee on what it did not trade with itself, and the IOC penalty");
    check((Z::fx(w.pk.fees_accrued) - Z::fx(fees0)).eq(tf + mf + Z::s(pen * ONE)), "fees accrue to the market");
    check((Z::u(w.m.fixed().buyback_fees_accrued_current as u128) - Z::u(buy0 as u128)).eq((tf + mf).div_floor(Z::s(ONE)) + Z::s(pen)), "the fees kept by the dao can be bought back");
    // posting
    let lots = if target { let x = rq / price; if x < rb { x } else { rb } } else { 0 };
    let inside = if side == Side::Bid { price <= 12 } else { price >= 8 };
    let post = target && lots > 0 && inside;
    // events
    check(w.qk.len() == events.len(), "there is one event for every fill and every removed order");
    for (k, e) in events.iter().enumerate() {
        if k >= w.qk.len() { break; }
        let r = rest[e.1];
        let ev = &w.qk.buf[k];
        check(ev.event_type == if e.0 { 0 } else { 1 }, "events come in matching order");
        if e.0 {
            let f: &FillEvent = bytemuck::cast_ref(ev);
            check(and(f.quantity == e.2, f.price == r.price), "fills are at the resting order's price");
            check(f.maker == key(K_ACCOUNT, if r.own { 0 } else { 1 }) && f.taker == key(K_ACCOUNT, 0) && f.maker_order_id == r.key && f.maker_slot == 2 && f.maker_client_order_id == 7 + r.seq && f.taker_client_order_id == 99, "fills name both parties");
            check(f.taker_side == side as u8 && f.maker_out() == e.3 && f.timestamp == NOW && f.maker_timestamp == NOW - 20, "fills say whether the resting order is gone");
            check(f.maker_fee == if r.own { 0.0 } else { -1.0 / 2048.0 } && f.taker_fee == if r.own { 0.0 } else { 1.0 / 1024.0 }, "fills carry the fees, none for self trades");
            check(f.seq_num == k as u64, "events are numbered");
        } else {
            let f: &OutEvent = bytemuck::cast_ref(ev);
            check(and(f.quantity == r.q, f.order_id == r.key) && f.owner == key(K_ACCOUNT, if r.own { 0 } else { 1 }) && f.owner_slot == 2 && f.side == other as u8, "removed orders are returned to their owner");
        }
    }
    // resting orders
    let bs: &BookSide = view(&theirs);
    for (i, r) in rest.iter().enumerate() {
        let l = bs.nodes.iter(bs.root(if r.pegged { P } else { F })).find(|x| x.1.key == r.key).map(|x| *x.1);
        check(l.is_some() == !gone[i], "resting orders leave the book when filled, expired or cancelled, and only then");
        if let Some(l) = l { check(l.quantity == left[i], "resting orders keep their unfilled quantity"); }
    }
    let tot = bs.roots[0].leaf_count + bs.roots[1].leaf_count;
    check(tot as usize == gone.iter().filter(|x| !**x).count(), "no other order is on the opposing side");
    let own: &BookSide = view(&ours);
    let (nf, np) = (own.roots[0].leaf_count, own.roots[1].leaf_count);
    check(got.is_some() == post, "the remainder is posted exactly if the order type and price band allow it");
    check((nf + np == 1) == post && (np == 1) == (post && o.ty == Ty::Pegged), "the remainder is posted once, to its tree");
    let oo = w.m.perp_oo(0);
    check((oo.market == 0) == post, "a posted order takes an order slot");
    check(and(p.bids_base_lots == if post && s == 1 { lots } else { 0 }, p.asks_base_lots == if post && s == -1 { lots } else { 0 }), "posted lots are tracked on the position");
    if post {
        reach("posted");
        let l = own.nodes.iter(own.root(if np == 1 { P } else { F })).next().map(|x| *x.1).unwrap();
        let d = if np == 1 { oracle_pegged_price_data(price - 10) } else { price as u64 };
        check(l.key == new_node_key(side, d, 41) && got == Some(l.key) && oo.id == l.key, "the posted order has the order's price and id");
        check(and(l.quantity == lots, oo.quantity == lots), "no more than the remainder is posted");
        check(l.owner == key(K_ACCOUNT, 0) && l.owner_slot == 0 && l.client_order_id == 99 && oo.client_id == 99 && l.timestamp == NOW && l.time_in_force == 9 && l.peg_limit == if np == 1 { 77 } else { -1 }, "the posted order has the order's attributes");
    }
    if tb > 0 { reach("filled"); } else { reach("nothing"); }
}
fn zl(x: i64) -> Z { Z::s(x as i128) }
fn resting(side: Side, second: i64) -> Vec<R> {
    let s = if side == Side::Bid { 1 } else { -1 };
    let mk = |pegged, d: i64, seq| R { pegged, price: 10 + s * d, seq, key: 0, q: in_i64("resting", 1, 1 << 40), own: false, expired: false, invalid: false };
    vec![mk(false, 0, 1), mk(false, second, 2), mk(true, 1, 3)]
}
fn matching(side: Side) {
    let mut w = world();
    let s = if side == Side::Bid { 1 } else { -1 };
    let ty = [Ty::Market, Ty::Ioc, Ty::Limit, Ty::PostOnly, Ty::Slide, Ty::Pegged][case("type", 6) as usize];
    let mut rest = resting(side, if case("second", 2) == 0 { 0 } else { 2 });
    let price = if ty == Ty::Market { 0 } else { 10 + s * [-1i64, 0, 1, 5][case("price", 4) as usize] };
    let limit = if ty == Ty::Ioc { [0u8, 1, 10][case("limit", 3) as usize] } else { 10 };
    let o = Ord { ty, price, base: in_i64("base", 0, 1 << 40), quote: in_i64("quote", 0, 1 << 48), behavior: SelfTradeBehavior::DecrementTake, limit };
    run(&mut w, side, &mut rest, &o);
}
#[no_mangle]
pub extern "C" fn h_match_bid() { matching(Side::Bid) }
#[no_mangle]
pub extern "C" fn h_match_ask() { matching(Side::Ask) }
#[no_mangle]
pub extern "C" fn h_states() {
    let mut w = world();
    let side = if case("side", 2) == 0 { Side::Bid } else { Side::Ask };
    let s = if side == Side::Bid { 1 } else { -1 };
    let mut rest = resting(side, 2);
    for r in rest.iter_mut() { match case("state", 3) { 0 => {} 1 => { if r.pegged { r.invalid = true } else { r.expired = true } } _ => r.own = true } }
    let b = [SelfTradeBehavior::DecrementTake, SelfTradeBehavior::CancelProvide, SelfTradeBehavior::AbortTransaction][case("behavior", 3) as usize];
    let ty = if case("type", 2) == 0 { Ty::Ioc } else { Ty::Limit };
    let o = Ord { ty, price: 10 + s * 2, base: in_i64("base", 1, 1 << 40), quote: 1 << 50, behavior: b, limit: 10 };
    run(&mut w, side, &mut rest, &o);
}
#[no_mangle]
pub extern "C" fn h_post() {
    let mut w = world();
    let side = if case("side", 2) == 0 { Side::Bid } else { Side::Ask };
    let s = if side == Side::Bid { 1 } else { -1 };
    let ours = if side == Side::Bid { w.bids.clone() } else { w.asks.clone() };
    let pegged = case("tree", 2) == 1;
    let q = in_i64("resting", 1, 1 << 40);
    let full = case("full", 2) == 1;
    let expired = case("expired", 2) == 1;
    // two orders in the first tree, a worse one in the second
    let to_bad = case("type", 2) == 0;
    let mut good = R { pegged: !pegged, price: 10 + s, seq: 1, key: 0, q: 5, own: false, expired: false, invalid: false };
    let mut mid = R { pegged: !pegged, price: 10 - s, seq: 1, key: 0, q: 6, own: false, expired: false, invalid: false };
    let mut bad = R { pegged, price: 10 - 2 * s, seq: 2, key: 0, q, own: false, expired, invalid: false };
    put(&ours, side, &mut good);
    put(&ours, side, &mut bad);
    put(&ours, side, &mut mid);
    if full { load::<BookSide>(&ours).nodes.bump_index = MAX_ORDERTREE_NODES as u32; }
    let price = 10 + s * (case("price", 5) as i64 - 3);
    // the new order goes to the bad order's tree or to the other one
    let ty = if pegged == to_bad { Ty::Pegged } else { Ty::Limit };
    let base = in_i64("base", 1, 1 << 40);
    let o = Ord { ty, price, base, quote: 1 << 50, behavior: SelfTradeBehavior::DecrementTake, limit: 10 };
    if price < 8 || price > 12 { return; }
    let got = place(&mut w, side, &o);
    let bs: &BookSide = view(&ours);
    let has = |r: &R| bs.nodes.iter(bs.root(if r.pegged { P } else { F })).any(|x| x.1.key == r.key);
    // the last order of a tree leaves one node, the first of a tree needs one, all others two
    let bad_out = full || expired;
    let mid_out = full && !to_bad;
    let refuse = full && (!expired && !better(side, price, bad.price) || mid_out && !better(side, price, mid.price));
    check(got.is_none() == refuse, "a full side takes exactly the orders better than those that have to leave");
    if refuse { reach("refused"); return; }
    check(match got { Some(Some(_)) => true, _ => false }, "there is room for the order");
    check(has(&good), "better orders stay");
    check(has(&bad) == !bad_out && has(&mid) == !mid_out, "an expired order, or the worst of a full side, makes room");
    check(w.qk.len() == bad_out as usize + mid_out as usize, "the removed orders are returned by events");
    check(bs.roots[0].leaf_count + bs.roots[1].leaf_count == 4 - w.qk.len() as u32, "the order is on the book");
    for (k, r) in [bad, mid].iter().enumerate() {
        if k >= w.qk.len() { break; }
        let f: &OutEvent = bytemuck::cast_ref(&w.qk.buf[k]);
        check(f.event_type == 1 && and(f.quantity == r.q, f.order_id == r.key) && f.owner == key(K_ACCOUNT, 1) && f.side == side as u8, "removed orders are returned to their owner");
    }
    if expired { reach("expired"); } else if full { reach("kicked"); } else { reach("posted"); }
}
#[no_mangle]
pub extern "C" fn h_price() {
    let w = world();
    let side = if case("side", 2) == 0 { Side::Bid } else { Side::Ask };
    let (x, oracle) = (in_i64("price", -(1 << 40), 1 << 40), in_i64("oracle", 0, 1 << 40));
    let theirs = if side == Side::Bid { w.asks.clone() } else { w.bids.clone() };
    let bp = in_i64("best", 2, 1 << 40);
    let has = case("opposing", 2) == 1;
    if has { let mut s = load::<BookSide>(&theirs); let l = leaf(side.invert_side(), &R { pegged: false, price: 0, seq: 1, key: new_node_key(side.invert_side(), bp as u64, 1), q: 1, own: false, expired: false, invalid: false }, key(K_ACCOUNT, 1)); std::mem::forget(s.insert_leaf(F, &l)); }
    let slide = case("slide", 2) == 1;
    let ot = if slide { PostOrderType::PostOnlySlide } else { PostOrderType::Limit };
    let ty = case("type", 4);
    let params = match ty { 0 => OrderParams::Market, 1 => OrderParams::ImmediateOrCancel { price_lots: x }, 2 => OrderParams::Fixed { price_lots: x, order_type: ot }, _ => OrderParams::OraclePegged { price_offset_lots: x, order_type: ot, peg_limit: 5, max_oracle_staleness_slots: -1 } };
    let order = Order { side, max_base_lots: 1, max_quote_lots: 1, client_order_id: 0, reduce_only: false, time_in_force: 0, self_trade_behavior: SelfTradeBehavior::DecrementTake, params };
    let book = Orderbook { bids: load(&w.bids), asks: load(&w.asks) };
    panic_is_violation("order prices cannot panic");
    let r = val(order.price(NOW, oracle, &book));
    let mut want = match ty { 0 => if side == Side::Bid { i64::MAX } else { 1 }, 3 => oracle + x, _ => x };
    if ty >= 2 && slide && has { want = if side == Side::Bid { if want < bp { want } else { bp - 1 } } else { if want > bp { want } else { bp + 1 } }; }
    check(r.is_some() == (want >= 1), "orders need a positive price");
    match r { Some((p, d)) => {
        check(p == want, "the order's price follows its type");
        check(d == if ty == 3 { (p - oracle) as u64 ^ 1 << 63 } else { p as u64 }, "the key data encodes the price or the offset to the oracle");
        check(order.peg_limit() == if ty == 3 { 5 } else { -1 } && order.is_post_only() == (ty >= 2 && slide) && order.needs_penalty_fee() == (ty == 1), "order attributes follow the type");
        reach("ok");
    } None => reach("refused") }
}
