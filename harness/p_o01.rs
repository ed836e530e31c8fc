// O01: the order trees of a book side
//@fn h_tree reach=removed,absent : bids: three orders with any distinct 4-bit keys (2 price bits, 2 sequence bits) in any order, removal of any key; a second tree in the same node array
//@fn h_tree_asks reach=removed,absent : the same for asks
//@fn h_tree_four reach=removed,absent tier=thorough : the same with four orders, 3-bit keys
//@fn h_worst reach=worst : bids: three orders with any distinct 3-bit keys, removal of the worst
//@fn h_worst_asks reach=worst : the same for asks
//@fn h_expiry_remove reach=removed : bids: three orders with any distinct 2-bit keys and any expiry pattern, removal of any key, one more insertion
//@fn h_expired reach=expired,none : asks: three orders with any distinct 2-bit keys and any expiry pattern, removal of an expired order at any time, one more insertion
//@fn h_wide reach=ok : two orders with any 128-bit keys, then removal of any key
//@fn h_keys reach=ok : price data and node keys for every price, offset and sequence number
//@fn h_full reach=refused : insertion into the node array with no, one or two nodes left
use super::api::*;
use super::world::*;
use crate::state::*;

#[derive(Clone, Copy)]
struct M { key: u128, q: i64, ts: u64, tif: u16, here: bool }
impl M { fn exp(&self) -> u64 { if self.tif == 0 { u64::MAX } else { self.ts + self.tif as u64 } } }
fn leaf(m: &M) -> LeafNode { LeafNode::new(1, m.key, key(K_OWNER, 0), m.q, m.ts, PostOrderType::Limit, m.tif, -1, 7) }
fn side(bids: bool) -> &'static mut BookSide {
    let (_a, s) = zc::<BookSide>(key(K_BIDS, 0));
    s.nodes.order_tree_type = if bids { 0 } else { 1 };
    s
}
fn min2(a: u64, b: u64) -> u64 { if a < b { a } else { b } }
/// walk a subtree: earliest expiry of its leaves and their number; checks the cached expiries and the links
fn walk(s: &BookSide, h: u32, depth: usize, used: &mut Vec<u32>) -> u64 {
    check(depth < 8 && !used.contains(&h), "the tree has no cycles or shared nodes");
    used.push(h);
    let n = &s.nodes.nodes[h as usize];
    if n.tag == 2 { return bytemuck::cast_ref::<AnyNode, LeafNode>(n).expiry(); }
    check(n.tag == 1, "tree links point to nodes");
    let i: &InnerNode = bytemuck::cast_ref(n);
    let (a, b) = (walk(s, i.children[0], depth + 1, used), walk(s, i.children[1], depth + 1, used));
    check(and(i.child_earliest_expiry[0] == a, i.child_earliest_expiry[1] == b), "inner nodes know the earliest expiry below them");
    let (x, y) = (a, b);
    if rsym_lt(x, y) { x } else { y }
}
fn rsym_lt(a: u64, b: u64) -> bool { a < b }
fn verify(s: &BookSide, bids: bool, tree: BookSideOrderTree, m: &[M], used: &mut Vec<u32>) {
    let root = *s.root(tree);
    let got: Vec<LeafNode> = s.nodes.iter(&root).map(|x| *x.1).collect();
    let mut n = 0u32;
    for x in m { n += x.here as u32; }
    check(n == got.len() as u32, "the tree holds exactly the open orders");
    check(root.leaf_count == got.len() as u32, "the leaf count is right");
    for i in 1..got.len() { let (a, b) = (got[i - 1].key, got[i].key); check(if bids { a > b } else { a < b }, "orders are iterated in price and time order"); }
    for x in m {
        let mut f = false;
        for g in &got { f = or(f, and(and(g.key == x.key, g.quantity == x.q), and(g.timestamp == x.ts, g.time_in_force == x.tif))); }
        check(implies(x.here, f), "every open order is in the tree unchanged");
    }
    if let Some(r) = root.node() { walk(s, r, 0, used); }
}
fn verify_nodes(s: &BookSide, used: &Vec<u32>) {
    let n = &s.nodes;
    check(n.bump_index - n.free_list_len == used.len() as u32, "every node is in a tree or free");
    let mut h = n.free_list_head;
    let mut seen = vec![];
    for i in 0..n.free_list_len {
        check(!used.contains(&h) && !seen.contains(&h) && h < n.bump_index, "free nodes are not in use");
        check(n.nodes[h as usize].tag == if i + 1 == n.free_list_len { 4 } else { 3 }, "free nodes are marked");
        seen.push(h);
        h = bytemuck::cast_ref::<AnyNode, FreeNode>(&n.nodes[h as usize]).next;
    }
}
/// any key of the given size, if `exp` any expiry
fn sym_key(pb: u32, sb: u32) -> u128 { (in_u64("price", 0, (1 << pb) - 1) as u128) << 64 | in_u64("seq", 0, (1 << sb) - 1) as u128 }
fn sym_order(pb: u32, sb: u32, exp: bool) -> M {
    let key = sym_key(pb, sb);
    M { key, q: in_i64("quantity", 1, 1 << 40), ts: if exp { in_u64("timestamp", 10, 17) } else { 10 }, tif: if exp { in_u16("time_in_force", 0, 7) } else { 0 }, here: true }
}
const F: BookSideOrderTree = BookSideOrderTree::Fixed;
const P: BookSideOrderTree = BookSideOrderTree::OraclePegged;
fn all(s: &BookSide, bids: bool, m: &[M], o: &[M]) {
    let mut used = vec![];
    verify(s, bids, F, m, &mut used);
    verify(s, bids, P, o, &mut used);
    verify_nodes(s, &used);
}
fn run(n: usize, pb: u32, sb: u32, exp: bool, op: u32, bids: bool, last: bool) {
    begin();
    panic_is_violation("tree operations cannot panic");
    let s = side(bids);
    let mut m: Vec<M> = vec![];
    let other = [M { key: 2u128 << 64 | 1, q: 5, ts: 12, tif: 3, here: true }, M { key: 3u128 << 64 | 1, q: 5, ts: 12, tif: 1, here: true }];
    for i in 0..n {
        let x = sym_order(pb, sb, exp);
        for y in &m { assume(x.key != y.key); }
        let r = s.insert_leaf(F, &leaf(&x));
        check(match &r { Ok((_, None)) => true, _ => false }, "an order with a new key can be inserted");
        std::mem::forget(r);
        m.push(x);
        if i < 2 { std::mem::forget(s.insert_leaf(P, &leaf(&other[i]))); }
    }
    all(s, bids, &m, &other);
    let mut e = u64::MAX;
    for x in &m { let v = x.exp(); e = min2(v, e); }
    match op {
        0 => {
            let k = sym_key(pb, sb);
            let r = s.remove_by_key(F, k);
            let mut f = false;
            for x in &m { f = or(f, x.key == k); }
            check(r.is_some() == f, "an order is removed exactly if it is there");
            if let Some(l) = r {
                let mut same = false;
                for x in &m { same = or(same, and(x.key == k, and(l.key == k, l.quantity == x.q))); }
                check(same, "the removed order is returned");
                reach("removed");
            } else { reach("absent"); }
            for x in m.iter_mut() { x.here = x.key != k; }
        }
        1 => {
            // the second tree shares the nodes array but not the orders
            let root = &mut s.roots[0];
            let l = s.nodes.remove_worst(root).unwrap();
            for x in &m { check(if bids { l.key <= x.key } else { l.key >= x.key }, "the worst order is removed"); }
            for x in m.iter_mut() { x.here = x.key != l.key; }
            reach("worst");
        }
        _ => {
            let now = in_u64("now", 0, 30);
            let r = { let root = &mut s.roots[0]; s.nodes.remove_one_expired(root, now) };
            match r {
                Some(l) => {
                    check(and(l.expiry() == e, e < now), "the earliest expired order is removed");
                    for x in m.iter_mut() { x.here = x.key != l.key; }
                    reach("expired");
                }
                None => { check(e >= now, "an expired order is found"); reach("none"); }
            }
        }
    }
    all(s, bids, &m, &other);
    if !last { return; }
    let x = M { q: 1, tif: if exp { 2 } else { 0 }, ..sym_order(pb, sb, exp) };
    for y in &m { assume(or(x.key != y.key, !y.here)); }
    std::mem::forget(s.insert_leaf(F, &leaf(&x)));
    m.push(x);
    all(s, bids, &m, &other);
}
#[no_mangle]
pub extern "C" fn h_tree() { run(3, 2, 2, false, 0, true, false) }
#[no_mangle]
pub extern "C" fn h_tree_asks() { run(3, 2, 2, false, 0, false, false) }
#[no_mangle]
pub extern "C" fn h_tree_four() { run(4, 2, 1, false, 0, true, false) }
#[no_mangle]
pub extern "C" fn h_worst() { run(3, 2, 1, false, 1, true, true) }
#[no_mangle]
pub extern "C" fn h_worst_asks() { run(3, 2, 1, false, 1, false, true) }
#[no_mangle]
pub extern "C" fn h_expiry_remove() { run(3, 1, 1, true, 0, true, true) }
#[no_mangle]
pub extern "C" fn h_expired() { run(3, 1, 1, true, 2, false, true) }
#[no_mangle]
pub extern "C" fn h_wide() {
    begin();
    panic_is_violation("tree operations cannot panic");
    let bids = case("side", 2) == 0;
    let s = side(bids);
    let mut m: Vec<M> = vec![];
    for _ in 0..2 {
        let x = M { key: sym_u128("key"), q: in_i64("quantity", 1, 1 << 40), ts: 0, tif: 0, here: true };
        for y in &m { assume(x.key != y.key); }
        std::mem::forget(s.insert_leaf(F, &leaf(&x)));
        m.push(x);
    }
    let mut used = vec![];
    verify(s, bids, F, &m, &mut used);
    let k = sym_u128("removed");
    let r = s.remove_by_key(F, k);
    check(r.is_some() == or(m[0].key == k, m[1].key == k), "an order is removed exactly if it is there");
    for x in m.iter_mut() { x.here = x.key != k; }
    let mut used = vec![];
    verify(s, bids, F, &m, &mut used);
    verify_nodes(s, &used);
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_keys() {
    begin();
    panic_is_violation("key functions cannot panic");
    let (o1, o2) = (sym_i64("offset"), sym_i64("offset"));
    let (p1, p2) = (oracle_pegged_price_data(o1), oracle_pegged_price_data(o2));
    check(oracle_pegged_price_offset(p1) == o1, "a pegged order's offset is kept in its key");
    check(iff(o1 < o2, p1 < p2), "pegged keys are ordered as their offsets");
    let f = sym_i64("price");
    let d = val(fixed_price_data(f));
    check(d.is_some() == (f >= 1), "prices are positive");
    if let Some(d) = d {
        check(fixed_price_lots(d) == f, "an order's price is kept in its key");
        let (s1, s2) = (sym_u64("seq"), sym_u64("seq"));
        let g = in_i64("other_price", 1, i64::MAX);
        let dg = fixed_price_data(g).unwrap();
        for bid in [true, false] {
            let sd = if bid { Side::Bid } else { Side::Ask };
            let (k1, k2) = (new_node_key(sd, d, s1), new_node_key(sd, dg, s2));
            check(k1 >> 64 == d as u128, "the price is the top of the key");
            // comes first: better price, then placed earlier
            let first = or(if bid { f > g } else { f < g }, and(f == g, s1 < s2));
            check(iff(first, if bid { k1 > k2 } else { k1 < k2 }), "keys order by price, then by time");
            let mut l = leaf(&M { key: k1, q: 1, ts: 0, tif: 0, here: true });
            check(l.price_data() == d, "a leaf knows its price");
            l.timestamp = in_u64("timestamp", 0, 1 << 40);
            l.time_in_force = sym_u16("time_in_force");
            let now = in_u64("now", 0, 1 << 41);
            check(l.is_expired(now) == and(l.time_in_force != 0, now >= l.timestamp + l.time_in_force as u64), "orders expire when their time is over");
            check(l.is_expired(now) == (l.expiry() <= now), "expiry and expired agree");
        }
    }
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_full() {
    begin();
    panic_is_violation("tree operations cannot panic");
    let s = side(true);
    let mk = |p: u64| M { key: (p as u128) << 64, q: p as i64, ts: 0, tif: 0, here: true };
    std::mem::forget(s.insert_leaf(F, &leaf(&mk(3))));
    std::mem::forget(s.insert_leaf(F, &leaf(&mk(5))));
    let left = case("left", 4);
    // nodes 3.. are taken by someone else
    s.nodes.bump_index = MAX_ORDERTREE_NODES as u32 - left;
    check(s.is_full() == (left <= 1), "a side without room for an order is full");
    let p = in_u64("price", 1, 7);
    assume(and(p != 3, p != 5));
    let r = s.insert_leaf(F, &leaf(&mk(p)));
    let done = r.is_ok();
    std::mem::forget(r);
    check(done == (left >= 2), "an order needs two nodes");
    if !done { check(s.root(F).leaf_count == 2 && s.nodes.iter(s.root(F)).count() == 2, "a refused insertion leaves the orders"); reach("refused"); }
    let l: Vec<u128> = s.nodes.iter(s.root(F)).map(|x| x.1.key).collect();
    check(l.len() == 2 + done as usize && l.contains(&(3u128 << 64)) && l.contains(&(5u128 << 64)), "the orders are still there");
    check(s.nodes.bump_index as usize <= MAX_ORDERTREE_NODES, "the node array is not overrun");
}
