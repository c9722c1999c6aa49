//! C01, C02: generalized index arithmetic.
use crate::sym;
use bm::*;

fn idx(v: u64) -> Index { match Index::from_one(v as usize) { Some(i) => i, None => { sym::fail("from_one"); Index::root() } } }

/// Single navigation steps, every 64-bit index.
pub fn h_index_nav() {
    let v = sym::any();
    match Index::from_one(v as usize) {
        None => { sym::check(v == 0, "from_one_none"); sym::cover("zero"); return }
        Some(_) => sym::check(v != 0, "from_one_some"),
    }
    let i = idx(v);
    sym::check((v == 1) == (i == Index::root()), "root_is_one");
    if v < 1 << 63 {
        sym::check(i.left() == idx(2 * v), "left");
        sym::check(i.right() == idx(2 * v + 1), "right");
        sym::check(i.left() != i.right(), "left_ne_right");
        sym::check(i.left().parent() == Some(i), "parent_left");
        sym::check(i.right().parent() == Some(i), "parent_right");
        sym::cover("children");
    }
    match i.parent() {
        None => sym::check(v == 1, "root_has_no_parent"),
        Some(p) => {
            sym::check(v != 1, "parent_of_root");
            sym::check(p == idx(v / 2), "parent");
            sym::check(i == p.left() || i == p.right(), "child_of_parent");
        }
    }
    if v > 1 { sym::check(Index::from_zero((v - 1) as usize) == i, "from_zero"); }
    let w = sym::any();
    if let Some(j) = Index::from_one(w as usize) { sym::check((i == j) == (v == w), "eq"); }
    let d = sym::range(0, 63);
    let k = sym::any();
    sym::assume(k < 1 << d);
    sym::check(Index::from_depth(k as usize, d as usize) == idx((1 << d) + k), "from_depth");
}

fn bit_len(v: u64) -> usize { 64 - v.leading_zeros() as usize }

fn check_route(v: u64, depth: usize) {
    let i = idx(v);
    let r = i.route();
    let mut back = Index::root();
    match &r {
        IndexRoute::Root => { sym::check(depth == 0, "route_root") }
        IndexRoute::Select(s) => {
            sym::check(depth != 0, "route_select");
            sym::check(s.len() == depth, "route_len");
            for (k, x) in s.iter().enumerate() {
                let right = (v >> (depth - 1 - k)) & 1 == 1;
                sym::check((*x == IndexSelection::Right) == right, "route_bits");
                back = match x { IndexSelection::Left => back.left(), IndexSelection::Right => back.right() };
            }
        }
    }
    sym::check(back == i, "route_walk");
    sym::check(r.at_depth(0).is_none(), "at_depth_0");
    sym::check(r.at_depth(depth + 1).is_none(), "at_depth_past");
    sym::check(r.at_depth(sym::range(depth as u64 + 1, u64::max_value()) as usize).is_none(), "at_depth_far");
    for d in 1..=depth {
        let right = (v >> (depth - d)) & 1 == 1;
        match r.at_depth(d) { Some(x) => sym::check((x == IndexSelection::Right) == right, "at_depth"), None => sym::fail("at_depth_none") }
    }
}

/// Routes of every index of one depth each (parameter 0 = least depth, 1 = greatest depth).
pub fn h_index_small() {
    let depth = sym::param(0) as usize + sym::pick((sym::param(1) - sym::param(0) + 1) as usize);
    let low = sym::any();
    sym::assume(low < 1 << depth);
    let v = (1 << depth) + low;
    sym::cover("route");
    check_route(v, depth);
}

/// Descendant relation: every pair of 64-bit indices with depths in the window.
pub fn h_index_rel() {
    let a = sym::any();
    let b = sym::any();
    sym::assume(a != 0 && b != 0);
    if sym::param(0) < 64 { sym::assume(b < 1 << sym::param(0)); }
    let (i, j) = (idx(a), idx(b));
    let r = i.has_descendant(&j);
    // strict prefix: b shifted down to a's length
    let mut want = false;
    let mut k = 1;
    while k < 64 { want = want | ((b >> k) == a); k += 1; }
    if r { sym::cover("yes") } else { sym::cover("no") }
    sym::check(r == want, "has_descendant");
}
pub fn h_index_irr() {
    let a = sym::any();
    sym::assume(a != 0);
    let i = idx(a);
    sym::check(!i.has_descendant(&i), "irreflexive");
    sym::cover("irr");
}

/// sub composes routes.
pub fn h_index_sub() {
    let da = sym::pick(sym::param(0) as usize + 1);
    let db = sym::pick(sym::param(1) as usize + 1);
    let (la, lb) = (sym::any(), sym::any());
    sym::assume(la < 1 << da && lb < 1 << db);
    let (a, b) = ((1 << da) + la, (1 << db) + lb);
    let c = idx(a).sub(idx(b));
    sym::cover("sub");
    sym::check(c == idx((a << db) + lb), "sub");
    if db > 0 { sym::check(idx(a).has_descendant(&c), "sub_descendant"); } else { sym::check(c == idx(a), "sub_root"); }
}

/// Routes of deep indices: all bits but a window of `param 0` bits (placed at the bottom, middle
/// or top) follow a pattern.
pub fn h_index_deep() {
    let w = sym::param(0) as usize;
    let depth = match sym::pick(6) { 0 => 63, 1 => 62, 2 => 33, 3 => 32, 4 => 31, _ => 17 };
    let pat: u64 = match sym::pick(3) { 0 => 0, 1 => !0, _ => 0x5555_5555_5555_5555 };
    let pos = match sym::pick(3) { 0 => 0, 1 => (depth - w) / 2, _ => depth - w };
    let bits = sym::any();
    sym::assume(bits < 1 << w);
    let m = ((1u64 << w) - 1) << pos;
    let v = (1 << depth) | (((pat & !m) | (bits << pos)) & ((1 << depth) - 1));
    sym::cover("deep");
    check_route(v, depth);
    let i = idx(v);
    let mut j = i;
    let mut k = depth;
    while k > 0 { match j.parent() { Some(p) => { sym::check(p.has_descendant(&i), "ancestor"); j = p } None => sym::fail("parent_none") } k -= 1; }
    sym::check(j == Index::root(), "climbs_to_root");
}

/// Deep sub: compositions up to 63 levels, symbolic windows at the end of both routes.
pub fn h_index_sub_deep() {
    let w = sym::param(0) as usize;
    let (da, db) = match sym::pick(4) { 0 => (63 - w, w), 1 => (w, 63 - w), 2 => (31, 32), _ => (20, 21) };
    let pat: u64 = match sym::pick(2) { 0 => 0, _ => !0 };
    let (la, lb) = (sym::any(), sym::any());
    sym::assume(la < 1 << w && lb < 1 << w);
    let a = (1 << da) + ((pat & ((1 << da) - 1) & !((1 << w) - 1)) | la);
    let b = (1 << db) + ((pat & ((1 << db) - 1) & !((1 << w) - 1)) | lb);
    sym::cover("sub");
    let c = idx(a).sub(idx(b));
    sym::check(c == idx((a << db) + (b - (1 << db))), "sub");
    sym::check(idx(a).has_descendant(&c), "sub_descendant");
    sym::check(!c.has_descendant(&idx(a)), "sub_antisym");
}
