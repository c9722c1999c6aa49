//! Depth and packing arithmetic, from-scratch merkleization (C26, C23, C28).
use crate::core::*;
use crate::sym;
use bm::utils::{host_len, host_max_len, required_depth, vector_tree};
use bm::*;
use generic_array::ArrayLength;
use typenum::*;

/// Every count.
pub fn h_depth() {
    let n = sym::any();
    let d = required_depth(n);
    sym::observe(d as u64);
    sym::check(d <= 64, "C26.depth_bound");
    sym::check(d >= 64 || (1u64 << d) >= n, "C26.depth_enough");
    sym::check(d == 0 || (1u64 << ((d - 1) & 63)) < n, "C26.depth_least");
    if d == 0 { sym::cover("zero"); } else if d == 64 { sym::cover("top"); } else { sym::cover("middle"); }
}

fn lens<H: ArrayLength<u8>, E: ArrayLength<u8>>() {
    let n = sym::any();
    let (h, e) = (H::to_u64() as u128, E::to_u64() as u128);
    let q = host_max_len::<H, E>(n);
    let bytes = n as u128 * e;
    sym::observe(q);
    sym::check(host_len::<H, E>(n as usize) as u64 == q, "C26.host_len_same");
    // the least number of whole chunks, as far as it can be expressed
    sym::check(q as u128 * h >= bytes || q == u64::max_value(), "C26.chunks_enough");
    sym::check(q == 0 || (q - 1) as u128 * h < bytes, "C26.chunks_least");
    if bytes > u64::max_value() as u128 { sym::cover("large"); } else { sym::cover("done"); }
}
/// param 0: which pair of chunk and element size
pub fn h_lens() {
    match sym::param(0) {
        0 => lens::<U32, U1>(), 1 => lens::<U32, U2>(), 2 => lens::<U32, U4>(), 3 => lens::<U32, U8>(), 4 => lens::<U32, U16>(), 5 => lens::<U32, U32>(), 6 => lens::<U32, U64>(),
        7 => lens::<U8, U1>(), 8 => lens::<U8, U3>(), 9 => lens::<U8, U5>(), 10 => lens::<U8, U12>(), 11 => lens::<U8, U20>(), 12 => lens::<U1, U1>(), 13 => lens::<U1, U7>(), 14 => lens::<U32, U20>(), 15 => lens::<U64, U48>(),
        16 => lens::<U20, U3>(), 17 => lens::<U12, U8>(), 18 => lens::<U3, U2>(), 19 => lens::<U16, U9>(),
        _ => panic!(),
    }
}

fn tree<K: Kind>() {
    let n = sym::choose(sym::param(1) + 1) as usize;
    let vals: Vec<V> = (0..n).map(|_| leaf()).collect();
    let max = match sym::param(2) {
        0 => None,
        1 => Some(sym::choose(sym::param(1) + 3)),
        m => Some(m),
    };
    let mut db = Db::<K>::default();
    let flt = sym::param(3) == 0 && sym::flip();
    if flt { db.arm(); }
    let r = vector_tree(&vals, &mut db, max);
    let over = match max { Some(m) => n as u64 > m, None => false };
    if flt {
        if db.failed { sym::cover("fault"); sym::check(r == Err(Error::Backend(Fault(db.code))), "C23.vector_tree"); return; }
        db.disarm();
    }
    if over { sym::cover("refused"); sym::check(r == Err(Error::InvalidParameter), "C26.too_long"); return; }
    let root = match r { Ok(x) => x, Err(_) => { sym::fail("C26,C23.vector_tree_ok"); return } };
    sym::cover("built");
    sym::check(root == spec_vec_root::<K>(&vals, max), "C26.root");
    let depth = spec_depth(max.unwrap_or(n as u64));
    if depth > 62 { return; }
    let raw = DanglingRaw::<K>::new(root);
    let width = 1u64 << depth;
    let far = n as u64 + 3;
    let show = if width < far { width } else { far };
    for i in 0..show {
        let want = if (i as usize) < n { vals[i as usize] } else { V::default() };
        let got = raw.get(&mut db, Index::from_depth(i as usize, depth));
        if K::UNIT && i as usize >= n {
            // below an empty value standing for its whole subtree nothing is stored
            match got { Ok(Some(x)) => sym::check(x == V::default(), "C26.empty"), Ok(None) => sym::cover("unstored"), Err(_) => sym::fail("C26.empty") }
        } else { sym::check(got == Ok(Some(want)), "C26.position"); }
    }
    if !K::UNIT && width > far { sym::cover("last"); sym::check(raw.get(&mut db, Index::from_depth((width - 1) as usize, depth)) == Ok(Some(V::default())), "C26,C28.last"); }
}
/// params: construct (0 inherited, 1 unit), largest length, maximum (0 none, 1 any small one, else itself), 1 without faults
pub fn h_vector_tree() { if sym::param(0) == 0 { tree::<CI>() } else { tree::<CU>() } }
