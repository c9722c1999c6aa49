#![allow(dead_code, clippy::all)]
pub mod sym;
pub mod core;
#[cfg(feature = "le")]
pub mod derive;
macro_rules! entries {
    ($($f:literal $m:ident :: { $($e:ident),* $(,)? })*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn entry(name: &str) -> Option<fn()> { match name { $($(#[cfg(feature = $f)] stringify!($e) => Some($m::$e as fn()),)*)* _ => None } }
        $($(#[cfg(feature = $f)] #[no_mangle] pub extern "C" fn $e() { $m::$e() })*)*
    }
}
entries! {
    "index" index::{ h_index_nav, h_index_small, h_index_rel, h_index_sub, h_index_deep, h_index_sub_deep, h_index_irr }
    "seq" seq::{ h_seq, h_seq_fault, h_seq_missing, h_create_any, h_create, h_empty, h_reconstruct, h_seq_gc, h_seq_two, h_into_list, h_huge }
    "utils" utils::{ h_depth, h_lens, h_vector_tree }
    "packed" packed::{ h_packed, h_packed_create, h_packed_gc, h_packed_fault, h_packed_huge }
    "proof" proof::{ h_replay, h_replay_seq, h_record, h_compact, h_plain, h_plain_deep, h_forge, h_wrap, h_noop }
    "raw" raw::{ h_raw, h_raw_sub, h_gc }
    "codec" codec::{ h_codec_round, h_codec_hostile, h_codec_proof, h_codec_value, h_codec_serde }
    "partial" partial::{ h_partial, h_partial_past, h_partial_hostile, h_partial_index }
    "le" le::{ h_le, h_le_inj, h_le_hostile, h_le_tag, h_le_fault, h_le_over, h_le_vec, h_le_misc, h_le_mix, h_node }
}
