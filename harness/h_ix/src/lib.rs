//! Symbolic harnesses for the indexer crate (public API only).
#![allow(clippy::all)]
pub mod chain;
pub mod merge;
pub mod ser;
pub mod util;
pub mod v1;
pub mod v2;

slxrt::entries!(
    v1::c17_one,
    v1::c17_two,
    v1::c17_conflict,
    v1::c25_index,
    v2::c03_v1,
    v2::c03_v2,
    v2::c10_v2,
    v2::c18_one,
    v2::c18_history,
    v2::c18_late,
    v2::c18_late3,
    chain::c20_known,
    chain::c20_position,
    chain::c20_repeat,
    chain::c20_repeat3,
    merge::c21_v1,
    merge::c21_v2,
    ser::c22_bin_spout,
    ser::c22_bin_label,
    ser::c22_bin_v1,
    ser::c22_bin_v2,
    ser::c22_json_spout,
    ser::c22_json_meta,
    ser::c22_json_label,
    ser::c22_json_v1,
    ser::c22_json_v2,
    ser::c22_bad_scalar,
    ser::c22_bad_scalar_text,
    chain::c19_history,
    chain::c19_foreign,
    chain::c19_address,
    chain::c19_history3,
    chain::c20_block,
    chain::c20_block3,
    chain::c20_block3_all,
    chain::c20_mempool,
    chain::c20_mempool3,
    chain::c20_anchored,
);
