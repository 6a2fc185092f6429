//! Symbolic harnesses for bdk_sp and dleq (public API only).
pub mod agg;
pub mod dl;
pub mod elig;
pub mod enc;
pub mod hd;
pub mod psbt;
pub mod scan;
pub mod util;

slxrt::entries!(
    enc::c01_roundtrip,
    enc::c02_full,
    enc::c02_lengths,
    enc::c02_prefix,
    enc::c02_long,
    enc::c02_extra,
    enc::c02_checksum,
    enc::c02_short,
    enc::c03_label,
    elig::c04_tr,
    elig::c04_nums,
    elig::c04_wpkh,
    elig::c04_uncompressed,
    elig::c04_pkh_long,
    elig::c04_sh,
    elig::c04_pkh_any,
    elig::c04_pkh_key,
    elig::c04_other,
    agg::c05_two,
    agg::c05_four,
    agg::c05_same_txid,
    agg::c06_two,
    agg::c25_tweak,
    agg::c25_send,
    psbt::c25_psbt,
    agg::c06_three,
    agg::c06_three_all,
    agg::c07_partial,
    agg::c07_partial3,
    agg::c07_recipients,
    agg::c07_recipients4,
    agg::c07_recipients_long,
    agg::c07_any_points,
    scan::c08_inputs,
    scan::c08_payments,
    scan::c08_free_output,
    scan::c08_three,
    scan::c08_many,
    scan::c08_vout,
    scan::c08_three_all,
    scan::c09_two,
    scan::c09_three,
    scan::c09_four,
    scan::c09_any_secret,
    scan::c10_scripts,
    scan::c10_match,
    psbt::c11_one,
    psbt::c11_two,
    psbt::c11_three,
    psbt::c11_prevtx,
    psbt::c11_junk,
    psbt::c11_order,
    psbt::c11_outputs,
    psbt::c11_outputs3,
    psbt::c11_outputs4,
    psbt::c12_keys,
    psbt::c12_data,
    psbt::c12_three,
    psbt::c12_negated,
    psbt::c12_counts,
    psbt::c13_one,
    psbt::c13_two,
    psbt::c13_junk,
    psbt::c13_three,
    psbt::c13_any_data,
    psbt::c13_more,
    hd::c16_xpriv,
    hd::c16_xpriv_types,
    hd::c16_xpriv_order,
    hd::c16_xpriv_recipients,
    hd::c16_xpriv_three,
    hd::c16_xpriv_root,
    hd::c16_sp,
    hd::c16_sp_order,
    hd::c16_sp_recipients,
    hd::c16_sp_cancel,
    dl::c14_generate,
    dl::c14_related,
    dl::c15_degenerate,
    dl::c15_provers,
    dl::c15_exact,
    dl::c15_binding
);
