//! Symbolic harnesses for the oracles crate.
#![allow(clippy::all)]
pub mod filters;
pub mod tweaks;
pub mod util;

slxrt::entries!(
    filters::c23_events,
    filters::c23_order,
    filters::c23_flush,
    filters::c23_closed,
    tweaks::c26_blocks,
    tweaks::c26_order,
    tweaks::c26_many,
    tweaks::c26_failed,
);
