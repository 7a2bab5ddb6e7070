#![allow(clippy::all)]
#![allow(static_mut_refs)]
#[macro_use]
pub mod nd;
pub mod dbg;
pub mod derived;
pub mod ev;
pub mod like;
pub mod misc;
pub mod set;
pub mod vec_bulk;
pub mod vec_hist;
pub mod vec_ops;
pub mod vec_panic;
pub mod vec_wf;
pub mod vec_wide;

/// The harness list of this build, written by the driver for one property and tier.
pub mod gen {
    include!(env!("VP_GEN"));
}
