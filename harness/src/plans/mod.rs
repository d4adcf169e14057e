//! One plan per property.
use crate::run::Plan;
pub mod api;
pub mod geom;
pub mod more;
pub mod num;
#[cfg(boostvoronoi_monitor)]
pub mod sweep;
pub mod tools;
pub const PLANS: &[Plan] = &[
    geom::C01, geom::C02, geom::C03, geom::C04, geom::C05, geom::C06, geom::C07, geom::C08, geom::C09, geom::C19,
    api::C11, api::C12, api::C14, api::C15, api::C16, api::C17, api::C18,
    tools::C10, tools::C20, tools::C21, tools::C22,
    more::C23, more::C28, more::C29, more::C30,
    num::C24, num::C25, num::C26,
    // these look at what the hook in the library records
    #[cfg(boostvoronoi_monitor)]
    sweep::C13,
    #[cfg(boostvoronoi_monitor)]
    num::C27,
];
