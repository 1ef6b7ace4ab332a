//! C36: histories of public operations over valid but awkward objects, in both
//! precisions. Watched: panics and arithmetic overflow (the build has overflow
//! and debug checks), CPU time of every operation, and the soundness of every
//! result (finite, ordered knots, matching counts, face indices in range).
use crate::c_region::looped;
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::chk;
use curvo::prelude::*;
use nalgebra::{Const, Point2, Point3, Vector3};

mod h64 {
    type T = f64;
    type Other = f32;
    include!("hist_body.rs");
}
mod h32 {
    type T = f32;
    type Other = f64;
    include!("hist_body.rs");
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C36",
        rule: "distinct ordered pairs of consecutive operations (kind of object, operation) per precision",
        loads: vec![
            Workload { name: "double", f: h64::history, quick: 4000, thorough: 100000 },
            Workload { name: "single", f: h32::history, quick: 2000, thorough: 50000 },
        ],
    }]
}
