//! Type-level witnesses: each line stops compiling when the type loses the guarantee.
#![allow(dead_code)]
use curvo::prelude::*;
use nalgebra::{Const, U2, U3, U4};
use std::panic::{RefUnwindSafe, UnwindSafe};

/// owned, thread-safe, no interior mutability (RefUnwindSafe is not implemented for UnsafeCell), cloneable
fn plain<T: 'static + Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + Clone + Sized>() {}

macro_rules! each {
    ($f:ty) => {
        plain::<NurbsCurve<$f, Const<3>>>();
        plain::<NurbsCurve<$f, Const<4>>>();
        plain::<NurbsSurface<$f, Const<3>>>();
        plain::<NurbsSurface<$f, Const<4>>>();
        plain::<TrimmedSurface<$f>>();
        plain::<CompoundCurve<$f, Const<3>>>();
        plain::<CompoundCurve<$f, Const<4>>>();
        plain::<Region<$f>>();
        plain::<KnotVector<$f>>();
        plain::<BoundingBox<$f, U2>>();
        plain::<BoundingBox<$f, U3>>();
        plain::<PolygonMesh<$f, Const<3>>>();
        plain::<SurfaceTessellation<$f, U4>>();
        plain::<AdaptiveTessellationOptions<$f>>();
        plain::<CurveIntersectionSolverOptions<$f>>();
        plain::<BoundaryConstraints<$f>>();
        plain::<Intersection<nalgebra::Point3<$f>, $f, $f>>();
    };
}
pub fn witnesses() {
    each!(f32);
    each!(f64);
    let _ = std::marker::PhantomData::<U3>;
}
