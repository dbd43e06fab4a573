C='src/curve/nurbs_curve.rs'
S='src/surface/nurbs_surface.rs'
CC='src/intersects/curve_curve/intersection_curve_curve.rs'
SC='src/intersects/surface_curve/intersection_surface_curve.rs'
CB='src/intersects/curve_curve/curve_intersection_bfgs.rs'
SB='src/intersects/surface_curve/surface_curve_intersection_bfgs.rs'
X='src/contains/contains_curve.rs'
T='src/tessellation/tessellation_curve.rs'
U='src/tessellation/trimmed_surface.rs'
P='src/tessellation/adaptive_tessellation_processor.rs'
N='src/tessellation/adaptive_tessellation_node.rs'
BC='src/bounding_box/curve_bounding_box_tree.rs'
BS='src/bounding_box/surface_bounding_box_tree.rs'
M=lambda n,e,*ed: ('C14',n,e,list(ed))
MUTANTS=[
M('curve search unlimited','caught',(CC,".inv_hessian(Matrix2::identity())\n                            .max_iters(options.max_iters)",".inv_hessian(Matrix2::identity())")),
M('curve search ten times','caught',(CC,".max_iters(options.max_iters)",".max_iters(options.max_iters * 10)")),
M('curve search at least the default','caught',(CC,".max_iters(options.max_iters)",".max_iters(options.max_iters.max(200))")),
M('curve search capped','quiet',(CC,".max_iters(options.max_iters)",".max_iters(options.max_iters.min(500))")),
M('curve limit first','quiet',(CC,"                            .param(init_param)\n                            .inv_hessian(Matrix2::identity())\n                            .max_iters(options.max_iters)","                            .max_iters(options.max_iters)\n                            .inv_hessian(Matrix2::identity())\n                            .param(init_param)")),
M('surface search unlimited','caught',(SC,".inv_hessian(Matrix3::identity())\n                            .max_iters(options.max_iters)",".inv_hessian(Matrix3::identity())")),
M('surface search forever','caught',(SC,".max_iters(options.max_iters)",".max_iters(u64::MAX)")),
M('closest curve unlimited','caught',(C,"state.param(u).max_iters(5)","state.param(u)")),
M('closest curve more','quiet',(C,"state.param(u).max_iters(5)","state.param(u).max_iters(50)")),
M('closest surface unlimited','caught',(S,"state.param(uv).max_iters(100)","state.param(uv).max_iters(u64::MAX)")),
M('line search forever','caught',(CB,"for _ in 0..max_iters {","for _ in 0..1000 {")),
M('line search while worse','caught',(CB,"        for _ in 0..max_iters {\n            it += 1;","        loop {\n            it += 1;\n            if it > 500 {\n                break;\n            }")),
M('line search one more','caught',(CB,"for _ in 0..max_iters {","for _ in 0..=max_iters {")),
M('line search given back','caught',(CB,".max_iters(max_iters - it)",".max_iters(max_iters + it)")),
M('line search not counted','quiet',(CB,".max_iters(max_iters - it)",".max_iters(max_iters)")),
M('line search while','quiet',(CB,"        for _ in 0..max_iters {\n            it += 1;","        while it < max_iters {\n            it += 1;")),
M('surface line search forever','caught',(SB,"for _ in 0..max_iters {","for _ in 0..1000 {")),
M('surface line search given back','caught',(SB,".max_iters(max_iters - it)",".max_iters(max_iters + it)")),
M('ray without limit','caught',(X,"for _i in 0..option.max_iters {","for _i in 0..10000 {")),
M('ray twice','caught',(X,"for _i in 0..option.max_iters {","for _i in 0..option.max_iters * 2 {")),
M('ray while','quiet',(X,"            for _i in 0..option.max_iters {\n","            let mut trial = 0;\n            while trial < option.max_iters {\n                trial += 1;\n")),
M('cells one deeper','caught',(N,"if current_depth >= options.max_depth {","if current_depth > options.max_depth {")),
M('cells no maximum','caught',(N,"        if current_depth >= options.max_depth {\n            return None;\n        }\n","")),
M('cells one less','quiet',(N,"if current_depth >= options.max_depth {","if options.max_depth <= current_depth {")),
M('depth stays','caught',(P,"self.iterate(child, options, current_depth + 1,","self.iterate(child, options, current_depth,")),
M('depth of the second stays','caught',(P,"self.iterate(child, options, current_depth + 1,","self.iterate(child, options, current_depth + (child - id0 + 1) % 2,")),
M('depth starts at the identity','quiet',(P,"for child in [id0, id1] {","for child in id0..=id1 {")),
M('division starts deeper','caught',(P,"self.iterate(id, options, 0, direction);","self.iterate(id, options, 1, direction);")),
M('adaptive no width','caught',(T,"    if delta < T::from_f64(1e-8).unwrap() {\n        return vec![p1];\n    }\n","")),
M('adaptive same start','caught',(T,"tessellate_adaptive(curve, exact_mid, end, tol, rng)","tessellate_adaptive(curve, start, end, tol, rng)")),
M('adaptive wider stop','quiet',(T,"delta < T::from_f64(1e-8).unwrap()","delta <= T::from_f64(1e-7).unwrap()")),
M('adaptive third','quiet',(T,"let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();","let exact_mid = (start + end) * T::from_f64(0.5).unwrap();")),
M('adaptive past the end','caught',(T,"let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();","let exact_mid = start + end * T::from_f64(0.5).unwrap();")),
M('uv no width','caught',(U,"    if delta < T::from_f64(1e-8).unwrap() {\n        return vec![p1];\n    }\n","    let _ = delta;\n")),
M('uv same end','caught',(U,"iterate_uv_curve_tessellation(curve, surface, start, exact_mid, normal_tolerance)","iterate_uv_curve_tessellation(curve, surface, start, end, normal_tolerance)")),
M('curve tree no floor','caught',(BC,"interval >= T::from_f64(1e-4).unwrap() && self.curve.control_points().len() >= 3","self.curve.control_points().len() >= 3")),
M('curve tree two points','caught',(BC,"self.curve.control_points().len() >= 3","self.curve.control_points().len() >= 2")),
M('curve tree any degree','caught',(BC,"                _ => false,\n","                _ => self.curve.control_points().len() >= 3,\n")),
M('curve tree if','quiet',(BC,"            match self.curve.degree() {\n                1 => {","            match self.curve.degree() {\n                d if d < 2 => {")),
M('curve tree far chance','caught',(BC,"T::from_f64(1e-1 * (rng.random::<f64>() - 0.5)).unwrap()","T::from_f64(1.2 * (rng.random::<f64>() - 0.5)).unwrap()")),
M('curve tree no chance','quiet',(BC,"self.curve.try_split(mid + r)?","self.curve.try_split(mid + r * T::from_f64(0.5).unwrap())?")),
M('curve tree mid from length','caught',(BC,"let mid = (min + max) / T::from_usize(2).unwrap();","let mid = interval / T::from_usize(2).unwrap();")),
M('surface tree keeps on','caught',(BS,"interval.0 > utol || interval.1 > vtol","interval.0 > utol || interval.1 >= T::zero() && vtol > T::zero()")),
M('surface tree both','quiet',(BS,"        interval.0 > utol || interval.1 > vtol","        !(interval.0 <= utol && interval.1 <= vtol)")),
M('surface tree quarter','quiet',(BS,"let div = T::from_f64(0.5).unwrap();","let div = T::from_f64(0.49).unwrap();")),
M('surface tree end','caught',(BS,"let mid = (t.0 + t.1) * div;","let mid = t.0 + t.1 * div;")),
M('bisection forever','caught',(C,"        if middle_parameter <= start.0 || end.0 <= middle_parameter {\n            // no parameter is left between the bounds\n            break;\n        }\n","")),
M('bisection never moves','caught',(C,"        if middle_parameter <= start.0 || end.0 <= middle_parameter {\n            // no parameter is left between the bounds\n            break;\n        }\n","        if middle_parameter < start.0 {\n            break;\n        }\n")),
M('bisection counted','quiet',(C,"    while (end.1 - start.1) > tolerance {","    for _ in 0..400 {\n        if (end.1 - start.1) <= tolerance {\n            break;\n        }")),
]
