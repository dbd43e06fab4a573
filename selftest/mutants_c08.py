CC='src/intersects/curve_curve/intersection_curve_curve.rs'
SC='src/intersects/surface_curve/intersection_surface_curve.rs'
XC='src/intersects/curve_curve/intersection_compound_curve.rs'
OP='src/intersects/curve_curve/curve_intersection_solver_options.rs'
B1='src/intersects/curve_curve/curve_intersection_bfgs.rs'
B2='src/intersects/surface_curve/surface_curve_intersection_bfgs.rs'
CT='src/contains/contains_curve.rs'
CO='src/contains/contains_compound_curve.rs'
CL='src/boolean/clip.rs'
RG='src/boolean/boolean_region.rs'
BC='src/boolean/boolean_curve.rs'
SF='src/tessellation/surface.rs'
ND='src/tessellation/adaptive_tessellation_node.rs'
TS='src/tessellation/trimmed_surface.rs'
TC='src/tessellation/tessellation_compound_curve.rs'
TR='src/tessellation/tessellation_region.rs'
TK='src/tessellation/tessellation_curve.rs'
M=lambda n,e,*ed: ('C08',n,e,list(ed))
MUTANTS=[
M('tolerances swapped','caught',(CC,".with_step_size_tolerance(options.step_size_tolerance)\n                    .with_cost_tolerance(options.cost_tolerance);",".with_step_size_tolerance(options.cost_tolerance)\n                    .with_cost_tolerance(options.step_size_tolerance);")),
M('cost tolerance dropped','caught',(SC,"                    .with_step_size_tolerance(options.step_size_tolerance)\n                    .with_cost_tolerance(options.cost_tolerance);","                    .with_step_size_tolerance(options.step_size_tolerance);")),
M('iterations fixed','caught',(CC,".max_iters(options.max_iters)",".max_iters(options.max_iters.max(50))")),
M('iterations dropped','caught',(SC,"                            .max_iters(options.max_iters)\n","")),
M('division squared','caught',(SC,"Some((interval.0 * div, interval.1 * div)),","Some((interval.0 * div, interval.0 * div)),")),
M('second tree default','caught',(SC,"CurveBoundingBoxTree::new(other, Some(other.knots_domain_interval() * div));","CurveBoundingBoxTree::new(other, None);")),
M('second tree by first','caught',(SC,"Some(other.knots_domain_interval() * div)","Some(interval.0 * div)")),
M('division as reciprocal','quiet',(SC,"Some(other.knots_domain_interval() * div)","Some(other.knots_domain_interval() / T::from_usize(options.knot_domain_division).unwrap())")),
M('compound drops','caught',(XC,"span.find_intersections(other, options.clone())","span.find_intersections(other, None)")),
M('compound second drops','caught',(XC,".map(|span| self.find_intersections(span, options.clone()))",".map(|span| self.find_intersections(span, Some(Default::default())))")),
M('builder wrong field','caught',(OP,"        self.cost_tolerance = cost_tolerance;","        self.step_size_tolerance = cost_tolerance;")),
M('builder also','caught',(OP,"        self.max_iters = max_iters;","        self.max_iters = max_iters;\n        self.knot_domain_division = max_iters as usize;")),
M('builder struct update','quiet',(OP,"        self.max_iters = max_iters;\n        self","        Self { max_iters, ..self }")),
M('solver builder','caught',(B1,"self.cost_tolerance = tolerance;","self.step_size_tolerance = tolerance;")),
M('terminate cost by step','caught',(B2,"                < self.cost_tolerance","                < self.step_size_tolerance")),
M('terminate step unused','caught',(B1,"            if norm < self.step_size_tolerance {\n                return Term","            if norm < F::default_epsilon() {\n                return Term")),
M('ray iterations','caught',(CT,"for _i in 0..option.max_iters {","for _i in 0..64 {")),
M('ray division','caught',(CT,"T::from_usize(option.knot_domain_division).unwrap()","T::from_usize(64).unwrap()")),
M('ray distance','caught',(CT,"if Float::abs(dy) < option.minimum_distance {","if Float::abs(dy) < option.step_size_tolerance {")),
M('ray while','quiet',(CT,"for _i in 0..option.max_iters {","let mut left = option.max_iters;\n            while left > 0 {\n                left -= 1;")),
M('contains drops','caught',(CT,"size.x * T::from_f64(2.).unwrap(), option)","size.x * T::from_f64(2.).unwrap(), None)")),
M('contains boundary fixed','caught',(CO,".map(|opt| opt.minimum_distance)",".map(|opt| opt.cost_tolerance)")),
M('compound contains drops','caught',(CO,"x_ray_intersection(span, point, sx, option.clone())","x_ray_intersection(span, point, sx, None)")),
M('region interior drops','caught',(RG,"interior.boolean(BooleanOperation::Difference, other, option.clone())","interior.boolean(BooleanOperation::Difference, other, None)")),
M('region intersection drops','caught',(RG,".boolean(BooleanOperation::Intersection, &ex, option.clone())",".boolean(BooleanOperation::Intersection, &ex, Some(CurveIntersectionSolverOptions::default()))")),
M('region pair drops','caught',(RG,".map(|r| r.boolean(BooleanOperation::Difference, interior, option.clone()))",".map(|r| r.boolean(BooleanOperation::Difference, interior, None))")),
M('distribute drops','caught',(RG,"match region.exterior().contains(&pt, option.clone()) {","match region.exterior().contains(&pt, None) {")),
M('curve boolean drops','caught',(BC,"let intersections = other.find_intersections(self, option.clone())?;","let intersections = other.find_intersections(self, None)?;")),
M('curve boolean clip','caught',(BC,"        clip(self, other, operation, option, intersections)","        clip(self, other, operation, option.map(|o| o.with_max_iters(1000)), intersections)")),
M('options by reference','quiet',(BC,"let intersections = other.find_intersections(self, option.clone())?;","let opt = option.as_ref().cloned();\n        let intersections = other.find_intersections(self, opt)?;")),
M('minimum divisions swapped','caught',(SF,"options.min_divs_v.max(min_v)","options.min_divs_u.max(min_v)")),
M('minimum divisions dropped','caught',(SF,"let divs_u = options.min_divs_u.max(min_u);","let divs_u = min_u;")),
M('minimum divisions min','caught',(SF,"let divs_u = options.min_divs_u.max(min_u);","let divs_u = options.min_divs_u.min(min_u);")),
M('minimum divisions if','quiet',(SF,"let divs_u = options.min_divs_u.max(min_u);","let divs_u = if options.min_divs_u < min_u { min_u } else { options.min_divs_u };")),
M('constraints drop options','quiet',(SF,"surface_adaptive_tessellate(self, Some(constraints), adaptive_options)","let o = adaptive_options;\n        surface_adaptive_tessellate(self, Some(constraints), o)")),
M('cells default options','caught',(SF,"processor.divide(index, &options);","processor.divide(index, &AdaptiveTessellationOptions::default());")),
M('min depth inclusive','caught',(ND,"if current_depth < options.min_depth {","if current_depth <= options.min_depth {")),
M('max depth exclusive','caught',(ND,"if current_depth >= options.max_depth {","if current_depth > options.max_depth {")),
M('tolerance unused','caught',(ND,"            > options.norm_tolerance\n            || (self.corners[2].normal() - self.corners[3].normal())","            > T::from_f64(1.0).unwrap()\n            || (self.corners[2].normal() - self.corners[3].normal())")),
M('max depth first','quiet',(ND,"        if current_depth >= options.max_depth {\n            return None;\n        }\n\n        if self.has_bad_normals() {\n            self.fix_normals();","        let deep = options.max_depth <= current_depth;\n        if deep {\n            return None;\n        }\n\n        if self.has_bad_normals() {\n            self.fix_normals();")),
M('trim tolerance','caught',(TS,"                .map(|curve| {\n                    tessellate_uv_curve_adaptive(curve, s.surface(), curve_tessellation_option)","                .map(|curve| {\n                    tessellate_uv_curve_adaptive(curve, s.surface(), T::from_f64(1e-2).unwrap())")),
M('trim surface default','caught',(TS,"let tess = s.surface().tessellate(options);","let tess = s.surface().tessellate(options.map(|o| AdaptiveTessellationOptions { max_depth: 8, ..o }));")),
M('compound tessellation default','caught',(TC,"                    let mut tess = span.tessellate(tolerance);\n                    if i","                    let mut tess = span.tessellate(None);\n                    if i")),
M('region interior default','caught',(TR,".map(|c| c.tessellate(tolerance))",".map(|c| c.tessellate(None))")),
M('curve tolerance default','caught',(TK,"let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap());","let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap()).min(T::from_f64(1e-3).unwrap());")),
]
