S='src/surface/nurbs_surface.rs'
B='src/bounding_box/surface_bounding_box_tree.rs'
N='src/closest_parameter/surface_closest_parameter_newton.rs'
X='src/intersects/surface_curve/intersection_surface_curve.rs'
P='src/split/mod.rs'
T='src/tessellation/surface.rs'
M=lambda n,e,*ed: ('C10',n,e,list(ed))
MUTANTS=[
M('derivative order clamped to the u degree','caught',(S,"""        let dv = if derivs < self.v_degree {
            derivs
        } else {
            self.v_degree
        };
        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];

        for k""","""        let dv = if derivs < self.u_degree {
            derivs
        } else {
            self.u_degree
        };
        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];

        for k""")),
M('derivative order by min','quiet',(S,"""        let dv = if derivs < self.v_degree {
            derivs
        } else {
            self.v_degree
        };
        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];

        for k""","""        let dv = derivs.min(self.v_degree);
        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];

        for k""")),
M('isocurve looked up in the last u row','caught',(S,"UVDirection::V => refined.control_points[0].len() - 1,","UVDirection::V => refined.control_points.len() - 1,")),
M('borders with swapped ends','caught',(S,"self.try_isocurve(v_start, UVDirection::V)?,","self.try_isocurve(u_start, UVDirection::V)?,")),
M('flip turns the u knots for v','caught',(S,"flipped.v_knots = flipped.v_knots.inverse();","flipped.v_knots = flipped.u_knots.inverse();")),
M('flip by reversing in place','quiet',(S,"flipped.control_points = flipped.control_points.iter().rev().cloned().collect();","flipped.control_points.reverse();")),
M('dividable by the wrong tolerance','caught',(B,"interval.0 > utol || interval.1 > vtol","interval.0 > vtol || interval.1 > utol")),
M('dividable only in both','caught',(B,"interval.0 > utol || interval.1 > vtol","interval.0 > utol && interval.1 > vtol")),
M('default tolerance of u for both','caught',(B,"(u / div, v / div)","(u / div, u / div)")),
M('children by domain pair','quiet',(B,"let interval = self.surface.knots_domain_interval();\n        let (utol","let ((a, b), (c, d)) = self.surface.knots_domain();\n        let interval = (b - a, d - c);\n        let (utol")),
M('cell split at the middle of u','caught',(B,"self.surface().knots_domain_at(self.direction);","self.surface().knots_domain_at(UVDirection::U);")),
M('vanishing second derivatives swapped','caught',(N,"match (u_d, v_d) {","match (v_d, u_d) {")),
M('u step by the v slope','caught',(N,"let u_delta = -grad.x / duu;","let u_delta = -grad.y / duu;")),
M('gradient parts swapped','caught',(N,"Vector2::new(s_u.dot(&dif), s_v.dot(&dif));","Vector2::new(s_v.dot(&dif), s_u.dot(&dif));")),
M('second u derivative from the mixed one','caught',(N,"let s_uu = &e[2][0];","let s_uu = &e[1][1];")),
M('hessian transposed','quiet',(N,"let hessian = Matrix2::new(duu, duv, duv, dvv);","let dvu = duv;\n                let hessian = Matrix2::new(duu, dvu, duv, dvv);")),
M('search started with u and v exchanged','caught',(X,"Vector3::new(curve_parameter, surface_parameter.0, surface_parameter.1);","Vector3::new(curve_parameter, surface_parameter.1, surface_parameter.0);")),
M('search started at the middle of u in both','caught',(X,"((u.0 + u.1) * div, (v.0 + v.1) * div);","((u.0 + u.1) * div, (u.0 + u.1) * div);")),
M('tree tolerance of u for both','caught',(X,"Some((interval.0 * div, interval.1 * div)),","Some((interval.0 * div, interval.0 * div)),")),
M('v checked against the u domain','caught',(X,"(surface_v_domain.0..=surface_v_domain.1).contains(&param.z)","(surface_u_domain.0..=surface_u_domain.1).contains(&param.z)")),
M('v divisions from the u option','caught',(T,"let divs_v = options.min_divs_v.max(min_v);","let divs_v = options.min_divs_u.max(min_v);")),
M('domain of v for both','caught',(S,"""        match direction {
            UVDirection::U => self.u_knots_domain(),""","""        match direction {
            UVDirection::U => self.v_knots_domain(),""")),
]
