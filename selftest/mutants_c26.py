MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C26', name, exp, edits))
C, S = 'src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs'
N, P, SN, SP, G = ['src/closest_parameter/' + x + '.rs' for x in ('curve_closest_parameter_newton', 'curve_closest_parameter_problem', 'surface_closest_parameter_newton', 'surface_closest_parameter_problem', '')][:4] + ['src/misc/trigonometry.rs']
M('gradient from the target', 'caught', (P, "let d = p - self.point;", "let d = self.point - p;"))
M('curvature without speed', 'caught', (P, "Ok(s0 + s1)", "Ok(s1)"))
M('step up', 'caught', (N, "let new_param = *param - self.gamma * inv * grad;", "let new_param = *param + self.gamma * inv * grad;"))
M('start by farthest', 'caught', (C, "            if d < min {\n                min = d;\n                u = proj_u;", "            if d > min || i == 0 {\n                min = d;\n                u = proj_u;"))
M('samples skip the last chord', 'caught', (C, "        for i in 0..pts.len() - 1 {\n            let u0 = pts[i].0;", "        for i in 0..pts.len() - 2 {\n            let u0 = pts[i].0;"))
M('few samples', 'caught', (C, "let samples = self.control_points.len() * self.degree;", "let samples = self.control_points.len().max(2);"))
M('projection parameter reversed', 'caught', (G, "(u0 + (u1 - u0) * do2ptr / l,", "(u1 + (u0 - u1) * do2ptr / l,"))
M('projection beyond the end', 'caught', (G, "} else if do2ptr > l {", "} else if do2ptr > l + l {"))
M('surface keeps the last vertex', 'caught', (S, "            if d < min_dist {\n                min_dist = d;\n                uv = tess.uvs()[i];\n            }\n        });\n        // println", "            if d < min_dist {\n                uv = tess.uvs()[i];\n            }\n        });\n        // println"))
M('surface mixed term dropped', 'caught', (SN, "s_u.dot(s_v) + s_uv.dot(&dif)", "s_uv.dot(&dif)"))
M('surface cost not recorded', 'caught', (SN, "Ok((state.cost(cost), None))", "{ let _ = cost; Ok((state, None)) }"))
M('surface step uphill', 'caught', (SN, "if state.get_cost() < new_cost {", "if state.get_cost() < new_cost * F::from_f64(0.1).unwrap() {"))
M('surface uu for vv', 'caught', (SN, "let s_vv = &e[0][2];", "let s_vv = &e[1][1];"))
M('surface gradient sign', 'caught', (SP, "        let d = p - self.point;\n        Ok(d)", "        let d = self.point - p;\n        Ok(d)"))
M('point at the start on failure', 'caught', (C, "self.find_closest_parameter(point).map(|u| self.point_at(u))", "Ok(self.point_at(self.find_closest_parameter(point).unwrap_or(self.knots_domain().0)))"))
M('surface point transposed', 'caught', (S, ".map(|(u, v)| self.point_at(u, v))", ".map(|(u, v)| self.point_at(v, u))"))
M('point by match', 'quiet', (C, "self.find_closest_parameter(point).map(|u| self.point_at(u))", "{ let u = self.find_closest_parameter(point)?; Ok(self.point_at(u)) }"))
M('start by fold', 'quiet', (C, "        for i in 0..pts.len() - 1 {\n            let u0 = pts[i].0;\n            let u1 = pts[i + 1].0;\n\n            let p0 = &pts[i].1;\n            let p1 = &pts[i + 1].1;\n\n            let (proj_u, proj_pt) = segment_closest_point(point, p0, p1, u0, u1);\n", "        for pair in pts.windows(2) {\n            let (u0, p0) = &pair[0];\n            let (u1, p1) = &pair[1];\n            let (proj_u, proj_pt) = segment_closest_point(point, p0, p1, *u0, *u1);\n"))
M('hessian by norm', 'quiet', (P, "let s1 = e[1].dot(&e[1]);", "let s1 = e[1].norm_squared();"))
M('newton divides', 'quiet', (N, "        let inv = F::one() / hessian;\n        let new_param = *param - self.gamma * inv * grad;", "        let new_param = *param - self.gamma * (grad / hessian);"))
M('surface order of cost', 'quiet', (SN, "            Ok((state.cost(new_cost).param(new_param), None))", "            Ok((state.param(new_param).cost(new_cost), None))"))
M('surface by loop', 'quiet', (S, "        tess.points().iter().enumerate().for_each(|(i, pt)| {\n            let d = point - pt;\n            let d = d.norm_squared();\n            if d < min_dist {\n                min_dist = d;\n                uv = tess.uvs()[i];\n            }\n        });\n        // println", "        for (pt, q) in tess.points().iter().zip(tess.uvs().iter()) {\n            let d = (pt - point).norm_squared();\n            if d < min_dist {\n                min_dist = d;\n                uv = *q;\n            }\n        }\n        // println"))
M('closest by squared distance', 'quiet', (C, "let d = (point - self.point_at(u)).norm();", "let d = (self.point_at(u) - point).norm();"))
