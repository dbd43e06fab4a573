MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C19', name, exp, edits))
C, S, T, B = 'src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/surface/trimmed_surface.rs', 'src/bounding_box/mod.rs'
M('no division', 'caught', (C, "        let coords =\n            v.generic_view((0, 0), (<D as DimNameSub<U1>>::Output::name(), Const::<1>)) / w;", "        let coords = v\n            .generic_view((0, 0), (<D as DimNameSub<U1>>::Output::name(), Const::<1>))\n            .into_owned();"))
M('divide by absolute sum', 'caught', (C, "        let coords =\n            v.generic_view((0, 0), (<D as DimNameSub<U1>>::Output::name(), Const::<1>)) / w;", "        let coords = v.generic_view((0, 0), (<D as DimNameSub<U1>>::Output::name(), Const::<1>))\n            / if w > T::from_f64(2.0).unwrap() { T::from_f64(2.0).unwrap() } else { w };"))
M('multiply by the inverse', 'quiet', (C, "        let coords =\n            v.generic_view((0, 0), (<D as DimNameSub<U1>>::Output::name(), Const::<1>)) / w;", "        let coords = v.generic_view((0, 0), (<D as DimNameSub<U1>>::Output::name(), Const::<1>))\n            * (T::one() / w);"))
M('weights of the first coordinate', 'caught', (C, "            .map(|p| p[D::dim() - 1])\n            .collect()", "            .map(|p| p[D::dim() - 2])\n            .collect()"))
M('closed by stored coordinates', 'caught', (C, "                let pts = self.dehomogenized_control_points();\n                let delta", "                let pts = &self.control_points;\n                let delta"))
M('closed by end points', 'quiet', (C, "                let pts = self.dehomogenized_control_points();\n                let delta = &pts[0] - &pts[self.control_points.len() - 1];\n                delta.norm() < eps", "                let (a, b) = self.knots_domain();\n                let delta = self.point_at(a) - self.point_at(b);\n                delta.norm_squared() < eps * eps"))
M('mapped without weight', 'caught', (T, "            let uv = surface.find_closest_parameter(p)?;\n            Ok(Point3::new(uv.0 * w, uv.1 * w, w))", "            let uv = surface.find_closest_parameter(p)?;\n            Ok(Point3::new(uv.0, uv.1, w))"))
M('projected with unit weight', 'caught', (T, "            let uv = closest.a().1;\n            Ok(Point3::new(uv.0 * w, uv.1 * w, w))", "            let uv = closest.a().1;\n            Ok(Point3::new(uv.0, uv.1, w / w))"))
M('mapped by a loop', 'quiet', (T, "    let pts = curve\n        .dehomogenized_control_points()\n        .iter()\n        .zip(weights.into_iter())\n        .map(|(p, w)| {\n            let uv = surface.find_closest_parameter(p)?;\n            Ok(Point3::new(uv.0 * w, uv.1 * w, w))\n        })\n        .collect::<anyhow::Result<Vec<_>>>()?;", "    let mut pts = vec![];\n    for (i, p) in curve.dehomogenized_control_points().iter().enumerate() {\n        let (u, v) = surface.find_closest_parameter(p)?;\n        let w = weights[i];\n        pts.push(Point3::new(w * u, w * v, w));\n    }"))
M('mapped from stored points', 'caught', (T, "            let uv = surface.find_closest_parameter(p)?;\n", "            let uv = surface.find_closest_parameter(&(p * w))?;\n"))
M('farthest hit', 'caught', (T, "                .min_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal));", "                .max_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal));"))
M('box of a surface of its first row', 'caught', (B, "        let flatten = pts.into_iter().flatten();", "        let flatten = pts.into_iter().take(1).flatten();"))
M('extrude weights sorted', 'caught', (S, "            let w = prof_weights[i];\n            for j in", "            let w = prof_weights[prof_weights.len() - 1 - i];\n            for j in"))
M('revolve weights', 'caught', (S, "                control_points[k][j].w = prof_weights[j];", "                control_points[k][j].w = prof_weights[0];"))
M('surface point by first weight', 'caught', (S, "            .map(|row| row.iter().map(|p| dehomogenize(p).unwrap()).collect())", "            .map(|row| row.iter().rev().map(|p| dehomogenize(p).unwrap()).collect())"))
