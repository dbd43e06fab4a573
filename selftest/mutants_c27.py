MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C27', name, exp, edits))
T, K, U = 'src/tessellation/tessellation_curve.rs', 'src/tessellation/tessellation_compound_curve.rs', 'src/tessellation/trimmed_surface.rs'
M('no pop', 'caught', (T, "        left_pts.pop();\n        [left_pts, right_pts].concat()", "        [left_pts, right_pts].concat()"))
M('right first', 'caught', (T, "[left_pts, right_pts].concat()", "[right_pts, left_pts].concat()"))
M('end point of the probe', 'caught', (T, "vec![p1, p3]\n    }\n}", "vec![p1, p2]\n    }\n}"))
M('never divides a closed curve', 'caught', (T, "    if (diff.dot(&diff) < tol && diff2.dot(&diff2) > tol)\n        || !three", "    if !three"))
M('flat only', 'caught', (T, "        || !three_points_are_flat(&p1, &p2, &p3, tol)\n", ""))
M('tolerance inverted', 'caught', (T, "let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap());", "let tol = T::from_f64(1e-6).unwrap() / tolerance.unwrap_or(T::from_f64(1e-3).unwrap());"))
M('domain of the knots', 'caught', (T, "let (start, end) = self.knots_domain();", "let (start, end) = (T::zero(), self.knots_domain().1);"))
M('short range loses its end', 'caught', (T, "return if p1 == p3 { vec![p1] } else { vec![p1, p3] };", "return vec![p1];"))
M('divides at the probe twice', 'caught', (T, "let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, rng);", "let right_pts = tessellate_adaptive(curve, mid, end, tol, rng);"))
M('corners without weights', 'caught', (T, "return self.dehomogenized_control_points();", "return self.control_points().iter().map(|p| { let v: Vec<T> = p.iter().take(D::dim() - 1).copied().collect(); OPoint::from_slice(&v) }).collect();"))
M('compound closed not closed', 'caught', (K, "take(n + 1)", "take(n)"))
M('compound open joints twice', 'caught', (K, "if i != m - 1 {", "if i == m - 1 {"))
M('compound default tolerance', 'caught', (K, "                .flat_map(|span| {\n                    let mut tess = span.tessellate(tolerance);", "                .flat_map(|span| {\n                    let mut tess = span.tessellate(tolerance.filter(|_| false));"))
M('uv joint twice', 'caught', (U, "evaluated.into_iter().skip(1)", "evaluated.into_iter().skip(0)"))
M('uv corner left out', 'caught', (U, "let pts = (1..n - 2).flat_map(|i| {", "let pts = (1..n - 3).flat_map(|i| {"))
M('uv normal transposed', 'caught', (U, "            let pts = iterate_uv_curve_tessellation(curve, surface, start, end, tolerance);\n            pts.into_iter()\n                .map(|uv| {\n                    let p = surface.point_at(uv.x, uv.y);\n                    let n = surface.normal_at(uv.x, uv.y);", "            let pts = iterate_uv_curve_tessellation(curve, surface, start, end, tolerance);\n            pts.into_iter()\n                .map(|uv| {\n                    let p = surface.point_at(uv.x, uv.y);\n                    let n = surface.normal_at(uv.y, uv.x);"))
M('uv tolerance grows', 'caught', (U, "    if flag {\n        let mut left_pts", "    let flag = flag && (end - start) > T::from_f64(0.6).unwrap();\n    if flag {\n        let mut left_pts"))
M('uv mid', 'caught', (U, "iterate_uv_curve_tessellation(curve, surface, exact_mid, end, normal_tolerance);", "iterate_uv_curve_tessellation(curve, surface, exact_mid, exact_mid, normal_tolerance);"))
M('extend instead of concat', 'quiet', (T, "        left_pts.pop();\n        [left_pts, right_pts].concat()", "        left_pts.pop();\n        left_pts.extend(right_pts);\n        left_pts"))
M('skip the first of the right', 'quiet', (T, "        left_pts.pop();\n        [left_pts, right_pts].concat()", "        left_pts.extend(right_pts.into_iter().skip(1));\n        left_pts"))
M('mean of the ends', 'quiet', (T, "let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();", "let exact_mid = (start + end) / T::from_f64(2.).unwrap();"))
M('compound closes by clone', 'quiet', (K, "            let n = pts.len();\n            pts.into_iter().cycle().take(n + 1).collect_vec()", "            let first = pts.first().cloned();\n            pts.into_iter().chain(first).collect_vec()"))
M('compound open by loop', 'quiet', (K, "            let m = self.spans().len();\n            self.spans()\n                .iter()\n                .enumerate()\n                .flat_map(|(i, span)| {\n                    let mut tess = span.tessellate(tolerance);\n                    if i != m - 1 {\n                        tess.pop();\n                    }\n                    tess\n                })\n                .collect_vec()", "            let mut pts = vec![];\n            for span in self.spans() {\n                pts.pop();\n                pts.extend(span.tessellate(tolerance));\n            }\n            pts"))
M('uv one map', 'quiet', (U, "            let (start, end) = curve.knots_domain();\n            let pts = iterate_uv_curve_tessellation(curve, surface, start, end, tolerance);\n            pts.into_iter()\n                .map(|uv| {\n                    let p = surface.point_at(uv.x, uv.y);\n                    let n = surface.normal_at(uv.x, uv.y);\n                    Vertex::new(p, n, uv.coords)\n                })\n                .collect_vec()", "            let (start, end) = curve.knots_domain();\n            let mut out = vec![];\n            for uv in iterate_uv_curve_tessellation(curve, surface, start, end, tolerance) {\n                out.push(Vertex::new(surface.point_at(uv.x, uv.y), surface.normal_at(uv.x, uv.y), uv.coords));\n            }\n            out"))
