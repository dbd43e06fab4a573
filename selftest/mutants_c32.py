MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C32', name, exp, edits))
C, S, K = 'src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/curve/knot_style.rs'
M('averages shifted', 'quiet', (C, "            weight_sums += us[i + j];\n", "            weight_sums += us[i + j - 1 + 1];\n"))
M('chord parameters unnormalised', 'caught', (C, "            us[i] /= max;", "            us[i] /= max + max;"))
M('basis at the index', 'caught', (C, "        let knot_span_index = knots.find_knot_span_index(n, degree, u);\n        let basis = knots.basis_functions(knot_span_index, u, degree);\n\n        let ls = knot_span_index - degree;", "        let knot_span_index = knots.find_knot_span_index(n, degree, u);\n        let basis = knots.basis_functions(knot_span_index, u, degree);\n\n        let ls = if i + 1 < us.len() { knot_span_index - degree } else { (knot_span_index - degree).min(1) };"))
M('periodic head', 'caught', (C, "let head = &parameters[0..(degree - 1)];", "let head = &parameters[1..degree];"))
M('periodic tail', 'caught', (C, "let tail = &parameters[(parameters.len() - degree + 1)..];", "let tail = &parameters[0..(degree - 1)];"))
M('periodic start', 'caught', (C, "        let u = knots[i + degree]; // from start domain", "        let u = knots[i + degree - 1]; // from start domain"))
M('periodic loop', 'caught', (C, "        let n = basis_padded.len() - ls;\n        let mut e", "        let n = basis_padded.len() - ls.min(1);\n        let mut e"))
M('loft own parameters', 'caught', (S, "try_interpolate_control_points_at(points, &parameters, degree_v, false)?;", "try_interpolate_control_points_at(points, &chord_length_parameters(points).unwrap_or(parameters.clone()), degree_v, false)?;"))
M('loft scale', 'caught', (S, "let scale = max_knot_span / knot_spans[i];", "let scale = T::one() / knot_spans[i];\n        let scale = if i == 0 { max_knot_span * scale } else { scale };"))
M('loft no shift', 'caught', (S, "c.knots_mut().iter_mut().for_each(|x| *x -= min);", "c.knots_mut().iter_mut().for_each(|x| *x -= min - min);"))
M('loft degrees of the first', 'caught', (S, "let max_degree = curves.iter().fold(0, |d, c| d.max(c.degree()));", "let max_degree = curves[0].degree();"))
M('loft dehomogenized', 'caught', (S, ".map(|c| DVector::from_vec(c.control_points()[i].iter().copied().collect()))", ".map(|c| DVector::from_vec({ let p = &c.control_points()[i]; let w = p[p.len() - 1]; p.iter().map(|x| *x / w).collect() }))"))
M('loft by max degree iter', 'quiet', (S, "let max_degree = curves.iter().fold(0, |d, c| d.max(c.degree()));", "let max_degree = curves.iter().map(|c| c.degree()).max().unwrap_or(0);"))
M('loft parameters by loop', 'quiet', (S, "        let parameters = (0..unified_curves.len())\n            .map(|i| chords.iter().fold(T::zero(), |sum, us| sum + us[i]) / count)\n            .collect_vec();", "        let mut parameters = vec![T::zero(); unified_curves.len()];\n        for us in chords.iter() {\n            for (i, u) in us.iter().enumerate() {\n                parameters[i] += *u / count;\n            }\n        }"))
M('chords by scan', 'quiet', (C, "        let sub = &points[i] - &points[i - 1];\n        let chord = sub.norm();\n        let last = us[i - 1];\n        us.push(last + chord);", "        let chord = (&points[i] - &points[i - 1]).norm();\n        us.push(us[us.len() - 1] + chord);"))
M('matrix row set directly', 'quiet', (C, "        let row_start = vec![T::zero(); ls];\n        let row_end = vec![T::zero(); ld - ls];\n        let e = [row_start, basis, row_end].concat();\n        // println!(\"e = {:?}\", &e);\n        for j in 0..e.len() {\n            m_a[(i, j)] = e[j];\n        }", "        for (j, b) in basis.into_iter().enumerate() {\n            m_a[(i, ls + j)] = b;\n        }"))
