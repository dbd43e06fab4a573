MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C33', name, exp, edits))
C = 'src/curve/nurbs_curve.rs'
M('length up to the middle', 'caught', (C, "            .map(|s| compute_bezier_segment_length(s, u, &gauss))\n            .reduce(T::add);", "            .map(|s| compute_bezier_segment_length(s, u * T::from_f64(0.9).unwrap(), &gauss))\n            .reduce(T::add);"))
M('length by max', 'caught', (C, "            .reduce(T::add);", "            .reduce(|a, b| if a > b { a } else { b });"))
M('squared speed', 'caught', (C, "let tan = deriv[1].norm();\n            tan.to_f64()", "let tan = deriv[1].norm_squared();\n            tan.to_f64()"))
M('second derivative', 'caught', (C, "let left = start.to_f64().unwrap();\n        let right = t.to_f64().unwrap();", "let left = 0.;\n        let right = t.to_f64().unwrap();"))
M('rest of the first segment only', 'caught', (C, "            let l = length - acc_length;\n", "            let l = length;\n"))
M('tolerance ignored', 'quiet', (C, "let tolerance = tolerance.unwrap_or(T::from_f64(1e-4).unwrap());", "let tolerance = tolerance.unwrap_or(T::from_f64(1e-4).unwrap()).min(T::from_f64(1e-5).unwrap());"))
M('tolerance too wide', 'caught', (C, "let tolerance = tolerance.unwrap_or(T::from_f64(1e-4).unwrap());", "let tolerance = tolerance.unwrap_or(T::from_f64(1e-4).unwrap()).max(T::from_f64(1e-1).unwrap());"))
M('start after the end', 'quiet', (C, "    if length <= T::zero() {\n        return k0;", "    if length <= T::zero() {\n        return k1;"))
M('division without the start', 'caught', (C, "        let mut samples = vec![CurveLengthParameter::new(\n            self.knots_domain().0,\n            T::zero(),\n        )];", "        let mut samples = vec![CurveLengthParameter::new(\n            self.knots_domain().1,\n            T::zero(),\n        )];"))
M('sum by fold', 'quiet', (C, "        let total = lengthes.iter().fold(T::zero(), |a, b| a + *b);", "        let mut total = T::zero();\n        for l in lengthes.iter() {\n            total += *l;\n        }"))
M('length by loop', 'quiet', (C, "        let length = segments\n            .iter()\n            .map(|s| compute_bezier_segment_length(s, u, &gauss))\n            .reduce(T::add);\n        length.ok_or(anyhow::anyhow!(\"Failed to compute the length of the curve\"))", "        let mut length = T::zero();\n        for s in segments.iter() {\n            length += compute_bezier_segment_length(s, u, &gauss);\n        }\n        Ok(length)"))
