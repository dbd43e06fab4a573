MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C31', name, exp, edits))
C, S, K, SP, T = 'src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/knot/knot_vector.rs', 'src/split/mod.rs', 'src/trim/mod.rs'
M('add start', 'caught', (C, "        let start = idx.saturating_sub(k);\n", "        let start = idx.saturating_sub(k) + 1;\n"))
M('add alpha', 'caught', (C, "            let a = (self.knots[idx] - self.knots[i0]) * inv;", "            let a = (self.knots[idx] - self.knots[i0 + 1]) * inv;"))
M('add weight kept', 'caught', (C, "            let delta_control_point = if i0 == 0 {\n                self.control_points[i0].coords.clone()\n            } else if i0 == self.control_points.len() {", "            let delta_control_point = if i0 <= 1 {\n                self.control_points[i0].coords.clone()\n            } else if i0 == self.control_points.len() {"))
M('add by refinement', 'quiet', (C, "        let k = self.degree;\n        let n = self.control_points.len();\n        let idx = self.knots.add(knot);\n", "        let (lo, hi) = self.knots_domain();\n        if lo < knot && knot < hi {\n            return self.try_refine_knot(vec![knot]);\n        }\n        let k = self.degree;\n        let n = self.control_points.len();\n        let idx = self.knots.add(knot);\n"))
M('refine le', 'caught', (C, "            while knots_to_insert[j] <= self.knots[i] && i > a {", "            while knots_to_insert[j] < self.knots[i] && i > a + 1 {"))
M('refine weight', 'caught', (C, "                        let denom = knots_post[k + l] - self.knots[i - degree + l];", "                        let denom = knots_post[k + l] - self.knots[i - degree + l - 1];"))
M('refine last span', 'caught', (C, "            .find_knot_span_index(n, degree, knots_to_insert[r])\n            + 1;", "            .find_knot_span_index(n, degree, knots_to_insert[0])\n            + 1;"))
M('refine lerp swapped weight', 'quiet', (C, "                            .lerp(&control_points_post[ind], T::one() - weight);", "                            .lerp(&control_points_post[ind], -(weight - T::one()));"))
M('refine one at a time', 'quiet', (C, "        if knots_to_insert.is_empty() {\n            return Ok(());\n        }\n\n        let degree = self.degree;", "        if knots_to_insert.is_empty() {\n            return Ok(());\n        }\n        if knots_to_insert.len() > 1 {\n            for knot in knots_to_insert {\n                self.try_refine_knot(vec![knot])?;\n            }\n            return Ok(());\n        }\n\n        let degree = self.degree;"))
M('remove first occurrence', 'caught', (C, "            .rposition(|k| *k == knot)\n            .ok_or(anyhow::anyhow!(\"Knot not found\"))?; // last", "            .position(|k| *k == knot)\n            .ok_or(anyhow::anyhow!(\"Knot not found\"))?; // last"))
M('remove once', 'caught', (C, "        for _ in 0..s {\n            let off = first - 1;", "        for _ in 0..1 {\n            let off = first - 1;"))
M('remove control point shift', 'caught', (C, "            let fout = (2 * r - s - p) / 2;", "            let fout = (2 * r - t - p) / 2;"))
M('remove alfj', 'caught', (C, "(knot - removed_knots[j - t]) / (removed_knots[j + ord] - removed_knots[j - t]);", "(knot - removed_knots[j - t]) / (removed_knots[j + p] - removed_knots[j - t]);"))
M('remove always', 'caught', (C, "                (left - right).norm() <= tolerance", "                (left - right).norm() <= tolerance || t == 0"))
M('remove expand first', 'caught', (C, "            first -= 1;\n            last += 1;\n\n            t += 1;", "            first -= 1;\n            if t == 0 {\n                last += 1;\n            }\n\n            t += 1;"))
M('elevate half', 'caught', (C, "        for i in (ph2 + 1)..ph {", "        for i in (ph2 + 2)..ph {"))
M('elevate binomial', 'caught', (C, "                bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);", "                bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(target_degree, i - j);"))
M('elevate unclamped', 'caught', (C, "        if !self.is_clamped() {\n            let mut clamped = self.clone();\n            clamped.try_clamp()?;\n            return clamped.try_elevate_degree(target_degree);\n        }\n", ""))
M('elevate stepwise', 'quiet', (C, "        if !self.is_clamped() {\n            let mut clamped", "        if target_degree > self.degree + 1 {\n            return self\n                .try_elevate_degree(self.degree + 1)?\n                .try_elevate_degree(target_degree);\n        }\n        if !self.is_clamped() {\n            let mut clamped"))
M('clamp at the outer knots', 'caught', (C, "        let (start, end) = self.knots_domain();\n        for knot in [start, end] {", "        let (start, end) = (self.knots.first(), self.knots.last());\n        for knot in [start, end] {"))
M('clamp one short', 'caught', (C, "            for _ in count..degree {\n", "            for _ in count + 1..degree {\n"))
M('clamp reversed order', 'quiet', (C, "        for knot in [start, end] {", "        for knot in [end, start] {"))
M('bezier misses a knot', 'caught', (C, "            if knot_mult.multiplicity() < req_mult {\n                let knots_insert", "            if knot_mult.multiplicity() + 1 < req_mult {\n                let knots_insert"))
M('bezier div', 'caught', (C, "        let div = cloned.knots().len() / req_mult - 1;", "        let div = cloned.knots().len() / (req_mult + 1) - 1;"))
M('bezier by chunks', 'quiet', (C, "        let div = cloned.knots().len() / req_mult - 1;\n", "        let div = cloned.control_points().len() / req_mult;\n"))
M('split tail start', 'caught', (SP, "        let cpts1 = cloned.control_points()[s + 1..].to_vec();\n        Ok((", "        let cpts1 = cloned.control_points()[s + multiplicity + 1..].to_vec();\n        let knots1 = knots1[multiplicity..].to_vec();\n        Ok(("))
M('split multiplicity ignored', 'caught', (SP, "        knots.iter().filter(|k| **k == u).count().min(degree + 1)\n", "        knots.iter().filter(|k| **k == u).count().min(1)\n"))
M('split surface knots swapped', 'caught', (SP, "                    degree,\n                    self.v_degree(),\n                    knots1,\n                    self.v_knots().to_vec(),", "                    degree,\n                    self.v_degree(),\n                    knots1,\n                    self.u_knots().to_vec(),"))
M('surface refine first row', 'caught', (S, "                let u_knots = refined\n                    .first()", "                let u_knots = refined\n                    .get(1..1)\n                    .and_then(|c| c.first())"))
M('surface refine v by u degree', 'caught', (S, "                        let mut curve = NurbsCurve::try_new(\n                            self.v_degree,", "                        let mut curve = NurbsCurve::try_new(\n                            self.u_degree,"))
M('isocurve multiplicity', 'quiet', (S, "                    Some((degree + 1) - m)\n", "                    Some((degree + 1) - m.min(1))\n"))
M('isocurve span', 'quiet', (S, "                .saturating_sub(1)\n                .min(", "                .min("))
M('isocurve row', 'caught', (S, "                refined.control_points[span].clone(),\n                refined.v_knots.clone().to_vec(),", "                self.control_points[span.min(self.control_points.len() - 1)].clone(),\n                refined.v_knots.clone().to_vec(),"))
M('boundary order', 'caught', (S, "            self.try_isocurve(u_end, UVDirection::U)?,\n            self.try_isocurve(v_end, UVDirection::V)?,", "            self.try_isocurve(v_end, UVDirection::U)?,\n            self.try_isocurve(u_end, UVDirection::V)?,"))
M('floor in add', 'caught', (K, "            Some(idx) => {\n                self.0.insert(idx + 1, knot);\n                idx + 1", "            Some(idx) => {\n                self.0.insert(idx + 1, knot);\n                idx"))
