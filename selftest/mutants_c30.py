MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C30', name, exp, edits))
C, S, K, CC = 'src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/knot/knot_vector.rs', 'src/region/compound_curve.rs'
M('span strict upper','caught',(K,"while u < self[mid] || self[mid + 1] <= u {","while u < self[mid] || self[mid + 1] < u {"))
M('span no end clause','quiet',(K,"        if u > self[n + 1] - T::default_epsilon() {\n            return n;\n        }\n","        if u > self[n + 1] + T::default_epsilon() {\n            return n;\n        }\n"))
M('span partition','quiet',(K,"        // binary search\n        let mut low = degree;","        if self.0.len() > n + 2 {\n            let mut i = n;\n            for k in degree..=n {\n                if self[k] <= u && u < self[k + 1] {\n                    i = k;\n                }\n            }\n            return i;\n        }\n        // binary search\n        let mut low = degree;"))
M('basis left index','caught',(K,"            for r in 0..j {\n                let temp = basis_functions[r] / (right[r + 1] + left[j - r]);","            for r in 0..j {\n                let temp = basis_functions[r] / (right[j - r] + left[r + 1]);"))
M('basis saved kept','caught',(K,"                basis_functions[r] = saved + right[r + 1] * temp;\n                saved = left[j - r] * temp;","                basis_functions[r] = saved + right[r + 1] * temp;\n                saved = left[j] * temp;"))
M('derivative factor','caught',(K,"            acc *= idegree - k;","            acc *= if k > 1 { idegree - 1 } else { idegree - k };"))
M('derivative rows not switched','caught',(K,"                std::mem::swap(&mut s1, &mut s2);","                if k < 2 {\n                    std::mem::swap(&mut s1, &mut s2);\n                }"))
M('derivative factor pow','quiet',(K,"        let mut acc = idegree;\n        for k in 1..=n {\n            for j in 0..=idegree {\n                ders[k as usize][j as usize] *= T::from_isize(acc).unwrap();\n            }\n            acc *= idegree - k;\n        }","        for k in 1..=n {\n            let acc: isize = (0..k).map(|i| idegree - i).product();\n            for der in ders[k as usize].iter_mut() {\n                *der *= T::from_isize(acc).unwrap();\n            }\n        }"))
M('curve du','caught',(C,"        let du = if derivs < self.degree {\n            derivs\n        } else {\n            self.degree\n        };\n        let mut derivatives","        let du = if derivs < self.degree {\n            derivs\n        } else {\n            self.degree - 1\n        };\n        let mut derivatives"))
M('curve du min','quiet',(C,"        let du = if derivs < self.degree {\n            derivs\n        } else {\n            self.degree\n        };\n        let mut derivatives","        let du = derivs.min(self.degree);\n        let mut derivatives"))
M('curve binomial','caught',(C,"                let coef = binom.get(k, i) * w_ders[i];","                let coef = binom.get(k - 1, i - 1) * w_ders[i];"))
M('curve weight derivative','caught',(C,"                let coef = binom.get(k, i) * w_ders[i];","                let coef = binom.get(k, i) * w_ders[1];"))
M('curve quotient not divided','caught',(C,"            let dehom = v / w_ders[0];","            let dehom = if k == 0 { v / w_ders[0] } else { v };"))
M('curve point fold','quiet',(C,"        let mut position = OPoint::<T, D>::origin();\n        for i in 0..=self.degree {\n            position.coords +=\n                &self.control_points[knot_span_index - self.degree + i].coords * basis[i];\n        }\n        position","        let first = knot_span_index - self.degree;\n        OPoint::from(\n            self.control_points[first..=knot_span_index]\n                .iter()\n                .zip(basis.iter())\n                .fold(OVector::<T, D>::zeros(), |acc, (p, b)| acc + &p.coords * *b),\n        )"))
M('curve point parameter clamped','caught',(C,"        let basis = self.knots.basis_functions(knot_span_index, t, self.degree);\n        let mut position","        let basis = self.knots.basis_functions(knot_span_index, t.min(self.knots[n]), self.degree);\n        let mut position"))
M('tangent unit','caught',(C,"        let deriv = self.rational_derivatives(u, 1);\n        deriv[1].clone()\n","        let deriv = self.rational_derivatives(u, 1);\n        deriv[1].clone() / self.knots_domain_interval()\n"))
M('second derivative order','quiet',(C,"        let deriv = self.rational_derivatives(u, 2);\n        deriv[2].clone()","        let mut deriv = self.rational_derivatives(u, 2);\n        deriv.remove(2)"))
M('samples step','caught',(C,"        let mut points = vec![];\n        let us = T::from_usize(samples).unwrap();\n        let step = (end - start) / (us - T::one());\n        for i in 0..samples {\n            let t = start + T::from_usize(i).unwrap() * step;\n            points.push(self.point_at(t));","        let mut points = vec![];\n        let us = T::from_usize(samples).unwrap();\n        let step = (end - start) / us;\n        for i in 0..samples {\n            let t = start + T::from_usize(i).unwrap() * step;\n            points.push(self.point_at(t));"))
M('samples map','quiet',(C,"        let mut points = vec![];\n        let us = T::from_usize(samples).unwrap();\n        let step = (end - start) / (us - T::one());\n        for i in 0..samples {\n            let t = start + T::from_usize(i).unwrap() * step;\n            points.push(self.point_at(t));\n        }\n        points","        let last = T::from_usize(samples - 1).unwrap();\n        (0..samples)\n            .map(|i| {\n                let r = T::from_usize(i).unwrap() / last;\n                self.point_at(start * (T::one() - r) + end * r)\n            })\n            .collect()"))
M('surface u index','caught',(S,"        let uind = knot_span_index_u - self.u_degree;\n\n        let mut position","        let uind = knot_span_index_u - self.u_degree.min(self.v_degree);\n\n        let mut position"))
M('surface derivs dv','caught',(S,"            let nk = derivs - k;\n            let dd = if nk < dv { nk } else { dv };\n\n            for l in 0..=dd {\n                for (s, item)","            let nk = derivs - k;\n            let dd = if nk < dv { nk } else { dv - 1 };\n\n            for l in 0..=dd {\n                for (s, item)"))
M('surface temp kept','caught',(S,"                temp[s] = OPoint::<T, D>::origin();\n","                if k == 0 {\n                    temp[s] = OPoint::<T, D>::origin();\n                }\n"))
M('surface binomial','caught',(S,"                let coef = binom.get(l, j) * w_ders[0][j];","                let coef = binom.get(k, j) * w_ders[0][j];"))
M('surface normal order','caught',(S,"        let v0 = &deriv[1][0];\n        let v1 = &deriv[0][1];\n        v0.cross(v1)\n","        let v0 = &deriv[0][1];\n        let v1 = &deriv[1][0];\n        v0.cross(v1)\n"))
M('grid basis stale','caught',(K,"            while u >= self[knot_index + 1] && knot_index < n {\n                knot_index += 1;\n            }\n            knot_spans.push(knot_index);\n            bases.push(self.basis_functions(knot_index, u, degree));","            if u > self[knot_index + 1] && knot_index < n {\n                knot_index += 1;\n            }\n            knot_spans.push(knot_index);\n            bases.push(self.basis_functions(knot_index, u, degree));"))
M('grid derivatives stale','caught',(K,"            while u >= self[knot_index + 1] && knot_index < n {\n                knot_index += 1;\n            }\n            knot_spans.push(knot_index);\n            bases.push(self.derivative_basis_functions(knot_index, u, degree, n));","            if u > self[knot_index + 1] && knot_index < n {\n                knot_index += 1;\n            }\n            knot_spans.push(knot_index);\n            bases.push(self.derivative_basis_functions(knot_index, u, degree, n));"))
M('grid span lookup','quiet',(K,"            while u >= self[knot_index + 1] && knot_index < n {\n                knot_index += 1;\n            }\n            knot_spans.push(knot_index);\n            bases.push(self.basis_functions(knot_index, u, degree));","            knot_index = self.find_knot_span_index(n, degree, u);\n            knot_spans.push(knot_index);\n            bases.push(self.basis_functions(knot_index, u, degree));"))
M('grid parameters from zero','caught',(K,"        let (start, end) = self.domain(degree);\n        let span = (end - start) / T::from_usize(divs).unwrap();","        let (start, end) = self.domain(degree);\n        let span = end / T::from_usize(divs).unwrap();"))
M('grid knot ends','caught',(K,"        let (start, end) = self.domain(degree);\n        let span","        let (start, end) = (self.first(), self.last());\n        let span"))
M('grid normals swapped','caught',(S,"                        let v0 = &der[1][0];\n                        let v1 = &der[0][1];","                        let v0 = &der[0][1];\n                        let v1 = &der[1][0];"))
M('grid dd','caught',(S,"                for s in 0..=self.v_degree {\n                    v += &temp[s] * bases_v[l][s];","                for s in 0..=self.u_degree.min(self.v_degree) {\n                    v += &temp[s] * bases_v[l][s];"))
M('mesh uv v first','caught',(S,"                    let v = v_span.0 + v_span.2 * iv;\n                    Vector2::new(u, v)","                    let v = v_span.0 + u_span.2 * iv;\n                    Vector2::new(u, v)"))
M('domain ends','caught',(K,"        (self.0[degree], self.0[self.0.len() - 1 - degree])","        (self.0[degree], self.0[self.0.len() - 1])"))
M('normalize by span','caught',(C,"        let (min, max) = self.knots_domain();\n        let size = max - min;","        let (min, max) = (knots.first(), knots.last());\n        let size = max - min;"))
M('multiplicity drops last','caught',(K,"        mult.push(current);\n\n        mult","        if current.multiplicity() > 1 {\n            mult.push(current);\n        }\n\n        mult"))
M('is clamped at start','caught',(K,"                start.multiplicity() > degree && end.multiplicity() > degree","                start.multiplicity() > degree || end.multiplicity() > degree"))
M('floor strict','caught',(K,"self.iter().rposition(|t| *t <= knot)","self.iter().rposition(|t| *t < knot)"))
M('floor rev position','quiet',(K,"self.iter().rposition(|t| *t <= knot)","(0..self.len()).rev().find(|i| self[*i] <= knot)"))
M('compound first span','caught',(CC,"        let span = self.spans.iter().find(|span| {\n            let (d0, d1) = span.knots_domain();\n            (d0..=d1).contains(&t)\n        });\n        span.map(|span| span.point_at(t))","        let span = self.spans.iter().find(|span| {\n            let (_, d1) = span.knots_domain();\n            t <= d1\n        });\n        span.map(|span| span.point_at(t))"))
M('compound local parameter','caught',(CC,"        span.map(|span| span.point_at(t))","        span.map(|span| span.point_at(t - self.spans[0].knots_domain().0))"))
M('weights first','caught',(C,"            .map(|p| p[D::dim() - 1])\n            .collect()","            .map(|p| p[D::dim() - 1] / self.control_points[0][D::dim() - 1])\n            .collect()"))
M('dehomogenize shares','caught',(C,"            .map(|p| dehomogenize(p).unwrap())\n            .collect()","            .map(|p| dehomogenize(p).unwrap() * self.control_points[0][D::dim() - 1])\n            .collect()"))
