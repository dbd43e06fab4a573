MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C23', name, exp, edits))
C, S, R = 'src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/misc/ray.rs'
M('arc weight', 'caught', (C, "        let w1 = (dtheta / T::from_f64(2.0).unwrap()).cos();", "        let w1 = (dtheta / T::from_f64(2.0).unwrap()).cos().max(T::from_f64(0.5).unwrap());"))
M('arc knots of two pieces', 'caught', (C, "                let v = T::from_f64(0.5).unwrap();\n                knots[3] = v;", "                let v = T::from_f64(0.5).unwrap();\n                knots[3] = v * v;"))
M('arc knots of three pieces', 'caught', (C, "                let v2 = T::from_f64(2. / 3.).unwrap();", "                let v2 = T::from_f64(2. / 3.).unwrap().sqrt();"))
M('arc tangent of a circle', 'caught', (C, "            let t2 = &y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin();", "            let t2 = &y_axis * y_radius * angle.cos() - &x_axis * y_radius * angle.sin();"))
M('arc tangent not advanced', 'caught', (C, "                p0 = p2;\n                t0 = t2;\n            }\n        }\n\n        for i in 0..3 {\n            knots[n + i]", "                p0 = p2;\n                if i != 2 {\n                    t0 = t2;\n                }\n            }\n        }\n\n        for i in 0..3 {\n            knots[n + i]"))
M('arc domain', 'caught', (C, "            *v = theta * *v + start_angle;", "            *v = theta * *v + start_angle.abs();"))
M('arc in three pieces', 'quiet', (C, "        let arcs = arcs.unwrap_or(1).clamp(1, 4);", "        let arcs = arcs.unwrap_or(1).clamp(1, 3);"))
M('arc radius', 'caught', (C, "        let y_axis = y_axis.normalize() * radius;\n        Self::try_ellipse_arc", "        let y_axis = y_axis * radius;\n        Self::try_ellipse_arc"))
M('arc as turned point', 'quiet', (C, "            let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();", "            let (sin, cos) = angle.sin_cos();\n            let p2 = center + (&x_axis * (x_radius * cos) + &y_axis * (y_radius * sin));"))
M('arc by pieces in a loop', 'quiet', (C, "                let v = T::from_f64(0.5).unwrap();\n                knots[3] = v;\n                knots[4] = v;", "                for k in 1..arcs {\n                    let v = T::from_usize(k).unwrap() / T::from_usize(arcs).unwrap();\n                    knots[2 * k + 1] = v;\n                    knots[2 * k + 2] = v;\n                }"))
M('polyline length', 'caught', (C, "            acc += (&points[i] - &points[i + 1]).norm();", "            acc += (&points[0] - &points[i + 1]).norm();"))
M('polyline scale', 'caught', (C, "            knots.into_iter().map(|k| k / acc).collect()", "            knots.into_iter().map(|k| k / (T::one() + acc)).collect()"))
M('polyline end knot', 'quiet', (C, "        knots.push(acc);\n\n        let knots = if", "        knots.push(acc + acc);\n\n        let knots = if"))
M('polyline squared', 'caught', (C, "            acc += (&points[i] - &points[i + 1]).norm();", "            acc += (&points[i] - &points[i + 1]).norm_squared();"))
M('polyline windows', 'quiet', (C, "        for i in 0..(points.len() - 1) {\n            acc += (&points[i] - &points[i + 1]).norm();\n            knots.push(acc);\n        }", "        for i in 1..points.len() {\n            let d = &points[i] - &points[i - 1];\n            acc += d.dot(&d).sqrt();\n            knots.push(acc);\n        }"))
M('periodic knots', 'caught', (C, "        let knots = (0..(n + 1 + degree * 2)).map(|i| T::from_usize(i).unwrap());\n\n        Ok(Self {\n            control_points: pts", "        let knots = (0..(n + 1 + degree * 2)).map(|i| T::from_usize(i.max(degree)).unwrap());\n\n        Ok(Self {\n            control_points: pts"))
M('periodic points', 'caught', (C, "        let pts = points.iter().cycle().take(n + degree);", "        let pts = points.iter().chain(points.iter().rev()).take(n + degree);"))
M('plane corner', 'caught', (S, "                    (center.clone() - x_axis.clone() + y_axis.clone())", "                    (center.clone() - y_axis.clone() + x_axis.clone())"))
M('extrude half', 'caught', (S, "        let half_translation = translation * T::from_f64(0.5).unwrap();", "        let half_translation = translation * T::from_f64(0.25).unwrap();"))
M('extrude weight', 'caught', (S, "                o1[j] = p1[j] * w;", "                o1[j] = p1[j];"))
M('extrude order', 'caught', (S, "            control_points[0].push(o0);\n            control_points[1].push(o1);\n            control_points[2].push(o2);", "            control_points[2].push(o0);\n            control_points[1].push(o1);\n            control_points[0].push(o2);"))
M('revolve three arcs', 'caught', (S, "            knots[3] = frac_three;\n            knots[4] = frac_three;\n            knots[5] = two_frac_three;\n            knots[6] = two_frac_three;\n            (3, knots)", "            knots[3] = frac_three;\n            knots[4] = two_frac_three;\n            knots[5] = two_frac_three;\n            knots[6] = two_frac_three;\n            (3, knots)"))
M('revolve weight', 'caught', (S, "                control_points[l][j].w = wm * prof_weights[j];", "                control_points[l][j].w = wm;"))
M('revolve handed', 'caught', (S, "            let mut y = axis.cross(&x);", "            let mut y = x.cross(axis);"))
M('revolve tangent', 'caught', (S, "                let t2 = y * cosines[i] - x * sines[i];", "                let t2 = y * cosines[i] - x * sines[1];"))
M('revolve axis not unit', 'caught', (S, "        let axis = &axis.normalize();\n", "        let axis = &(axis / axis.norm_squared());\n"))
M('revolve on the axis', 'caught', (S, "                if on_axis {\n                    control_points[l][j].x = o.x;", "                if on_axis {\n                    control_points[l][j].x = p0.y;"))
M('revolve by mid angle', 'quiet', (S, "        let mut angle = T::zero();\n        let mut sines = vec![T::zero(); narcs + 1];\n        let mut cosines = vec![T::zero(); narcs + 1];\n        for i in 0..=narcs {\n            cosines[i] = angle.cos();\n            sines[i] = angle.sin();\n            angle += dtheta;\n        }", "        let (sines, cosines): (Vec<T>, Vec<T>) = (0..=narcs)\n            .map(|i| (dtheta * T::from_usize(i).unwrap()).sin_cos())\n            .unzip();"))
M('sphere half', 'caught', (S, "        Self::try_revolve(&arc, center, axis, T::two_pi())", "        Self::try_revolve(&arc, center, axis, T::pi() + T::frac_pi_2())"))
M('sphere profile', 'caught', (S, "NurbsCurve::try_arc(center, &-axis, x_axis, radius, T::zero(), T::pi())?", "NurbsCurve::try_ellipse_arc(center, &-axis, &(x_axis.normalize() * radius), T::zero(), T::pi())?"))
M('ray intersection', 'caught', (R, "        let t = (dab0 - daa0 + w * dab) / daa;", "        let t = (dab0 - daa0 + w * dab) / dbb * dab.abs();"))
M('ray early parallel', 'caught', (R, "        if div.abs() < T::default_epsilon() {", "        if div.abs() < T::from_f64(0.3).unwrap() {"))
