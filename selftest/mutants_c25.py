MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C25', name, exp, edits))
C, S, F = 'src/curve/nurbs_curve.rs', 'src/surface/nurbs_surface.rs', 'src/misc/frenet_frame.rs'
M('rotate about the wrong way', 'caught', (C, "let v = tangents[i - 1].cross(&tangents[i]).normalize();", "let v = tangents[i].cross(&tangents[i - 1]).normalize();"))
M('rotation from the first tangent', 'caught', (C, "let theta = tangents[i - 1]\n", "let theta = tangents[0]\n"))
M('binormal flipped', 'caught', (C, "binormals.push(tangents[i].cross(&normals[i]).normalize());", "binormals.push(normals[i].cross(&tangents[i]).normalize());"))
M('first normal along its axis', 'caught', (C, "normals[0] = tangents[0].cross(&v).normalize();", "normals[0] = v.cross(&normal).normalize();"))
M('least component by ge', 'quiet', (C, "        if ty <= min {\n            min = ty;\n            normal = Vector3::y();", "        if ty >= min {\n            min = ty;\n            normal = Vector3::y();"))
M('position of the neighbour', 'caught', (C, "FrenetFrame::new(position, tangents[i], normals[i], binormals[i])", "FrenetFrame::new(position, tangents[i], normals[i], binormals[0])"))
M('face along the normal', 'caught', (F, "Rotation3::face_towards(&self.tangent, &self.normal)", "Rotation3::face_towards(&self.tangent, &self.binormal)"))
M('placement rotated first', 'caught', (F, "        let trans = Translation3::from(self.position);", "        let trans = Translation3::from(self.rotation() * self.position);"))
M('sweep stops early', 'caught', (S, "let span = (end - start) / T::from_usize(samples - 1).unwrap();", "let span = (end - start) / T::from_usize(samples).unwrap();"))
M('sweep from zero', 'caught', (S, ".map(|i| start + T::from_usize(i).unwrap() * span)\n            .collect();\n\n        let frames", ".map(|i| T::from_usize(i).unwrap() * span)\n            .collect();\n\n        let frames"))
M('sweep only rotates', 'caught', (S, "let transform = frame.matrix();", "let transform = nalgebra::IsometryMatrix3::from_parts(nalgebra::Translation3::identity(), frame.rotation());"))
M('frames by loop', 'quiet', (C, "        parameters\n            .iter()\n            .enumerate()\n            .map(|(i, t)| {\n                let position = self.point_at(*t);\n                FrenetFrame::new(position, tangents[i], normals[i], binormals[i])\n            })\n            .collect()", "        let mut frames = Vec::with_capacity(parameters.len());\n        for i in 0..parameters.len() {\n            frames.push(FrenetFrame::new(self.point_at(parameters[i]), tangents[i], normals[i], binormals[i]));\n        }\n        frames"))
M('least component by chain', 'quiet', (C, "        if tz <= min {\n            normal = Vector3::z();\n        }", "        if !(tz > min) {\n            normal = Vector3::z();\n        }"))
M('sweep linear', 'quiet', (S, ".map(|i| start + T::from_usize(i).unwrap() * span)\n            .collect();\n\n        let frames", ".map(|i| { let w = T::from_usize(i).unwrap() / T::from_usize(samples - 1).unwrap(); start * (T::one() - w) + end * w })\n            .collect();\n        let _ = span;\n\n        let frames"))
M('matrix from parts', 'quiet', (F, "        trans * rot\n", "        IsometryMatrix3::from_parts(trans, rot)\n"))
M('sweep profiles by loop', 'quiet', (S, "        let curves: Vec<_> = frames\n            .iter()\n            .map(|frame| {\n                let transform = frame.matrix();\n                profile.transformed(&transform.into())\n            })\n            .collect();", "        let mut curves = vec![];\n        for frame in &frames {\n            curves.push(profile.transformed(&frame.matrix().into()));\n        }"))
