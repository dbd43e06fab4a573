C='src/curve/nurbs_curve.rs'
S='src/surface/nurbs_surface.rs'
TS='src/surface/trimmed_surface.rs'
K='src/knot/knot_vector.rs'
CC='src/region/compound_curve.rs'
R='src/region/mod.rs'
T='src/tessellation/surface_tessellation.rs'
B='src/bounding_box/mod.rs'
F='src/misc/frenet_frame.rs'
X='src/misc/transpose.rs'
M=lambda n,e,*ed: ('C09',n,e,list(ed))
MUTANTS=[
M('curve transform skips the last','caught',(C,"        self.control_points.iter_mut().for_each(|p| {\n            // dehomogenize","        let n = self.control_points.len() - 1;\n        self.control_points.iter_mut().take(n).for_each(|p| {\n            // dehomogenize")),
M('curve transform no division','caught',(C,"                pt[i] /= ow;\n            }\n\n            pt[D - 1] = T::one();","                pt[i] /= T::one();\n            }\n\n            pt[D - 1] = T::one();")),
M('curve transform last unscaled','caught',(C,"p[i] = transformed[i] / w * ow;","p[i] = transformed[i] / w;")),
M('curve transform weight lost','caught',(C,"                p[i] = transformed[i] / w * ow;\n            }","                p[i] = transformed[i] / w * ow;\n            }\n            p[D - 1] = w;")),
M('curve transform premultiplied','quiet',(C,"p[i] = transformed[i] / w * ow;","p[i] = ow * transformed[i] / w;")),
M('curve transform loop','quiet',(C,"        self.control_points.iter_mut().for_each(|p| {\n            // dehomogenize\n            let ow = p[D - 1];\n            let mut pt = *p;\n            for i in 0..D - 1 {\n                pt[i] /= ow;\n            }\n\n            pt[D - 1] = T::one();\n            let transformed = transform * pt;\n            let w = transformed[D - 1];\n            for i in 0..D - 1 {\n                p[i] = transformed[i] / w * ow;\n            }\n        });","        for p in self.control_points.iter_mut() {\n            let ow = p[D - 1];\n            let mut pt = *p;\n            (0..D - 1).for_each(|i| pt[i] = pt[i] / ow);\n            pt[D - 1] = T::one();\n            let q = transform * pt;\n            let k = ow / q[D - 1];\n            (0..D - 1).for_each(|i| p[i] = q[i] * k);\n        }")),
M('surface transform first row only','caught',(S,"        self.control_points.iter_mut().for_each(|rows| {","        self.control_points.iter_mut().take(1).for_each(|rows| {")),
M('surface transform skips column','caught',(S,"            rows.iter_mut().for_each(|p| {\n                // dehomogenize","            rows.iter_mut().skip(1).for_each(|p| {\n                // dehomogenize")),
M('surface transform coordinate','caught',(S,"            for i in 0..D - 1 {\n                    p[i] = transformed[i] / w * ow;".replace("            for","                for"),"                for i in 0..D - 2 {\n                    p[i] = transformed[i] / w * ow;")),
M('curve invert points only','caught',(C,"        self.control_points.reverse();\n        self.knots.invert();","        self.control_points.reverse();")),
M('curve invert knots only','caught',(C,"        self.control_points.reverse();\n        self.knots.invert();","        self.knots.invert();")),
M('curve invert rotates','caught',(C,"        self.control_points.reverse();\n        self.knots.invert();","        self.control_points.rotate_left(1);\n        self.knots.invert();")),
M('curve invert collects','quiet',(C,"        self.control_points.reverse();\n        self.knots.invert();","        self.knots.invert();\n        self.control_points = self.control_points.iter().rev().cloned().collect();")),
M('knot invert by subtraction','quiet',(K,"        let min = self.0.first().unwrap();\n\n        let mut next = vec![*min];\n        let len = self.len();\n        for i in 1..len {\n            next.push(next[i - 1] + (self[len - i] - self[len - i - 1]));\n        }\n\n        self.0 = next;","        let sum = self[0] + self[self.len() - 1];\n        self.0 = self.0.iter().rev().map(|k| sum - *k).collect();")),
M('knot invert spans kept','caught',(K,"next.push(next[i - 1] + (self[len - i] - self[len - i - 1]));","next.push(next[i - 1] + (self[i] - self[i - 1]));")),
M('knot invert shifted','caught',(K,"        let mut next = vec![*min];\n        let len","        let mut next = vec![*min - *min];\n        let len")),
M('surface invert rows only','caught',(S,"        self.control_points.iter_mut().for_each(|row| {\n            row.reverse();\n        });\n        self.control_points.reverse();","        self.control_points.iter_mut().for_each(|row| {\n            row.reverse();\n        });")),
M('surface invert u twice','caught',(S,"        self.u_knots.invert();\n        self.v_knots.invert();","        self.u_knots.invert();\n        self.v_knots = self.v_knots.clone();")),
M('flip u keeps knots','caught',(S,"                flipped.u_knots = flipped.u_knots.inverse();","                flipped.u_knots = flipped.u_knots.clone();")),
M('flip v inverts u','caught',(S,"                flipped.v_knots = flipped.v_knots.inverse();","                flipped.u_knots = flipped.u_knots.inverse();")),
M('flip uv only u','caught',(S,"            FlipDirection::V | FlipDirection::UV => {","            FlipDirection::V => {")),
M('flip v first row','caught',(S,"                    .map(|row| row.iter().rev().cloned().collect())\n                    .collect();\n                flipped","                    .enumerate()\n                    .map(|(i, row)| if i == 0 { row.clone() } else { row.iter().rev().cloned().collect() })\n                    .collect();\n                flipped")),
M('flip in place','quiet',(S,"flipped.control_points = flipped.control_points.iter().rev().cloned().collect();","flipped.control_points.reverse();")),
M('compound invert order','caught',(CC,"        self.spans.reverse();\n","")),
M('compound invert spans','caught',(CC,"        self.spans.iter_mut().for_each(|span| span.invert());\n","")),
M('compound invert first','caught',(CC,"        self.spans.iter_mut().for_each(|span| span.invert());\n","        self.spans.iter_mut().skip(1).for_each(|span| span.invert());\n")),
M('compound invert unaligned','caught',(CC,"                knot_offset = span.knots().last();\n            });\n        }","            });\n            knot_offset += T::zero();\n            let _ = knot_offset;\n        }")),
M('compound transform one','caught',(CC,"            .iter_mut()\n            .for_each(|span| span.transform(transform));","            .iter_mut()\n            .take(1)\n            .for_each(|span| span.transform(transform));")),
M('compound transform loop','quiet',(CC,"        self.spans\n            .iter_mut()\n            .for_each(|span| span.transform(transform));","        for span in self.spans.iter_mut() {\n            span.transform(transform);\n        }")),
M('region transform exterior only','caught',(R,"        self.interiors\n            .iter_mut()\n            .for_each(|interior| interior.transform(transform));\n","")),
M('region transform interiors only','caught',(R,"        self.exterior.transform(transform);\n","")),
M('region invert first interior','caught',(R,"            .for_each(|interior| interior.invert());","            .take(1)\n            .for_each(|interior| interior.invert());")),
M('region invert exterior','caught',(R,"        self.exterior.invert();\n","")),
M('trimmed transform curves too','caught',(TS,"        self.surface.transform(transform);","        self.surface.transform(transform);\n        self.interiors.reverse();")),
M('trimmed invert no interior','caught',(TS,"            .chain(self.interiors.iter_mut())\n","")),
M('trimmed invert not mirrored','caught',(TS,"                    p[1] = v * w - p[1];\n","")),
M('trimmed invert swapped','caught',(TS,"                    p[1] = v * w - p[1];\n","                    p[1] = u * w - p[1];\n")),
M('trimmed invert unweighted','caught',(TS,"p[0] = u * w - p[0];","p[0] = u - p[0];")),
M('trimmed invert surface kept','caught',(TS,"        self.surface.invert();\n","")),
M('curve cast degree','caught',(C,"            degree: self.degree,\n            knots: self.knots.cast(),","            degree: self.degree.max(3),\n            knots: self.knots.cast(),")),
M('curve cast skips','caught',(C,"                .map(|p| p.clone().cast())\n                .collect(),\n            degree","                .skip(1)\n                .map(|p| p.clone().cast())\n                .collect(),\n            degree")),
M('surface cast knots','caught',(S,"            v_knots: self.v_knots.cast(),\n        }\n    }\n}","            v_knots: self.u_knots.cast(),\n        }\n    }\n}")),
M('surface cast degrees','caught',(S,"            u_degree: self.u_degree,\n            v_degree: self.v_degree,\n            u_knots: self.u_knots.cast(),","            u_degree: self.v_degree,\n            v_degree: self.u_degree,\n            u_knots: self.u_knots.cast(),")),
M('knot cast reversed','caught',(K,"self.0.iter().map(|v| convert(*v)).collect()","self.0.iter().rev().map(|v| convert(*v)).collect()")),
M('knot cast into','quiet',(K,"        KnotVector::new(self.0.iter().map(|v| convert(*v)).collect())","        let mut ks = vec![];\n        for v in self.0.iter() {\n            ks.push(convert(*v));\n        }\n        KnotVector::new(ks)")),
M('mesh cast normals from points','caught',(T,"normals: self.normals.iter().map(|n| n.clone().cast()).collect()","normals: self.normals.iter().rev().map(|n| n.clone().cast()).collect()")),
M('mesh cast faces','caught',(T,"faces: self.faces.clone(),","faces: self.faces.iter().map(|f| [f[0], f[2], f[1]]).collect(),")),
M('box cast','caught',(B,"max: self.max.clone().cast(),","max: self.min.clone().cast(),")),
M('frame cast','caught',(F,"normal: self.normal.cast(),\n            binormal: self.binormal.cast(),","normal: self.binormal.cast(),\n            binormal: self.normal.cast(),")),
M('transpose twice','caught',(X,"            transposed[j].push(p.clone());","            transposed[j].insert(0, p.clone());")),
M('transpose by index','quiet',(X,"    points.iter().for_each(|row| {\n        row.iter().enumerate().for_each(|(j, p)| {\n            transposed[j].push(p.clone());\n        })\n    });","    for row in points.iter() {\n        for j in 0..row.len() {\n            transposed[j].push(row[j].clone());\n        }\n    }")),
M('elevate order','caught',(C,"            coords.push(T::zero()); // set a zero in the last dimension\n            coords.push(p[D::dim() - 1]);","            coords.push(p[D::dim() - 1]);\n            coords.push(T::zero());")),
M('elevate last coordinate','caught',(C,"            for i in 0..(D::dim() - 1) {\n                coords.push(p[i]);\n            }\n            coords.push(T::zero()); //","            for i in 0..(D::dim() - 2) {\n                coords.push(p[i]);\n            }\n            coords.push(T::zero());\n            coords.push(T::zero()); //")),
]
