S='src/split/mod.rs'
T='src/trim/mod.rs'
M=lambda n,e,*ed: ('C18',n,e,list(ed))
MUTANTS=[
M('head misses a point','caught',(S,"let cpts0 = cloned.control_points()[0..=s].to_vec();\n        let cpts1 = cloned.control_points()[s + 1..].to_vec();","let cpts0 = cloned.control_points()[0..=s].to_vec();\n        let mut cpts1 = cloned.control_points()[s..].to_vec(); cpts1.pop();")),
M('parts swapped','caught',(S,"            Self::try_new(self.degree(), cpts0, knots0)?,\n            Self::try_new(self.degree(), cpts1, knots1)?,","            Self::try_new(self.degree(), cpts1, knots1)?,\n            Self::try_new(self.degree(), cpts0, knots0)?,")),
M('no multiplicity','caught',(S,"let knots_to_insert = (multiplicity..=self.degree()).map(|_| u).collect_vec();","let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();")),
M('multiplicity at ends too','caught',(S,"if min < u && u < max {","if min <= u && u < max {")),
M('curve not clamped','caught',(S,"        let u = self.knots().clamp(self.degree(), u);\n","")),
M('surface not clamped','caught',(S,"let parameter = knots.clamp(degree, option.parameter);","let parameter = option.parameter;")),
M('surface forgets transpose','caught',(S,"                    knots1,\n                    self.v_knots().to_vec(),\n                    transpose_control_points(&pts1),","                    knots1,\n                    self.v_knots().to_vec(),\n                    pts1,")),
M('surface other knots','caught',(S,"                    knots0,\n                    self.v_knots().to_vec(),","                    knots0,\n                    self.u_knots().to_vec(),")),
M('surface wrong direction','caught',(S,"(transposed, self.u_knots(), self.u_degree())","(transposed, self.u_knots(), self.v_degree())")),
M('surface second half','caught',(S,"let p1 = curve.control_points()[s + 1..].to_vec();","let p1 = curve.control_points()[s..].to_vec();")),
M('index by position','quiet',(S,"    (s - multiplicity, multiplicity)","    let before = knots.iter().filter(|k| **k < u).count();\n    (if multiplicity > 0 { before - 1 } else { s }, multiplicity)")),
M('own copy','quiet',(S,"        let mut cloned = self.clone();\n        cloned.try_refine_knot(knots_to_insert)?;","        let mut cloned = Self::try_new(self.degree(), self.control_points().clone(), self.knots().to_vec())?;\n        for k in knots_to_insert.iter() { cloned.try_refine_knot(vec![*k])?; }")),
M('drain form','quiet',(S,"let cpts0 = cloned.control_points()[0..=s].to_vec();\n        let cpts1 = cloned.control_points()[s + 1..].to_vec();","let cpts0 = cloned.control_points().iter().take(s + 1).cloned().collect_vec();\n        let cpts1 = cloned.control_points().iter().skip(s + 1).cloned().collect_vec();")),
M('trim inside keeps tail','caught',(T,"            let (head, _) = tail.try_split(max)?;\n            vec![head]","            let (_, head) = tail.try_split(max)?;\n            vec![head]")),
M('trim outside order','caught',(T,"            vec![tail2, head]","            vec![head, tail2]")),
M('trim outside ends','caught',(T,"            let (head, tail) = self.try_split(min)?;\n            let (_, tail2) = tail.try_split(max)?;","            let (head, tail) = self.try_split(max)?;\n            let (_, tail2) = tail.try_split(max)?;")),
M('trim inside other way','quiet',(T,"            let (_, tail) = self.try_split(min)?;\n            let (head, _) = tail.try_split(max)?;\n            vec![head]","            let (head, _) = self.try_split(max)?;\n            let (_, mid) = head.try_split(min)?;\n            vec![mid]")),
M('equal is inside','caught',(T,"        let inside = parameters.0 < parameters.1;\n        let curves = if inside {","        let inside = parameters.0 <= parameters.1;\n        let curves = if inside {")),
M('compound by start','caught',(T,"range.contains(&middle)","range.contains(&d0)")),
M('compound by both ends','quiet',(T,"range.contains(&middle)","(min <= d0 + eps && d1 - eps <= max)")),
M('compound inclusive','caught',(T,"d0 + eps < u && u < d1 - eps","d0 + eps <= u && u <= d1 - eps")),
M('compound head for tail','caught',(T,"""                                if inside {
                                    vec![tail]
                                } else {
                                    vec![head]
                                }""","""                                if inside {
                                    vec![tail]
                                } else {
                                    vec![head, tail]
                                }""")),
M('compound outside whole','caught',(T,"(false, true) => Ok(vec![]),","(false, true) => Ok(vec![curve.clone()]),")),
M('compound two trims','quiet',(T,"                            curve.try_trim_range((min, max))","                            let (_, t) = curve.try_split(min)?;\n                            t.try_split(max).map(|(h, _)| vec![h])")),
M('compound loop','quiet',(T,"""            .map(|curve| {
                let (d0""","""            .map(|curve| -> anyhow::Result<Vec<NurbsCurve<T, D>>> {
                let (d0""")),
]
