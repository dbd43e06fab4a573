B='src/bounding_box/mod.rs'
T='src/bounding_box/bounding_box_traversal.rs'
C='src/bounding_box/curve_bounding_box_tree.rs'
S='src/bounding_box/surface_bounding_box_tree.rs'
M=lambda n,e,*ed: ('C16',n,e,list(ed))
MUTANTS=[
M('touching boxes disjoint','caught',(B,"if d0 * d1 > T::zero() {","if d0 * d1 >= T::zero() {")),
M('tolerance shrinks','caught',(B,"let b1 = max1 + tolerance;","let b1 = max1 - tolerance;")),
M('one sided tolerance','caught',(B,"let a1 = max0 + tolerance;","let a1 = max0;")),
M('only one order','caught',(B,"if d0 * d1 > T::zero() {","if d0 > T::zero() {")),
M('comparison form','quiet',(B,"if d0 * d1 > T::zero() {","if a1 < b0 || b1 < a0 {")),
M('gap form','quiet',(B,"""            let d0 = b0 - a1;
            let d1 = b1 - a0;

            // If the intervals are disjoint,
            // there is no intersection.
            if d0 * d1 > T::zero() {
                return false;
            }""","""            let gap = (min1 - max0).max(min0 - max1);
            let _ = (a0, a1, b0, b1);
            if gap > tolerance + tolerance {
                return false;
            }""")),
M('wrong pair of ends','caught',(B,"let d1 = b1 - a0;","let d1 = b1 - a1;")),
M('contains open end','caught',(B,"self.min[i] <= point[i] && point[i] <= self.max[i]","self.min[i] <= point[i] && point[i] < self.max[i]")),
M('contains first dims','caught',(B,"(0..D::dim()).all(|i| self.min[i]","(0..D::dim().min(2)).all(|i| self.min[i]")),
M('contains loop','quiet',(B,"(0..D::dim()).all(|i| self.min[i] <= point[i] && point[i] <= self.max[i])","!(0..D::dim()).any(|i| self.min[i] > point[i] || point[i] > self.max[i])")),
M('max starts at zero','caught',(B,"""        let mut max = -min.clone();

        for point in iter {""","""        let mut max = min.clone() * T::zero();

        for point in iter {""")),
M('else if in fold','caught',(B,"""                min[i] = min[i].min(point[i]);
                max[i] = max[i].max(point[i]);""","""                if point[i] < min[i] {
                    min[i] = point[i];
                } else if point[i] > max[i] {
                    max[i] = point[i];
                }""")),
M('ifs in fold','quiet',(B,"""                min[i] = min[i].min(point[i]);
                max[i] = max[i].max(point[i]);""","""                if point[i] < min[i] {
                    min[i] = point[i];
                }
                if point[i] > max[i] {
                    max[i] = point[i];
                }""")),
M('new forgets swapped','caught',(B,"tmax[i] = tmax[i].max(max[i]).max(min[i]);","tmax[i] = tmax[i].max(max[i]);")),
M('new simple','quiet',(B,"""            tmin[i] = tmin[i].min(min[i]).min(max[i]);
            tmax[i] = tmax[i].max(max[i]).max(min[i]);""","""            tmin[i] = min[i].min(max[i]);
            tmax[i] = min[i].max(max[i]);""")),
M('compound skips first','caught',(B,"""            .spans()
            .iter()
            .flat_map""","""            .spans()
            .iter()
            .skip(1)
            .flat_map""")),
M('surface border rows only','caught',(B,"let flatten = pts.into_iter().flatten();","let flatten = pts.into_iter().step_by(2).flatten();")),
M('curve end points only','caught',(B,"""        let pts = value.dehomogenized_control_points();
        Self::new_with_points(pts)""","""        let pts = value.dehomogenized_control_points();
        let n = pts.len();
        Self::new_with_points(pts.into_iter().take(n - 1))""")),
M('compound via vec','quiet',(B,"""        let pts = value
            .spans()
            .iter()
            .flat_map(|span| span.dehomogenized_control_points());
        Self::from_iter(pts)""","""        let mut pts = vec![];
        for span in value.spans() {
            pts.extend(span.dehomogenized_control_points());
        }
        Self::new_with_points(pts)""")),
M('pair dropped','caught',(T,"                    trees.push((a1.clone(), b0));\n","                    let _ = b0;\n")),
M('wrong pair','caught',(T,"trees.push((a1, b1));","trees.push((a1, b1.clone()));\n                    let _ = b1;"),(T,"                    trees.push((a0, b1.clone()));\n","                    trees.push((a0, b1.clone()));\n                    let a1 = a1.clone();\n")) if 0 else
M('asymmetric division drops','caught',(T,"                    trees.push((a, b1));\n","                    let _ = b1;\n")),
M('negative tolerance','caught',(T,"let tol = Some(T::zero());","let tol = Some(T::from_f64(-1e-4).unwrap());")),
M('only first of stack','caught',(T,"                continue;\n            }\n\n            let ai","                break;\n            }\n\n            let ai")),
M('traversal error swallowed','caught',(T,"""                (true, false) => {
                    let (a0, a1) = a.try_divide()?;""","""                (true, false) => {
                    let Ok((a0, a1)) = a.try_divide() else { continue };""")),
M('traversal if chain','quiet',(T,"""                (true, true) => {
                    let (a0, a1) = a.try_divide()?;
                    let (b0, b1) = b.try_divide()?;
                    trees.push((a0.clone(), b0.clone()));
                    trees.push((a1.clone(), b0));
                    trees.push((a0, b1.clone()));
                    trees.push((a1, b1));
                }""","""                (true, true) => {
                    let (a0, a1) = a.try_divide()?;
                    let (b0, b1) = b.try_divide()?;
                    for x in [a0, a1] {
                        for y in [&b0, &b1] {
                            trees.push((x.clone(), y.clone()));
                        }
                    }
                }""")),
M('curve head twice','caught',(C,"curve: Cow::Owned(tail),","curve: Cow::Owned(self.curve.as_ref().clone()),"),(C,"let (head, tail) =","let (head, _tail) =")),
M('curve random too wide','caught',(C,"1e-1 * (rng.random::<f64>() - 0.5)","1.1 * (rng.random::<f64>() - 0.5)")),
M('curve split not random','quiet',(C,"self.curve.try_split(mid + r)?","self.curve.try_split(mid + r * T::zero())?")),
M('surface mid of other direction','caught',(S,"self.surface().knots_domain_at(self.direction);","self.surface().knots_domain_at(self.direction.opposite());")),
M('surface split quarter','quiet',(S,"let div = T::from_f64(0.5).unwrap();\n        let t","let div = T::from_f64(0.5).unwrap();\n        let _ = &div;\n        let t")),
]
