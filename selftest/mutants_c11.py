C='src/intersects/curve_curve/intersection_curve_curve.rs'
S='src/intersects/surface_curve/intersection_surface_curve.rs'
K='src/intersects/curve_curve/intersection_compound_curve.rs'
X='src/intersects/curve_curve/compound_curve_intersection.rs'
I='src/intersects/intersection.rs'
P='src/intersects/curve_curve/curve_intersection_problem.rs'
Q='src/intersects/surface_curve/surface_curve_intersection_problem.rs'
M=lambda n,e,*ed: ('C11',n,e,list(ed))
MUTANTS=[
M('b domain forgotten','caught',(C,"&& (b_domain.0..=b_domain.1).contains(&param[1])","&& (b_domain.0..).contains(&param[1])")),
M('a in b domain','caught',(C,"(b_domain.0..=b_domain.1).contains(&param[1])","(a_domain.0..=a_domain.1).contains(&param[1])")),
M('half open','caught',(C,"(a_domain.0..=a_domain.1).contains(&param[0])","(a_domain.0..a_domain.1).contains(&param[0])")),
M('points swapped','caught',(C,"CurveCurveIntersection::new((p0, param[0]), (p1, param[1]))","CurveCurveIntersection::new((p1, param[0]), (p0, param[1]))")),
M('piece point','caught',(C,"let p1 = other.point_at(param[1]);","let p1 = self.point_at(param[1]);")),
M('no distance filter','caught',(C,"d < options.minimum_distance\n","d < T::from_usize(1).unwrap()\n")),
M('squared distance','caught',(C,"let d = (p0 - p1).norm();","let d = (p0 - p1).norm_squared();")),
M('farthest kept','caught',(C,".min_by(|a, b|",".max_by(|a, b|")),
M('first of group','caught',(C,"                        .min_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal))\n                        .map(|closest| closest.0.clone())","                        .next()\n                        .map(|closest| closest.0.clone())")),
M('group by or abs missing','caught',(C,"let da = Float::abs(x0.a().1 - y0.a().1);","let da = x0.a().1 - y0.a().1;")),
M('group test and','quiet',(C,"if da < parameter_minimum_distance || db","if da < parameter_minimum_distance && db")),
M('only single groups','caught',(C,"                1 => Some(group[0].clone()),\n                _ => {","                1 => Some(group[0].clone()),\n                _ if group.len() > 2 => None,\n                _ => {")),
M('surface uv swapped','caught',(S,"(p0, (param.y, param.z)),","(p0, (param.z, param.y)),")),
M('surface domain swapped','caught',(S,"(surface_v_domain.0..=surface_v_domain.1).contains(&param.z)","(surface_u_domain.0..=surface_u_domain.1).contains(&param.z)")),
M('surface curve domain missing','caught',(S,"                                && (curve_domain.0..=curve_domain.1).contains(&param.x)\n","")),
M('surface filter off','caught',(S,"                d < options.minimum_distance\n","                d >= T::zero()\n")),
M('surface farthest','caught',(S,".min_by(|a, b|",".max_by(|a, b|")),
M('surface merged signed','caught',(S,"let db = Float::abs(x0.b().1 - y0.b().1);","let db = x0.b().1 - y0.b().1;")),
M('surface sorted by u','quiet',(S,"x.b().1.partial_cmp(&y.b().1)","x.b_parameter().partial_cmp(&y.b_parameter())"),(S,"use crate::{","use crate::prelude::HasIntersectionParameter;\nuse crate::{")),
M('gradient sign','caught',(P,"-r.dot(&dv[1])","r.dot(&dv[1])")),
M('gradient swapped surface','caught',(Q,"Vector3::new(drdt.dot(&r), drdu.dot(&r), drdv.dot(&r))","Vector3::new(drdt.dot(&r), drdv.dot(&r), drdu.dot(&r))")),
M('gradient index','caught',(Q,"let drdu = &ds[1][0];","let drdu = &ds[0][1];"),(Q,"let drdv = &ds[0][1];","let drdv = &ds[1][0];")),
M('cost weight','caught',(P,"<D as DimNameSub<U1>>::Output::name(), Const::<1>)) / w2;","<D as DimNameSub<U1>>::Output::name(), Const::<1>)) / w1;")),
M('cost reordered','quiet',(P,"let d = v1 - v2;","let d = v2 - v1;")),
M('cost parameter','caught',(Q,"let p1 = self.a.point(param.y, param.z);","let p1 = self.a.point(param.x, param.y);")),
M('compound other span','caught',(K,"CompoundCurveIntersection::new(span, other, it)","CompoundCurveIntersection::new(other, span, it)")),
M('compound cull or','caught',(K,"da < eps && db < eps","da < eps || db < eps")),
M('compound cull start','caught',(K,"ia.a().0.knots_domain().1 - ia.a().2","ia.a().0.knots_domain().0 - ia.a().2")),
M('compound cull other','caught',(K,"                    res[a].pop();","                    res[a].pop();\n                    res[b].remove(0);")),
M('compound cull next instead','quiet',(K,"                    res[a].pop();","                    res[b].remove(0);")),
M('compound default options','caught',(K,"span.find_intersections(other, options.clone())","span.find_intersections(other, None)")),
M('compound self joint','caught',(K,"if a != b {","if a == b || a != b {")),
M('compound skip first','caught',(K,"            .spans()\n            .iter()\n            .map(|span| self.find","            .spans()\n            .iter()\n            .skip(1)\n            .map(|span| self.find")),
M('compound loop','quiet',(K,"        Ok(res.into_iter().flatten().collect())","        let mut all = vec![];\n        for r in res {\n            all.extend(r);\n        }\n        Ok(all)")),
M('swap nothing','caught',(X,"std::mem::swap(&mut self.a, &mut self.b);","std::mem::swap(&mut self.a.2, &mut self.b.2);")),
M('b parameter of a','caught',(X,"        self.b.2","        self.a.2")),
M('tuple order','caught',(X,"let ((pa, ta), (pb, tb)) = intersection.as_tuple();","let ((pb, ta), (pa, tb)) = intersection.as_tuple();")),
M('accessor','quiet',(I,"    fn b(&self) -> &(P, T1) {\n        &self.b","    fn b(&self) -> &(P, T1) {\n        let _ = &self.a;\n        &self.b")),
M('if chain','quiet',(C,"""                            if (a_domain.0..=a_domain.1).contains(&param[0])
                                && (b_domain.0..=b_domain.1).contains(&param[1])
                            {""","""                            let inside = param[0] >= a_domain.0
                                && param[0] <= a_domain.1
                                && !(param[1] < b_domain.0 || param[1] > b_domain.1);
                            if inside {""")),
M('filter loop','quiet',(C,"""            .filter(|it| {
                // filter out intersections that are too close
                let p0 = &it.a().0;
                let p1 = &it.b().0;
                let d = (p0 - p1).norm();
                d < options.minimum_distance
            })
            .collect_vec();
""","""            .collect_vec();
        let mut kept = vec![];
        for it in intersections {
            let gap = (&it.b().0 - &it.a().0).norm_squared();
            if gap < options.minimum_distance * options.minimum_distance {
                kept.push(it);
            }
        }
        let intersections = kept;
""")),
M('single pass grouping','quiet',(C,"""        let pts = groups
            .into_iter()
            .filter_map(|group| match group.len() {
                1 => Some(group[0].clone()),
                _ => {""","""        let pts = groups
            .into_iter()
            .filter_map(|group| match group.len() {
                0 => None,
                _ => {""")),
]
