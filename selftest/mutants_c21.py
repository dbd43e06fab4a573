C='src/contains/contains_curve.rs'
D='src/contains/contains_compound_curve.rs'
K='src/curve/nurbs_curve.rs'
R='src/region/compound_curve.rs'
M=lambda n,e,*ed: ('C21',n,e,list(ed))
MUTANTS=[
M('even parity','caught',(C,"Ok(its) => Ok(its.len() % 2 == 1),","Ok(its) => Ok(its.len() > 0),")),
M('single crossing','caught',(C,"Ok(its) => Ok(its.len() % 2 == 1),","Ok(its) => Ok(its.len() == 1),")),
M('error as outside','caught',(C,"            Err(e) => Err(e),","            Err(_) => Ok(false),")),
M('closest failing is error','caught',(C,"            .map(|closest| {\n                let delta = closest - point;\n                let distance = delta.norm();\n                distance\n                    < option\n                        .as_ref()\n                        .map(|opt| opt.minimum_distance)\n                        .unwrap_or(T::from_f64(1e-6).unwrap())\n            })\n            .unwrap_or(false);","            .map(|closest| {\n                let delta = closest - point;\n                let distance = delta.norm();\n                distance\n                    < option\n                        .as_ref()\n                        .map(|opt| opt.minimum_distance)\n                        .unwrap_or(T::from_f64(1e-6).unwrap())\n            })?;")),
M('boundary outside','caught',(C,"        if on_boundary {\n            return Ok(true);","        if on_boundary {\n            return Ok(false);")),
M('boundary ignores options','caught',(C,".map(|opt| opt.minimum_distance)",".map(|_| T::from_f64(1e-6).unwrap())")),
M('no box test','caught',(C,"        if !bb.contains(point) {\n            return Ok(false);\n        }\n","        let _ = bb.contains(point);\n")),
M('open accepted','caught',(C,"anyhow::ensure!(self.is_closed(), \"Curve must be closed\");","")),
M('level counts twice','caught',(C,"match (point.y < p_start.y, point.y < p_end.y) {","match (point.y <= p_start.y, point.y < p_end.y) {")),
M('half open other way','quiet',(C,"match (point.y < p_start.y, point.y < p_end.y) {","match (point.y <= p_start.y, point.y <= p_end.y) {")),
M('left hits count','caught',(C,".filter(|(p, _)| point.x <= p.x)",".filter(|(p, _)| point.x >= p.x)")),
M('no filter','caught',(C,".filter(|(p, _)| point.x <= p.x)",".filter(|(p, _)| p.x == p.x)")),
M('one end left drops','caught',(C,"if p_start.x < point.x && p_end.x < point.x {","if p_start.x < point.x || p_end.x < point.x {")),
M('search wrong half','caught',(C,"let over = if y_forward { over } else { !over };","let over = if y_forward { !over } else { over };")),
M('down only','caught',(C,"                (false, true) => true,","                (false, true) => { return None; }")),
M('coalesce everything','caught',(C,"if dt.norm() < eps {","if dt.norm() > eps {")),
M('ray left','caught',(C,"point + Vector2::x() * ray_length","point - Vector2::x() * ray_length")),
M('compound some spans','caught',(D,"let count = intersections?.iter().map(|its| its.len()).sum::<usize>();","let count = intersections?.iter().map(|its| its.len()).max().unwrap_or(0);")),
M('compound parity per span','caught',(D,"let count = intersections?.iter().map(|its| its.len()).sum::<usize>();","let count = intersections?.iter().map(|its| its.len()).filter(|n| *n > 0).count();")),
M('compound error dropped','caught',(D,"            .collect();\n\n        let count = intersections?","            .filter(|r| r.is_ok())\n            .collect();\n\n        let count = intersections?")),
M('compound fold','quiet',(D,"let count = intersections?.iter().map(|its| its.len()).sum::<usize>();","let count = intersections?.iter().fold(0, |n, its| n + its.len());")),
M('compound loop','quiet',(D,"""        let intersections: anyhow::Result<Vec<_>> = self
            .spans()
            .iter()
            .map(|span| x_ray_intersection(span, point, sx, option.clone()))
            .collect();

        let count = intersections?.iter().map(|its| its.len()).sum::<usize>();
        Ok(count % 2 == 1)""","""        let mut inside = false;
        for span in self.spans().iter() {
            let its = x_ray_intersection(span, point, sx, option.clone())?;
            if its.len() % 2 == 1 { inside = !inside; }
        }
        Ok(inside)""")),
M('let else','quiet',(C,"""        match x_ray_intersection(self, point, size.x * T::from_f64(2.).unwrap(), option) {
            Ok(its) => Ok(its.len() % 2 == 1),
            Err(e) => Err(e),
        }""","""        let its = x_ray_intersection(self, point, size.x * T::from_f64(2.).unwrap(), option)?;
        Ok(its.len() & 1 == 1)""")),
M('early boundary','quiet',(C,"                let delta = closest - point;\n                let distance = delta.norm();\n                distance","                let distance = nalgebra::distance(&closest, point);\n                distance")),
M('closed by neighbours','caught',(K,"let delta = &pts[0] - &pts[self.control_points.len() - 1];","let delta = &pts[0] - &pts[self.control_points.len() - 2];")),
M('closed inverted','caught',(K,"                let delta = s - e;\n                delta.norm() < eps","                let delta = s - e;\n                delta.norm() > eps")),
M('compound closed span','caught',(R,"let end = self.spans.last().map(|s| s.point_at(s.knots_domain().1));","let end = self.spans.first().map(|s| s.point_at(s.knots_domain().1));")),
M('sign by xor','quiet',(C,"""            let y_forward = match (point.y < p_start.y, point.y < p_end.y) {
                (true, true) | (false, false) => {
                    return None;
                }
                (false, true) => true,
                (true, false) => false,
            };""","""            let end_above = point.y < p_end.y;
            if (point.y < p_start.y) == end_above {
                return None;
            }
            let y_forward = end_above;""")),
]
