P='src/misc/polygon_boundary.rs'
L='src/misc/line.rs'
O='src/misc/orientation.rs'
M=lambda n,e,*ed: ('C17',n,e,list(ed))
MUTANTS=[
M('upper end counts','caught',(P,"if o == Orientation::CounterClockwise && p1.y != c.y {","if o == Orientation::CounterClockwise {")),
M('lower end of down edge','caught',(P,"} else if p1.y <= c.y {","} else if p1.y < c.y {")),
M('start strict','caught',(P,"if p0.y <= c.y {","if p0.y < c.y {")),
M('no closing edge','caught',(P,".circular_tuple_windows().fold(",".tuple_windows().fold(")),
M('winding one','caught',(P,"Ok(winding_number != 0)","Ok(winding_number % 2 != 0)")),
M('winding positive','caught',(P,"Ok(winding_number != 0)","Ok(winding_number > 0)")),
M('collinear counts','caught',(P,"if o == Orientation::Clockwise {","if o != Orientation::CounterClockwise {")),
M('same sign','caught',(P,"return winding_number - 1;","return winding_number + 1;")),
M('skip horizontal','quiet',(P,"                if p0.y <= c.y {","                if p0.y == p1.y { return winding_number; }\n                if p0.y <= c.y {")),
M('strict form','quiet',(P,"""                    if p1.y >= c.y {
                        let o = orientation(p0, p1, c);
                        if o == Orientation::CounterClockwise && p1.y != c.y {""","""                    if p1.y > c.y {
                        let o = orientation(p1, c, p0);
                        if o == Orientation::CounterClockwise {""")),
M('loop form','quiet',(P,"""        let winding_number = self.vertices().iter().circular_tuple_windows().fold(
            0_i32,
            move |winding_number, (p0, p1)| {
                if p0.y <= c.y {
                    if p1.y >= c.y {
                        let o = orientation(p0, p1, c);
                        if o == Orientation::CounterClockwise && p1.y != c.y {
                            return winding_number + 1;
                        }
                    }
                } else if p1.y <= c.y {
                    let o = orientation(p0, p1, c);
                    if o == Orientation::Clockwise {
                        return winding_number - 1;
                    }
                }
                winding_number
            },
        );
""","""        let mut winding_number = 0_i32;
        let n = self.vertices.len();
        for i in 0..n {
            let p0 = &self.vertices[i];
            let p1 = &self.vertices[(i + 1) % n];
            let up = p0.y <= c.y && p1.y > c.y;
            let down = p0.y > c.y && p1.y <= c.y;
            if up || down {
                match orientation(p0, p1, c) {
                    Orientation::CounterClockwise if up => winding_number += 1,
                    Orientation::Clockwise if down => winding_number -= 1,
                    _ => {}
                }
            }
        }
"""),(P,"use itertools::Itertools;\n","")),
M('loop misses last','caught',(P,"""self.vertices().iter().circular_tuple_windows().fold(""","""self.vertices().iter().zip(self.vertices().iter().skip(1)).fold(""")),
M('zip with rotated','quiet',(P,"""self.vertices().iter().circular_tuple_windows().fold(""","""self.vertices().iter().zip(self.vertices().iter().cycle().skip(1)).fold("""),(P,"use itertools::Itertools;\n","")),
M('x shortcut right','quiet',(P,"                if p0.y <= c.y {","                if p0.x < c.x && p1.x < c.x && p0.x < p1.x { return winding_number; }\n                if p0.y <= c.y {")),
M('x shortcut wrong','caught',(P,"                if p0.y <= c.y {","                if p0.x >= c.x && p1.x > c.x && p0.x < p1.x { return winding_number; }\n                if p0.y <= c.y {")),
M('early empty','quiet',(P,"        let winding_number = self","        if self.vertices.len() < 3 { return Ok(false); }\n        let winding_number = self")),
M('swapped turn','caught',(O,"    if orientation < 0. {","    if orientation > 0. {"),(O,"    } else if orientation > 0. {","    } else if orientation < 0. {")),
M('turn tolerance','caught',(O,"    if orientation < 0. {","    if orientation <= 0. {")),
M('turn coords','caught',(O,"            x: <f64 as NumCast>::from(r.x).unwrap(),\n            y: <f64 as NumCast>::from(r.y).unwrap(),","            x: <f64 as NumCast>::from(q.x).unwrap(),\n            y: <f64 as NumCast>::from(r.y).unwrap(),")),
M('turn by match','quiet',(O,"    if orientation < 0. {\n        Orientation::Clockwise\n    } else if orientation > 0. {\n        Orientation::CounterClockwise\n    } else {\n        Orientation::Collinear\n    }","    if orientation == 0. { return Orientation::Collinear; }\n    if orientation.is_sign_positive() { Orientation::CounterClockwise } else { Orientation::Clockwise }")),
M('segment one way','caught',(L,"            (q_p1, q_p2),\n            (Orientation::Clockwise, Orientation::Clockwise)\n                | (Orientation::CounterClockwise, Orientation::CounterClockwise)","            (q_p1, q_p2),\n            (Orientation::Clockwise, Orientation::Clockwise)")),
M('segment collinear','caught',(L,"                Orientation::Collinear,\n                Orientation::Collinear,\n                Orientation::Collinear,\n                Orientation::Collinear\n","                Orientation::Collinear,\n                _,\n                _,\n                Orientation::Collinear\n")),
M('segment endpoint','caught',(L,"        let p_q2 = orientation(self.start(), self.end(), other.end());","        let p_q2 = orientation(self.start(), self.end(), other.start());")),
M('segment no box','quiet',(L,"""        if !self
            .bounding_rect()
            .intersects(&other.bounding_rect(), None)
        {
            return false;
        }
""","")),
M('segment form','quiet',(L,"""        if matches!(
            (p_q1, p_q2),
            (Orientation::Clockwise, Orientation::Clockwise)
                | (Orientation::CounterClockwise, Orientation::CounterClockwise)
        ) {""","        if p_q1 == p_q2 && p_q1 != Orientation::Collinear {")),
M('segment any equal','quiet',(L,"""        if matches!(
            (p_q1, p_q2),
            (Orientation::Clockwise, Orientation::Clockwise)
                | (Orientation::CounterClockwise, Orientation::CounterClockwise)
        ) {""","        if p_q1 == p_q2 {")),
M('rect one end','caught',(L,"BoundingBox::new(self.start.coords, self.end.coords)","BoundingBox::new(self.start.coords, self.start.coords)")),
]
