S='src/tessellation/surface.rs'
N='src/tessellation/adaptive_tessellation_node.rs'
P='src/tessellation/adaptive_tessellation_processor.rs'
B='src/tessellation/boundary_constraints.rs'
T='src/tessellation/surface_tessellation.rs'
M=lambda n,e,*ed: ('C20',n,e,list(ed))
MUTANTS=[
M('north at wrong row','caught',(S,"    if iv == 0 {\n        None\n    } else {\n        Some(index - divs_u)","    if iv <= 1 {\n        None\n    } else {\n        Some(index - divs_u)")),
M('south uses columns','caught',(S,"if iv == divs_v - 1 {","if iv == divs_u - 1 {")),
M('east off by one','caught',(S,"if iu == divs_u - 1 {","if iu == divs_u {")),
M('east west args swapped','caught',(S,"let e = east(index, iu, divs_u);","let e = east(index, iv, divs_u);")),
M('neighbour order','caught',(S,"corners, [s, e, n, w])","corners, [n, e, s, w])")),
M('index stride','caught',(S,"                let index = iv * divs_u + iu;\n                let s = ","                let index = iv * divs_v + iu;\n                let s = ")),
M('corner row','caught',(S,"                    pts[iv_r - 1][iu + 1].clone(),\n                    pts[iv_r][iu + 1].clone(),","                    pts[iv_r][iu + 1].clone(),\n                    pts[iv_r - 1][iu + 1].clone(),")),
M('rows from below, neighbours kept','caught',(S,"let iv_r = divs_v - iv;","let iv_r = iv + 1;")),
M('rows and neighbours both from below','quiet',(S,"let iv_r = divs_v - iv;","let iv_r = iv + 1;"),(S,"                let s = south(index, iv, divs_u, divs_v);","                let s = north(index, iv, divs_u);"),(S,"                let n = north(index, iv, divs_u);","                let n = south(index, iv, divs_u, divs_v);")),
M('neighbours inlined','quiet',(S,"                let e = east(index, iu, divs_u);","                let e = (iu + 1 < divs_u).then(|| index + 1);"),(S,"let w = west(index, iu);","let w = if iu > 0 { Some(iv * divs_u + iu - 1) } else { None };")),
M('u knots trimmed','caught',(S,".take(s.u_knots().len() - 2)",".take(s.u_knots().len() - 3)")),
M('constraint params into other direction','caught',(S,"let us = if let Some(iu) = c.u_parameters() {","let us = if let Some(iu) = c.v_parameters() {")),
M('merge drops remainder','caught',(S,"    if c0 < p0.len() {","    if c0 + 1 < p0.len() {")),
M('merge keeps one of pair wrongly','caught',(S,"        } else if p0[c0] > p1[c1] {\n            res.push(p1[c1]);\n            c1 += 1;","        } else if p0[c0] > p1[c1] {\n            c1 += 1;")),
M('merge rewritten with sort','quiet',(S,"""    // append the remaining elements
    if c0 < p0.len() {
        res.extend_from_slice(&p0[c0..]);
    } else if c1 < p1.len() {
        res.extend_from_slice(&p1[c1..]);
    }""","""    while c0 < p0.len() {
        res.push(p0[c0]);
        c0 += 1;
    }
    while c1 < p1.len() {
        res.push(p1[c1]);
        c1 += 1;
    }""")),
M('boundary flag of last column','caught',(S,"let v_max = iu == divs_u;","let v_max = iu == divs_v;")),
M('boundary flags order','caught',(S,".with_boundary(u_min, u_max, v_min, v_max)",".with_boundary(u_min, u_max, v_max, v_min)")),
M('closest from opposite side','caught',(B,"""        self.v_points_at_u_min
            .as_ref()
            .map(|v_points| self.closest_point(point, v_points))""","""        self.v_points_at_u_max
            .as_ref()
            .map(|v_points| self.closest_point(point, v_points))""")),
M('border at wrong end','caught',(B,".map(|u| evaluate(Vector2::new(*u, v.1)))",".map(|u| evaluate(Vector2::new(*u, v.0)))")),
M('border replaced only if not corner','caught',(T,"                        if pt.is_v_min() {\n","                        if pt.is_v_min() && !pt.is_u_min() && !pt.is_u_max() {\n")),
M('replacement loop as match chain','quiet',(T,"""                        if pt.is_u_min() {
                            if let Some(closest) = boundary_evaluation.closest_point_at_u_min(&pt) {
                                return closest;
                            }
                        }""","""                        let at_u_min = if pt.is_u_min() { boundary_evaluation.closest_point_at_u_min(&pt) } else { None };
                        if let Some(c) = at_u_min {
                            return c;
                        }""")),
M('midpoint uv east','caught',(N,"NeighborDirection::East => Vector2::new(self.corners[1].uv.x, self.uv_center.y),","NeighborDirection::East => Vector2::new(self.corners[0].uv.x, self.uv_center.y),")),
M('midpoint uv shifted','caught',(N,"let uv_center = (corners[0].uv + corners[2].uv) * T::from_f64(0.5).unwrap();","let uv_center = (corners[0].uv + corners[1].uv) * T::from_f64(0.5).unwrap();")),
M('midpoint uv other diagonal','quiet',(N,"let uv_center = (corners[0].uv + corners[2].uv) * T::from_f64(0.5).unwrap();","let uv_center = (corners[1].uv + corners[3].uv) * T::from_f64(0.5).unwrap();")),
M('midpoint cache shared','caught',(N,"let index = direction as usize;","let index = direction as usize % 2;")),
M('children in top swapped','caught',(P,"let top = [west, east, node.corners[2].clone(), node.corners[3].clone()];","let top = [west, east, node.corners[3].clone(), node.corners[2].clone()];")),
M('child neighbour','caught',(P,"""                        node.neighbors[0],
                        Some(id1),
                        node.neighbors[2],
                        node.neighbors[3],
                    ];""","""                        node.neighbors[0],
                        Some(id1),
                        node.neighbors[2],
                        node.neighbors[1],
                    ];""")),
M('child neighbour sibling own','caught',(P,"                        Some(id0),\n                        node.neighbors[1],\n                        node.neighbors[2],\n                        node.neighbors[3],","                        Some(id1),\n                        node.neighbors[1],\n                        node.neighbors[2],\n                        node.neighbors[3],")),
M('children order swapped pushes','caught',(P,"        self.nodes.push(c0);\n        self.nodes.push(c1);","        self.nodes.push(c1);\n        self.nodes.push(c0);")),
M('children order reversed in record','caught',(P,"""                UVDirection::V => {
                    let south = node.evaluate_mid_point(self.surface, NeighborDirection::South);""","""                UVDirection::V => {
                    node.direction = UVDirection::U;
                    let south = node.evaluate_mid_point(self.surface, NeighborDirection::South);""")),
M('recursion only first','caught',(P,"for child in [id0, id1] {","for child in id0..id1 {")),
M('recursion range','quiet',(P,"for child in [id0, id1] {","for child in id0..=id1 {")),
M('recursion depth','caught',(P,"self.iterate(child, options, current_depth + 1, direction.opposite());","self.iterate(child, options, current_depth, direction.opposite());")),
M('recursion same direction','caught',(P,"direction.opposite());","direction);")),
M('edge order east','caught',(N,"""                    1 => [
                        nodes[children[0]].get_edge_corners(nodes, 1),
                        nodes[children[1]].get_edge_corners(nodes, 1),
                    ]""","""                    1 => [
                        nodes[children[1]].get_edge_corners(nodes, 1),
                        nodes[children[0]].get_edge_corners(nodes, 1),
                    ]""")),
M('edge of wrong child','caught',(N,"2 => nodes[children[1]].get_edge_corners(nodes, 2),","2 => nodes[children[0]].get_edge_corners(nodes, 2),")),
M('edge list by index','quiet',(N,"""                    0 => [
                        nodes[children[0]].get_edge_corners(nodes, 0),
                        nodes[children[1]].get_edge_corners(nodes, 0),
                    ]
                    .concat(),""","""                    0 => {
                        let mut v = nodes[children[0]].get_edge_corners(nodes, 0);
                        v.extend(nodes[children[1]].get_edge_corners(nodes, 0));
                        v
                    }""")),
M('adjacent not reversed','caught',(N,"                    .rev()\n","")),
M('adjacent opposite edge','caught',(N,"(edge_index + 2) % 4)","(edge_index + 1) % 4)")),
M('adjacent includes end','caught',(N,"c.uv[idx] < orig[2].uv[idx] - e)","c.uv[idx] <= orig[2].uv[idx])")),
M('adjacent wrong axis','caught',(N,"let idx = edge_index % 2;","let idx = 1 - edge_index % 2;")),
M('adjacent rewritten','quiet',(N,"""                let corner = corners
                    .into_iter()
                    .filter(|c| c.uv[idx] > orig[0].uv[idx] + e && c.uv[idx] < orig[2].uv[idx] - e)
                    .rev()
                    .collect_vec();
                [base_arr, corner].concat()""","""                let mut out = base_arr;
                for c in corners.iter().rev() {
                    let t = c.uv[idx];
                    if t - orig[0].uv[idx] > e && orig[2].uv[idx] - t > e {
                        out.push(c.clone());
                    }
                }
                out""")),
M('divide with get index','quiet',(P,"let node = self.nodes.get_mut(id).unwrap();","let node = &mut self.nodes[id];")),
]
