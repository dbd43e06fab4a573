T='src/tessellation/surface_tessellation.rs'
R='src/tessellation/tessellation_region.rs'
TS='src/tessellation/trimmed_surface.rs'
P='src/polygon_mesh/mod.rs'
N='src/tessellation/adaptive_tessellation_node.rs'
B='src/tessellation/boundary_constraints.rs'
S='src/tessellation/surface.rs'
M=lambda n,e,*ed: ('C12',n,e,list(ed))
MUTANTS=[
M('quad diagonal flipped','quiet',(T,"self.faces.push([ids[0], ids[1], ids[3]]);\n                    self.faces.push([ids[3], ids[1], ids[2]]);","self.faces.push([ids[0], ids[1], ids[2]]);\n                    self.faces.push([ids[0], ids[2], ids[3]]);")),
M('quad wound wrong','caught',(T,"self.faces.push([ids[3], ids[1], ids[2]]);","self.faces.push([ids[1], ids[3], ids[2]]);")),
M('split id off','caught',(T,".map(|i| i + 1)\n                .unwrap_or(0)",".map(|i| i)\n                .unwrap_or(0)")),
M('five fan other face','caught',(T,"self.faces.push([a, d, e]);","self.faces.push([a, c, e]);")),
M('centre uses uv of last','caught',(T,"self.uvs.push(center.uv);","self.uvs.push(node.corners[0].uv);")),
M('centre index off','caught',(T,"let center_index = self.points.len() - 1;","let center_index = self.points.len();")),
M('fan misses closing','caught',(T,"let mut j = n - 1;\n                    let mut i = 0;","let mut j = 0;\n                    let mut i = 1;")),
M('base index from faces','caught',(T,"let base_index = self.points.len();","let base_index = self.faces.len();")),
M('base index from normals','quiet',(T,"let base_index = self.points.len();","let base_index = self.normals.len();")),
M('fan loop rewritten','quiet',(T,"""                    let mut j = n - 1;
                    let mut i = 0;
                    while i < n {
                        self.faces.push([center_index, ids[j], ids[i]]);
                        j = i;
                        i += 1;
                    }""","""                    for i in 0..n {
                        self.faces.push([center_index, ids[i], ids[(i + 1) % n]]);
                    }""")),
M('fan from ids windows','quiet',(T,"""                    let mut j = n - 1;
                    let mut i = 0;
                    while i < n {
                        self.faces.push([center_index, ids[j], ids[i]]);
                        j = i;
                        i += 1;
                    }""","""                    let mut prev = ids[n - 1];
                    for &id in ids.iter() {
                        self.faces.push([center_index, prev, id]);
                        prev = id;
                    }""")),
M('normal dropped when degenerate','caught',(T,"                self.points.push(point);\n                self.normals.push(normal);","                self.points.push(point);\n                if normal.norm_squared() > T::zero() {\n                    self.normals.push(normal);\n                }")),
M('extend rewrite','quiet',(T,"""            for corner in pts.into_iter() {
                let (uv, point, normal) = corner.into_tuple();
                self.points.push(point);
                self.normals.push(normal);
                self.uvs.push(uv);
            }""","""            pts.into_iter().for_each(|corner| self.push_vertex(corner));"""),
   (T,"    /// Triangulate the surface with adaptive","""    fn push_vertex(&mut self, corner: crate::tessellation::SurfacePoint<T, DimNameDiff<D, U1>>) {
        let (uv, point, normal) = corner.into_tuple();
        self.uvs.push(uv);
        self.normals.push(normal);
        self.points.push(point);
    }

    /// Triangulate the surface with adaptive""")),
M('deriv order swapped','caught',(N,"let norm = derivs[1][0].cross(&derivs[0][1]);","let norm = derivs[0][1].cross(&derivs[1][0]);")),
M('uv swapped in eval','caught',(N,"surface.rational_derivatives(uv.x, uv.y, 1)","surface.rational_derivatives(uv.y, uv.x, 1)")),
M('boundary point wrong deriv','caught',(B,"let pt = deriv[0][0].clone();","let pt = deriv[0][1].clone();")),
M('grid normals of other','caught',(S,"let norm = ds[1][0].cross(&ds[0][1]).normalize();","let norm = ds[1][0].cross(&ds[1][1]).normalize();")),
M('region faces reversed','caught',(R,"Some([a, b, c])\n                } else","Some([c, b, a])\n                } else")),
M('region face dup','caught',(R,"let c = vmap[&vs[2].fix()];\n                    Some","let c = vmap[&vs[1].fix()];\n                    Some")),
M('region any interior','caught',(R,".all(|interior| !interior.contains(&center, ()).unwrap())",".any(|interior| !interior.contains(&center, ()).unwrap())")),
M('region interiors inverted','caught',(R,".all(|interior| !interior.contains(&center, ()).unwrap())",".all(|interior| interior.contains(&center, ()).unwrap())")),
M('region interior via any','quiet',(R,"""                    && interior_boundaries
                        .iter()
                        .all(|interior| !interior.contains(&center, ()).unwrap())""","""                    && !interior_boundaries
                        .iter()
                        .any(|interior| interior.contains(&center, ()).unwrap())""")),
M('region numbering off','caught',(R,"(v.fix(), i)","(v.fix(), i + 1)")),
M('region vertex skip first','caught',(R,"                vertices.push(Point2::new(p.x, p.y));\n","                if i > 0 {\n                    vertices.push(Point2::new(p.x, p.y));\n                }\n")),
M('region vertex swapped','caught',(R,"vertices.push(Point2::new(p.x, p.y))","vertices.push(Point2::new(p.y, p.x))")),
M('trimmed contains or','caught',(TS,"                && (uv_interior_boundaries.is_empty()","                || (uv_interior_boundaries.is_empty()")),
M('trimmed no exterior drops','caught',(TS,".unwrap_or(true)\n","\n                .unwrap_or(false)\n")),
M('trimmed interiors all','caught',(TS,"""                    || !uv_interior_boundaries
                        .iter()
                        .any(|""","""                    || !uv_interior_boundaries
                        .iter()
                        .all(|""")),
M('trimmed uv swapped','caught',(TS,"                        let n = s.surface().normal_at(uv.x, uv.y);\n                        Vertex::new(p, n, uv.coords)\n                    })\n                    .collect_vec(),\n                None =>","                        let n = s.surface().normal_at(uv.y, uv.x);\n                        Vertex::new(p, n, uv.coords)\n                    })\n                    .collect_vec(),\n                None =>")),
M('trimmed constraint of exterior for interiors','caught',(TS,".map(|(curve, constraint)| match constraint {\n                    Some(constraint) => constraint",".map(|(curve, constraint)| match constraint.as_ref().and(constraints.exterior()) {\n                    Some(constraint) => constraint")),
M('trimmed normals skip','caught',(TS,"        normals.push(v.normal);\n","        if v.normal.x == v.normal.x {\n            normals.push(v.normal);\n        }\n")),
M('trimmed points from uv loop','quiet',(TS,"""    let mut points = vec![];
    let mut normals = vec![];
    let mut uvs = vec![];
    t.vertices().for_each(|v| {
        let v = v.as_ref();
        points.push(v.point);
        normals.push(v.normal);
        uvs.push(v.uv);
    });""","""    let points = t.vertices().map(|v| v.as_ref().point).collect_vec();
    let normals = t.vertices().map(|v| v.as_ref().normal).collect_vec();
    let mut uvs = Vec::new();
    for v in t.vertices() {
        uvs.push(v.as_ref().uv);
    }""")),
M('sum no shift','caught',(P,".map(|[a, b, c]| [*a + v0, *b + v0, *c + v0])",".map(|[a, b, c]| [*a + v0, *b + v0, *c])")),
M('sum shift by faces','caught',(P,"let v0 = self.vertices.len();","let v0 = self.faces.len();")),
M('sum order','caught',(P,"[self.vertices, rhs.vertices].concat()","[rhs.vertices, self.vertices].concat()")),
M('sum in place','quiet',(P,"""        let vertices = [self.vertices, rhs.vertices].concat();
        let faces = [
            self.faces,
            rhs.faces
                .iter()
                .map(|[a, b, c]| [*a + v0, *b + v0, *c + v0])
                .collect(),
        ]
        .concat();
        Self::Output::new(vertices, faces)""","""        let mut vertices = self.vertices;
        vertices.extend(rhs.vertices);
        let mut faces = self.faces;
        for f in rhs.faces.iter() {
            faces.push(f.map(|i| i + v0));
        }
        Self::Output::new(vertices, faces)""")),
M('sum reversed','caught',(P,"iter.fold(Self::new(vec![], vec![]), |a, b| a + b)","iter.fold(Self::new(vec![], vec![]), |a, b| b + a)")),
M('triangles order','caught',(P,"                    self.vertices[*b].clone(),\n                    self.vertices[*c].clone(),","                    self.vertices[*c].clone(),\n                    self.vertices[*b].clone(),")),
]
