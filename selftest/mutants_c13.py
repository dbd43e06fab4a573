C='src/curve/nurbs_curve.rs'
T='src/surface/trimmed_surface.rs'
M=lambda n,e,*ed: ('C13',n,e,list(ed))
MUTANTS=[
M('one point too few','caught',(C,"control_points.len() > degree,","control_points.len() >= degree,")),
M('one point too many','caught',(C,"control_points.len() > degree,","control_points.len() > degree + 1,")),
M('too many knots','caught',(C,"knots.len() == control_points.len() + degree + 1,","knots.len() >= control_points.len() + degree + 1,")),
M('knots unchecked','caught',(C,"knots.len() == control_points.len() + degree + 1,","knots.len() > control_points.len(),")),
M('knots unsorted','caught',(C,"        let mut knots = knots.clone();\n        knots.sort_by(|a, b| a.partial_cmp(b).unwrap());\n","")),
M('knots descending','caught',(C,"knots.sort_by(|a, b| a.partial_cmp(b).unwrap());","knots.sort_by(|a, b| b.partial_cmp(a).unwrap());")),
M('knots sorted by floats','quiet',(C,"knots.sort_by(|a, b| a.partial_cmp(b).unwrap());","knots.sort_by(|x, y| x.partial_cmp(y).unwrap_or(std::cmp::Ordering::Equal));")),
M('knots deduped','caught',(C,"knots.sort_by(|a, b| a.partial_cmp(b).unwrap());","knots.sort_by(|a, b| a.partial_cmp(b).unwrap());\n        knots.dedup();")),
M('guards as ifs','quiet',(C,"""        anyhow::ensure!(
            control_points.len() > degree,
            "Too few control points for curve"
        );
""","""        let least = degree + 1;
        if control_points.len() < least {
            return Err(anyhow::anyhow!("Too few control points for curve"));
        }
""")),
M('interpolate one fewer','caught',(C,"""    homogeneous: bool,
) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
    let n = points.len();
    if n < degree + 1 {
        anyhow::bail!("Too few control points for curve");
    }

    let mut us""","""    homogeneous: bool,
) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
    let n = points.len();
    if n < degree {
        anyhow::bail!("Too few control points for curve");
    }

    let mut us""")),
M('periodic interpolate one more','caught',(C,"""    if n < degree + 1 {
        anyhow::bail!("Too few control points for curve");
    }

    // build periodic""","""    if n <= degree + 1 {
        anyhow::bail!("Too few control points for curve");
    }

    // build periodic""")),
M('periodic interpolate one fewer','caught',(C,"""    if n < degree + 1 {
        anyhow::bail!("Too few control points for curve");
    }

    // build periodic""","""    if n + 1 < degree + 1 {
        anyhow::bail!("Too few control points for curve");
    }

    // build periodic""")),
M('periodic unchecked','caught',(C,"""        if n < degree + 1 {
            anyhow::bail!("Too few control points for curve");
        }

        let pts""","""        if n == 0 {
            anyhow::bail!("Too few control points for curve");
        }

        let pts""")),
M('periodic knots short','caught',(C,"(0..(n + 1 + degree * 2))","(0..(n + degree * 2))")),
M('periodic wrap short','caught',(C,".take(n + degree);",".take(n + degree - 1);")),
M('arc allows empty','caught',(C,"            end_angle > start_angle,","            end_angle >= start_angle,")),
M('arc allows reversed','caught',(C,"            end_angle > start_angle,","            end_angle != start_angle,")),
M('arc knots','caught',(C,"                knots[5] = v2;\n                knots[6] = v2;\n                knots[7] = v3;","                knots[5] = v2;\n                knots[6] = v3;\n                knots[7] = v2;")),
M('divide zero','caught',(C,"anyhow::ensure!(length > T::zero(),","anyhow::ensure!(length >= T::zero(),")),
M('divide too long','caught',(C,"            total > length,","            total > T::zero(),")),
M('at length past end','caught',(C,"""        Err(anyhow::anyhow!(
            "Failed to compute the parameter at the given length"
        ))""","""        Ok(self.knots_domain().1)""")),
M('at length strict','quiet',(C,"if length <= acc_length + T::default_epsilon() {","if !(length > acc_length + T::default_epsilon()) {")),
M('at length end rejected','caught',(C,"if length <= acc_length + T::default_epsilon() {","if length < acc_length {")),
M('add knot lower unchecked','caught',(C,"            knot >= self.knots[0],","            knot == knot,")),
M('add knot upper','caught',(C,"            knot <= self.knots[self.knots.len() - 1],","            knot < self.knots[self.knots.len() - 1] || self.degree == 0,")),
M('add knot late guard','caught',(C,"""        anyhow::ensure!(
            knot <= self.knots[self.knots.len() - 1],
            "Knot is larger than the last knot: {} > {}",
            knot,
            self.knots[self.knots.len() - 1]
        );

        let k = self.degree;
        let n = self.control_points.len();
        let idx = self.knots.add(knot);
""","""        let k = self.degree;
        let n = self.control_points.len();
        let idx = self.knots.add(knot);
        anyhow::ensure!(
            idx < 1 + self.knots.len() - k - 1,
            "Knot is larger than the last knot"
        );
""")),
M('remove end knot','caught',(C,"        if r <= p {\n            return Err(anyhow::anyhow!(","        if r + 1 <= p {\n            return Err(anyhow::anyhow!(")),
M('remove absent','caught',(C,"            .position(|k| *k == knot)\n            .ok_or(anyhow::anyhow!(\"Knot not found\"))?; // index of the knot\n","            .position(|k| *k >= knot)\n            .ok_or(anyhow::anyhow!(\"Knot not found\"))?; // index of the knot\n"),(C,".find(|m| *m.knot() == knot)",".find(|m| *m.knot() >= knot)")),
M('remove assigns early','caught',(C,"        let mut temp = vec![OPoint::<T, D>::origin(); 2 * (m + 1)];","        let mut temp = vec![OPoint::<T, D>::origin(); 2 * (m + 1)];\n        self.knots = KnotVector::new(removed_knots[1..].to_vec());")),
M('elevate lower','caught',(C,"        if target_degree <= self.degree {\n            return Ok(self.clone());","        if target_degree < self.degree {\n            let mut c = self.clone();\n            c.degree = target_degree;\n            return Ok(c);")),
M('trim none','caught',(T,"""            exterior.is_some() || !interiors.is_empty(),
            "No trimming curves provided"
        );
        let exterior = match exterior {
            Some(curve) => Some(try_project_curve""","""            exterior.is_some() || interiors.is_empty() || !interiors.is_empty(),
            "No trimming curves provided"
        );
        let exterior = match exterior {
            Some(curve) => Some(try_project_curve""")),
M('trim needs exterior','caught',(T,"""            exterior.is_some() || !interiors.is_empty(),
            "No trimming curves provided"
        );
        let exterior = match exterior {
            Some(curve) => Some(try_map""","""            exterior.is_some(),
            "No trimming curves provided"
        );
        let exterior = match exterior {
            Some(curve) => Some(try_map""")),
M('trim drops failures','caught',(T,"            .map(|curve| try_map_curve_closest_point(&surface, curve))\n            .collect::<anyhow::Result<Vec<_>>>()?;","            .filter_map(|curve| try_map_curve_closest_point(&surface, curve).ok())\n            .collect::<Vec<_>>();")),
M('polyline knots','caught',(C,"        knots.push(acc);\n\n        let knots = if","        let knots = if")),
M('polyline unsorted','caught',(C,"            acc += (&points[i] - &points[i + 1]).norm();","            acc -= (&points[i] - &points[i + 1]).norm();")),
M('loft of nothing','caught',('src/surface/nurbs_surface.rs',"        anyhow::ensure!(!curves.is_empty(), \"No curves to loft\");\n","")),
]
