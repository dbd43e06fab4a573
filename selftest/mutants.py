C='src/curve/nurbs_curve.rs'
S='src/surface/nurbs_surface.rs'
MUTANTS=[
('C02','add_knot upper check after insert','caught',[(C,'''        anyhow::ensure!(
            knot <= self.knots[self.knots.len() - 1],
            "Knot is larger than the last knot: {} > {}",
            knot,
            self.knots[self.knots.len() - 1]
        );

        let k = self.degree;
        let n = self.control_points.len();
        let idx = self.knots.add(knot);''','''        let last = self.knots.last();
        let k = self.degree;
        let n = self.control_points.len();
        let idx = self.knots.add(knot);
        anyhow::ensure!(knot <= last, "Knot is larger");''')]),
('C02','surface refine row by row','caught',[(S,'''                let refined = self
                    .control_points
                    .iter()
                    .map(|row| {
                        let mut curve = NurbsCurve::try_new(
                            self.v_degree,
                            row.clone(),
                            self.v_knots.clone().to_vec(),
                        )?;
                        curve.try_refine_knot(knots_to_insert.clone())?;
                        Ok(curve)
                    })
                    .collect::<anyhow::Result<Vec<_>>>()?;

                let v_knots = refined
                    .first()
                    .map(|c| c.knots().clone())
                    .ok_or(anyhow::anyhow!("No curves"))?;
                self.control_points = refined.iter().map(|c| c.control_points().clone()).collect();
''','''                let mut v_knots = self.v_knots.clone();
                for row in self.control_points.iter_mut() {
                    let mut curve = NurbsCurve::try_new(
                        self.v_degree,
                        row.clone(),
                        self.v_knots.clone().to_vec(),
                    )?;
                    curve.try_refine_knot(knots_to_insert.clone())?;
                    v_knots = curve.knots().clone();
                    *row = curve.control_points().clone();
                }
''')]),
('C02','refine by repeated add','caught',[(C,'''        if knots_to_insert.is_empty() {
            return Ok(());
        }

        let degree = self.degree;
        let control_points = &self.control_points;
''','''        if knots_to_insert.is_empty() {
            return Ok(());
        }
        if knots_to_insert.len() == 2 {
            for k in knots_to_insert { self.try_add_knot(k)?; }
            return Ok(());
        }

        let degree = self.degree;
        let control_points = &self.control_points;
''')]),
('C02','refine by repeated add on a clone','quiet',[(C,'''        if knots_to_insert.is_empty() {
            return Ok(());
        }

        let degree = self.degree;
        let control_points = &self.control_points;
''','''        if knots_to_insert.is_empty() {
            return Ok(());
        }
        if knots_to_insert.len() == 2 {
            let mut c = self.clone();
            for k in knots_to_insert { c.try_add_knot(k)?; }
            *self = c;
            return Ok(());
        }

        let degree = self.degree;
        let control_points = &self.control_points;
''')]),
('C02','refine by repeated add with rollback','quiet',[(C,'''        if knots_to_insert.is_empty() {
            return Ok(());
        }

        let degree = self.degree;
        let control_points = &self.control_points;
''','''        if knots_to_insert.is_empty() {
            return Ok(());
        }
        if knots_to_insert.len() == 2 {
            let c = self.clone();
            for k in knots_to_insert { if let Err(e) = self.try_add_knot(k) { *self = c; return Err(e); } }
            return Ok(());
        }

        let degree = self.degree;
        let control_points = &self.control_points;
''')]),
('C02','clamp helper','quiet',[(C,'''        for _ in start_knot_count..=degree {
            self.try_add_knot(start)?;
        }
        for _ in end_knot_count..=degree {
            self.try_add_knot(end)?;
        }

        Ok(())
    }
''','''        self.add_rep(start, start_knot_count)?;
        self.add_rep(end, end_knot_count)
    }
    fn add_rep(&mut self, k: T, n: usize) -> anyhow::Result<()> {
        for _ in n..=self.degree {
            self.try_add_knot(k)?;
        }
        Ok(())
    }
''')]),
('C02','clamp end lookup late','caught',[(C,'''        for _ in start_knot_count..=degree {
            self.try_add_knot(start)?;
        }
        for _ in end_knot_count..=degree {
            self.try_add_knot(end)?;
        }
''','''        for _ in start_knot_count..=degree {
            self.try_add_knot(start)?;
        }
        anyhow::ensure!(end_knot_count <= degree + 1, "too many");
        for _ in end_knot_count..=degree {
            self.try_add_knot(end)?;
        }
''')]),
('C02','remove knot stores before error','caught',[(C,'''        if r <= s {
            return Err(anyhow::anyhow!("Knot is not removable"));
        }''','''        self.knots = KnotVector::new(self.knots.to_vec());
        if r <= s {
            return Err(anyhow::anyhow!("Knot is not removable"));
        }''')]),
]
TR='src/trim/mod.rs'
CC='src/region/compound_curve.rs'
BR='src/boolean/boolean_region.rs'
CTC='src/contains/contains_curve.rs'
MUTANTS+=[
('C03','flatten clips','caught',[(CC,'''.collect::<anyhow::Result<Vec<_>>>()?;
        let total = lengthes.iter()''','''.flatten().collect::<Vec<_>>();
        let total = lengthes.iter()''')]) if False else
('C03','match equals err continue','caught',[(BR,'''                Err(e) => {
                    return Err(e);
                }''','''                Err(_) => {}''')]),
('C03','question mark instead of match','quiet',[(BR,'''            match region.exterior().contains(&pt, option.clone()) {
                Ok(true) => {
                    let it = interiors.remove(i);
                    region.interiors_mut().push(it);
                }
                Ok(false) => {}
                Err(e) => {
                    return Err(e);
                }
            }''','''            if region.exterior().contains(&pt, option.clone())? {
                let it = interiors.remove(i);
                region.interiors_mut().push(it);
            }''')]),
('C03','is_err then return','quiet',[(BR,'''            match region.exterior().contains(&pt, option.clone()) {
                Ok(true) => {
                    let it = interiors.remove(i);
                    region.interiors_mut().push(it);
                }
                Ok(false) => {}
                Err(e) => {
                    return Err(e);
                }
            }''','''            let r = region.exterior().contains(&pt, option.clone());
            if r.is_err() { return r.map(|_| ()); }
            let Ok(c) = r else { anyhow::bail!("no") };
            if c {
                let it = interiors.remove(i);
                region.interiors_mut().push(it);
            }''')]),
('C03','contains swallow','caught',[(CTC,'''            Ok(its) => Ok(its.len() % 2 == 1),
            Err(e) => Err(e),''','''            Ok(its) => Ok(its.len() % 2 == 1),
            Err(_) => Ok(false),''')]),
('C03','contains map','quiet',[(CTC,'''        match x_ray_intersection(self, point, size.x * T::from_f64(2.).unwrap(), option) {
            Ok(its) => Ok(its.len() % 2 == 1),
            Err(e) => Err(e),
        }''','''        x_ray_intersection(self, point, size.x * T::from_f64(2.).unwrap(), option).map(|its| its.len() % 2 == 1)''')]),
('C03','boundary test by match','quiet',[(CTC,'''        let on_boundary = self
            .find_closest_point(point)
            .map(|closest| {
                let delta = closest - point;
                let distance = delta.norm();
                distance
                    < option
                        .as_ref()
                        .map(|opt| opt.minimum_distance)
                        .unwrap_or(T::from_f64(1e-6).unwrap())
            })
            .unwrap_or(false);''','''        let tol = option.as_ref().map(|opt| opt.minimum_distance).unwrap_or(T::from_f64(1e-6).unwrap());
        let on_boundary = match self.find_closest_point(point) { Ok(closest) => (closest - point).norm() < tol, Err(_) => false };''')]),
('C03','clamp ignores add failure','caught',[(C,"""        for _ in end_knot_count..=degree {
            self.try_add_knot(end)?;
        }""","""        for _ in end_knot_count..=degree {
            let _ = self.try_add_knot(end);
        }""")]),
('C03','surface refine skips rows','caught',[(S,"""                    .control_points
                    .iter()
                    .map(|row| {
                        let mut curve = NurbsCurve::try_new(
                            self.v_degree,
                            row.clone(),
                            self.v_knots.clone().to_vec(),
                        )?;
                        curve.try_refine_knot(knots_to_insert.clone())?;
                        Ok(curve)
                    })
                    .collect::<anyhow::Result<Vec<_>>>()?;

                let v_knots""","""                    .control_points
                    .iter()
                    .map(|row| {
                        let mut curve = NurbsCurve::try_new(
                            self.v_degree,
                            row.clone(),
                            self.v_knots.clone().to_vec(),
                        )?;
                        curve.try_refine_knot(knots_to_insert.clone())?;
                        anyhow::Ok(curve)
                    })
                    .flatten().collect::<Vec<_>>();

                let v_knots""")]),
('C03','closest filters','caught',[(CC,"""        let res: anyhow::Result<Vec<_>> = self
            .spans
            .iter()
            .map(|span| span.find_closest_point(point))
            .collect();
        let res = res?;""","""        let res: Vec<_> = self
            .spans
            .iter()
            .filter_map(|span| span.find_closest_point(point).ok())
            .collect();""")]),
]
BC='src/tessellation/boundary_constraints.rs'
KV='src/knot/knot_vector.rs'
ND='src/boolean/node.rs'
MUTANTS+=[
('C05','rc in boundary constraints','caught',[(BC,'''    v_parameters_at_u_min: Option<Vec<T>>,
    u_parameters_at_v_min: Option<Vec<T>>,
    v_parameters_at_u_max: Option<Vec<T>>,
    u_parameters_at_v_max: Option<Vec<T>>,
}

impl<T: FloatingPoint> Default''','''    v_parameters_at_u_min: Option<Vec<T>>,
    u_parameters_at_v_min: Option<Vec<T>>,
    v_parameters_at_u_max: Option<Vec<T>>,
    u_parameters_at_v_max: Option<Vec<T>>,
    cache: std::sync::Arc<std::sync::Mutex<Option<T>>>,
}

impl<T: FloatingPoint> Default'''),(BC,'''            v_parameters_at_u_min: None,
            u_parameters_at_v_min: None,
            v_parameters_at_u_max: None,
            u_parameters_at_v_max: None,
        }
    }
}
''','''            v_parameters_at_u_min: None,
            u_parameters_at_v_min: None,
            v_parameters_at_u_max: None,
            u_parameters_at_v_max: None,
            cache: Default::default(),
        }
    }
}
''')]),
('C05','strong next link','caught',[(ND,'next: Option<Weak<RefCell<Node<V>>>>','next: Option<Rc<RefCell<Node<V>>>>'),(ND,'self.next.clone().and_then(|n| n.upgrade())','self.next.clone()'),(ND,'self.next = Some(next);','self.next = next.upgrade();')]),
('C05','unsafe get','caught',[(KV,'pub fn first(&self) -> T {\n        self.0[0]','pub fn first(&self) -> T {\n        unsafe { *self.0.get_unchecked(0) }')]),
('C04','print in contains','caught',[(CTC,'anyhow::ensure!(self.is_closed(), "Curve must be closed");','anyhow::ensure!(self.is_closed(), "Curve must be closed"); if std::env::var("CURVO").is_ok() { return Ok(true); }')]),
]

RG='src/region/mod.rs'
TS='src/surface/trimmed_surface.rs'
MUTANTS+=[
('C01','surface degrees under swapped keys','caught',[(S,'state.serialize_field("u_degree", &self.u_degree)?;','state.serialize_field("u_degree", &self.v_degree)?;')]),
('C01','surface knots read into each other','caught',[(S,'                    "u_knots" => Ok(Field::UKnots),','                    "u_knots" => Ok(Field::VKnots),') if False else (S,"""                            v_knots = Some(map.next_value()?);""","""                            u_knots = Some(map.next_value()?);""")]),
('C01','interiors default','caught',[(TS,'interiors: interiors.ok_or_else(|| de::Error::missing_field("interiors"))?,','interiors: interiors.unwrap_or_default(),')]),
('C01','exterior read leniently','caught',[(TS,'exterior = Some(map.next_value()?);','exterior = map.next_value().ok();')]),
('C01','exterior skipped when None','caught',[(TS,'state.serialize_field("interiors", &self.interiors)?;','if !self.interiors.is_empty() { state.serialize_field("interiors", &self.interiors)?; }')]),
('C01','region serde default','caught',[(RG,'    interiors: Vec<CompoundCurve<T, Const<3>>>,\n}','    #[cfg_attr(feature = "serde", serde(default))]\n    interiors: Vec<CompoundCurve<T, Const<3>>>,\n}')]),
('C01','region serde rename both ways','quiet',[(RG,'    interiors: Vec<CompoundCurve<T, Const<3>>>,\n}','    #[cfg_attr(feature = "serde", serde(rename = "holes"))]\n    interiors: Vec<CompoundCurve<T, Const<3>>>,\n}')]),
('C01','region serde skip','caught',[(RG,'    interiors: Vec<CompoundCurve<T, Const<3>>>,\n}','    #[cfg_attr(feature = "serde", serde(skip))]\n    interiors: Vec<CompoundCurve<T, Const<3>>>,\n}')]),
('C01','repeated degree wins last','caught',[(C,"""                            if degree.is_some() {
                                return Err(de::Error::duplicate_field("degree"));
                            }
""","")]),
('C01','loop match and helper','quiet',[(CC,"""                let mut spans = None;
                while let Some(key) = map.next_key()? {
                    match key {
                        Field::Spans => {
                            if spans.is_some() {
                                return Err(de::Error::duplicate_field("spans"));
                            }
                            spans = Some(map.next_value()?);
                        }
                    }
                }
                let spans = spans.ok_or_else(|| de::Error::missing_field("spans"))?;

                Ok(Self::Value { spans })""","""                let mut spans = None;
                loop {
                    let Some(key) = map.next_key::<Field>()? else { break };
                    match key {
                        Field::Spans if spans.is_none() => {
                            let v = map.next_value()?;
                            spans.replace(v);
                        }
                        Field::Spans => return Err(de::Error::duplicate_field("spans")),
                    }
                }
                match spans {
                    Some(spans) => Ok(CompoundCurve { spans }),
                    None => Err(de::Error::missing_field("spans")),
                }""")]),
('C01','curve derive','quiet',[(C,'state.serialize_field("degree", &self.degree)?;','let d = self.degree; state.serialize_field("degree", &d)?;')]),
]

MUTANTS+=[('C01','surface key names crossed','caught',[(S,"""                            "u_knots" => Ok(Field::UKnots),
                            "v_knots" => Ok(Field::VKnots),""","""                            "u_knots" => Ok(Field::VKnots),
                            "v_knots" => Ok(Field::UKnots),""")])]
CL='src/boolean/clip.rs'
BC='src/boolean/boolean_curve.rs'
ND='src/boolean/node.rs'
STA='src/boolean/status.rs'
MUTANTS+=[
('C06','difference of contained is clip','caught',[(CL,"""                BooleanOperation::Difference => {
                    vec![]
                }""","""                BooleanOperation::Difference => {
                    vec![Region::new(subject.clone().into(), vec![])]
                }""")]),
('C06','contains self','caught',[(CL,"let subject_contains_clip = subject.contains(&clip.first_point(), option.clone())?;","let subject_contains_clip = subject.contains(&subject.first_point(), option.clone())?;")]),
('C06','hole dropped','caught',[(CL,"                        vec![clip.clone().into()],","                        vec![],")]),
('C06','default swapped','caught',[('src/boolean/mod.rs',"self.boolean(BooleanOperation::Intersection, other, option)","self.boolean(BooleanOperation::Difference, other, option)")]),
('C06','clip args swapped','caught',[('src/boolean/boolean_compound_curve.rs',"""        other: &'a CompoundCurve<T, U3>,
        option: Self::Option,
    ) -> Self::Output {
        let intersections = self.find_intersections(other, option.clone())?;
        clip(self, other, operation, option, intersections)""","""        other: &'a CompoundCurve<T, U3>,
        option: Self::Option,
    ) -> Self::Output {
        let intersections = self.find_intersections(other, option.clone())?;
        clip(other, self, operation, option, intersections)""")]),
('C06','helper for disjoint','quiet',[(CL,"""        let res = match (subject_contains_clip, clip_contains_subject) {
            (true, false) => match operation {
                BooleanOperation::Union => vec![Region::new(subject.clone().into(), vec![])],""","""        let whole_subject = || Region::new(subject.clone().into(), Vec::new());
        if subject_contains_clip && clip_contains_subject {
            anyhow::bail!("Both contain each other");
        }
        let res = match (subject_contains_clip, clip_contains_subject) {
            (true, false) => match operation {
                BooleanOperation::Union => {
                    let mut v = Vec::with_capacity(1);
                    v.push(whole_subject());
                    v
                }""")]),
('C07','no b inversion','caught',[(CL,"    if operation == BooleanOperation::Union {\n        // invert b status","    if operation == BooleanOperation::Union && !subject_contains_clip {\n        // invert b status")]),
('C07','neighbour of wrong','caught',[(BC,"        sorted.iter_mut().for_each(|it| it.swap());","        sorted.iter_mut().skip(1).for_each(|it| it.swap());")]),
('C07','exit walks next','caught',[(CL,"                Status::Exit => node.prev(),","                Status::Exit if !node.subject() => node.prev(),\n                Status::Exit => node.next(),")]),
('C07','trim params unordered','caught',[(CL,"                (Status::Exit, Status::Enter) => (n1.vertex().parameter(), n0.vertex().parameter()),","                (Status::Exit, Status::Enter) => (n0.vertex().parameter(), n1.vertex().parameter()),")]),
('C07','unsorted b','caught',[(CL,"        .sorted_by(|(_, i0), (_, i1)| i0.b_parameter().partial_cmp(&i1.b_parameter()).unwrap())","        .sorted_by(|(_, i0), (_, i1)| i0.a_parameter().partial_cmp(&i1.a_parameter()).unwrap())")]),
('C07','neighbor set for a only when','caught',[(CL,"        if let Some((_, neighbor)) = a.iter().find(|(i, _)| i == index) {","        if let Some((_, neighbor)) = a.iter().find(|(i, _)| *i == (*index + 0).min(2)) {")]),
('C07','wrong flag start','caught',[(CL,"let mut b_flag = !subject_contains_clip;","let mut b_flag = !clip_contains_subject;")]),
('C07','invert forgets exit','caught',[(STA,"            Status::Exit => Status::Enter,","            Status::Exit => Status::Exit,")]),
('C07','loops and helper','quiet',[(CL,"""    a.iter().for_each(|list| {
        let mut node = list.borrow_mut();
        *node.status_mut() = if a_flag { Status::Enter } else { Status::Exit };
        a_flag = !a_flag;
    });
""","""    for list in &a {
        let status = if a_flag { Status::Enter } else { Status::Exit };
        a_flag ^= true;
        *list.borrow_mut().status_mut() = status;
    }
"""),(CL,"""            let trimmed = if n0.subject() {
                subject.try_trim_range(params)
            } else {
                clip.try_trim_range(params)
            }?;
            spans.extend(trimmed);""","""            let mut trimmed = match n1.subject() {
                true => subject.try_trim_range(params)?,
                false => clip.try_trim_range(params)?,
            };
            spans.append(&mut trimmed);"""),(CL,"""    [&a, &b].iter().for_each(|list| {
        list.iter()
            .cycle()
            .take(list.len() + 1)
            .collect_vec()
            .windows(2)
            .for_each(|w| {
                w[0].borrow_mut().set_next(Rc::downgrade(w[1]));
                w[1].borrow_mut().set_prev(Rc::downgrade(w[0]));
            });
    });""","""    fn link<V>(list: &[Rc<RefCell<Node<V>>>]) {
        let n = list.len();
        for i in 0..n {
            let j = (i + 1) % n;
            list[i].borrow_mut().set_next(Rc::downgrade(&list[j]));
            list[j].borrow_mut().set_prev(Rc::downgrade(&list[i]));
        }
    }
    link(&a);
    link(&b);""")]),
]
