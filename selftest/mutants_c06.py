MUTANTS = []
def M(pid, name, exp, *edits): MUTANTS.append((pid, name, exp, edits))
CL, MO, BC = 'src/boolean/clip.rs', 'src/boolean/mod.rs', 'src/boolean/boolean_curve.rs'
M('C07', 'next not visited', 'caught', (CL, "                next.borrow_mut().visit();\n", ""))
M('C07', 'last not connected', 'caught', (CL, ".take(list.len() + 1)", ".take(list.len())"))
M('C07', 'prev of the wrong one', 'caught', (CL, "w[1].borrow_mut().set_prev(Rc::downgrade(w[0]));", "w[0].borrow_mut().set_prev(Rc::downgrade(w[1]));"))
M('C07', 'difference inverts the clip', 'caught', (CL, "    if operation == BooleanOperation::Union {\n        // invert b status", "    if operation != BooleanOperation::Intersection {\n        // invert b status"))
M('C07', 'tangencies count as crossings', 'caught', (CL, "matches!(deg, Degeneracy::None));", "matches!(deg, Degeneracy::None | Degeneracy::Angle(_)));"))
M('C07', 'touches count as crossings', 'caught', (CL, "matches!(deg, Degeneracy::None));", "!matches!(deg, Degeneracy::Angle(_)));"))
M('C07', 'parameter of the subject on the clip', 'caught', (CL, "            let (curve, p, t) = it.b();\n", "            let (curve, p, _) = it.b();\n            let t = &it.a_parameter();\n"))
M('C07', 'pieces in reverse', 'caught', (CL, "            spans.extend(trimmed);", "            spans.splice(0..0, trimmed);"))
M('C07', 'only the last region', 'caught', (CL, "            regions.push(region);", "            regions = vec![region];"))
M('C07', 'small regions dropped', 'caught', (CL, "        if !spans.is_empty() {", "        if spans.len() > 2 {"))
M('C07', 'flag not toggled on the clip', 'caught', (CL, "        b_flag = !b_flag;", "        b_flag = !b_flag || b.len() > 2;"))
M('C07', 'neighbours by position', 'caught', (CL, "b.iter().find(|(i, _)| i == index)", "b.get(*index)"))
M('C07', 'stops at the first neighbour', 'caught', (CL, "                if let Some(neighbor) = next.borrow().neighbor() {\n                    current", "                if let Some(neighbor) = next.borrow().neighbor().filter(|n| nodes.len() < 6 || !n.borrow().subject()) {\n                    current"))
M('C07', 'subject of the second', 'quiet', (CL, "if n0.subject() {", "if n1.subject() {"))
M('C07', 'walk by while', 'quiet', (CL, "        loop {\n            if current.borrow().visited() {\n                break;\n            }\n\n            current.borrow_mut().visit();", "        while !current.borrow().visited() {\n            current.borrow_mut().visit();"))
M('C07', 'flags by a helper', 'quiet', (CL, "    a.iter().for_each(|list| {\n        let mut node = list.borrow_mut();\n        *node.status_mut() = if a_flag { Status::Enter } else { Status::Exit };\n        a_flag = !a_flag;\n    });\n\n    b.iter().for_each(|list| {\n        let mut node = list.borrow_mut();\n        *node.status_mut() = if b_flag { Status::Enter } else { Status::Exit };\n        b_flag = !b_flag;\n    });", "    mark(&a, a_flag);\n    mark(&b, b_flag);"),
  (CL, "    let mut a_flag = !clip", "    let a_flag = !clip"), (CL, "    let mut b_flag = !subj", "    let b_flag = !subj"),
  (CL, "/// Boolean operation for two curves.", "fn mark<T: FloatingPoint>(nodes: &[Rc<RefCell<Node<Vertex<'_, T>>>>], first: bool) {\n    for (i, node) in nodes.iter().enumerate() {\n        *node.borrow_mut().status_mut() = if (i % 2 == 0) == first { Status::Enter } else { Status::Exit };\n    }\n}\n\n/// Boolean operation for two curves."))
M('C07', 'connected by index', 'quiet', (CL, "        list.iter()\n            .cycle()\n            .take(list.len() + 1)\n            .collect_vec()\n            .windows(2)\n            .for_each(|w| {\n                w[0].borrow_mut().set_next(Rc::downgrade(w[1]));\n                w[1].borrow_mut().set_prev(Rc::downgrade(w[0]));\n            });", "        for i in 0..list.len() {\n            let (p, n) = (&list[i], &list[(i + 1) % list.len()]);\n            p.borrow_mut().set_next(Rc::downgrade(n));\n            n.borrow_mut().set_prev(Rc::downgrade(p));\n        }"))
M('C07', 'statuses set once', 'quiet', (CL, "    match operation {\n        BooleanOperation::Union | BooleanOperation::Difference => {\n            // invert a status\n            a.iter().for_each(|node| {\n                node.borrow_mut().status_mut().invert();\n            });\n        }\n        _ => {}\n    }\n\n    if operation == BooleanOperation::Union {\n        // invert b status\n        b.iter().for_each(|node| {\n            node.borrow_mut().status_mut().invert();\n        });\n    }\n", ""),
  (CL, "let mut a_flag = !clip_contains_subject;", "let mut a_flag = clip_contains_subject == matches!(operation, BooleanOperation::Union | BooleanOperation::Difference);"), (CL, "let mut b_flag = !subject_contains_clip;", "let mut b_flag = subject_contains_clip == (operation == BooleanOperation::Union);"))
M('C07', 'pieces by flat map', 'quiet', (CL, "            let trimmed = if n0.subject() {\n                subject.try_trim_range(params)\n            } else {\n                clip.try_trim_range(params)\n            }?;\n            spans.extend(trimmed);", "            if n0.subject() {\n                spans.extend(subject.try_trim_range(params)?);\n            } else {\n                for s in clip.try_trim_range(params)? {\n                    spans.push(s);\n                }\n            }"))
M('C06', 'union of containing is the clip', 'caught', (CL, "            (true, false) => match operation {\n                BooleanOperation::Union => vec![Region::new(subject.clone().into(), vec![])],", "            (true, false) => match operation {\n                BooleanOperation::Union => vec![Region::new(clip.clone().into(), vec![])],"))
M('C06', 'disjoint union forgets one', 'caught', (CL, "                    Region::new(subject.clone().into(), vec![]),\n                    Region::new(clip.clone().into(), vec![]),\n", "                    Region::new(subject.clone().into(), vec![]),\n"))
M('C06', 'disjoint intersection', 'caught', (CL, "                BooleanOperation::Intersection => vec![],\n", "                BooleanOperation::Intersection => vec![Region::new(clip.clone().into(), vec![])],\n"))
M('C06', 'both contain each other', 'caught', (CL, "                anyhow::bail!(\"Invalid case\");", "                vec![Region::new(subject.clone().into(), vec![])]"))
M('C06', 'union named wrong', 'caught', (MO, "self.boolean(BooleanOperation::Union, other, option)", "self.boolean(BooleanOperation::Difference, other, option)"))
M('C06', 'no crossings', 'quiet', (CL, "if indexed.is_empty() {", "if indexed.len() < 2 {"))
M('C06', 'containment late', 'quiet', (CL, "    let indexed = intersections.into_iter().enumerate().collect_vec();\n", ""), (CL, "    let clip_contains_subject = clip.contains", "    let indexed = intersections.into_iter().enumerate().collect_vec();\n    let clip_contains_subject = clip.contains"))
M('C06', 'by operation first', 'quiet', (CL, "            (false, false) => match operation {\n                BooleanOperation::Union => vec![\n                    Region::new(subject.clone().into(), vec![]),\n                    Region::new(clip.clone().into(), vec![]),\n                ],\n                BooleanOperation::Intersection => vec![],\n                BooleanOperation::Difference => {\n                    vec![Region::new(subject.clone().into(), vec![])]\n                }\n            },", "            (false, false) => {\n                let mut out = vec![];\n                if operation != BooleanOperation::Intersection {\n                    out.push(Region::new(subject.clone().into(), vec![]));\n                }\n                if operation == BooleanOperation::Union {\n                    out.push(Region::new(clip.clone().into(), vec![]));\n                }\n                out\n            }"))
