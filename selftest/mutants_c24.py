R='src/boolean/boolean_region.rs'
M=lambda n,e,*ed: ('C24',n,e,list(ed))
MUTANTS=[
M('only the first part','caught',(R,"                        regions.push(outline.clone().into());","                        if regions.is_empty() {\n                            regions.push(outline.clone().into());\n                        }")),
M('islands dropped','caught',(R,"                        regions.extend(islands.into_iter().map(Region::from));","                        let _ = islands;")),
M('islands are holes','caught',(R,"                        regions.extend(islands.into_iter().map(Region::from));","                        interiors.extend(islands);")),
M('gaps are parts','caught',(R,"                    if enclosed {","                    if enclosed && i == 0 {")),
M('holes kept whole','caught',(R,"interior.boolean(BooleanOperation::Difference, other, option.clone())?;","interior.boolean(BooleanOperation::Union, other, option.clone())?;")),
M('holes not distributed','caught',(R,"                distribute_interiors_to_regions(&mut regions, &mut interiors, option.clone())?;\n\n                Ok(Clip::new(regions, Default::default()))\n            }\n            BooleanOperation::Intersection","                Ok(Clip::new(regions, Default::default()))\n            }\n            BooleanOperation::Intersection")),
M('holes of an intersection dropped','caught',(R,"""                                distribute_interiors_to_regions(
                                    &mut regions,
                                    &mut its,
                                    option.clone(),
                                )?;
                                Ok(regions)""","                                its.clear();\n                                Ok(regions)")),
M('difference without the holes','caught',(R,"regions_iter.for_each(|region| interiors.push(region.into_exterior()));","regions_iter.for_each(|_| {});")),
M('clip keeps the last part','caught',(R,"let head = regions_iter.next();","let head = regions_iter.next_back();")),
M('clip is not widened','caught',(R,"current_clip = head.into_exterior();","let _ = head.into_exterior();")),
M('only the first hole of the clip','caught',(R,"for it in self.interiors().iter() {","for it in self.interiors().iter().take(1) {")),
M('union ignores self in gaps','caught',(R,"let rest = empty.boolean(BooleanOperation::Difference, self, option.clone())?;","let rest = empty.boolean(BooleanOperation::Difference, self.exterior(), option.clone())?;")),
M('difference ignores holes','caught',(R,"                    regions.extend(rest.into_regions());","                    let _ = rest.into_regions();")),
M('intersection ignores holes','caught',(R,"                    regions = subtract(&regions, &empty, &option)?;\n                }\n                BooleanOperation::Diff","                    let _ = subtract(&regions, &empty, &option)?;\n                }\n                BooleanOperation::Diff")),
M('a hole goes to every part','quiet',(R,"let it = interiors.remove(i);","let it = interiors[i].clone();")),
M('a hole goes to the wrong part','caught',(R,"Ok(true) => {\n                    let it","Ok(false) => {\n                    let it"),(R,"                Ok(false) => {}\n","                Ok(true) => {}\n")),
M('fold over the holes','quiet',(R,"""        let mut regions = clip.into_regions();

        for interior in other.interiors().iter() {
            let empty""","""        let mut regions: Vec<Region<T>> = Vec::new();
        for r in clip.into_regions() {
            regions.push(r);
        }

        let mut rest = other.interiors();
        while let Some((interior, tail)) = rest.split_first() {
            rest = tail;
            let empty""")),
M('named operations','quiet',(R,"let rest = empty.boolean(BooleanOperation::Difference, self, option.clone())?;","let rest = empty.difference(self, option.clone())?;")),
M('early return','quiet',(R,"        let clip = self.boolean(operation, other.exterior(), option.clone())?;","        let clip = self.boolean(operation, other.exterior(), option.clone())?;\n        if other.interiors().is_empty() {\n            return Ok(clip);\n        }")),
M('forward order','quiet',(R,"            match region.exterior().contains(&pt, option.clone()) {\n                Ok(true) => {","            let inside = region.exterior().contains(&pt, option.clone());\n            match inside {\n                Ok(true) => {")),
M('distribute into new list','quiet',(R,"""        let n = interiors.len();
        for i in (0..n).rev() {
            let pt = interiors[i].first_point();
            match region.exterior().contains(&pt, option.clone()) {
                Ok(true) => {
                    let it = interiors.remove(i);
                    region.interiors_mut().push(it);
                }
                Ok(false) => {}
                Err(e) => {
                    return Err(e);
                }
            }
        }""","""        let mut left = vec![];
        for it in interiors.drain(..) {
            let pt = it.first_point();
            if region.exterior().contains(&pt, option.clone())? {
                region.interiors_mut().push(it);
            } else {
                left.push(it);
            }
        }
        *interiors = left;""")),
]
