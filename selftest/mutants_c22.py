C='src/region/compound_curve.rs'
D='src/region/curve_direction.rs'
M=lambda n,e,*ed: ('C22',n,e,list(ed))
MUTANTS=[
M('preceding span goes before the last','caught',(C,"connected.insert(0, next);","connected.insert(connected.len() - 1, next);")),
M('turned span not turned','caught',(C,"connected.insert(0, next.inverse());","connected.insert(0, next);")),
M('facing span not turned','caught',(C,"connected.push(next.inverse());","connected.push(next);")),
M('only the next in the list is tried','caught',(C,"let found = curves.iter().enumerate().find_map(","let found = curves.iter().enumerate().take(1).find_map(")),
M('taken from the end','caught',(C,"let next = curves.remove(index);","let next = curves.swap_remove(index);\n                    if index + 1 < curves.len() {\n                        curves.pop();\n                    }")),
M('swap remove','quiet',(C,"let next = curves.remove(index);","let next = curves.swap_remove(index);")),
M('empty list','caught',(C,"curves.drain(..curves.len().min(1)).collect();","vec![curves.remove(0)];")),
M('gap of unclamped spans','caught',(C,"Some(end) => (span.knots_domain().0, end),","Some(end) => (span.knots().first(), end),")),
M('every span starts at the first','caught',(C,"Some(end) => (span.knots_domain().0, end),","Some(_) => (span.knots_domain().0, knot_start),")),
M('offset first','quiet',(C,"""        span.knots_mut().iter_mut().for_each(|v| {
            *v = *v - start + offset;
        });""","""        let shift = offset - start;
        for v in span.knots_mut().iter_mut() {
            *v += shift;
        }""")),
M('length of the first two','caught',(C,"self.spans.iter().map(|span| span.try_length()).collect();","self.spans.iter().take(2).map(|span| span.try_length()).collect();")),
M('failing lengths skipped','caught',(C,"""        let lengthes: anyhow::Result<Vec<T>> =
            self.spans.iter().map(|span| span.try_length()).collect();""","""        let lengthes: anyhow::Result<Vec<T>> =
            Ok(self.spans.iter().flat_map(|span| span.try_length()).collect());""")),
M('farthest point','caught',(C,".min_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal));",".max_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal));")),
M('closed by the first span','caught',(C,"let end = self.spans.last().map(","let end = self.spans.first().map(")),
M('closed in one coordinate','caught',(C,"delta.norm() < eps","delta[0].abs() < eps")),
M('closed loosely','caught',(C,"let eps = T::default_epsilon() * T::from_usize(10).unwrap();","let eps = T::from_f64(1e-2).unwrap();")),
M('start end mixed','caught',(D,"((&a0 - &b1).norm(), Self::Backward),","((&a0 - &b1).norm(), Self::Opposite),")),
M('squared distances','quiet',(D,"((&a1 - &b0).norm(), Self::Forward),\n                ((&a1 - &b1).norm(), Self::Facing),","((&b0 - &a1).norm(), Self::Forward),\n                ((&b1 - &a1).norm(), Self::Facing),")),
M('length summed with try_fold','quiet',(C,"""        let lengthes: anyhow::Result<Vec<T>> =
            self.spans.iter().map(|span| span.try_length()).collect();""","""        let lengthes: anyhow::Result<Vec<T>> = self
            .spans
            .iter()
            .try_fold(T::zero(), |acc, span| span.try_length().map(|l| acc + l))
            .map(|l| vec![l]);""")),
M('length of try_fold forgets','caught',(C,"""        let lengthes: anyhow::Result<Vec<T>> =
            self.spans.iter().map(|span| span.try_length()).collect();""","""        let lengthes: anyhow::Result<Vec<T>> = self
            .spans
            .iter()
            .try_fold(T::zero(), |acc, span| span.try_length().map(|l| acc.max(l)))
            .map(|l| vec![l]);""")),
]
