MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C28', name, exp, edits))
K = 'src/knot/knot_vector.rs'
M('floor strict', 'caught', (K, "rposition(|t| *t <= knot)", "rposition(|t| *t < knot)"))
M('floor first', 'caught', (K, "self.iter().rposition(|t| *t <= knot)", "self.iter().position(|t| *t >= knot)"))
M('add after index', 'caught', (K, "self.0.insert(idx + 1, knot);\n                idx + 1", "self.0.insert(idx + 1, knot);\n                idx"))
M('add below at the end', 'caught', (K, "self.0.insert(0, knot);", "self.0.push(knot);"))
M('multiplicity forgets the last', 'caught', (K, "        mult.push(current);\n\n        mult", "        mult"))
M('multiplicity starts at one', 'caught', (K, "current = KnotMultiplicity::new(*knot, 0);", "current = KnotMultiplicity::new(*knot, 1);"))
M('clamped either end', 'caught', (K, "start.multiplicity() > degree && end", "start.multiplicity() > degree || end"))
M('clamped by degree', 'caught', (K, "start.multiplicity() > degree", "start.multiplicity() >= degree"))
M('span at repeated knots', 'caught', (K, "while u < self[mid] || self[mid + 1] <= u {", "while u < self[mid] || self[mid + 1] < u {"))
M('span at the end', 'caught', (K, "        if u > self[n + 1] - T::default_epsilon() {\n            return n;", "        if u > self[n + 1] - T::default_epsilon() {\n            return n - 1;"))
M('span of the first', 'caught', (K, "if u < self[degree] + T::default_epsilon() {", "if u < self[degree + 1] + T::default_epsilon() {"))
M('linear span strict', 'caught', (K, "while span < n && u >= self.0[span]", "while span < n && u > self.0[span]"))
M('domain from the ends', 'caught', (K, "(self.0[degree], self.0[self.0.len() - 1 - degree])", "(self.first(), self.last())"))
M('uniform too long', 'caught', (K, "        let m = degree;\n", "        let m = degree + 1;\n"))
M('invert keeps gaps', 'caught', (K, "next[i - 1] + (self[len - i] - self[len - i - 1])", "next[i - 1] + (self[i] - self[i - 1])"))
M('even spans lag', 'caught', (K, "            knot_spans.push(knot_index);\n            bases.push(self.basis_functions(knot_index, u, degree));\n            u += span;", "            bases.push(self.basis_functions(knot_index, u, degree));\n            u += span;\n            knot_spans.push(knot_index + 1);"))
M('even spans jump one', 'caught', (K, "            while u >= self[knot_index + 1] && knot_index < n {\n                knot_index += 1;\n            }\n            knot_spans.push(knot_index);\n            bases.push(self.derivative", "            if u >= self[knot_index + 1] && knot_index < n {\n                knot_index += 1;\n            }\n            knot_spans.push(knot_index);\n            bases.push(self.derivative"))
M('floor by partition', 'quiet', (K, "self.iter().rposition(|t| *t <= knot)", "(0..self.0.len()).rev().find(|i| self.0[*i] <= knot)"))
M('span by loop', 'quiet', (K, "        let mut low = degree;\n        let mut high = n + 1;\n        let mut mid = ((low + high) as f64 / 2.).floor() as usize;\n        while u < self[mid] || self[mid + 1] <= u {\n            if u < self[mid] {\n                high = mid;\n            } else {\n                low = mid;\n            }\n            let next = ((low + high) as f64 / 2.).floor() as usize;\n            if mid == next {\n                break;\n            }\n            mid = next;\n        }\n\n        mid", "        let mut low = degree;\n        let mut high = n + 1;\n        while high - low > 1 {\n            let mid = low + (high - low) / 2;\n            if u < self[mid] {\n                high = mid;\n            } else {\n                low = mid;\n            }\n        }\n        low"))
M('clamped by counting', 'quiet', (K, "        let multiplicity = self.multiplicity();\n        let start = multiplicity.first();\n        let end = multiplicity.last();\n        match (start, end) {\n            (Some(start), Some(end)) => {\n                start.multiplicity() > degree && end.multiplicity() > degree\n            }\n            _ => false,\n        }", "        let (a, b) = (self.0[0], self.0[self.0.len() - 1]);\n        let near = |x: T, y: T| (x - y).abs() <= T::default_epsilon();\n        self.0.iter().filter(|k| near(**k, a)).count() > degree && self.0.iter().filter(|k| near(**k, b)).count() > degree"))
M('multiplicity by loop', 'quiet', (K, "        self.0.iter().for_each(|knot| {\n            if", "        for knot in self.0.iter() {\n            if"), (K, "            current.increment_multiplicity();\n        });", "            current.increment_multiplicity();\n        }"))
