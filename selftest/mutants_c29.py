MUTANTS = []
def M(name, exp, *edits): MUTANTS.append(('C29', name, exp, edits))
D, R = 'src/boolean/degeneracies.rs', 'src/misc/ray.rs'
M('both at the parameter of a', 'caught', (D, "b.point_at(it.b_parameter() - parameter_eps)", "b.point_at(it.a_parameter() - parameter_eps)"))
M('signed cosine', 'caught', (D, "ComplexField::abs(ta.dot(&tb))", "ta.dot(&tb)"))
M('tangents not normalised', 'caught', (D, "let ta = la.tangent().normalize();", "let ta = la.tangent();"))
M('threshold', 'caught', (D, "0.9975", "0.75"))
M('one sided', 'caught', (D, "let a1 = a.point_at(it.a_parameter() + parameter_eps);", "let a1 = a.point_at(it.a_parameter());"), (D, "let b1 = b.point_at(it.b_parameter() + parameter_eps);", "let b1 = b.point_at(it.b_parameter() - parameter_eps / (parameter_eps + parameter_eps));"))
M('touch ignored', 'caught', (D, "if !intersected {", "if !intersected && la.tangent() == lb.tangent() {"))
M('parallel rays', 'caught', (R, "if div.abs() < T::default_epsilon() {", "if div < -T::default_epsilon() {"))
M('ray parameter', 'caught', (R, "(dab0 - daa0 + w * dab) / daa", "(dab0 - daa0 + w * dab) / dbb"))
M('ray swapped', 'caught', (R, "intersection1: (other.point_at(w), w)", "intersection1: (other.point_at(t), t)"))
M('classification by match', 'quiet', (D, "            if dot < collinear_dot_threshold {\n                Degeneracy::None\n            } else {\n                Degeneracy::Angle(dot)\n            }", "            match dot < collinear_dot_threshold {\n                true => Degeneracy::None,\n                false => Degeneracy::Angle(dot),\n            }"))
M('smaller step', 'quiet', (D, "T::from_f64(1e-4)", "T::from_f64(5e-5)"))
M('ray by offset', 'quiet', (R, "        let dab0 = self.direction.dot(&other.origin().coords);\n        let daa0 = self.direction.dot(&self.origin().coords);\n        let dbb0 = other.direction().dot(&other.origin().coords);\n        let dba0 = other.direction().dot(&self.origin().coords);\n\n        let num = dab * (dab0 - daa0) - daa * (dbb0 - dba0);", "        let offset = other.origin() - self.origin();\n        let dab0 = self.direction.dot(&offset);\n        let daa0 = T::zero();\n        let num = dab * dab0 - daa * other.direction().dot(&offset);"))
