
CN='src/closest_parameter/curve_closest_parameter_newton.rs'
SN='src/closest_parameter/surface_closest_parameter_newton.rs'
C='src/curve/nurbs_curve.rs'
S='src/surface/nurbs_surface.rs'
MUTANTS=[
('C15','wrap sign','caught',[(CN,"(self.knot_domain.1 - (self.knot_domain.0 - new_param)).max(self.knot_domain.0)","(self.knot_domain.1 - (new_param - self.knot_domain.0)).max(self.knot_domain.0)")]),
('C15','no far clamp','caught',[(CN,"(self.knot_domain.1 - (self.knot_domain.0 - new_param)).max(self.knot_domain.0)","self.knot_domain.1 - (self.knot_domain.0 - new_param)")]),
('C15','surface no far clamp','caught',[(SN,"RealField::min(domain.0 + (parameter - domain.1), domain.1)","domain.0 + (parameter - domain.1)")]),
('C15','surface swapped domain','caught',[(SN,"constrain(new_param.y, self.knot_domain.1, self.closed.1)","constrain(new_param.y, self.knot_domain.0, self.closed.1)")]),
('C15','surface swapped closed','caught',[(SN,"constrain(new_param.y, self.knot_domain.1, self.closed.1)","constrain(new_param.y, self.knot_domain.1, self.closed.0)")]),
('C15','surface caller closed swapped','caught',[(S,"            (u_closed, v_closed),","            (v_closed, u_closed),")]),
('C15','surface caller domain same','caught',[(S,"            (self.u_knots_domain(), self.v_knots_domain()),\n            (u_closed","            (self.u_knots_domain(), self.u_knots_domain()),\n            (u_closed")]),
('C15','curve unconstrained','caught',[(CN,"        Ok((state.param(new_param), None))","        let _ = new_param;\n        let p = *param - self.gamma * inv * grad;\n        Ok((state.param(p), None))")]),
('C15','open clamps to start','caught',[(CN,"                self.knot_domain.1\n            }","                self.knot_domain.0\n            }")]),
('C15','finite check or','caught',[(S,"if t.x.is_finite() && t.y.is_finite()","if t.x.is_finite() || t.y.is_finite()")]),
('C15','finite check dropped','caught',[(C,"                if t.is_finite() {\n                    Ok(t)","                if t == t {\n                    Ok(t)")]),
('C15','v only branch unconstrained','caught',[(SN,"                let v_delta = -grad.y / dvv;\n                *param + Vector2::new(F::zero(), v_delta) * self.gamma","                let v_delta = -grad.y / dvv;\n                let p = *param + Vector2::new(F::zero(), v_delta) * self.gamma;\n                return Ok((state.param(p), None));")]),
('C15','closed flag from curve inverted','caught',[(C,"CurveClosestParameterNewton::new((min_u, max_u), closed)","CurveClosestParameterNewton::new((min_u, max_u), !closed)")]),
('C15','returns seed','caught',[(C,"                if t.is_finite() {\n                    Ok(t)","                if t.is_finite() {\n                    Ok(min_u)")]),
('C15','min max style','quiet',[(CN,"""        let new_param = if new_param < self.knot_domain.0 {
            if self.closed {""","""        let (lo, hi) = self.knot_domain;
        let new_param = if !self.closed {
            new_param.max(lo).min(hi)
        } else if new_param < self.knot_domain.0 {
            if self.closed {""")]),
('C15','helper extracted','quiet',[(CN,"""        let new_param = if new_param < self.knot_domain.0 {
            if self.closed {
                (self.knot_domain.1 - (self.knot_domain.0 - new_param)).max(self.knot_domain.0)
            } else {
                self.knot_domain.0
            }
        } else if new_param > self.knot_domain.1 {
            if self.closed {
                (self.knot_domain.0 + (new_param - self.knot_domain.1)).min(self.knot_domain.1)
            } else {
                self.knot_domain.1
            }
        } else {
            new_param
        };
""","""        let new_param = confine(new_param, self.knot_domain, self.closed);
"""),(CN,"impl<O, F> Solver<O,","""fn confine<F: ArgminFloat>(p: F, (lo, hi): (F, F), closed: bool) -> F {
    match (p < lo, hi < p, closed) {
        (false, false, _) => p,
        (true, _, false) => lo,
        (_, true, false) => hi,
        (true, _, true) => (p + (hi - lo)).max(lo),
        (_, true, true) => (p - (hi - lo)).min(hi),
    }
}

impl<O, F> Solver<O,""")]),
]
