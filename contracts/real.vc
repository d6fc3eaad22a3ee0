//@ raw
// the product of two reals, with the facts about 0 and 1 that a linear solver lacks
pub open spec fn mu(x: real, y: real) -> real { x * y }
pub broadcast proof fn mu_facts(x: real, y: real)
    ensures #[trigger] mu(x, y) == y * x, mu(x, y) == x * y, x == 0real ==> mu(x, y) == 0real, y == 0real ==> mu(x, y) == 0real, x == 1real ==> mu(x, y) == y, y == 1real ==> mu(x, y) == x
{ assert(x * y == y * x) by(nonlinear_arith); if x == 0real { assert(x * y == 0real) by(nonlinear_arith) requires x == 0real; } if y == 0real { assert(x * y == 0real) by(nonlinear_arith) requires y == 0real; } }
pub proof fn mu_neg(x: real, y: real) ensures mu(0real - x, y) == -mu(x, y) { assert((0real - x) * y == -(x * y)) by(nonlinear_arith); }
pub proof fn mu_def(x: real, y: real) ensures mu(x, y) == x * y {}
