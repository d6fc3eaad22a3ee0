// ===== prelude: the coefficients are rationals
pub type F = Rational;
