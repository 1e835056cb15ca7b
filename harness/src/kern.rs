//! Published robust kernels, written independently of the library.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kern {
    L2,
    L1,
    Huber(f64),
    Fair(f64),
    Cauchy(f64),
    Geman(f64),
    Welsch(f64),
    Tukey(f64),
}
impl Kern {
    pub fn rho(self, x: f64) -> f64 {
        match self {
            Kern::L2 => x * x / 2.0,
            Kern::L1 => x,
            Kern::Huber(k) => if x <= k { x * x / 2.0 } else { k * (x - k / 2.0) },
            Kern::Fair(c) => { let u = x / c; c * c * (u - u.ln_1p()) }
            Kern::Cauchy(c) => c * c / 2.0 * (x * x / (c * c)).ln_1p(),
            Kern::Geman(c) => c * c * x * x / 2.0 / (c * c + x * x),
            Kern::Welsch(c) => -c * c / 2.0 * (-x * x / (c * c)).exp_m1(),
            Kern::Tukey(c) => if x <= c { let u = 1.0 - x * x / (c * c); c * c / 6.0 * (1.0 - u * u * u) } else { c * c / 6.0 },
        }
    }
    /// rho'(x) / x
    pub fn w(self, x: f64) -> f64 {
        match self {
            Kern::L2 => 1.0,
            Kern::L1 => 1.0 / x,
            Kern::Huber(k) => if x <= k { 1.0 } else { k / x },
            Kern::Fair(c) => 1.0 / (1.0 + x / c),
            Kern::Cauchy(c) => c * c / (c * c + x * x),
            Kern::Geman(c) => { let f = c * c / (c * c + x * x); f * f }
            Kern::Welsch(c) => (-x * x / (c * c)).exp(),
            Kern::Tukey(c) => if x <= c { let u = 1.0 - x * x / (c * c); u * u } else { 0.0 },
        }
    }
    /// L1's weight is regularised near zero (the definition has a pole there); no value is specified in that band.
    pub fn w_specified(self, x: f64) -> bool {
        self != Kern::L1 || x * x > 1.1e-3
    }
    pub fn threshold(self) -> Option<f64> {
        match self {
            Kern::Huber(k) | Kern::Tukey(k) => Some(k),
            _ => None,
        }
    }
}
