//! Doubles with a running first-order bound on the rounding error, used by the reference computations: the
//! implementation may evaluate the same expression in another order, so results are compared within the bound.
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub v: f64,
    pub e: f64,
}
/// 16 half-ulps per operation
pub const U: f64 = 16.0 * 1.110_223_024_625_156_5e-16;

pub fn ev(v: f64) -> Ev {
    Ev { v, e: 0.0 }
}
/// A value that has been computed (possibly with another rounding) from exact data
pub fn evr(v: f64) -> Ev {
    Ev { v, e: U * v.abs() }
}
fn mk(v: f64, e: f64) -> Ev {
    Ev { v, e: e + U * v.abs() }
}
impl Add for Ev {
    type Output = Ev;
    fn add(self, o: Ev) -> Ev {
        mk(self.v + o.v, self.e + o.e)
    }
}
impl Sub for Ev {
    type Output = Ev;
    fn sub(self, o: Ev) -> Ev {
        mk(self.v - o.v, self.e + o.e)
    }
}
impl Mul for Ev {
    type Output = Ev;
    fn mul(self, o: Ev) -> Ev {
        mk(self.v * o.v, self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e)
    }
}
impl Div for Ev {
    type Output = Ev;
    fn div(self, o: Ev) -> Ev {
        if o.e >= 0.5 * o.v.abs() {
            return Ev { v: self.v / o.v, e: f64::INFINITY };
        }
        let q = self.v / o.v;
        mk(q, 2.0 * (self.e + q.abs() * o.e) / o.v.abs())
    }
}
impl Neg for Ev {
    type Output = Ev;
    fn neg(self) -> Ev {
        Ev { v: -self.v, e: self.e }
    }
}
impl Ev {
    pub fn abs(self) -> Ev {
        Ev { v: self.v.abs(), e: self.e }
    }
    pub fn min(self, o: Ev) -> Ev {
        Ev { v: self.v.min(o.v), e: self.e.max(o.e) }
    }
    pub fn max(self, o: Ev) -> Ev {
        Ev { v: self.v.max(o.v), e: self.e.max(o.e) }
    }
    pub fn sqrt(self) -> Ev {
        if self.e >= 0.5 * self.v.abs() {
            return Ev { v: self.v.sqrt(), e: f64::INFINITY };
        }
        let r = self.v.sqrt();
        mk(r, self.e / r)
    }
    /// Certainly positive?
    pub fn pos(self) -> bool {
        self.v > 0.0 && self.v > self.e
    }
    pub fn ok(self) -> bool {
        self.v.is_finite() && self.e.is_finite()
    }
    /// Does the implementation's value agree?
    pub fn agrees(self, x: f64) -> bool {
        (x - self.v).abs() <= self.e + 1e-150
    }
    /// Decided sign: Some(true) if > 0, Some(false) if < 0, None if the error bound includes zero
    pub fn sign(self) -> Option<bool> {
        if self.v.abs() <= self.e || self.v == 0.0 {
            None
        } else {
            Some(self.v > 0.0)
        }
    }
}
