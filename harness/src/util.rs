//! Small helpers shared by the checks.
use moledyn::prelude::*;

/// |a-b| small compared with `scale` (and with a and b).
pub fn close(a: f64, b: f64, scale: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= 1e-9 * (scale.abs() + a.abs().max(b.abs()) * 1e-3)
}

pub fn rel(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * a.abs().max(b.abs())
}

pub fn pos(v: &[f64]) -> Position<f64> {
    Position::<f64>::new(v.to_vec())
}

/// What Open01 makes of a 64-bit draw: (0,1).
pub fn open01(bits: u64) -> f64 {
    ((bits >> 12) as f64) * 2f64.powi(-52) + 2f64.powi(-53)
}

/// A 64-bit draw for which Open01 returns (about) `u`.
pub fn bits_for(u: f64) -> u64 {
    let k = (u * 2f64.powi(52)).floor().max(0.0).min(2f64.powi(52) - 1.0) as u64;
    k << 12
}
