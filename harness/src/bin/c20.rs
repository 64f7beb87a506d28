//! All chains of unit conversions against a model that keeps the physical quantity.
use corries::prelude::*;
use corries::units::Units;
use vh::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Length,
    Time,
    Mass,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sys {
    Si,
    Cgs,
}
fn units(s: Sys) -> Units {
    Units::new(match s {
        Sys::Si => UnitsMode::SI,
        Sys::Cgs => UnitsMode::CGS,
    })
}
fn convert(u: &Units, q: Q, to: Sys, x: f64) -> f64 {
    match (q, to) {
        (Q::Length, Sys::Si) => u.convert_length_to_si(x),
        (Q::Time, Sys::Si) => u.convert_time_to_si(x),
        (Q::Mass, Sys::Si) => u.convert_mass_to_si(x),
        (Q::Length, Sys::Cgs) => u.convert_length_to_cgs(x),
        (Q::Time, Sys::Cgs) => u.convert_time_to_cgs(x),
        (Q::Mass, Sys::Cgs) => u.convert_mass_to_cgs(x),
    }
}
/// How many units of the system make up one SI unit
fn per_si(q: Q, s: Sys) -> f64 {
    match (q, s) {
        (_, Sys::Si) | (Q::Time, _) => 1.0,
        (Q::Length, Sys::Cgs) => 100.0,
        (Q::Mass, Sys::Cgs) => 1000.0,
    }
}

fn main() {
    vh::run("C20", |ctx| {
        let mut vals = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
        for m in ["1", "1.5", "9.999999", "7.123456789012345", "3", "1.0000000000000002"] {
            for e in -324..=308 {
                let x: f64 = format!("{m}e{e}").parse().unwrap();
                if x.is_finite() {
                    vals.extend([x, -x]);
                }
            }
        }
        vals.extend([f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 60.0, 3600.0, 86400.0, 100.0, 1000.0, 0.1, 0.01]);
        let depth = ctx.pick(6, 10);
        ctx.note("chain length", depth);
        // digit 0 of a chain: the starting system; further digits: targets
        let chains = 1usize << (depth + 1);
        ctx.group("chains", vals.len() * 3, |k, t| {
            let mut r = Radix(k);
            let q = *r.of(&[Q::Length, Q::Time, Q::Mass]);
            let x0 = *r.of(&vals);
            for chain in 0..chains {
                let mut r = Radix(chain);
                let sys = [Sys::Si, Sys::Cgs];
                let start = *r.of(&sys);
                let (mut at, mut x) = (start, x0);
                // what rounding, also that of denormal numbers, may have added up to
                let mut err = 0.0;
                t.states += 1;
                for d in 1..=depth {
                    let to = *r.of(&sys);
                    let y = convert(&units(at), q, to, x);
                    t.transitions += 1;
                    let want = x0 * (per_si(q, to) / per_si(q, start));
                    err = err * (per_si(q, to) / per_si(q, at)).max(1.0) + 4.0 * f64::EPSILON * want.abs() + 2e-323 * per_si(q, to);
                    if x0.is_finite() && want.abs() > 1e308 {
                        break; // at the edge of what a number can hold
                    }
                    let ok = if !x0.is_finite() || x0 == 0.0 {
                        y == want || (y.is_nan() && want.is_nan())
                    } else {
                        (y - want).abs() <= err && (at != to || at == Sys::Cgs || y.to_bits() == x.to_bits())
                    };
                    if !ok {
                        return Err(format!("{q:?} of {x0:e} {start:?} units, after {d} conversions (the last one from {x:e} {at:?} to {to:?}): {y:e}, expected {want:e}"));
                    }
                    // a unit object converts more than once
                    let u = units(at);
                    if convert(&u, q, to, x).to_bits() != convert(&u, q, to, x).to_bits() {
                        return Err(format!("{q:?}: converting {x:e} twice gives different results"));
                    }
                    (at, x) = (to, y);
                }
                t.traces += 1;
            }
            t.sample(|| format!("{q:?} {x0:e}"));
            Ok(())
        });
        // the default system
        ctx.group("default", 3, |k, t| {
            let q = [Q::Length, Q::Time, Q::Mass][k];
            t.states += 1;
            t.transitions += 2;
            t.traces += 1;
            for u in [Units::default(), Units::new(UnitsMode::default()), Units::new(PhysicsConfig::default().units_mode)] {
                let (a, b) = (convert(&u, q, Sys::Si, 2.5), convert(&u, q, Sys::Cgs, 2.5));
                let w = 2.5 * per_si(q, Sys::Cgs);
                if a != 2.5 || (b - w).abs() > 1e-14 * w {
                    return Err(format!("{q:?} in default (SI) units: 2.5 is {a} in SI and {b} in CGS"));
                }
            }
            Ok(())
        });
    });
}
