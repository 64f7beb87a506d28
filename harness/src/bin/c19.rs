//! Every field of the mesh against the formulas, for all sizes and intervals of finite sets.
use corries::prelude::*;
use ndarray::Array1;
use vh::*;

macro_rules! view {
    ($($f:ident: $t:ty),*; $($a:ident),*) => {
        /// All fields of a mesh, whatever its size (so that only the construction is compiled once for every size)
        struct View { mode: MeshMode, $($f: $t,)* $($a: Array1<f64>,)* }
        fn build<const S: usize>(c: &MeshConfig) -> color_eyre::Result<View> {
            let m = Mesh::<S>::new(c)?;
            Ok(View { mode: m.mode, $($f: m.$f,)* $($a: m.$a,)* })
        }
    };
}
view!(n_comp: usize, n_gc: usize, n_all: usize, imin: usize, imax: usize, ixi_in: usize, ixi_out: usize, is_logarithmic: bool, is_linear: bool, xi_in: f64, xi_out: f64, dxi: f64, deta: f64, dphi: f64;
    xi_cent, xi_west, xi_east, xi_cent_inv, xi_west_inv, xi_east_inv, h_xi_cent, h_xi_west, h_xi_east, h_eta_cent, h_eta_west, h_eta_east, h_phi_cent, h_phi_west, h_phi_east, sqrt_g, line_xi, line_xi_inv, d_area_xi_deta_dphi_west, d_area_xi_deta_dphi_east, area_west, area_east, volume, deta_dphi_d_volume, cell_width, cell_width_inv, cexe, cpxp, cxex, cpep, cxpx, cepe, minus_cexe, minus_cpxp, minus_cxex, minus_cpep, minus_cxpx, minus_cepe);
type Build = fn(&MeshConfig) -> color_eyre::Result<View>;

fn check((s, build): (usize, Build), a: f64, b: f64, t: &mut Tally) -> CaseResult {
    let n = s - 4;
    let dx = (b - a) / n as f64;
    // rounding of the coordinates
    let big = a.abs().max(b.abs()) + 3.0 * dx;
    let tol = 16.0 * f64::EPSILON * big;
    let west = |i: usize| a + dx * (i as f64 - 2.0);
    let valid = a < b && dx.is_finite() && big.is_finite();
    let resolved = dx > 1e-6 * big && dx > 1e-150 && dx < 1e150;
    // half steps: faces and centres
    let zero = (0..=2 * s).any(|k| (west(0) + 0.5 * dx * k as f64).abs() <= tol.max(1e-300));
    t.transitions += 1;
    let m = build(&MeshConfig { mode: MeshMode::Cartesian, xi_in: a, xi_out: b });
    if !valid || !resolved || zero {
        // whether it is rejected is the subject of C16
        t.skipped += 1;
        return Ok(());
    }
    let m = m.map_err(|e| format!("Mesh::<{s}>::new refused [{a:e}, {b:e}]: {e:#}"))?;
    t.states += 1;
    t.traces += 1;
    let bad = |f: &str, i: usize, have: f64, want: f64| -> CaseResult {
        Err(format!("Mesh::<{s}> on [{a:e}, {b:e}]: {f}[{i}] = {have:e}, expected {want:e}"))
    };
    let near = |f: &str, v: &Array1<f64>, want: &dyn Fn(usize) -> f64, tol: &dyn Fn(usize) -> f64| -> CaseResult {
        if v.len() != s {
            return Err(format!("Mesh::<{s}>: {f} has {} entries", v.len()));
        }
        for i in 0..s {
            if !((v[i] - want(i)).abs() <= tol(i)) {
                return bad(f, i, v[i], want(i));
            }
        }
        Ok(())
    };
    let ints = [
        ("n_comp", m.n_comp, n),
        ("n_gc", m.n_gc, 2),
        ("n_all", m.n_all, s),
        ("imin", m.imin, 0),
        ("imax", m.imax, s - 1),
        ("ixi_in", m.ixi_in, 2),
        ("ixi_out", m.ixi_out, s - 3),
    ];
    for (f, h, w) in ints {
        if h != w {
            return Err(format!("Mesh::<{s}>: {f} = {h}, expected {w}"));
        }
    }
    if m.is_logarithmic || !m.is_linear || m.mode != MeshMode::Cartesian {
        return Err(format!("Mesh::<{s}>: a Cartesian mesh is linear, not logarithmic"));
    }
    if m.xi_in != a || m.xi_out != b || m.deta != 1.0 || m.dphi != 1.0 {
        return Err(format!("Mesh::<{s}> on [{a:e}, {b:e}]: xi_in = {:e}, xi_out = {:e}, deta = {}, dphi = {}", m.xi_in, m.xi_out, m.deta, m.dphi));
    }
    let eps = |x: f64| 4.0 * f64::EPSILON * x.abs();
    if (m.dxi - dx).abs() > eps(dx) {
        return bad("dxi", 0, m.dxi, dx);
    }
    let c = |_: usize| tol;
    near("xi_west", &m.xi_west, &west, &c)?;
    near("xi_east", &m.xi_east, &|i| west(i) + dx, &c)?;
    near("xi_cent", &m.xi_cent, &|i| west(i) + 0.5 * dx, &c)?;
    // against each other
    if (m.xi_west[2] - a).abs() > tol {
        return bad("xi_west", 2, m.xi_west[2], a);
    }
    for i in 0..s {
        if i + 1 < s && (m.xi_east[i] - m.xi_west[i + 1]).abs() > tol {
            return bad("xi_east vs. next xi_west", i, m.xi_east[i], m.xi_west[i + 1]);
        }
        if !(m.xi_west[i] < m.xi_cent[i] && m.xi_cent[i] < m.xi_east[i]) {
            return bad("xi_cent (order)", i, m.xi_cent[i], 0.5 * (m.xi_west[i] + m.xi_east[i]));
        }
    }
    for (f, inv, of) in [
        ("xi_cent_inv", &m.xi_cent_inv, &m.xi_cent),
        ("xi_west_inv", &m.xi_west_inv, &m.xi_west),
        ("xi_east_inv", &m.xi_east_inv, &m.xi_east),
        ("line_xi_inv", &m.line_xi_inv, &m.line_xi),
        ("cell_width_inv", &m.cell_width_inv, &m.cell_width),
    ] {
        near(f, inv, &|i| 1.0 / of[i], &|i| eps(1.0 / of[i]))?;
    }
    let one = |_: usize| 1.0;
    let zero = |_: usize| 0.0;
    let ex = |_: usize| 0.0;
    for (f, v) in [
        ("h_xi_cent", &m.h_xi_cent),
        ("h_xi_west", &m.h_xi_west),
        ("h_xi_east", &m.h_xi_east),
        ("h_eta_cent", &m.h_eta_cent),
        ("h_eta_west", &m.h_eta_west),
        ("h_eta_east", &m.h_eta_east),
        ("h_phi_cent", &m.h_phi_cent),
        ("h_phi_west", &m.h_phi_west),
        ("h_phi_east", &m.h_phi_east),
        ("sqrt_g", &m.sqrt_g),
        ("d_area_xi_deta_dphi_west", &m.d_area_xi_deta_dphi_west),
        ("d_area_xi_deta_dphi_east", &m.d_area_xi_deta_dphi_east),
        ("area_west", &m.area_west),
        ("area_east", &m.area_east),
    ] {
        near(f, v, &one, &ex)?;
    }
    near("line_xi", &m.line_xi, &|_| dx, &|_| eps(dx))?;
    near("volume", &m.volume, &|_| dx, &|_| eps(dx))?;
    near("cell_width", &m.cell_width, &|_| dx, &c)?;
    near("deta_dphi_d_volume", &m.deta_dphi_d_volume, &|i| 1.0 / m.volume[i], &|i| eps(1.0 / m.volume[i]))?;
    // commutators from the geometric scales vanish
    near("cexe", &m.cexe, &zero, &ex)?;
    near("cpxp", &m.cpxp, &zero, &ex)?;
    for (f, v, of) in [
        ("minus_cexe", &m.minus_cexe, &m.cexe),
        ("minus_cpxp", &m.minus_cpxp, &m.cpxp),
        ("minus_cxex", &m.minus_cxex, &m.cxex),
        ("minus_cpep", &m.minus_cpep, &m.cpep),
        ("minus_cxpx", &m.minus_cxpx, &m.cxpx),
        ("minus_cepe", &m.minus_cepe, &m.cepe),
    ] {
        near(f, v, &|i| -of[i], &ex)?;
    }
    // every interior point belongs to exactly one interior cell: the faces are strictly increasing and end at the edges
    if (m.xi_east[s - 3] - b).abs() > tol {
        return bad("xi_east", s - 3, m.xi_east[s - 3], b);
    }
    let sum: f64 = (2..s - 2).map(|i| m.volume[i]).sum();
    if (sum - (b - a)).abs() > 8.0 * f64::EPSILON * n as f64 * (b - a) {
        return bad("sum of volume", n, sum, b - a);
    }
    t.sample(|| format!("s = {s}, [{a:e}, {b:e}]: dxi = {:e}", m.dxi));
    Ok(())
}

macro_rules! sizes { ($($s:literal)*) => { [$(($s, build::<$s> as Build)),*] } }

fn main() {
    vh::run("C19", |ctx| {
        let fs = sizes!(5 6 7 8 9 10 11 12 13 14 15 16 17 19 20 23 31 32 33 36 64 65 100 104 128 255 256 300 504 1000 1004 2000 4096);
        let mags = [1e-100, 1e-30, 3e-16, 1e-14, 1e-12, 1e-8, 1e-4, 0.01, 0.1, 0.3, 0.7, 1.0, 1.1, 2.0, 2.5, 3.0, 7.7, 10.0, 100.1, 1e3, 12345.678, 1e6, 1e9, 3e12, 1e20, 1e100];
        let nm = ctx.pick(26, 26);
        let mut v = vec![];
        for m in &mags[..nm] {
            v.extend([*m, -*m]);
        }
        let nv = v.len();
        ctx.note("sizes", fs.len());
        ctx.note("intervals per size", nv * nv);
        ctx.group("sizes x intervals", fs.len() * nv * nv, |k, t| {
            let mut r = Radix(k);
            let (a, b) = (*r.of(&v), *r.of(&v));
            check(*r.of(&fs), a, b, t)
        });
        // intervals that are narrow compared with their distance from the origin, and edges in steps across zero
        let ws = [1e-5, 1e-3, 0.5, 1.0, 3.0, 1e3];
        let n2 = ctx.pick(41, 401);
        ctx.group("shifted intervals", fs.len() * ws.len() * n2, |k, t| {
            let mut r = Radix(k);
            let w = *r.of(&ws);
            let a = w * (r.take(n2) as f64 - n2 as f64 / 2.0 + 0.137) * 0.37;
            check(*r.of(&fs), a, a + w, t)
        });
        // sizes around the limits of small integers
        let large = sizes!(32768 32769 40000 65536 65540 100000 131076);
        let v2 = [(1.0, 2.0), (-3.0, 7.3), (0.013, 0.0137), (-1e6, 2e6), (1.1e-9, 2e-3), (-8.1, -2.3), (0.017, 100.0), (1e3, 2e3)];
        ctx.group("large meshes", large.len() * v2.len(), |k, t| {
            let mut r = Radix(k);
            let (a, b) = *r.of(&v2);
            check(*r.of(&large), a, b, t)
        });
        // the same configuration gives the same mesh inside of a simulation
        ctx.group("in simulations", SIZES.len() * 3 * 2, |k, t| {
            let mut r = Radix(k);
            let s = *r.of(&SIZES);
            let xi = *r.of(&[(1.1, 2.0), (-3.0, 7.3), (1e5, 1e5 + 1.0)]);
            let ph = *r.of(&[Ph::Adi, Ph::Iso]);
            let c = C { ph, s, xi, ..C::default() };
            let sim = made(&c, &Init::uniform(ph, s, (1.0, 0.1, 1.0), 1.0))?;
            t.states += 1;
            t.transitions += 1;
            t.traces += 1;
            let [xc, xw, xe] = sim.xi();
            let dx = c.dx();
            let tol = 16.0 * f64::EPSILON * (xi.0.abs() + xi.1.abs() + dx);
            for i in 0..s {
                let w = xi.0 + dx * (i as f64 - 2.0);
                if (xw[i] - w).abs() > tol || (xe[i] - w - dx).abs() > tol || (xc[i] - w - 0.5 * dx).abs() > tol {
                    return Err(format!("{c:?}: cell {i}: {:e} {:e} {:e}", xw[i], xc[i], xe[i]));
                }
            }
            Ok(())
        });
    });
}
