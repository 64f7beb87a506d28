//! A numerical flux supplied by the check: it sees every state the time integrator evaluates and answers with whatever
//! derivative the check wants.
use color_eyre::Result;
use corries::prelude::*;
use ndarray::Array2;
use std::cell::RefCell;

/// conservative variables seen, derivative to return
pub type Hook = Box<dyn FnMut(&Array2<f64>, &mut Array2<f64>) -> Result<()>>;
thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}
pub fn set_hook(h: impl FnMut(&Array2<f64>, &mut Array2<f64>) -> Result<()> + 'static) {
    HOOK.with(|x| *x.borrow_mut() = Some(Box::new(h)));
}
pub fn clear_hook() {
    HOOK.with(|x| *x.borrow_mut() = None);
}
pub struct Probe<const E: usize, const S: usize>;
impl<const E: usize, const S: usize> NumFlux<E, S> for Probe<E, S> {
    fn new(_: &NumFluxConfig, _: &Mesh<S>) -> Result<Self> {
        Ok(Probe)
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        d: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        _: &Mesh<S>,
    ) -> Result<()> {
        d.fill(0.0);
        HOOK.with(|x| match &mut *x.borrow_mut() {
            Some(h) => h(&u.cent.cons, d),
            None => Ok(()),
        })
    }
}

/// What the time integrator asked for: centre, west, east after the wrapped flux has run
pub struct Seen<'a> {
    pub prim: &'a Array2<f64>,
    pub cons: &'a Array2<f64>,
    pub west: &'a Array2<f64>,
    pub east: &'a Array2<f64>,
    /// did the wrapped flux succeed?
    pub ok: bool,
}
type After = Box<dyn FnMut(Seen<'_>, &mut Array2<f64>)>;
thread_local! {
    static AFTER: RefCell<Option<After>> = const { RefCell::new(None) };
}
pub fn set_after(h: impl FnMut(Seen<'_>, &mut Array2<f64>) + 'static) {
    AFTER.with(|x| *x.borrow_mut() = Some(Box::new(h)));
}
pub fn clear_after() {
    AFTER.with(|x| *x.borrow_mut() = None);
}
/// A real flux scheme whose result can be observed and changed
pub struct Wrap<N>(N);
impl<N: NumFlux<E, S>, const E: usize, const S: usize> NumFlux<E, S> for Wrap<N> {
    fn new(c: &NumFluxConfig, m: &Mesh<S>) -> Result<Self> {
        Ok(Wrap(N::new(c, m)?))
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        d: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let r = self.0.calc_dflux_dxi(d, u, mesh);
        AFTER.with(|x| {
            if let Some(h) = &mut *x.borrow_mut() {
                h(
                    Seen { prim: &u.cent.prim, cons: &u.cent.cons, west: &u.west.prim, east: &u.east.prim, ok: r.is_ok() },
                    d,
                )
            }
        });
        r
    }
}
