//! The library's generic code, instantiated for the two numbers of bands it is used with, in a crate of its own so
//! that the fine-grained build can instrument it (see ../fine-rustc.sh) without instrumenting the simulator.

use std::error::Error;
use visqol_rs::constants::{NUM_BANDS_AUDIO, NUM_BANDS_SPEECH};
pub use visqol_rs::similarity_result::SimilarityResult;
use visqol_rs::variant::Variant;
use visqol_rs::visqol_manager::VisqolManager;

pub type Raw = Result<SimilarityResult, Box<dyn Error>>;

pub enum Mgr {
    S(VisqolManager<NUM_BANDS_SPEECH>),
    A(VisqolManager<NUM_BANDS_AUDIO>),
}
#[inline(never)]
pub fn fullband(model_path: String, window: usize) -> Mgr { Mgr::A(VisqolManager::new(Variant::Fullband { model_path }, window)) }
#[inline(never)]
pub fn wideband(use_unscaled_mos_mapping: bool, window: usize) -> Mgr { Mgr::S(VisqolManager::new(Variant::Wideband { use_unscaled_mos_mapping }, window)) }
#[inline(never)]
pub fn run(m: &mut Mgr, r: &str, d: &str) -> Raw {
    match m {
        Mgr::S(m) => m.run(r, d),
        Mgr::A(m) => m.run(r, d),
    }
}

/// A signal of the library: the type lives in a private module and is reachable only by inference.
pub trait AnySig {
    /// Sample rate and samples, in order.
    fn see(&self, f: &mut dyn FnMut(u64));
    fn poke(&mut self, at: usize, v: f64);
    fn compute(&mut self, d: &mut dyn AnySig, m: &mut Mgr) -> Raw;
    fn raw(&mut self) -> *mut u8;
}
pub type Sig = Box<dyn AnySig>;
struct Wrap<T>(T, fn(&T, &mut dyn FnMut(u64)), fn(&mut T, usize, f64), fn(&mut T, &mut T, &mut Mgr) -> Raw);
impl<T> AnySig for Wrap<T> {
    fn see(&self, f: &mut dyn FnMut(u64)) { (self.1)(&self.0, f) }
    fn poke(&mut self, at: usize, v: f64) { (self.2)(&mut self.0, at, v) }
    fn raw(&mut self) -> *mut u8 { &mut self.0 as *mut T as *mut u8 }
    fn compute(&mut self, d: &mut dyn AnySig, m: &mut Mgr) -> Raw {
        // every signal comes from load(), so all are the same T
        let dr = d.raw() as *mut T;
        (self.3)(&mut self.0, unsafe { &mut *dr }, m)
    }
}
#[inline(never)]
pub fn load(file: &str) -> Result<Sig, String> {
    let s = visqol_rs::audio_utils::load_as_mono(file).map_err(|e| e.to_string())?;
    Ok(Box::new(Wrap(
        s,
        |s, f| {
            f(s.sample_rate as u64);
            s.data_matrix.iter().for_each(|x| f(x.to_bits()))
        },
        |s, at, v| {
            let n = s.data_matrix.len();
            if n > 0 {
                s.data_matrix[at % n] = v;
            }
        },
        |r, d, m| match m {
            Mgr::S(m) => m.compute_results(r, d),
            Mgr::A(m) => m.compute_results(r, d),
        },
    )))
}
