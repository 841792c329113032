pub use real::{f64, u64};
pub struct Rng(std::cell::RefCell<real::Rng>);
impl Rng {
    pub fn new() -> Self {
        Rng(std::cell::RefCell::new(real::Rng::new()))
    }
    pub fn f64(&self) -> f64 {
        self.0.borrow_mut().f64()
    }
}
