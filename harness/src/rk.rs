//! Stage combinations of the time schemes and decisions of the step control, as displacements and increments.

/// every so many cases use the larger mesh
const RARE: usize = 100;
/// the usual mesh, small enough for TLC to look at every cell of many cases
pub mod small {
    const S: usize = 8;
    fn mine(id: usize) -> bool {
        id % super::RARE != 7
    }
    include!("rk_body.rs");
}
/// a larger one, so that code that works in blocks of cells shows
#[allow(dead_code)]
pub mod large {
    const S: usize = 140;
    fn mine(id: usize) -> bool {
        id % super::RARE == 7
    }
    include!("rk_body.rs");
}
pub use small::tableau;
pub fn stages_run(count: usize, seed: u64) {
    small::stages_run(count, seed);
    large::stages_run(count, seed);
}
pub fn control(input: &str, seed: u64) {
    small::control(input, seed);
    large::control(input, seed);
}
pub fn real(count: usize, seed: u64) {
    small::real(count, seed);
    large::real(count, seed);
}
