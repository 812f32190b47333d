//! Steps that end in (un)physical states, with and without a real flux.

/// every so many cases use the larger mesh
const RARE: usize = 60;
/// the usual mesh, small enough for TLC to look at every cell of many cases
pub mod small {
    const S: usize = 10;
    fn mine(id: usize) -> bool {
        id % super::RARE != 7
    }
    include!("val_body.rs");
}
/// a larger one, so that code that works in blocks of cells shows
#[allow(dead_code)]
pub mod large {
    const S: usize = 140;
    fn mine(id: usize) -> bool {
        id % super::RARE == 7
    }
    include!("val_body.rs");
}
pub use small::classes;
pub fn replay(input: &str, seed: u64) {
    small::replay(input, seed);
    large::replay(input, seed);
}
pub fn vacuum(count: usize, seed: u64) {
    small::vacuum(count, seed);
    large::vacuum(count, seed);
}
