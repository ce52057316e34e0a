//! C13.
#[path = "../../core/src/ext.rs"]
pub mod ext;
#[path = "../../core/src/int.rs"]
pub mod int;
#[path = "../../core/src/rec.rs"]
pub mod rec;
pub mod shape;
pub fn call(name: &str, a: &[u64]) -> bool {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    match name {
        "h_shape" => shape::h_shape(g(0), g(1)),
        "h_shape_small" => shape::h_shape_small(g(0), g(1), g(2)),
        _ => return false,
    }
    true
}
