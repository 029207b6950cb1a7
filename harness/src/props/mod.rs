pub mod basic;
pub mod decomp;
pub mod eigsvd;
pub mod io;
pub mod memory;
pub mod model;

use crate::fw::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(model::props());
    v.extend(basic::props());
    v.extend(decomp::props());
    v.extend(eigsvd::props());
    v.extend(io::props());
    v.extend(memory::props());
    v.sort_by_key(|p| p.id);
    v
}
