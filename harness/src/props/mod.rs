pub mod core;
pub mod custom;
pub mod faults;
pub mod fill;
pub mod history;
pub mod hostile;
pub mod interp;
pub mod limits;
pub mod parquet;
pub mod prims;
pub mod programs;
pub mod reference;
pub mod tool;
pub mod util;
pub mod viol;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = checked();
    v.extend(interp::props());
    v.sort_by_key(|p| p.id);
    v
}

/// those that are not made of others
pub fn checked() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(core::props());
    v.extend(hostile::props());
    v.extend(viol::props());
    v.extend(limits::props());
    v.extend(faults::props());
    v.extend(parquet::props());
    v.extend(fill::props());
    v.extend(history::props());
    v.extend(prims::props());
    v.extend(reference::props());
    v.extend(tool::props());
    v.extend(custom::props());
    v
}

/// One-time work of the parent before the workers start.
pub fn prepare(id: &str) {
    if id == "C18" {
        tool::cleanup();
    }
}

/// Helper processes.
pub fn child(name: &str, args: &[String]) -> i32 {
    match name {
        "recursion" => hostile::recursion_child(args),
        _ => 2,
    }
}
