pub mod engine;
pub mod poly;
pub mod solver;
pub mod val;
pub use engine::{Engine, HashOrder, Sort, Stats, Stop, Violation};
pub use val::Val;

use std::cell::RefCell;
thread_local! {
    /// standard output of the program under test
    static OUT: RefCell<String> = RefCell::new(String::new());
}
pub fn out_write(s: &str) {
    OUT.with(|o| o.borrow_mut().push_str(s));
}
pub fn out_take() -> String {
    OUT.with(|o| std::mem::take(&mut *o.borrow_mut()))
}

/// The program under test called `process::exit`.
pub struct ExitRequest(pub i32);
