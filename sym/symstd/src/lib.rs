//! Stand-in for the standard library of the program under test.
//!
//! Everything is the real `std`, except that
//!  * `HashMap`/`HashSet` iterate in an order that the executor chooses (a symbolic choice,
//!    because the real order depends on a random seed), and compare keys with `Eq` only;
//!  * standard output is captured, standard error is dropped;
//!  * `process::exit` unwinds to the harness.
pub use ::std::*;

pub mod collections {
    pub use ::std::collections::*;
    pub mod hash_map {
        pub use crate::map::hash_map::*;
        pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
    }
    pub mod hash_set {
        pub use crate::map::hash_set::*;
    }
    pub use hash_map::HashMap;
    pub use hash_set::HashSet;
}
pub mod map;

pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        ::std::panic::panic_any(symcore::ExitRequest(code))
    }
}

pub mod io {
    pub use ::std::io::*;
    #[derive(Debug, Clone, Copy)]
    pub struct Stdout;
    #[derive(Debug)]
    pub struct StdoutLock<'a>(::std::marker::PhantomData<&'a ()>);
    pub fn stdout() -> Stdout {
        Stdout
    }
    impl Stdout {
        pub fn lock(&self) -> StdoutLock<'static> {
            StdoutLock(::std::marker::PhantomData)
        }
    }
    fn put(buf: &[u8]) -> Result<usize> {
        symcore::out_write(&String::from_utf8_lossy(buf));
        Ok(buf.len())
    }
    impl Write for Stdout {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            put(buf)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl<'a> Write for StdoutLock<'a> {
        fn write(&mut self, buf: &[u8]) -> Result<usize> {
            put(buf)
        }
        fn flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
}

#[doc(hidden)]
pub fn __out(a: ::std::fmt::Arguments) {
    // format first: the program's Display code may re-enter the executor
    let s = ::std::fmt::format(a);
    symcore::out_write(&s);
}

#[macro_export]
macro_rules! print {
    ($($arg:tt)*) => { $crate::__out(::core::format_args!($($arg)*)) };
}
#[macro_export]
macro_rules! println {
    () => { $crate::__out(::core::format_args!("\n")) };
    ($($arg:tt)*) => {{
        $crate::__out(::core::format_args!($($arg)*));
        $crate::__out(::core::format_args!("\n"));
    }};
}
#[macro_export]
macro_rules! eprint {
    ($($arg:tt)*) => {{ if false { let _ = ::core::format_args!($($arg)*); } }};
}
#[macro_export]
macro_rules! eprintln {
    ($($arg:tt)*) => {{ if false { let _ = ::core::format_args!($($arg)*); } }};
}
