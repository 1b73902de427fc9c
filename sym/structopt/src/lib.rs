//! `structopt`, except that refusing the command line unwinds to the harness instead of ending it.
pub use clap;
pub use lazy_static;
use std::ffi::OsString;
pub use structopt_derive::*;

fn give_up(e: clap::Error) -> ! {
    let code = if e.use_stderr() { 1 } else { 0 };
    if code == 0 {
        symcore::out_write(&e.message);
    }
    std::panic::panic_any(symcore::ExitRequest(code))
}

pub trait StructOpt {
    fn clap<'a, 'b>() -> clap::App<'a, 'b>;
    fn from_clap(matches: &clap::ArgMatches<'_>) -> Self;
    fn from_args() -> Self
    where
        Self: Sized,
    {
        Self::from_iter(std::env::args_os())
    }
    fn from_args_safe() -> Result<Self, clap::Error>
    where
        Self: Sized,
    {
        Self::from_iter_safe(std::env::args_os())
    }
    fn from_iter<I>(iter: I) -> Self
    where
        Self: Sized,
        I: IntoIterator,
        I::Item: Into<OsString> + Clone,
    {
        match Self::from_iter_safe(iter) {
            Ok(x) => x,
            Err(e) => give_up(e),
        }
    }
    fn from_iter_safe<I>(iter: I) -> Result<Self, clap::Error>
    where
        Self: Sized,
        I: IntoIterator,
        I::Item: Into<OsString> + Clone,
    {
        Ok(Self::from_clap(&Self::clap().get_matches_from_safe(iter)?))
    }
}

pub trait StructOptInternal: StructOpt {
    fn augment_clap<'a, 'b>(app: clap::App<'a, 'b>) -> clap::App<'a, 'b> {
        app
    }
    fn is_subcommand() -> bool {
        false
    }
    fn from_subcommand<'a, 'b>(_sub: (&'b str, Option<&'b clap::ArgMatches<'a>>)) -> Option<Self>
    where
        Self: std::marker::Sized,
    {
        None
    }
}

impl<T: StructOpt> StructOpt for Box<T> {
    fn clap<'a, 'b>() -> clap::App<'a, 'b> {
        <T as StructOpt>::clap()
    }
    fn from_clap(matches: &clap::ArgMatches<'_>) -> Self {
        Box::new(<T as StructOpt>::from_clap(matches))
    }
}
impl<T: StructOptInternal> StructOptInternal for Box<T> {
    fn is_subcommand() -> bool {
        <T as StructOptInternal>::is_subcommand()
    }
    fn from_subcommand<'a, 'b>(sub: (&'b str, Option<&'b clap::ArgMatches<'a>>)) -> Option<Self> {
        <T as StructOptInternal>::from_subcommand(sub).map(Box::new)
    }
    fn augment_clap<'a, 'b>(app: clap::App<'a, 'b>) -> clap::App<'a, 'b> {
        <T as StructOptInternal>::augment_clap(app)
    }
}
