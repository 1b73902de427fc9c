//! `two_timer` with the stand-in date types; the parser is the real one.
pub use two_timer_real::{Config, TimeError};
pub fn parse(
    phrase: &str,
    options: Option<Config>,
) -> Result<(chrono::NaiveDateTime, chrono::NaiveDateTime, bool), TimeError> {
    two_timer_real::parse(phrase, options)
        .map(|(a, b, c)| (chrono::NaiveDateTime::from_real(a), chrono::NaiveDateTime::from_real(b), c))
}
pub fn parsable(phrase: &str) -> bool {
    two_timer_real::parsable(phrase)
}
