//! No terminal: what the checks' subprocess runs see as well.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Width(pub u16);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Height(pub u16);
pub fn terminal_size() -> Option<(Width, Height)> {
    None
}
