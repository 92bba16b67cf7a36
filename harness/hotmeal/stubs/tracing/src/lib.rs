//! Stand-in for `tracing`: nothing is recorded.
#[macro_export] macro_rules! trace { ($($t:tt)*) => { {} }; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { {} }; }
#[macro_export] macro_rules! info { ($($t:tt)*) => { {} }; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { {} }; }
#[macro_export] macro_rules! error { ($($t:tt)*) => { {} }; }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level;
impl Level { pub const TRACE: Level = Level; pub const DEBUG: Level = Level; pub const INFO: Level = Level; pub const WARN: Level = Level; pub const ERROR: Level = Level; }
