//! Stand-in for `tentacle-secio`: the keys of the tentacle stand-in.
pub use tentacle::secio::*;
