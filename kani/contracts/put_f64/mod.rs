// facet-reflect reduced to what try_put_f64 calls: error.rs is the real file, `Wip` is replaced by its contract.
mod error;
pub use error::*;
mod wip;
pub use wip::*;
