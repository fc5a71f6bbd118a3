//! Not in the offline registry; nothing the staged sources compile uses it.
pub mod reject { pub trait Reject: std::fmt::Debug + Sized + Send + Sync + 'static {} }
