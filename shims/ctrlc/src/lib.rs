//! Not in the offline registry; nothing the staged sources compile uses it.
