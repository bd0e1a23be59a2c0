//! The typed writers of the crate: what each method must add.
pub mod annotations;
pub mod color;
pub mod forms;
pub mod graphics;
pub mod kit;
pub mod structure;
pub mod starts;
