//! Only pulls in the dependency of the generated code; see main.rs, which is compiled per schema.
pub use bytes;
