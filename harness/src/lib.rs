//! Harnesses, compiled to LLVM IR for the symbolic runner.
mod all;
mod kit;
mod spec;
mod vp;
