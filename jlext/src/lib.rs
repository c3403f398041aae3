//! The shared library that the Julia package calls, built from /repo's working tree.
extern crate polymers;
