//! The Python extension module of the library, built from /repo's working tree.
extern crate polymers as library;
extern "C" { fn PyInit_polymers() -> *mut std::ffi::c_void; }
#[used]
static KEEP: unsafe extern "C" fn() -> *mut std::ffi::c_void = PyInit_polymers;
