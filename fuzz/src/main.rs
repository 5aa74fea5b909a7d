//! Coverage-guided search: the bytes libFuzzer makes are the choices of a case.
#![no_main]

libfuzzer_sys::fuzz_target!(|data: &[u8]| vt::run::fuzz_one(data));
