//! Empty stand-in.
