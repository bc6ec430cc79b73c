//! Shared by the harnesses.
