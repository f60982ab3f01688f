//! Unused stand-in.
