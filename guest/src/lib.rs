//! Harnesses executed symbolically by vsym, together with the model of the operating system.
#![allow(dead_code, static_mut_refs, unused_imports)]
pub mod blockon;
pub mod h;
pub mod io;
pub mod kernel;
pub mod leak;
pub mod mt;
pub mod ops;
pub mod race;
pub mod reg;
pub mod sock;
pub mod timers;
pub mod v;
pub mod wakers;
