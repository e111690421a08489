//! A part of the generated program.
#![allow(clippy::all)]
include!(env!("GEN_RS_3"));
