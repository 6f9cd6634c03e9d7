//! One case function per property.

use crate::engine::Prop;

#[macro_use]
pub mod common;
pub mod accessors;
pub mod compare;
pub mod corpus;
pub mod corrupt;
pub mod cost;
pub mod dataapi;
pub mod display;
pub mod fields;
pub mod files;
pub mod iofault;
pub mod isolation;
pub mod tables;

pub const ALL: &[Prop] = &[
    files::C01,
    files::C02,
    files::C03,
    files::C04,
    corrupt::C05,
    corrupt::C06,
    iofault::C07,
    iofault::C08,
    files::C09,
    files::C10,
    files::C11,
    dataapi::C12,
    accessors::C13,
    accessors::C14,
    accessors::C15,
    display::C16,
    dataapi::C17,
    corrupt::C18,
    isolation::C19,
    isolation::C20,
    tables::C21,
    dataapi::C22,
    cost::C23,
    compare::C24,
    compare::C25,
];
