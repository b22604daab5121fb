#![allow(dead_code, unused_variables, unused_mut, non_snake_case)]
pub mod opaque;
pub mod opaque_ser;
pub mod prelude;
pub mod roots;
pub mod ser;
