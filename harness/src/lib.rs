pub mod fuzz;
pub mod gen;
pub mod model;
pub mod oracles;
pub mod shrink;
pub mod src;
pub mod sut;
