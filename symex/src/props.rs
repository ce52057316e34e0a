pub mod c03;
pub mod c05;
pub mod c11;
pub mod c01;
pub mod c08;
pub mod c02;
pub mod c14;
pub mod c16;
pub mod g16;
