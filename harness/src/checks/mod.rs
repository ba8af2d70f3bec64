use crate::runner::Check;
pub mod common;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;

pub mod c11;

pub mod c12;

pub mod c13;

pub mod c14;

pub mod c15;

pub mod c16;

pub mod c17;

pub mod c18;

pub mod c19;

pub mod c20;

pub mod c21;

pub mod c22;

pub mod c23;

pub mod c24;

pub mod c25;

pub mod c26;
pub mod c27;

pub fn all() -> Vec<&'static Check> {
    vec![&c01::C01, &c02::C02, &c03::C03, &c04::C04, &c05::C05, &c06::C06, &c07::C07, &c08::C08, &c09::C09, &c10::C10, &c11::C11, &c12::C12, &c13::C13, &c14::C14, &c15::C15, &c16::C16, &c17::C17, &c18::C18, &c19::C19, &c20::C20, &c21::C21, &c22::C22, &c23::C23, &c24::C24, &c25::C25, &c26::C26, &c27::C27]
}
