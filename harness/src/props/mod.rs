use crate::fw::Prop;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c10;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c22;
pub mod c23;
pub mod c31;
static ALL: &[&Prop] = &[&c01::P, &c02::P, &c03::P, &c04::P, &c05::P, &c06::P, &c07::P, &c08::P, &c10::P, &c12::P, &c13::P, &c14::P, &c18::P, &c19::P, &c20::P, &c22::P, &c23::P, &c31::P];
pub fn all() -> &'static [&'static Prop] {
    ALL
}
