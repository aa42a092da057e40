use crate::engine::Property;

mod e01;
mod fixed;
mod c02;
mod c06;
mod g01;
mod g02;
mod g03;
mod g04;
mod h01;
mod l01;
mod l02;
mod l03;
mod l04;
mod l05;
mod l06;
mod l07;
mod l08;
mod l09;
mod l10;
mod l11;
mod l12;
mod r01;
mod readline;
mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod s08;
mod s09;
mod s10;
mod s11;
mod l13;
mod l14;
mod d01;

pub fn all() -> Vec<Property> {
    vec![l01::property(), l02::property(), l03::property(), l04::property(), l05::property(), l06::property(), l07::property(), l08::property(), l09::property(), l10::property(), l11::property(), l12::property(), readline::property(), s01::property(), s02::property(), s03::property(), s04::property(), s05::property(), s06::property(), g01::property(), s08::property(), g02::property(), g03::property(), g04::property(), c06::property(), s09::property(), s10::property(),
        s11::property(), l13::property(), l14::property(), d01::property(), c02::property(), h01::property(), e01::property(), r01::property()]
}
