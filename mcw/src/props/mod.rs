use crate::engine::Property;

mod k01;
mod w01;
mod w02;
mod w03;
mod y01;

pub fn all() -> Vec<Property> {
    vec![k01::property(), w01::property(), w02::property(), w03::property(), y01::property()]
}
