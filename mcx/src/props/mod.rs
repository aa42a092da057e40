use crate::engine::Property;

pub mod svc;
mod t01;
mod x01;
mod x02;
mod x03;
mod x04;
mod x05;
mod x06;

pub fn all() -> Vec<Property> {
    vec![x01::property(), x02::property(), x03::property(), x04::property(), x05::property(), x06::property(), t01::property()]
}
