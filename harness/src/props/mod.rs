use crate::engine::Check;
pub mod common;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
pub mod c25;
pub mod c26;
pub mod docs;
pub mod args;

pub fn get(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => c01::check(),
        "C02" => c02::check(),
        "C03" => c03::check(),
        "C04" => c04::check(),
        "C05" => c05::check(),
        "C06" => c06::check(),
        "C07" => c07::check(),
        "C08" => c08::check(),
        "C09" => c09::check(),
        "C10" => c10::check(),
        "C11" => c11::check(),
        "C12" => c12::check(),
        "C13" => c13::check(),
        "C14" => c14::check(),
        "C15" => c15::check(),
        "C16" => c16::check(),
        "C17" => c17::check(),
        "C18" => c18::check(),
        "C19" => c19::check(),
        "C20" => c20::check(),
        "C21" => c21::check(),
        "C22" => c22::check(),
        "C23" => c23::check(),
        "C24" => c24::check(),
        "C25" => c25::check(),
        "C26" => c26::check(),
        _ => return None,
    })
}
