use crate::engine::Check;
pub mod common;
pub mod forms;
pub mod scale;
mod archive;
mod spell;
mod strict;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
pub fn get(id: &str, tier: &str) -> Option<Check> {
    let deep = tier == "thorough";
    Some(match id {
        "C01" => c01::check(deep),
        "C02" => c02::check(deep),
        "C03" => c03::check(deep),
        "C04" => c04::check(deep),
        "C05" => c05::check(deep),
        "C06" => c06::check(deep),
        "C07" => c07::check(deep),
        "C08" => c08::check(deep),
        "C09" => c09::check(deep),
        "C10" => c10::check(deep),
        "C11" => c11::check(deep),
        "C12" => c12::check(deep),
        "C13" => c13::check(deep),
        "C14" => c14::check(deep),
        "C15" => c15::check(deep),
        "C16" => c16::check(deep),
        "C17" => c17::check(deep),
        "C18" => c18::check(deep),
        "C19" => c19::check(deep),
        _ => return None,
    })
}
