//! The properties: each is a set of suites of generated cases.
use crate::engine::*;

pub struct PropDef {
    pub suites: Vec<Box<dyn AnySuite>>,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c08;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;

pub fn get(p: &str) -> Option<PropDef> {
    Some(match p {
        "C01" => c01::def(),
        "C02" => c02::def(),
        "C03" => c03::def(),
        "C04" => c04::def(),
        "C05" => c05::def(),
        "C06" => c06::def06(),
        "C07" => c06::def07(),
        "C08" => c08::def08(),
        "C09" => c08::def09(),
        "C10" => c10::def(),
        "C11" => c11::def(),
        "C12" => c12::def(),
        "C13" => c13::def(),
        "C14" => c14::def(),
        "C15" => c15::def(),
        "C16" => c16::def(),
        "C17" => c17::def(),
        "C18" => c18::def(),
        "C19" => c19::def(),
        "C20" => c20::def(),
        "C21" => c21::def(),
        "C22" => c22::def(),
        "C23" => c23::def(),
        "C24" => c24::def(),
        "C25" => c25::def(),
        _ => return None,
    })
}

pub fn helper(a: &[String]) {
    if a[0] == "helper-trace" {
        crate::trace::helper(a);
    }
    std::process::exit(2)
}
