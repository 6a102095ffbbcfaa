use crate::sim::Sim;

mod p01;
mod p02;
mod p03;
mod p09;
mod p10;
mod p11;
pub mod p12;
mod p13;
mod p14;
mod p16;
mod p17;
mod shared_struct;

static NODES: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn set_nodes(d: String) {
    let _ = NODES.set(d);
}
pub fn nodes() -> Vec<String> {
    NODES.get().map(|s| s.split(',').map(str::to_string).collect()).unwrap_or_default()
}

pub fn run(prop: &str, s: &mut Sim) {
    match prop {
        "P04" | "P05" | "P06" | "P07" | "P08" => shared_struct::run(prop, s),
        "P01" => p01::run(s),
        "P09" => p09::run(s),
        "P10" => p10::run(s),
        "P11" => p11::run(s),
        "P12" => p12::run(s),
        "P13" => p13::run(s),
        "P14" => p14::run(s),
        "P16" => p16::run(s),
        "P17" => p17::run(s),
        "P02" => p02::run(s),
        "P03" => p03::run(s),
        _ => panic!("unknown property {prop}"),
    }
}
