use crate::Sut;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod util;
pub mod wide;

pub fn make(job: &str, seed: u64, thorough: bool) -> Box<dyn Sut> {
    match job {
        "c01" => Box::new(c01::C01::new(seed, thorough)),
        "c02" => Box::new(c02::C02::new(seed, thorough)),
        "c03" => Box::new(c03::C03::new(seed, thorough)),
        "c04" => Box::new(c04::C04::new(seed, thorough)),
        "c05" => Box::new(c05::C05::new(seed, thorough)),
        "c06" => Box::new(c06::C06::new(seed, thorough)),
        "c07" => Box::new(c07::C07::new(seed, thorough)),
        "c08" => Box::new(c08::C08::new(seed, thorough)),
        "c09" => Box::new(c09::C09::new(seed, thorough)),
        "c10" => Box::new(c10::C10::new(seed, thorough)),
        "c11" => Box::new(c11::C11::new(seed, thorough)),
        "c12" => Box::new(c12::C12::new(seed, thorough)),
        "c13" => Box::new(c13::C13::new(seed, thorough)),
        "c14" => Box::new(c14::C14::new(seed, thorough)),
        "c15" => Box::new(c15::C15::new(seed, thorough, false)),
        "c16" => Box::new(c15::C15::new(seed, thorough, true)),
        "c17" => Box::new(c17::C17::new(seed, thorough)),
        "c18" => Box::new(c18::C18::new(seed, thorough)),
        "c19" => Box::new(c19::C19::new(seed, thorough)),
        "c20" => Box::new(c20::C20::new(seed, thorough)),
        "c21" => Box::new(c21::C21::new(seed, thorough)),
        "c22" => Box::new(c22::C22::new(seed, thorough)),
        "c23" => Box::new(c23::C23::new(seed, thorough)),
        "c24" => Box::new(c24::C24::new(seed, thorough)),
        "c25" => Box::new(c25::C25::new(seed, thorough)),
        "c26" => Box::new(c26::C26::new(seed, thorough)),
        "c27" => Box::new(c27::C27::new(seed, thorough)),
        "c28" => Box::new(c28::C28::new(seed, thorough)),
        "c29" => Box::new(c29::C29::new(seed, thorough)),
        x if x.starts_with("w_") => Box::new(wide::Wide::new(x, seed, thorough)),
        "c30" => Box::new(c30::C30::new(seed, thorough)),
        x => { eprintln!("unknown job {}", x); std::process::exit(2) }
    }
}
