#![feature(portable_simd, get_mut_unchecked)]
#![allow(unused_imports, unused_mut, dead_code)]
mod c01;
mod c02;
mod c20;
mod c21;
mod c03;
mod c04;
mod c05;
mod c07;
mod c06;
mod c29;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c16;
mod c17;
mod alloc;
mod c18;
mod c26;
mod c19;
mod c22;
mod c23;
mod c24;
mod c27;
mod c28;
mod c31;
mod c32;
mod c30;
mod c15;
mod c34;
mod c35;
mod c33;
mod c36;
mod c37;
mod c38;
mod c39;
mod eng;
mod exp;
mod fsx;
mod layout;
mod mc;
mod nrig;

use mc::{Mc, Tier};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    if prop == "exp" {
        exp::run(&args[2..]);
        return;
    }
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = std::env::var("HX_VERIF").unwrap_or_else(|_| "/verif".into());
    let mut mc = Mc::new(&prop, tier, seed, &verif);
    mc::mute_stdout();
    let mut i = 3;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--space" => mc.only_space = Some(args[i + 1].clone()),
            "--case" => mc.only_case = args[i + 1].parse().ok(),
            _ => {}
        }
        i += 2;
    }
    match prop.as_str() {
        "C01" => c01::run(&mut mc),
        "C39" => c39::run(&mut mc),
        "C38" => c38::run(&mut mc),
        "C37" => c37::run(&mut mc),
        "C36" => c36::run(&mut mc),
        "C33" => c33::run(&mut mc),
        "C35" => c35::run(&mut mc),
        "C34" => c34::run(&mut mc),
        "C15" => c15::run(&mut mc),
        "C30" => c30::run(&mut mc),
        "C32" => c32::run(&mut mc),
        "C31" => c31::run(&mut mc),
        "C28" => c28::run(&mut mc),
        "C27" => c27::run(&mut mc),
        "C24" => c24::run(&mut mc),
        "C23" => c23::run(&mut mc),
        "C22" => c22::run(&mut mc),
        "C19" => c19::run(&mut mc),
        "C26" => c26::run(&mut mc),
        "C18" => c18::run(&mut mc),
        "C17" => c17::run(&mut mc),
        "C16" => c16::run(&mut mc),
        "C14" => c14::run(&mut mc),
        "C13" => c13::run(&mut mc),
        "C12" => c12::run(&mut mc),
        "C11" => c11::run(&mut mc),
        "C10" => c10::run(&mut mc),
        "C09" => c09::run(&mut mc),
        "C08" => c08::run(&mut mc),
        "C29" => c29::run(&mut mc),
        "C06" => c06::run(&mut mc),
        "C07" => c07::run(&mut mc),
        "C05" => c05::run(&mut mc),
        "C04" => c04::run(&mut mc),
        "C03" => c03::run(&mut mc),
        "C21" => c21::run(&mut mc),
        "C20" => c20::run(&mut mc),
        "C02" => c02::run(&mut mc),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
    #[allow(unreachable_code)]
    {
        std::process::exit(mc.finish());
    }
}

/// A fresh engine.
pub fn engcache() -> (hexodsp::NodeConfigurator, hexodsp::NodeExecutor) {
    hexodsp::new_node_engine()
}
