//! Bounded search for failing inputs on the real math-core crate, one module per property.
mod generate;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod tables;
mod c09;
mod c10;
mod c11;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c19;
use wlib::Ctx;

fn main() {
    wlib::with_stack(|| {
        let mut ctx = Ctx::from_args();
        match ctx.prop.as_str() {
            "C01" => c01::run(&mut ctx),
            "C02" => c02::run(&mut ctx),
            "C03" => c03::run(&mut ctx),
            "C04" => c04::run(&mut ctx),
            "dump" => { c03::dump(); std::process::exit(0) }
            "C05" => c05::run(&mut ctx),
            "C06" => tables::run_c06(&mut ctx),
            "C18" => tables::run_c18(&mut ctx),
            "C09" => c09::run(&mut ctx),
            "C10" => c10::run(&mut ctx),
            "C11" => c11::run(&mut ctx),
            "C12" => c11::run_c12(&mut ctx),
            "C13" => c13::run(&mut ctx),
            "C14" => c14::run(&mut ctx),
            "C15" => c15::run(&mut ctx),
            "C16" => c16::run(&mut ctx),
            "C17" => c17::run(&mut ctx),
            "C19" => c19::run(&mut ctx),
            p => { eprintln!("no such property {p}"); std::process::exit(3) }
        }
        ctx.finish()
    });
}
