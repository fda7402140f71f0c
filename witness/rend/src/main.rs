//! Exhaustive and random checks on the real renderer crate.
mod c03;
mod c04;
use wlib::Ctx;

fn main() {
    wlib::with_stack(|| {
        let mut ctx = Ctx::from_args();
        match ctx.prop.as_str() {
            "C03" => c03::run(&mut ctx),
            "C04" => c04::run(&mut ctx),
            p => { eprintln!("no such property {p}"); std::process::exit(3) }
        }
        ctx.finish()
    });
}
