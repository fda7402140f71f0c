//! Bounded search for failing inputs on the command-line tool: its real replace.rs and
//! html_entities.rs, compiled into this program, and the real binary.
#[path = "/repo/crates/math-core-cli/src/html_entities.rs"]
mod html_entities;
#[path = "/repo/crates/math-core-cli/src/replace.rs"]
mod replace;
mod run;
use wlib::Ctx;
fn main() {
    wlib::with_stack(|| {
        let mut ctx = Ctx::from_args();
        match ctx.prop.as_str() {
            "C07" | "C09" => run::c07(&mut ctx),
            "C08" => run::c08(&mut ctx),
            p => { eprintln!("no such property {p}"); std::process::exit(3) }
        }
        ctx.finish()
    });
}
