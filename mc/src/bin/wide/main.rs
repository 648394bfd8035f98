#[macro_use]
#[path = "../types/cat.rs"]
mod cat;
#[path = "../types/c01.rs"]
mod c01;
#[path = "../types/cross.rs"]
mod cross;
#[path = "../types/cut.rs"]
mod cut;
#[path = "../types/dec.rs"]
mod dec;
#[path = "../types/docs.rs"]
mod docs;
#[path = "../types/errs.rs"]
mod errs;
#[path = "../types/lim.rs"]
mod lim;
#[path = "../types/retro.rs"]
mod retro;
#[path = "../types/run.rs"]
mod run;
#[path = "../types/ty.rs"]
mod ty;
#[path = "../types/unknown.rs"]
mod unknown;
#[path = "../types/views.rs"]
mod views;
mod wide;

pub fn build() -> Vec<cat::TyD> { wide::build() }

fn main() {
    mc::eng::main(&|id| Some(match id {
        "C01" => c01::c01(),
        "C02" => c01::c02(),
        "C05" => cut::c05(true),
        "C07" => lim::c07(true),
        "C09" => unknown::c09(true),
        "C20" => errs::c20(true),
        "C22" => cross::c22(),
        "C08" => dec::c08(true),
        _ => return None,
    }))
}

pub fn extra08(_: &mut Vec<Box<dyn mc::eng::Suite>>) {}
pub fn extra(_: &str, _: &mut Vec<Box<dyn mc::eng::Suite>>) {}
