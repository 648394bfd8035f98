//! Schema evolution: pairs of schemas related by a documented rule.
#[macro_use]
#[path = "../types/cat.rs"]
mod cat;
mod evo;
#[path = "../types/retro.rs"]
mod retro;
#[path = "../types/run.rs"]
mod run;
#[path = "../types/views.rs"]
mod views;
#[path = "../types/ty.rs"]
mod ty;

pub fn build() -> Vec<cat::TyD> { vec![] }

fn main() { mc::eng::main(&|id| Some(match id { "C22" => evo::c22(), _ => return None })) }
