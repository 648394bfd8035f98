#[macro_use]
mod cat;
mod base;
mod borrow;
mod c01;
mod cross;
mod cut;
mod dec;
mod deliv;
mod docs;
mod domain;
mod errs;
mod hostile;
mod lim;
mod retro;
mod run;
mod scale;
mod session;
mod ty;
mod unknown;
mod views;

pub fn build() -> Vec<cat::TyD> { base::build() }

fn main() {
    mc::eng::main(&|id| Some(match id {
        "C01" => c01::c01(),
        "C02" => c01::c02(),
        "C08" => dec::c08(false),
        "C05" => cut::c05(false),
        "C07" => lim::c07(false),
        "C18" => session::c18(),
        "C21" => domain::c21(),
        "C22" => cross::c22(),
        "C20" => errs::c20(false),
        "C06" => hostile::c06(),
        "C09" => unknown::c09(false),
        "C10" => unknown::c10(),
        "C11" => borrow::c11(),
        "C12" => deliv::c12(),
        "C13" => deliv::c13(),
        _ => return None,
    }))
}

/// What only the hand-picked catalog is used for.
pub fn extra(id: &str, s: &mut Vec<Box<dyn mc::eng::Suite>>) {
    use scale::{For, Scaled};
    s.push(Box::new(Scaled(match id { "C01" => For::RoundTrip, "C02" => For::Bytes, "C07" => For::Limits, "C09" => For::Padding, _ => For::Schema })));
}
/// What C08 shares with C21.
pub fn extra08(s: &mut Vec<Box<dyn mc::eng::Suite>>) {
    s.push(Box::new(domain::Ints));
    s.push(Box::new(domain::Lens));
}
