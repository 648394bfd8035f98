mod c03;
mod c04;
mod c14;
mod c15;
mod c16;
mod c17;
mod mixed;
mod c19;

fn main() {
    mc::eng::main(&|id| Some(match id {
        "C03" => c03::check(),
        "C04" => c04::check(),
        "C14" => c14::check(),
        "C15" => c15::check(),
        "C16" => c16::check(),
        "C17" => c17::check(),
        "C19" => c19::check(),
        _ => return None,
    }))
}
