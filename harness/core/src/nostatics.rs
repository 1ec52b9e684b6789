//! The same monitors in a binary without a single static metric.

fn main() {
    mon::main_with(|p| {
        Some(match p {
            "C06" => hcore::registry::run,
            "C09" => hcore::iter::run,
            _ => return None,
        })
    })
}
