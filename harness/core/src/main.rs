use metriken::{Counter, Gauge};

// Miri does not run linkme's section-based slices.
#[cfg(not(miri))]
mod statics;

#[cfg(not(miri))]
#[global_allocator]
static MEMORY: mon::memory::Counting = mon::memory::Counting;

fn main() {
    #[cfg(not(miri))]
    statics::publish();
    mon::main_with(|p| {
        Some(match p {
            "C01" => hcore::registers::run::<Counter>,
            "C02" => hcore::registers::run::<Gauge>,
            "C03" => hcore::hist::atomic,
            "C04" => hcore::hist::bulk,
            "C07" => hcore::safety::run,
            "C21" => hcore::progress::run,
            "C22" => hcore::panics::run,
            "C06" => hcore::registry::run,
            "C05" => hcore::lazy::run,
            "C09" => hcore::iter::run,
            "C10" => hcore::meta::names,
            "C11" => hcore::request::run,
            "C12" => hcore::meta::formatting,
            "C13" => hcore::identity::run,
            "C24" => hcore::transparent::run,
            "C26" => hcore::release::run,
            _ => return None,
        })
    })
}
