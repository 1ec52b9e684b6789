mod conv;
mod fault;
mod model;
mod release;
mod ser;
mod snap;
mod table;

#[global_allocator]
static MEMORY: mon::memory::Counting = mon::memory::Counting;

fn main() {
    mon::main_with(|p| {
        Some(match p {
            "C14" => snap::fidelity,
            "C15" => snap::concurrent,
            "C16" => ser::run,
            "C17" => conv::run_cells,
            "C18" => conv::run_columns,
            "C19" => conv::run_names,
            "C20" => fault::run,
            "C21" => snap::progress,
            "C22" => snap::panics,
            "C25" => snap::trail::run,
            "C26" => release::run,
            _ => return None,
        })
    })
}
