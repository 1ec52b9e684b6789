pub mod hist;
pub mod identity;
pub mod iter;
pub mod lazy;
pub mod meta;
pub mod panics;
pub mod progress;
pub mod registers;
pub mod registry;
pub mod release;
pub mod request;
pub mod safety;
pub mod transparent;

/// Lazy static metrics of the binary: name, and "add to it".
pub static LAZY_STATICS: std::sync::Mutex<Vec<(&'static str, fn(u64))>> = std::sync::Mutex::new(Vec::new());

/// What the static metrics of the binary were declared with.
#[derive(Clone)]
pub struct Decl {
    pub name: &'static str,
    pub description: Option<&'static str>,
    pub metadata: &'static [(&'static str, &'static str)],
    pub formatted: bool,
}
pub static STATIC_DECLS: std::sync::Mutex<Vec<Decl>> = std::sync::Mutex::new(Vec::new());
pub static STATIC_REFS: std::sync::Mutex<Vec<(&'static str, &'static dyn metriken::Metric)>> =
    std::sync::Mutex::new(Vec::new());
/// The static scripted metric, by name.
pub static STATIC_SCRIPTED: std::sync::Mutex<Option<(&'static str, &'static request::Scripted)>> =
    std::sync::Mutex::new(None);

/// The static metrics that answer as told, by name.
pub static STATIC_ANSWERS: std::sync::Mutex<Option<Answering>> = std::sync::Mutex::new(None);
pub type Answering = (
    (&'static str, &'static transparent::Explicit),
    (&'static str, &'static transparent::Implicit),
);

pub fn format_tag(f: &metriken::Format) -> &'static str {
    match f {
        metriken::Format::Simple => "simple",
        metriken::Format::Prometheus => "prometheus",
        _ => "other",
    }
}

/// All entries of a listing. Miri has no linker sections, hence no statics.
pub fn everything(all: &metriken::Metrics) -> Vec<&metriken::MetricEntry> {
    if cfg!(miri) {
        all.dynamic_metrics().collect()
    } else {
        all.into_iter().take(1_000_000).collect()
    }
}

pub fn statics(all: &metriken::Metrics) -> &'static [metriken::MetricEntry] {
    if cfg!(miri) {
        &[]
    } else {
        all.static_metrics()
    }
}
