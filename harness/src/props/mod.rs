//! The properties.

mod algebra;
mod data;
mod features;
mod macros;
mod filters;
mod outward;
mod scene;
mod sigs;
mod state;
mod texts;
mod values;
mod ways;

use std::process::ExitCode;

use crate::run::Prop;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(texts::PROPS);
    v.extend(scene::PROPS);
    v.extend(values::PROPS);
    v.extend(data::PROPS);
    v.extend(filters::PROPS);
    v.extend(ways::PROPS);
    v.extend(features::PROPS);
    v.extend(macros::PROPS);
    v.extend(algebra::PROPS);
    v.extend(state::PROPS);
    v.sort_by_key(|p| p.id);
    v
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

/// Helpers run in a process of their own.
pub fn sub(args: &[String]) -> ExitCode {
    match args.first().map(|s| s.as_str()) {
        Some("deep") => texts::deep_sub(&args[1..]),
        _ => ExitCode::from(2),
    }
}
