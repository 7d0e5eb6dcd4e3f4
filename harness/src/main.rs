//! Executable oracles for the properties in /verif/properties.jsonl.
//! Role: (a) search for and replay a failing input on the real code when a proof obligation fails,
//! (b) bounded stand-in for functions the verifier cannot reach.
mod core_props;
mod filter_props;
mod frame;
mod model;
mod build_props;
mod cli_props;
mod more_props;

use frame::*;

fn families() -> Vec<Fam> {
    let mut v = Vec::new();
    v.extend(core_props::families());
    v.extend(filter_props::families());
    v.extend(more_props::families());
    v.extend(build_props::families());
    v.extend(cli_props::families());
    v
}

fn main() {
    frame::main_with(families());
}
