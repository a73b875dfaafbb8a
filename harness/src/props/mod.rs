pub mod cli;
pub mod distill;
pub mod front;
pub mod interp;
pub mod lang;
pub mod matching;
pub mod registry;
pub mod shared;
pub mod total;
pub mod values;

use crate::runner::Prop;

pub fn all() -> Vec<&'static Prop> {
	let mut v = Vec::new();
	v.extend(cli::PROPS.iter());
	v.extend(distill::PROPS.iter());
	v.extend(front::PROPS.iter());
	v.extend(interp::PROPS.iter());
	v.extend(lang::PROPS.iter());
	v.extend(matching::PROPS.iter());
	v.extend(registry::PROPS.iter());
	v.extend(shared::PROPS.iter());
	v.extend(total::PROPS.iter());
	v.extend(values::PROPS.iter());
	v
}

/// Probes of the known findings: does the listed input still fail?
pub const PROBES: &[(&str, fn() -> bool)] = &[
	("located-empty-object", front::located_empty_object),
	("cli-repeated-resource", cli::repeated_resource),
	("union-intersection", total::union_intersection),
];
