//! Monitor of the derived conversions.
#![allow(dead_code)]
mod ast;
mod derive;
mod gen;
mod json;
mod props;
mod real;
mod refc;
mod refde;
mod refhy;
mod rng;
mod runner;
mod rx;
#[path = "derive/types.rs"]
mod types;

use std::path::PathBuf;

fn all() -> Vec<&'static runner::Prop> {
	derive::PROPS.iter().collect()
}

fn find(id: &str) -> &'static runner::Prop {
	match all().into_iter().find(|p| p.id == id) {
		Some(p) => p,
		None => {
			eprintln!("unknown property {id}");
			std::process::exit(2)
		}
	}
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let num = |i: usize| args[i].parse::<u64>().unwrap();
	match args.get(1).map(String::as_str) {
		Some("run") => {
			let p = find(&args[2]);
			let seed = std::env::var("VERIF_SEED")
				.ok()
				.and_then(|s| s.parse().ok())
				.unwrap_or(1);
			let tier = args.get(3).cloned().unwrap_or("quick".into());
			let cases = args.get(4).and_then(|s| s.parse().ok());
			std::process::exit(runner::run(p, seed, &tier, cases))
		}
		Some("worker") => runner::worker(
			find(&args[2]),
			num(3),
			num(4),
			num(5),
			num(6),
			&PathBuf::from(&args[7]),
		),
		Some("case") => std::process::exit(runner::single(find(&args[2]), num(3), num(4))),
		Some("replay") => {
			let text = std::fs::read_to_string(&args[2]).expect("replay file");
			let line = text.lines().next().unwrap_or("");
			let get = |k: &str| {
				line.split(' ')
					.find_map(|w| w.strip_prefix(&format!("{k}=")))
					.unwrap_or("")
					.to_string()
			};
			std::process::exit(runner::single(
				find(&get("property")),
				get("seed").parse().unwrap(),
				get("case").parse().unwrap(),
			))
		}
		Some("probe") => std::process::exit(match args[2].as_str() {
			"derive-recursive-cycle" => derive::recursive_cycle() as i32,
			_ => 2,
		}),
		// Writes the layouts of the types (development command).
		Some("emit") => {
			for e in types::ENTRIES {
				let mut rng = rng::Rng::new(e.name.len() as u64);
				let text = derive::prelude((e.lay)().to_json(&mut rng).print());
				std::fs::write(format!("{}/{}.json", args[2], e.name), text + "\n").unwrap();
			}
		}
		Some("list") => {
			for p in all() {
				println!("{}", p.id)
			}
		}
		_ => {
			eprintln!("usage: vd run PROPERTY [quick|thorough] | case PROPERTY SEED IDX | replay FILE");
			std::process::exit(2)
		}
	}
}
