//! Runs the cases of a property under the monitors, in a child process, and
//! writes the evidence.
use crate::rng::Rng;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What the monitors observed.
#[derive(Default)]
pub struct Cov {
	/// Number of oracle evaluations.
	pub evaluations: u64,
	/// Observed events.
	pub counts: BTreeMap<String, u64>,
	/// Hashes of the non trivial observations.
	pub distinct: HashSet<u64>,
	pub samples: Vec<String>,
	/// Description of the current case, for the reports.
	pub case: String,
}

impl Cov {
	pub fn hit(&mut self, what: impl Into<String>) {
		*self.counts.entry(what.into()).or_default() += 1;
	}

	pub fn hits(&mut self, what: &BTreeMap<&'static str, u64>) {
		for (k, v) in what {
			*self.counts.entry(k.to_string()).or_default() += v;
		}
	}

	pub fn eval(&mut self) {
		self.evaluations += 1;
	}

	/// Records a non trivial observation.
	pub fn observe(&mut self, what: impl Hash) {
		let mut h = std::collections::hash_map::DefaultHasher::new();
		what.hash(&mut h);
		self.distinct.insert(h.finish());
	}

	pub fn sample(&mut self, s: impl FnOnce() -> String) {
		if self.samples.len() < 2 {
			let mut s = s();
			if s.len() > 1500 {
				let mut i = 1500;
				while !s.is_char_boundary(i) {
					i -= 1;
				}
				s.truncate(i);
			}
			self.samples.push(s);
		}
	}

	fn merge(&mut self, o: Cov) {
		self.evaluations += o.evaluations;
		for (k, v) in o.counts {
			*self.counts.entry(k).or_default() += v;
		}
		self.distinct.extend(o.distinct);
		for s in o.samples {
			if self.samples.len() < 6 {
				self.samples.push(s)
			}
		}
	}
}

/// Violation, or `Skip` if the case is not relevant.
pub enum Bad {
	Violation(String),
	Skip(&'static str),
}

impl From<String> for Bad {
	fn from(s: String) -> Bad {
		Bad::Violation(s)
	}
}

pub type Case = Result<(), Bad>;

pub struct Prop {
	pub id: &'static str,
	pub rule: &'static str,
	pub quick: u64,
	pub thorough: u64,
	/// Time (in seconds) after which a case is a hang.
	pub hang: u64,
	pub threads: usize,
	pub run: fn(&mut Rng, &mut Cov, u64) -> Case,
}

thread_local! {
	static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = info
			.payload()
			.downcast_ref::<String>()
			.cloned()
			.or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
			.unwrap_or_default();
		let at = info
			.location()
			.map(|l| format!("{}:{}", l.file(), l.line()))
			.unwrap_or_default();
		if msg.contains("unsafe precondition") {
			eprintln!("{msg} ({at})");
		}
		LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {at}: {msg}"));
	}));
}

/// Runs `f`, turning a panic into an error.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Bad> {
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
		Ok(t) => Ok(t),
		Err(_) => Err(Bad::Violation(format!(
			"{what} {}",
			LAST_PANIC.with(|p| p.borrow().clone())
		))),
	}
}

fn rng_for(p: &Prop, seed: u64, idx: u64) -> Rng {
	let id = p.id.bytes().fold(0u64, |a, b| a * 131 + b as u64);
	Rng::derive(id, seed, idx)
}

fn run_case(p: &Prop, seed: u64, idx: u64, cov: &mut Cov) -> Result<(), String> {
	let mut rng = rng_for(p, seed, idx);
	cov.case.clear();
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		(p.run)(&mut rng, cov, idx)
	}));
	match r {
		Ok(Ok(())) => Ok(()),
		Ok(Err(Bad::Skip(why))) => {
			cov.hit(format!("skipped: {why}"));
			Ok(())
		}
		Ok(Err(Bad::Violation(m))) => Err(m),
		Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
	}
}

pub const STACK: usize = 64 << 20;

/// Child process: runs the cases `start..end`.
pub fn worker(p: &'static Prop, seed: u64, start: u64, end: u64, limit: u64, dir: &Path) {
	install_panic_hook();
	let threads = p.threads;
	let next = Arc::new(AtomicU64::new(start));
	let stop = Arc::new(AtomicBool::new(false));
	let violation: Arc<Mutex<Option<(u64, String, String)>>> = Arc::new(Mutex::new(None));
	let total = Arc::new(Mutex::new(Cov::default()));
	let t0 = Instant::now();
	// per thread: current index + 1, and start time in ms.
	let state: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new(
		(0..threads)
			.map(|_| (AtomicU64::new(0), AtomicU64::new(0)))
			.collect(),
	);
	{
		let state = state.clone();
		let hang = p.hang * 1000;
		let dir = dir.to_path_buf();
		std::thread::spawn(move || loop {
			std::thread::sleep(Duration::from_millis(500));
			let now = t0.elapsed().as_millis() as u64;
			for (i, s) in state.iter() {
				let idx = i.load(Ordering::SeqCst);
				let since = s.load(Ordering::SeqCst);
				if idx > 0 && now > since + hang && i.load(Ordering::SeqCst) == idx {
					let _ = std::fs::write(dir.join("hang"), (idx - 1).to_string());
					std::process::exit(97);
				}
			}
		});
	}
	let mut handles = Vec::new();
	for t in 0..threads {
		let next = next.clone();
		let stop = stop.clone();
		let violation = violation.clone();
		let total = total.clone();
		let state = state.clone();
		let journal = std::fs::File::create(dir.join(format!("journal{t}"))).unwrap();
		handles.push(
			std::thread::Builder::new()
				.stack_size(STACK)
				.spawn(move || {
					let mut cov = Cov::default();
					while !stop.load(Ordering::SeqCst) && t0.elapsed().as_secs() < limit {
						let idx = next.fetch_add(1, Ordering::SeqCst);
						if idx >= end {
							break;
						}
						let _ = journal.write_at(&(idx + 1).to_le_bytes(), 0);
						state[t].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
						state[t].0.store(idx + 1, Ordering::SeqCst);
						let r = run_case(p, seed, idx, &mut cov);
						state[t].0.store(0, Ordering::SeqCst);
						cov.hit("cases");
						if let Err(m) = r {
							let mut v = violation.lock().unwrap();
							// keep the first one, for determinism.
							if v.as_ref().is_none_or(|(i, _, _)| *i > idx) {
								*v = Some((idx, m, cov.case.clone()));
							}
							stop.store(true, Ordering::SeqCst);
						}
					}
					let _ = journal.write_at(&0u64.to_le_bytes(), 0);
					total.lock().unwrap().merge(cov);
				})
				.unwrap(),
		);
	}
	for h in handles {
		let _ = h.join();
	}
	let cov = std::mem::take(&mut *total.lock().unwrap());
	let v = violation.lock().unwrap().take();
	let out = json!({
		"evaluations": cov.evaluations,
		"counts": cov.counts,
		"distinct": cov.distinct.len(),
		"samples": cov.samples,
		"next": next.load(Ordering::SeqCst).min(end),
		"violation": v.map(|(i, m, c)| json!({"idx": i, "msg": m, "case": c})),
	});
	std::fs::write(dir.join("result.json"), out.to_string()).unwrap();
}

/// Runs a single case, and prints it.
pub fn single(p: &'static Prop, seed: u64, idx: u64) -> i32 {
	install_panic_hook();
	let h = std::thread::Builder::new()
		.stack_size(STACK)
		.spawn(move || {
			let mut cov = Cov::default();
			let r = run_case(p, seed, idx, &mut cov);
			println!("{}", cov.case);
			match r {
				Ok(()) => {
					println!("OK {:?}", cov.counts);
					0
				}
				Err(m) => {
					println!("VIOLATED: {m}");
					1
				}
			}
		})
		.unwrap();
	h.join().unwrap_or(1)
}

/// Runs the cases `start..start + n` of each property, and prints what has
/// been run.
pub fn inproc(props: Vec<&'static Prop>, seed: u64, start: u64, n: u64) {
	install_panic_hook();
	let limit = std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse::<u64>().ok());
	let verbose = std::env::var_os("VERIF_VERBOSE").is_some();
	let t0 = Instant::now();
	let h = std::thread::Builder::new()
		.stack_size(1 << 30)
		.spawn(move || {
			let mut done = BTreeMap::new();
			let mut cov = Cov::default();
			'all: for idx in start..start + n {
				for p in &props {
					if limit.is_some_and(|l| t0.elapsed().as_secs() >= l) {
						break 'all;
					}
					if verbose {
						eprintln!("case {} {seed} {idx}", p.id)
					}
					cov.samples.clear();
					let ok = run_case(p, seed, idx, &mut cov).is_ok();
					let e = done.entry(p.id).or_insert((0u64, 0u64));
					e.0 += 1;
					e.1 += ok as u64;
				}
			}
			let done: BTreeMap<_, _> = done.into_iter().map(|(k, (n, _))| (k, n)).collect();
			println!(
				"{}",
				json!({"cases": done, "evaluations": cov.evaluations, "distinct": cov.distinct.len()})
			);
		})
		.unwrap();
	let _ = h.join();
}

pub fn verif_dir() -> PathBuf {
	PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Prefix of the replay files of a second run with another build.
fn variant() -> String {
	std::env::var("VERIF_VARIANT").unwrap_or_default()
}

fn report(p: &Prop, seed: u64, idx: u64, msg: &str, case: &str) {
	let dir = verif_dir().join("replays");
	let _ = std::fs::create_dir_all(&dir);
	let path = dir.join(format!("{}-{}{seed}-{idx}.txt", p.id, variant()));
	let text = format!(
		"property={} seed={seed} case={idx}\nreplay: bash {}/check.sh replay {}\n\n{msg}\n\n{case}\n",
		p.id,
		verif_dir().display(),
		path.display()
	);
	let _ = std::fs::write(&path, text);
	let short: String = msg.chars().take(400).collect();
	println!("{short}");
	println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// Prints the listed findings of the property that still fail.
fn known_findings(p: &Prop) {
	let Ok(text) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) else {
		return;
	};
	for line in text.lines() {
		let Some(rest) = line.strip_prefix(&format!("finding: property={} key=", p.id)) else {
			continue;
		};
		let (key, what) = rest.split_once(' ').unwrap_or((rest, ""));
		let exe = std::env::current_exe().unwrap();
		let mut child = Command::new(&exe)
			.args(["probe", key])
			.stdin(Stdio::null())
			.stdout(Stdio::null())
			.stderr(Stdio::null())
			.spawn()
			.unwrap();
		let t = Instant::now();
		let fails = loop {
			match child.try_wait().unwrap() {
				Some(s) => break s.code() != Some(0),
				None if t.elapsed().as_secs() > 20 => {
					let _ = child.kill();
					let _ = child.wait();
					break true;
				}
				None => std::thread::sleep(Duration::from_millis(5)),
			}
		};
		if fails {
			println!("KNOWN-FINDING: property={} {key}: {what}", p.id);
		}
	}
}

/// Parent process.
pub fn run(p: &'static Prop, seed: u64, tier: &str, cases: Option<u64>) -> i32 {
	let t0 = Instant::now();
	let end = cases.unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
	let limit: u64 = if tier == "thorough" { 2400 } else { 420 };
	let base = verif_dir().join("work").join(format!("{}-{}", p.id, std::process::id()));
	std::fs::create_dir_all(&base).unwrap();
	let exe = std::env::current_exe().unwrap();
	let mut start = 0;
	let mut evaluations = 0u64;
	let mut distinct = 0u64;
	let mut counts: BTreeMap<String, u64> = BTreeMap::new();
	let mut samples: Vec<serde_json::Value> = Vec::new();
	let mut code = 0;
	let mut attempts = 0;
	while start < end && t0.elapsed().as_secs() < limit && attempts < 6 {
		attempts += 1;
		for t in 0..64 {
			let _ = std::fs::remove_file(base.join(format!("journal{t}")));
		}
		let _ = std::fs::remove_file(base.join("result.json"));
		let _ = std::fs::remove_file(base.join("hang"));
		let left = limit - t0.elapsed().as_secs();
		let status = Command::new(&exe)
			.args(["worker", p.id])
			.args([seed, start, end, left].map(|x| x.to_string()))
			.arg(&base)
			.stdin(Stdio::null())
			.status()
			.unwrap();
		let result = std::fs::read_to_string(base.join("result.json"))
			.ok()
			.and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
		match result {
			Some(r) => {
				evaluations += r["evaluations"].as_u64().unwrap();
				distinct += r["distinct"].as_u64().unwrap();
				for (k, v) in r["counts"].as_object().unwrap() {
					*counts.entry(k.clone()).or_default() += v.as_u64().unwrap();
				}
				samples.extend(r["samples"].as_array().unwrap().iter().cloned());
				if let Some(v) = r["violation"].as_object() {
					report(
						p,
						seed,
						v["idx"].as_u64().unwrap(),
						v["msg"].as_str().unwrap(),
						v["case"].as_str().unwrap(),
					);
					code = 1;
				}
				break;
			}
			None => {
				// The process died: find out on which case.
				let mut suspects: Vec<u64> = Vec::new();
				if let Ok(h) = std::fs::read_to_string(base.join("hang")) {
					suspects.extend(h.trim().parse::<u64>().ok());
				}
				for t in 0..64 {
					if let Ok(b) = std::fs::read(base.join(format!("journal{t}"))) {
						if b.len() == 8 {
							let i = u64::from_le_bytes(b.try_into().unwrap());
							if i > 0 {
								suspects.push(i - 1)
							}
						}
					}
				}
				suspects.dedup();
				let how = match status.signal() {
					Some(s) => format!("signal {s}"),
					None => format!("exit status {:?}", status.code()),
				};
				eprintln!("worker ended with {how}; suspects {suspects:?}");
				let mut found = false;
				for idx in &suspects {
					let mut child = Command::new(&exe)
						.args(["case", p.id, &seed.to_string(), &idx.to_string()])
						.stdin(Stdio::null())
						.stdout(Stdio::null())
						.stderr(Stdio::null())
						.spawn()
						.unwrap();
					let t = Instant::now();
					let end = loop {
						match child.try_wait().unwrap() {
							Some(s) => break Some(s),
							None if t.elapsed().as_secs() > p.hang + 30 => {
								let _ = child.kill();
								let _ = child.wait();
								break None;
							}
							None => std::thread::sleep(Duration::from_millis(20)),
						}
					};
					let msg = match end {
						None => format!("does not terminate (after {} s)", p.hang + 30),
						Some(s) if s.signal().is_some() => {
							format!("process killed by signal {}", s.signal().unwrap())
						}
						Some(s) if s.code() == Some(1) => "violation".to_string(),
						_ => continue,
					};
					report(p, seed, *idx, &msg, "(the process died; replay the case for details)");
					found = true;
					code = 1;
					break;
				}
				if found {
					break;
				}
				// not reproducible in isolation: go on with the next cases.
				*counts.entry(format!("worker lost ({how})")).or_default() += 1;
				start = suspects.iter().max().map(|i| i + 1).unwrap_or(start);
			}
		}
	}
	let _ = std::fs::remove_dir_all(&base);
	samples.truncate(6);
	if samples.is_empty() {
		samples.push(json!("none"));
	}
	counts.retain(|_, v| *v > 0);
	let evidence = json!({
		"property": p.id,
		"tier": tier,
		"seed": seed,
		"level": "exploration",
		"coverage": {
			"evaluations": evaluations,
			"distinct_nontrivial": distinct,
			"rule": p.rule,
			"samples": samples,
			"events": counts,
		},
		"wall_s": t0.elapsed().as_secs_f64(),
	});
	known_findings(p);
	let dir = match variant().as_str() {
		"" => verif_dir().join("evidence"),
		v => verif_dir().join("work").join(v),
	};
	let _ = std::fs::create_dir_all(&dir);
	let mut f = std::fs::File::create(dir.join(format!("{}.json", p.id))).unwrap();
	writeln!(f, "{}", serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
	println!(
		"{} {tier}: {evaluations} evaluations, {distinct} distinct non trivial observations, {:.1} s",
		p.id,
		t0.elapsed().as_secs_f64()
	);
	if code == 0 && evaluations == 0 {
		println!("nothing was evaluated");
		return 2;
	}
	code
}
