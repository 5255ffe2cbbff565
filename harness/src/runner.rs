//! Runs generated cases, counts what was generated, shrinks failures and writes evidence and replay files.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// Classification of a single case.
#[derive(Default)]
pub struct Tags {
	tags: Vec<&'static str>,
	nontrivial: bool,
	sub_evals: u64,
}

impl Tags {
	pub fn tag(&mut self, tag: &'static str) {
		if !self.tags.contains(&tag) {
			self.tags.push(tag);
		}
	}
	pub fn tag_if(&mut self, cond: bool, tag: &'static str) {
		if cond {
			self.tag(tag);
		}
	}
	/// Count additional evaluations done as part of this case.
	pub fn sub_evals(&mut self, n: u64) {
		self.sub_evals += n;
	}
	pub fn nontrivial(&mut self) {
		self.nontrivial = true;
	}
	pub fn nontrivial_if(&mut self, cond: bool) {
		if cond {
			self.nontrivial = true;
		}
	}
}

#[derive(Default)]
pub struct Stats {
	pub evaluations: u64,
	pub nontrivial: HashSet<u64>,
	pub tags: BTreeMap<String, u64>,
	pub samples: Vec<serde_json::Value>,
	pub subs: BTreeMap<String, u64>,
	pub exhaustive: Vec<String>,
}

pub struct Violation {
	pub sub: String,
	pub case: serde_json::Value,
	pub message: String,
	pub original: Option<serde_json::Value>,
}

pub struct Ctx {
	pub id: String,
	pub thorough: bool,
	pub seed: u64,
	pub stats: Stats,
	pub rule: &'static str,
	pub assumptions: Vec<String>,
	pub violation: Option<Violation>,
	pub replay: Option<(String, serde_json::Value)>,
	pub replay_ran: bool,
	pub known: Vec<Known>,
	pub known_hits: BTreeMap<String, u64>,
	pub t0: Instant,
	/// After how many seconds a single case is taken to hang.
	pub hang_limit: u64,
	/// Factor on all case counts.
	pub scale: f64,
}

/// A listed known finding: failures whose message contains `signature` in this property and sub-check.
#[derive(Clone, Debug, serde::Deserialize)]
pub struct Known {
	pub property: String,
	pub sub: String,
	pub signature: String,
	pub what: String,
}

pub const SHARDS: usize = 8;

thread_local! {
	static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
	static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"<non-string panic>".into()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		if GUARDED.with(|g| g.get()) == 0 {
			println!("internal error: {msg} [{loc}]");
		}
		PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} [{loc}]")));
	}));
}

/// Run a closure, turning a panic into an error with the panic message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	GUARDED.with(|g| g.set(g.get() + 1));
	let result = catch_unwind(AssertUnwindSafe(f));
	GUARDED.with(|g| g.set(g.get() - 1));
	result.map_err(|_| {
		let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
		format!("panic: {msg}")
	})
}

fn hash_str(s: &str) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	s.hash(&mut h);
	h.finish()
}

/// Deterministic generator for a sub-check and shard.
fn make_runner(seed: u64, id: &str, sub: &str, shard: usize) -> TestRunner {
	let mut bytes = [0u8; 32];
	bytes[..8].copy_from_slice(&seed.to_le_bytes());
	// FNV-1a, so that the value does not depend on the standard library's hasher.
	let mut h: u64 = 0xcbf2_9ce4_8422_2325;
	for b in id.bytes().chain([0]).chain(sub.bytes()) {
		h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
	}
	bytes[8..16].copy_from_slice(&h.to_le_bytes());
	bytes[16..24].copy_from_slice(&(shard as u64).to_le_bytes());
	let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
	let config = Config {
		failure_persistence: None,
		..Config::default()
	};
	TestRunner::new_with_rng(config, rng)
}

struct ShardResult {
	stats: Stats,
	failure: Option<Violation>,
	known_hits: BTreeMap<String, u64>,
}

pub type Check<C> = fn(&C, &mut Tags) -> Result<(), String>;

/// What each shard is busy with, to notice cases that never end.
struct Watch<C> {
	sub: String,
	trace: Option<PathBuf>,
	slots: Vec<Mutex<Option<(Instant, Arc<C>)>>>,
	done: AtomicBool,
}

/// A case normally takes far less than a second.
pub const HANG_LIMIT_S: u64 = 60;

impl<C: Serialize> Watch<C> {
	fn new(sub: &str, shards: usize) -> Self {
		Self {
			sub: sub.into(),
			trace: std::env::var_os(TRACE_ENV).map(PathBuf::from),
			slots: (0..shards).map(|_| Mutex::new(None)).collect(),
			done: AtomicBool::new(false),
		}
	}

	fn run(&self, shard: usize, check: Check<C>, case: C, tags: &mut Tags) -> (Arc<C>, Result<(), String>) {
		if let Some(dir) = &self.trace {
			let text = serde_json::json!({"sub": self.sub, "case": case}).to_string();
			std::fs::write(dir.join(format!("{}-{shard}", self.sub)), text).ok();
		}
		let case = Arc::new(case);
		*self.slots[shard].lock().unwrap() = Some((Instant::now(), case.clone()));
		let result = run_one(check, &case, tags);
		*self.slots[shard].lock().unwrap() = None;
		if let Some(dir) = &self.trace {
			std::fs::remove_file(dir.join(format!("{}-{shard}", self.sub))).ok();
		}
		(case, result)
	}

	/// Runs until `done` is set.
	fn watch(&self, id: &str, sub: &str, seed: u64, thorough: bool, limit: u64) {
		while !self.done.load(Ordering::SeqCst) {
			std::thread::park_timeout(std::time::Duration::from_millis(500));
			for slot in &self.slots {
				let stuck = match &*slot.lock().unwrap() {
					Some((since, case)) if since.elapsed().as_secs() >= limit => serde_json::to_value(&**case).unwrap(),
					_ => continue,
				};
				report_hang(id, sub, seed, thorough, limit, stuck);
			}
		}
	}
}

/// Set in the child process that runs the checks.
pub const CRASH_ENV: &str = "DXL_CHILD";
/// Directory to keep the current cases in.
pub const TRACE_ENV: &str = "DXL_TRACE";

/// Report a case that does not end. The process can not continue after that.
fn report_hang(id: &str, sub: &str, seed: u64, thorough: bool, limit: u64, case: serde_json::Value) -> ! {
	report_fatal(id, sub, seed, thorough, case, &format!("the case did not end within {limit} s"))
}

/// Report a case that ends the process.
pub fn report_crash(id: &str, seed: u64, thorough: bool, signal: i32, case: serde_json::Value) -> ! {
	let sub = case["sub"].as_str().unwrap_or("").to_string();
	report_fatal(id, &sub, seed, thorough, case["case"].clone(), &format!("the process crashed with signal {signal}"))
}

fn report_fatal(id: &str, sub: &str, seed: u64, thorough: bool, case: serde_json::Value, message: &str) -> ! {
	let dir = Ctx::verif_dir();
	let evidence = serde_json::json!({
		"property": id,
		"tier": if thorough { "thorough" } else { "quick" },
		"seed": seed,
		"level": level(id),
		"coverage": {
			"evaluations": 1,
			"distinct_nontrivial": 1,
			"rule": "the run was cut short by this case",
			"samples": [case],
		},
		"assumptions": [],
		"wall_s": 1.0,
		"violations": 1,
	});
	std::fs::create_dir_all(dir.join("evidence")).ok();
	std::fs::write(dir.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap() + "\n").ok();
	let path = write_replay(id, sub, seed, &case, message, None);
	println!("sub-check {sub}: {message}");
	println!("case: {case}");
	println!("VIOLATION property={id} replay={}", path.display());
	std::process::exit(1)
}

fn write_replay(id: &str, sub: &str, seed: u64, case: &serde_json::Value, message: &str, original: Option<&serde_json::Value>) -> PathBuf {
	let replays = Ctx::verif_dir().join("replays");
	std::fs::create_dir_all(&replays).ok();
	let body = serde_json::json!({
		"property": id,
		"sub": sub,
		"case": case,
		"message": message,
		"unshrunk_case": original,
		"seed": seed,
	});
	let text = serde_json::to_string_pretty(&body).unwrap() + "\n";
	let path = replays.join(format!("{}-{:016x}.json", id, hash_str(&text)));
	std::fs::write(&path, text).ok();
	path
}

fn run_one<C>(check: Check<C>, case: &C, tags: &mut Tags) -> Result<(), String> {
	match guard(|| check(case, tags)) {
		Ok(r) => r,
		Err(p) => Err(p),
	}
}

fn record<C: Serialize>(stats: &mut Stats, sub: &str, case: &C, tags: &Tags, sample_cap: usize) {
	stats.evaluations += 1 + tags.sub_evals;
	*stats.subs.entry(sub.into()).or_default() += 1;
	for t in &tags.tags {
		*stats.tags.entry(format!("{sub}/{t}")).or_default() += 1;
	}
	if tags.nontrivial {
		let json = serde_json::to_string(case).unwrap();
		if stats.nontrivial.insert(hash_str(&format!("{sub}|{json}"))) && stats.samples.len() < sample_cap && json.len() < 1500 {
			stats
				.samples
				.push(serde_json::json!({"sub": sub, "tags": tags.tags, "case": serde_json::from_str::<serde_json::Value>(&json).unwrap()}));
		}
	}
}

impl Ctx {
	pub fn n(&self, quick: u64, thorough: u64) -> u64 {
		let base = if self.thorough { thorough } else { quick };
		let extra = std::env::var("VERIF_CASE_SCALE").ok().and_then(|x| x.parse::<f64>().ok()).unwrap_or(1.0);
		((base as f64) * self.scale * extra).max(8.0) as u64
	}

	fn is_known(known: &[Known], sub: &str, message: &str) -> Option<String> {
		known
			.iter()
			.find(|k| k.sub == sub && message.contains(&k.signature))
			.map(|k| k.what.clone())
	}

	/// If in replay mode, run the replayed case when it belongs to this sub-check. Returns true if nothing else should run.
	fn try_replay<C: DeserializeOwned + std::fmt::Debug>(&mut self, sub: &str, check: Check<C>) -> bool {
		let Some((want, value)) = self.replay.clone() else {
			return self.violation.is_some();
		};
		if want == sub {
			self.replay_ran = true;
			let case: C = serde_json::from_value(value.clone()).expect("replay file does not hold a case of this sub-check");
			println!("replaying {sub}: {case:?}");
			let mut tags = Tags::default();
			if let Err(message) = run_one(check, &case, &mut tags) {
				self.violation = Some(Violation {
					sub: sub.into(),
					case: value,
					message,
					original: None,
				});
			}
		}
		true
	}

	/// Run a property over generated cases.
	pub fn pbt<C>(&mut self, sub: &str, cases: u64, strategy: impl Fn() -> BoxedStrategy<C> + Sync, check: Check<C>)
	where
		C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
	{
		self.pbt_shards(sub, cases, SHARDS, strategy, check)
	}

	/// Like [`Self::pbt`], but without running cases in parallel.
	pub fn pbt_seq<C>(&mut self, sub: &str, cases: u64, strategy: impl Fn() -> BoxedStrategy<C> + Sync, check: Check<C>)
	where
		C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
	{
		self.pbt_shards(sub, cases, 1, strategy, check)
	}

	pub fn pbt_shards<C>(&mut self, sub: &str, cases: u64, shards: usize, strategy: impl Fn() -> BoxedStrategy<C> + Sync, check: Check<C>)
	where
		C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
	{
		if self.try_replay(sub, check) {
			return;
		}
		let per_shard = cases.div_ceil(shards as u64);
		let (seed, id, known) = (self.seed, self.id.clone(), self.known.clone());
		let (thorough, limit) = (self.thorough, self.hang_limit);
		let watch = Watch::<C>::new(sub, shards);
		let results: Vec<ShardResult> = std::thread::scope(|scope| {
			let watcher = scope.spawn(|| watch.watch(&id, sub, seed, thorough, limit));
			let watch = &watch;
			let handles: Vec<_> = (0..shards)
				.map(|shard| {
					let (id, strategy, known) = (&id, &strategy, &known);
					scope.spawn(move || {
						let mut runner = make_runner(seed, id, sub, shard);
						let strategy = strategy();
						let mut out = ShardResult {
							stats: Stats::default(),
							failure: None,
							known_hits: BTreeMap::new(),
						};
						for _ in 0..per_shard {
							let mut tree = strategy.new_tree(&mut runner).expect("generator failed");
							let mut tags = Tags::default();
							let (case, result) = watch.run(shard, check, tree.current(), &mut tags);
							record(&mut out.stats, sub, &*case, &tags, 2);
							let Err(message) = result else { continue };
							if let Some(what) = Self::is_known(known, sub, &message) {
								*out.known_hits.entry(what).or_default() += 1;
								continue;
							}
							// Shrink, staying away from known findings.
							let original = serde_json::to_value(&*case).unwrap();
							let (mut best, mut best_message) = (case, message);
							let started = Instant::now();
							if tree.simplify() {
								for _ in 0..20_000 {
									if started.elapsed().as_secs() > 30 {
										break;
									}
									let (current, r) = watch.run(shard, check, tree.current(), &mut Tags::default());
									match r {
										Err(m) if Self::is_known(known, sub, &m).is_none() => {
											best = current;
											best_message = m;
											if !tree.simplify() {
												break;
											}
										},
										_ => {
											if !tree.complicate() {
												break;
											}
										},
									}
								}
							}
							out.failure = Some(Violation {
								sub: sub.into(),
								case: serde_json::to_value(&*best).unwrap(),
								message: best_message,
								original: Some(original),
							});
							break;
						}
						out
					})
				})
				.collect();
			let results: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
			watch.done.store(true, Ordering::SeqCst);
			watcher.thread().unpark();
			results.into_iter().map(|r| r.expect("shard thread failed")).collect()
		});
		self.merge(results);
	}

	/// Run a property over an explicit, completely enumerated list of cases.
	pub fn enumerate<C, I>(&mut self, sub: &str, cases: impl Fn(usize) -> I + Sync, check: Check<C>)
	where
		C: std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync,
		I: Iterator<Item = C>,
	{
		if self.try_replay(sub, check) {
			return;
		}
		let known = self.known.clone();
		let (seed, id, thorough, limit) = (self.seed, self.id.clone(), self.thorough, self.hang_limit);
		let watch = Watch::<C>::new(sub, SHARDS);
		let results: Vec<ShardResult> = std::thread::scope(|scope| {
			let watcher = scope.spawn(|| watch.watch(&id, sub, seed, thorough, limit));
			let watch = &watch;
			let handles: Vec<_> = (0..SHARDS)
				.map(|shard| {
					let (cases, known) = (&cases, &known);
					scope.spawn(move || {
						let mut out = ShardResult {
							stats: Stats::default(),
							failure: None,
							known_hits: BTreeMap::new(),
						};
						for case in cases(shard) {
							let mut tags = Tags::default();
							let (case, result) = watch.run(shard, check, case, &mut tags);
							record(&mut out.stats, sub, &*case, &tags, 1);
							let Err(message) = result else { continue };
							if let Some(what) = Self::is_known(known, sub, &message) {
								*out.known_hits.entry(what).or_default() += 1;
								continue;
							}
							out.failure = Some(Violation {
								sub: sub.into(),
								case: serde_json::to_value(&*case).unwrap(),
								message,
								original: None,
							});
							break;
						}
						out
					})
				})
				.collect();
			let results: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
			watch.done.store(true, Ordering::SeqCst);
			watcher.thread().unpark();
			results.into_iter().map(|r| r.expect("shard thread failed")).collect()
		});
		self.stats.exhaustive.push(sub.into());
		self.merge(results);
	}

	fn merge(&mut self, results: Vec<ShardResult>) {
		for r in results {
			self.stats.evaluations += r.stats.evaluations;
			self.stats.nontrivial.extend(r.stats.nontrivial);
			for (k, v) in r.stats.tags {
				*self.stats.tags.entry(k).or_default() += v;
			}
			for (k, v) in r.stats.subs {
				*self.stats.subs.entry(k).or_default() += v;
			}
			for (k, v) in r.known_hits {
				*self.known_hits.entry(k).or_default() += v;
			}
			let same_sub = |s: &serde_json::Value, t: &serde_json::Value| s["sub"] == t["sub"];
			for s in r.stats.samples {
				if self.stats.samples.iter().filter(|x| same_sub(x, &s)).count() < 2 {
					self.stats.samples.push(s);
				}
			}
			if self.violation.is_none() {
				self.violation = r.failure;
			}
		}
	}

	fn verif_dir() -> PathBuf {
		std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
	}

	/// Write evidence, print the verdict and return the exit code.
	pub fn finish(self) -> i32 {
		let dir = Self::verif_dir();
		if self.replay.is_some() {
			if !self.replay_ran {
				println!("no sub-check with that name");
				return 2;
			}
			return match &self.violation {
				Some(v) => {
					println!("FAILS: {}", v.message);
					1
				},
				None => {
					println!("passes");
					0
				},
			};
		}
		let nontrivial = self.stats.nontrivial.len() as u64;
		let evidence = serde_json::json!({
			"property": self.id,
			"tier": if self.thorough { "thorough" } else { "quick" },
			"seed": self.seed,
			"level": level(&self.id),
			"coverage": {
				"evaluations": self.stats.evaluations,
				"distinct_nontrivial": nontrivial,
				"rule": self.rule,
				"samples": self.stats.samples,
				"cases_per_sub_check": self.stats.subs,
				"classification": self.stats.tags,
				"completely_enumerated_sub_checks": self.stats.exhaustive,
				"known_finding_hits": self.known_hits,
			},
			"assumptions": self.assumptions,
			"wall_s": self.t0.elapsed().as_secs_f64(),
			"violations": u32::from(self.violation.is_some()),
		});
		let evidence_dir = dir.join("evidence");
		std::fs::create_dir_all(&evidence_dir).ok();
		if let Err(e) = std::fs::write(
			evidence_dir.join(format!("{}.json", self.id)),
			serde_json::to_string_pretty(&evidence).unwrap() + "\n",
		) {
			println!("failed to write evidence: {e}");
			return 2;
		}
		println!(
			"{}: {} cases, {} distinct non-trivial, {:.1} s",
			self.id,
			self.stats.evaluations,
			nontrivial,
			self.t0.elapsed().as_secs_f64()
		);
		for k in &self.known {
			println!("KNOWN-FINDING: property={} {}", self.id, k.what);
		}
		match self.violation {
			None => {
				if self.stats.evaluations == 0 || nontrivial == 0 {
					println!("check is vacuous: nothing non-trivial was generated");
					return 2;
				}
				0
			},
			Some(v) => {
				let path = write_replay(&self.id, &v.sub, self.seed, &v.case, &v.message, v.original.as_ref());
				println!("sub-check {}: {}", v.sub, v.message);
				println!("minimal case: {}", v.case);
				println!("VIOLATION property={} replay={}", self.id, path.display());
				1
			},
		}
	}
}

fn level(id: &str) -> &'static str {
	match id {
		"C19" => "fault_enumeration",
		_ => "exploration",
	}
}
