//! Feature sets and build profiles: C27.

use super::*;
use crate::cmd::{Expect, Reply};
use crate::diff::{Burst, ClientStep, DeviceStep, Exchange, Happened, ReadForm, Report};
use crate::ensure;
use crate::gen;
use crate::runner::{Tags, SHARDS};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

fn verif_dir() -> PathBuf {
	std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn target_dir() -> PathBuf {
	verif_dir().join("harness/target")
}

/// Run a build, and give its errors if it fails.
fn build(command: &mut Command) -> Result<(), String> {
	let output = command
		.env("CARGO_NET_OFFLINE", "true")
		.env("CARGO_TERM_COLOR", "never")
		.stdin(Stdio::null())
		.output()
		.map_err(|e| format!("failed to run cargo: {e}"))?;
	if output.status.success() {
		return Ok(());
	}
	let text = String::from_utf8_lossy(&output.stderr).into_owned();
	let from = text.find("error").unwrap_or(0);
	Err(text[from..].chars().take(1500).collect())
}

// Every combination of features.

const FEATURES: [&str; 5] = ["std", "alloc", "log", "serial2", "rs4xx"];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Combination {
	features: Vec<String>,
	release: bool,
	/// Which directory to build in, to be able to run several builds at the same time.
	dir: usize,
}

fn check_combination(case: &Combination, tags: &mut Tags) -> Result<(), String> {
	tags.nontrivial();
	tags.tag(if case.release { "release" } else { "debug" });
	let mut command = Command::new("cargo");
	command
		.args(["check", "--offline", "--locked", "-q", "--lib", "-p", "dynamixel2", "--no-default-features"])
		.args(["--manifest-path", "/repo/Cargo.toml", "--features", &case.features.join(",")])
		.arg("--target-dir")
		.arg(target_dir().join(format!("combo-{}", case.dir)));
	if case.release {
		command.arg("--release");
	}
	build(&mut command).map_err(|e| format!("the library does not build with the features {:?}: {e}", case.features))
}

fn combinations(shard: usize) -> impl Iterator<Item = Combination> {
	(0..32usize).skip(shard).step_by(SHARDS).map(move |bits| Combination {
		features: (0..5).filter(|i| bits >> i & 1 == 1).map(|i| FEATURES[i].to_string()).collect(),
		release: false,
		dir: shard,
	})
}

// Builds of the executor.

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Variant {
	name: String,
	features: String,
	release: bool,
}

impl Variant {
	pub fn new(name: &str, features: &str, release: bool) -> Self {
		Self {
			name: name.into(),
			features: features.into(),
			release,
		}
	}
}

/// The first one is what the others are compared with.
pub const VARIANTS: [(&str, &str, bool); 8] = [
	("default", "dxl-default", false),
	("none", "", false),
	("alloc", "dxl-alloc", false),
	("std", "dxl-std", false),
	("serial2-rs4xx", "dxl-serial2-rs4xx", false),
	("default-log", "dxl-default,dxl-log", false),
	("default-release", "dxl-default", true),
	("log-release", "dxl-log", true),
];

pub fn check_executor(case: &Variant, tags: &mut Tags) -> Result<(), String> {
	tags.nontrivial();
	let mut command = Command::new("cargo");
	command
		.current_dir(verif_dir().join("harness"))
		.args(["build", "--offline", "--locked", "-q", "--bin", "featdiff", "--no-default-features"])
		.args(["--features", &case.features])
		.arg("--target-dir")
		.arg(target_dir().join(format!("fd-{}", case.name)));
	if case.release {
		command.arg("--release");
	}
	build(&mut command).map_err(|e| {
		format!(
			"code that builds with the default features of the library does not build in variant {} (features {:?}): {e}",
			case.name, case.features
		)
	})
}

fn executor(name: &str, release: bool) -> PathBuf {
	target_dir().join(format!("fd-{name}")).join(if release { "release" } else { "debug" }).join("featdiff")
}

// Comparison.

pub struct Worker {
	name: &'static str,
	child: Child,
	stdin: Option<ChildStdin>,
	stdout: BufReader<ChildStdout>,
}

impl Worker {
	fn start(name: &'static str, release: bool) -> Self {
		Self::start_with(name, release, &[])
	}

	pub fn start_with(name: &'static str, release: bool, args: &[&str]) -> Self {
		let mut child = Command::new(executor(name, release))
			.args(args)
			.stdin(Stdio::piped())
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
			.unwrap_or_else(|e| panic!("failed to start the executor {name}: {e}"));
		Self {
			name,
			stdin: child.stdin.take(),
			stdout: BufReader::new(child.stdout.take().unwrap()),
			child,
		}
	}

	pub fn send(&mut self, line: &str) {
		// A worker that is gone is noticed when reading.
		let stdin = self.stdin.as_mut().unwrap();
		stdin.write_all(line.as_bytes()).and_then(|()| stdin.flush()).ok();
	}

	pub fn receive<T: serde::de::DeserializeOwned>(&mut self) -> Option<T> {
		let mut line = String::new();
		self.stdout.read_line(&mut line).ok()?;
		serde_json::from_str(&line).ok()
	}
}

impl Drop for Worker {
	fn drop(&mut self) {
		self.stdin = None;
		self.child.kill().ok();
		self.child.wait().ok();
	}
}

thread_local! {
	static WORKERS: RefCell<Vec<Worker>> = const { RefCell::new(vec![]) };
}

fn compare(name: &str, got: &[Happened], reference: &[Happened]) -> Result<(), String> {
	for (i, (a, b)) in got.iter().zip(reference).enumerate() {
		ensure!(
			a == b,
			"{name}: step {i} differs: {:?}, wrote {}, at {} ns with {} bytes pending; expected {:?}, wrote {}, at {} ns with {} bytes pending",
			a.result,
			hex(&a.written),
			a.now,
			a.pending,
			b.result,
			hex(&b.written),
			b.now,
			b.pending
		);
	}
	ensure!(got.len() == reference.len(), "{name}: ended after {} steps, expected {}", got.len(), reference.len());
	Ok(())
}

fn check_same(case: &Exchange, tags: &mut Tags) -> Result<(), String> {
	let line = serde_json::to_string(case).unwrap() + "\n";
	let mut workers = WORKERS.with(|w| w.take());
	if workers.is_empty() {
		workers = VARIANTS.iter().map(|(name, _, release)| Worker::start(name, *release)).collect();
	}
	for w in &mut workers {
		w.send(&line);
	}
	let reports: Vec<(&str, Option<Report>)> = workers.iter_mut().map(|w| (w.name, w.receive())).collect();
	if let Some((name, _)) = reports.iter().find(|(_, r)| r.is_none()) {
		// They are dropped, and started again for the next case.
		return Err(format!("the build {name} crashed"));
	}
	WORKERS.with(|w| w.replace(workers));
	let reference = reports[0].1.as_ref().unwrap();
	for (name, report) in &reports {
		let report = report.as_ref().unwrap();
		compare(&format!("build {name} compared with the default build"), &report.allocated, &reference.allocated)?;
		compare(&format!("build {name} with static buffers compared with allocated ones"), &report.fixed, &report.allocated)?;
	}
	let results = || reference.allocated.iter().skip(1).map(|x| x.result.as_str());
	tags.tag_if(results().any(|x| x == "panic"), "panic");
	tags.tag_if(results().any(|x| x.contains("ok id=")), "answered");
	tags.tag_if(results().any(|x| x.contains("Timeout")), "timeout");
	tags.tag_if(results().any(|x| x.contains("Crc")), "bad crc");
	tags.tag_if(results().any(|x| x.contains("Buffer")), "small buffer");
	tags.tag_if(results().any(|x| x.contains("Instruction {")), "instruction received");
	tags.nontrivial_if(reference.allocated.len() > 1 || matches!(case, Exchange::Crc { .. }));
	Ok(())
}

fn delay() -> BoxedStrategy<u32> {
	prop_oneof![6 => Just(0u32), 2 => 0u32..2000, 1 => 0u32..60_000].boxed()
}

fn cut_up(data: Vec<Vec<u8>>, cuts: Vec<u16>, delays: Vec<u32>) -> Vec<Burst> {
	gen::split(&data.concat(), &cuts)
		.into_iter()
		.enumerate()
		.map(|(i, x)| (if delays.is_empty() { 0 } else { delays[i % delays.len()] }, x))
		.collect()
}

/// A correct answer to a command.
fn correct(cmd: &Cmd, errors: &[u8], fill: u8) -> Vec<Vec<u8>> {
	let reply = |i: usize, id: u8, n: u16| {
		Reply {
			id,
			error: errors[i % errors.len()],
			data: (0..n.min(60_000)).map(|j| (j as u8).wrapping_mul(fill)).collect(),
		}
		.frame()
	};
	match cmd.expect() {
		Expect::None => vec![],
		Expect::Replies(list) => list.into_iter().enumerate().map(|(i, (id, n))| reply(i, id, n)).collect(),
		Expect::Scan => (0..4).map(|i| reply(i, i as u8 + 1, 3)).collect(),
	}
}

/// Commands, including ones that violate a precondition.
fn command() -> BoxedStrategy<Cmd> {
	let big = gen::Cfg {
		data: 300,
		count: 300,
		motors: 12,
		..gen::CFG
	};
	prop_oneof![
		16 => gen::cmd(gen::CFG),
		3 => gen::cmd(big),
		1 => (gen::addr(), 0u16..6, proptest::collection::vec((gen::any_id(), gen::data(0, 6)), 0..4))
			.prop_map(|(addr, count, writes)| Cmd::SyncWriteBytes { addr, count, writes }),
		1 => proptest::collection::vec((0u8..4, gen::addr(), gen::data(0, 6)), 0..4).prop_map(|writes| Cmd::BulkWrite { writes }),
		1 => (proptest::collection::vec((0u8..4, gen::addr(), 0u16..9), 0..4), gen::via()).prop_map(|(reads, via)| Cmd::BulkRead { reads, via }),
		1 => (proptest::collection::vec(0u8..4, 0..4), gen::addr(), 0u16..9, gen::via())
			.prop_map(|(ids, addr, count, via)| Cmd::SyncReadBytes { ids, addr, count, via }),
		1 => (gen::any_id(), any::<u8>(), 65_500usize..65_560, any::<u8>())
			.prop_map(|(id, instruction, n, fill)| Cmd::RawWrite { id, instruction, params: vec![fill; n] }),
		1 => (gen::any_id(), gen::addr(), gen::ty()).prop_map(|(id, addr, ty)| Cmd::Read { id, addr, ty }),
		1 => (gen::motor_id(), gen::addr(), 65_000u16..=65_535).prop_map(|(id, addr, count)| Cmd::ReadBytes { id, addr, count }),
	]
	.boxed()
}

fn client_step() -> BoxedStrategy<ClientStep> {
	let errors = proptest::collection::vec(gen::error_byte(), 1..4);
	(
		command(),
		(prop_oneof![6 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)], errors, any::<u8>(), proptest::collection::vec(gen::piece(true, 20), 0..5)),
		(gen::cuts(), prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(delay(), 1..5)]),
		prop_oneof![5 => Just(None), 1 => (0u8..4).prop_map(Some)],
		prop_oneof![12 => Just(None), 1 => (0u8..8, 0u32..100).prop_map(Some)],
		any::<proptest::sample::Index>(),
	)
		.prop_map(|(cmd, (mode, errors, fill, pieces), (cuts, delays), take, fault, at)| {
			let mut data = match mode {
				2 => vec![],
				_ => correct(&cmd, &errors, fill),
			};
			if mode > 0 {
				let i = at.index(data.len() + 1);
				data.splice(i..i, pieces.iter().map(|x| x.bytes()));
			}
			ClientStep {
				answer: cut_up(data, cuts, delays),
				cmd,
				take,
				fault,
			}
		})
		.boxed()
}

fn size() -> BoxedStrategy<u32> {
	prop_oneof![4 => Just(1024u32), 3 => 10u32..80, 2 => 0u32..300, 1 => Just(70_000u32)].boxed()
}

fn baud() -> BoxedStrategy<u32> {
	prop_oneof![4 => proptest::sample::select(vec![9600u32, 57_600, 1_000_000, 4_500_000]), 1 => 1u32.., 1 => Just(1u32), 1 => gen::magic(u32::MAX).prop_map(|x| x.max(1))].boxed()
}

fn exchanges() -> BoxedStrategy<Exchange> {
	let device_step = prop_oneof![
		8 => (proptest::sample::select(vec![ReadForm::Raw, ReadForm::Borrowed, ReadForm::Owned]), delay()).prop_map(|(form, timeout_us)| DeviceStep::Read { form, timeout_us }),
		1 => (gen::any_id(), gen::error_byte(), gen::data_sized(120)).prop_map(|(id, error, data)| DeviceStep::Status { id, error, data }),
		1 => any::<u8>().prop_map(DeviceStep::StatusOk),
		1 => any::<(u8, u8)>().prop_map(|(a, b)| DeviceStep::StatusError(a, b)),
	];
	prop_oneof![
		6 => (baud(), size(), size(), proptest::collection::vec(client_step(), 1..6))
			.prop_map(|(baud, read, write, steps)| Exchange::Client { baud, read, write, steps }),
		3 => (
			(size(), size()),
			proptest::collection::vec(gen::piece(false, 30), 0..8),
			(gen::cuts(), prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(delay(), 1..5)]),
			proptest::collection::vec(device_step, 1..8)
		)
			.prop_map(|((read, write), pieces, (cuts, delays), steps)| Exchange::Device {
				read,
				write,
				traffic: cut_up(pieces.iter().map(|x| x.bytes()).collect(), cuts, delays),
				steps,
			}),
		1 => (any::<u16>(), gen::data_sized(400)).prop_map(|(initial, data)| Exchange::Crc { initial, data }),
	]
	.boxed()
}

/// Everything a client can send in one go, answered correctly, in all builds.
fn plain_exchanges() -> BoxedStrategy<Exchange> {
	let step = (gen::cmd(gen::CFG), gen::error_byte(), any::<u8>()).prop_map(|(cmd, error, fill)| ClientStep {
		answer: correct(&cmd, &[error], fill).into_iter().map(|x| (0, x)).collect(),
		cmd,
		take: None,
		fault: None,
	});
	(baud(), proptest::collection::vec(step, 1..8))
		.prop_map(|(baud, steps)| Exchange::Client {
			baud,
			read: 2048,
			write: 2048,
			steps,
		})
		.boxed()
}

pub fn c27(ctx: &mut Ctx) {
	ctx.rule = "all combinations of features are compiled; exchanges (valid, damaged, arbitrary input, violated preconditions) are executed by eight builds of the library with allocated and with static buffers, and everything observable is compared; non-trivial: something was executed (or compiled)";
	ctx.scale = 1.0;
	ctx.hang_limit = 300;
	ctx.enumerate("combinations", combinations, check_combination);
	ctx.enumerate(
		"executors",
		|s| {
			VARIANTS.iter().skip(s).step_by(SHARDS).map(|(name, features, release)| Variant {
				name: name.to_string(),
				features: features.to_string(),
				release: *release,
			})
		},
		check_executor,
	);
	if ctx.violation.is_some() {
		return;
	}
	if ctx.replay.as_ref().is_some_and(|x| x.0.starts_with("exchanges")) {
		for (name, features, release) in VARIANTS {
			let variant = Variant {
				name: name.into(),
				features: features.into(),
				release,
			};
			check_executor(&variant, &mut Tags::default()).expect("failed to build the executors");
		}
	}
	ctx.pbt("exchanges", ctx.n(60_000, 600_000), exchanges, check_same);
	ctx.pbt("exchanges_plain", ctx.n(20_000, 200_000), plain_exchanges, check_same);
}
