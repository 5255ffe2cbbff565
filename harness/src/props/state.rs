//! Static buffers, the baud rate and errors: C25, C26, C31.

use super::*;
use crate::gen;
use crate::refm;
use crate::runner::{Ctx, Tags, SHARDS};
use crate::sim::{Call, SimError};
use crate::{ensure, ensure_eq};
use dynamixel2::static_buffer;
use dynamixel2::{
	BufferTooSmallError, ExpectedCount, InvalidChecksum, InvalidHeaderPrefix, InvalidInstruction, InvalidMessage, InvalidPacketId,
	InvalidParameterCount, MotorError, ReadError, TransferError, WriteError,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

// C25

type MakeBuffer = fn() -> &'static mut [u8];

fn generic<T>(_: T) -> &'static mut [u8] {
	static_buffer!(24)
}

macro_rules! occurrences {
	($($n:literal)*) => {
		/// Occurrences of the macro with their sizes.
		const OCCURRENCES: &[(usize, MakeBuffer)] = &[
			$(($n, || static_buffer!($n)),)*
			// Twice on the same line, in a loop, in a block, and in a generic function.
			(5, || { let (a, _) = (static_buffer!(5), 0); a }),
			(6, || loop { break static_buffer!(6) }),
			(7, || { if std::hint::black_box(true) { static_buffer!(7) } else { static_buffer!(9) } }),
		];
	}
}

occurrences! {
	1 2 3 4 8 8 8 8 10 10 16 16 17 31 32 32 33 64 64 64 100 127 128 128 128 128 129 255 256 256 512 1000
	1024 4096 65535 65536 0 11 1 1 1 1 2 2 2 2 64 64 64 64 64 64 64 64 64 64 64 64 64
}

const GENERIC: usize = OCCURRENCES.len();

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StaticCase {
	/// For each thread, which occurrences to evaluate.
	threads: Vec<Vec<u8>>,
	/// Make the threads do each of their steps at the same time.
	lockstep: bool,
	/// How many more times to do each evaluation.
	repeat: u32,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Evaluation {
	occurrence: usize,
	/// Address, length and whether all was zero, if it did not panic.
	buffer: Option<(usize, usize, bool)>,
	/// Whether the buffer still held what was put in it at the end.
	intact: bool,
}

/// Runs in a process of its own.
fn static_worker(arg: &str) -> i32 {
	std::panic::set_hook(Box::new(|_| ()));
	let case: StaticCase = serde_json::from_str(arg).expect("invalid case");
	let n = case.threads.len();
	let arrived = AtomicUsize::new(0);
	let steps = case.threads.iter().map(|x| x.len()).max().unwrap_or(0);
	let results: Vec<Vec<Evaluation>> = std::thread::scope(|scope| {
		let handles: Vec<_> = case
			.threads
			.iter()
			.enumerate()
			.map(|(t, list)| {
				let arrived = &arrived;
				scope.spawn(move || {
					let mut out = Vec::new();
					let mut mine: Vec<(usize, &'static mut [u8], u8)> = Vec::new();
					for step in 0..steps {
						if case.lockstep {
							arrived.fetch_add(1, Ordering::SeqCst);
							let mut spins = 0u32;
							while arrived.load(Ordering::SeqCst) < (step + 1) * n {
								spins += 1;
								if spins % 1000 == 0 {
									std::thread::yield_now();
								}
								std::hint::spin_loop();
							}
						}
						let Some(i) = list.get(step) else { continue };
						let i = usize::from(*i) % (OCCURRENCES.len() + 1);
						for round in 0..=case.repeat {
							let result = std::panic::catch_unwind(|| match i {
								GENERIC if (t + round as usize) % 2 == 0 => generic(0u8),
								GENERIC => generic("x"),
								_ => OCCURRENCES[i].1(),
							});
							let buffer = result.ok().map(|buffer| {
								let zero = buffer.iter().all(|x| *x == 0);
								let info = (buffer.as_ptr() as usize, buffer.len(), zero);
								// Nobody else may touch this.
								let pattern = (t * 37 + step + 1) as u8 | 1;
								buffer.fill(pattern);
								mine.push((out.len(), buffer, pattern));
								info
							});
							// Repeated failures are not interesting.
							if round == 0 || buffer.is_some() {
								out.push(Evaluation {
									occurrence: i,
									buffer,
									intact: true,
								});
							}
						}
					}
					(out, mine)
				})
			})
			.collect();
		let all: Vec<_> = handles.into_iter().map(|h| h.join().expect("thread failed")).collect();
		all.into_iter()
			.map(|(mut out, mine)| {
				for (i, buffer, pattern) in mine {
					out[i].intact = buffer.iter().all(|x| *x == pattern);
				}
				out
			})
			.collect()
	});
	println!("{}", serde_json::to_string(&results).unwrap());
	0
}

pub fn worker(args: &[String]) -> i32 {
	match args.first().map(|x| x.as_str()) {
		Some("static_buffer") => static_worker(&args[1]),
		_ => 2,
	}
}

fn check_c25(case: &StaticCase, tags: &mut Tags) -> Result<(), String> {
	let exe = std::env::current_exe().expect("own executable");
	let output = std::process::Command::new(exe)
		.args(["worker", "static_buffer", &serde_json::to_string(case).unwrap()])
		.output()
		.expect("failed to run worker");
	ensure!(
		output.status.success(),
		"the process evaluating static buffers failed: {:?} {}",
		output.status,
		String::from_utf8_lossy(&output.stderr)
	);
	let results: Vec<Vec<Evaluation>> = serde_json::from_slice(&output.stdout).map_err(|e| format!("unusable output: {e}"))?;
	let mut ranges: Vec<(usize, usize, usize)> = Vec::new();
	let mut repeated = false;
	for i in 0..=OCCURRENCES.len() {
		let all: Vec<&Evaluation> = results.iter().flatten().filter(|x| x.occurrence == i).collect();
		let got: Vec<&Evaluation> = all.iter().copied().filter(|x| x.buffer.is_some()).collect();
		if all.is_empty() {
			continue;
		}
		repeated |= all.len() > 1 || case.repeat > 0;
		ensure!(
			got.len() == 1,
			"occurrence {i} of static_buffer was evaluated (at least) {} times and yielded a buffer {} times",
			all.len(),
			got.len()
		);
		let (address, len, zero) = got[0].buffer.unwrap();
		let want = OCCURRENCES.get(i).map_or(24, |x| x.0);
		ensure_eq!(len, want, "size of the buffer of occurrence {}", i);
		ensure!(zero, "the buffer of occurrence {i} was not zeroed");
		ensure!(got[0].intact, "the buffer of occurrence {i} was modified by someone else");
		if len > 0 {
			ranges.push((address, address + len, i));
		}
	}
	ranges.sort_unstable();
	for pair in ranges.windows(2) {
		ensure!(pair[0].1 <= pair[1].0, "occurrences {} and {} of static_buffer share memory", pair[0].2, pair[1].2);
	}
	tags.tag_if(case.threads.len() > 1, "threads");
	tags.tag_if(case.lockstep && case.threads.len() > 1, "lockstep");
	tags.nontrivial_if(repeated);
	tags.sub_evals(results.iter().map(|x| x.len() as u64).sum::<u64>().saturating_sub(1));
	Ok(())
}

pub fn c25(ctx: &mut Ctx) {
	ctx.scale = 4.0;
	ctx.rule = "at least one occurrence is evaluated more than once";
	ctx.assumptions.push("races are provoked by letting threads evaluate the same occurrence at the same time, not enumerated".into());
	let count = OCCURRENCES.len() as u8;
	let n = ctx.n(400, 20_000);
	ctx.pbt(
		"sequences",
		n,
		move || {
			(
				proptest::collection::vec(proptest::collection::vec(0..=count, 0..12), 1..6),
				any::<bool>(),
				prop_oneof![9 => Just(0u32), 1 => 0u32..600],
			)
				.prop_map(|(threads, lockstep, repeat)| StaticCase { threads, lockstep, repeat })
				.boxed()
		},
		check_c25,
	);
	// Everyone goes for the same ones.
	let n = ctx.n(200, 10_000);
	ctx.pbt_shards(
		"races",
		n,
		2,
		move || {
			(2usize..5, Just((0..=count).collect::<Vec<u8>>()).prop_shuffle(), any::<bool>())
				.prop_map(|(n, list, _)| StaticCase {
					threads: vec![list; n],
					lockstep: true,
					repeat: 0,
				})
				.boxed()
		},
		check_c25,
	);
	// So often that a counter would wrap.
	ctx.enumerate(
		"very_often",
		move |shard| {
			[0, 8, count].into_iter().skip(shard).step_by(SHARDS).map(|i| StaticCase {
				threads: vec![vec![i]],
				lockstep: false,
				repeat: 70_000,
			})
		},
		check_c25,
	);
}

// C26

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum BaudStep {
	Set(u32),
	/// The port refuses.
	Refuse(u32, bool),
	/// Wait for a reply that does not come.
	Timeout(Cmd),
	/// A complete exchange.
	Exchange(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BaudCase {
	device: bool,
	initial: u32,
	/// The error the port reports when asked for the rate at creation.
	fault: Option<bool>,
	/// After creation the port no longer tells its rate (but accepts changes).
	#[serde(default)]
	mute: bool,
	steps: Vec<BaudStep>,
}

fn fault(timeout: bool) -> SimError {
	if timeout {
		SimError::Timeout
	} else {
		SimError::Fault(77)
	}
}

enum Either {
	Client(SimClient),
	Device(SimDevice),
}

impl Either {
	fn baud_rate(&self) -> u32 {
		match self {
			Either::Client(x) => x.baud_rate(),
			Either::Device(x) => x.baud_rate(),
		}
	}
	fn set_baud_rate(&mut self, rate: u32) -> Result<(), SimError> {
		match self {
			Either::Client(x) => x.set_baud_rate(rate),
			Either::Device(x) => x.set_baud_rate(rate),
		}
	}
}

fn check_c26(case: &BaudCase, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(case.initial);
	if let Some(timeout) = case.fault {
		tags.tag("creation fails");
		tags.nontrivial();
		port.with(|c| c.baud_fault = Some(fault(timeout)));
		let errors = [
			Client::with_buffers(port.clone(), vec![0u8; 64], vec![0u8; 64]).err(),
			Client::new(port.clone()).err(),
			Device::with_buffers(port.clone(), vec![0u8; 64], vec![0u8; 64]).err(),
			Device::new(port.clone()).err(),
		];
		for (i, e) in errors.into_iter().enumerate() {
			ensure!(e == Some(fault(timeout)), "creation {i} with a port that fails gives {e:?}");
		}
		port.with(|c| c.baud_fault = None);
	}
	let small = case.steps.len() % 2 == 0;
	let mut it = match (case.device, small) {
		(true, true) => Either::Device(device(&port, 64, 64)),
		(true, false) => Either::Device(Device::new(port.clone()).map_err(|e| format!("creation failed: {e:?}"))?),
		(false, true) => Either::Client(client(&port, 400, 400)),
		(false, false) => Either::Client(Client::new(port.clone()).map_err(|e| format!("creation failed: {e:?}"))?),
	};
	let mut rate = case.initial;
	if case.mute {
		tags.tag("rate cannot be asked");
		port.with(|c| c.query_fault = Some(fault(false)));
	}
	ensure_eq!(it.baud_rate(), rate, "initial baud rate");
	ensure_eq!(port.with(|c| c.baud), rate, "baud rate of the port after creation");
	for (i, step) in case.steps.iter().enumerate() {
		match step {
			BaudStep::Set(new) => {
				port.with(|c| c.log.clear());
				ensure_eq!(it.set_baud_rate(*new), Ok(()), "step {}: result of setting {}", i, new);
				rate = *new;
				let asked: Vec<u32> = port.with(|c| {
					c.log
						.iter()
						.filter_map(|x| match x {
							Call::SetBaud(x) => Some(*x),
							_ => None,
						})
						.collect()
				});
				ensure!(!asked.is_empty() && asked.iter().all(|x| *x == rate), "step {i}: the port was asked for {asked:?} instead of {rate}");
				tags.tag("set");
				tags.nontrivial();
			},
			BaudStep::Refuse(new, timeout) => {
				port.with(|c| c.baud_fault = Some(fault(*timeout)));
				let result = it.set_baud_rate(*new);
				port.with(|c| c.baud_fault = None);
				ensure_eq!(result, Err(fault(*timeout)), "step {}: result of setting a rate that the port refuses", i);
				tags.tag("refused");
				tags.nontrivial();
			},
			BaudStep::Timeout(cmd) => {
				let Either::Client(client) = &mut it else { continue };
				port.with(|c| c.on_write = None);
				let before = port.with(|c| c.now);
				let outcome = exec(client, cmd);
				let took = port.with(|c| c.now) - before;
				if outcome.started.is_err() {
					// The default buffers may be too small.
					continue;
				}
				let want: u128 = match cmd {
					// Dropping the finished scan may wait once more.
					Cmd::Scan => refm::transfer_ns(14 * 253, rate) + 34_000_000,
					_ => reply::expected_replies(cmd).iter().map(|x| refm::reply_budget_ns(x.1.into(), rate)).sum(),
				};
				let slack = 2_000 * (outcome.items.len() as u128 + 1);
				let ok = match cmd {
					Cmd::Scan => took >= want && took <= 2 * want + slack,
					_ => took >= want && took <= want + slack,
				};
				ensure!(ok, "step {i}: {} without any reply took {took} ns at {rate} baud, expected {want}", cmd.name());
				tags.tag("timeout");
				tags.tag_if(i > 0, "timeout after change");
			},
			BaudStep::Exchange(id) => match &mut it {
				Either::Client(client) => {
					let reply = refm::status(*id, 0, &[1, 2, 3]);
					answer(&port, vec![reply]);
					let outcome = exec(client, &Cmd::Ping { id: *id });
					ensure!(outcome.items.len() == 1 && outcome.items[0].is_ok(), "step {i}: ping gives {outcome:?}");
				},
				Either::Device(device) => {
					let now = port.with(|c| c.now);
					port.with(|c| c.push(now, &refm::frame(*id, 1, &[])));
					let result = device.read(Duration::from_millis(1));
					ensure!(result.is_ok(), "step {i}: the device received {result:?}");
				},
			},
		}
		ensure_eq!(it.baud_rate(), rate, "baud rate after step {}", i);
		if i + 1 == case.steps.len() {
			let calls = port.with(|c| c.log.len());
			let printed = match &it {
				Either::Client(x) => format!("{x:?}"),
				Either::Device(x) => format!("{x:?}"),
			};
			ensure!(printed.contains(&rate.to_string()), "the debug format {printed} does not mention the baud rate {rate}");
			ensure_eq!(port.with(|c| c.log.len()), calls, "serial port calls after printing");
		}
		ensure_eq!(port.with(|c| c.baud), rate, "baud rate of the port after step {}", i);
	}
	let inner = match it {
		Either::Client(x) => x.into_serial_port(),
		Either::Device(x) => x.into_serial_port(),
	};
	ensure_eq!(inner.with(|c| c.baud), rate, "baud rate of the port at the end");
	Ok(())
}

pub fn c26(ctx: &mut Ctx) {
	ctx.scale = 80.0;
	ctx.rule = "the rate is changed, or a change or creation is refused";
	let n = ctx.n(10_000, 500_000);
	let cfg = gen::Cfg {
		count: 60,
		data: 10,
		motors: 4,
		broadcast: false,
		raw: false,
	};
	ctx.pbt(
		"histories",
		n,
		move || {
			let rate = || reply::baud();
			let cmd = prop_oneof![3 => gen::single(cfg), 2 => gen::multi(cfg), 1 => Just(Cmd::Scan)];
			let step = prop_oneof![
				3 => rate().prop_map(BaudStep::Set),
				2 => (rate(), any::<bool>()).prop_map(|(x, t)| BaudStep::Refuse(x, t)),
				3 => cmd.prop_map(BaudStep::Timeout),
				1 => gen::motor_id().prop_map(BaudStep::Exchange),
			];
			(
				gen::chance(30),
				rate(),
				prop_oneof![5 => Just(None), 1 => any::<bool>().prop_map(Some)],
				gen::chance(30),
				proptest::collection::vec(step, 0..10),
			)
				.prop_map(|(device, initial, fault, mute, steps)| BaudCase {
					mute,
					device,
					initial,
					fault,
					steps,
				})
				.boxed()
		},
		check_c26,
	);
}

// C31

/// The simplest errors.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Leaf {
	Buffer { required: usize, total: usize },
	Motor(u8),
	Prefix { actual: [u8; 4], expected: [u8; 4] },
	Checksum { message: u16, computed: u16 },
	Id { actual: u8, expected: Option<u8> },
	Instruction { actual: u8, expected: u8 },
	/// 0: exactly, 1: at most, 2: at least.
	Count { actual: usize, expected: usize, kind: u8 },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum AnyError {
	Leaf(Leaf),
	/// An error of the port: reading, writing, or discarding.
	Port(u8, u32),
}

/// An error of a port with an easily recognized text.
#[derive(Debug, Clone, Copy, PartialEq)]
struct PortError(u32);

impl std::fmt::Display for PortError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "port failure <{}>", self.0)
	}
}

type R = ReadError<PortError>;
type W = WriteError<PortError>;
type T = TransferError<PortError>;

fn expected_count(expected: usize, kind: u8) -> ExpectedCount {
	match kind % 3 {
		0 => ExpectedCount::Exact(expected),
		1 => ExpectedCount::Max(expected),
		_ => ExpectedCount::Min(expected),
	}
}

fn leaf_of_invalid(e: &InvalidMessage) -> Leaf {
	match e {
		InvalidMessage::InvalidHeaderPrefix(e) => Leaf::Prefix {
			actual: e.actual,
			expected: e.expected,
		},
		InvalidMessage::InvalidChecksum(e) => Leaf::Checksum {
			message: e.message,
			computed: e.computed,
		},
		InvalidMessage::InvalidPacketId(e) => Leaf::Id {
			actual: e.actual,
			expected: e.expected,
		},
		InvalidMessage::InvalidInstruction(e) => Leaf::Instruction {
			actual: e.actual,
			expected: e.expected,
		},
		InvalidMessage::InvalidParameterCount(e) => {
			let (expected, kind) = match e.expected {
				ExpectedCount::Exact(x) => (x, 0),
				ExpectedCount::Max(x) => (x, 1),
				ExpectedCount::Min(x) => (x, 2),
			};
			Leaf::Count {
				actual: e.actual,
				expected,
				kind,
			}
		},
	}
}

fn leaf_of_buffer(e: &BufferTooSmallError) -> Leaf {
	Leaf::Buffer {
		required: e.required_size,
		total: e.total_size,
	}
}

/// The variant of a wide error and the error within.
fn of_read(e: &R) -> (&'static str, AnyError) {
	match e {
		ReadError::BufferFull(e) => ("read", AnyError::Leaf(leaf_of_buffer(e))),
		ReadError::Io(e) => ("read", AnyError::Port(0, e.0)),
		ReadError::InvalidMessage(e) => ("read", AnyError::Leaf(leaf_of_invalid(e))),
		ReadError::MotorError(e) => ("read", AnyError::Leaf(Leaf::Motor(e.raw))),
	}
}

fn of_write(e: &W) -> (&'static str, AnyError) {
	match e {
		WriteError::BufferTooSmall(e) => ("write", AnyError::Leaf(leaf_of_buffer(e))),
		WriteError::Write(e) => ("write", AnyError::Port(1, e.0)),
		WriteError::DiscardBuffer(e) => ("write", AnyError::Port(2, e.0)),
	}
}

fn of_transfer(e: &T) -> (&'static str, AnyError) {
	match e {
		TransferError::ReadError(e) => of_read(e),
		TransferError::WriteError(e) => of_write(e),
	}
}

/// Values that a text contains after each other, as words or numbers.
fn words(text: &str) -> Vec<String> {
	text.split(|c: char| !c.is_ascii_alphanumeric())
		.filter(|x| !x.is_empty())
		.map(|x| x.to_ascii_lowercase())
		.collect()
}

fn is_value(word: &str, value: u64) -> bool {
	let hex = word.strip_prefix("0x").unwrap_or(word);
	(word.parse::<u64>() == Ok(value)) || (u64::from_str_radix(hex, 16) == Ok(value))
}

/// The values that a text should mention, with words that may introduce each of them.
fn values(leaf: &Leaf) -> Vec<(u64, &'static [&'static str])> {
	match leaf {
		Leaf::Buffer { required, total } => vec![(*required as u64, &["need"]), (*total as u64, &["size", "is"])],
		Leaf::Motor(raw) => vec![(u64::from(*raw), &[])],
		Leaf::Prefix { actual, expected } => expected.iter().chain(actual).map(|x| (u64::from(*x), &[][..])).collect(),
		Leaf::Checksum { message, computed } => vec![(u64::from(*message), &["claims"]), (u64::from(*computed), &["computed"])],
		Leaf::Id { actual, expected } => {
			let mut out: Vec<(u64, &'static [&'static str])> = vec![(u64::from(*actual), &["got"])];
			out.extend(expected.map(|x| (u64::from(x), &["expected"][..])));
			out
		},
		Leaf::Instruction { actual, expected } => vec![(u64::from(*actual), &["got"]), (u64::from(*expected), &["expected"])],
		Leaf::Count { actual, expected, .. } => vec![(*actual as u64, &["got"]), (*expected as u64, &["expected", "exactly", "most", "least"])],
	}
}

fn number(word: &str) -> bool {
	word.chars().next().is_some_and(|c| c.is_ascii_digit())
}

fn check_text(leaf: &Leaf, text: &str) -> Result<(), String> {
	let words = words(text);
	for (value, introductions) in values(leaf) {
		ensure!(words.iter().any(|w| is_value(w, value)), "the text {text:?} for {leaf:?} does not mention {value}");
		for intro in introductions {
			let Some(at) = words.iter().position(|w| w == intro) else { continue };
			if let Some(next) = words[at + 1..].iter().take(3).find(|w| number(w)) {
				ensure!(is_value(next, value), "the text {text:?} for {leaf:?} has {next} after {intro:?} instead of {value}");
			}
		}
	}
	if let Leaf::Count { kind, .. } = leaf {
		let wrong: &[&str] = match kind % 3 {
			0 => &["at most", "at least"],
			1 => &["exactly", "at least"],
			_ => &["exactly", "at most"],
		};
		for x in wrong {
			ensure!(!text.contains(x), "the text {text:?} for {leaf:?} contains {x:?}");
		}
	}
	if let Leaf::Prefix { actual, expected } = leaf {
		// The bytes have to be there in order.
		let numbers: Vec<&String> = words.iter().filter(|w| w.len() <= 4 && u64::from_str_radix(w.trim_start_matches("0x"), 16).is_ok()).collect();
		for bytes in [actual, expected] {
			ensure!(
				numbers.windows(4).any(|w| w.iter().zip(bytes).all(|(w, b)| is_value(w, u64::from(*b)))),
				"the text {text:?} for {leaf:?} does not contain {bytes:?}"
			);
		}
	}
	Ok(())
}

fn check_debug(text: &str) -> Result<(), String> {
	ensure!(!text.is_empty(), "empty debug text");
	Ok(())
}

fn check_leaf(leaf: &Leaf, tags: &mut Tags) -> Result<(), String> {
	let want = AnyError::Leaf(leaf.clone());
	macro_rules! into {
		($e:expr, $conv:ident, $W:ty, $side:literal) => {{
			let wide: $W = $e.into();
			ensure!($conv(&wide) == ($side, want.clone()), "{leaf:?} was converted to {wide:?}");
			check_text(leaf, &wide.to_string())?;
			check_debug(&format!("{wide:?} {wide:#?}"))?;
			wide
		}};
	}
	// Everything that can be part of an invalid message.
	macro_rules! invalid {
		($e:expr) => {{
			let e = $e;
			check_text(leaf, &e.to_string())?;
			check_debug(&format!("{e:?} {e:#?}"))?;
			let m: InvalidMessage = e.clone().into();
			ensure_eq!(leaf_of_invalid(&m), *leaf, "conversion to an invalid message");
			check_text(leaf, &m.to_string())?;
			into!(e.clone(), of_read, R, "read");
			into!(e.clone(), of_transfer, T, "read");
			into!(m.clone(), of_transfer, T, "read");
			let r = into!(m, of_read, R, "read");
			into!(r, of_transfer, T, "read");
		}};
	}
	tags.nontrivial();
	match leaf.clone() {
		Leaf::Buffer { required, total } => {
			let make = || BufferTooSmallError {
				required_size: required,
				total_size: total,
			};
			check_text(leaf, &make().to_string())?;
			check_debug(&format!("{:?}", make()))?;
			let r = into!(make(), of_read, R, "read");
			into!(r, of_transfer, T, "read");
			let w = into!(make(), of_write, W, "write");
			into!(w, of_transfer, T, "write");
			// The check helper.
			match BufferTooSmallError::check(required, total) {
				Ok(()) => ensure!(required <= total, "a buffer of {total} bytes is taken to have room for {required}"),
				Err(e) => ensure!(required > total && leaf_of_buffer(&e) == *leaf, "check({required}, {total}) gives {e:?}"),
			}
		},
		Leaf::Motor(raw) => {
			let e = MotorError { raw };
			check_text(leaf, &e.to_string())?;
			ensure_eq!(e.error_number(), raw % 128, "error number of {}", raw);
			ensure_eq!(e.alert(), raw >= 128, "alert of {}", raw);
			let text = format!("{e:?}");
			ensure!(text.contains(&e.alert().to_string()), "the alert is missing in {text:?}");
			ensure!(
				words(&text).iter().any(|w| is_value(w, (raw % 128).into()) || is_value(w, raw.into())),
				"the error is missing in {text:?}"
			);
			into!(e.clone(), of_transfer, T, "read");
			let r = into!(e, of_read, R, "read");
			into!(r, of_transfer, T, "read");
			match MotorError::check(raw) {
				Ok(()) => ensure!(raw & 0x7F == 0, "error {raw} was ignored"),
				Err(e) => ensure!(raw & 0x7F != 0 && e.raw == raw, "check({raw}) gives {e:?}"),
			}
		},
		Leaf::Prefix { actual, expected } => {
			invalid!(InvalidHeaderPrefix { actual, expected });
			match InvalidHeaderPrefix::check(&actual, expected) {
				Ok(()) => ensure!(actual == expected, "{actual:?} was taken for {expected:?}"),
				Err(e) => ensure!(actual != expected && e.actual == actual && e.expected == expected, "check({actual:?}, {expected:?}) gives {e:?}"),
			}
		},
		Leaf::Checksum { message, computed } => invalid!(InvalidChecksum { message, computed }),
		Leaf::Id { actual, expected } => {
			invalid!(InvalidPacketId { actual, expected });
			if let Some(x) = expected {
				match InvalidPacketId::check(actual, x) {
					Ok(()) => ensure!(actual == x, "ID {actual} was taken for {x}"),
					Err(e) => ensure!(actual != x && e.actual == actual && e.expected == expected, "check({actual}, {x}) gives {e:?}"),
				}
				match InvalidPacketId::check_ignore_broadcast(actual, x) {
					Ok(()) => ensure!(actual == x || x == 254, "ID {actual} was taken for {x}"),
					Err(e) => ensure!(
						actual != x && x != 254 && e.actual == actual && e.expected == expected,
						"check_ignore_broadcast({actual}, {x}) gives {e:?}"
					),
				}
			}
		},
		Leaf::Instruction { actual, expected } => {
			invalid!(InvalidInstruction { actual, expected });
			match InvalidInstruction::check(actual, expected) {
				Ok(()) => ensure!(actual == expected, "instruction {actual} was taken for {expected}"),
				Err(e) => ensure!(
					actual != expected && e.actual == actual && e.expected == expected,
					"check({actual}, {expected}) gives {e:?}"
				),
			}
		},
		Leaf::Count { actual, expected, kind } => {
			let limit = expected_count(expected, kind);
			invalid!(InvalidParameterCount {
				actual,
				expected: limit.clone(),
			});
			let result = match kind % 3 {
				0 => InvalidParameterCount::check(actual, expected),
				1 => InvalidParameterCount::check_max(actual, expected),
				_ => InvalidParameterCount::check_min(actual, expected),
			};
			let fine = match kind % 3 {
				0 => actual == expected,
				1 => actual <= expected,
				_ => actual >= expected,
			};
			match result {
				Ok(()) => ensure!(fine, "a count of {actual} was accepted for {limit:?}"),
				Err(e) => ensure!(!fine && e.actual == actual && e.expected == limit, "checking {actual} for {limit:?} gives {e:?}"),
			}
		},
	}
	Ok(())
}

fn check_c31(case: &AnyError, tags: &mut Tags) -> Result<(), String> {
	match case {
		AnyError::Leaf(leaf) => check_leaf(leaf, tags),
		AnyError::Port(kind, x) => {
			tags.tag("port error");
			tags.nontrivial();
			let text = PortError(*x).to_string();
			let wide: T = match kind {
				0 => {
					let e = R::Io(PortError(*x));
					ensure!(e.to_string().contains(&text), "the text {:?} does not contain {text:?}", e.to_string());
					e.into()
				},
				_ => {
					let e = if *kind == 1 { W::Write(PortError(*x)) } else { W::DiscardBuffer(PortError(*x)) };
					ensure!(e.to_string().contains(&text), "the text {:?} does not contain {text:?}", e.to_string());
					e.into()
				},
			};
			let side = if *kind == 0 { "read" } else { "write" };
			ensure!(of_transfer(&wide) == (side, case.clone()), "{case:?} was converted to {wide:?}");
			ensure!(wide.to_string().contains(&text), "the text {:?} does not contain {text:?}", wide.to_string());
			let source: Box<dyn std::error::Error> = Box::new(wide);
			ensure!(source.to_string().contains(&text), "the text {:?} does not contain {text:?}", source.to_string());
			check_debug(&format!("{source:?}"))
		},
	}
}

fn leaf() -> BoxedStrategy<Leaf> {
	let size = || prop_oneof![0usize..300, any::<u16>().prop_map(usize::from), any::<usize>(), Just(usize::MAX)];
	let close = move || {
		(size(), -2i64..3, size(), any::<bool>()).prop_map(|(a, d, b, near)| {
			let b = if near { (a as i64).saturating_add(d).max(0) as usize } else { b };
			(a, b)
		})
	};
	let same = |p: BoxedStrategy<u8>| (p.clone(), p, gen::chance(30)).prop_map(|(a, b, same)| (a, if same { a } else { b }));
	prop_oneof![
		close().prop_map(|(required, total)| Leaf::Buffer { required, total }),
		any::<u8>().prop_map(Leaf::Motor),
		(any::<[u8; 4]>(), any::<[u8; 4]>(), 0u8..6).prop_map(|(mut actual, expected, same)| {
			if same > 0 {
				// Differ in one place, or not at all.
				let x = actual;
				actual = expected;
				if let Some(i) = usize::from(same).checked_sub(2) {
					actual[i.min(3)] = x[i.min(3)];
				}
			}
			Leaf::Prefix { actual, expected }
		}),
		any::<(u16, u16)>().prop_map(|(message, computed)| Leaf::Checksum { message, computed }),
		(same(gen::any_id()), gen::chance(80)).prop_map(|((actual, expected), some)| Leaf::Id {
			actual,
			expected: some.then_some(expected),
		}),
		same(any::<u8>().boxed()).prop_map(|(actual, expected)| Leaf::Instruction { actual, expected }),
		(close(), 0u8..3).prop_map(|((actual, expected), kind)| Leaf::Count { actual, expected, kind }),
	]
	.boxed()
}

pub fn c31(ctx: &mut Ctx) {
	ctx.scale = 40.0;
	ctx.rule = "every error is";
	ctx.enumerate("all_motor_errors", |shard| (0..=255u8).skip(shard).step_by(SHARDS).map(|x| AnyError::Leaf(Leaf::Motor(x))), check_c31);
	ctx.enumerate(
		"all_id_pairs",
		|shard| {
			(0..=u16::MAX)
				.skip(shard)
				.step_by(SHARDS)
				.map(|x| {
					AnyError::Leaf(Leaf::Id {
						actual: (x % 256) as u8,
						expected: Some((x / 256) as u8),
					})
				})
		},
		check_c31,
	);
	ctx.enumerate(
		"all_instruction_pairs",
		|shard| {
			(0..=u16::MAX)
				.skip(shard)
				.step_by(SHARDS)
				.map(|x| {
					AnyError::Leaf(Leaf::Instruction {
						actual: (x % 256) as u8,
						expected: (x / 256) as u8,
					})
				})
		},
		check_c31,
	);
	let n = ctx.n(30_000, 2_000_000);
	ctx.pbt(
		"errors",
		n,
		|| {
			prop_oneof![
				9 => leaf().prop_map(AnyError::Leaf),
				1 => (0u8..3, any::<u32>()).prop_map(|(kind, x)| AnyError::Port(kind, x)),
			]
			.boxed()
		},
		check_c31,
	);
}
