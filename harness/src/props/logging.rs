//! What is logged: C32.

use super::device::{traffic, Traffic};
use super::features::{check_executor, Variant, Worker, VARIANTS};
use super::*;
use crate::cmd::{Expect, Reply};
use crate::diff::{Burst, ClientStep, DeviceStep, Exchange, ReadForm, Report};
use crate::ensure;
use crate::gen;
use crate::runner::{Tags, SHARDS};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

const BUILD: &str = "default-log";
const SIZE: usize = 4096;

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Asked {
	cmd: Cmd,
	/// The error bytes and contents of the replies.
	errors: Vec<u8>,
	fill: u8,
	/// What comes before each reply.
	noise: Vec<Vec<u8>>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum LogCase {
	Client { steps: Vec<Asked>, cuts: Vec<u16> },
	Device { traffic: Vec<Traffic>, cuts: Vec<u16>, form: ReadForm, statuses: Vec<(u8, u8, Vec<u8>)> },
}

/// What has to be in the log.
#[derive(Debug, Clone, PartialEq, Eq)]
enum Entry {
	Sent(Vec<u8>),
	Received(Vec<u8>),
	/// Not necessarily logged.
	Damaged(Vec<u8>),
	Garbage(Vec<u8>),
}

fn bursts(data: Vec<u8>, cuts: &[u16]) -> Vec<Burst> {
	gen::split(&data, cuts).into_iter().map(|x| (0, x)).collect()
}

/// The exchange, and what has to be logged when it is executed once.
fn prepare(case: &LogCase) -> (Exchange, Vec<Entry>) {
	let mut log = vec![];
	let exchange = match case {
		LogCase::Client { steps, cuts } => {
			let steps = steps
				.iter()
				.map(|step| {
					log.push(Entry::Sent(step.cmd.frame()));
					let list = match step.cmd.expect() {
						Expect::None => vec![],
						Expect::Replies(list) => list,
						Expect::Scan => (1..=step.noise.len() as u8).map(|id| (id, 3)).collect(),
					};
					let mut answer = vec![];
					for (i, (id, count)) in list.into_iter().enumerate() {
						let noise = step.noise.get(i).cloned().unwrap_or_default();
						let reply = Reply {
							id,
							error: step.errors[i % step.errors.len()],
							data: (0..count).map(|x| (x as u8).wrapping_mul(step.fill) ^ step.fill).collect(),
						}
						.frame();
						answer.extend_from_slice(&noise);
						answer.extend_from_slice(&reply);
						log.push(Entry::Garbage(noise));
						log.push(Entry::Received(reply));
					}
					ClientStep {
						cmd: step.cmd.clone(),
						take: None,
						answer: bursts(answer, cuts),
						fault: None,
					}
				})
				.collect();
			Exchange::Client {
				baud: 1_000_000,
				read: SIZE as u32,
				write: SIZE as u32,
				steps,
			}
		},
		LogCase::Device { traffic, cuts, form, statuses } => {
			for x in traffic {
				log.push(match x {
					Traffic::Noise(x) => Entry::Garbage(x.clone()),
					Traffic::BadCrc { .. } => Entry::Damaged(x.bytes()),
					_ => Entry::Received(x.bytes()),
				});
			}
			let data: Vec<u8> = traffic.iter().flat_map(|x| x.bytes()).collect();
			let read = DeviceStep::Read { form: *form, timeout_us: 10 };
			// Enough to read everything, and then once more.
			let mut steps = vec![read; traffic.len() + 1];
			for (id, error, data) in statuses {
				log.push(Entry::Sent(crate::refm::status(*id, *error, data)));
				steps.push(DeviceStep::Status {
					id: *id,
					error: *error,
					data: data.clone(),
				});
			}
			Exchange::Device {
				read: SIZE as u32,
				write: SIZE as u32,
				traffic: bursts(data, cuts),
				steps,
			}
		},
	};
	(exchange, log)
}

/// The list of bytes in a message, if there is any.
fn listed(text: &str) -> Option<Vec<u8>> {
	let list = text.get(text.find('[')? + 1..text.rfind(']')?)?;
	list.split([',', ' ']).filter(|x| !x.is_empty()).map(|x| u8::from_str_radix(x, 16).ok()).collect()
}

fn is_packet(bytes: &[u8]) -> bool {
	bytes.starts_with(&[0xFFu8, 0xFF, 0xFD, 0x00])
}

/// Put everything that was skipped without a packet in between together.
fn merge(list: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
	let mut out: Vec<Vec<u8>> = vec![];
	for x in list {
		match out.last_mut() {
			_ if x.is_empty() => (),
			Some(last) if !is_packet(last) && !is_packet(&x) => last.extend(x),
			_ => out.push(x),
		}
	}
	out
}

/// Whether the log is as expected, with or without the packets of which the checksum is wrong.
fn compare(logged: &[Vec<u8>], expected: &[Entry], damaged: bool) -> Result<(), String> {
	let expected: Vec<&Entry> = expected.iter().filter(|x| damaged || !matches!(x, Entry::Damaged(_))).collect();
	let plain = merge(
		expected
			.iter()
			.map(|x| match x {
				Entry::Sent(x) | Entry::Received(x) | Entry::Damaged(x) | Entry::Garbage(x) => x.clone(),
			})
			.collect(),
	);
	let mut sent = expected.iter().filter(|x| !matches!(x, Entry::Garbage(_))).map(|x| matches!(x, Entry::Sent(_)));
	for (i, want) in plain.iter().enumerate() {
		let Some(got) = logged.get(i) else {
			return Err(format!("{} is not in the log", hex(want)));
		};
		// Of received packets the checksum is not logged.
		let sent = is_packet(want) && sent.next().unwrap();
		ensure!(
			got == want || is_packet(want) && !sent && *got == want[..want.len() - 2],
			"entry {i} in the log is {}, but {} was {}",
			hex(got),
			hex(want),
			if sent {
				"sent"
			} else if is_packet(want) {
				"received"
			} else {
				"skipped"
			}
		);
	}
	ensure!(logged.len() == plain.len(), "{} is in the log without reason", hex(&logged[plain.len()]));
	Ok(())
}

thread_local! {
	static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

fn check_log(case: &LogCase, tags: &mut Tags) -> Result<(), String> {
	let (exchange, once) = prepare(case);
	if once.iter().any(|x| matches!(x, Entry::Sent(x) | Entry::Received(x) if x.len() > SIZE)) {
		tags.tag("too large");
		return Ok(());
	}
	let mut worker = WORKER.with(|w| w.take()).unwrap_or_else(|| Worker::start_with(BUILD, false, &["--log"]));
	worker.send(&(serde_json::to_string(&exchange).unwrap() + "\n"));
	let Some((report, records)) = worker.receive::<(Report, Vec<String>)>() else {
		return Err("the library crashed".into());
	};
	WORKER.with(|w| w.replace(Some(worker)));
	for x in &report.allocated {
		ensure!(x.result != "panic", "the library panicked");
	}
	let logged = merge(records.iter().filter_map(|x| listed(x)).collect());
	// Executed with two kinds of buffers.
	let expected = [once.clone(), once.clone()].concat();
	compare(&logged, &expected, true).or_else(|e| compare(&logged, &expected, false).map_err(|_| e))?;
	let count = |f: fn(&Entry) -> bool| once.iter().filter(|x| f(x)).count();
	let sent = count(|x| matches!(x, Entry::Sent(_)));
	let received = count(|x| matches!(x, Entry::Received(_)));
	let garbage = count(|x| matches!(x, Entry::Garbage(x) if !x.is_empty()));
	tags.tag_if(sent > 0, "sent");
	tags.tag_if(received > 0, "received");
	tags.tag_if(received > 1, "several received");
	tags.tag_if(garbage > 0, "garbage");
	tags.tag_if(count(|x| matches!(x, Entry::Damaged(_))) > 0, "damaged");
	tags.nontrivial_if(sent + received > 1 || received > 0 && garbage > 0);
	Ok(())
}

/// Bytes in which no packet can start.
fn noise() -> BoxedStrategy<Vec<u8>> {
	prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0u8..0xFF, 1..20)].boxed()
}

fn log_case() -> BoxedStrategy<LogCase> {
	let asked = (
		prop_oneof![4 => gen::cmd(gen::CFG), 1 => gen::cmd(gen::Cfg { data: 400, count: 600, ..gen::CFG })],
		proptest::collection::vec(gen::error_byte(), 1..4),
		prop_oneof![any::<u8>(), Just(0u8), Just(0xFFu8)],
		proptest::collection::vec(noise(), 0..6),
	)
		.prop_map(|(cmd, errors, fill, noise)| Asked { cmd, errors, fill, noise });
	let piece = prop_oneof![
		4 => prop_oneof![4 => traffic(60), 1 => traffic(300)].prop_filter_map("arbitrary noise", |x| (!matches!(x, Traffic::Noise(_))).then_some(x)),
		1 => noise().prop_map(Traffic::Noise),
	];
	let status = (gen::any_id(), gen::error_byte(), gen::data(0, 60));
	let form = proptest::sample::select(vec![ReadForm::Raw, ReadForm::Borrowed, ReadForm::Owned]);
	prop_oneof![
		(proptest::collection::vec(asked, 1..6), gen::cuts()).prop_map(|(steps, cuts)| LogCase::Client { steps, cuts }),
		(proptest::collection::vec(piece, 0..10), gen::cuts(), form, proptest::collection::vec(status, 0..3))
			.prop_map(|(traffic, cuts, form, statuses)| LogCase::Device { traffic, cuts, form, statuses }),
	]
	.boxed()
}

pub fn c32(ctx: &mut Ctx) {
	ctx.rule = "exchanges of clients and devices are executed by a build with logging, and the bytes listed in the log messages are compared with what was sent, received and skipped; non-trivial: several packets, or a packet and garbage";
	ctx.assumptions = vec![
		"bytes are logged as a list of hexadecimal numbers in square brackets; the rest of the text is not checked".into(),
		"packets with a wrong checksum may be logged or not, and the checksum of received packets may be left out".into(),
	];
	ctx.scale = 1.0;
	ctx.hang_limit = 300;
	let (name, features, release) = *VARIANTS.iter().find(|x| x.0 == BUILD).unwrap();
	ctx.enumerate(
		"executor",
		|s| std::iter::once(Variant::new(name, features, release)).skip(s).step_by(SHARDS),
		check_executor,
	);
	if ctx.violation.is_some() {
		return;
	}
	if ctx.replay.as_ref().is_some_and(|x| x.0 == "log") {
		check_executor(&Variant::new(name, features, release), &mut Tags::default()).expect("failed to build the executor");
	}
	ctx.pbt("log", ctx.n(100_000, 1_500_000), log_case, check_log);
}
