//! Incoming streams of bytes: C08, C09, C10, C11, C18.

use super::device::{device_read, form, Form};
use super::reply::{answered_big, answered_or_scan, big_read, sound};
use super::*;
use crate::cmd::{exec_n, norm_read, norm_write, Bad, Good, Item, Reply};
use crate::gen::{self, Piece};
use crate::refm::{self, ins, BROADCAST};
use crate::runner::{Ctx, Tags, SHARDS};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

const LONG: Duration = Duration::from_secs(1);

fn concat(pieces: &[Piece]) -> Vec<u8> {
	pieces.iter().flat_map(|x| x.bytes()).collect()
}

fn read_status(client: &mut SimClient) -> Item {
	client
		.read_status_response_timeout(LONG)
		.map(|s| Good {
			id: s.packet_id(),
			alert: s.alert(),
			data: s.parameters().to_vec(),
		})
		.map_err(norm_read)
}

// C08

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Splitting {
	cmd: Cmd,
	replies: Vec<Reply>,
	/// What comes before the replies, between them (for all of them), and after them.
	before: Vec<Piece>,
	between: Vec<Piece>,
	after: Vec<Piece>,
	cuts: Vec<u16>,
	/// Nanoseconds between the parts.
	pause: u32,
	buffer: u16,
}

/// All results from a client that receives the given bursts.
fn client_results(case: &Splitting, bursts: &[Vec<u8>], pause: u32) -> (crate::cmd::Outcome, Vec<Item>) {
	let port = SimPort::new(BAUD);
	let list = bursts.to_vec();
	port.on_write(move |_, now| {
		list.iter()
			.enumerate()
			.map(|(i, data)| Rx {
				at: now + i as u128 * u128::from(pause),
				data: data.clone(),
			})
			.collect()
	});
	let mut client = client(&port, case.buffer.into(), 4096);
	let outcome = exec_n(&mut client, &case.cmd, 200, &mut |_| ());
	// Everything that is left.
	let mut rest = Vec::new();
	loop {
		let item = read_status(&mut client);
		let done = item == Err(Bad::Timeout) || case.buffer < 10 || rest.len() > 500;
		rest.push(item);
		if done {
			break;
		}
	}
	(outcome, rest)
}

fn check_c08(case: &Splitting, tags: &mut Tags) -> Result<(), String> {
	let mut stream = concat(&case.before);
	for reply in &case.replies {
		stream.extend(reply.frame());
		stream.extend(concat(&case.between));
	}
	stream.extend(concat(&case.after));
	let whole = client_results(case, &[stream.clone()], 0);
	let bytes: Vec<Vec<u8>> = stream.iter().map(|b| vec![*b]).collect();
	let pieces = gen::split(&stream, &case.cuts);
	tags.tag(case.cmd.name());
	tags.tag_if(pieces.len() > 1, "split");
	tags.tag_if(whole.0.items.iter().any(|x| x.is_ok()), "success");
	tags.tag_if(whole.0.items.iter().chain(&whole.1).any(|x| matches!(x, Err(Bad::Crc { .. }))), "crc error");
	tags.tag_if(whole.0.items.iter().chain(&whole.1).any(|x| matches!(x, Err(Bad::ReadBuffer { .. }))), "buffer full");
	tags.nontrivial_if(whole.0.items.iter().chain(&whole.1).any(|x| *x != Err(Bad::Timeout)));
	// The whole stream must arrive within the shortest deadline.
	let limit = 30_000_000 / (stream.len() as u32 + 1);
	let ways = [("byte for byte", &bytes, 0), ("in pieces", &pieces, 0), ("in pieces with pauses", &pieces, case.pause.min(limit))];
	tags.sub_evals(ways.len() as u64);
	for (name, bursts, pause) in ways {
		let other = client_results(case, bursts, pause);
		ensure!(
			other == whole,
			"received in one go, {:?} resulted in {whole:?}, but {name} ({} parts) in {other:?}. Received data: {}",
			case.cmd,
			bursts.len(),
			hex(&stream)
		);
	}
	Ok(())
}

fn pieces(status: bool, max: usize) -> BoxedStrategy<Vec<Piece>> {
	prop_oneof![2 => Just(vec![]), 2 => proptest::collection::vec(gen::piece(status, 10), 1..=max)].boxed()
}

fn buffer() -> BoxedStrategy<u16> {
	prop_oneof![2 => Just(1024u16), 1 => 10u16..80].boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DeviceSplitting {
	traffic: Vec<Piece>,
	reads: Vec<Form>,
	cuts: Vec<u16>,
	buffer: u16,
}

fn check_c08_device(case: &DeviceSplitting, tags: &mut Tags) -> Result<(), String> {
	let stream = concat(&case.traffic);
	let results = |bursts: &[Vec<u8>]| {
		let port = SimPort::new(BAUD);
		port.with(|c| {
			for b in bursts {
				c.push(0, b);
			}
		});
		let mut device = device(&port, case.buffer.into(), 64);
		case.reads.iter().map(|form| device_read(&mut device, *form, LONG)).collect::<Vec<_>>()
	};
	let whole = results(&[stream.clone()]);
	let bytes: Vec<Vec<u8>> = stream.iter().map(|b| vec![*b]).collect();
	let pieces = gen::split(&stream, &case.cuts);
	tags.nontrivial_if(whole.iter().any(|x| *x != Err(Bad::Timeout)));
	tags.tag_if(whole.iter().any(|x| x.is_ok()), "success");
	tags.tag_if(whole.iter().any(|x| matches!(x, Err(Bad::Crc { .. }))), "crc error");
	tags.tag_if(whole.iter().any(|x| matches!(x, Err(Bad::ReadBuffer { .. }))), "buffer full");
	tags.sub_evals(2);
	for (name, bursts) in [("byte for byte", bytes), ("in pieces", pieces)] {
		let other = results(&bursts);
		ensure!(
			other == whole,
			"received in one go, the reads resulted in {whole:?}, but {name} in {other:?}. Received data: {}",
			hex(&stream)
		);
	}
	Ok(())
}

/// Every division of a stream into two (and for short streams, three) parts.
fn check_c08_every(case: &Splitting, tags: &mut Tags) -> Result<(), String> {
	let mut stream = concat(&case.before);
	for reply in &case.replies {
		stream.extend(reply.frame());
		stream.extend(concat(&case.between));
	}
	stream.extend(concat(&case.after));
	let whole = client_results(case, &[stream.clone()], 0);
	tags.tag(case.cmd.name());
	tags.nontrivial();
	let n = stream.len();
	for i in 0..=n {
		for j in i..=(if n <= 60 { n } else { i }) {
			tags.sub_evals(1);
			let bursts: Vec<Vec<u8>> = [&stream[..i], &stream[i..j], &stream[j..]]
				.iter()
				.filter(|x| !x.is_empty())
				.map(|x| x.to_vec())
				.collect();
			let other = client_results(case, &bursts, 0);
			ensure!(
				other == whole,
				"received in one go, {:?} resulted in {whole:?}, but divided at {i} and {j} in {other:?}. Received data: {}",
				case.cmd,
				hex(&stream)
			);
		}
	}
	Ok(())
}

fn every_splits() -> Vec<Splitting> {
	use crate::cmd::{Ty, Via};
	let reply = |id: u8, data: &[u8]| Reply {
		id,
		error: 0,
		data: data.to_vec(),
	};
	let mut out = Vec::new();
	let cmds = [
		(Cmd::Ping { id: 1 }, vec![reply(1, &[1, 2, 3])]),
		(Cmd::Read { id: 1, addr: 4, ty: Ty::U32 }, vec![reply(1, &[0xFF, 0xFF, 0xFD, 0x00])]),
		(Cmd::ReadBytes { id: 1, addr: 4, count: 6 }, vec![reply(1, &[0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD])]),
		(Cmd::Write { id: 1, addr: 4, ty: Ty::U8, val: vec![1] }, vec![reply(1, &[])]),
		(
			Cmd::SyncReadBytes { ids: vec![1, 2], addr: 4, count: 2, via: Via::Next },
			vec![reply(1, &[0xFF, 0xFF]), reply(2, &[0xFD, 0xFF])],
		),
		(Cmd::SyncRead { ids: vec![1, 2, 3], addr: 4, ty: Ty::U8, via: Via::Iter }, vec![reply(1, &[1]), reply(2, &[2]), reply(3, &[3])]),
		(Cmd::BulkRead { reads: vec![(1, 2, 3), (3, 4, 1)], via: Via::Borrow }, vec![reply(1, &[1, 2, 3]), reply(3, &[4])]),
		(Cmd::Scan, vec![reply(1, &[1, 2, 3]), reply(3, &[4, 5, 6])]),
	];
	let extras = [
		vec![],
		vec![Piece::Bytes(vec![0xFF, 0xFF, 0xFD])],
		vec![Piece::Bytes(vec![0xFF])],
		vec![Piece::Bytes(vec![0x12, 0xFF, 0xFF, 0xFF, 0xFD])],
		vec![Piece::Mutated { id: 1, instruction: 0x55, params: vec![0, 1, 2], at: 9, xor: 4 }],
		vec![Piece::Short { id: 1, len: 2, xor: 0 }],
		vec![Piece::Short { id: 1, len: 3, xor: 0 }],
		vec![Piece::Header { id: 1, len: 2000, rest: vec![0x55, 0] }],
		vec![Piece::Frame { id: 1, instruction: 3, params: vec![1, 2, 3] }],
	];
	for (cmd, replies) in cmds {
		for extra in &extras {
			for place in 0..3 {
				let at = |i: usize| if i == place { extra.clone() } else { vec![] };
				out.push(Splitting {
					cmd: cmd.clone(),
					replies: replies.clone(),
					before: at(0),
					between: at(1),
					after: at(2),
					cuts: vec![],
					pause: 0,
					buffer: 256,
				});
			}
		}
	}
	out
}

pub fn c08(ctx: &mut Ctx) {
	ctx.rule = "commands with replies surrounded by noise, damaged and unrelated packets, received in one go, byte for byte and in generated pieces (with and without pauses); for a fixed set, in every possible division into two or three parts; non-trivial: something other than a timeout results";
	ctx.pbt(
		"client",
		ctx.n(40_000, 500_000),
		|| {
			(answered_or_scan(gen::cmd(gen::CFG)), pieces(true, 3), pieces(true, 2), pieces(true, 3), gen::cuts(), any::<u32>(), buffer())
				.prop_map(|((cmd, replies), before, between, after, cuts, pause, buffer)| Splitting {
					cmd,
					replies,
					before,
					between,
					after,
					cuts,
					pause,
					buffer,
				})
				.boxed()
		},
		check_c08,
	);
	ctx.pbt(
		"device",
		ctx.n(40_000, 500_000),
		|| {
			let piece = prop_oneof![3 => gen::piece(false, 12), 1 => gen::piece(true, 12)];
			(proptest::collection::vec(piece, 1..8), proptest::collection::vec(form(), 1..10), gen::cuts(), buffer())
				.prop_map(|(traffic, reads, cuts, buffer)| DeviceSplitting {
					traffic,
					reads,
					cuts,
					buffer,
				})
				.boxed()
		},
		check_c08_device,
	);
	// Large packets, and a lot of them.
	ctx.pbt(
		"client_large",
		ctx.n(2_000, 30_000),
		|| {
			let surroundings = || prop_oneof![2 => Just(vec![]), 1 => gen::big(1, 1500).prop_map(|x| vec![Piece::Bytes(x)]), 1 => pieces(true, 3)].boxed();
			let size = prop_oneof![3 => Just(4096u16), 1 => 300u16..1500];
			(answered_big(big_read(800), gen::error_byte), surroundings(), surroundings(), surroundings(), gen::cuts(), any::<u32>(), size)
				.prop_map(|((cmd, replies), before, between, after, cuts, pause, buffer)| Splitting {
					cmd,
					replies,
					before,
					between,
					after,
					cuts,
					pause,
					buffer,
				})
				.boxed()
		},
		check_c08,
	);
	ctx.pbt(
		"device_large",
		ctx.n(2_000, 30_000),
		|| {
			let large = (gen::motor_or_broadcast(), prop_oneof![3 => proptest::sample::select(vec![0x03u8, 0x04, 0x83, 0x93]), 1 => any::<u8>()], gen::big_len(900).prop_flat_map(|n| gen::big(n, n)))
				.prop_map(|(id, instruction, params)| Piece::Frame { id, instruction, params });
			let piece = prop_oneof![3 => large, 1 => gen::big(1, 1500).prop_map(Piece::Bytes), 1 => gen::piece(false, 12)];
			let size = prop_oneof![3 => Just(4096u16), 1 => 300u16..1500];
			(proptest::collection::vec(piece, 1..5), proptest::collection::vec(form(), 1..8), gen::cuts(), size)
				.prop_map(|(traffic, reads, cuts, buffer)| DeviceSplitting {
					traffic,
					reads,
					cuts,
					buffer,
				})
				.boxed()
		},
		check_c08_device,
	);
	ctx.enumerate("every_division", |s| every_splits().into_iter().skip(s).step_by(SHARDS), check_c08_every);
}

// C09

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Noisy {
	noise: Vec<u8>,
	id: u8,
	/// Error byte and parameters of the status packet, or parameters of an instruction.
	params: Vec<u8>,
	device: bool,
	cuts: Vec<u16>,
	/// Room in the read buffer beyond the size of the packet.
	extra: u8,
}

fn check_noise(case: &Noisy, tags: &mut Tags) -> Result<(), String> {
	let frame = if case.device {
		refm::frame(case.id, 0x03, &case.params)
	} else {
		refm::frame(case.id, ins::STATUS, &case.params)
	};
	let stream = [case.noise.as_slice(), &frame].concat();
	if refm::find_prefix(&stream) != Some(case.noise.len()) {
		// The noise contains a header.
		tags.tag("skipped");
		return Ok(());
	}
	tags.nontrivial_if(!case.noise.is_empty());
	tags.tag_if(case.noise.len() > frame.len() + usize::from(case.extra), "longer than the buffer");
	tags.tag_if(case.noise.last() == Some(&0xFF), "ends in FF");
	tags.tag_if(case.noise.windows(3).any(|x| x == [0xFF, 0xFF, 0xFD]), "partial header");
	let whole = vec![stream.clone()];
	let bytes: Vec<Vec<u8>> = stream.iter().map(|b| vec![*b]).collect();
	let two = vec![case.noise.clone(), frame.clone()];
	let pieces = gen::split(&stream, &case.cuts);
	for (name, bursts) in [("in one go", whole), ("byte for byte", bytes), ("separately", two), ("in pieces", pieces)] {
		tags.sub_evals(1);
		let port = SimPort::new(BAUD);
		port.with(|c| {
			for b in bursts.iter().filter(|x| !x.is_empty()) {
				c.push(0, b);
			}
		});
		let size = frame.len() + usize::from(case.extra);
		let context = || format!("a packet after the noise {} (received {name})", hex(&case.noise));
		if case.device {
			let got = device_read(&mut device(&port, size, 64), Form::Owned, LONG);
			let expected = super::device::parse_instruction(0x03, &case.params).map(|x| (case.id, x));
			ensure!(got == expected, "{} resulted in {got:?}, expected {expected:?}", context());
		} else {
			let got = read_status(&mut client(&port, size, 64));
			let expected = Ok(Good {
				id: case.id,
				alert: case.params[0] & 0x80 != 0,
				data: case.params[1..].to_vec(),
			});
			ensure!(got == expected, "{} resulted in {got:?}, expected {expected:?}", context());
		}
	}
	Ok(())
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Damaged {
	/// Wrong checksum.
	Crc { id: u8, params: Vec<u8>, xor: u16 },
	/// A wrong checksum, and a body that (also) contains a header.
	Embedded { id: u8, before: Vec<u8>, inner: u8, len: u16, after: Vec<u8>, xor: u16 },
	/// A damaged body, with the original checksum.
	Body { id: u8, params: Vec<u8>, at: u16, xor: u8 },
	/// Longer than the read buffer.
	Long { id: u8, more: u16, rest: Vec<u8> },
	/// Too short to be a packet.
	Short { id: u8, len: u8, rest: Vec<u8> },
	/// A status packet without error byte.
	NoError { id: u8 },
	/// Valid checksum, but improperly stuffed.
	Unstuffed { id: u8, body: Vec<u8> },
	/// An intact packet of the wrong type.
	WrongType { id: u8, params: Vec<u8> },
	Noise(Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Recovery {
	damaged: Vec<Damaged>,
	id: u8,
	params: Vec<u8>,
	device: bool,
	cuts: Vec<u16>,
	buffer: u16,
}

/// What the damaged packet should result in: exactly one error, at most one result, or nothing.
#[derive(Debug, Clone, PartialEq, Eq)]
enum Result_ {
	One(Bad),
	OneOf,
	Any,
	Nothing,
}

fn check_recovery(case: &Recovery, tags: &mut Tags) -> Result<(), String> {
	let (instruction, wrong) = if case.device { (0x03, ins::STATUS) } else { (ins::STATUS, 0x03) };
	let mut stream: Vec<u8> = Vec::new();
	// The end of each thing that must not accidentally make a header together with what follows.
	let mut headers: Vec<usize> = Vec::new();
	let mut expected: Vec<Result_> = Vec::new();
	for d in &case.damaged {
		let start = stream.len();
		match d {
			Damaged::Crc { id, params, xor } => {
				headers.push(start);
				let mut f = refm::frame(*id, instruction, params);
				let n = f.len();
				let computed = refm::crc(0, &f[..n - 2]);
				let message = computed ^ xor;
				f[n - 2] = (message % 256) as u8;
				f[n - 1] = (message / 256) as u8;
				stream.extend(f);
				expected.push(Result_::One(Bad::Crc { message, computed }));
				tags.tag("crc");
			},
			Damaged::Embedded { id, before, inner, len, after, xor } => {
				headers.push(start);
				let mut body = vec![instruction];
				body.extend(before);
				body.extend([0xFF, 0xFF, 0xFD, 0x00, *inner, (len % 256) as u8, (len / 256) as u8]);
				body.extend(after);
				let mut f = refm::frame_raw(*id, body.len() as u16 + 2, &body);
				let n = f.len();
				let computed = refm::crc(0, &f[..n - 2]);
				let message = computed ^ xor;
				f[n - 2] = (message % 256) as u8;
				f[n - 1] = (message / 256) as u8;
				if f.len() > case.buffer.into() {
					tags.tag("skipped");
					return Ok(());
				}
				stream.extend(f);
				expected.push(Result_::One(Bad::Crc { message, computed }));
				// What is inside may be reported as well.
				expected.push(Result_::Any);
				tags.tag("header in damaged body");
			},
			Damaged::Body { id, params, at, xor } => {
				headers.push(start);
				let mut f = refm::frame(*id, instruction, params);
				let n = f.len();
				f[7 + usize::from(*at) % (n - 9)] ^= xor;
				let computed = refm::crc(0, &f[..n - 2]);
				let message = u16::from(f[n - 2]) + 256 * u16::from(f[n - 1]);
				stream.extend(f);
				expected.push(Result_::One(Bad::Crc { message, computed }));
				tags.tag("body");
			},
			Damaged::Long { id, more, rest } => {
				headers.push(start);
				let len = (case.buffer - 7).saturating_add(*more);
				stream.extend([0xFF, 0xFF, 0xFD, 0x00, *id, (len % 256) as u8, (len / 256) as u8]);
				stream.extend(rest);
				expected.push(Result_::One(Bad::ReadBuffer {
					required: usize::from(len) + 7,
					total: case.buffer.into(),
				}));
				tags.tag("long");
			},
			Damaged::Short { id, len, rest } => {
				headers.push(start);
				stream.extend([0xFF, 0xFF, 0xFD, 0x00, *id, *len, 0]);
				stream.extend(rest);
				expected.push(Result_::OneOf);
				tags.tag("short");
			},
			Damaged::NoError { id } => {
				headers.push(start);
				stream.extend(refm::frame(*id, ins::STATUS, &[]));
				// A device may skip it silently.
				expected.push(Result_::OneOf);
				tags.tag("no error byte");
			},
			Damaged::Unstuffed { id, body } => {
				headers.push(start);
				stream.extend(refm::frame_raw(*id, body.len() as u16 + 2, body));
				expected.push(Result_::Any);
				tags.tag("unstuffed");
			},
			Damaged::WrongType { id, params } => {
				headers.push(start);
				stream.extend(refm::frame(*id, wrong, params));
				expected.push(if case.device {
					Result_::Nothing
				} else {
					Result_::One(Bad::Instruction {
						actual: wrong,
						expected: instruction,
					})
				});
				tags.tag("wrong type");
			},
			Damaged::Noise(x) => {
				stream.extend(x);
				expected.push(Result_::Nothing);
			},
		}
	}
	headers.push(stream.len());
	stream.extend(refm::frame(case.id, instruction, &case.params));
	// All headers in the stream (outside of packets with a checksum) must be ours.
	let mut i = 0;
	while let Some(n) = refm::find_prefix(&stream[i..]) {
		i += n;
		if !headers.contains(&i) {
			tags.tag("skipped");
			return Ok(());
		}
		let len = usize::from(stream[i + 5]) + 256 * usize::from(stream[i + 6]);
		i += 7;
		if (3..=usize::from(case.buffer) - 7).contains(&len) {
			i += len;
		}
	}
	let bursts = gen::split(&stream, &case.cuts);
	let port = SimPort::new(BAUD);
	port.with(|c| {
		for b in &bursts {
			c.push(0, b);
		}
	});
	tags.nontrivial_if(expected.iter().any(|x| *x != Result_::Nothing));
	let results: Vec<Result<String, Bad>> = {
		let mut results = Vec::new();
		let mut c = client(&port, case.buffer.into(), 64);
		let mut d = device(&port, case.buffer.into(), 64);
		loop {
			let r = if case.device {
				device_read(&mut d, Form::Owned, LONG).map(|x| format!("{x:?}"))
			} else {
				read_status(&mut c).map(|x| format!("{x:?}"))
			};
			let done = r == Err(Bad::Timeout) || results.len() > 200;
			results.push(r);
			if done {
				break;
			}
		}
		results
	};
	let good: Result<String, Bad> = if case.device {
		super::device::parse_instruction(0x03, &case.params).map(|x| format!("{:?}", (case.id, x)))
	} else if case.params[0] & 0x7F != 0 {
		Err(Bad::Motor { raw: case.params[0] })
	} else {
		Ok(format!(
			"{:?}",
			Good {
				id: case.id,
				alert: case.params[0] & 0x80 != 0,
				data: case.params[1..].to_vec(),
			}
		))
	};
	// Match the results with the expectations. Optional results make this ambiguous, so try all ways.
	fn matches(results: &[Result<String, Bad>], expected: &[Result_], good: &Result<String, Bad>) -> bool {
		match expected.first() {
			None => results == [good.clone(), Err(Bad::Timeout)],
			Some(Result_::Nothing) => matches(results, &expected[1..], good),
			Some(Result_::One(e)) => results.first() == Some(&Err(e.clone())) && matches(&results[1..], &expected[1..], good),
			Some(Result_::OneOf) => {
				matches(results, &expected[1..], good)
					|| matches!(results.first(), Some(Err(e)) if *e != Bad::Timeout) && matches(&results[1..], &expected[1..], good)
			},
			Some(Result_::Any) => matches(results, &expected[1..], good) || !results.is_empty() && matches(&results[1..], &expected[1..], good),
		}
	}
	ensure!(
		matches(&results, &expected, &good),
		"reading {} resulted in {results:?}, expected {expected:?} and then {good:?}",
		hex(&stream)
	);
	Ok(())
}

fn damaged(device: bool) -> BoxedStrategy<Damaged> {
	// Status packets need an error byte.
	let params = move |max| {
		gen::data(0, max).prop_map(move |mut x| {
			if !device && x.is_empty() {
				x.push(0);
			}
			x
		})
	};
	let wrong_params = move |max| {
		gen::data(0, max).prop_map(move |mut x| {
			if device && x.is_empty() {
				x.push(0);
			}
			x
		})
	};
	prop_oneof![
		3 => (gen::any_id(), params(10), 1u16..).prop_map(|(id, params, xor)| Damaged::Crc { id, params, xor }),
		3 => (gen::any_id(), params(10), any::<u16>(), 1u8..).prop_map(|(id, params, at, xor)| Damaged::Body { id, params, at, xor }),
		2 => (gen::any_id(), prop_oneof![2 => gen::data(0, 12), 1 => gen::data(30, 100)], gen::any_id(), prop_oneof![0u16..40, any::<u16>()], gen::data(0, 12), 1u16..)
			.prop_map(|(id, before, inner, len, after, xor)| Damaged::Embedded { id, before, inner, len, after, xor }),
		3 => (gen::any_id(), prop_oneof![1u16..5, 1u16..], gen::data(0, 12)).prop_map(|(id, more, rest)| Damaged::Long { id, more, rest }),
		3 => (gen::any_id(), 0u8..3, gen::data(0, 8)).prop_map(|(id, len, rest)| Damaged::Short { id, len, rest }),
		1 => gen::any_id().prop_map(|id| Damaged::NoError { id }),
		1 => (gen::any_id(), gen::data(2, 12)).prop_map(|(id, body)| Damaged::Unstuffed { id, body }),
		1 => (gen::any_id(), wrong_params(10)).prop_map(|(id, params)| Damaged::WrongType { id, params }),
		2 => gen::data(1, 12).prop_map(Damaged::Noise),
	]
	.boxed()
}

pub fn c09(ctx: &mut Ctx) {
	ctx.rule = "packets preceded by noise without a header (all strings up to a length over FF, FD, 00, 01, and generated ones) or by damaged packets, on client and device side, with tight read buffers; non-trivial: there is noise or a damaged packet";
	let max = ctx.n(6, 8) as u32;
	let max = max.min(8);
	ctx.enumerate(
		"all_short_noise",
		move |s| {
			(0..=max)
				.flat_map(|len| (0..4u32.pow(len)).map(move |x| (len, x)))
				.skip(s)
				.step_by(SHARDS)
				.flat_map(|(len, x)| {
					let noise: Vec<u8> = (0..len).map(|i| [0xFF, 0xFD, 0x00, 0x01][(x >> (2 * i)) as usize % 4]).collect();
					[(false, 0), (true, 0), (false, 3), (true, 1)].map(|(device, extra)| Noisy {
						noise: noise.clone(),
						id: [0x07, 0xFF, 0xFD][x as usize % 3],
						params: vec![0x00, 0xFD, 0xFF],
						device,
						cuts: vec![21_000, 43_000],
						extra,
					})
				})
		},
		check_noise,
	);
	ctx.pbt(
		"generated_noise",
		ctx.n(60_000, 800_000),
		|| {
			let noise = prop_oneof![3 => gen::data(0, 30), 1 => gen::data(0, 300)];
			(noise, gen::any_id(), gen::ok_byte(), gen::data(1, 12), any::<bool>(), gen::cuts(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()])
				.prop_map(|(noise, id, error, mut params, device, cuts, extra)| {
					if !device {
						params[0] = error;
					}
					Noisy {
						noise,
						id,
						params,
						device,
						cuts,
						extra,
					}
				})
				.boxed()
		},
		check_noise,
	);
	ctx.pbt(
		"long_noise",
		ctx.n(2_000, 30_000),
		|| {
			// Without the last byte of the header anywhere.
			let noise = (gen::big_len(6_000).prop_flat_map(|n| gen::big(n, n)), any::<bool>(), gen::nasty_byte()).prop_map(|(mut noise, clean, byte)| {
				if clean {
					let byte = if byte == 0 { 0xFF } else { byte };
					for b in &mut noise {
						if *b == 0 {
							*b = byte;
						}
					}
				}
				noise
			});
			(noise, gen::any_id(), gen::ok_byte(), gen::big_len(700).prop_flat_map(|n| gen::big(n.max(1), n.max(1))), any::<bool>(), gen::cuts(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()])
				.prop_map(|(noise, id, error, mut params, device, cuts, extra)| {
					if !device {
						params[0] = error;
					}
					Noisy {
						noise,
						id,
						params,
						device,
						cuts,
						extra,
					}
				})
				.boxed()
		},
		check_noise,
	);
	ctx.pbt(
		"damaged_packets",
		ctx.n(100_000, 1_500_000),
		|| {
			any::<bool>()
				.prop_flat_map(|device| {
					(
						proptest::collection::vec(damaged(device), 1..6),
						gen::any_id(),
						gen::error_byte(),
						gen::data(1, 12),
						Just(device),
						gen::cuts(),
						// All of the packets above fit, even if every third byte is stuffed.
						prop_oneof![Just(40u16), 40u16..60, 40u16..400],
					)
				})
				.prop_map(|(damaged, id, error, mut params, device, cuts, buffer)| {
					if !device {
						params[0] = error;
					}
					Recovery {
						damaged,
						id,
						params,
						device,
						cuts,
						buffer,
					}
				})
				.boxed()
		},
		check_recovery,
	);
}

// C10

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Hostile {
	/// Commands with what is received: bursts with the delay in microseconds before them.
	steps: Vec<(Cmd, Vec<(u32, Piece)>, u8)>,
	cuts: Vec<u16>,
	read: u16,
	write: u16,
	baud: u32,
}

fn bursts(input: &[(u32, Piece)], cuts: &[u16]) -> Vec<(u128, Vec<u8>)> {
	let mut at = 0;
	let mut out = Vec::new();
	for (delay, piece) in input {
		at += u128::from(*delay) * 1000;
		for part in gen::split(&piece.bytes(), cuts) {
			out.push((at, part));
		}
	}
	out
}

fn check_c10(case: &Hostile, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(case.baud);
	let mut client = client(&port, case.read.into(), usize::from(case.write).max(10));
	for (i, (cmd, input, take)) in case.steps.iter().enumerate() {
		let list = bursts(input, &case.cuts);
		let end = list.last().map(|x| x.0).unwrap_or(0);
		let mut first = true;
		port.on_write(move |_, now| {
			if !std::mem::take(&mut first) {
				return vec![];
			}
			list.iter()
				.map(|(at, data)| Rx {
					at: now + at,
					data: data.clone(),
				})
				.collect()
		});
		let take = if *take % 4 == 0 { usize::from(take / 4) } else { usize::MAX };
		// With a buffer that is too small for anything, a scan yields the same error until the caller gives up.
		let take = if case.read < 10 { take.min(100) } else { take };
		let outcome = exec_n(&mut client, cmd, take, &mut |_| ());
		tags.tag(cmd.name());
		tags.nontrivial_if(outcome.items.iter().any(|x| matches!(x, Err(e) if *e != Bad::Timeout)));
		tags.tag_if(outcome.items.iter().any(|x| matches!(x, Err(Bad::ReadBuffer { .. }))), "buffer full");
		tags.tag_if(outcome.items.iter().any(|x| matches!(x, Err(Bad::Crc { .. }))), "crc");
		tags.tag_if(outcome.items.iter().any(|x| matches!(x, Err(Bad::Count { .. }))), "count");
		// Results can be printed.
		if format!("{outcome:?}").is_empty() {
			return Err(format!("no description of the outcome of command {i}"));
		}
		// Extra reads.
		let _ = read_status(&mut client);
		let _ = client.read_status_response(u16::from(case.steps.len() as u8)).map(|_| ());
		// Let everything pass that was still in flight.
		port.with(|c| c.now += end);
	}
	// Now a regular exchange.
	let frame = refm::status(9, 0x80, &[1, 2, 3]);
	answer(&port, vec![frame.clone()]);
	let outcome = exec(&mut client, &Cmd::Ping { id: 9 });
	let expected = if usize::from(case.read) >= frame.len() {
		Ok(Good {
			id: 9,
			alert: true,
			data: vec![1, 2, 3],
		})
	} else if case.read >= 10 {
		Err(Bad::ReadBuffer {
			required: frame.len(),
			total: case.read.into(),
		})
	} else {
		ensure!(matches!(outcome.items[..], [Err(Bad::ReadBuffer { .. })]), "with a tiny buffer, a ping resulted in {outcome:?}");
		return Ok(());
	};
	ensure_eq!(outcome.items, vec![expected], "a regular ping after all of this");
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct HostileDevice {
	input: Vec<(u32, Piece)>,
	cuts: Vec<u16>,
	/// Reads with a timeout in microseconds.
	reads: Vec<(Form, u32)>,
	read: u16,
	write: u16,
	error: u8,
}

fn check_c10_device(case: &HostileDevice, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let list = bursts(&case.input, &case.cuts);
	let end = list.last().map(|x| x.0).unwrap_or(0);
	port.with(|c| {
		let now = c.now;
		for (at, data) in &list {
			c.push(now + at, data);
		}
	});
	let mut device = device(&port, case.read.into(), usize::from(case.write).max(11));
	for (form, timeout) in &case.reads {
		let result = device_read(&mut device, *form, Duration::from_micros((*timeout).into()));
		tags.tag(match &result {
			Ok(_) => "instruction",
			Err(Bad::Timeout) => "timeout",
			Err(Bad::Crc { .. }) => "crc",
			Err(Bad::Count { .. }) => "count",
			Err(Bad::ReadBuffer { .. }) => "buffer full",
			Err(_) => "other",
		});
		tags.nontrivial_if(!matches!(result, Err(Bad::Timeout)));
	}
	port.with(|c| c.now += end);
	device
		.write_status_error(7, case.error)
		.map_err(|e| format!("writing a status: {:?}", norm_write(e)))?;
	let frame = refm::frame(7, 0x03, &[1, 0, 5]);
	port.with(|c| {
		let now = c.now;
		c.push(now, &frame)
	});
	let got = device_read(&mut device, Form::Owned, LONG);
	if usize::from(case.read) >= frame.len() {
		let expected = super::device::parse_instruction(0x03, &[1, 0, 5]).map(|x| (7, x));
		ensure_eq!(got, expected, "a regular instruction after all of this");
	} else {
		ensure!(matches!(got, Err(Bad::ReadBuffer { .. })), "an instruction that does not fit the buffer resulted in {got:?}");
	}
	Ok(())
}

pub fn c10(ctx: &mut Ctx) {
	ctx.rule = "streams of arbitrary bytes and intact, damaged, truncated and malformed packets with arbitrary timing, received during every kind of command and device read with buffers of any size; non-trivial: something other than a timeout results";
	let input = |status: bool| {
		prop_oneof![
			3 => proptest::collection::vec((Just(0u32), gen::piece(status, 20)), 0..6),
			2 => proptest::collection::vec((0u32..20_000, gen::piece(status, 20)), 0..6),
			1 => proptest::collection::vec((0u32..100_000, gen::piece(status, 60)), 0..12),
		]
		.boxed()
	};
	let size = || prop_oneof![1 => 0u16..12, 3 => 10u16..40, 2 => 10u16..300].boxed();
	ctx.pbt(
		"client",
		ctx.n(60_000, 1_000_000),
		move || {
			(
				proptest::collection::vec((gen::cmd(gen::CFG), input(true), any::<u8>()), 1..5),
				gen::cuts(),
				size(),
				prop_oneof![3 => Just(500u16), 1 => 10u16..100],
				prop_oneof![3 => Just(1_000_000u32), 1 => Just(9600), 1 => 1u32..],
			)
				.prop_map(|(steps, cuts, read, write, baud)| Hostile {
					steps,
					cuts,
					read,
					write,
					baud,
				})
				.boxed()
		},
		check_c10,
	);
	// Replies that are correct but for their details.
	ctx.pbt(
		"near_misses",
		ctx.n(40_000, 600_000),
		move || {
			let mutated = answered_or_scan(gen::cmd(gen::CFG)).prop_flat_map(|(cmd, replies)| {
				let pieces: Vec<BoxedStrategy<(u32, Piece)>> = replies
					.into_iter()
					.map(|r| {
						let mut params = vec![r.error];
						params.extend(r.data);
						let id = r.id;
						prop_oneof![
							Just(Piece::Frame { id, instruction: ins::STATUS, params: params.clone() }),
							(any::<u16>(), any::<u8>()).prop_map({
								let params = params.clone();
								move |(at, xor)| Piece::Mutated { id, instruction: ins::STATUS, params: params.clone(), at, xor }
							}),
							(5u16..8, any::<u8>()).prop_map({
								let params = params.clone();
								move |(at, xor)| Piece::Mutated { id, instruction: ins::STATUS, params: params.clone(), at, xor }
							}),
							any::<u16>().prop_map({
								let params = params.clone();
								move |keep| Piece::Truncated { id, instruction: ins::STATUS, params: params.clone(), keep }
							}),
							(0u8..6).prop_map(move |len| Piece::Short { id, len, xor: 0 }),
						]
						.prop_map(|x| (0, x))
						.boxed()
					})
					.collect();
				(Just(cmd), pieces, any::<u8>())
			});
			(proptest::collection::vec(mutated, 1..4), gen::cuts(), size())
				.prop_map(|(steps, cuts, read)| Hostile {
					steps,
					cuts,
					read,
					write: 500,
					baud: BAUD,
				})
				.boxed()
		},
		check_c10,
	);
	ctx.pbt(
		"device",
		ctx.n(60_000, 1_000_000),
		move || {
			(
				prop_oneof![input(false), input(true)],
				gen::cuts(),
				proptest::collection::vec((form(), prop_oneof![0u32..100, 0u32..100_000]), 1..8),
				size(),
				10u16..60,
				any::<u8>(),
			)
				.prop_map(|(input, cuts, reads, read, write, error)| HostileDevice {
					input,
					cuts,
					reads,
					read,
					write,
					error,
				})
				.boxed()
		},
		check_c10_device,
	);
	// Every header with a short length, and every length near the buffer size.
	ctx.enumerate(
		"every_length",
		|s| {
			(0..=600u16).chain([0xFFF0, 0xFFFE, 0xFFFF]).skip(s).step_by(SHARDS).flat_map(|len| {
				[10u16, 16, 100, 300].into_iter().flat_map(move |read| {
					[0x55u8, 0x03, 0xFF].into_iter().map(move |fill| Hostile {
						steps: vec![(
							Cmd::ReadBytes { id: 9, addr: 0, count: 3 },
							vec![(
								0,
								Piece::Header {
									id: 9,
									len,
									rest: vec![fill; 320],
								},
							)],
							1,
						)],
						cuts: vec![],
						read,
						write: 100,
						baud: BAUD,
					})
				})
			})
		},
		check_c10,
	);
}

// C11

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Exchange {
	/// Stale data that arrived before the command.
	stale: Vec<Piece>,
	/// Use the expected replies of the command as stale data as well.
	impostor: bool,
	cmd: Cmd,
	replies: Vec<Reply>,
	/// How many of the replies are really sent.
	sent: u8,
	/// Surplus data after the replies.
	surplus: Vec<Piece>,
	/// Surplus replies that look like those to this command.
	duplicate: bool,
	cuts: Vec<u16>,
	take: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
	exchanges: Vec<Exchange>,
	read: u16,
}

fn check_c11(case: &History, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let mut dirty = client(&port, case.read.into(), 4096);
	for (i, x) in case.exchanges.iter().enumerate() {
		// What is already there.
		let mut stale = Vec::new();
		if x.impostor {
			for r in &x.replies {
				stale.extend(
					Reply {
						data: r.data.iter().map(|b| !b).collect(),
						..r.clone()
					}
					.frame(),
				);
			}
		}
		stale.extend(concat(&x.stale));
		port.with(|c| {
			// Wait for what is still in flight.
			c.now += 10_000_000_000;
			let now = c.now;
			if !stale.is_empty() {
				c.push(now, &stale);
			}
			c.log.clear();
		});
		tags.nontrivial_if(i > 0 || !stale.is_empty());
		tags.tag_if(x.impostor && !x.replies.is_empty(), "stale reply");
		tags.tag_if(x.duplicate && !x.replies.is_empty(), "duplicate reply");
		tags.tag_if(port.with(|c| c.pending_bytes()) > 0, "stale data in the port");
		// What arrives after the command.
		let mut stream = Vec::new();
		for r in x.replies.iter().take(usize::from(x.sent)) {
			stream.extend(r.frame());
		}
		stream.extend(concat(&x.surplus));
		if x.duplicate {
			for r in &x.replies {
				stream.extend(r.frame());
			}
		}
		let bursts = gen::split(&stream, &x.cuts);
		let take = if x.take % 3 == 0 { usize::from(x.take / 3) } else { usize::MAX };
		answer(&port, bursts.clone());
		let before = port.with(|c| c.now);
		let outcome = exec_n(&mut dirty, &x.cmd, take, &mut |_| ());
		let elapsed = port.with(|c| c.now) - before;
		let written = port.with(|c| c.written()).concat();
		// The same with a new client.
		let fresh_port = SimPort::new(BAUD);
		answer(&fresh_port, bursts);
		let fresh_before = fresh_port.with(|c| c.now);
		let mut fresh = client(&fresh_port, case.read.into(), 4096);
		let expected = exec_n(&mut fresh, &x.cmd, take, &mut |_| ());
		let fresh_elapsed = fresh_port.with(|c| c.now) - fresh_before;
		ensure!(
			outcome == expected,
			"exchange {i} {:?} resulted in {outcome:?}, but with a new client in {expected:?}. Data from before: {}",
			x.cmd,
			hex(&stale)
		);
		ensure!(written == fresh_port.with(|c| c.written()).concat(), "exchange {i} {:?} wrote {}", x.cmd, hex(&written));
		ensure_eq!(elapsed, fresh_elapsed, "time taken by exchange {i} {:?}", x.cmd);
		tags.tag(x.cmd.name());
	}
	Ok(())
}

fn exchange(cfg: gen::Cfg) -> BoxedStrategy<Exchange> {
	(
		pieces(true, 3),
		any::<bool>(),
		answered_or_scan(gen::cmd(cfg)),
		prop_oneof![2 => Just(100u8), 1 => 0u8..4],
		pieces(true, 2),
		gen::chance(30),
		gen::cuts(),
		any::<u8>(),
	)
		.prop_map(|(stale, impostor, (cmd, replies), sent, surplus, duplicate, cuts, take)| Exchange {
			stale,
			impostor,
			cmd,
			replies,
			sent,
			surplus,
			duplicate,
			cuts,
			take,
		})
		.boxed()
}

pub fn c11(ctx: &mut Ctx) {
	ctx.rule = "histories of exchanges with missing, surplus and damaged replies, with stale data (including fake replies to the next command) arriving in between; each exchange is compared with the same on a new client; non-trivial: there is something from before the command";
	ctx.pbt(
		"histories",
		ctx.n(30_000, 400_000),
		|| {
			(proptest::collection::vec(exchange(gen::CFG), 1..7), prop_oneof![3 => Just(512u16), 1 => 10u16..60])
				.prop_map(|(exchanges, read)| History { exchanges, read })
				.boxed()
		},
		check_c11,
	);
	ctx.pbt(
		"single",
		ctx.n(60_000, 800_000),
		|| {
			(exchange(gen::CFG), prop_oneof![3 => Just(512u16), 1 => 10u16..60])
				.prop_map(|(exchange, read)| History {
					exchanges: vec![exchange],
					read,
				})
				.boxed()
		},
		check_c11,
	);
	ctx.pbt(
		"large",
		ctx.n(3_000, 40_000),
		|| {
			let cfg = gen::Cfg {
				data: 900,
				count: 900,
				motors: 12,
				..gen::CFG
			};
			(proptest::collection::vec(exchange(cfg), 1..4), prop_oneof![3 => Just(2000u16), 1 => 10u16..2000])
				.prop_map(|(exchanges, read)| History { exchanges, read })
				.boxed()
		},
		check_c11,
	);
}

// C18

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Answer {
	Good { id: u8, alert: bool, model: u16, firmware: u8 },
	Error { id: u8, error: u8, data: Vec<u8> },
	WrongSize { id: u8, data: Vec<u8> },
	BadCrc { id: u8, xor: u16 },
	Instruction { id: u8, instruction: u8, params: Vec<u8> },
	NoError { id: u8 },
	Noise(Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ScanCase {
	/// Answers with the pause before them in microseconds.
	answers: Vec<(Answer, u32)>,
	cuts: Vec<u16>,
	baud: u32,
	read: u16,
}

fn check_c18(case: &ScanCase, tags: &mut Tags) -> Result<(), String> {
	let timeout = refm::transfer_ns(14 * 253, case.baud) + 34_000_000;
	// The rounding of the total is not specified that precisely.
	let slack = 2_000;
	let mut rel: Vec<(u128, Vec<u8>)> = Vec::new();
	let mut expected: Vec<Vec<Item>> = Vec::new();
	let mut at = 0u128;
	let mut last = 0u128;
	let mut stream: Vec<u8> = Vec::new();
	let mut headers = Vec::new();
	let mut end = None;
	for (answer, pause) in &case.answers {
		at += u128::from(*pause) * 1000;
		let (bytes, items) = match answer {
			Answer::Good { id, alert, model, firmware } => {
				let data = vec![(model % 256) as u8, (model / 256) as u8, *firmware];
				(
					refm::status(*id, u8::from(*alert) * 0x80, &data),
					vec![Ok(Good {
						id: *id,
						alert: *alert,
						data,
					})],
				)
			},
			Answer::Error { id, error, data } => {
				let mut items = vec![Err(Bad::Motor { raw: *error })];
				if data.len() != 3 {
					items.push(Err(Bad::Count {
						actual: data.len(),
						expected: "=3".into(),
					}));
				}
				(refm::status(*id, *error, data), items)
			},
			Answer::WrongSize { id, data } => (
				refm::status(*id, 0, data),
				vec![Err(Bad::Count {
					actual: data.len(),
					expected: "=3".into(),
				})],
			),
			Answer::BadCrc { id, xor } => {
				let mut f = refm::status(*id, 0, &[1, 2, 3]);
				let n = f.len();
				let computed = refm::crc(0, &f[..n - 2]);
				let message = computed ^ xor;
				f[n - 2] = (message % 256) as u8;
				f[n - 1] = (message / 256) as u8;
				(f, vec![Err(Bad::Crc { message, computed })])
			},
			Answer::Instruction { id, instruction, params } => (
				refm::frame(*id, *instruction, params),
				vec![Err(Bad::Instruction {
					actual: *instruction,
					expected: ins::STATUS,
				})],
			),
			Answer::NoError { id } => (
				refm::frame(*id, ins::STATUS, &[]),
				vec![Err(Bad::Count {
					actual: 0,
					expected: ">=1".into(),
				})],
			),
			Answer::Noise(x) => (x.clone(), vec![]),
		};
		if end.is_none() && !items.is_empty() {
			headers.push((stream.len(), bytes.len()));
		}
		stream.extend(&bytes);
		let parts = gen::split(&bytes, &case.cuts);
		for part in parts {
			rel.push((at, part));
		}
		if !items.is_empty() && end.is_none() {
			if at > last + timeout + slack {
				// Too late: the scan is over.
				end = Some(last);
			} else if at > last + timeout {
				tags.tag("skipped");
				return Ok(());
			} else {
				expected.push(items);
				last = at;
			}
		}
	}
	tags.tag_if(end.is_some(), "late reply");
	// Noise must not contain a header.
	let mut i = 0;
	while let Some(n) = refm::find_prefix(&stream[i..]) {
		i += n;
		match headers.iter().find(|x| x.0 == i) {
			Some((_, len)) => i += len,
			None if end.is_some() && i > headers.last().map(|x| x.0 + x.1).unwrap_or(0) => break,
			None => {
				tags.tag("skipped");
				return Ok(());
			},
		}
	}
	tags.nontrivial_if(case.answers.len() > 1);
	let port = SimPort::new(case.baud);
	let list = rel;
	port.on_write(move |_, now| {
		list.iter()
			.map(|(at, data)| Rx {
				at: now + at,
				data: data.clone(),
			})
			.collect()
	});
	let started = port.with(|c| c.now);
	let mut client = client(&port, case.read.into(), 64);
	let mut ended = 0;
	let outcome = exec_n(&mut client, &Cmd::Scan, case.answers.len() + 5, &mut |_| ended = port.with(|c| c.now));
	let ended = ended - started;
	ensure!(port.with(|c| c.written()).concat() == Cmd::Scan.frame(), "what was sent");
	ensure_eq!(outcome.started, Ok(()), "transmission");
	ensure!(
		outcome.items.len() == expected.len(),
		"the scan yielded {} items ({:?}), expected {}: {expected:?}",
		outcome.items.len(),
		outcome.items,
		expected.len()
	);
	for (i, (item, ok)) in outcome.items.iter().zip(&expected).enumerate() {
		ensure!(ok.contains(item), "item {i} of the scan is {item:?}, expected {:?}", ok[0]);
	}
	ensure!(
		ended >= last + timeout && ended <= last + timeout + slack,
		"the scan ended {ended} ns after transmission, expected {} ns (last reply at {last} ns)",
		last + timeout
	);
	tags.tag_if(expected.iter().any(|x| x[0].is_err()), "errors");
	tags.tag_if(expected.len() > 5, "many replies");
	Ok(())
}

fn scan_answer() -> BoxedStrategy<Answer> {
	prop_oneof![
		6 => (gen::motor_id(), gen::chance(25), prop_oneof![any::<u16>(), Just(0xFFFFu16), Just(0xFFFD)], any::<u8>())
			.prop_map(|(id, alert, model, firmware)| Answer::Good { id, alert, model, firmware }),
		1 => (gen::motor_id(), any::<u8>().prop_map(|x| if x & 0x7F == 0 { 1 } else { x }), prop_oneof![gen::data(3, 3), gen::data(0, 5)])
			.prop_map(|(id, error, data)| Answer::Error { id, error, data }),
		1 => (gen::motor_id(), gen::data(0, 8)).prop_map(|(id, mut data)| {
			if data.len() == 3 {
				data.push(7);
			}
			Answer::WrongSize { id, data }
		}),
		1 => (gen::motor_id(), 1u16..).prop_map(|(id, xor)| Answer::BadCrc { id, xor }),
		1 => (gen::any_id(), any::<u8>().prop_map(|x| if x == ins::STATUS { 1 } else { x }), gen::data(0, 5))
			.prop_map(|(id, instruction, params)| Answer::Instruction { id, instruction, params }),
		1 => gen::motor_id().prop_map(|id| Answer::NoError { id }),
		1 => gen::data(1, 10).prop_map(Answer::Noise),
	]
	.boxed()
}

/// Unrecognizable replies must not hide the others.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RoughScan {
	answers: Vec<Piece>,
	read: u16,
	cuts: Vec<u16>,
	/// The call to the serial port that fails, not counting the first two to discard and write.
	fault: Option<u8>,
}

fn check_rough_scan(case: &RoughScan, tags: &mut Tags) -> Result<(), String> {
	let stream = concat(&case.answers);
	let port = SimPort::new(BAUD);
	answer(&port, gen::split(&stream, &case.cuts));
	let mut client = client(&port, case.read.into(), 64);
	let fault = case.fault.map(|i| u64::from(i) + 2);
	port.with(|c| c.faults.extend(fault.map(|i| (i, crate::sim::SimError::Fault(3)))));
	// Only count what happens before the scan is dropped.
	let mut calls = 0;
	let outcome = exec_n(&mut client, &Cmd::Scan, 300, &mut |_| calls = port.with(|c| c.io_calls));
	ensure_eq!(outcome.started, Ok(()), "transmission");
	if fault.is_some_and(|i| calls > i) {
		tags.tag("failure");
		// How the scan goes on after that is not specified.
		let failed = Err(Bad::Io(format!("{:?}", crate::sim::SimError::Fault(3))));
		ensure_eq!(outcome.items.iter().filter(|x| **x == failed).count(), 1, "reported failures");
		return Ok(());
	}
	for item in &outcome.items {
		sound(item, &stream, None, Some(3))?;
	}
	ensure!(!outcome.items.contains(&Err(Bad::Timeout)), "the scan reported the timeout that ends it: {:?}", outcome.items);
	tags.nontrivial_if(outcome.items.len() > 1);
	// Find out which good replies have to be reported: those that are not part of something else.
	let mut i = 0;
	let mut wanted = Vec::new();
	while let Some(n) = refm::find_prefix(&stream[i..]) {
		i += n;
		if stream.len() < i + 7 {
			break;
		}
		let len = usize::from(stream[i + 5]) + 256 * usize::from(stream[i + 6]);
		if len < 3 || len + 7 > usize::from(case.read) {
			i += 7;
			continue;
		}
		let Some(frame) = stream.get(i..i + 7 + len) else { break };
		wanted.extend(
			refm::valid_status_frames(frame)
				.into_iter()
				.take(1)
				.filter(|f| refm::parse_frame(frame).is_ok() && f.params[0] & 0x7F == 0 && f.params.len() == 4)
				.map(|f| Good {
					id: f.id,
					alert: f.params[0] & 0x80 != 0,
					data: f.params[1..].to_vec(),
				}),
		);
		i += 7 + len;
	}
	let got: Vec<Good> = outcome.items.iter().filter_map(|x| x.clone().ok()).collect();
	tags.tag_if(!wanted.is_empty(), "good replies");
	// Improperly stuffed replies may be reported too.
	let mut it = got.iter();
	for w in &wanted {
		ensure!(it.any(|g| g == w), "the reply {w:?} is not among the results {got:?} for {}", hex(&stream));
	}
	Ok(())
}

pub fn c18(ctx: &mut Ctx) {
	ctx.rule = "scans answered by any number of good, failing, damaged and malformed replies with pauses up to beyond the timeout, at generated baud rates; non-trivial: more than one thing is received";
	ctx.pbt(
		"scans",
		ctx.n(80_000, 1_000_000),
		|| {
			let pause = prop_oneof![4 => Just(0u32), 3 => 0u32..30_000, 1 => 0u32..90_000];
			(
				proptest::collection::vec((scan_answer(), pause), 0..12),
				gen::cuts(),
				prop_oneof![2 => Just(1_000_000u32), 1 => Just(57_600), 1 => Just(3_000_000), 1 => 9_600u32..5_000_000],
				prop_oneof![Just(24u16), 24u16..40, Just(400u16)],
			)
				.prop_map(|(answers, cuts, baud, read)| ScanCase {
					answers,
					cuts,
					baud,
					read,
				})
				.boxed()
		},
		check_c18,
	);
	ctx.pbt(
		"all_motors",
		ctx.n(400, 4_000),
		|| {
			(any::<[u8; 8]>(), 0u32..200, prop_oneof![Just(24u16), Just(400u16), Just(4000)])
				.prop_map(|(seed, pause, read)| ScanCase {
					answers: (0..=253u8)
						.map(|id| {
							let x = seed[usize::from(id) % 8].wrapping_mul(id).wrapping_add(id);
							(
								Answer::Good {
									id: id.wrapping_mul(7),
									alert: x % 5 == 0,
									model: u16::from(x) * 257,
									firmware: x,
								},
								pause,
							)
						})
						.collect(),
					cuts: vec![],
					baud: BAUD,
					read,
				})
				.boxed()
		},
		check_c18,
	);
	ctx.pbt(
		"rough",
		ctx.n(60_000, 800_000),
		|| {
			let good = (gen::motor_id(), gen::ok_byte(), gen::data_exact(3)).prop_map(|(id, error, mut data)| {
				data.insert(0, error);
				Piece::Frame {
					id,
					instruction: ins::STATUS,
					params: data,
				}
			});
			let piece = prop_oneof![2 => good, 1 => gen::piece(true, 8)];
			(proptest::collection::vec(piece, 1..8), prop_oneof![20u16..40, Just(128u16)], gen::cuts(), prop_oneof![9 => Just(None), 1 => (0u8..10).prop_map(Some)])
				.prop_map(|(answers, read, cuts, fault)| RoughScan { answers, read, cuts, fault })
				.boxed()
		},
		check_rough_scan,
	);
	let _ = BROADCAST;
}
