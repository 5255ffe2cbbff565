//! The device side: C04, C05, C30.

use super::*;
use crate::cmd::{norm_read, norm_write, Bad, Kind, Port};
use crate::gen;
use crate::refm::{self, ins, BROADCAST};
use crate::runner::{Ctx, Tags, SHARDS};
use crate::{ensure, ensure_eq};
use dynamixel2::{Clear, FactoryReset, Instruction, Instructions};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// An instruction as reported by a device.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RefIns {
	Ping,
	Read { address: u16, length: u16 },
	Write { address: u16, data: Vec<u8> },
	RegWrite { address: u16, data: Vec<u8> },
	Action,
	ResetAll,
	ResetExceptId,
	ResetExceptIdBaudRate,
	ResetUnknown(u8),
	Reboot,
	ClearMultiTurns,
	ClearErrors,
	ClearReserved(u8),
	SyncRead { address: u16, length: u16, ids: Vec<u8> },
	SyncWrite { address: u16, length: u16, data: Vec<u8> },
	BulkRead(Vec<u8>),
	BulkWrite(Vec<u8>),
	Unknown { instruction: u8, data: Vec<u8> },
}

/// What the device reported, normalized.
pub fn norm_instruction<T: AsRef<[u8]>>(x: Instruction<T>) -> (u8, RefIns) {
	let v = |x: T| x.as_ref().to_vec();
	let instruction = match x.instruction {
		Instructions::Ping => RefIns::Ping,
		Instructions::Read { address, length } => RefIns::Read { address, length },
		Instructions::Write { address, parameters } => RefIns::Write {
			address,
			data: v(parameters),
		},
		Instructions::RegWrite { address, parameters } => RefIns::RegWrite {
			address,
			data: v(parameters),
		},
		Instructions::Action => RefIns::Action,
		Instructions::FactoryReset(FactoryReset::All) => RefIns::ResetAll,
		Instructions::FactoryReset(FactoryReset::ExceptId) => RefIns::ResetExceptId,
		Instructions::FactoryReset(FactoryReset::ExceptIdBaudRate) => RefIns::ResetExceptIdBaudRate,
		Instructions::FactoryReset(FactoryReset::Unknown(x)) => RefIns::ResetUnknown(x),
		Instructions::Reboot => RefIns::Reboot,
		Instructions::Clear(Clear::MultiTurns) => RefIns::ClearMultiTurns,
		Instructions::Clear(Clear::Errors) => RefIns::ClearErrors,
		Instructions::Clear(Clear::Reserved(x)) => RefIns::ClearReserved(x),
		Instructions::SyncRead { address, length, ids } => RefIns::SyncRead {
			address,
			length,
			ids: v(ids),
		},
		Instructions::SyncWrite {
			address,
			length,
			parameters,
		} => RefIns::SyncWrite {
			address,
			length,
			data: v(parameters),
		},
		Instructions::BulkRead { parameters } => RefIns::BulkRead(v(parameters)),
		Instructions::BulkWrite { parameters } => RefIns::BulkWrite(v(parameters)),
		Instructions::Unknown { instruction, parameters } => RefIns::Unknown {
			instruction,
			data: v(parameters),
		},
	};
	(x.id, instruction)
}

/// Reference parser for instructions.
pub fn parse_instruction(instruction: u8, p: &[u8]) -> Result<RefIns, Bad> {
	let bad = |bound: &str| Bad::Count {
		actual: p.len(),
		expected: bound.into(),
	};
	let word = |i: usize| u16::from(p[i]) + 256 * u16::from(p[i + 1]);
	Ok(match instruction {
		0x01 => RefIns::Ping,
		0x02 if p.len() != 4 => return Err(bad("=4")),
		0x02 => RefIns::Read {
			address: word(0),
			length: word(2),
		},
		0x03 | 0x04 if p.len() < 2 => return Err(bad(">=2")),
		0x03 => RefIns::Write {
			address: word(0),
			data: p[2..].to_vec(),
		},
		0x04 => RefIns::RegWrite {
			address: word(0),
			data: p[2..].to_vec(),
		},
		0x05 => RefIns::Action,
		0x06 if p.len() != 1 => return Err(bad("=1")),
		0x06 => match p[0] {
			0xFF => RefIns::ResetAll,
			0x01 => RefIns::ResetExceptId,
			0x02 => RefIns::ResetExceptIdBaudRate,
			x => RefIns::ResetUnknown(x),
		},
		0x08 => RefIns::Reboot,
		0x10 if p.is_empty() => return Err(bad(">=1")),
		0x10 => match p[0] {
			0x01 => RefIns::ClearMultiTurns,
			0x02 => RefIns::ClearErrors,
			x => RefIns::ClearReserved(x),
		},
		0x82 | 0x83 if p.len() < 4 => return Err(bad(">=4")),
		0x82 => RefIns::SyncRead {
			address: word(0),
			length: word(2),
			ids: p[4..].to_vec(),
		},
		0x83 => RefIns::SyncWrite {
			address: word(0),
			length: word(2),
			data: p[4..].to_vec(),
		},
		0x92 => RefIns::BulkRead(p.to_vec()),
		0x93 => RefIns::BulkWrite(p.to_vec()),
		x => RefIns::Unknown {
			instruction: x,
			data: p.to_vec(),
		},
	})
}

/// What a device should report for a command, in terms of the arguments of the command.
pub fn meaning(cmd: &Cmd) -> (u8, RefIns) {
	let reset = |kind: &Kind| match kind {
		Kind::ResetAll => RefIns::ResetAll,
		Kind::KeepId => RefIns::ResetExceptId,
		Kind::KeepIdAndBaudRate => RefIns::ResetExceptIdBaudRate,
	};
	let listed = |writes: &[(u8, Vec<u8>)]| {
		let mut out = vec![];
		for (id, data) in writes {
			out.push(*id);
			out.extend_from_slice(data);
		}
		out
	};
	match cmd {
		Cmd::Ping { id } => (*id, RefIns::Ping),
		Cmd::Scan => (BROADCAST, RefIns::Ping),
		Cmd::Read { id, addr, ty } => (
			*id,
			RefIns::Read {
				address: *addr,
				length: ty.size() as u16,
			},
		),
		Cmd::ReadBytes { id, addr, count } => (
			*id,
			RefIns::Read {
				address: *addr,
				length: *count,
			},
		),
		Cmd::Write { id, addr, val: data, .. } | Cmd::WriteBytes { id, addr, data } => (
			*id,
			RefIns::Write {
				address: *addr,
				data: data.clone(),
			},
		),
		Cmd::RegWrite { id, addr, val: data, .. } | Cmd::RegWriteBytes { id, addr, data } => (
			*id,
			RefIns::RegWrite {
				address: *addr,
				data: data.clone(),
			},
		),
		Cmd::Action { id } => (*id, RefIns::Action),
		Cmd::BroadcastAction => (BROADCAST, RefIns::Action),
		Cmd::FactoryReset { id, kind } => (*id, reset(kind)),
		Cmd::BroadcastFactoryReset { kind } => (BROADCAST, reset(kind)),
		Cmd::Reboot { id } => (*id, RefIns::Reboot),
		Cmd::BroadcastReboot => (BROADCAST, RefIns::Reboot),
		Cmd::ClearRevolution { id } => (*id, RefIns::ClearMultiTurns),
		Cmd::BroadcastClearRevolution => (BROADCAST, RefIns::ClearMultiTurns),
		Cmd::ClearError { id } => (*id, RefIns::ClearErrors),
		Cmd::BroadcastClearError => (BROADCAST, RefIns::ClearErrors),
		Cmd::SyncRead { ids, addr, ty, .. } => (
			BROADCAST,
			RefIns::SyncRead {
				address: *addr,
				length: ty.size() as u16,
				ids: ids.clone(),
			},
		),
		Cmd::SyncReadBytes { ids, addr, count, .. } => (
			BROADCAST,
			RefIns::SyncRead {
				address: *addr,
				length: *count,
				ids: ids.clone(),
			},
		),
		Cmd::SyncWrite { addr, ty, writes } => (
			BROADCAST,
			RefIns::SyncWrite {
				address: *addr,
				length: ty.size() as u16,
				data: listed(writes),
			},
		),
		Cmd::SyncWriteBytes { addr, count, writes } => (
			BROADCAST,
			RefIns::SyncWrite {
				address: *addr,
				length: *count,
				data: listed(writes),
			},
		),
		Cmd::BulkRead { .. } => (BROADCAST, RefIns::BulkRead(cmd.wire().2)),
		Cmd::BulkWrite { .. } => (BROADCAST, RefIns::BulkWrite(cmd.wire().2)),
		Cmd::Raw {
			id, instruction, params, ..
		}
		| Cmd::RawWrite { id, instruction, params } => (
			*id,
			// Raw instructions may well be invalid. That is the business of the other property.
			parse_instruction(*instruction, params).unwrap_or(RefIns::Unknown {
				instruction: *instruction,
				data: params.clone(),
			}),
		),
	}
}

/// How to read from a device.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Form {
	Raw,
	Borrowed,
	Owned,
}

pub fn form() -> BoxedStrategy<Form> {
	proptest::sample::select(vec![Form::Raw, Form::Borrowed, Form::Owned]).boxed()
}

/// Read from a device. Raw packets are converted with the reference parser.
pub fn device_read<P: Port>(device: &mut Device<P, Vec<u8>>, form: Form, timeout: Duration) -> Result<(u8, RefIns), Bad> {
	match form {
		Form::Borrowed => device.read(timeout).map(norm_instruction).map_err(norm_read),
		Form::Owned => device.read_owned(timeout).map(norm_instruction).map_err(norm_read),
		Form::Raw => {
			let p = device.read_raw_instruction_timeout(timeout).map_err(norm_read)?;
			Ok((p.packet_id(), parse_instruction(p.instruction_id(), p.parameters())?))
		},
	}
}

// C04

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Delivery {
	cmds: Vec<(Cmd, Form)>,
	cuts: Vec<u16>,
	/// Use small read buffers that hold exactly the largest frame.
	tight: bool,
}

fn sendable(cmd: &Cmd) -> bool {
	match cmd {
		// A status packet is not an instruction, and raw instructions can be invalid.
		Cmd::Raw { instruction, params, .. } | Cmd::RawWrite { instruction, params, .. } => {
			*instruction != ins::STATUS && parse_instruction(*instruction, params).is_ok()
		},
		_ => true,
	}
}

fn check_c04(case: &Delivery, tags: &mut Tags) -> Result<(), String> {
	let bus = SimPort::new(BAUD);
	let cmds: Vec<_> = case.cmds.iter().filter(|x| sendable(&x.0)).collect();
	let room = cmds.iter().map(|x| x.0.frame_len()).max().unwrap_or(0).max(4096);
	let mut client = client(&bus, 4096, room);
	let mut longest = 10;
	for (cmd, _) in &cmds {
		// There is no motor, so there is no useful outcome.
		let before = bus.with(|c| c.written().concat().len());
		exec(&mut client, cmd);
		let sent = bus.with(|c| c.written().concat().len()) - before;
		longest = longest.max(sent);
		tags.tag(cmd.name());
	}
	tags.nontrivial_if(cmds.iter().any(|x| !x.0.wire().2.is_empty()));
	tags.tag_if(case.tight, "tight buffer");
	tags.tag_if(cmds.len() > 1, "several commands");
	let line = bus.with(|c| c.written().concat());
	let port = SimPort::new(BAUD);
	port.with(|c| {
		for burst in gen::split(&line, &case.cuts) {
			c.push(0, &burst);
		}
	});
	let mut device = device(&port, if case.tight { longest } else { line.len() + 100 }, 64);
	for (i, (cmd, form)) in cmds.iter().enumerate() {
		let got = device_read(&mut device, *form, Duration::from_millis(5));
		ensure_eq!(got, Ok(meaning(cmd)), "what the device understood of command {i} {cmd:?} ({form:?})");
	}
	let end = device_read(&mut device, Form::Raw, Duration::from_millis(5));
	ensure_eq!(end, Err(Bad::Timeout), "reading after the last command");
	Ok(())
}

pub fn c04(ctx: &mut Ctx) {
	ctx.rule = "one or more generated client commands of every kind, sent by a real client and received by a real device through raw, borrowed and owned reads; non-trivial: a command has parameters";
	let big = gen::Cfg {
		data: 300,
		count: 65535,
		motors: 20,
		..gen::CFG
	};
	ctx.pbt(
		"single",
		ctx.n(100_000, 1_500_000),
		move || {
			let cmd = prop_oneof![4 => gen::cmd(gen::CFG), 1 => gen::cmd(big)];
			(cmd, form(), gen::cuts(), any::<bool>())
				.prop_map(|(cmd, form, cuts, tight)| Delivery {
					cmds: vec![(cmd, form)],
					cuts,
					tight,
				})
				.boxed()
		},
		check_c04,
	);
	for (name, n, max) in [("large", ctx.n(5_000, 60_000), 3_000), ("very_large", ctx.n(200, 2_000), 48_000)] {
		ctx.pbt(
			name,
			n,
			move || {
				(super::wire::big_cmd(max), form(), gen::cuts(), any::<bool>())
					.prop_map(|(cmd, form, cuts, tight)| Delivery {
						cmds: vec![(cmd, form)],
						cuts,
						tight,
					})
					.boxed()
			},
			check_c04,
		);
	}
	ctx.pbt(
		"sequences",
		ctx.n(30_000, 400_000),
		move || {
			(proptest::collection::vec((gen::cmd(gen::CFG), form()), 2..8), gen::cuts(), any::<bool>())
				.prop_map(|(cmds, cuts, tight)| Delivery { cmds, cuts, tight })
				.boxed()
		},
		check_c04,
	);
}

// C05

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RawIns {
	id: u8,
	instruction: u8,
	params: Vec<u8>,
}

fn check_c05(case: &RawIns, tags: &mut Tags) -> Result<(), String> {
	let frame = refm::frame(case.id, case.instruction, &case.params);
	let expected = parse_instruction(case.instruction, &case.params).map(|x| (case.id, x));
	tags.nontrivial_if(!case.params.is_empty());
	tags.tag(match &expected {
		Err(_) => "wrong count",
		Ok((_, RefIns::Unknown { .. })) => "unknown instruction",
		Ok((_, RefIns::ResetUnknown(_) | RefIns::ClearReserved(_))) => "unknown kind",
		Ok(_) => "known",
	});
	let port = SimPort::new(BAUD);
	let push = || port.with(|c| c.push(0, &frame));
	let mut device = device(&port, frame.len(), 64);
	let timeout = Duration::from_millis(1);
	push();
	let raw = device.read_raw_instruction_timeout(timeout);
	match raw {
		Err(e) => return Err(format!("raw packet: {:?}", norm_read(e))),
		Ok(x) => {
			ensure_eq!(
				(x.packet_id(), x.instruction_id(), x.parameters()),
				(case.id, case.instruction, case.params.as_slice()),
				"raw packet"
			);
			// The conversions on their own.
			let borrowed = Instruction::<&[u8]>::try_from(x).map(norm_instruction).map_err(crate::cmd::norm_count);
			ensure_eq!(borrowed, expected, "conversion to borrowed instruction");
			let owned = Instruction::<Vec<u8>>::try_from(x).map(norm_instruction).map_err(crate::cmd::norm_count);
			ensure_eq!(owned, expected, "conversion to owned instruction");
		},
	}
	push();
	ensure_eq!(device_read(&mut device, Form::Borrowed, timeout), expected, "borrowed instruction");
	push();
	ensure_eq!(device_read(&mut device, Form::Owned, timeout), expected, "owned instruction");
	Ok(())
}

pub fn c05(ctx: &mut Ctx) {
	ctx.rule = "instruction packets with every instruction ID and generated parameters (complete for short lengths and for reset and clear kinds), read in raw, borrowed and owned form; non-trivial: there are parameters";
	ctx.enumerate(
		"every_instruction_and_length",
		|s| {
			(0..=255u8).filter(|x| *x != ins::STATUS).skip(s).step_by(SHARDS).flat_map(|instruction| {
				(0..=24usize).flat_map(move |len| {
					[[1u8, 0], [0xFF, 0xFD], [2, 3], [0, 0]].into_iter().map(move |pattern| RawIns {
						id: (instruction ^ len as u8).wrapping_mul(37),
						instruction,
						params: (0..len).map(|i| pattern[i % 2].wrapping_add((i / 2) as u8)).collect(),
					})
				})
			})
		},
		check_c05,
	);
	ctx.enumerate(
		"every_kind",
		|s| {
			(0..=255u8).skip(s).step_by(SHARDS).flat_map(|kind| {
				[(0x06, vec![kind]), (0x06, vec![kind, 0]), (0x10, vec![kind]), (0x10, vec![kind, 0x44, 0x58, 0x4C, 0x22]), (0x10, vec![kind, 1, 2, 3, 4, 5, 6, 7])]
					.into_iter()
					.map(move |(instruction, params)| RawIns { id: kind, instruction, params })
			})
		},
		check_c05,
	);
	ctx.pbt(
		"generated",
		ctx.n(100_000, 1_500_000),
		|| {
			let instruction = prop_oneof![
				6 => proptest::sample::select(vec![0x01u8, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93]),
				1 => any::<u8>().prop_map(|x| if x == ins::STATUS { 0x56 } else { x }),
			];
			(gen::any_id(), instruction, prop_oneof![3 => gen::data(0, 8), 2 => gen::data(0, 60), 1 => gen::data(0, 600)])
				.prop_map(|(id, instruction, params)| RawIns { id, instruction, params })
				.boxed()
		},
		check_c05,
	);
}

// C30

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Traffic {
	Instruction { id: u8, instruction: u8, params: Vec<u8> },
	Status { id: u8, error: u8, params: Vec<u8> },
	/// A packet of which the checksum is damaged.
	BadCrc { id: u8, instruction: u8, params: Vec<u8>, xor: u16 },
	Noise(Vec<u8>),
}

impl Traffic {
	pub fn bytes(&self) -> Vec<u8> {
		match self {
			Traffic::Instruction { id, instruction, params } => refm::frame(*id, *instruction, params),
			Traffic::Status { id, error, params } => refm::status(*id, *error, params),
			Traffic::BadCrc {
				id,
				instruction,
				params,
				xor,
			} => {
				let mut f = refm::frame(*id, *instruction, params);
				let n = f.len();
				f[n - 1] ^= (xor >> 8) as u8;
				f[n - 2] ^= (xor & 0xFF) as u8;
				f
			},
			Traffic::Noise(x) => x.clone(),
		}
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
	Read { form: Form, timeout_us: u32 },
	Status { id: u8, error: u8, data: Vec<u8> },
	Ok(u8),
	Error(u8, u8),
	/// Change the baud rate, which the port may refuse.
	Baud(u32, bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DeviceRun {
	traffic: Vec<Traffic>,
	/// Where to split the traffic, and the pause in microseconds before the part that follows.
	parts: Vec<(u16, u32)>,
	steps: Vec<Step>,
	/// Extra bytes in the read buffer beyond the largest packet.
	extra: u8,
}

/// An event a reader of the line has to report: an instruction, or a damaged packet.
#[derive(Debug, Clone, PartialEq, Eq)]
enum Event {
	Instruction(u8, u8, Vec<u8>),
	Crc { message: u16, computed: u16 },
}

/// What is on the line from a given moment: events with the index of their last byte.
///
/// Returns `None` if there is something unexpected in the stream.
fn events(bytes: &[u8], capacity: usize) -> Option<Vec<(Event, usize)>> {
	let mut out = vec![];
	let mut i = 0;
	while let Some(n) = refm::find_prefix(&bytes[i..]) {
		i += n;
		if bytes.len() < i + 8 {
			break;
		}
		let len = usize::from(bytes[i + 5]) + 256 * usize::from(bytes[i + 6]);
		if len < 4 && !(len == 3 && bytes[i + 7] != ins::STATUS) || len + 7 > capacity {
			return None;
		}
		if bytes.len() < i + 7 + len {
			// A truncated packet at the very end.
			break;
		}
		let frame = &bytes[i..i + 7 + len];
		let computed = refm::crc(0, &frame[..frame.len() - 2]);
		let message = u16::from(frame[frame.len() - 2]) + 256 * u16::from(frame[frame.len() - 1]);
		i += 7 + len;
		if message != computed {
			out.push((Event::Crc { message, computed }, i - 1));
		} else {
			let body = refm::unstuff(&frame[7..frame.len() - 2])?;
			if body[0] != ins::STATUS {
				out.push((Event::Instruction(frame[4], body[0], body[1..].to_vec()), i - 1));
			}
		}
	}
	Some(out)
}

fn check_c30(case: &DeviceRun, tags: &mut Tags) -> Result<(), String> {
	let stream: Vec<u8> = case.traffic.iter().flat_map(|x| x.bytes()).collect();
	let largest = case.traffic.iter().map(|x| x.bytes().len()).max().unwrap_or(0).max(10);
	let port = SimPort::new(BAUD);
	// The arrival time of every byte.
	let mut arrival: Vec<u128> = Vec::new();
	let mut parts: Vec<(usize, u32)> = case
		.parts
		.iter()
		.map(|(at, pause)| (usize::from(*at) * (stream.len() + 1) / 65536, *pause))
		.collect();
	parts.sort_unstable();
	let mut now = port.with(|c| c.now);
	let start_of_time = now;
	let mut from = 0;
	let mut bursts: Vec<(u128, Vec<u8>)> = vec![];
	for (to, pause) in parts.into_iter().chain([(stream.len(), 0)]) {
		if to > from {
			bursts.push((now, stream[from..to].to_vec()));
			arrival.extend(std::iter::repeat_n(now, to - from));
			from = to;
		}
		now += u128::from(pause) * 1000;
	}
	// `pause` applies to what follows, so the first burst is there from the start.
	port.with(|c| {
		for (at, data) in &bursts {
			c.push(*at, data);
		}
	});
	let capacity = largest + usize::from(case.extra);
	let mut device = device(&port, capacity, 256);

	// The model: everything from `begin` on has not been discarded, and `pending` are the events in it.
	let mut begin = 0;
	let mut now = start_of_time;
	let Some(mut pending) = events(&stream, capacity) else {
		tags.tag("ambiguous");
		return Ok(());
	};
	for (i, step) in case.steps.iter().enumerate() {
		match step {
			Step::Read { form, timeout_us } => {
				let timeout = Duration::from_micros(u64::from(*timeout_us));
				let deadline = now + timeout.as_nanos();
				let got = device_read(&mut device, *form, timeout);
				let expected = match pending.first() {
					Some((event, end)) if arrival[begin + end] <= deadline => {
						now = now.max(arrival[begin + end]);
						let event = event.clone();
						pending.remove(0);
						match event {
							Event::Instruction(id, instruction, params) => {
								tags.tag("instruction");
								parse_instruction(instruction, &params).map(|x| (id, x))
							},
							Event::Crc { message, computed } => {
								tags.tag("bad crc");
								Err(Bad::Crc { message, computed })
							},
						}
					},
					_ => {
						tags.tag("timeout");
						now = deadline;
						Err(Bad::Timeout)
					},
				};
				ensure_eq!(got, expected, "step {i} {step:?}");
				ensure_eq!(port.with(|c| c.now), now, "time after step {i} {step:?}");
			},
			Step::Baud(rate, refuse) => {
				port.with(|c| c.baud_fault = refuse.then_some(crate::sim::SimError::Fault(3)));
				let result = device.set_baud_rate(*rate);
				port.with(|c| c.baud_fault = None);
				ensure_eq!(result.is_err(), *refuse, "step {i} {step:?}");
				ensure_eq!(port.with(|c| c.now), now, "time after step {i} {step:?}");
				tags.tag("baud rate");
			},
			Step::Status { .. } | Step::Ok(_) | Step::Error(..) => {
				port.with(|c| c.log.clear());
				let (result, frame) = match step {
					Step::Status { id, error, data } => (
						device.write_status(*id, *error, data.len(), |b| {
							assert!(b.len() == data.len(), "the buffer for the parameters has {} bytes", b.len());
							b.copy_from_slice(data);
							Ok(())
						}),
						refm::status(*id, *error, data),
					),
					Step::Ok(id) => (device.write_status_ok(*id), refm::status(*id, 0, &[])),
					Step::Error(id, error) => (device.write_status_error(*id, *error), refm::status(*id, *error, &[])),
					Step::Read { .. } | Step::Baud(..) => unreachable!(),
				};
				tags.tag("status");
				ensure_eq!(result.map_err(norm_write), Ok(()), "step {i} {step:?}");
				let written = port.with(|c| c.written()).concat();
				ensure!(written == frame, "step {i} {step:?} wrote {}, expected {}", hex(&written), hex(&frame));
				ensure_eq!(port.with(|c| c.now), now, "time after step {i} {step:?}");
				// What was received so far is gone.
				begin += arrival[begin..].iter().filter(|at| **at <= now).count();
				match events(&stream[begin..], capacity) {
					Some(x) => pending = x,
					None => {
						tags.tag("ambiguous");
						return Ok(());
					},
				}
			},
		}
	}
	let statuses = case.traffic.iter().filter(|x| matches!(x, Traffic::Status { .. })).count();
	let instructions = case.traffic.iter().filter(|x| matches!(x, Traffic::Instruction { .. })).count();
	tags.nontrivial_if(statuses > 0 && instructions > 0);
	tags.tag_if(statuses > 3, "many status packets");
	tags.tag_if(bursts.len() > 1, "pauses");
	Ok(())
}

pub fn traffic(max: usize) -> BoxedStrategy<Traffic> {
	let data = move || if max > 12 { prop_oneof![1 => gen::data(0, 12), 2 => gen::data(0, max), 1 => gen::data_sized(max)].boxed() } else { gen::data(0, max).boxed() };
	let instruction = || {
		prop_oneof![
			4 => proptest::sample::select(vec![0x01u8, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93]),
			1 => any::<u8>().prop_map(|x| if x == ins::STATUS { 0x54 } else { x }),
		]
	};
	prop_oneof![
		4 => (gen::any_id(), instruction(), data()).prop_map(|(id, instruction, params)| Traffic::Instruction { id, instruction, params }),
		5 => (gen::any_id(), gen::error_byte(), data()).prop_map(|(id, error, params)| Traffic::Status { id, error, params }),
		1 => (gen::any_id(), instruction(), data(), 1u16..).prop_map(|(id, instruction, params, xor)| Traffic::BadCrc { id, instruction, params, xor }),
		1 => gen::data(1, 8).prop_map(Traffic::Noise),
	]
	.boxed()
}

fn step() -> BoxedStrategy<Step> {
	let timeout = prop_oneof![1 => Just(0u32), 1 => gen::magic(200_000), 3 => 0u32..50, 3 => 0u32..2000, 1 => 0u32..200_000];
	prop_oneof![
		12 => (form(), timeout).prop_map(|(form, timeout_us)| Step::Read { form, timeout_us }),
		1 => (gen::any_id(), gen::error_byte(), gen::data(0, 30)).prop_map(|(id, error, data)| Step::Status { id, error, data }),
		1 => any::<u8>().prop_map(Step::Ok),
		1 => any::<(u8, u8)>().prop_map(|(a, b)| Step::Error(a, b)),
		2 => (super::reply::baud(), gen::chance(20)).prop_map(|(rate, refuse)| Step::Baud(rate, refuse)),
	]
	.boxed()
}

pub fn c30(ctx: &mut Ctx) {
	ctx.rule = "bus traffic of instruction, status and damaged packets and noise, in pieces with pauses, against sequences of device reads with timeouts and status transmissions; non-trivial: there are both status and instruction packets";
	let strategy = |count: usize, max: usize| {
		(
			proptest::collection::vec(traffic(max), 0..count),
			prop_oneof![
				1 => Just(vec![]),
				4 => proptest::collection::vec((any::<u16>(), prop_oneof![Just(0u32), 0u32..40, 0u32..1500]), 0..12),
			],
			proptest::collection::vec(step(), 1..14),
			prop_oneof![Just(0u8), 0u8..12, any::<u8>()],
		)
			.prop_map(|(traffic, parts, steps, extra)| DeviceRun {
				traffic,
				parts,
				steps,
				extra,
			})
			.boxed()
	};
	ctx.pbt("runs", ctx.n(120_000, 1_500_000), move || strategy(14, 12), check_c30);
	// Packets up to the largest that devices use, and larger.
	ctx.pbt("large", ctx.n(15_000, 150_000), move || strategy(9, 400), check_c30);
	ctx.pbt("very_large", ctx.n(800, 8_000), move || strategy(5, 30_000), check_c30);
	// A long sequence of status packets before the instruction, each just before the previous deadline.
	ctx.pbt(
		"flood",
		ctx.n(8_000, 60_000),
		|| {
			let statuses = |n| proptest::collection::vec((gen::any_id(), gen::error_byte(), gen::data(0, 4)), n);
			let statuses = prop_oneof![19 => statuses(1..120), 1 => statuses(200..600)];
			(statuses, prop_oneof![1 => Just(0u32), 4 => 1u32..500], 1u32..40_000, form())
				.prop_map(|(statuses, pause, timeout_us, form)| {
					let n = statuses.len();
					let mut traffic: Vec<Traffic> = statuses
						.into_iter()
						.map(|(id, error, params)| Traffic::Status { id, error, params })
						.collect();
					traffic.push(Traffic::Instruction {
						id: 1,
						instruction: 1,
						params: vec![],
					});
					DeviceRun {
						traffic,
						parts: (0..n).map(|i| ((i * 65536 / n) as u16, pause)).collect(),
						steps: vec![Step::Read { form, timeout_us }, Step::Read { form, timeout_us: 100_000 }],
						extra: 0,
					}
				})
				.boxed()
		},
		check_c30,
	);
}
