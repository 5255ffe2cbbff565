//! What is transmitted: C01, C02, C03, C13, C22, C23.

use super::*;
use crate::cmd::{norm_write, Bad, Ty, Via};
use crate::gen;
use crate::refm;
use crate::runner::{guard, Ctx, Tags};
use crate::{ensure, ensure_eq};
use dynamixel2::instructions::{BulkReadData, BulkWriteData, SyncWriteData};
use dynamixel2::{BufferTooSmallError, WriteError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// A packet to send.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Send {
	Instruction { id: u8, instruction: u8, params: Vec<u8> },
	Status { id: u8, error: u8, params: Vec<u8> },
	/// A large packet: a pattern repeated to a length.
	Large { status: bool, id: u8, byte: u8, pattern: Vec<u8>, len: u32 },
}

impl Send {
	/// Is it a status packet, the ID, and the unstuffed body.
	fn parts(&self) -> (bool, u8, Vec<u8>) {
		match self {
			Send::Instruction { id, instruction, params } => (false, *id, [&[*instruction], params.as_slice()].concat()),
			Send::Status { id, error, params } => (true, *id, [&[0x55, *error], params.as_slice()].concat()),
			Send::Large {
				status,
				id,
				byte,
				pattern,
				len,
			} => {
				let mut body = if *status { vec![0x55, *byte] } else { vec![*byte] };
				body.extend(pattern.iter().copied().cycle().take(*len as usize));
				(*status, *id, body)
			},
		}
	}
}

fn send_strategy(large: bool) -> BoxedStrategy<Send> {
	let small = prop_oneof![
		3 => (gen::any_id(), any::<u8>(), gen::data_sized(400)).prop_map(|(id, instruction, params)| Send::Instruction { id, instruction, params }),
		1 => (gen::any_id(), gen::nasty_byte(), gen::data_sized(400)).prop_map(|(id, instruction, params)| Send::Instruction { id, instruction, params }),
		2 => (gen::any_id(), any::<u8>(), gen::data_sized(400)).prop_map(|(id, error, params)| Send::Status { id, error, params }),
		1 => (gen::any_id(), gen::nasty_byte(), gen::data_sized(400)).prop_map(|(id, error, params)| Send::Status { id, error, params }),
	];
	if !large {
		return small.boxed();
	}
	let len = prop_oneof![
		2 => 200u32..3000,
		1 => 3000u32..65_000,
		4 => 65_500u32..65_560,
		1 => 65_560u32..66_500,
		// Around the limit if every third byte needs stuffing.
		2 => 49_100u32..49_200,
	];
	(
		any::<bool>(),
		gen::any_id(),
		any::<u8>(),
		prop_oneof![
			proptest::collection::vec(any::<u8>(), 1..5),
			Just(vec![0xFF, 0xFF, 0xFD]),
			proptest::collection::vec(gen::nasty_byte(), 1..8)
		],
		len,
	)
		.prop_map(|(status, id, byte, pattern, len)| Send::Large {
			status,
			id,
			byte,
			pattern,
			len,
		})
		.boxed()
}

/// Send a packet with the right side of the library.
fn send(client: &mut SimClient, device: &mut SimDevice, status: bool, id: u8, body: &[u8]) -> Result<(), Bad> {
	if status {
		device
			.write_status(id, body[1], body.len() - 2, |buffer| {
				buffer.copy_from_slice(&body[2..]);
				Ok(())
			})
			.map_err(norm_write)
	} else {
		client
			.write_instruction(id, body[0], body.len() - 1, |buffer| {
				buffer.copy_from_slice(&body[1..]);
				Ok(())
			})
			.map_err(norm_write)
	}
}

fn check_c01(packets: &Vec<Send>, tags: &mut Tags) -> Result<(), String> {
	let (cp, dp) = (SimPort::new(BAUD), SimPort::new(BAUD));
	let need = packets.iter().map(|p| p.parts().2.len()).max().unwrap_or(0);
	let size = (need * 2 + 64).max(128);
	let mut client = client(&cp, 64, size);
	let mut device = device(&dp, 64, size);
	for (i, packet) in packets.iter().enumerate() {
		let (status, id, body) = packet.parts();
		let port = if status { &dp } else { &cp };
		port.with(|c| c.log.clear());
		let result = send(&mut client, &mut device, status, id, &body);
		let sent = port.with(|c| c.written()).concat();
		let stuffed = refm::stuff(&body);
		tags.tag_if(stuffed.len() != body.len(), "stuffed");
		tags.tag_if(status, "status");
		tags.tag_if(body.len() > 1000, "large");
		tags.nontrivial_if(body.len() > 2);
		if stuffed.len() + 2 > 0xFFFF {
			tags.tag("unrepresentable");
			ensure!(result.is_err(), "packet {i}: a frame of {} bytes was accepted", stuffed.len() + 9);
			ensure!(sent.is_empty(), "packet {i}: {} bytes of a frame that does not fit the length field were sent", sent.len());
		} else {
			ensure_eq!(result, Ok(()), "packet {i}: result of sending");
			let expected = refm::frame_body(id, &body);
			ensure!(sent == expected, "packet {i}: sent {}, expected {}", hex(&sent), hex(&expected));
			// Cross-check of the reference model.
			let parsed = refm::parse_frame(&sent)?;
			ensure!(parsed.id == id && parsed.instruction == body[0] && parsed.params == body[1..], "reference parser disagrees");
		}
	}
	Ok(())
}

/// High level commands near the maximum size.
fn check_c01_cmd(cmd: &Cmd, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let mut client = client(&port, 64, 80_000);
	let outcome = exec(&mut client, cmd);
	let sent = port.with(|c| c.written()).concat();
	let need = cmd.frame_len();
	tags.nontrivial();
	if need - 7 > 0xFFFF {
		tags.tag("unrepresentable");
		ensure!(outcome.started.is_err(), "a frame of {need} bytes was accepted");
		ensure!(sent.is_empty(), "{} bytes of a frame that does not fit the length field were sent", sent.len());
	} else {
		ensure_eq!(outcome.started, Ok(()), "result of sending");
		ensure!(sent == cmd.frame(), "sent {}, expected {}", hex(&sent), hex(&cmd.frame()));
	}
	Ok(())
}

fn large_cmd() -> BoxedStrategy<Cmd> {
	prop_oneof![
		(gen::addr(), 65_500usize..65_560, any::<u8>()).prop_map(|(addr, len, x)| Cmd::WriteBytes {
			id: 254,
			addr,
			data: vec![x; len]
		}),
		(gen::addr(), 65_500usize..65_560, any::<u8>()).prop_map(|(addr, len, x)| Cmd::RegWriteBytes {
			id: 254,
			addr,
			data: vec![x; len]
		}),
		(gen::addr(), 200u16..320, any::<u8>(), 200u8..253).prop_map(|(addr, count, x, n)| Cmd::SyncWriteBytes {
			addr,
			count,
			writes: (0..n).map(|id| (id, vec![x; count as usize])).collect()
		}),
		(gen::addr(), 200u16..320, any::<u8>(), 200u8..253).prop_map(|(addr, count, x, n)| Cmd::BulkWrite {
			writes: (0..n).map(|id| (id, addr, vec![x; count as usize])).collect()
		}),
	]
	.boxed()
}

pub fn c01(ctx: &mut Ctx) {
	ctx.rule = "sequences of packets sent by one client and one device (any ID, instruction/error byte, parameters up to beyond the 16-bit limit), compared byte for byte with a reference encoder; non-trivial: has parameters";
	ctx.pbt("sequence", ctx.n(40_000, 400_000), || proptest::collection::vec(send_strategy(false), 1..5).boxed(), check_c01);
	ctx.pbt("large", ctx.n(1_500, 15_000), || proptest::collection::vec(send_strategy(true), 1..3).boxed(), check_c01);
	ctx.pbt("large_command", ctx.n(400, 4_000), large_cmd, check_c01_cmd);
}

// C02

/// Check both directions for one body.
fn check_c02(body: &Vec<u8>, tags: &mut Tags) -> Result<(), String> {
	let stuffed = refm::stuff(body);
	tags.tag_if(stuffed.len() != body.len(), "stuffed");
	tags.tag_if(stuffed.len() >= body.len() + 2, "stuffed_twice");
	tags.nontrivial_if(body.windows(2).any(|x| x == [0xFF, 0xFF]));
	tags.sub_evals(3);
	let size = body.len() * 2 + 32;

	// Sending: as instruction packet, and as status packet.
	let (cp, dp) = (SimPort::new(BAUD), SimPort::new(BAUD));
	let mut client = client(&cp, size, size);
	let mut device = device(&dp, size, size);
	for status in [false, true] {
		let port = if status { &dp } else { &cp };
		let full = if status { [&[0x55], body.as_slice()].concat() } else { body.clone() };
		let result = send(&mut client, &mut device, status, 1, &full);
		ensure_eq!(result, Ok(()), "result of sending");
		let sent = port.with(|c| c.written()).concat();
		let expected = refm::stuff(&full);
		ensure!(
			sent.len() == expected.len() + 9 && sent[7..sent.len() - 2] == expected[..],
			"body {} (status: {status}) was sent as {}, expected {}",
			hex(&full),
			hex(sent.get(7..sent.len().saturating_sub(2)).unwrap_or(&[])),
			hex(&expected)
		);
	}

	// Receiving: as instruction packet.
	if body[0] != 0x55 {
		let frame = refm::frame_body(1, body);
		dp.with(|c| c.push(c.now, &frame));
		let packet = device.read_raw_instruction_timeout(Duration::from_millis(1));
		match packet {
			Ok(p) => {
				let got = [&[p.instruction_id()], p.parameters()].concat();
				ensure!(got == *body, "frame {} was received as {}, expected {}", hex(&frame), hex(&got), hex(body));
			},
			Err(e) => return Err(format!("frame {} was not received: {e:?}", hex(&frame))),
		}
	}

	// Receiving: as status packet, with the body as error byte and parameters or as parameters only.
	let frame = refm::frame_body(1, &[&[0x55], body.as_slice()].concat());
	cp.with(|c| c.push(c.now, &frame));
	match client.read_status_response_timeout(Duration::from_millis(1)) {
		Ok(s) => {
			let got = [&[s.error()], s.parameters()].concat();
			ensure!(got == *body, "status {} was received as {}, expected {}", hex(&frame), hex(&got), hex(body));
		},
		Err(dynamixel2::ReadError::MotorError(e)) if body[0] & 0x7F != 0 => {
			ensure_eq!(e.raw, body[0], "raw motor error");
		},
		Err(e) => return Err(format!("status {} was not received: {e:?}", hex(&frame))),
	}
	let frame = refm::status(1, 0, body);
	cp.with(|c| c.push(c.now, &frame));
	match client.read_status_response_timeout(Duration::from_millis(1)) {
		Ok(s) => ensure!(
			s.parameters() == body,
			"parameters of status {} were received as {}, expected {}",
			hex(&frame),
			hex(s.parameters()),
			hex(body)
		),
		Err(e) => return Err(format!("status {} was not received: {e:?}", hex(&frame))),
	}
	Ok(())
}

/// All non-empty strings of up to `max` symbols, divided over the shards.
pub fn strings(alphabet: &'static [u8], max: u32, shard: usize) -> impl Iterator<Item = Vec<u8>> {
	let n = alphabet.len() as u64;
	(1..=max).flat_map(move |len| {
		(0..n.pow(len))
			.skip(shard)
			.step_by(crate::runner::SHARDS)
			.map(move |mut i| {
				let mut out = Vec::with_capacity(len as usize);
				for _ in 0..len {
					out.push(alphabet[(i % n) as usize]);
					i /= n;
				}
				out
			})
	})
}

pub fn c02(ctx: &mut Ctx) {
	ctx.rule = "bodies sent and received in instruction and status packets, compared with a reference codec: all strings over {FF,FD}, {FF,FD,00} and {FF,FD,00,01,55} up to a length, and random bodies; non-trivial: contains FF FF";
	let (a, b, c) = if ctx.thorough { (16, 11, 8) } else { (13, 9, 6) };
	ctx.enumerate("all_ff_fd", move |s| strings(&[0xFF, 0xFD], a, s), check_c02);
	ctx.enumerate("all_ff_fd_00", move |s| strings(&[0xFF, 0xFD, 0x00], b, s), check_c02);
	ctx.enumerate("all_five", move |s| strings(&[0xFF, 0xFD, 0x00, 0x01, 0x55], c, s), check_c02);
	ctx.pbt("random", ctx.n(40_000, 600_000), || gen::data(1, 300), check_c02);
	// Many stuffing positions in one packet.
	ctx.pbt("dense", ctx.n(1_500, 20_000), || gen::big_len(6_000).prop_flat_map(|n| gen::big(n.max(1), n.max(1))).boxed(), check_c02);
	ctx.pbt("dense_large", ctx.n(40, 600), || gen::big_len(48_000).prop_flat_map(|n| gen::big(n.max(1), n.max(1))).boxed(), check_c02);
}

// C03

fn check_c03(cmds: &Vec<Cmd>, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let size = cmds.iter().map(|x| x.wire().2.len()).max().unwrap_or(0);
	let mut client = client(&port, 256, (size * 3 / 2 + 64).max(8192));
	for cmd in cmds {
		tags.tag(cmd.name());
		tags.tag_if(cmd.wire().2.len() > 1000, "large");
		tags.nontrivial_if(!cmd.wire().2.is_empty());
		port.with(|c| c.log.clear());
		let outcome = exec(&mut client, cmd);
		ensure_eq!(outcome.started, Ok(()), "result of sending {}", cmd.name());
		let sent = port.with(|c| c.written()).concat();
		let expected = cmd.frame();
		ensure!(sent == expected, "{cmd:?} was sent as {}, expected {}", hex(&sent), hex(&expected));
	}
	Ok(())
}

/// Commands with a lot of data.
pub fn big_cmd(max: usize) -> BoxedStrategy<Cmd> {
	let data = move |max: usize| gen::big_len(max).prop_flat_map(|n| gen::big(n, n)).boxed();
	let id = gen::motor_or_broadcast;
	let typed = || gen::big_ty().prop_flat_map(|ty| (Just(ty), gen::big(ty.size(), ty.size()))).boxed();
	// The same motor may be asked any number of times.
	let many = move || {
		prop_oneof![
			2 => gen::sync_ids(254),
			1 => (proptest::collection::vec(gen::motor_id(), 1..300), gen::big_len(max.min(2_000))).prop_map(|(ids, n)| ids.into_iter().cycle().take(n).collect()),
		]
	};
	prop_oneof![
		2 => (id(), gen::addr(), data(max)).prop_map(|(id, addr, data)| Cmd::WriteBytes { id, addr, data }),
		2 => (id(), gen::addr(), data(max)).prop_map(|(id, addr, data)| Cmd::RegWriteBytes { id, addr, data }),
		2 => (gen::any_id(), any::<u8>(), data(max)).prop_map(|(id, instruction, params)| Cmd::RawWrite { id, instruction, params }),
		2 => (id(), gen::addr(), typed()).prop_map(|(id, addr, (ty, val))| Cmd::Write { id, addr, ty, val }),
		2 => (id(), gen::addr(), typed()).prop_map(|(id, addr, (ty, val))| Cmd::RegWrite { id, addr, ty, val }),
		1 => (gen::motor_id(), gen::addr(), gen::big_ty()).prop_map(|(id, addr, ty)| Cmd::Read { id, addr, ty }),
		1 => (many(), gen::addr(), gen::ty(), gen::big(1, 60)).prop_map(|(ids, addr, ty, bytes)| Cmd::SyncWrite {
			addr,
			ty,
			writes: ids.into_iter().take(40_000 / (1 + ty.size())).enumerate().map(|(i, id)| (id, bytes.iter().map(|b| b ^ id ^ (i >> 8) as u8).cycle().skip(i % 7).take(ty.size()).collect())).collect(),
		}),
		1 => (many(), gen::addr(), 0usize..9, gen::big(1, 60)).prop_map(|(ids, addr, count, bytes)| Cmd::SyncWriteBytes {
			addr,
			count: count as u16,
			writes: ids.into_iter().enumerate().map(|(i, id)| (id, bytes.iter().map(|b| b ^ id ^ (i >> 8) as u8).cycle().skip(i % 7).take(count).collect())).collect(),
		}),
		1 => (many(), gen::addr(), gen::ty()).prop_map(|(ids, addr, ty)| Cmd::SyncRead { ids, addr, ty, via: Via::Next }),
		1 => (gen::sync_ids(254), gen::addr(), gen::big_ty()).prop_map(|(ids, addr, ty)| Cmd::SyncRead { ids, addr, ty, via: Via::Next }),
		1 => (many(), gen::addr(), any::<u16>()).prop_map(|(ids, addr, count)| Cmd::SyncReadBytes { ids, addr, count, via: Via::Next }),
		1 => (gen::ids(254), gen::addr(), any::<u16>()).prop_map(|(ids, addr, count)| Cmd::BulkRead {
			reads: ids.into_iter().enumerate().map(|(i, id)| (id, addr.wrapping_add(i as u16 * 31), count.wrapping_add(i as u16 * 7))).collect(),
			via: Via::Next,
		}),
		2 => (gen::id_list(8), gen::addr(), gen::big_ty(), gen::big(1, 600)).prop_map(|(ids, addr, ty, bytes)| Cmd::SyncWrite {
			addr,
			ty,
			writes: ids.into_iter().map(|id| (id, bytes.iter().map(|b| b ^ id).cycle().take(ty.size()).collect())).collect(),
		}),
		2 => (gen::id_list(5), gen::addr(), gen::big_len(max / 5), gen::big(1, 600)).prop_map(|(ids, addr, count, bytes)| Cmd::SyncWriteBytes {
			addr,
			count: count as u16,
			writes: ids.into_iter().map(|id| (id, bytes.iter().map(|b| b ^ id).cycle().take(count).collect())).collect(),
		}),
		1 => (gen::ids(254), gen::addr(), 0usize..20, gen::big(1, 60)).prop_map(|(ids, addr, count, bytes)| Cmd::SyncWriteBytes {
			addr,
			count: count as u16,
			writes: ids.into_iter().map(|id| (id, bytes.iter().map(|b| b ^ id).cycle().take(count).collect())).collect(),
		}),
		2 => (gen::id_list(5), proptest::collection::vec((gen::addr(), gen::big_len(max / 5)), 5), gen::big(1, 600)).prop_map(|(ids, blocks, bytes)| Cmd::BulkWrite {
			writes: ids.into_iter().zip(blocks).map(|(id, (addr, count))| (id, addr, bytes.iter().map(|b| b ^ id).cycle().take(count).collect())).collect(),
		}),
		1 => (gen::motor_id(), gen::addr(), data(max)).prop_map(|(id, addr, data)| Cmd::BulkWrite { writes: vec![(id, addr, data)] }),
		1 => (gen::ids(254), gen::addr(), 0usize..20, gen::big(1, 60)).prop_map(|(ids, addr, count, bytes)| Cmd::BulkWrite {
			writes: ids.into_iter().map(|id| (id, addr.wrapping_add(u16::from(id)), bytes.iter().map(|b| b ^ id).cycle().take(count + usize::from(id % 5)).collect())).collect(),
		}),
	]
	.boxed()
}

pub fn c03(ctx: &mut Ctx) {
	ctx.rule = "sequences of client commands with generated arguments on one client without replies, compared with the documented encoding of each command; non-trivial: the command has parameters";
	let cfg = gen::Cfg {
		count: u16::MAX,
		data: 120,
		motors: 30,
		..gen::CFG
	};
	ctx.pbt("commands", ctx.n(60_000, 600_000), move || proptest::collection::vec(gen::cmd(cfg), 1..4).boxed(), check_c03);
	ctx.pbt(
		"register_commands",
		ctx.n(40_000, 400_000),
		move || {
			(gen::motor_or_broadcast(), gen::addr(), gen::ty(), gen::id_list(6))
				.prop_flat_map(|(id, addr, ty, ids)| {
					let n = ids.len();
					let value = || gen::data_exact(ty.size());
					(Just((id, addr, ty, ids)), value(), proptest::collection::vec(value(), n))
				})
				.prop_map(|((id, addr, ty, ids), val, vals)| {
					vec![
						Cmd::Write {
							id,
							addr,
							ty,
							val: val.clone(),
						},
						Cmd::RegWrite { id, addr, ty, val },
						Cmd::SyncWrite {
							addr,
							ty,
							writes: ids.iter().copied().zip(vals).collect(),
						},
						Cmd::SyncRead {
							ids,
							addr,
							ty,
							via: Via::Next,
						},
					]
				})
				.boxed()
		},
		check_c03,
	);
	ctx.pbt("large", ctx.n(6_000, 60_000), || big_cmd(3_000).prop_map(|x| vec![x]).boxed(), check_c03);
	ctx.pbt("very_large", ctx.n(200, 2_000), || big_cmd(48_000).prop_map(|x| vec![x]).boxed(), check_c03);
}

// C13

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WriteCase {
	cmd: Cmd,
	/// Send the parameters of a `RawWrite` as status packet instead.
	status: bool,
	/// Size of the write buffer relative to the frame.
	slack: i32,
}

fn check_c13(case: &WriteCase, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let status = match &case.cmd {
		Cmd::RawWrite { id, instruction, params } if case.status => Some((*id, *instruction, params.clone())),
		_ => None,
	};
	let (_, instruction, params) = case.cmd.wire();
	let need = match &status {
		Some((_, error, params)) => refm::frame_len(0x55, &[&[*error], params.as_slice()].concat()),
		None => refm::frame_len(instruction, &params),
	};
	// There is no such frame if the length field can not represent it.
	let representable = need - 7 <= 0xFFFF;
	let frame = match &status {
		_ if !representable => vec![],
		Some((id, error, params)) => refm::status(*id, *error, params),
		None => case.cmd.frame(),
	};
	let size = (need as i64 + i64::from(case.slack)).max(10) as usize;
	tags.tag_if(size < need, "too_small");
	tags.tag_if(size == need, "exact");
	tags.tag_if(size + 1 == need, "one_short");
	let stuffing = need - if status.is_some() { 11 } else { 10 } - params.len();
	tags.tag_if(stuffing > 0, "stuffed");
	tags.tag_if(stuffing > 0 && size < need && size + stuffing + 2 >= need, "short_by_stuffing");
	tags.nontrivial_if(case.slack.abs() <= 4);
	let started = match &status {
		Some((id, error, params)) => {
			let mut device = device(&port, 64, size);
			device
				.write_status(*id, *error, params.len(), |b| {
					b.copy_from_slice(params);
					Ok(())
				})
				.map_err(norm_write)
		},
		None => {
			let mut client = client(&port, 64, size);
			let started = exec(&mut client, &case.cmd).started;
			// A failure must not disturb the next packet.
			if size < need && representable {
				let before = port.with(|c| c.written().len());
				ensure_eq!(before, 0, "packets sent although the buffer is too small");
				let next = exec(&mut client, &Cmd::BroadcastReboot).started;
				ensure_eq!(next, Ok(()), "sending a small packet after a too large one");
				let sent = port.with(|c| c.written()).concat();
				ensure!(sent == Cmd::BroadcastReboot.frame(), "small packet after a too large one was sent as {}", hex(&sent));
				port.with(|c| c.log.clear());
			}
			started
		},
	};
	let sent = port.with(|c| c.written()).concat();
	if !representable {
		tags.tag("unrepresentable");
		ensure!(started.is_err() && sent.is_empty(), "a frame of {need} bytes, which the length field can not represent, gave {started:?} and {} bytes were sent", sent.len());
	} else if size >= need {
		ensure_eq!(started, Ok(()), "frame of {need} bytes with a buffer of {size} bytes");
		ensure!(sent == frame, "sent {}, expected {}", hex(&sent), hex(&frame));
	} else {
		ensure!(sent.is_empty(), "{} bytes were sent although the frame of {need} bytes does not fit the buffer of {size} bytes", sent.len());
		match started {
			Err(Bad::WriteBuffer { required, total }) => {
				ensure_eq!(total, size, "reported buffer size");
				ensure!(
					required > size && required <= need,
					"reported required size {required} for a frame of {need} bytes and a buffer of {size} bytes"
				);
			},
			other => return Err(format!("frame of {need} bytes with a buffer of {size} bytes: {other:?}")),
		}
	}
	Ok(())
}

/// Callback contracts.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CallbackCase {
	status: bool,
	id: u8,
	byte: u8,
	params: Vec<u8>,
	fail: Option<(u16, u16)>,
}

/// A register value that can not be encoded.
struct Unencodable;
impl dynamixel2::bus::Data for Unencodable {
	const ENCODED_SIZE: u16 = 5;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		assert_eq!(buffer.len(), 5, "buffer for a register value of 5 bytes");
		Err(BufferTooSmallError {
			required_size: 77,
			total_size: 33,
		})
	}
	fn decode(_: &[u8]) -> Result<Self, dynamixel2::InvalidMessage> {
		unreachable!()
	}
}

fn check_callback(case: &CallbackCase, tags: &mut Tags) -> Result<(), String> {
	tags.tag_if(case.fail.is_some(), "fails");
	tags.nontrivial_if(!case.params.is_empty() || case.fail.is_some());
	let port = SimPort::new(BAUD);
	let mut device = device(&port, 64, 1024);
	let mut client = client(&port, 64, 1024);
	let mut seen = None;
	let mut calls = 0;
	let callback = |b: &mut [u8]| {
		calls += 1;
		seen = Some(b.len());
		match case.fail {
			Some((r, t)) => Err(BufferTooSmallError {
				required_size: r.into(),
				total_size: t.into(),
			}),
			None => {
				b.copy_from_slice(&case.params);
				Ok(())
			},
		}
	};
	let n = case.params.len();
	let result: Result<(), WriteError<_>> = match case.status {
		true => device.write_status(case.id, case.byte, n, callback),
		false => client.write_instruction(case.id, case.byte, n, callback),
	};
	ensure_eq!(calls, 1, "number of times the parameters were requested");
	ensure_eq!(seen, Some(n), "size of the parameter buffer");
	let sent = port.with(|c| c.written()).concat();
	match case.fail {
		Some((r, t)) => {
			ensure_eq!(
				result.map_err(norm_write),
				Err(Bad::WriteBuffer {
					required: r.into(),
					total: t.into()
				}),
				"error returned by the callback"
			);
			ensure!(sent.is_empty(), "a packet was sent although its parameters could not be encoded");
		},
		None => {
			ensure_eq!(result.map_err(norm_write), Ok(()), "result");
			let frame = if case.status {
				refm::status(case.id, case.byte, &case.params)
			} else {
				refm::frame(case.id, case.byte, &case.params)
			};
			ensure!(sent == frame, "sent {}, expected {}", hex(&sent), hex(&frame));
		},
	}
	// Values that fail to encode.
	port.with(|c| c.log.clear());
	let expect = |what: &str, r: Result<(), Bad>| -> Result<(), String> {
		ensure_eq!(r, Err(Bad::WriteBuffer { required: 77, total: 33 }), "{what} of a value that can not be encoded");
		Ok(())
	};
	let id = case.id;
	expect("write", client.write(id, 1, &Unencodable).map(|_| ()).map_err(crate::cmd::norm_transfer))?;
	expect("reg_write", client.reg_write(id, 1, &Unencodable).map(|_| ()).map_err(crate::cmd::norm_transfer))?;
	let data = [SyncWriteData {
		motor_id: id,
		data: Unencodable,
	}];
	expect("sync_write", client.sync_write::<_, _, Unencodable>(1, &data).map_err(norm_write))?;
	ensure!(port.with(|c| c.written()).is_empty(), "a packet was sent although its value could not be encoded");
	Ok(())
}

pub fn c13(ctx: &mut Ctx) {
	ctx.rule = "commands and status packets sent with write buffers of a size around the exact frame size; callbacks that fail; non-trivial: buffer size within 4 bytes of the frame size, or callback case with parameters";
	let cfg = gen::Cfg {
		data: 100,
		motors: 10,
		..gen::CFG
	};
	ctx.pbt(
		"buffer_size",
		ctx.n(80_000, 800_000),
		move || {
			(gen::cmd(cfg), any::<bool>(), prop_oneof![6 => -4i32..=4, 2 => -30i32..=10, 1 => 0i32..200])
				.prop_map(|(cmd, status, slack)| WriteCase { cmd, status, slack })
				.boxed()
		},
		check_c13,
	);
	for (name, n, max) in [("large", ctx.n(6_000, 60_000), 3_000), ("very_large", ctx.n(200, 2_000), 48_000)] {
		ctx.pbt(
			name,
			n,
			move || {
				(big_cmd(max), any::<bool>(), prop_oneof![6 => -4i32..=4, 2 => -300i32..=10])
					.prop_map(|(cmd, status, slack)| WriteCase { cmd, status, slack })
					.boxed()
			},
			check_c13,
		);
	}
	// Frames that barely fit the length field.
	ctx.pbt(
		"length_limit",
		ctx.n(400, 4_000),
		|| {
			let params = (gen::any_id(), gen::nasty_byte(), proptest::collection::vec(gen::fragment(), 1..4), -12isize..=3).prop_map(|(id, instruction, pattern, delta)| {
				let mut params: Vec<u8> = pattern.concat().into_iter().cycle().take(65_600).collect();
				// Find the length for which the frame is of the largest size.
				let (mut low, mut high) = (0, params.len());
				while low < high {
					let middle = (low + high).div_ceil(2);
					if refm::frame_len(instruction, &params[..middle]) <= 7 + 0xFFFF {
						low = middle;
					} else {
						high = middle - 1;
					}
				}
				params.truncate((low as isize + delta) as usize);
				Cmd::RawWrite { id, instruction, params }
			});
			(params, any::<bool>(), prop_oneof![2 => -4i32..=4, 2 => 0i32..2_000])
				.prop_map(|(cmd, status, slack)| WriteCase { cmd, status, slack })
				.boxed()
		},
		check_c13,
	);
	ctx.pbt(
		"stuffed_buffer_size",
		ctx.n(40_000, 400_000),
		move || {
			(
				gen::any_id(),
				gen::nasty_byte(),
				proptest::collection::vec(gen::fragment(), 1..20).prop_map(|x| x.concat()),
				any::<bool>(),
				-8i32..=3,
			)
				.prop_map(|(id, instruction, params, status, slack)| WriteCase {
					cmd: Cmd::RawWrite { id, instruction, params },
					status,
					slack,
				})
				.boxed()
		},
		check_c13,
	);
	ctx.pbt(
		"callbacks",
		ctx.n(20_000, 200_000),
		|| {
			(any::<bool>(), gen::any_id(), any::<u8>(), gen::data(0, 60), proptest::option::of((any::<u16>(), any::<u16>())))
				.prop_map(|(status, id, byte, params, fail)| CallbackCase {
					status,
					id,
					byte,
					params,
					fail,
				})
				.boxed()
		},
		check_callback,
	);
}

// C22

fn check_crc_exhaustive(initial: &u16, tags: &mut Tags) -> Result<(), String> {
	tags.nontrivial();
	tags.sub_evals(255);
	for byte in 0..=255u8 {
		let got = dynamixel2::checksum::calculate_checksum(*initial, &[byte]);
		let expected = refm::crc(*initial, &[byte]);
		ensure!(got == expected, "checksum of {byte:02X} continued from {initial:04X} is {got:04X}, expected {expected:04X}");
	}
	ensure_eq!(dynamixel2::checksum::calculate_checksum(*initial, &[]), *initial, "checksum of no data");
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CrcCase {
	initial: u16,
	data: Vec<u8>,
	cuts: Vec<u16>,
}

fn check_crc(case: &CrcCase, tags: &mut Tags) -> Result<(), String> {
	tags.nontrivial_if(!case.data.is_empty());
	// Known answer, to check the reference itself.
	ensure_eq!(refm::crc(0, b"123456789"), 0xFEE8, "reference CRC");
	let expected = refm::crc(case.initial, &case.data);
	let got = dynamixel2::checksum::calculate_checksum(case.initial, &case.data);
	ensure!(got == expected, "checksum is {got:04X}, expected {expected:04X}");
	let mut crc = case.initial;
	for part in gen::split(&case.data, &case.cuts) {
		crc = dynamixel2::checksum::calculate_checksum(crc, &part);
	}
	ensure!(crc == expected, "checksum in pieces is {crc:04X}, expected {expected:04X}");
	Ok(())
}

pub fn c22(ctx: &mut Ctx) {
	ctx.rule = "every initial value with every byte (complete), and random data in random pieces, compared with a bitwise CRC; non-trivial: non-empty data";
	ctx.enumerate("every_initial_and_byte", |s| (0..=u16::MAX).skip(s).step_by(crate::runner::SHARDS), check_crc_exhaustive);
	ctx.pbt(
		"pieces",
		ctx.n(40_000, 400_000),
		|| {
			(prop_oneof![Just(0u16), any::<u16>()], prop_oneof![8 => gen::data(0, 64), 1 => gen::data(0, 3000)], gen::cuts())
				.prop_map(|(initial, data, cuts)| CrcCase { initial, data, cuts })
				.boxed()
		},
		check_crc,
	);
}

// C23

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Request {
	BulkRead { reads: Vec<(u8, u16, u16)>, borrow: bool },
	BulkWrite { writes: Vec<(u8, u16, Vec<u8>)> },
	/// Sizes only, for very large writes.
	BulkWriteSizes { sizes: Vec<(u8, u32)> },
	SyncWriteBytes { addr: u16, count: u16, writes: Vec<(u8, Vec<u8>)> },
	Allowed(Cmd),
}

fn check_c23(case: &Request, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let mut client = client(&port, 64, 140_000);
	fn dup(ids: &[u8]) -> bool {
		(0..ids.len()).any(|i| ids[..i].contains(&ids[i]))
	}
	let (forbidden, result): (bool, Result<Result<(), Bad>, String>) = match case {
		Request::BulkRead { reads, borrow } => {
			let data: Vec<BulkReadData> = reads
				.iter()
				.map(|r| BulkReadData {
					motor_id: r.0,
					address: r.1,
					count: r.2,
				})
				.collect();
			let ids: Vec<u8> = reads.iter().map(|r| r.0).collect();
			let r = guard(|| match borrow {
				true => client.bulk_read_bytes_borrow::<crate::cmd::View>(&data).map(drop).map_err(norm_write),
				false => client.bulk_read_bytes::<Vec<u8>>(&data).map(drop).map_err(norm_write),
			});
			(dup(&ids), r)
		},
		Request::BulkWrite { writes } => {
			let data: Vec<BulkWriteData<&[u8]>> = writes
				.iter()
				.map(|w| BulkWriteData {
					motor_id: w.0,
					address: w.1,
					data: w.2.as_slice(),
				})
				.collect();
			let ids: Vec<u8> = writes.iter().map(|r| r.0).collect();
			(dup(&ids), guard(|| client.bulk_write(&data).map_err(norm_write)))
		},
		Request::BulkWriteSizes { sizes } => {
			let data: Vec<BulkWriteData<Vec<u8>>> = sizes
				.iter()
				.map(|(id, size)| BulkWriteData {
					motor_id: *id,
					address: 7,
					data: vec![1; *size as usize],
				})
				.collect();
			let ids: Vec<u8> = sizes.iter().map(|r| r.0).collect();
			let large = sizes.iter().any(|x| x.1 > 65535);
			tags.tag_if(large, "oversized_data");
			(dup(&ids) || large, guard(|| client.bulk_write(&data).map_err(norm_write)))
		},
		Request::SyncWriteBytes { addr, count, writes } => {
			let data: Vec<SyncWriteData<&[u8]>> = writes
				.iter()
				.map(|w| SyncWriteData {
					motor_id: w.0,
					data: w.1.as_slice(),
				})
				.collect();
			let bad = writes.iter().any(|w| w.1.len() != usize::from(*count));
			(bad, guard(|| client.sync_write_bytes(*addr, *count, &data).map_err(norm_write)))
		},
		Request::Allowed(cmd) => {
			tags.tag(cmd.name());
			(false, guard(|| exec(&mut client, cmd).started))
		},
	};
	let sent = port.with(|c| c.written()).concat();
	tags.tag_if(forbidden, "forbidden");
	tags.nontrivial();
	match (forbidden, result) {
		(true, Err(_)) => ensure!(sent.is_empty(), "a forbidden request panicked, but only after sending {}", hex(&sent)),
		(true, Ok(r)) => return Err(format!("a forbidden request was not rejected: {r:?}, sent {}", hex(&sent))),
		(false, Err(p)) => return Err(format!("an allowed request panicked: {p}")),
		// Allowed requests must either be sent, or be refused because they do not fit in a packet.
		(false, Ok(Ok(()))) => ensure!(!sent.is_empty(), "an allowed request was accepted but not sent"),
		(false, Ok(Err(e))) => match e {
			Bad::WriteBuffer { .. } => ensure!(sent.is_empty(), "a refused request was sent"),
			e => return Err(format!("an allowed request failed: {e:?}")),
		},
	}
	if let Request::Allowed(cmd) = case {
		if cmd.frame_len() - 7 <= 0xFFFF {
			ensure!(sent == cmd.frame(), "{cmd:?} was sent as {}", hex(&sent));
		}
	}
	Ok(())
}

fn request() -> BoxedStrategy<Request> {
	// Lists with a duplicate inserted in about half of the cases.
	fn ids() -> BoxedStrategy<Vec<u8>> {
		(gen::id_list(12), proptest::option::of((any::<prop::sample::Index>(), any::<prop::sample::Index>())))
			.prop_map(|(mut ids, dup)| {
				if let (Some((a, b)), false) = (dup, ids.is_empty()) {
					let id = ids[a.index(ids.len())];
					ids.insert(b.index(ids.len() + 1), id);
				}
				ids
			})
			.boxed()
	}
	prop_oneof![
		3 => ids().prop_flat_map(|ids| { let n = ids.len(); (Just(ids), proptest::collection::vec((gen::addr(), 0u16..20), n), any::<bool>()) })
			.prop_map(|(ids, x, borrow)| Request::BulkRead { reads: ids.into_iter().zip(x).map(|(id, (a, c))| (id, a, c)).collect(), borrow }),
		3 => ids().prop_flat_map(|ids| { let n = ids.len(); (Just(ids), proptest::collection::vec((gen::addr(), gen::data(0, 10)), n)) })
			.prop_map(|(ids, x)| Request::BulkWrite { writes: ids.into_iter().zip(x).map(|(id, (a, d))| (id, a, d)).collect() }),
		3 => (gen::addr(), 0u16..8, proptest::collection::vec((gen::motor_id(), -2i32..3, prop_oneof![2 => Just(true), 1 => Just(false)]), 0..6))
			.prop_map(|(addr, count, x)| Request::SyncWriteBytes {
				addr,
				count,
				writes: x.into_iter().map(|(id, d, same)| (id, vec![id; if same { i32::from(count) } else { (i32::from(count) + d).max(0) } as usize])).collect(),
			}),
		3 => gen::cmd(gen::Cfg { data: 20, count: u16::MAX, motors: 40, ..gen::CFG }).prop_map(Request::Allowed),
		1 => prop_oneof![
			Just(Cmd::SyncRead { ids: vec![], addr: 0, ty: Ty::U32, via: Via::Next }),
			Just(Cmd::BulkRead { reads: vec![], via: Via::Iter }),
			Just(Cmd::BulkWrite { writes: vec![] }),
			Just(Cmd::SyncWrite { addr: 0, ty: Ty::U16, writes: vec![] }),
			Just(Cmd::SyncWriteBytes { addr: 0, count: 65535, writes: vec![] }),
			Just(Cmd::SyncReadBytes { ids: (0..=252).collect(), addr: 0, count: 65535, via: Via::Next }),
			Just(Cmd::BulkRead { reads: (0..=252).map(|id| (id, 0, 65535)).collect(), via: Via::Next }),
			Just(Cmd::ReadBytes { id: 1, addr: 65535, count: 65535 }),
		].prop_map(Request::Allowed),
	]
	.boxed()
}

pub fn c23(ctx: &mut Ctx) {
	ctx.scale = 24.0;
	ctx.rule = "bulk reads/writes with and without duplicate IDs at any position, sync writes with data of the wrong size at any position, data sizes around 65535, and allowed requests of any size; every case is non-trivial (it is on one side of a documented precondition)";
	ctx.pbt("requests", ctx.n(40_000, 400_000), request, check_c23);
	ctx.pbt(
		"large_bulk_writes",
		ctx.n(400, 4_000),
		|| {
			(proptest::collection::vec(prop_oneof![2 => 0u32..10, 2 => 65_500u32..65_600, 1 => 131_000u32..131_200, 1 => Just(65_536u32)], 1..3))
				.prop_map(|sizes| Request::BulkWriteSizes {
					sizes: sizes.into_iter().enumerate().map(|(i, s)| (i as u8 + 1, s)).collect(),
				})
				.boxed()
		},
		check_c23,
	);
}
