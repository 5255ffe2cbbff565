//! Replies to commands: C06, C07, C12, C14, C17, C19.

use super::*;
use crate::cmd::{exec_n, judge, norm_read, norm_write, Bad, Expect, Good, Item, Reply, Via};
use crate::gen;
use crate::refm::{self, ins, BROADCAST};
use crate::runner::{Ctx, Tags, SHARDS};
use crate::sim::{Call, Core, SimError};
use crate::{ensure, ensure_eq};
use dynamixel2::instructions::Ping;
use dynamixel2::Response;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// The motors that have to reply, with the number of parameters.
pub fn expected_replies(cmd: &Cmd) -> Vec<(u8, u16)> {
	match cmd.expect() {
		Expect::Replies(x) => x,
		_ => vec![],
	}
}

/// The number of parameters the library has to insist on.
pub fn enforced_count(cmd: &Cmd, count: u16) -> Option<u16> {
	match cmd {
		// Raw transfers leave the interpretation of the parameters to the caller.
		Cmd::Raw { .. } => None,
		_ => Some(count),
	}
}

/// Commands with correct replies of which the error byte is generated by the given strategy.
pub fn answered(cmd: BoxedStrategy<Cmd>, error: fn() -> BoxedStrategy<u8>) -> BoxedStrategy<(Cmd, Vec<Reply>)> {
	cmd.prop_flat_map(move |cmd| {
		let replies: Vec<BoxedStrategy<Reply>> = expected_replies(&cmd)
			.into_iter()
			.map(|(id, count)| {
				(error(), gen::data_exact(count.into()))
					.prop_map(move |(error, data)| Reply { id, error, data })
					.boxed()
			})
			.collect();
		(Just(cmd), replies)
	})
	.boxed()
}

// C06

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Answered {
	cmd: Cmd,
	replies: Vec<Reply>,
	cuts: Vec<u16>,
}

fn check_c06(case: &Answered, tags: &mut Tags) -> Result<(), String> {
	let stream: Vec<u8> = case.replies.iter().flat_map(|x| x.frame()).collect();
	let (outcome, _) = exec_sized(&case.cmd, gen::split(&stream, &case.cuts), (stream.len() + 64).max(4096));
	tags.tag(case.cmd.name());
	tags.tag_if(case.replies.iter().any(|x| x.data.len() > 255), "large");
	tags.tag_if(case.replies.iter().any(|x| x.error & 0x80 != 0), "alert");
	tags.tag_if(case.replies.iter().any(|x| x.error & 0x7F != 0), "motor_error");
	tags.nontrivial_if(case.replies.iter().any(|x| !x.data.is_empty() || x.error != 0));
	ensure_eq!(outcome.started, Ok(()), "transmission");
	ensure_eq!(outcome.items.len(), case.replies.len(), "number of results");
	for (i, (reply, item)) in case.replies.iter().zip(&outcome.items).enumerate() {
		let expected = judge(reply, Some(reply.id), None);
		ensure!(expected.contains(item), "result {i} is {item:?}, expected {:?}", expected[0]);
	}
	Ok(())
}

/// Raw status packets and the conversions of them.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StatusCase {
	reply: Reply,
	auto: bool,
}

fn check_status(case: &StatusCase, tags: &mut Tags) -> Result<(), String> {
	let Reply { id, error, data } = &case.reply;
	let port = SimPort::new(BAUD);
	answer(&port, vec![case.reply.frame()]);
	let mut client = client(&port, 1024, 64);
	client.write_instruction(BROADCAST, 1, 0, |_| Ok(())).map_err(|e| format!("{e:?}"))?;
	let status = if case.auto {
		client.read_status_response(data.len() as u16)
	} else {
		client.read_status_response_timeout(Duration::from_millis(1))
	};
	tags.nontrivial();
	tags.tag_if(error & 0x7F != 0, "error");
	tags.tag_if(error & 0x80 != 0, "alert");
	let status = match status {
		Ok(x) => x,
		Err(e) => {
			let e = norm_read(e);
			ensure!(error & 0x7F != 0, "status with error byte {error:02X} was rejected: {e:?}");
			ensure_eq!(e, Bad::Motor { raw: *error }, "reported error");
			return Ok(());
		},
	};
	ensure!(error & 0x7F == 0, "status with error byte {error:02X} was accepted");
	ensure_eq!(status.packet_id(), *id, "packet ID");
	ensure_eq!(status.instruction_id(), 0x55, "instruction ID");
	ensure_eq!(status.error(), *error, "error byte");
	ensure_eq!(status.error_number(), error % 128, "error number");
	ensure_eq!(status.alert(), *error >= 128, "alert bit");
	ensure_eq!(status.parameters(), data.as_slice(), "parameters");
	let bytes: Response<&[u8]> = status.into();
	ensure_eq!((bytes.motor_id, bytes.alert, bytes.data), (*id, *error >= 128, data.as_slice()), "response with bytes");
	let empty: Result<Response<()>, _> = status.try_into();
	match empty {
		Ok(r) => {
			ensure!(data.is_empty(), "response with {} parameters was taken to be empty", data.len());
			ensure_eq!((r.motor_id, r.alert), (*id, *error >= 128), "empty response");
		},
		Err(e) => {
			ensure!(!data.is_empty(), "empty response was rejected: {e:?}");
			ensure_eq!(
				crate::cmd::norm_count(e),
				Bad::Count {
					actual: data.len(),
					expected: "=0".into()
				},
				"error for response with parameters"
			);
		},
	}
	let ping: Result<Response<Ping>, _> = status.try_into();
	match ping {
		Ok(r) => {
			ensure_eq!(data.len(), 3, "number of parameters accepted for a ping response");
			ensure_eq!(
				(r.motor_id, r.alert, r.data.model, r.data.firmware),
				(*id, *error >= 128, u16::from(data[0]) + 256 * u16::from(data[1]), data[2]),
				"ping response"
			);
		},
		Err(e) => ensure_eq!(
			crate::cmd::norm_count(e),
			Bad::Count {
				actual: data.len(),
				expected: "=3".into()
			},
			"error for ping response"
		),
	}
	Ok(())
}

/// Commands that read a lot.
pub fn big_read(max: u16) -> BoxedStrategy<Cmd> {
	let count = || gen::big_len(max.into()).prop_map(|x| x as u16);
	prop_oneof![
		3 => (gen::motor_id(), gen::addr(), count()).prop_map(|(id, addr, count)| Cmd::ReadBytes { id, addr, count }),
		2 => (gen::motor_id(), gen::addr(), gen::big_ty()).prop_map(|(id, addr, ty)| Cmd::Read { id, addr, ty }),
		1 => (gen::motor_id(), any::<u8>(), gen::data(0, 4), count()).prop_map(|(id, instruction, params, expect)| Cmd::Raw { id, instruction, params, expect }),
		2 => (gen::id_list(4), gen::addr(), gen::big_ty(), proptest::sample::select(vec![Via::Next, Via::Iter]))
			.prop_map(|(ids, addr, ty, via)| Cmd::SyncRead { ids, addr, ty, via }),
		2 => (gen::id_list(4), gen::addr(), count(), gen::via()).prop_map(|(ids, addr, count, via)| Cmd::SyncReadBytes { ids, addr, count, via }),
		2 => (gen::id_list(4), proptest::collection::vec((gen::addr(), count()), 4), gen::via()).prop_map(|(ids, blocks, via)| Cmd::BulkRead {
			reads: ids.into_iter().zip(blocks).map(|(id, (addr, count))| (id, addr, count)).collect(),
			via,
		}),
	]
	.boxed()
}

/// The same as `answered`, for a lot of data.
pub fn answered_big(cmd: BoxedStrategy<Cmd>, error: fn() -> BoxedStrategy<u8>) -> BoxedStrategy<(Cmd, Vec<Reply>)> {
	cmd.prop_flat_map(move |cmd| {
		let replies: Vec<BoxedStrategy<Reply>> = expected_replies(&cmd)
			.into_iter()
			.map(|(id, count)| (error(), gen::big(count.into(), count.into())).prop_map(move |(error, data)| Reply { id, error, data }).boxed())
			.collect();
		(Just(cmd), replies)
	})
	.boxed()
}

pub fn c06(ctx: &mut Ctx) {
	ctx.rule = "every command that expects replies, answered by its motors with generated data and error bytes, in generated pieces; non-trivial: a reply has data or a non-zero error byte";
	let cfg = gen::Cfg {
		broadcast: false,
		..gen::CFG
	};
	ctx.pbt(
		"answered",
		ctx.n(120_000, 1_500_000),
		move || {
			let cmd = prop_oneof![3 => gen::single(cfg), 1 => gen::multi(cfg)].boxed();
			(answered(cmd, gen::error_byte), gen::cuts())
				.prop_map(|((cmd, replies), cuts)| Answered { cmd, replies, cuts })
				.boxed()
		},
		check_c06,
	);
	for (name, n, max) in [("large", ctx.n(5_000, 60_000), 2_500), ("very_large", ctx.n(100, 1_500), 48_000)] {
		ctx.pbt(
			name,
			n,
			move || {
				(answered_big(big_read(max), gen::error_byte), gen::cuts())
					.prop_map(|((cmd, replies), cuts)| Answered { cmd, replies, cuts })
					.boxed()
			},
			check_c06,
		);
	}
	// Every error byte.
	ctx.enumerate(
		"every_error_byte",
		|s| {
			(0..=255u8).skip(s).step_by(SHARDS).flat_map(|error| {
				let cmds = [
					Cmd::Ping { id: 7 },
					Cmd::Read { id: 7, addr: 1, ty: crate::cmd::Ty::I32 },
					Cmd::ReadBytes { id: 7, addr: 0, count: 5 },
					Cmd::ReadBytes { id: 7, addr: 1, count: 5 },
					Cmd::WriteBytes { id: 7, addr: 1, data: vec![1] },
					Cmd::RegWriteBytes { id: 7, addr: 1, data: vec![1] },
					Cmd::Action { id: 7 },
					Cmd::Reboot { id: 7 },
					Cmd::ClearError { id: 7 },
					Cmd::ClearRevolution { id: 7 },
					Cmd::FactoryReset { id: 7, kind: crate::cmd::Kind::KeepId },
					Cmd::SyncRead { ids: vec![7], addr: 1, ty: crate::cmd::Ty::U16, via: crate::cmd::Via::Next },
					Cmd::SyncReadBytes { ids: vec![7], addr: 1, count: 2, via: crate::cmd::Via::Next },
					Cmd::SyncReadBytes { ids: vec![7], addr: 1, count: 2, via: crate::cmd::Via::BorrowCtor },
					Cmd::BulkRead { reads: vec![(7, 1, 2)], via: crate::cmd::Via::Next },
					Cmd::BulkRead { reads: vec![(7, 1, 2)], via: crate::cmd::Via::Borrow },
				];
				cmds.into_iter().map(move |cmd| {
					let replies = expected_replies(&cmd)
						.into_iter()
						.map(|(id, count)| Reply {
							id,
							error,
							data: (1..=count as u8).collect(),
						})
						.collect();
					Answered { cmd, replies, cuts: vec![] }
				})
			})
		},
		check_c06,
	);
	ctx.pbt(
		"status_packets",
		ctx.n(40_000, 400_000),
		|| {
			(gen::any_id(), gen::error_byte(), prop_oneof![1 => gen::data(3, 3), 1 => Just(vec![]), 2 => gen::data(0, 40)], any::<bool>())
				.prop_map(|(id, error, data, auto)| StatusCase {
					reply: Reply { id, error, data },
					auto,
				})
				.boxed()
		},
		check_status,
	);
}

// C07

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mutation {
	None,
	/// Replace fields, with a correct checksum.
	Fields {
		id: Option<u8>,
		instruction: Option<u8>,
		error: Option<u8>,
		data: Option<Vec<u8>>,
	},
	/// Leave out the error byte.
	NoErrorByte,
	/// Change the checksum only.
	Crc(u16),
	/// Change bytes in the frame.
	Flip(Vec<(u16, u8)>),
	/// Replace the length field, with or without a checksum at the place where it points to.
	Length {
		len: u16,
		fix_crc: bool,
	},
	/// Leave out the tail.
	Truncate(u16),
	/// Leave out a byte.
	Delete(u16),
	/// Insert a byte.
	Insert(u16, u8),
	/// Something entirely different.
	Replace(Vec<u8>),
}

fn mutation() -> BoxedStrategy<Mutation> {
	use proptest::option::of;
	prop_oneof![
		1 => Just(Mutation::None),
		3 => gen::any_id().prop_map(|id| Mutation::Fields { id: Some(id), instruction: None, error: None, data: None }),
		2 => any::<u8>().prop_map(|x| Mutation::Fields { id: None, instruction: Some(x), error: None, data: None }),
		2 => gen::data(0, 30).prop_map(|x| Mutation::Fields { id: None, instruction: None, error: None, data: Some(x) }),
		2 => (of(gen::any_id()), of(prop_oneof![Just(0x55u8), any::<u8>()]), of(gen::error_byte()), of(gen::data(0, 30)))
			.prop_map(|(id, instruction, error, data)| Mutation::Fields { id, instruction, error, data }),
		1 => Just(Mutation::NoErrorByte),
		2 => prop_oneof![(0u32..16).prop_map(|b| 1u16 << b), 1..=u16::MAX].prop_map(Mutation::Crc),
		4 => (any::<u16>(), prop_oneof![(0u32..8).prop_map(|b| 1u8 << b), 1u8..=255]).prop_map(|x| Mutation::Flip(vec![x])),
		2 => proptest::collection::vec((any::<u16>(), 1u8..=255), 2..5).prop_map(Mutation::Flip),
		2 => (prop_oneof![0u16..8, 0u16..80, any::<u16>()], any::<bool>()).prop_map(|(len, fix_crc)| Mutation::Length { len, fix_crc }),
		2 => any::<u16>().prop_map(Mutation::Truncate),
		1 => any::<u16>().prop_map(Mutation::Delete),
		1 => (any::<u16>(), gen::nasty_byte()).prop_map(|(a, b)| Mutation::Insert(a, b)),
		1 => gen::data(0, 30).prop_map(Mutation::Replace),
	]
	.boxed()
}

/// Apply a mutation. Returns the bytes, and the acceptable outcomes if they are known exactly.
fn mutate(reply: &Reply, mutation: &Mutation, count: Option<u16>) -> (Vec<u8>, Option<Vec<Item>>) {
	let mut frame = reply.frame();
	let n = frame.len();
	match mutation {
		Mutation::None => (frame, Some(judge(reply, Some(reply.id), count))),
		Mutation::Fields {
			id,
			instruction,
			error,
			data,
		} => {
			let new = Reply {
				id: id.unwrap_or(reply.id),
				error: error.unwrap_or(reply.error),
				data: data.clone().unwrap_or_else(|| reply.data.clone()),
			};
			let instruction = instruction.unwrap_or(ins::STATUS);
			if instruction == ins::STATUS {
				(new.frame(), Some(judge(&new, Some(reply.id), count)))
			} else {
				let mut params = vec![new.error];
				params.extend_from_slice(&new.data);
				let mut ok = vec![Err(Bad::Instruction {
					actual: instruction,
					expected: ins::STATUS,
				})];
				if new.id != reply.id {
					ok.push(Err(Bad::Id {
						actual: new.id,
						expected: Some(reply.id),
					}));
				}
				(refm::frame(new.id, instruction, &params), Some(ok))
			}
		},
		Mutation::NoErrorByte => (refm::frame(reply.id, ins::STATUS, &[]), None),
		Mutation::Crc(xor) => {
			let computed = refm::crc(0, &frame[..n - 2]);
			let message = computed ^ xor;
			frame[n - 2] = (message % 256) as u8;
			frame[n - 1] = (message / 256) as u8;
			(frame, Some(vec![Err(Bad::Crc { message, computed })]))
		},
		Mutation::Flip(flips) => {
			let original = frame.clone();
			for (at, xor) in flips {
				let i = usize::from(*at) % n;
				frame[i] ^= xor;
			}
			let mut exact = None;
			// If header and length are intact, it is known where the checksum is.
			if frame[..4] == original[..4] && frame[5..7] == original[5..7] {
				let computed = refm::crc(0, &frame[..n - 2]);
				let message = u16::from(frame[n - 2]) + 256 * u16::from(frame[n - 1]);
				if computed != message {
					exact = Some(vec![Err(Bad::Crc { message, computed })]);
				}
			}
			(frame, exact)
		},
		Mutation::Length { len, fix_crc } => {
			frame[5] = (len % 256) as u8;
			frame[6] = (len / 256) as u8;
			if *fix_crc {
				let end = (7 + usize::from(*len)).min(frame.len()).max(9);
				frame.truncate(end);
				let c = refm::crc(0, &frame[..end - 2]);
				// For lengths below 2 this is not where the checksum should be, but there is no such place.
				frame[end - 2] = (c % 256) as u8;
				frame[end - 1] = (c / 256) as u8;
			}
			(frame, None)
		},
		Mutation::Truncate(keep) => {
			frame.truncate(usize::from(*keep) % n);
			(frame, None)
		},
		Mutation::Delete(at) => {
			frame.remove(usize::from(*at) % n);
			(frame, None)
		},
		Mutation::Insert(at, byte) => {
			frame.insert(usize::from(*at) % (n + 1), *byte);
			(frame, None)
		},
		Mutation::Replace(x) => (x.clone(), None),
	}
}

/// Check that a success is backed by an intact frame in the received data.
pub fn sound(item: &Item, stream: &[u8], id: Option<u8>, count: Option<u16>) -> Result<(), String> {
	let Ok(good) = item else { return Ok(()) };
	let backed = refm::valid_status_frames(stream).iter().any(|f| {
		f.params[0] & 0x7F == 0
			&& id.map(|id| id == f.id).unwrap_or(true)
			&& count.map(|c| f.params.len() - 1 == usize::from(c)).unwrap_or(true)
			&& *good
				== Good {
					id: f.id,
					alert: f.params[0] & 0x80 != 0,
					data: f.params[1..].to_vec(),
				}
	});
	ensure!(backed, "{good:?} was returned, but there is no such reply in {}", hex(stream));
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MutatedReply {
	cmd: Cmd,
	reply: Reply,
	mutation: Mutation,
	before: Vec<u8>,
	after: Vec<u8>,
	cuts: Vec<u16>,
}

fn check_c07(case: &MutatedReply, tags: &mut Tags) -> Result<(), String> {
	let (id, count) = expected_replies(&case.cmd)[0];
	let count = enforced_count(&case.cmd, count);
	let (frame, exact) = mutate(&case.reply, &case.mutation, count);
	let stream = [case.before.as_slice(), &frame, &case.after].concat();
	tags.tag(case.cmd.name());
	tags.tag(match &case.mutation {
		Mutation::None => "none",
		Mutation::Fields { .. } => "fields",
		Mutation::NoErrorByte => "no_error_byte",
		Mutation::Crc(_) => "crc",
		Mutation::Flip(_) => "flip",
		Mutation::Length { .. } => "length",
		Mutation::Truncate(_) => "truncate",
		Mutation::Delete(_) => "delete",
		Mutation::Insert(..) => "insert",
		Mutation::Replace(_) => "replace",
	});
	tags.nontrivial_if(case.mutation != Mutation::None);
	let (outcome, _) = exec_fresh(&case.cmd, gen::split(&stream, &case.cuts));
	ensure_eq!(outcome.started, Ok(()), "transmission");
	ensure_eq!(outcome.items.len(), 1, "number of results");
	let item = &outcome.items[0];
	tags.tag(match item {
		Ok(_) => "-> ok",
		Err(Bad::Timeout) => "-> timeout",
		Err(Bad::Crc { .. }) => "-> crc",
		Err(Bad::Id { .. }) => "-> id",
		Err(Bad::Count { .. }) => "-> count",
		Err(Bad::Instruction { .. }) => "-> instruction",
		Err(Bad::Motor { .. }) => "-> motor error",
		Err(Bad::ReadBuffer { .. }) => "-> buffer full",
		Err(_) => "-> other",
	});
	sound(item, &stream, Some(id), count)?;
	if let (Some(exact), true) = (exact, case.before.is_empty()) {
		ensure!(exact.contains(item), "the outcome is {item:?}, expected {exact:?}, for received data {}", hex(&stream));
	}
	Ok(())
}

/// Sync and bulk reads from one motor.
fn multi_of_one(cfg: gen::Cfg) -> BoxedStrategy<Cmd> {
	(gen::multi(cfg), gen::motor_id(), gen::addr(), 0..=cfg.count)
		.prop_map(|(mut cmd, id, addr, count)| {
			match &mut cmd {
				Cmd::SyncRead { ids, .. } | Cmd::SyncReadBytes { ids, .. } => *ids = vec![id],
				Cmd::BulkRead { reads, .. } => *reads = vec![(id, addr, count)],
				_ => unreachable!(),
			}
			cmd
		})
		.boxed()
}

/// Everything that results in one reply.
fn one_reply(cfg: gen::Cfg) -> BoxedStrategy<Cmd> {
	prop_oneof![4 => gen::single(cfg), 1 => multi_of_one(cfg)].boxed()
}

pub fn c07(ctx: &mut Ctx) {
	ctx.rule = "every command with one reply, including sync and bulk reads of one motor, where the reply is damaged or changed (fields with valid checksum, checksum, bytes, length, truncation, insertion, deletion), optionally with data before and after it; non-trivial: the reply was changed";
	ctx.assumptions
		.push("when a reply has several defects, any of them may be the one reported".into());
	let cfg = gen::Cfg {
		broadcast: false,
		data: 12,
		count: 30,
		..gen::CFG
	};
	let strategy = move |cmd: BoxedStrategy<Cmd>| {
		(answered(cmd, gen::error_byte), mutation(), prop_oneof![4 => Just(vec![]), 1 => gen::data(0, 20)], prop_oneof![3 => Just(vec![]), 1 => gen::data(0, 20)], gen::cuts())
			.prop_map(|((cmd, mut replies), mutation, before, after, cuts)| MutatedReply {
				cmd,
				reply: replies.remove(0),
				mutation,
				before,
				after,
				cuts,
			})
			.boxed()
	};
	ctx.pbt("mutated", ctx.n(200_000, 3_000_000), move || strategy(one_reply(cfg)), check_c07);
	// Counters must not wrap: replies with a very wrong amount of data.
	ctx.pbt(
		"wrong_amount",
		ctx.n(10_000, 100_000),
		move || {
			let small = one_reply(gen::Cfg { count: 20, ..cfg });
			let amount = || prop_oneof![2 => (1usize..5, -2isize..=2).prop_map(|(n, d)| (n as isize * 256 + d) as usize), 1 => 0usize..1500];
			let case = prop_oneof![
				// Too much (a multiple of 256 bytes, give or take a few).
				3 => (answered(small, gen::ok_byte), amount()).prop_flat_map(|((cmd, replies), more)| {
					let n = replies[0].data.len() + more;
					(Just((cmd, replies)), gen::big(n, n), gen::ok_byte())
				}),
				// Too little, or a bit off.
				2 => (answered_big(big_read(2000).prop_filter("one reply", |x| expected_replies(x).len() == 1).boxed(), gen::ok_byte), amount(), any::<bool>())
					.prop_flat_map(|((cmd, replies), d, less)| {
						let n = replies[0].data.len();
						let n = if less { n.saturating_sub(d) } else { n + d % 4 };
						(Just((cmd, replies)), gen::big(n, n), gen::ok_byte())
					}),
			];
			(case, gen::cuts())
				.prop_map(|(((cmd, mut replies), data, error), cuts)| MutatedReply {
					cmd,
					reply: replies.remove(0),
					mutation: Mutation::Fields {
						id: None,
						instruction: None,
						error: Some(error),
						data: Some(data),
					},
					before: vec![],
					after: vec![],
					cuts,
				})
				.boxed()
		},
		check_c07,
	);
	// Streams with other complete packets around the real reply.
	ctx.pbt(
		"several_packets",
		ctx.n(60_000, 800_000),
		move || {
			let piece = || {
				proptest::collection::vec(gen::piece(true, 10), 0..3).prop_map(|x| x.iter().flat_map(|p| p.bytes()).collect::<Vec<u8>>())
			};
			(answered(one_reply(cfg), gen::error_byte), mutation(), piece(), piece(), gen::cuts())
				.prop_map(|((cmd, mut replies), mutation, before, after, cuts)| MutatedReply {
					cmd,
					reply: replies.remove(0),
					mutation,
					before,
					after,
					cuts,
				})
				.boxed()
		},
		check_c07,
	);
	// All single bit errors in acknowledgements and small replies, and all wrong IDs.
	ctx.enumerate(
		"every_bit_and_id",
		|s| {
			let cmds = vec![
				Cmd::Ping { id: 5 },
				Cmd::Read { id: 5, addr: 9, ty: crate::cmd::Ty::U16 },
				Cmd::ReadBytes { id: 5, addr: 8, count: 3 },
				Cmd::ReadBytes { id: 5, addr: 9, count: 3 },
				Cmd::Write { id: 5, addr: 9, ty: crate::cmd::Ty::U8, val: vec![1] },
				Cmd::WriteBytes { id: 5, addr: 9, data: vec![1] },
				Cmd::RegWrite { id: 5, addr: 9, ty: crate::cmd::Ty::U8, val: vec![1] },
				Cmd::RegWriteBytes { id: 5, addr: 9, data: vec![1] },
				Cmd::Action { id: 5 },
				Cmd::FactoryReset { id: 5, kind: crate::cmd::Kind::ResetAll },
				Cmd::Reboot { id: 5 },
				Cmd::ClearRevolution { id: 5 },
				Cmd::ClearError { id: 5 },
				Cmd::Raw { id: 5, instruction: 0x20, params: vec![1], expect: 4 },
				Cmd::SyncRead { ids: vec![5], addr: 9, ty: crate::cmd::Ty::U16, via: Via::Next },
				Cmd::SyncReadBytes { ids: vec![5], addr: 9, count: 3, via: Via::Next },
				Cmd::SyncReadBytes { ids: vec![5], addr: 9, count: 3, via: Via::Borrow },
				Cmd::BulkRead { reads: vec![(5, 9, 3)], via: Via::Next },
				Cmd::BulkRead { reads: vec![(5, 9, 3)], via: Via::Borrow },
			];
			cmds.into_iter().skip(s).step_by(SHARDS).flat_map(|cmd| {
				let (id, count) = expected_replies(&cmd)[0];
				let reply = Reply {
					id,
					error: 0,
					data: (0x10..0x10 + count as u8).collect(),
				};
				let n = reply.frame().len();
				let mut mutations: Vec<Mutation> = (0..n)
					.flat_map(|i| (0..8).map(move |b| Mutation::Flip(vec![(i as u16, 1 << b)])))
					.collect();
				mutations.extend((0..n - 1).flat_map(|i| (0..16).map(move |b| Mutation::Flip(vec![(i as u16, 1 << (b % 8)), (i as u16 + 1, 1 << (b / 2))]))));
				mutations.extend((0..=255u8).map(|id| Mutation::Fields {
					id: Some(id),
					instruction: None,
					error: None,
					data: None,
				}));
				mutations.extend((0..=255u8).map(|x| Mutation::Fields {
					id: None,
					instruction: Some(x),
					error: None,
					data: None,
				}));
				mutations.extend((0..=255u8).map(|x| Mutation::Fields {
					id: None,
					instruction: None,
					error: Some(x),
					data: None,
				}));
				mutations.extend((0..40).map(|x| Mutation::Fields {
					id: None,
					instruction: None,
					error: None,
					data: Some((0..x).collect()),
				}));
				mutations.extend((0..n as u16).map(Mutation::Truncate));
				mutations.extend((0..n as u16).map(Mutation::Delete));
				mutations.extend((0..300u16).flat_map(|len| {
					[true, false].map(|fix_crc| Mutation::Length { len, fix_crc })
				}));
				mutations.into_iter().map(move |mutation| MutatedReply {
					cmd: cmd.clone(),
					reply: reply.clone(),
					mutation,
					before: vec![],
					after: vec![],
					cuts: vec![],
				})
			})
		},
		check_c07,
	);
}

// C12

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Timing {
	cmd: Cmd,
	replies: Vec<Reply>,
	baud: u32,
	write_cost: u32,
	/// When the last byte of each reply arrives, relative to its deadline.
	/// After the first one that is too late, everything is silent.
	deltas: Vec<i64>,
	/// Split the replies into pieces that arrive over time.
	pieces: u8,
	/// Noise that arrives before the reply, at a fraction of the time.
	noise: Vec<(u16, Vec<u8>)>,
	/// How many results to take before dropping the operation.
	take: Option<u8>,
}

/// Some imprecision of a deadline is acceptable, but never in the direction of giving up too early.
const SLACK_NS: u128 = 2_000;

/// Schedule a reply to be completed at a given time.
fn schedule(start: u128, done: u128, frame: &[u8], pieces: u8, noise: &[(u16, Vec<u8>)]) -> Vec<Rx> {
	let mut out = Vec::new();
	let span = done - start;
	for (at, data) in noise {
		out.push(Rx {
			at: start + span * u128::from(*at) / 65536,
			data: data.clone(),
		});
	}
	out.sort_by_key(|x| x.at);
	// The reply itself comes after all of the noise.
	let first = out.last().map(|x| x.at).unwrap_or(start);
	let n = usize::from(pieces).clamp(1, frame.len());
	for i in 0..n {
		let (a, b) = (frame.len() * i / n, frame.len() * (i + 1) / n);
		out.push(Rx {
			at: first + (done - first) * (i as u128 + 1) / n as u128,
			data: frame[a..b].to_vec(),
		});
	}
	out
}

fn check_timing(case: &Timing, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(case.baud);
	port.with(|c| c.write_cost = case.write_cost.into());
	let mut client = client(&port, 70_000, 4096);
	let expected = expected_replies(&case.cmd);
	// Calculate the schedule in advance: each reply is awaited from the moment the previous one was complete.
	let budgets: Vec<u128> = expected.iter().map(|x| refm::reply_budget_ns(x.1.into(), case.baud)).collect();
	let mut now = 0;
	let mut rel = Vec::new();
	let mut in_time = 0;
	let mut late = false;
	for (i, reply) in case.replies.iter().enumerate() {
		let mut delta = case.deltas.get(i).copied().unwrap_or(-1_000);
		if delta > 0 {
			// Just above the slack, or more.
			delta += SLACK_NS as i64;
		}
		let done = (now as i128 + budgets[i] as i128 + i128::from(delta)).max(now as i128) as u128;
		rel.extend(schedule(now, done, &reply.frame(), case.pieces, &case.noise));
		tags.tag_if((-10..=0).contains(&delta), "just_in_time");
		if delta > 0 {
			tags.tag("late");
			late = true;
			// The part before the deadline may still be received, but nothing more.
			let limit = now + budgets[i] + SLACK_NS;
			if case.replies.len() > 1 {
				rel.retain(|x| x.at <= limit);
			}
			break;
		}
		in_time += 1;
		now = done;
	}
	tags.tag(case.cmd.name());
	tags.tag_if(!case.noise.is_empty(), "noise");
	tags.tag_if(case.pieces > 1, "in_pieces");
	tags.nontrivial_if(!expected.is_empty());
	port.on_write(move |_, at| {
		rel.iter()
			.map(|x| Rx {
				at: at + x.at,
				data: x.data.clone(),
			})
			.collect()
	});
	let started = port.with(|c| c.now) + u128::from(case.write_cost);
	let take = case.take.filter(|_| case.cmd.is_multi_read()).map_or(usize::MAX, usize::from);
	tags.tag_if(take < expected.len(), "dropped");
	let outcome = exec_n(&mut client, &case.cmd, take, &mut |_| ());
	let end = port.with(|c| c.now);
	ensure_eq!(outcome.started, Ok(()), "transmission");
	ensure_eq!(outcome.items.len(), expected.len().min(take), "number of results");
	for (i, item) in outcome.items.iter().enumerate() {
		if i < in_time {
			let reply = &case.replies[i];
			ensure!(
				judge(reply, Some(reply.id), None).contains(item),
				"reply {i} completed {} ns relative to its deadline of {} ns after transmission resulted in {item:?}",
				case.deltas.get(i).unwrap_or(&-1000),
				budgets[i]
			);
		} else {
			ensure!(*item == Err(Bad::Timeout), "reply {i} was not complete by its deadline of {} ns, but resulted in {item:?}", budgets[i]);
		}
	}
	let expected_end = started + now + budgets[in_time..].iter().sum::<u128>();
	if late || in_time < expected.len() {
		ensure!(
			end >= expected_end && end <= expected_end + SLACK_NS * (expected.len() - in_time) as u128,
			"the operation gave up {} ns after the transmission instead of {} ns",
			end - started,
			expected_end - started
		);
	} else {
		ensure!(end == expected_end, "the operation ended {} ns after transmission, but its last reply arrived after {} ns", end - started, expected_end - started);
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ExplicitTimeout {
	device: u8,
	timeout_ns: u64,
	timeout_s: u32,
	/// Relative to the deadline.
	delta: i64,
	pieces: u8,
	noise: Vec<(u16, Vec<u8>)>,
	/// Unrelated packets (status packets for a device).
	unrelated: Vec<u16>,
	params: Vec<u8>,
	/// Something is received before that.
	before: bool,
}

fn check_explicit(case: &ExplicitTimeout, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let timeout = Duration::from_secs(case.timeout_s.into()) + Duration::from_nanos(case.timeout_ns);
	let budget = timeout.as_nanos();
	let is_device = case.device > 0;
	let frame = if is_device {
		refm::frame(3, ins::READ, &[1, 2, 3, 4])
	} else {
		refm::status(3, 0, &case.params)
	};
	let mut noise = case.noise.clone();
	if is_device {
		noise.extend(case.unrelated.iter().map(|at| (*at, refm::status(9, 0, &case.params))));
	}
	let delta = if case.delta > 0 { case.delta + SLACK_NS as i64 } else { case.delta };
	let done = (budget as i128 + i128::from(delta)).max(0) as u128;
	tags.nontrivial();
	tags.tag_if((-10..=0).contains(&delta), "just_in_time");
	tags.tag_if(delta > 0, "late");
	tags.tag_if(is_device, "device");
	tags.tag_if(is_device && !case.unrelated.is_empty(), "unrelated_packets");
	let start = port.with(|c| c.now);
	port.with(|c| {
		c.rx.extend(schedule(start, start + done, &frame, case.pieces, &noise));
	});
	let result: Result<(), Bad> = match case.device {
		0 => client(&port, 256, 64).read_status_response_timeout(timeout).map(|_| ()).map_err(norm_read),
		1 => device(&port, 256, 64).read(timeout).map(|_| ()).map_err(norm_read),
		2 => device(&port, 256, 64).read_owned(timeout).map(|_| ()).map_err(norm_read),
		_ => device(&port, 256, 64).read_raw_instruction_timeout(timeout).map(|_| ()).map_err(norm_read),
	};
	let elapsed = port.with(|c| c.now) - start;
	if delta <= 0 {
		ensure!(result == Ok(()), "a packet complete after {done} ns with a timeout of {budget} ns resulted in {result:?}");
		ensure!(elapsed == done, "the packet was complete after {done} ns, but it was returned after {elapsed} ns");
	} else {
		ensure!(
			result == Err(Bad::Timeout),
			"a packet complete after {done} ns with a timeout of {budget} ns resulted in {result:?}"
		);
		ensure!(
			elapsed >= budget && elapsed <= budget + SLACK_NS,
			"with a timeout of {budget} ns the operation gave up after {elapsed} ns"
		);
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ScanTiming {
	baud: u32,
	write_cost: u32,
	/// Gap before each reply relative to the timeout: all but the last are negative.
	gaps: Vec<(u8, i64)>,
	late: Option<u32>,
}

fn check_scan_timing(case: &ScanTiming, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(case.baud);
	port.with(|c| c.write_cost = case.write_cost.into());
	// The time for 253 replies may be rounded for each reply, or only once.
	let lower = refm::transfer_ns(14 * 253, case.baud) + 34_000_000;
	let upper = refm::transfer_ns(14, case.baud) * 253 + 34_000_000 + SLACK_NS;
	let mut rel = Vec::new();
	let mut now = 0u128;
	let mut ids = Vec::new();
	for (id, gap) in &case.gaps {
		now = (now as i128 + (lower as i128 + i128::from(*gap)).max(0)) as u128;
		rel.push(Rx {
			at: now,
			data: refm::status(*id, 0, &[1, 2, 3]),
		});
		ids.push(*id);
	}
	if let Some(late) = case.late {
		rel.push(Rx {
			at: now + upper + 1 + u128::from(late),
			data: refm::status(9, 0, &[1, 2, 3]),
		});
		tags.tag("late");
	}
	tags.tag_if(case.gaps.iter().any(|x| x.1 == 0), "just_in_time");
	tags.nontrivial_if(!case.gaps.is_empty());
	let mut client = client(&port, 64, 64);
	port.on_write(move |_, at| {
		rel.iter()
			.map(|x| Rx {
				at: at + x.at,
				data: x.data.clone(),
			})
			.collect()
	});
	let started = port.with(|c| c.now) + u128::from(case.write_cost);
	// Stop after the scan ended, but do not drop it (and thereby wait again) in time measurements.
	let mut got = Vec::new();
	let mut scan = client.scan().map_err(|e| format!("{e:?}"))?;
	for item in scan.by_ref() {
		match item {
			Ok(x) => got.push(x.motor_id),
			Err(e) => return Err(format!("error in scan: {e:?}")),
		}
	}
	let elapsed = port.with(|c| c.now) - started;
	std::mem::forget(scan);
	ensure_eq!(got, ids, "motors reported by the scan (baud rate {})", case.baud);
	ensure!(
		elapsed >= now + lower && elapsed <= now + upper,
		"the scan ended {} ns after the last reply, expected {lower} ns",
		elapsed - now
	);
	Ok(())
}

pub fn baud() -> BoxedStrategy<u32> {
	prop_oneof![
		4 => proptest::sample::select(vec![9600u32, 57_600, 115_200, 1_000_000, 2_000_000, 3_000_000, 4_000_000, 4_500_000]),
		2 => 1u32..100,
		2 => any::<u32>().prop_map(|x| x.max(1)),
		1 => Just(u32::MAX),
		1 => Just(7u32),
		1 => gen::magic(u32::MAX).prop_map(|x| x.max(1)),
	]
	.boxed()
}

fn delta() -> BoxedStrategy<i64> {
	prop_oneof![
		3 => Just(0i64),
		2 => -5i64..5,
		1 => (gen::magic(u32::MAX), any::<bool>()).prop_map(|(x, neg)| if neg { -i64::from(x) } else { i64::from(x) }),
		2 => -100_000i64..100_000,
		2 => -40_000_000i64..40_000_000,
		1 => Just(i64::MIN / 4),
		1 => Just(1i64),
	]
	.boxed()
}

/// Noise that does not contain (the start of) a packet.
fn harmless_noise() -> BoxedStrategy<Vec<(u16, Vec<u8>)>> {
	let byte = prop_oneof![Just(0u8), Just(0xFDu8), Just(0xFEu8), 0u8..=0xFE];
	prop_oneof![
		1 => Just(vec![]),
		1 => proptest::collection::vec((any::<u16>(), proptest::collection::vec(byte, 1..8)), 1..8),
	]
	.boxed()
}

pub fn c12(ctx: &mut Ctx) {
	ctx.rule = "commands at generated baud rates with replies completed before, exactly at and after the deadline, in pieces over time and after noise, under a virtual clock; non-trivial: at least one reply is expected";
	ctx.assumptions
		.push("deadlines may be up to 2 microseconds late, but never early".into());
	let cfg = gen::Cfg {
		broadcast: false,
		data: 20,
		motors: 5,
		..gen::CFG
	};
	ctx.pbt(
		"commands",
		ctx.n(100_000, 1_200_000),
		move || {
			let cmd = prop_oneof![
				4 => gen::single(cfg),
				2 => gen::multi(cfg),
				1 => gen::single(gen::Cfg { count: 2000, ..cfg }),
			]
			.boxed();
			let take = prop_oneof![4 => Just(None), 1 => (0u8..4).prop_map(Some)];
			(answered(cmd, gen::error_byte), baud(), prop_oneof![Just(0u32), any::<u32>()], proptest::collection::vec(delta(), 0..6), 0u8..12, harmless_noise(), take)
				.prop_map(|((cmd, replies), baud, write_cost, deltas, pieces, noise, take)| Timing {
					cmd,
					replies,
					baud,
					write_cost,
					deltas,
					pieces,
					noise,
					take,
				})
				.boxed()
		},
		check_timing,
	);
	ctx.pbt(
		"large_reads",
		ctx.n(800, 8_000),
		|| {
			let take = prop_oneof![3 => Just(None), 1 => (0u8..4).prop_map(Some)];
			(answered_big(big_read(48_000), gen::ok_byte), baud(), proptest::collection::vec(delta(), 1..4), take)
				.prop_map(|((cmd, replies), baud, deltas, take)| Timing {
					cmd,
					replies,
					baud,
					write_cost: 0,
					deltas,
					pieces: 3,
					noise: vec![],
					take,
				})
				.boxed()
		},
		check_timing,
	);
	// Up to the largest number, where only the time until giving up can be observed.
	ctx.pbt(
		"largest_reads",
		ctx.n(4_000, 40_000),
		|| {
			let count = || prop_oneof![2 => any::<u16>(), 2 => 65_500u16..=65_535];
			let cmd = prop_oneof![
				3 => (gen::motor_id(), gen::addr(), count()).prop_map(|(id, addr, count)| Cmd::ReadBytes { id, addr, count }),
				1 => (gen::motor_id(), any::<u8>(), gen::data(0, 4), count()).prop_map(|(id, instruction, params, expect)| Cmd::Raw { id, instruction, params, expect }),
				2 => (gen::sync_ids(4), gen::addr(), count(), gen::via()).prop_map(|(ids, addr, count, via)| Cmd::SyncReadBytes { ids, addr, count, via }),
				2 => (gen::id_list(4), proptest::collection::vec((gen::addr(), count()), 4), gen::via()).prop_map(|(ids, blocks, via)| Cmd::BulkRead {
					reads: ids.into_iter().zip(blocks).map(|(id, (addr, count))| (id, addr, count)).collect(),
					via,
				}),
			];
			(cmd, baud(), prop_oneof![3 => Just(None), 1 => (0u8..4).prop_map(Some)])
				.prop_map(|(cmd, baud, take)| Timing {
					cmd,
					replies: vec![],
					baud,
					write_cost: 0,
					deltas: vec![],
					pieces: 1,
					noise: vec![],
					take,
				})
				.boxed()
		},
		check_timing,
	);
	ctx.pbt(
		"explicit_timeouts",
		ctx.n(60_000, 600_000),
		|| {
			(
				(0u8..4, prop_oneof![1 => Just(0u64), 3 => 0u64..2_000_000_000, 1 => 0u64..100], prop_oneof![5 => Just(0u32), 1 => any::<u32>()], delta()),
				(0u8..12, harmless_noise(), proptest::collection::vec(any::<u16>(), 0..6), gen::data(0, 8), any::<bool>()),
			)
				.prop_map(|((device, timeout_ns, timeout_s, delta), (pieces, noise, unrelated, params, before))| ExplicitTimeout {
					device,
					timeout_ns,
					timeout_s,
					delta,
					pieces,
					noise,
					unrelated,
					params,
					before,
				})
				.boxed()
		},
		check_explicit,
	);
	ctx.pbt(
		"scan",
		ctx.n(30_000, 300_000),
		|| {
			(
				baud(),
				prop_oneof![Just(0u32), any::<u32>()],
				proptest::collection::vec((gen::motor_id(), delta().prop_map(|x| x.min(0))), 0..8),
				proptest::option::of(prop_oneof![Just(0u32), any::<u32>()]),
			)
				.prop_map(|(baud, write_cost, gaps, late)| ScanTiming { baud, write_cost, gaps, late })
				.boxed()
		},
		check_scan_timing,
	);
}

// C14

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ReadBufferCase {
	side: u8,
	/// Noise and frame content for each packet.
	packets: Vec<(Vec<u8>, Vec<u8>)>,
	/// The packet that decides the size of the buffer.
	which: u8,
	slack: i16,
	absolute: bool,
	cuts: Vec<u16>,
}

fn check_c14(case: &ReadBufferCase, tags: &mut Tags) -> Result<(), String> {
	let is_device = case.side > 0;
	let frames: Vec<Vec<u8>> = case
		.packets
		.iter()
		.enumerate()
		.map(|(i, (_, params))| {
			if is_device {
				refm::frame(i as u8, 0x40, params)
			} else {
				let mut p = vec![0];
				p.extend_from_slice(params);
				refm::frame(i as u8, ins::STATUS, &p)
			}
		})
		.collect();
	let r = if case.absolute || frames.is_empty() {
		usize::from(case.slack.unsigned_abs())
	} else {
		(frames[usize::from(case.which) % frames.len()].len() as i64 + i64::from(case.slack)).max(0) as usize
	};
	// Build the stream, leaving out noise that would look like a packet.
	let mut stream = Vec::new();
	let mut residue: Vec<u8> = vec![];
	for (i, (noise, _)) in case.packets.iter().enumerate() {
		let mut gap = [residue.as_slice(), noise].concat();
		let mut noise = noise.clone();
		let clean = |gap: &[u8]| refm::find_prefix(&[gap, &frames[i]].concat()) == Some(gap.len());
		if !clean(&gap) {
			noise.clear();
			gap = residue.clone();
			if !clean(&gap) {
				// The remainder of an over-long packet contains something that looks like a packet.
				tags.tag("ambiguous");
				return Ok(());
			}
		}
		stream.extend_from_slice(&noise);
		stream.extend_from_slice(&frames[i]);
		residue = if frames[i].len() > r { frames[i][7..].to_vec() } else { vec![] };
	}
	if refm::find_prefix(&residue).is_some() {
		return Ok(());
	}
	let port = SimPort::new(BAUD);
	port.with(|c| {
		let now = c.now;
		for x in gen::split(&stream, &case.cuts) {
			c.push(now, &x);
		}
		c.budget = 3_000_000;
	});
	let timeout = Duration::from_millis(5);
	let mut client = client(&port, r, 64);
	let mut device = device(&port, r, 64);
	let mut read = || -> Result<(u8, Vec<u8>), Bad> {
		match case.side {
			0 => client
				.read_status_response_timeout(timeout)
				.map(|s| (s.packet_id(), s.parameters().to_vec()))
				.map_err(norm_read),
			1 => device
				.read_raw_instruction_timeout(timeout)
				.map(|s| (s.packet_id(), s.parameters().to_vec()))
				.map_err(norm_read),
			2 => device.read(timeout).map_err(norm_read).map(|i| match i.instruction {
				dynamixel2::Instructions::Unknown { parameters, .. } => (i.id, parameters.to_vec()),
				_ => (i.id, vec![0xAA; 7]),
			}),
			_ => device.read_owned(timeout).map_err(norm_read).map(|i| match i.instruction {
				dynamixel2::Instructions::Unknown { parameters, .. } => (i.id, parameters),
				_ => (i.id, vec![0xAA; 7]),
			}),
		}
	};
	if r < 10 {
		tags.tag("tiny");
		// No packet fits at all.
		for _ in 0..3 {
			match read() {
				Err(Bad::ReadBuffer { required, total }) => {
					let need = frames.first().map(|x| x.len()).unwrap_or(usize::MAX);
					ensure_eq!(total, r, "reported buffer size");
					ensure!(required > r && required <= need, "buffer of {r} bytes and packet of {need} bytes: {required} bytes are said to be required");
				},
				// It is also fine not to find out.
				Err(Bad::Timeout) if frames.is_empty() => (),
				other => return Err(format!("reading with a buffer of {r} bytes: {other:?}")),
			}
		}
		return Ok(());
	}
	for (i, frame) in frames.iter().enumerate() {
		let need = frame.len();
		let result = read();
		tags.nontrivial_if(need.abs_diff(r) <= 4);
		tags.tag_if(need == r, "exact");
		tags.tag_if(need == r + 1, "one_short");
		tags.tag_if(need > r && i + 1 < frames.len(), "more_after_too_long");
		if need <= r {
			ensure!(
				result == Ok((i as u8, case.packets[i].1.clone())),
				"packet {i} of {need} bytes with a buffer of {r} bytes: {result:?}, expected {}",
				hex(&case.packets[i].1)
			);
		} else {
			ensure_eq!(
				result,
				Err(Bad::ReadBuffer { required: need, total: r }),
				"packet {i} of {need} bytes with a buffer of {r} bytes"
			);
		}
	}
	ensure_eq!(read(), Err(Bad::Timeout), "read after the last packet");
	Ok(())
}

pub fn c14(ctx: &mut Ctx) {
	ctx.rule = "sequences of packets separated by noise, read with a buffer of a size close to that of one of the packets, in pieces; non-trivial: a packet within 4 bytes of the buffer size";
	ctx.assumptions.push("streams in which noise or the remainder of an over-long packet contains a header prefix are left out (ambiguous)".into());
	let strategy = |max: usize| {
		(
			0u8..4,
			proptest::collection::vec((prop_oneof![2 => Just(vec![]), 3 => gen::data(0, 20), 1 => gen::data(0, 200)], prop_oneof![3 => gen::data(0, 30.min(max)), 1 => gen::data(0, max)]), 0..5),
			any::<u8>(),
			prop_oneof![6 => -4i16..=4, 1 => -60i16..60],
			gen::chance(10),
			gen::cuts(),
		)
			.prop_map(|(side, packets, which, slack, absolute, cuts)| ReadBufferCase {
				side,
				packets,
				which,
				slack,
				absolute,
				cuts,
			})
			.boxed()
	};
	ctx.pbt("sizes", ctx.n(100_000, 1_500_000), move || strategy(120), check_c14);
	ctx.pbt("large", ctx.n(600, 6_000), move || strategy(20_000), check_c14);
	// Up to the longest packet that exists.
	ctx.pbt(
		"longest",
		ctx.n(300, 3_000),
		|| {
			// Without anything that needs stuffing, the length field allows for 65532 parameters, or one less with an error byte.
			let params = || (prop_oneof![2 => 65_500usize..=65_532, 1 => 0usize..=65_532, 1 => 0usize..20], any::<u8>());
			let slack = prop_oneof![4 => -4i16..=4, 1 => -60i16..60];
			(0u8..4, proptest::collection::vec((gen::data(0, 20), params()), 1..4), any::<u8>(), slack, proptest::collection::vec(any::<u16>(), 0..6))
				.prop_map(|(side, packets, which, slack, cuts)| ReadBufferCase {
					side,
					packets: packets
						.into_iter()
						.map(|(noise, (n, first))| (noise, (0..n.min(65_532 - usize::from(side == 0))).map(|i| (i as u8).wrapping_add(first) % 0xFD).collect()))
						.collect(),
					which,
					slack,
					absolute: false,
					cuts,
				})
				.boxed()
		},
		check_c14,
	);
}

// C17

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BroadcastCase {
	cmd: Cmd,
	/// Data on the line after the command.
	line: Vec<u8>,
}

fn check_c17(case: &BroadcastCase, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let line = case.line.clone();
	let mut client = client(&port, 256, 4096);
	tags.tag(case.cmd.name());
	match case.cmd.expect() {
		Expect::None => {
			tags.tag("broadcast");
			tags.nontrivial();
			answer(&port, vec![line.clone()]);
			let before = port.with(|c| c.now);
			let outcome = exec(&mut client, &case.cmd);
			ensure_eq!(outcome.started, Ok(()), "transmission");
			let is_response = matches!(
				case.cmd,
				Cmd::Write { .. }
					| Cmd::WriteBytes { .. }
					| Cmd::RegWrite { .. }
					| Cmd::RegWriteBytes { .. }
					| Cmd::Action { .. }
					| Cmd::FactoryReset { .. }
					| Cmd::Reboot { .. }
					| Cmd::ClearRevolution { .. }
					| Cmd::ClearError { .. }
			);
			let expected = if is_response {
				vec![Ok(Good {
					id: BROADCAST,
					alert: false,
					data: vec![],
				})]
			} else {
				vec![]
			};
			ensure_eq!(outcome.items, expected, "response to a broadcast");
			ensure_eq!(port.with(|c| c.reads()), 0, "number of reads for a broadcast");
			ensure_eq!(port.with(|c| c.now), before, "time after a broadcast");
			ensure_eq!(port.with(|c| c.pending_bytes()), line.len(), "data left on the line after a broadcast");
			ensure!(port.with(|c| c.written()).concat() == case.cmd.frame(), "bytes written");
		},
		_ => {
			tags.tag("unicast");
			// Without an acknowledgement, there is a timeout.
			let (id, count) = expected_replies(&case.cmd)[0];
			let before = port.with(|c| c.now);
			let outcome = exec(&mut client, &case.cmd);
			ensure_eq!(outcome.started, Ok(()), "transmission");
			ensure_eq!(outcome.items, vec![Err(Bad::Timeout)], "result of a command to motor {id} that is not answered");
			let elapsed = port.with(|c| c.now) - before;
			ensure!(elapsed >= refm::reply_budget_ns(count.into(), BAUD), "motor {id} was only given {elapsed} ns to answer");
			// And with an acknowledgement (and an alert) that is what is reported.
			let reply = Reply {
				id,
				error: 0x80,
				data: vec![3; count.into()],
			};
			answer(&port, vec![reply.frame()]);
			let outcome = exec(&mut client, &case.cmd);
			ensure_eq!(outcome.items, judge(&reply, Some(id), None), "result of a command to motor {id} that is answered");
			ensure_eq!(port.with(|c| c.pending_bytes()), 0, "data left on the line");
			let reply = Reply {
				id,
				error: 0x05,
				data: vec![3; count.into()],
			};
			answer(&port, vec![reply.frame()]);
			let outcome = exec(&mut client, &case.cmd);
			ensure_eq!(outcome.items, judge(&reply, Some(id), None), "result of a command to motor {id} that fails");
		},
	}
	Ok(())
}

pub fn c17(ctx: &mut Ctx) {
	ctx.scale = 32.0;
	ctx.rule = "every acknowledged command with every packet ID (complete), and broadcast commands with generated arguments while data arrives on the line; non-trivial: a broadcast";
	ctx.enumerate(
		"every_id",
		|s| {
			(0..=255u8).skip(s).step_by(SHARDS).flat_map(|id| {
				use crate::cmd::{Kind, Ty};
				vec![
					Cmd::Write { id, addr: 3, ty: Ty::U32, val: vec![1, 2, 3, 4] },
					Cmd::Write { id, addr: 3, ty: Ty::A3, val: vec![1, 2, 3] },
					Cmd::WriteBytes { id, addr: 3, data: vec![1, 2] },
					Cmd::RegWrite { id, addr: 3, ty: Ty::U16, val: vec![1, 2] },
					Cmd::RegWriteBytes { id, addr: 3, data: vec![1, 2] },
					Cmd::Action { id },
					Cmd::FactoryReset { id, kind: Kind::ResetAll },
					Cmd::FactoryReset { id, kind: Kind::KeepId },
					Cmd::FactoryReset { id, kind: Kind::KeepIdAndBaudRate },
					Cmd::Reboot { id },
					Cmd::ClearRevolution { id },
					Cmd::ClearError { id },
				]
				.into_iter()
				.map(move |cmd| BroadcastCase {
					cmd,
					line: refm::status(id, 0, &[]),
				})
			})
		},
		check_c17,
	);
	ctx.pbt(
		"broadcasts",
		ctx.n(60_000, 600_000),
		|| {
			let cmd = prop_oneof![
				1 => gen::silent(gen::CFG),
				2 => gen::single(gen::Cfg { raw: false, ..gen::CFG }).prop_map(|mut cmd| {
					match &mut cmd {
						Cmd::Write { id, .. }
						| Cmd::WriteBytes { id, .. }
						| Cmd::RegWrite { id, .. }
						| Cmd::RegWriteBytes { id, .. }
						| Cmd::Action { id }
						| Cmd::FactoryReset { id, .. }
						| Cmd::Reboot { id }
						| Cmd::ClearRevolution { id }
						| Cmd::ClearError { id } => *id = BROADCAST,
						_ => cmd = Cmd::BroadcastAction,
					}
					cmd
				}),
				1 => gen::single(gen::Cfg { broadcast: false, ..gen::CFG }),
			];
			let line = prop_oneof![
				2 => (gen::motor_or_broadcast(), gen::error_byte()).prop_map(|(id, e)| refm::status(id, e, &[])),
				1 => gen::data(0, 30),
			];
			(cmd, line).prop_map(|(cmd, line)| BroadcastCase { cmd, line }).boxed()
		},
		check_c17,
	);
}

// C19

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FaultCase {
	cmd: Cmd,
	replies: Vec<Reply>,
	cuts: Vec<u16>,
	/// Report the failure as a timeout (for writes).
	timeout: bool,
	follow_up: Cmd,
	follow_up_replies: Vec<Reply>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Step {
	Discard,
	Write,
	Read,
}

fn steps(core: &Core) -> Vec<Step> {
	core.log
		.iter()
		.filter_map(|c| match c {
			Call::Discard => Some(Step::Discard),
			Call::Write(_) => Some(Step::Write),
			Call::Read { .. } => Some(Step::Read),
			_ => None,
		})
		.collect()
}

fn stream(replies: &[Reply]) -> Vec<u8> {
	replies.iter().flat_map(|x| x.frame()).collect()
}

/// Check the follow-up exchange: it must give what a fresh client gives.
fn check_follow_up(client: &mut SimClient, port: &SimPort, cmd: &Cmd, replies: &[Reply], context: &str) -> Result<(), String> {
	let bursts = vec![stream(replies)];
	port.with(|c| {
		c.faults.clear();
		c.dead_from = None;
		c.log.clear();
	});
	answer(port, bursts.clone());
	let outcome = exec(client, cmd);
	let (expected, _) = exec_fresh(cmd, bursts);
	ensure!(outcome == expected, "{context}: the next command {cmd:?} resulted in {outcome:?}, on a fresh client in {expected:?}");
	ensure!(port.with(|c| c.written()).concat() == cmd.frame(), "{context}: the next command was not sent correctly");
	Ok(())
}

/// Items must be true replies of the motor they are attributed to.
fn check_items(case: &FaultCase, items: &[Item]) -> Result<(), String> {
	let all = stream(&case.replies);
	for (i, item) in items.iter().enumerate() {
		match case.cmd {
			Cmd::Scan => sound(item, &all, None, Some(3))?,
			_ => {
				let (id, count) = expected_replies(&case.cmd)[i];
				sound(item, &all, Some(id), enforced_count(&case.cmd, count))?;
			},
		}
	}
	Ok(())
}

fn check_c19(case: &FaultCase, tags: &mut Tags) -> Result<(), String> {
	let bursts = gen::split(&stream(&case.replies), &case.cuts);
	let port = SimPort::new(BAUD);
	answer(&port, bursts.clone());
	// The number of I/O calls before a scan is dropped: failures in the drop are not reported.
	let mut before_drop = usize::MAX;
	let clean = exec_n(&mut client(&port, 4096, 4096), &case.cmd, usize::MAX, &mut |_| {
		if case.cmd == Cmd::Scan {
			before_drop = port.with(|c| c.io_calls as usize);
		}
	});
	let clean_steps = port.with(|c| steps(c));
	tags.tag(case.cmd.name());
	tags.sub_evals(clean_steps.len() as u64 * 2);
	tags.nontrivial_if(clean_steps.len() > 2);
	let cap = clean.items.len() + 3;
	for (at, step) in clean_steps.iter().enumerate() {
		for persistent in [false, true] {
			let fault = if case.timeout && *step != Step::Read {
				SimError::Timeout
			} else {
				SimError::Fault(at as u32 + 1)
			};
			let name = format!("{fault:?}");
			let context = format!("{name} at {step:?} (call {at}, persistent: {persistent}) in {:?}", case.cmd);
			let port = SimPort::new(BAUD);
			answer(&port, bursts.clone());
			port.with(|c| {
				c.budget = 5_000;
				if persistent {
					c.dead_from = Some((at as u64, fault));
				} else {
					c.faults.insert(at as u64, fault);
				}
			});
			let mut client = client(&port, 4096, 4096);
			let outcome = exec_n(&mut client, &case.cmd, cap, &mut |_| ());
			let log = port.with(|c| steps(c));
			match step {
				Step::Discard => {
					ensure_eq!(outcome.started, Err(Bad::Discard(name.clone())), "{context}: result");
					ensure!(outcome.items.is_empty(), "{context}: replies were reported: {:?}", outcome.items);
					ensure!(!log.contains(&Step::Write), "{context}: the packet was written nonetheless");
					ensure!(!log.contains(&Step::Read), "{context}: a reply was awaited nonetheless");
				},
				Step::Write => {
					ensure_eq!(outcome.started, Err(Bad::Write(name.clone())), "{context}: result");
					ensure!(outcome.items.is_empty(), "{context}: replies were reported: {:?}", outcome.items);
					ensure!(!log.contains(&Step::Read), "{context}: a reply was awaited nonetheless");
				},
				Step::Read => {
					ensure_eq!(outcome.started, Ok(()), "{context}: transmission");
					if at >= before_drop {
						ensure_eq!(outcome.items, clean.items, "{context}: results of a scan that failed while being dropped");
						check_follow_up(&mut client, &port, &case.follow_up, &case.follow_up_replies, &context)?;
						continue;
					}
					let hits = outcome.items.iter().filter(|x| **x == Err(Bad::Io(name.clone()))).count();
					if case.cmd.is_multi_read() {
						ensure_eq!(outcome.items.len(), clean.items.len(), "{context}: number of results");
					}
					if !case.cmd.is_multi_read() && case.cmd != Cmd::Scan {
						ensure_eq!(outcome.items, vec![Err(Bad::Io(name.clone()))], "{context}: result");
					}
					if persistent {
						ensure!(hits >= 1, "{context}: the failure was not reported: {:?}", outcome.items);
					} else {
						ensure!(hits == 1, "{context}: the failure was not reported exactly once: {:?}", outcome.items);
					}
					// Results from before the failure are not affected.
					let first = outcome.items.iter().position(|x| *x == Err(Bad::Io(name.clone()))).unwrap();
					ensure_eq!(outcome.items[..first], clean.items[..first], "{context}: earlier results");
					check_items(case, &outcome.items).map_err(|e| format!("{context}: {e}"))?;
				},
			}
			check_follow_up(&mut client, &port, &case.follow_up, &case.follow_up_replies, &context)?;
		}
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FaultHistory {
	/// Commands with replies and the I/O calls that fail, counted from the start of the command.
	steps: Vec<(Cmd, Vec<Reply>, Vec<u8>)>,
	follow_up: Cmd,
	follow_up_replies: Vec<Reply>,
}

fn check_fault_history(case: &FaultHistory, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let mut client = client(&port, 4096, 4096);
	for (i, (cmd, replies, faults)) in case.steps.iter().enumerate() {
		let all = stream(replies);
		answer(&port, vec![all.clone()]);
		port.with(|c| {
			c.log.clear();
			c.budget = 5_000;
			c.faults.clear();
			let base = c.io_calls;
			for f in faults {
				c.faults.insert(base + u64::from(*f), SimError::Fault(u32::from(*f) + 100));
			}
		});
		let outcome = exec_n(&mut client, cmd, replies.len() + 8, &mut |_| ());
		let context = format!("command {i} {cmd:?}");
		let log = port.with(|c| steps(c));
		tags.tag_if(outcome.started.is_err(), "transmission_failed");
		tags.tag_if(outcome.items.iter().any(|x| matches!(x, Err(Bad::Io(_)))), "read_failed");
		tags.nontrivial_if(!faults.is_empty() && (outcome.started.is_err() || outcome.items.iter().any(|x| x.is_err())));
		if faults.contains(&0) {
			ensure_eq!(outcome.started, Err(Bad::Discard("Fault(100)".into())), "{context}");
			ensure!(!log.contains(&Step::Write), "{context}: written after failing to discard");
		} else if faults.contains(&1) {
			ensure_eq!(outcome.started, Err(Bad::Write("Fault(101)".into())), "{context}");
			ensure!(!log.contains(&Step::Read), "{context}: read after failing to write");
		} else {
			ensure_eq!(outcome.started, Ok(()), "{context}");
		}
		for (j, item) in outcome.items.iter().enumerate() {
			let (id, count) = match cmd {
				Cmd::Scan => (None, Some(3)),
				_ => match expected_replies(cmd).get(j) {
					Some((id, count)) => (Some(*id), enforced_count(cmd, *count)),
					// The made up response to a broadcast.
					None => continue,
				},
			};
			sound(item, &all, id, count).map_err(|e| format!("{context}: {e}"))?;
		}
	}
	check_follow_up(&mut client, &port, &case.follow_up, &case.follow_up_replies, "after the history")
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DeviceFault {
	traffic: Vec<Vec<u8>>,
	/// How the instruction is divided.
	#[serde(default)]
	cuts: Vec<u16>,
	#[serde(default)]
	params: Vec<u8>,
	read: u8,
	status: Vec<u8>,
}

fn check_device_fault(case: &DeviceFault, tags: &mut Tags) -> Result<(), String> {
	let timeout = Duration::from_millis(1);
	let read = |device: &mut SimDevice| -> Result<u8, Bad> {
		match case.read {
			0 => device.read(timeout).map(|x| x.id).map_err(norm_read),
			1 => device.read_owned(timeout).map(|x| x.id).map_err(norm_read),
			_ => device.read_raw_instruction_timeout(timeout).map(|x| x.packet_id()).map_err(norm_read),
		}
	};
	let last = refm::frame(42, ins::PING, &case.params);
	let fill = |port: &SimPort| {
		port.with(|c| {
			let now = c.now;
			for x in &case.traffic {
				c.push(now, x);
			}
			for part in gen::split(&last, &case.cuts) {
				c.push(now, &part);
			}
		})
	};
	let port = SimPort::new(BAUD);
	fill(&port);
	let mut dev = device(&port, 256, 64);
	read(&mut dev).map_err(|e| format!("without faults: {e:?}"))?;
	let reads = port.with(|c| c.reads());
	tags.nontrivial_if(reads > 1);
	tags.sub_evals(reads as u64 + 2);
	for at in 0..reads {
		let port = SimPort::new(BAUD);
		fill(&port);
		port.with(|c| {
			c.faults.insert(at as u64, SimError::Fault(7));
		});
		let mut device = device(&port, 256, 64);
		ensure_eq!(read(&mut device), Err(Bad::Io("Fault(7)".into())), "read failure at call {at}");
		// Nothing is lost on the device side, so the instruction is still received.
		ensure_eq!(read(&mut device), Ok(42), "instruction after a read failure at call {at}");
	}
	// Failures while sending a status.
	for (at, expected) in [(0, Bad::Discard("Fault(9)".into())), (1, Bad::Write("Fault(9)".into()))] {
		let port = SimPort::new(BAUD);
		port.with(|c| {
			c.faults.insert(at, SimError::Fault(9));
		});
		let mut device = device(&port, 64, 256);
		let status = |device: &mut SimDevice| {
			device
				.write_status(3, 1, case.status.len(), |b| {
					b.copy_from_slice(&case.status);
					Ok(())
				})
				.map_err(norm_write)
		};
		ensure_eq!(status(&mut device), Err(expected), "failure while sending a status");
		if at == 0 {
			ensure!(port.with(|c| c.written()).is_empty(), "status written although discarding failed");
		}
		port.with(|c| c.log.clear());
		ensure_eq!(status(&mut device), Ok(()), "status after a failure");
		ensure!(port.with(|c| c.written()).concat() == refm::status(3, 1, &case.status), "status after a failure");
	}
	Ok(())
}

fn small_cmd(broadcast: bool) -> BoxedStrategy<Cmd> {
	let cfg = gen::Cfg {
		data: 8,
		count: 12,
		motors: 4,
		broadcast,
		raw: true,
	};
	gen::cmd(cfg)
}

/// Commands with their replies, scan included.
pub fn answered_or_scan(cmd: BoxedStrategy<Cmd>) -> BoxedStrategy<(Cmd, Vec<Reply>)> {
	answered(cmd, gen::error_byte)
		.prop_flat_map(|(cmd, replies)| match cmd {
			Cmd::Scan => (
				Just(cmd),
				proptest::collection::vec(
					(gen::motor_id(), gen::error_byte(), gen::data_exact(3)).prop_map(|(id, error, data)| Reply { id, error, data }),
					0..5,
				),
			)
				.boxed(),
			_ => Just((cmd, replies)).boxed(),
		})
		.boxed()
}

pub fn c19(ctx: &mut Ctx) {
	ctx.rule = "every command, with a failure (once or persistent) at every individual port call of the exchange, followed by another exchange; non-trivial: the exchange has more than two port calls";
	ctx.pbt(
		"every_call",
		ctx.n(30_000, 400_000),
		|| {
			(answered_or_scan(small_cmd(true)), gen::cuts(), any::<bool>(), answered_or_scan(small_cmd(true)))
				.prop_map(|((cmd, replies), cuts, timeout, (follow_up, follow_up_replies))| FaultCase {
					cmd,
					replies,
					cuts,
					timeout,
					follow_up,
					follow_up_replies,
				})
				.boxed()
		},
		check_c19,
	);
	ctx.pbt(
		"histories",
		ctx.n(20_000, 300_000),
		|| {
			(
				proptest::collection::vec((answered_or_scan(small_cmd(true)), prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec(0u8..8, 1..4)]), 1..8),
				answered_or_scan(small_cmd(true)),
			)
				.prop_map(|(steps, (follow_up, follow_up_replies))| FaultHistory {
					steps: steps.into_iter().map(|((cmd, replies), faults)| (cmd, replies, faults)).collect(),
					follow_up,
					follow_up_replies,
				})
				.boxed()
		},
		check_fault_history,
	);
	ctx.pbt(
		"device",
		ctx.n(20_000, 200_000),
		|| {
			let piece = prop_oneof![
				proptest::collection::vec(0u8..=0xFE, 1..6),
				(gen::motor_id(), gen::data(0, 6)).prop_map(|(id, x)| refm::status(id, 0, &x)),
			];
			(proptest::collection::vec(piece, 0..5), gen::cuts(), gen::data(0, 20), 0u8..3, gen::data(0, 20))
				.prop_map(|(traffic, cuts, params, read, status)| DeviceFault { traffic, cuts, params, read, status })
				.boxed()
		},
		check_device_fault,
	);
}
