//! Operations with multiple replies: C15, C16.

use super::*;
use crate::cmd::{exec_n, judge, norm_read, norm_write, Bad, Good, Item, Reply, TestVal, Ty, Via, View};
use crate::gen::{self, Piece};
use crate::props::reply::{answered, answered_or_scan, baud, expected_replies};
use crate::refm;
use crate::runner::{Ctx, Tags};
use crate::sim::{Call, SimError};
use crate::{ensure, ensure_eq, with_ty};
use dynamixel2::instructions::BulkReadData;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// C15

/// Something that shows up on the bus while replies are awaited.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
	/// An intact status packet (which may be the wrong one).
	Reply(Reply),
	/// A status packet with a wrong CRC.
	Damaged(Reply, u16),
	/// Another intact packet.
	Other { id: u8, instruction: u8, params: Vec<u8> },
	/// Bytes that can not be part of a header.
	Noise(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Event {
	/// Time since the previous event, in microseconds.
	gap: u32,
	/// Where to split the data, as arrival delays of up to 100 us each.
	cuts: Vec<u16>,
	kind: Kind,
}

/// How to take one result.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Take {
	Next,
	Borrow,
	Iter,
	/// Throw away a number of results with `nth()`.
	Nth(u8),
	/// Print the operation for debugging first.
	Debug,
}

/// How to consume the results.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Consume {
	Via(Via),
	/// Mix the ways on a single operation, started with the borrowing constructor or not.
	Mixed { borrow: bool, steps: Vec<Take> },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MultiCase {
	cmd: Cmd,
	consume: Consume,
	baud: u32,
	events: Vec<Event>,
	/// Size of the read buffer beyond what is needed for the largest packet.
	extra: u16,
}

impl Kind {
	fn bytes(&self) -> Vec<u8> {
		match self {
			Kind::Reply(r) => r.frame(),
			Kind::Damaged(r, xor) => {
				let mut f = r.frame();
				let n = f.len();
				f[n - 2] ^= (xor % 256) as u8;
				f[n - 1] ^= (xor / 256) as u8;
				f
			},
			Kind::Other { id, instruction, params } => refm::frame(*id, *instruction, params),
			Kind::Noise(x) => x.clone(),
		}
	}
}

const SLACK: u128 = 2_000;

/// What happens on the bus: bursts, packets with the time at which they are complete.
struct Plan {
	bursts: Vec<(u128, Vec<u8>)>,
	/// Acceptable results per motor, with the time at which each is known.
	items: Vec<(Vec<Item>, u128)>,
	/// Packets left over.
	left: usize,
}

/// Simulate taking one result after the other: each takes the next packet, if that comes in time.
fn plan(cmd: &Cmd, baud: u32, events: &[Event]) -> Plan {
	let expected = expected_replies(cmd);
	let mut at = 0u128;
	let mut bursts = Vec::new();
	let mut items: Vec<(Vec<Item>, u128)> = Vec::new();
	let mut now = 0u128;
	let mut left = 0;
	for event in events {
		at += u128::from(event.gap) * 1000;
		let bytes = event.kind.bytes();
		let parts = gen::split(&bytes, &event.cuts);
		let span = |n: usize| n as u128 * 100_000;
		let mut done = at + span(parts.len().saturating_sub(1));
		let is_packet = !matches!(event.kind, Kind::Noise(_));
		if is_packet {
			// Everyone that gave up before the packet was complete.
			while let Some((_, count)) = expected.get(items.len()) {
				let deadline = now + refm::reply_budget_ns((*count).into(), baud);
				if done <= deadline {
					break;
				}
				if done <= deadline + SLACK {
					// Too close to be sure, so make it later.
					let late = deadline + 2 * SLACK - done;
					at += late;
					done += late;
				}
				items.push((vec![Err(Bad::Timeout)], deadline));
				now = deadline;
			}
			if let Some((id, count)) = expected.get(items.len()) {
				now = now.max(done);
				let ok = match &event.kind {
					Kind::Reply(r) => judge(r, Some(*id), Some(*count)),
					Kind::Damaged(..) => {
						let n = bytes.len();
						vec![Err(Bad::Crc {
							message: u16::from(bytes[n - 2]) + 256 * u16::from(bytes[n - 1]),
							computed: refm::crc(0, &bytes[..n - 2]),
						})]
					},
					Kind::Other { instruction, .. } => vec![Err(Bad::Instruction {
						actual: *instruction,
						expected: refm::ins::STATUS,
					})],
					Kind::Noise(_) => unreachable!(),
				};
				items.push((ok, now));
			} else {
				left += 1;
			}
		}
		for (i, part) in parts.into_iter().enumerate() {
			bursts.push((at + span(i), part));
		}
		at = done;
	}
	while let Some((_, count)) = expected.get(items.len()) {
		now += refm::reply_budget_ns((*count).into(), baud);
		items.push((vec![Err(Bad::Timeout)], now));
	}
	Plan { bursts, items, left }
}

fn send_bursts(port: &SimPort, bursts: Vec<(u128, Vec<u8>)>) {
	port.on_write(move |_, now| {
		bursts
			.iter()
			.map(|(at, data)| Rx {
				at: now + at,
				data: data.clone(),
			})
			.collect()
	});
}

type Observed = (Vec<(usize, Item)>, Vec<(usize, (usize, Option<usize>))>);

/// Consume the results in mixed ways. Gives the results with their position, and `remaining()` and `size_hint()` after each.
fn mixed(client: &mut SimClient, cmd: &Cmd, borrow: bool, steps: &[Take], idle: impl Fn() -> usize) -> Result<Observed, String> {
	macro_rules! run {
		($start:expr) => {
			run!($start, |r: dynamixel2::Response<View>| Good {
				id: r.motor_id,
				alert: r.alert,
				data: r.data.0,
			}, op, op.read_next_borrow().map(|r| {
				r.map(|r| Good {
					id: r.motor_id,
					alert: r.alert,
					data: r.data.0.clone(),
				})
				.map_err(norm_read)
			}))
		};
		($start:expr, $take:expr, $op:ident, $borrow:expr) => {{
			let mut $op = $start.map_err(|e| format!("transmission failed: {:?}", norm_write(e)))?;
			let mut items = Vec::new();
			let mut states = vec![($op.remaining(), $op.size_hint())];
			let mut position = 0;
			let mut i = 0;
			loop {
				let step = steps.get(i % steps.len().max(1)).copied().unwrap_or(Take::Next);
				i += 1;
				let take = $take;
				let item = match step {
					Take::Next => $op.read_next().map(|r| r.map(take).map_err(norm_read)),
					Take::Iter => $op.next().map(|r| r.map(take).map_err(norm_read)),
					Take::Borrow => $borrow,
					Take::Debug => {
						// Printing it for debugging changes nothing.
						let calls = idle();
						let before = ($op.remaining(), $op.size_hint());
						ensure!(!format!("{:?}", $op).is_empty(), "the debug format is empty");
						ensure_eq!(idle(), calls, "number of serial port calls after printing");
						ensure_eq!(($op.remaining(), $op.size_hint()), before, "remaining() and size_hint() after printing");
						$op.read_next().map(|r| r.map(take).map_err(norm_read))
					},
					Take::Nth(n) => {
						position += usize::from(n);
						$op.nth(n.into()).map(|r| r.map(take).map_err(norm_read))
					},
				};
				states.push(($op.remaining(), $op.size_hint()));
				match item {
					Some(item) => items.push((position, item)),
					None => break,
				}
				position += 1;
				ensure!(items.len() < 10_000, "the results do not end");
			}
			// There is nothing after the end.
			let calls = idle();
			ensure!($op.read_next().is_none() && $op.next().is_none() && $borrow.is_none(), "a result after the end");
			ensure_eq!(idle(), calls, "number of serial port calls after the end");
			ensure_eq!($op.remaining(), 0, "remaining() at the end");
			drop($op);
			ensure_eq!(idle(), calls, "number of serial port calls for dropping a finished operation");
			Ok((items, states))
		}};
	}
	match cmd {
		Cmd::SyncReadBytes { ids, addr, count, .. } => {
			if borrow {
				run!(client.sync_read_bytes_borrow::<View>(ids, *addr, *count))
			} else {
				run!(client.sync_read_bytes::<View>(ids, *addr, *count))
			}
		},
		Cmd::BulkRead { reads, .. } => {
			let reads: Vec<BulkReadData> = reads
				.iter()
				.map(|(motor_id, address, count)| BulkReadData {
					motor_id: *motor_id,
					address: *address,
					count: *count,
				})
				.collect();
			if borrow {
				run!(client.bulk_read_bytes_borrow::<View>(&reads))
			} else {
				run!(client.bulk_read_bytes::<View>(&reads))
			}
		},
		// There is no borrowed form of these.
		Cmd::SyncRead { ids, addr, ty, .. } => with_ty!(*ty, T => {
			let take = |r: dynamixel2::Response<T>| Good {
				id: r.motor_id,
				alert: r.alert,
				data: r.data.to_ref(),
			};
			run!(client.sync_read::<T>(ids, *addr), take, op, op.read_next().map(|r| r.map(take).map_err(norm_read)))
		}),
		_ => unreachable!("only for sync and bulk reads"),
	}
}

fn with_via(cmd: &Cmd, new: Via) -> Cmd {
	let mut cmd = cmd.clone();
	match &mut cmd {
		Cmd::SyncRead { via, .. } | Cmd::SyncReadBytes { via, .. } | Cmd::BulkRead { via, .. } => *via = new,
		_ => (),
	}
	cmd
}

fn largest(events: &[Event]) -> usize {
	events.iter().map(|e| e.kind.bytes().len()).max().unwrap_or(0).max(10)
}

fn check_c15(case: &MultiCase, tags: &mut Tags) -> Result<(), String> {
	let expected = expected_replies(&case.cmd);
	let plan = plan(&case.cmd, case.baud, &case.events);
	let port = SimPort::new(case.baud);
	let started = port.with(|c| c.now);
	send_bursts(&port, plan.bursts);
	let mut client = client(&port, largest(&case.events) + usize::from(case.extra), 4096);
	let items: Vec<(usize, Item)>;
	let mut remaining = Vec::new();
	let cmd;
	match &case.consume {
		Consume::Via(via) => {
			cmd = with_via(&case.cmd, *via);
			let outcome = exec_n(&mut client, &cmd, usize::MAX, &mut |n| remaining.push((n, n)));
			ensure_eq!(outcome.started, Ok(()), "transmission");
			items = outcome.items.into_iter().enumerate().collect();
			ensure_eq!(items.len(), expected.len(), "number of results");
			let want: Vec<_> = (0..=expected.len()).rev().map(|n| (n, n)).collect();
			ensure_eq!(remaining, want, "outstanding replies after each result");
		},
		Consume::Mixed { borrow, steps } => {
			tags.tag("mixed");
			cmd = case.cmd.clone();
			let io = port.clone();
			let (taken, states) = mixed(&mut client, &cmd, *borrow, steps, || io.with(|c| c.log.len()))?;
			items = taken;
			for (i, (remaining, (low, high))) in states.iter().enumerate() {
				ensure!(
					low <= remaining && high.is_none_or(|x| x >= *remaining),
					"size_hint() is ({low}, {high:?}) with {remaining} results to go (after {i} steps)"
				);
				if i > 0 && i <= items.len() {
					ensure_eq!(*remaining, expected.len() - items[i - 1].0 - 1, "remaining() after result {}", items[i - 1].0);
				}
			}
			ensure_eq!(states[0].0, expected.len(), "remaining() at the start");
			if steps.iter().all(|x| !matches!(x, Take::Nth(_))) {
				ensure_eq!(items.len(), expected.len(), "number of results");
			}
		},
	}
	ensure!(port.with(|c| c.written()).concat() == cmd.frame(), "what was sent");
	// Each result has to be the right one.
	for (i, item) in &items {
		let (ok, _) = &plan.items[*i];
		ensure!(
			ok.contains(item),
			"result {i} of {} for motor {} ({} bytes) is {item:?}, expected {:?}",
			expected.len(),
			expected[*i].0,
			expected[*i].1,
			ok[0]
		);
		if let Ok(good) = item {
			ensure_eq!(good.id, expected[*i].0, "ID of result {}", i);
			ensure_eq!(good.data.len(), usize::from(expected[*i].1), "size of result {}", i);
		}
	}
	// Including when it came.
	let end = port.with(|c| c.now) - started;
	let want = plan.items.last().map_or(0, |x| x.1);
	ensure!(
		end >= want && end <= want + SLACK * expected.len() as u128,
		"all results were taken after {end} ns, expected {want} ns"
	);
	tags.tag(cmd.name());
	let bad = plan.items.iter().filter(|x| x.0[0].is_err()).count();
	tags.tag_if(plan.items.iter().any(|x| x.0[0] == Err(Bad::Timeout)), "missing");
	tags.tag_if(plan.items.iter().any(|x| matches!(x.0[0], Err(Bad::Id { .. }))), "wrong motor");
	tags.tag_if(plan.items.iter().any(|x| matches!(x.0[0], Err(Bad::Count { .. }))), "wrong size");
	tags.tag_if(plan.items.iter().any(|x| matches!(x.0[0], Err(Bad::Crc { .. }))), "damaged");
	tags.tag_if(plan.items.iter().any(|x| matches!(x.0[0], Err(Bad::Motor { .. }))), "motor error");
	tags.tag_if(plan.left > 0, "packets left over");
	tags.tag_if(bad > 0 && plan.items.iter().rev().take_while(|x| x.0[0].is_ok()).count() > 0, "good after bad");
	tags.nontrivial_if(expected.len() > 1);
	Ok(())
}

fn noise() -> BoxedStrategy<Vec<u8>> {
	proptest::collection::vec(0u8..0xFF, 1..12).boxed()
}

/// Events for a list of expected replies.
fn events(expected: &[(u8, u16)], rough: bool) -> BoxedStrategy<Vec<Event>> {
	let mut all: Vec<BoxedStrategy<Vec<Event>>> = Vec::new();
	let ids: Vec<u8> = expected.iter().map(|x| x.0).collect();
	for (id, count) in expected.iter().copied() {
		let data = gen::data_exact(count.into());
		let other = prop_oneof![3 => proptest::sample::select(ids.clone()), 1 => gen::any_id()];
		let own = (gen::error_byte(), data.clone())
			.prop_map(move |(error, data)| Some(Kind::Reply(Reply { id, error, data })))
			.boxed();
		let kind = prop_oneof![
			8 => (gen::ok_byte(), data.clone()).prop_map(move |(error, data)| Some(Kind::Reply(Reply { id, error, data }))),
			1 => own.clone(),
			u32::from(rough) => Just(None),
			u32::from(rough) => (gen::ok_byte(), data.clone(), other.clone()).prop_map(|(error, data, id)| Some(Kind::Reply(Reply { id, error, data }))),
			u32::from(rough) => (gen::error_byte(), gen::data(0, usize::from(count) + 3)).prop_map(move |(error, data)| Some(Kind::Reply(Reply { id, error, data }))),
			u32::from(rough) => (gen::error_byte(), data, 1u16..).prop_map(move |(error, data, xor)| Some(Kind::Damaged(Reply { id, error, data }, xor))),
			u32::from(rough) => (other, any::<u8>().prop_map(|x| if x == 0x55 { 1 } else { x }), gen::data(0, 8))
				.prop_map(|(id, instruction, params)| Some(Kind::Other { id, instruction, params })),
		];
		let gap = if rough {
			prop_oneof![6 => 0u32..2_000, 1 => 25_000u32..45_000, 1 => 0u32..120_000].boxed()
		} else {
			prop_oneof![6 => 0u32..2_000, 2 => 0u32..30_000].boxed()
		};
		let cuts = prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(any::<u16>(), 1..4)];
		let noise = prop_oneof![
			8 => Just(None),
			1 => noise().prop_map(Some),
		];
		all.push(
			(kind, gap, cuts, noise)
				.prop_map(|(kind, gap, cuts, noise)| {
					let mut out = Vec::new();
					if let Some(x) = noise {
						out.push(Event {
							gap: gap / 3,
							cuts: vec![],
							kind: Kind::Noise(x),
						});
					}
					if let Some(kind) = kind {
						out.push(Event { gap, cuts, kind });
					}
					out
				})
				.boxed(),
		);
	}
	all.prop_map(|x| x.concat()).boxed()
}

fn take() -> BoxedStrategy<Take> {
	prop_oneof![4 => Just(Take::Next), 4 => Just(Take::Borrow), 4 => Just(Take::Iter), 1 => Just(Take::Debug), 1 => (0u8..3).prop_map(Take::Nth)].boxed()
}

fn multi_cmd(cfg: gen::Cfg) -> BoxedStrategy<Cmd> {
	prop_oneof![
		3 => gen::multi(cfg),
		// The same size for everyone makes it harder to notice mix-ups.
		1 => (gen::ids(cfg.motors), gen::addr(), 0..=cfg.count, gen::via()).prop_map(|(ids, addr, count, via)| Cmd::BulkRead {
			reads: ids.into_iter().map(|id| (id, addr, count)).collect(),
			via,
		}),
	]
	.boxed()
}

fn multi_case(cfg: gen::Cfg) -> BoxedStrategy<MultiCase> {
	(multi_cmd(cfg), gen::chance(75))
		.prop_flat_map(|(cmd, rough)| {
			let expected = expected_replies(&cmd);
			let typed = matches!(cmd, Cmd::SyncRead { .. });
			let via = if typed {
				proptest::sample::select(vec![Via::Next, Via::Iter]).boxed()
			} else {
				gen::via().boxed()
			};
			let consume = prop_oneof![
				via.prop_map(Consume::Via),
				(any::<bool>(), proptest::collection::vec(take(), 1..5)).prop_map(|(borrow, steps)| Consume::Mixed { borrow, steps }),
			];
			(Just(cmd), consume, baud(), events(&expected, rough), prop_oneof![Just(0u16), 0u16..300])
		})
		.prop_map(|(cmd, consume, baud, events, extra)| MultiCase {
			cmd,
			consume,
			baud,
			events,
			extra,
		})
		.boxed()
}

/// All ways to consume results have to agree, whatever is received.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Agree {
	cmd: Cmd,
	input: Vec<(u32, Piece)>,
	cuts: Vec<u16>,
	read: u16,
}

fn check_agree(case: &Agree, tags: &mut Tags) -> Result<(), String> {
	let expected = expected_replies(&case.cmd);
	let mut at = 0u128;
	let mut bursts = Vec::new();
	let mut stream = Vec::new();
	for (gap, piece) in &case.input {
		at += u128::from(*gap) * 1000;
		let bytes = piece.bytes();
		for part in gen::split(&bytes, &case.cuts) {
			bursts.push((at, part));
		}
		stream.extend(bytes);
	}
	let vias: &[Via] = match case.cmd {
		Cmd::SyncRead { .. } => &[Via::Next, Via::Iter],
		_ => &[Via::Next, Via::Iter, Via::Borrow, Via::BorrowCtor],
	};
	let run = |cmd: &Cmd| {
		let port = SimPort::new(BAUD);
		send_bursts(&port, bursts.clone());
		let mut client = client(&port, case.read.into(), 1024);
		let outcome = exec_n(&mut client, cmd, usize::MAX, &mut |_| ());
		let state = port.with(|c| (c.now, c.pending_bytes()));
		(outcome, state)
	};
	let mut all = Vec::new();
	for via in vias {
		all.push((format!("{via:?}"), run(&with_via(&case.cmd, *via))));
	}
	// A typed read is a bytes read of the right size.
	if let Cmd::SyncRead { ids, addr, ty, .. } = &case.cmd {
		let cmd = Cmd::SyncReadBytes {
			ids: ids.clone(),
			addr: *addr,
			count: ty.size() as u16,
			via: Via::Next,
		};
		all.push(("bytes".into(), run(&cmd)));
	}
	// And a sync read is a bulk read with the same parameters for everyone.
	if let Some((ids, addr, count)) = match &case.cmd {
		Cmd::SyncReadBytes { ids, addr, count, .. } if (1..ids.len()).all(|i| !ids[..i].contains(&ids[i])) => Some((ids, addr, count)),
		_ => None,
	} {
		let cmd = Cmd::BulkRead {
			reads: ids.iter().map(|id| (*id, *addr, *count)).collect(),
			via: Via::Next,
		};
		all.push(("bulk".into(), run(&cmd)));
	}
	for (what, result) in &all[1..] {
		ensure!(
			same(&result.0.items, &all[0].1 .0.items) && result.1 == all[0].1 .1,
			"{what} gives {result:?}, but {} gives {:?}",
			all[0].0,
			all[0].1
		);
	}
	let items = &all[0].1 .0.items;
	ensure_eq!(items.len(), expected.len(), "number of results");
	for (i, item) in items.iter().enumerate() {
		crate::props::reply::sound(item, &stream, Some(expected[i].0), Some(expected[i].1))?;
	}
	tags.sub_evals(all.len() as u64 - 1);
	tags.tag_if(items.iter().any(|x| x.is_ok()), "some succeed");
	tags.tag_if(items.iter().any(|x| x.is_err()), "some fail");
	tags.nontrivial_if(items.len() > 1 && items.iter().any(|x| *x != Err(Bad::Timeout)));
	Ok(())
}

/// Which of multiple problems is reported is up to the implementation.
fn same(a: &[Item], b: &[Item]) -> bool {
	a.len() == b.len()
		&& a.iter().zip(b).all(|(a, b)| match (a, b) {
			(Ok(a), Ok(b)) => a == b,
			(Err(a), Err(b)) => a == b || !matches!(a, Bad::Timeout | Bad::Io(_)) && !matches!(b, Bad::Timeout | Bad::Io(_)),
			_ => false,
		})
}

pub fn c15(ctx: &mut Ctx) {
	ctx.rule = "at least two motors are read; for agreement, at least one result is not a timeout";
	ctx.assumptions.push("a reply is awaited from the moment the previous result was known, for the same time as a single read".into());
	let cfg = gen::Cfg {
		count: 12,
		motors: 8,
		..gen::CFG
	};
	let n = ctx.n(24_000, 1_200_000);
	ctx.pbt("attribution", n, move || multi_case(cfg), check_c15);
	let big = gen::Cfg {
		count: 300,
		motors: 200,
		..gen::CFG
	};
	let n = ctx.n(800, 20_000);
	ctx.pbt("attribution_many", n, move || multi_case(big), check_c15);
	let n = ctx.n(8_000, 300_000);
	ctx.pbt(
		"agreement",
		n,
		move || {
			let replies = answered(multi_cmd(cfg), gen::error_byte).prop_flat_map(|(cmd, replies)| {
				let pieces: Vec<BoxedStrategy<(u32, Piece)>> = replies
					.into_iter()
					.map(|r| {
						let mut params = vec![r.error];
						params.extend(&r.data);
						let frame = Piece::Frame {
							id: r.id,
							instruction: 0x55,
							params,
						};
						let other = Piece::Bytes(r.frame()[..r.frame().len() / 2].to_vec());
						(
							prop_oneof![4 => 0u32..1000, 1 => 0u32..60_000],
							prop_oneof![6 => Just(frame), 2 => gen::piece(true, 14), 1 => Just(other)],
						)
							.boxed()
					})
					.collect();
				(Just(cmd), pieces)
			});
			(replies, gen::cuts(), prop_oneof![2 => Just(512u16), 1 => 10u16..64])
				.prop_map(|((cmd, input), cuts, read)| Agree { cmd, input, cuts, read })
				.boxed()
		},
		check_agree,
	);
}

// C16

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DropCase {
	cmd: Cmd,
	events: Vec<Event>,
	baud: u32,
	take: u8,
	/// Size of the read buffer.
	read: u16,
	/// The command to send afterwards.
	next: Cmd,
	next_replies: Vec<Reply>,
}

struct Abandoned {
	items: Vec<Item>,
	/// Time of the end of the operation, including dropping it.
	end: u128,
	/// What is still to be received after that.
	pending: usize,
	next: Outcome,
	next_frame: Vec<u8>,
	next_at: u128,
}

fn abandon(case: &DropCase, bursts: &[(u128, Vec<u8>)], take: usize) -> Abandoned {
	let port = SimPort::new(case.baud);
	let bursts = bursts.to_vec();
	let replies: Vec<u8> = case.next_replies.iter().flat_map(|r| r.frame()).collect();
	let mut first = true;
	let sent = std::rc::Rc::new(std::cell::RefCell::new((Vec::new(), 0u128)));
	let sent_clone = sent.clone();
	port.on_write(move |frame, now| {
		if std::mem::replace(&mut first, false) {
			bursts
				.iter()
				.map(|(at, data)| Rx {
					at: now + at,
					data: data.clone(),
				})
				.collect()
		} else {
			*sent_clone.borrow_mut() = (frame.to_vec(), now);
			vec![Rx {
				at: now,
				data: replies.clone(),
			}]
		}
	});
	let mut client = client(&port, case.read.into(), 4096);
	let outcome = exec_n(&mut client, &case.cmd, take, &mut |_| ());
	let (end, pending) = port.with(|c| (c.now, c.pending_bytes()));
	let next = exec_n(&mut client, &case.next, usize::MAX, &mut |_| ());
	let (next_frame, next_at) = sent.borrow().clone();
	Abandoned {
		items: outcome.items,
		end,
		pending,
		next,
		next_frame,
		next_at,
	}
}

/// When the last reply of a scan comes in: the first pause that is longer than the timeout ends it.
fn scan_end(events: &[Event], baud: u32) -> Option<u128> {
	let timeout = refm::transfer_ns(14 * 253, baud) + 34_000_000;
	let mut at = 0u128;
	let mut last = 0u128;
	for event in events {
		at += u128::from(event.gap) * 1000;
		let parts = gen::split(&event.kind.bytes(), &event.cuts).len().saturating_sub(1);
		at += parts as u128 * 100_000;
		if matches!(event.kind, Kind::Noise(_)) {
			continue;
		}
		if at > last + timeout + SLACK {
			return Some(last + timeout);
		}
		if at > last + timeout {
			return None;
		}
		last = at;
	}
	Some(last + timeout)
}

fn check_c16(case: &DropCase, tags: &mut Tags) -> Result<(), String> {
	let plan = plan(&case.cmd, case.baud, &case.events);
	let take = usize::from(case.take);
	let start = 1_000_000;
	let dropped = abandon(case, &plan.bursts, take);
	let all = abandon(case, &plan.bursts, usize::MAX);
	tags.tag(case.cmd.name());
	ensure!(
		dropped.items.len() <= take && all.items.starts_with(&dropped.items),
		"taking {take} results gave {:?}, taking all gave {:?}",
		dropped.items,
		all.items
	);
	let scan = matches!(case.cmd, Cmd::Scan);
	let big_enough = largest(&case.events) <= usize::from(case.read);
	if scan {
		// Whether dropping a finished scan waits once more does not matter.
		// Replies that are too large have to be waited for as well, but they are over when their header is received.
		let clear = big_enough || case.events.iter().all(|e| e.cuts.is_empty());
		tags.tag_if(!big_enough, "small buffer");
		let Some(end) = scan_end(&case.events, case.baud).filter(|_| clear) else {
			tags.tag("skipped");
			return Ok(());
		};
		if dropped.items.len() == take {
			ensure!(
				dropped.end >= start + end && dropped.end <= start + end + SLACK,
				"dropping the scan after {take} results ended {} ns after transmission, but the scan is over after {end} ns",
				dropped.end - start
			);
		} else {
			ensure!(dropped.end >= start + end, "the scan ended {} ns after transmission instead of {end} ns", dropped.end - start);
		}
	} else {
		let n = expected_replies(&case.cmd).len();
		ensure!(
			dropped.end >= all.end && dropped.end <= all.end + SLACK * n as u128,
			"dropping the operation after {take} of {n} results ended {} ns after transmission, but reading everything ends after {} ns",
			dropped.end - start,
			all.end - start
		);
		ensure_eq!(dropped.pending, all.pending, "bytes that are not received yet after the operation");
		if big_enough {
			let want = plan.items.last().map_or(0, |x| x.1);
			ensure!(
				dropped.end >= start + want && dropped.end <= start + want + SLACK * n as u128,
				"the operation ended {} ns after transmission, expected {want} ns",
				dropped.end - start
			);
		}
		tags.tag_if(take < n, "abandoned");
		tags.nontrivial_if(take < n);
	}
	tags.tag_if(take == 0, "nothing taken");
	tags.tag_if(dropped.end > start, "waited");
	if scan {
		tags.nontrivial_if(dropped.items.len() == take && !case.events.is_empty());
	}
	// The next command.
	ensure!(
		dropped.next_frame == case.next.frame(),
		"the next command was sent as {}, expected {}",
		hex(&dropped.next_frame),
		hex(&case.next.frame())
	);
	ensure!(dropped.next_at >= dropped.end, "the next command was sent too early");
	ensure_eq!(dropped.next.started, Ok(()), "transmission of the next command");
	let fits = case.next_replies.iter().all(|r| r.frame().len() <= usize::from(case.read));
	if dropped.pending == 0 && fits {
		tags.tag("next command checked");
		let want: Vec<Item> = case.next_replies.iter().map(|r| judge(r, None, None)[0].clone()).collect();
		ensure_eq!(dropped.next.items, want, "results of the next command");
	}
	Ok(())
}

/// A read of the same motors, so that left over replies would be mistaken for the answer.
fn next_cmd(cmd: &Cmd) -> BoxedStrategy<Cmd> {
	let options: Vec<Cmd> = match cmd {
		Cmd::Scan => vec![Cmd::Ping { id: 1 }, Cmd::Ping { id: 253 }],
		_ => {
			let mut x: Vec<Cmd> = expected_replies(cmd)
				.into_iter()
				.map(|(id, count)| Cmd::ReadBytes { id, addr: 7, count })
				.collect();
			x.push(Cmd::Ping { id: 3 });
			x
		},
	};
	let options = proptest::sample::select(options);
	let again = cmd.clone();
	if matches!(cmd, Cmd::Scan) {
		options.boxed()
	} else {
		prop_oneof![4 => options, 1 => Just(again)].boxed()
	}
}

fn drop_case(cfg: gen::Cfg, scan: bool) -> BoxedStrategy<DropCase> {
	let cmd = if scan { Just(Cmd::Scan).boxed() } else { multi_cmd(cfg) };
	(cmd, gen::chance(60))
		.prop_flat_map(move |(cmd, rough)| {
			let events = if scan {
				gen::id_list(8)
					.prop_flat_map(move |ids| events(&ids.iter().map(|id| (*id, 3)).collect::<Vec<_>>(), rough))
					.boxed()
			} else {
				events(&expected_replies(&cmd), rough)
			};
			let next = answered(next_cmd(&cmd), gen::ok_byte);
			let read = if scan { prop_oneof![4 => Just(200u16), 1 => 10u16..40].boxed() } else { prop_oneof![3 => Just(1000u16), 1 => 10u16..40].boxed() };
			(Just(cmd), events, baud(), prop_oneof![2 => Just(0u8), 5 => 0u8..10, u32::from(cfg.motors > 10) * 4 => any::<u8>()], read, next)
		})
		.prop_map(|(cmd, mut events, baud, take, read, (next, next_replies))| DropCase {
			events: {
				if cmd == Cmd::Scan && read < 40 {
					events.iter_mut().for_each(|e| e.cuts.clear());
				}
				events
			},
			cmd,
			baud,
			take,
			read,
			next,
			next_replies,
		})
		.boxed()
}

/// Dropping with a port that fails.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DeadCase {
	cmd: Cmd,
	replies: Vec<Reply>,
	cuts: Vec<u16>,
	take: u8,
	/// After how many calls the port fails.
	dies: u8,
	/// Whether it fails with timeouts.
	timeout: bool,
	/// Whether the port fails for good, or only for this many calls.
	faults: Option<u8>,
	read: u16,
}

fn check_dead(case: &DeadCase, tags: &mut Tags) -> Result<(), String> {
	let port = SimPort::new(BAUD);
	let stream: Vec<u8> = case.replies.iter().flat_map(|r| r.frame()).collect();
	answer(&port, gen::split(&stream, &case.cuts));
	let mut client = client(&port, case.read.into(), 1024);
	let error = if case.timeout { SimError::Timeout } else { SimError::Fault(5) };
	// The first two calls are discarding and transmitting.
	let from = 2 + u64::from(case.dies);
	port.with(|c| match case.faults {
		None => c.dead_from = Some((from, error)),
		Some(n) => c.faults.extend((from..from + u64::from(n)).map(|i| (i, error))),
	});
	let n = expected_replies(&case.cmd).len();
	let outcome = exec_n(&mut client, &case.cmd, case.take.into(), &mut |_| ());
	ensure_eq!(outcome.started, Ok(()), "transmission");
	for (i, item) in outcome.items.iter().enumerate() {
		let (id, count) = match expected_replies(&case.cmd).get(i) {
			Some((id, count)) => (Some(*id), Some(*count)),
			None => (None, Some(3)),
		};
		crate::props::reply::sound(item, &stream, id, count)?;
	}
	let reached = port.with(|c| c.io_calls) > from;
	tags.tag(case.cmd.name());
	tags.tag_if(case.faults.is_some(), "temporary failure");
	tags.tag_if(case.timeout, "timeouts");
	tags.nontrivial_if(reached && (n > usize::from(case.take) || matches!(case.cmd, Cmd::Scan)));
	// Afterwards the client still works, if the port does.
	port.with(|c| {
		c.dead_from = None;
		c.faults.clear();
		c.rx.clear();
		c.log.clear();
	});
	let reply = Reply {
		id: 9,
		error: 0,
		data: vec![1, 2, 3],
	};
	answer(&port, vec![reply.frame()]);
	let next = Cmd::Ping { id: 9 };
	let outcome = exec(&mut client, &next);
	ensure!(port.with(|c| c.written()).concat() == next.frame(), "what was sent next");
	if usize::from(case.read) >= reply.frame().len() {
		ensure_eq!(outcome.items, judge(&reply, Some(9), Some(3)), "next result");
	}
	ensure!(port.with(|c| c.log.iter().any(|c| matches!(c, Call::Write(_)))), "nothing sent");
	Ok(())
}

pub fn c16(ctx: &mut Ctx) {
	ctx.scale = 16.0;
	ctx.rule = "replies are outstanding when the operation is dropped";
	let cfg = gen::Cfg {
		count: 12,
		motors: 8,
		..gen::CFG
	};
	let n = ctx.n(16_000, 700_000);
	ctx.pbt("drop_reads", n, move || drop_case(cfg, false), check_c16);
	let many = gen::Cfg {
		count: 400,
		motors: 200,
		..gen::CFG
	};
	let n = ctx.n(160, 6_000);
	ctx.pbt("drop_many", n, move || drop_case(many, false), check_c16);
	let n = ctx.n(8_000, 300_000);
	ctx.pbt("drop_scan", n, move || drop_case(cfg, true), check_c16);
	let n = ctx.n(8_000, 200_000);
	ctx.pbt(
		"dead_port",
		n,
		move || {
			let cmd = prop_oneof![2 => multi_cmd(cfg), 1 => Just(Cmd::Scan)].boxed();
			(
				answered_or_scan(cmd),
				gen::cuts(),
				0u8..8,
				0u8..12,
				any::<bool>(),
				prop_oneof![2 => Just(None), 1 => (1u8..4).prop_map(Some)],
				prop_oneof![4 => Just(400u16), 1 => 0u16..30],
			)
				.prop_map(|((cmd, replies), cuts, take, dies, timeout, faults, read)| DeadCase {
					cmd,
					replies,
					cuts,
					take,
					dies,
					timeout,
					faults,
					read,
				})
				.boxed()
		},
		check_dead,
	);
	// A few known shapes for sure.
	let cases = || {
		let mut out = Vec::new();
		for cmd in [
			Cmd::Scan,
			Cmd::SyncRead {
				ids: vec![1, 2, 3],
				addr: 4,
				ty: Ty::U16,
				via: Via::Next,
			},
			Cmd::SyncReadBytes {
				ids: vec![1, 2, 3],
				addr: 4,
				count: 2,
				via: Via::Borrow,
			},
			Cmd::BulkRead {
				reads: vec![(1, 4, 2), (2, 5, 3), (3, 0, 0)],
				via: Via::BorrowCtor,
			},
		] {
			let expected = match cmd {
				Cmd::Scan => vec![(1, 3), (2, 3), (3, 3)],
				_ => expected_replies(&cmd),
			};
			let replies: Vec<Reply> = expected
				.iter()
				.map(|(id, count)| Reply {
					id: *id,
					error: 0,
					data: vec![*id; usize::from(*count)],
				})
				.collect();
			for take in 0..4 {
				for dies in 0..6 {
					for timeout in [false, true] {
						for faults in [None, Some(1), Some(2)] {
							for read in [0, 9, 10, 100] {
								out.push(DeadCase {
									cmd: cmd.clone(),
									replies: replies.clone(),
									cuts: vec![20_000, 40_000],
									take,
									dies,
									timeout,
									faults,
									read,
								});
							}
						}
					}
				}
			}
		}
		out
	};
	ctx.enumerate(
		"dead_port_enumerated",
		move |shard| cases().into_iter().skip(shard).step_by(crate::runner::SHARDS),
		check_dead,
	);
}
