//! Complete systems: C24.

use super::device::{device_read, form, Form, RefIns};
use super::*;
use crate::cmd::{exec_n, judge, Bad, Good, Item, Kind, Reply, Ty, Via};
use crate::gen;
use crate::refm::{self, BROADCAST};
use crate::runner::{Ctx, Tags};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

/// Where there are registers: first address and number of bytes.
const BANKS: [(usize, usize); 3] = [(0, 256), (0x7F80, 256), (0xFE00, 512)];
/// The first registers can not be written.
const READ_ONLY: std::ops::Range<usize> = 0..4;
const ID_REG: usize = 7;
const BAUD_REG: usize = 8;
/// Not zero: the alert bit is set in all status packets. Values from 0x80 on can not be cleared by an instruction.
const ALERT_REG: usize = 10;
const TURNS: std::ops::Range<usize> = 12..14;
const VOLATILE: std::ops::Range<usize> = 40..60;

const RESULT_FAIL: u8 = 1;
const INSTRUCTION_ERROR: u8 = 2;
const DATA_RANGE: u8 = 4;
const ACCESS: u8 = 7;

/// When a motor replies, relative to others.
pub type Rank = usize;

/// The memory of a motor, used by the simulated motors and by the model.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Memory {
	pub id: u8,
	cells: Vec<u8>,
	registered: Option<(u16, Vec<u8>)>,
}

impl Memory {
	fn initial(id: u8) -> Vec<u8> {
		let mut cells: Vec<u8> = (0..BANKS.iter().map(|x| x.1).sum()).map(|i: usize| (i as u8).wrapping_mul(7).wrapping_add(id.wrapping_mul(31))).collect();
		cells[ALERT_REG] = 0;
		cells
	}

	pub fn new(id: u8) -> Self {
		Self {
			id,
			cells: Self::initial(id),
			registered: None,
		}
	}

	fn range(&self, address: u16, len: usize) -> Result<std::ops::Range<usize>, u8> {
		let start = usize::from(address);
		let mut first = 0;
		for (at, size) in BANKS {
			if start >= at && start + len <= at + size {
				return Ok(first + start - at..first + start - at + len);
			}
			first += size;
		}
		Err(DATA_RANGE)
	}

	fn read(&self, address: u16, len: u16) -> Result<Vec<u8>, u8> {
		Ok(self.cells[self.range(address, usize::from(len))?].to_vec())
	}

	fn check_write(&self, address: u16, data: &[u8]) -> Result<std::ops::Range<usize>, u8> {
		let range = self.range(address, data.len())?;
		if range.clone().any(|x| READ_ONLY.contains(&x)) {
			return Err(ACCESS);
		}
		Ok(range)
	}

	fn write(&mut self, address: u16, data: &[u8]) -> Result<(), u8> {
		let range = self.check_write(address, data)?;
		self.cells[range].copy_from_slice(data);
		Ok(())
	}

	fn register(&mut self, address: u16, data: &[u8]) -> Result<(), u8> {
		self.check_write(address, data)?;
		self.registered = Some((address, data.to_vec()));
		Ok(())
	}

	fn action(&mut self) {
		if let Some((address, data)) = self.registered.take() {
			self.write(address, &data).ok();
		}
	}

	fn reset(&mut self, keep: &[usize]) {
		let initial = Self::initial(self.id);
		for i in 0..self.cells.len() {
			if !keep.contains(&i) {
				self.cells[i] = initial[i];
			}
		}
		self.registered = None;
	}

	fn reboot(&mut self) {
		let initial = Self::initial(self.id);
		self.cells[VOLATILE].copy_from_slice(&initial[VOLATILE]);
		self.registered = None;
	}

	fn clear_turns(&mut self) {
		self.cells[TURNS].fill(0);
	}

	fn clear_error(&mut self) -> Result<(), u8> {
		if self.cells[ALERT_REG] >= 0x80 {
			return Err(RESULT_FAIL);
		}
		self.cells[ALERT_REG] = 0;
		Ok(())
	}

	/// Handle an instruction. Returns the result to reply with, if there is anything to reply.
	pub fn handle(&mut self, target: u8, instruction: RefIns) -> Option<(Rank, Result<Vec<u8>, u8>)> {
		let id = self.id;
		if target != id && target != BROADCAST {
			return None;
		}
		let m = self;
		let word = |p: &[u8]| u16::from_le_bytes([p[0], p[1]]);
		let ack = |r: Result<(), u8>| r.map(|()| vec![]);
		let result = match instruction {
			RefIns::Ping => {
				// Everyone answers to a broadcast ping, one after another.
				return Some((usize::from(id), Ok(m.cells[0..3].to_vec())));
			},
			RefIns::SyncRead { address, length, ids } => {
				let rank = ids.iter().position(|x| *x == id)?;
				return Some((rank, m.read(address, length)));
			},
			RefIns::BulkRead(list) => {
				let (rank, entry) = list.chunks(5).enumerate().find(|(_, x)| x[0] == id)?;
				return Some((rank, m.read(word(&entry[1..]), word(&entry[3..]))));
			},
			RefIns::SyncWrite { address, length, data } => {
				let entry = data.chunks(usize::from(length) + 1).find(|x| x[0] == id)?;
				m.write(address, &entry[1..]).ok();
				return None;
			},
			RefIns::BulkWrite(mut list) => {
				while !list.is_empty() {
					let (address, length) = (word(&list[1..]), usize::from(word(&list[3..])));
					if list[0] == id {
						m.write(address, &list[5..5 + length]).ok();
						break;
					}
					list.drain(..5 + length);
				}
				return None;
			},
			RefIns::Read { address, length } => m.read(address, length),
			RefIns::Write { address, data } => ack(m.write(address, &data)),
			RefIns::RegWrite { address, data } => ack(m.register(address, &data)),
			RefIns::Action => {
				m.action();
				Ok(vec![])
			},
			RefIns::ResetAll => {
				m.reset(&[]);
				Ok(vec![])
			},
			RefIns::ResetExceptId => {
				m.reset(&[ID_REG]);
				Ok(vec![])
			},
			RefIns::ResetExceptIdBaudRate => {
				m.reset(&[ID_REG, BAUD_REG]);
				Ok(vec![])
			},
			RefIns::Reboot => {
				m.reboot();
				Ok(vec![])
			},
			RefIns::ClearMultiTurns => {
				m.clear_turns();
				Ok(vec![])
			},
			RefIns::ClearErrors => ack(m.clear_error()),
			RefIns::ResetUnknown(_) | RefIns::ClearReserved(_) | RefIns::Unknown { .. } => Err(INSTRUCTION_ERROR),
		};
		if target == BROADCAST {
			return None;
		}
		Some((0, result))
	}

	/// The status packet for a result.
	pub fn status(&self, result: Result<Vec<u8>, u8>) -> Reply {
		let alert = if self.cells[ALERT_REG] != 0 { 0x80 } else { 0 };
		match result {
			Ok(data) => Reply {
				id: self.id,
				error: alert,
				data,
			},
			Err(e) => Reply {
				id: self.id,
				error: alert | e,
				data: vec![],
			},
		}
	}
}

/// A motor built on the device side of the library.
struct Motor {
	memory: Memory,
	port: SimPort,
	device: SimDevice,
	form: Form,
}

impl Motor {
	fn reply(&mut self, result: Result<Vec<u8>, u8>) -> Result<Vec<u8>, String> {
		let status = self.memory.status(result);
		let before = self.port.with(|c| c.written().concat().len());
		let r = match (status.error, status.data.len()) {
			(0, 0) => self.device.write_status_ok(status.id),
			(error, 0) => self.device.write_status_error(status.id, error),
			(error, n) => self.device.write_status(status.id, error, n, |b| {
				b.copy_from_slice(&status.data);
				Ok(())
			}),
		};
		r.map_err(|e| format!("motor {} failed to send a status: {e:?}", status.id))?;
		let sent = self.port.with(|c| c.written().concat());
		Ok(sent[before..].to_vec())
	}
}

/// All motors, and what connects them.
struct Line {
	motors: Vec<Motor>,
	cuts: Vec<u16>,
	noise: Vec<u8>,
	/// Time between replies in nanoseconds.
	pause: u128,
	problem: Option<String>,
}

impl Line {
	/// What arrives at a receiver when a frame is sent.
	fn bursts(&self, frame: &[u8]) -> Vec<Vec<u8>> {
		let mut data = self.noise.clone();
		data.extend_from_slice(frame);
		// The noise must not be (or become part of) a header.
		if refm::find_prefix(&data) != Some(self.noise.len()) {
			data = frame.to_vec();
		}
		gen::split(&data, &self.cuts)
	}

	fn deliver(&self, motor: &Motor, frame: &[u8]) {
		motor.port.with(|c| {
			let now = c.now;
			for burst in self.bursts(frame) {
				c.push(now, &burst);
			}
		});
	}

	/// Called when the client transmits a frame.
	fn transmit(&mut self, frame: &[u8], now: u128) -> Result<Vec<Rx>, String> {
		let mut replies = vec![];
		for i in 0..self.motors.len() {
			self.deliver(&self.motors[i], frame);
			let motor = &mut self.motors[i];
			let (target, instruction) = match device_read(&mut motor.device, motor.form, Duration::from_millis(3)) {
				Ok(x) => x,
				Err(e) => return Err(format!("motor {} did not receive the instruction {}: {e:?}", motor.memory.id, hex(frame))),
			};
			if let Some((rank, result)) = motor.memory.handle(target, instruction) {
				replies.push((rank, i, result));
			}
		}
		replies.sort_by_key(|x| (x.0, x.1));
		let mut out = vec![];
		let mut at = now;
		for (_, i, result) in replies {
			at += self.pause;
			let status = self.motors[i].reply(result)?;
			out.extend(self.bursts(&status).into_iter().map(|data| Rx { at, data }));
			// The other motors see it as well.
			for (j, other) in self.motors.iter().enumerate() {
				if i != j {
					self.deliver(other, &status);
				}
			}
		}
		Ok(out)
	}
}

/// The model: what a command does, and what it should report.
pub fn model(motors: &mut [Memory], cmd: &Cmd, take: usize) -> Vec<Vec<Item>> {
	fn find(motors: &mut [Memory], id: u8) -> Option<&mut Memory> {
		motors.iter_mut().find(|m| m.id == id)
	}
	type Act<'a> = &'a dyn Fn(&mut Memory) -> Result<Vec<u8>, u8>;
	// A command for one motor, or for all of them without a reply.
	let single = |motors: &mut [Memory], id: u8, count: u16, act: Act| -> Vec<Vec<Item>> {
		if id == BROADCAST {
			for m in motors {
				act(m).ok();
			}
			return vec![vec![Ok(Good {
				id: BROADCAST,
				alert: false,
				data: vec![],
			})]];
		}
		match find(motors, id) {
			None => vec![vec![Err(Bad::Timeout)]],
			Some(m) => {
				let result = act(m);
				vec![judge(&m.status(result), Some(id), Some(count))]
			},
		}
	};
	let all = |motors: &mut [Memory], act: Act| -> Vec<Vec<Item>> {
		for m in motors {
			act(m).ok();
		}
		vec![]
	};
	let multi = |motors: &mut [Memory], reads: Vec<(u8, u16, u16)>| -> Vec<Vec<Item>> {
		reads
			.into_iter()
			.take(take)
			.map(|(id, address, count)| match find(motors, id) {
				None => vec![Err(Bad::Timeout)],
				Some(m) => judge(&m.status(m.read(address, count)), Some(id), Some(count)),
			})
			.collect()
	};
	let reset = |m: &mut Memory, kind: Kind| {
		m.reset(match kind {
			Kind::ResetAll => &[],
			Kind::KeepId => &[ID_REG],
			Kind::KeepIdAndBaudRate => &[ID_REG, BAUD_REG],
		});
		Ok(vec![])
	};
	let ack = |r: Result<(), u8>| r.map(|()| vec![]);
	let unit = |()| Ok(vec![]);
	match cmd {
		Cmd::Ping { id } => single(motors, *id, 3, &|m| Ok(m.cells[..3].to_vec())),
		Cmd::Scan => {
			let mut found: Vec<&Memory> = motors.iter().collect();
			found.sort_by_key(|m| m.id);
			found
				.into_iter()
				.take(take)
				.map(|m| judge(&m.status(Ok(m.cells[..3].to_vec())), None, Some(3)))
				.collect()
		},
		Cmd::Read { id, addr, ty } => {
			let n = ty.size() as u16;
			single(motors, *id, n, &|m| m.read(*addr, n))
		},
		Cmd::ReadBytes { id, addr, count } => single(motors, *id, *count, &|m| m.read(*addr, *count)),
		Cmd::Write { id, addr, val: data, .. } | Cmd::WriteBytes { id, addr, data } => single(motors, *id, 0, &|m| ack(m.write(*addr, data))),
		Cmd::RegWrite { id, addr, val: data, .. } | Cmd::RegWriteBytes { id, addr, data } => single(motors, *id, 0, &|m| ack(m.register(*addr, data))),
		Cmd::Action { id } => single(motors, *id, 0, &|m| unit(m.action())),
		Cmd::BroadcastAction => all(motors, &|m| unit(m.action())),
		Cmd::FactoryReset { id, kind } => single(motors, *id, 0, &|m| reset(m, *kind)),
		Cmd::BroadcastFactoryReset { kind } => all(motors, &|m| reset(m, *kind)),
		Cmd::Reboot { id } => single(motors, *id, 0, &|m| unit(m.reboot())),
		Cmd::BroadcastReboot => all(motors, &|m| unit(m.reboot())),
		Cmd::ClearRevolution { id } => single(motors, *id, 0, &|m| unit(m.clear_turns())),
		Cmd::BroadcastClearRevolution => all(motors, &|m| unit(m.clear_turns())),
		Cmd::ClearError { id } => single(motors, *id, 0, &|m| ack(m.clear_error())),
		Cmd::BroadcastClearError => all(motors, &|m| ack(m.clear_error())),
		Cmd::SyncRead { ids, addr, ty, .. } => multi(motors, ids.iter().map(|id| (*id, *addr, ty.size() as u16)).collect()),
		Cmd::SyncReadBytes { ids, addr, count, .. } => multi(motors, ids.iter().map(|id| (*id, *addr, *count)).collect()),
		Cmd::BulkRead { reads, .. } => multi(motors, reads.clone()),
		Cmd::SyncWrite { addr, writes, .. } | Cmd::SyncWriteBytes { addr, writes, .. } => {
			for (id, data) in writes {
				if let Some(m) = find(motors, *id) {
					m.write(*addr, data).ok();
				}
			}
			vec![]
		},
		Cmd::BulkWrite { writes } => {
			for (id, addr, data) in writes {
				if let Some(m) = find(motors, *id) {
					m.write(*addr, data).ok();
				}
			}
			vec![]
		},
		// Only used with unknown instructions.
		Cmd::Raw { id, expect, .. } => single(motors, *id, *expect, &|_| Err(INSTRUCTION_ERROR)),
		// Not reading the reply is not a problem for the next command.
		Cmd::RawWrite { .. } => vec![],
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SysStep {
	pub cmd: Cmd,
	/// How many results of a command with multiple results to take before dropping it.
	pub take: Option<u8>,
	pub noise: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
	motors: Vec<(u8, Form)>,
	steps: Vec<SysStep>,
	cuts: Vec<u16>,
	pause_us: u16,
	/// Size of all buffers.
	buffers: u16,
}

fn check_c24(case: &History, tags: &mut Tags) -> Result<(), String> {
	let size = usize::from(case.buffers);
	let mut expected: Vec<Memory> = case.motors.iter().map(|(id, _)| Memory::new(*id)).collect();
	let motors = case
		.motors
		.iter()
		.map(|(id, form)| {
			let port = SimPort::new(BAUD);
			Motor {
				memory: Memory::new(*id),
				device: device(&port, size, size),
				port,
				form: *form,
			}
		})
		.collect();
	let line = Rc::new(RefCell::new(Line {
		motors,
		cuts: case.cuts.clone(),
		noise: vec![],
		pause: u128::from(case.pause_us) * 1000,
		problem: None,
	}));
	let port = SimPort::new(BAUD);
	let on_line = line.clone();
	port.on_write(move |frame, now| {
		let mut line = on_line.borrow_mut();
		match line.transmit(frame, now) {
			Ok(x) => x,
			Err(e) => {
				line.problem.get_or_insert(e);
				vec![]
			},
		}
	});
	let mut client = client(&port, size, size);
	let (mut stored, mut read) = (false, false);
	for (i, step) in case.steps.iter().enumerate() {
		line.borrow_mut().noise = step.noise.clone();
		let take = step.take.map(usize::from).unwrap_or(usize::MAX);
		let before = expected.clone();
		let want = model(&mut expected, &step.cmd, take);
		let outcome = exec_n(&mut client, &step.cmd, take, &mut |_| ());
		let name = format!("step {i} {:?}", step.cmd);
		if matches!(step.cmd, Cmd::RawWrite { .. }) {
			// Have the unread reply arrive before the next command.
			port.with(|c| c.now += 1_000_000);
		}
		if let Some(problem) = line.borrow_mut().problem.take() {
			return Err(format!("{name}: {problem}"));
		}
		ensure_eq!(outcome.started, Ok(()), "transmission in {name}");
		ensure!(
			outcome.items.len() == want.len(),
			"{name}: got {} results {:?}, expected {}",
			outcome.items.len(),
			outcome.items,
			want.len()
		);
		for (n, (got, want)) in outcome.items.iter().zip(&want).enumerate() {
			ensure!(want.contains(got), "{name}: result {n} is {got:?}, expected {want:?}");
			tags.tag_if(matches!(got, Err(Bad::Motor { .. })), "motor error");
			tags.tag_if(matches!(got, Err(Bad::Timeout)), "absent motor");
			tags.tag_if(matches!(got, Ok(Good { alert: true, .. })), "alert");
		}
		for (motor, want) in line.borrow().motors.iter().zip(&expected) {
			ensure!(
				motor.memory == *want,
				"{name}: the state of motor {} is wrong: {}",
				want.id,
				difference(&motor.memory, want)
			);
		}
		tags.tag(step.cmd.name());
		if before != expected {
			stored = true;
		} else if stored && !want.is_empty() {
			read = true;
		}
	}
	tags.nontrivial_if(stored && read);
	tags.tag_if(case.motors.len() > 1, "several motors");
	Ok(())
}

pub fn difference(got: &Memory, want: &Memory) -> String {
	let cells: Vec<String> = (0..got.cells.len())
		.filter(|i| got.cells[*i] != want.cells[*i])
		.map(|i| format!("cell {i} is {:02X}, expected {:02X}", got.cells[i], want.cells[i]))
		.take(8)
		.collect();
	format!("{cells:?}, registered write is {:?}, expected {:?}", got.registered, want.registered)
}

/// Addresses of registers, likely to overlap each other.
fn address() -> BoxedStrategy<u16> {
	prop_oneof![
		8 => proptest::sample::select(vec![4u16, 5, 7, 8, 10, 11, 12, 13, 38, 40, 41, 50, 59, 60, 100, 101, 104, 120]),
		3 => 4u16..200,
		1 => 0u16..4,
		1 => 216u16..260,
		1 => prop_oneof![0x7F78u16..0x7F88, 0x7FF0u16..0x8010, 0x8070u16..0x8088],
		1 => prop_oneof![0xFDFBu16..0xFE10, 0xFEF0u16..0xFF10, 0xFFE0u16..=0xFFFF],
		1 => any::<u16>(),
	]
	.boxed()
}

/// Addresses at which there are many registers.
fn wide_address() -> BoxedStrategy<u16> {
	prop_oneof![4 => 0xFE00u16..0xFE20, 1 => 0xFE20u16..0xFF80, 1 => 0x7F80u16..0x7FA0, 1 => 20u16..40].boxed()
}

/// Steps of a history, optionally with transfers of more than 255 bytes.
pub fn steps(ids: Vec<u8>, wide: bool) -> BoxedStrategy<SysStep> {
	let known = proptest::sample::select(ids.clone());
	// Mostly motors that are there.
	let one = prop_oneof![20 => known.clone(), 1 => gen::motor_id()];
	let target = prop_oneof![14 => one.clone(), 2 => Just(BROADCAST)];
	let list = {
		let ids = ids.clone();
		(proptest::sample::subsequence(ids.clone(), 0..=ids.len()).prop_shuffle(), prop_oneof![4 => Just(None), 1 => gen::motor_id().prop_map(Some)])
			.prop_map(move |(mut list, absent)| {
				if let Some(x) = absent.filter(|x| !ids.contains(x)) {
					list.push(x);
				}
				list
			})
			.boxed()
	};
	let typed = || gen::ty().prop_flat_map(|ty: Ty| (Just(ty), gen::data_exact(ty.size())));
	let bytes = || prop_oneof![4 => gen::data(0, 6), 1 => gen::data(0, 40)];
	let count = || prop_oneof![4 => 0u16..8, 1 => 0u16..60];
	let length = || prop_oneof![2 => 240u16..270, 3 => 1u16..=512, 1 => 500u16..=514];
	let many = move || length().prop_flat_map(|n| gen::big(n.into(), n.into()));
	let wide_cmd = prop_oneof![
		3 => (one.clone(), wide_address(), length()).prop_map(|(id, addr, count)| Cmd::ReadBytes { id, addr, count }),
		3 => (target.clone(), wide_address(), many()).prop_map(|(id, addr, data)| Cmd::WriteBytes { id, addr, data }),
		2 => (target.clone(), wide_address(), many()).prop_map(|(id, addr, data)| Cmd::RegWriteBytes { id, addr, data }),
		1 => (one.clone(), wide_address(), gen::big_ty()).prop_map(|(id, addr, ty)| Cmd::Read { id, addr, ty }),
		1 => (target.clone(), wide_address(), gen::big_ty()).prop_flat_map(|(id, addr, ty)| {
			(gen::big(ty.size(), ty.size()), any::<bool>()).prop_map(move |(val, now)| if now { Cmd::Write { id, addr, ty, val } } else { Cmd::RegWrite { id, addr, ty, val } })
		}),
		1 => (list.clone(), wide_address(), length(), gen::via()).prop_map(|(ids, addr, count, via)| Cmd::SyncReadBytes { ids, addr, count, via }),
		1 => (list.clone(), wide_address(), gen::big_ty(), proptest::sample::select(vec![Via::Next, Via::Iter])).prop_map(|(ids, addr, ty, via)| Cmd::SyncRead { ids, addr, ty, via }),
		1 => (list.clone(), wide_address(), length(), gen::via()).prop_map(|(ids, addr, count, via)| Cmd::BulkRead { reads: ids.into_iter().map(|id| (id, addr, count)).collect(), via }),
		1 => (one.clone(), wide_address(), many(), wide_address(), many(), one.clone()).prop_map(|(a, addr, data, addr_b, data_b, b)| {
			let mut writes = vec![(a, addr, data)];
			if b != a {
				writes.push((b, addr_b, data_b));
			}
			Cmd::BulkWrite { writes }
		}),
		1 => (list.clone(), wide_address(), many()).prop_map(|(ids, addr, data)| Cmd::SyncWriteBytes {
			addr,
			count: data.len() as u16,
			writes: ids.into_iter().take(2).map(|id| (id, data.iter().map(|x| x ^ id).collect())).collect(),
		}),
	];
	let cmd = prop_oneof![
		2 => one.clone().prop_map(|id| Cmd::Ping { id }),
		1 => Just(Cmd::Scan),
		6 => (one.clone(), address(), gen::ty()).prop_map(|(id, addr, ty)| Cmd::Read { id, addr, ty }),
		6 => (one.clone(), address(), count()).prop_map(|(id, addr, count)| Cmd::ReadBytes { id, addr, count }),
		6 => (target.clone(), address(), typed()).prop_map(|(id, addr, (ty, val))| Cmd::Write { id, addr, ty, val }),
		6 => (target.clone(), address(), bytes()).prop_map(|(id, addr, data)| Cmd::WriteBytes { id, addr, data }),
		4 => (target.clone(), address(), typed()).prop_map(|(id, addr, (ty, val))| Cmd::RegWrite { id, addr, ty, val }),
		4 => (target.clone(), address(), bytes()).prop_map(|(id, addr, data)| Cmd::RegWriteBytes { id, addr, data }),
		4 => target.clone().prop_map(|id| Cmd::Action { id }),
		2 => Just(Cmd::BroadcastAction),
		1 => (target.clone(), gen::kind()).prop_map(|(id, kind)| Cmd::FactoryReset { id, kind }),
		1 => gen::kind().prop_map(|kind| Cmd::BroadcastFactoryReset { kind }),
		1 => target.clone().prop_map(|id| Cmd::Reboot { id }),
		1 => Just(Cmd::BroadcastReboot),
		1 => target.clone().prop_map(|id| Cmd::ClearRevolution { id }),
		1 => Just(Cmd::BroadcastClearRevolution),
		1 => target.prop_map(|id| Cmd::ClearError { id }),
		1 => Just(Cmd::BroadcastClearError),
		4 => (list.clone(), address(), gen::ty(), proptest::sample::select(vec![Via::Next, Via::Iter]))
			.prop_map(|(ids, addr, ty, via)| Cmd::SyncRead { ids, addr, ty, via }),
		4 => (list.clone(), address(), count(), gen::via()).prop_map(|(ids, addr, count, via)| Cmd::SyncReadBytes { ids, addr, count, via }),
		6 => list.clone().prop_flat_map(move |ids| {
			let n = ids.len();
			(Just(ids), proptest::collection::vec((address(), 0u16..10), n), gen::via())
		}).prop_map(|(ids, data, via)| Cmd::BulkRead { reads: ids.into_iter().zip(data).map(|(id, (addr, count))| (id, addr, count)).collect(), via }),
		4 => (list.clone(), address(), gen::ty()).prop_flat_map(|(ids, addr, ty)| {
			let n = ids.len();
			(Just((ids, addr, ty)), proptest::collection::vec(gen::data_exact(ty.size()), n))
		}).prop_map(|((ids, addr, ty), data)| Cmd::SyncWrite { addr, ty, writes: ids.into_iter().zip(data).collect() }),
		4 => (list.clone(), address(), 0usize..12).prop_flat_map(|(ids, addr, count)| {
			let n = ids.len();
			(Just((ids, addr, count)), proptest::collection::vec(gen::data_exact(count), n))
		}).prop_map(|((ids, addr, count), data)| Cmd::SyncWriteBytes { addr, count: count as u16, writes: ids.into_iter().zip(data).collect() }),
		6 => list.prop_flat_map(|ids| {
			let n = ids.len();
			(Just(ids), proptest::collection::vec((address(), gen::data(0, 8)), n))
		}).prop_map(|(ids, data)| Cmd::BulkWrite { writes: ids.into_iter().zip(data).map(|(id, (addr, data))| (id, addr, data)).collect() }),
		1 => (one.clone(), prop_oneof![Just(0x20u8), Just(0x8Au8), Just(0x00u8), Just(0xFFu8)], gen::data(0, 8), 0u16..5)
			.prop_map(|(id, instruction, params, expect)| Cmd::Raw { id, instruction, params, expect }),
		// A read of which the reply is not read.
		1 => one.prop_map(|id| Cmd::RawWrite { id, instruction: 0x02, params: vec![0, 0, 3, 0] }),
	];
	let cmd = if wide { prop_oneof![10 => cmd, 1 => wide_cmd].boxed() } else { cmd.boxed() };
	(
		cmd,
		prop_oneof![4 => Just(None), 1 => (0u8..4).prop_map(Some)],
		prop_oneof![3 => Just(vec![]), 1 => gen::data(1, 8)],
	)
		.prop_map(|(cmd, take, noise)| SysStep { cmd, take, noise })
		.boxed()
}

fn histories(motors: usize, len: std::ops::Range<usize>) -> BoxedStrategy<History> {
	let ids = proptest::collection::btree_set(gen::motor_id(), 1..=motors).prop_map(|x| x.into_iter().collect::<Vec<u8>>()).prop_shuffle();
	(ids, len)
		.prop_flat_map(|(ids, len)| {
			let n = ids.len();
			(
				Just(ids.clone()),
				proptest::collection::vec(form(), n),
				proptest::collection::vec(steps(ids, true), 1..=len),
				gen::cuts(),
				prop_oneof![2 => Just(0u16), 1 => 0u16..300],
				prop_oneof![Just(2048u16), 1500u16..2048],
			)
		})
		.prop_map(|(ids, forms, steps, cuts, pause_us, buffers)| History {
			motors: ids.into_iter().zip(forms).collect(),
			steps,
			cuts,
			pause_us,
			buffers,
		})
		.boxed()
}

pub fn c24(ctx: &mut Ctx) {
	ctx.rule = "histories of all client commands against several motors built on the device side, with noise and split transmissions, compared with a memory model after every step; non-trivial: something was stored, and a later command reported a result";
	ctx.pbt("histories", ctx.n(24_000, 400_000), || histories(4, 1..24), check_c24);
	ctx.pbt("long_histories", ctx.n(800, 12_000), || histories(10, 100..300), check_c24);
}
