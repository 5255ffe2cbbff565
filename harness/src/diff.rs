//! Generic cases that any build of the library can execute, with everything observable as a result.

use crate::cmd::{exec_n, Cmd, Item, Outcome};
use crate::sim::{Call, SimError, SimPort};
use dynamixel2::{Client, Device};
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// A burst of data: delay in microseconds after the previous one, and the data.
pub type Burst = (u32, Vec<u8>);

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct ClientStep {
	pub cmd: Cmd,
	pub take: Option<u8>,
	/// What arrives in response to the transmission.
	pub answer: Vec<Burst>,
	/// Fail the I/O call with this index from the start of the step.
	pub fault: Option<(u8, u32)>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum ReadForm {
	Raw,
	Borrowed,
	/// Borrowed if there is no owned form in this build.
	Owned,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum DeviceStep {
	Read { form: ReadForm, timeout_us: u32 },
	Status { id: u8, error: u8, data: Vec<u8> },
	StatusOk(u8),
	StatusError(u8, u8),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Exchange {
	Client {
		baud: u32,
		read: u32,
		write: u32,
		steps: Vec<ClientStep>,
	},
	Device {
		read: u32,
		write: u32,
		traffic: Vec<Burst>,
		steps: Vec<DeviceStep>,
	},
	Crc {
		initial: u16,
		data: Vec<u8>,
	},
}

/// What happened in a step.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Happened {
	pub result: String,
	pub written: Vec<u8>,
	pub now: u64,
	pub pending: usize,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Report {
	/// What happened with allocated and with static buffers.
	pub allocated: Vec<Happened>,
	pub fixed: Vec<Happened>,
}

fn describe(outcome: &Outcome) -> String {
	let items: Vec<String> = outcome
		.items
		.iter()
		.map(|x: &Item| match x {
			Ok(g) => format!("ok id={} alert={} {:02X?}", g.id, g.alert, g.data),
			Err(e) => format!("{e:?}"),
		})
		.collect();
	format!("{:?} {items:?}", outcome.started)
}

fn push(port: &SimPort, bursts: &[Burst]) {
	port.with(|c| {
		let mut at = c.now;
		for (delay, data) in bursts {
			at += u128::from(*delay) * 1000;
			if !data.is_empty() {
				c.push(at, data);
			}
		}
	});
}

/// Do something, and note what happened.
fn note(port: &SimPort, out: &mut Vec<Happened>, f: impl FnOnce() -> String) -> bool {
	port.with(|c| c.log.clear());
	let (result, ok) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
		Ok(x) => (x, true),
		// The message and location of a panic are not part of the behaviour.
		Err(_) => ("panic".into(), false),
	};
	port.with(|c| {
		let written = c
			.log
			.iter()
			.filter_map(|c| match c {
				Call::Write(x) => Some(x.as_slice()),
				_ => None,
			})
			.collect::<Vec<_>>()
			.concat();
		out.push(Happened {
			result,
			written,
			now: c.now as u64,
			pending: c.pending_bytes(),
		});
	});
	ok
}

fn run_client<B: AsRef<[u8]> + AsMut<[u8]>>(baud: u32, read: B, write: B, steps: &[ClientStep]) -> Vec<Happened> {
	let port = SimPort::new(baud);
	let mut out = vec![];
	let mut client = None;
	if !note(&port, &mut out, || match Client::with_buffers(port.clone(), read, write) {
		Ok(c) => {
			client = Some(c);
			"created".into()
		},
		Err(e) => format!("{e:?}"),
	}) {
		return out;
	}
	let Some(mut client) = client else { return out };
	for step in steps {
		let answer = step.answer.clone();
		port.on_write(move |_, now| {
			let mut at = now;
			answer
				.iter()
				.filter(|x| !x.1.is_empty())
				.map(|(delay, data)| {
					at += u128::from(*delay) * 1000;
					crate::sim::Rx { at, data: data.clone() }
				})
				.collect()
		});
		port.with(|c| {
			c.faults.clear();
			if let Some((at, code)) = step.fault {
				c.faults.insert(c.io_calls + u64::from(at), SimError::Fault(code));
			}
		});
		let take = step.take.map(usize::from).unwrap_or(usize::MAX);
		let mut remaining = vec![];
		if !note(&port, &mut out, || {
			let outcome = exec_n(&mut client, &step.cmd, take, &mut |n| remaining.push(n));
			format!("{} {remaining:?}", describe(&outcome))
		}) {
			// Nothing is promised after a panic.
			break;
		}
	}
	out
}

fn run_device<B: AsRef<[u8]> + AsMut<[u8]>>(read: B, write: B, traffic: &[Burst], steps: &[DeviceStep]) -> Vec<Happened> {
	let port = SimPort::new(1_000_000);
	push(&port, traffic);
	let mut out = vec![];
	let mut device = None;
	if !note(&port, &mut out, || match Device::with_buffers(port.clone(), read, write) {
		Ok(c) => {
			device = Some(c);
			"created".into()
		},
		Err(e) => format!("{e:?}"),
	}) {
		return out;
	}
	let Some(mut device) = device else { return out };
	for step in steps {
		if !note(&port, &mut out, || match step {
			DeviceStep::Read { form, timeout_us } => {
				let timeout = Duration::from_micros(u64::from(*timeout_us));
				match form {
					ReadForm::Raw => match device.read_raw_instruction_timeout(timeout) {
						Ok(p) => format!("{} {} {:?}", p.packet_id(), p.instruction_id(), p.parameters()),
						Err(e) => format!("{e:?} {e}"),
					},
					#[cfg(feature = "owned")]
					ReadForm::Owned => match device.read_owned(timeout) {
						Ok(p) => format!("{p:?}"),
						Err(e) => format!("{e:?} {e}"),
					},
					_ => match device.read(timeout) {
						Ok(p) => format!("{p:?}"),
						Err(e) => format!("{e:?} {e}"),
					},
				}
			},
			DeviceStep::Status { id, error, data } => {
				let r = device.write_status(*id, *error, data.len(), |b| {
					b.copy_from_slice(data);
					Ok(())
				});
				format!("{r:?}")
			},
			DeviceStep::StatusOk(id) => format!("{:?}", device.write_status_ok(*id)),
			DeviceStep::StatusError(id, error) => format!("{:?}", device.write_status_error(*id, *error)),
		}) {
			break;
		}
	}
	out
}

pub const STATIC_SIZE: usize = 70_000;

/// Two static buffers.
pub struct Buffers(pub &'static mut [u8], pub &'static mut [u8]);

impl Buffers {
	/// Can be called only once.
	pub fn take() -> Self {
		Self(dynamixel2::static_buffer!(70_000), dynamixel2::static_buffer!(70_000))
	}
}

pub fn execute(case: &Exchange, buffers: &mut Buffers) -> Report {
	let sizes = |read: u32, write: u32| ((read as usize).min(STATIC_SIZE), (write as usize).min(STATIC_SIZE));
	// The contents that buffers have at first should not matter either.
	let prepare = |b: &mut [u8]| {
		for (i, b) in b.iter_mut().enumerate() {
			*b = [0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x04, 0x00, 0x55][i % 8];
		}
	};
	match case {
		Exchange::Client { baud, read, write, steps } => {
			let (r, w) = sizes(*read, *write);
			prepare(&mut buffers.0[..r]);
			prepare(&mut buffers.1[..w]);
			Report {
				allocated: run_client(*baud, vec![0; r], vec![0; w], steps),
				fixed: run_client(*baud, &mut buffers.0[..r], &mut buffers.1[..w], steps),
			}
		},
		Exchange::Device {
			read,
			write,
			traffic,
			steps,
		} => {
			let (r, w) = sizes(*read, *write);
			prepare(&mut buffers.0[..r]);
			prepare(&mut buffers.1[..w]);
			Report {
				allocated: run_device(vec![0; r], vec![0; w], traffic, steps),
				fixed: run_device(&mut buffers.0[..r], &mut buffers.1[..w], traffic, steps),
			}
		},
		Exchange::Crc { initial, data } => {
			let crc = dynamixel2::checksum::calculate_checksum(*initial, data);
			let happened = vec![Happened {
				result: format!("{crc:04X}"),
				written: vec![],
				now: 0,
				pending: 0,
			}];
			Report {
				allocated: happened.clone(),
				fixed: happened,
			}
		},
	}
}
