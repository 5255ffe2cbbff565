//! A simulated serial port with a virtual clock, scripted input, fault injection and a call log.

use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct SimInstant(pub u128);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SimError {
	Timeout,
	Fault(u32),
}

impl std::fmt::Display for SimError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			Self::Timeout => write!(f, "simulated timeout"),
			Self::Fault(x) => write!(f, "simulated fault {x}"),
		}
	}
}

/// One burst of incoming data. A single `read()` never returns bytes of more than one burst.
#[derive(Clone, Debug)]
pub struct Rx {
	/// Arrival time in virtual nanoseconds (absolute).
	pub at: u128,
	pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
	Discard,
	Write(Vec<u8>),
	Read {
		cap: usize,
		deadline: u128,
		result: Result<usize, SimError>,
	},
	MakeDeadline {
		timeout: Duration,
		at: u128,
	},
	SetBaud(u32),
}

pub type OnWrite = Box<dyn FnMut(&[u8], u128) -> Vec<Rx>>;

pub struct Core {
	pub now: u128,
	pub baud: u32,
	pub rx: VecDeque<Rx>,
	pub log: Vec<Call>,
	/// I/O call counter (discard, write, read), for fault injection.
	pub io_calls: u64,
	/// Faults to inject at specific I/O calls.
	pub faults: BTreeMap<u64, SimError>,
	/// If set, every I/O call from this one on fails with the given error.
	pub dead_from: Option<(u64, SimError)>,
	/// Error to report for baud rate operations.
	pub baud_fault: Option<SimError>,
	/// Asking for the baud rate fails, but setting it does not.
	pub query_fault: Option<SimError>,
	/// Remaining I/O calls before the run is declared non-terminating.
	pub budget: u64,
	pub on_write: Option<OnWrite>,
	/// If set, a read whose deadline has already passed still returns data that has arrived.
	pub eager: bool,
	/// Log read calls (can be turned off to save memory).
	pub log_reads: bool,
	/// Virtual time a write takes.
	pub write_cost: u128,
}

pub const BUDGET_MARKER: &str = "I/O step budget exhausted: the operation does not terminate";

impl Core {
	fn step(&mut self) -> Result<(), SimError> {
		if self.budget == 0 {
			// A second panic would abort the process.
			if std::thread::panicking() {
				return Err(SimError::Timeout);
			}
			panic!("{BUDGET_MARKER}");
		}
		self.budget -= 1;
		let n = self.io_calls;
		self.io_calls += 1;
		if let Some(e) = self.faults.get(&n) {
			return Err(*e);
		}
		if let Some((from, e)) = self.dead_from {
			if n >= from {
				return Err(e);
			}
		}
		Ok(())
	}

	pub fn pending_bytes(&self) -> usize {
		self.rx.iter().map(|x| x.data.len()).sum()
	}

	/// All frames written to the port, in order.
	pub fn written(&self) -> Vec<Vec<u8>> {
		self.log
			.iter()
			.filter_map(|c| match c {
				Call::Write(x) => Some(x.clone()),
				_ => None,
			})
			.collect()
	}

	pub fn reads(&self) -> usize {
		self.log.iter().filter(|c| matches!(c, Call::Read { .. })).count()
	}

	pub fn deadlines(&self) -> Vec<Duration> {
		self.log
			.iter()
			.filter_map(|c| match c {
				Call::MakeDeadline { timeout, .. } => Some(*timeout),
				_ => None,
			})
			.collect()
	}

	pub fn push(&mut self, at: u128, data: &[u8]) {
		self.rx.push_back(Rx { at, data: data.to_vec() });
	}
}

#[derive(Clone)]
pub struct SimPort(pub Rc<RefCell<Core>>);

impl std::fmt::Debug for SimPort {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("SimPort")
	}
}

impl SimPort {
	pub fn new(baud: u32) -> Self {
		Self(Rc::new(RefCell::new(Core {
			now: 1_000_000,
			baud,
			rx: VecDeque::new(),
			log: Vec::new(),
			io_calls: 0,
			faults: BTreeMap::new(),
			dead_from: None,
			baud_fault: None,
			query_fault: None,
			budget: 100_000,
			on_write: None,
			eager: false,
			log_reads: true,
			write_cost: 0,
		})))
	}

	pub fn with<R>(&self, f: impl FnOnce(&mut Core) -> R) -> R {
		f(&mut self.0.borrow_mut())
	}

	pub fn on_write(&self, f: impl FnMut(&[u8], u128) -> Vec<Rx> + 'static) {
		self.0.borrow_mut().on_write = Some(Box::new(f));
	}
}

impl dynamixel2::SerialPort for SimPort {
	type Error = SimError;
	type Instant = SimInstant;

	fn baud_rate(&self) -> Result<u32, SimError> {
		let core = self.0.borrow();
		match core.baud_fault.or(core.query_fault) {
			Some(e) => Err(e),
			None => Ok(core.baud),
		}
	}

	fn set_baud_rate(&mut self, baud_rate: u32) -> Result<(), SimError> {
		let mut core = self.0.borrow_mut();
		core.log.push(Call::SetBaud(baud_rate));
		if let Some(e) = core.baud_fault {
			return Err(e);
		}
		core.baud = baud_rate;
		Ok(())
	}

	fn discard_input_buffer(&mut self) -> Result<(), SimError> {
		let mut core = self.0.borrow_mut();
		core.log.push(Call::Discard);
		core.step()?;
		let now = core.now;
		// Everything that has arrived by now is lost, data still in flight is not.
		core.rx.retain(|x| x.at > now);
		Ok(())
	}

	fn read(&mut self, buffer: &mut [u8], deadline: &SimInstant) -> Result<usize, SimError> {
		let mut core = self.0.borrow_mut();
		let result = (|| {
			core.step()?;
			if core.now > deadline.0 && !core.eager {
				return Err(SimError::Timeout);
			}
			let at = match core.rx.front() {
				Some(x) if x.at <= deadline.0.max(if core.eager { core.now } else { 0 }) => x.at,
				_ => {
					core.now = core.now.max(deadline.0);
					return Err(SimError::Timeout);
				},
			};
			core.now = core.now.max(at);
			let front = core.rx.front_mut().unwrap();
			let n = front.data.len().min(buffer.len());
			buffer[..n].copy_from_slice(&front.data[..n]);
			front.data.drain(..n);
			if front.data.is_empty() {
				core.rx.pop_front();
			}
			Ok(n)
		})();
		if core.log_reads {
			core.log.push(Call::Read {
				cap: buffer.len(),
				deadline: deadline.0,
				result,
			});
		}
		result
	}

	fn write_all(&mut self, buffer: &[u8]) -> Result<(), SimError> {
		let (now, mut cb) = {
			let mut core = self.0.borrow_mut();
			core.log.push(Call::Write(buffer.to_vec()));
			core.step()?;
			core.now += core.write_cost;
			(core.now, core.on_write.take())
		};
		if let Some(cb_ref) = cb.as_mut() {
			let new = cb_ref(buffer, now);
			let mut core = self.0.borrow_mut();
			core.rx.extend(new);
			core.on_write = cb;
		}
		Ok(())
	}

	fn make_deadline(&self, timeout: Duration) -> SimInstant {
		let mut core = self.0.borrow_mut();
		// Making deadlines counts as well, to notice loops that never get to do any I/O.
		if core.budget == 0 && !std::thread::panicking() {
			panic!("{BUDGET_MARKER}");
		}
		core.budget = core.budget.saturating_sub(1);
		let now = core.now;
		core.log.push(Call::MakeDeadline { timeout, at: now });
		SimInstant(now + timeout.as_nanos())
	}

	fn is_timeout_error(error: &SimError) -> bool {
		*error == SimError::Timeout
	}
}
