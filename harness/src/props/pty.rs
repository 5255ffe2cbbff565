//! Real terminal devices: C28.

use super::device::{device_read, form, Form};
use super::system::{difference, model, steps, Memory, SysStep};
use super::*;
use crate::cmd::{exec_n, judge, Bad, Expect, Good, Item, Reply};
use crate::gen;
use crate::refm;
use crate::runner::{Tags, SHARDS};
use crate::{ensure, ensure_eq};
use dynamixel2::serial2::SerialPort as Serial;
// The type has methods of the same names.
use dynamixel2::SerialPort as Lib;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

/// Much longer than anything should take, even on a busy machine.
pub const PATIENCE: Duration = Duration::from_secs(20);

fn os<T: PartialEq + From<i8>>(what: &str, r: T) -> Result<T, String> {
	if r == T::from(-1) {
		Err(format!("{what}: {}", std::io::Error::last_os_error()))
	} else {
		Ok(r)
	}
}

/// The other end of a simulated serial line.
pub struct Pty {
	master: OwnedFd,
	pub path: PathBuf,
}

impl Pty {
	pub fn new() -> Result<Self, String> {
		unsafe {
			let fd = os("posix_openpt", libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC | libc::O_NONBLOCK))?;
			let master = OwnedFd::from_raw_fd(fd);
			os("grantpt", libc::grantpt(fd))?;
			os("unlockpt", libc::unlockpt(fd))?;
			let mut name = [0u8; 128];
			if libc::ptsname_r(fd, name.as_mut_ptr().cast(), name.len()) != 0 {
				return Err(format!("ptsname: {}", std::io::Error::last_os_error()));
			}
			let len = name.iter().position(|x| *x == 0).unwrap();
			let path = PathBuf::from(std::str::from_utf8(&name[..len]).map_err(|e| e.to_string())?);
			Ok(Self { master, path })
		}
	}

	fn wait(&self, events: i16, timeout: Duration) -> bool {
		let mut p = libc::pollfd {
			fd: self.master.as_raw_fd(),
			events,
			revents: 0,
		};
		unsafe { libc::poll(&mut p, 1, timeout.as_millis() as i32) > 0 && p.revents & events != 0 }
	}

	/// Write everything.
	pub fn write(&self, mut data: &[u8]) -> Result<(), String> {
		let until = Instant::now() + PATIENCE;
		while !data.is_empty() {
			if Instant::now() > until {
				return Err("the pty does not accept data".into());
			}
			self.wait(libc::POLLOUT, Duration::from_millis(100));
			let n = unsafe { libc::write(self.master.as_raw_fd(), data.as_ptr().cast(), data.len()) };
			if n > 0 {
				data = &data[n as usize..];
			}
		}
		Ok(())
	}

	/// Read what is there, waiting for at most the given time.
	pub fn read(&self, timeout: Duration) -> Vec<u8> {
		let mut buffer = [0u8; 4096];
		if !self.wait(libc::POLLIN, timeout) {
			return vec![];
		}
		let n = unsafe { libc::read(self.master.as_raw_fd(), buffer.as_mut_ptr().cast(), buffer.len()) };
		buffer[..n.max(0) as usize].to_vec()
	}

	/// Read until there are this many bytes, or it takes too long.
	pub fn read_n(&self, n: usize) -> Vec<u8> {
		let until = Instant::now() + PATIENCE;
		let mut out = vec![];
		while out.len() < n && Instant::now() < until {
			out.extend(self.read(Duration::from_millis(100)));
		}
		out
	}

	/// Terminal settings of the other side.
	fn settings(&self) -> Result<libc::termios2, String> {
		unsafe {
			let mut t: libc::termios2 = std::mem::zeroed();
			os("TCGETS2", libc::ioctl(self.master.as_raw_fd(), libc::TCGETS2, &mut t))?;
			Ok(t)
		}
	}

	pub fn baud(&self) -> Result<(u32, u32), String> {
		let t = self.settings()?;
		Ok((t.c_ispeed, t.c_ospeed))
	}
}

/// Bytes received by a serial port, but not read yet.
fn waiting(fd: RawFd) -> usize {
	let mut n: libc::c_int = 0;
	unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) };
	n.max(0) as usize
}

fn await_input(fd: RawFd, n: usize) -> Result<(), String> {
	let until = Instant::now() + PATIENCE;
	while waiting(fd) < n {
		if Instant::now() > until {
			return Err("internal error: data does not arrive at the other side of the pty".into());
		}
		std::thread::sleep(Duration::from_micros(50));
	}
	Ok(())
}

pub const RATES: [u32; 30] = [
	50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400, 57600, 115_200, 230_400, 460_800, 500_000, 576_000, 921_600,
	1_000_000, 1_152_000, 1_500_000, 2_000_000, 2_500_000, 3_000_000, 3_500_000, 4_000_000,
];

fn rate() -> BoxedStrategy<u32> {
	proptest::sample::select(RATES.to_vec()).boxed()
}

// Configuration.

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Opening {
	ClientOpen,
	ClientOpenWithBuffers,
	ClientNew,
	DeviceOpen,
	DeviceOpenWithBuffers,
	DeviceNew,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Config {
	how: Opening,
	baud: u32,
	then: Vec<u32>,
}

fn check_baud(pty: &Pty, what: &str, reported: u32, expected: u32) -> Result<(), String> {
	ensure_eq!(reported, expected, "baud rate reported after {what}");
	ensure_eq!(pty.baud()?, (expected, expected), "baud rate of the terminal after {what}");
	let t = pty.settings()?;
	let raw_in = libc::PARMRK | libc::ISTRIP | libc::INLCR | libc::IGNCR | libc::ICRNL | libc::IXON | libc::IXOFF;
	ensure!(t.c_iflag & raw_in == 0, "input is modified after {what}: c_iflag {:o}", t.c_iflag);
	ensure!(t.c_oflag & libc::OPOST == 0, "output is modified after {what}: c_oflag {:o}", t.c_oflag);
	let raw_local = libc::ECHO | libc::ECHONL | libc::ICANON | libc::ISIG | libc::IEXTEN;
	ensure!(t.c_lflag & raw_local == 0, "not in raw mode after {what}: c_lflag {:o}", t.c_lflag);
	ensure!(
		t.c_cflag & libc::CSIZE == libc::CS8 && t.c_cflag & (libc::PARENB | libc::CSTOPB | libc::CRTSCTS) == 0,
		"character format after {what}: c_cflag {:o}",
		t.c_cflag
	);
	Ok(())
}

fn check_config(case: &Config, tags: &mut Tags) -> Result<(), String> {
	let pty = Pty::new()?;
	let what = format!("{:?} with {}", case.how, case.baud);
	tags.nontrivial();
	let fail = |e: std::io::Error| format!("{what} failed: {e}");
	enum Either {
		Client(Client<Serial, Vec<u8>>),
		Device(Device<Serial, Vec<u8>>),
	}
	let open = || Serial::open(&pty.path, case.baud);
	let mut x = match case.how {
		Opening::ClientOpen => Either::Client(Client::open(&pty.path, case.baud).map_err(fail)?),
		Opening::ClientOpenWithBuffers => Either::Client(Client::open_with_buffers(&pty.path, case.baud, vec![0; 40], vec![0; 30]).map_err(fail)?),
		Opening::ClientNew => Either::Client(Client::new(open().map_err(fail)?).map_err(fail)?),
		Opening::DeviceOpen => Either::Device(Device::open(&pty.path, case.baud).map_err(fail)?),
		Opening::DeviceOpenWithBuffers => Either::Device(Device::open_with_buffers(&pty.path, case.baud, vec![0; 40], vec![0; 30]).map_err(fail)?),
		Opening::DeviceNew => Either::Device(Device::new(open().map_err(fail)?).map_err(fail)?),
	};
	let reported = match &x {
		Either::Client(x) => x.baud_rate(),
		Either::Device(x) => x.baud_rate(),
	};
	check_baud(&pty, &what, reported, case.baud)?;
	for baud in &case.then {
		let what = format!("setting it to {baud}");
		let r = match &mut x {
			Either::Client(x) => x.set_baud_rate(*baud),
			Either::Device(x) => x.set_baud_rate(*baud),
		};
		r.map_err(|e| format!("{what} failed: {e}"))?;
		let reported = match &x {
			Either::Client(x) => x.baud_rate(),
			Either::Device(x) => x.baud_rate(),
		};
		check_baud(&pty, &what, reported, *baud)?;
	}
	// The baud rate is that of the port, also when asking the port.
	let port = match x {
		Either::Client(x) => x.into_serial_port(),
		Either::Device(x) => x.into_serial_port(),
	};
	let expected = *case.then.last().unwrap_or(&case.baud);
	ensure_eq!(Lib::baud_rate(&port).map_err(|e| e.to_string()), Ok(expected), "baud rate of the port");
	Ok(())
}

// Raw data.

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Io {
	Send(Vec<u8>),
	/// Receive data in pieces, reading with a buffer of the given size.
	Receive { data: Vec<u8>, cuts: Vec<u16>, buffer: u16 },
	/// Receive data that comes while waiting for it.
	ReceiveLater { data: Vec<u8>, after_us: u16, max: bool },
	/// Nothing comes.
	Timeout { us: u32 },
	/// Read with a deadline that has passed already, while there is data.
	Expired { data: Vec<u8> },
	Discard { data: Vec<u8>, then: Vec<u8> },
	Baud(u32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RawIo {
	baud: u32,
	steps: Vec<Io>,
}

/// Read until there are this many bytes.
fn receive(port: &mut Serial, n: usize, buffer: usize) -> Result<Vec<u8>, String> {
	let mut out = vec![];
	let mut buffer = vec![0; buffer];
	while out.len() < n {
		let deadline = Lib::make_deadline(port, PATIENCE);
		match Lib::read(port, &mut buffer, &deadline) {
			Ok(n) => {
				ensure!(n > 0 && n <= buffer.len(), "reading gave {n} bytes with a buffer of {}", buffer.len());
				out.extend_from_slice(&buffer[..n]);
			},
			Err(e) => return Err(format!("after {} of {n} bytes: {e}", out.len())),
		}
	}
	Ok(out)
}

/// How late a timeout may be noticed at least once in a few tries.
const LATE: Duration = Duration::from_millis(500);

fn expect_timeout(port: &mut Serial, timeout: Duration) -> Result<(), String> {
	let mut tries = 1;
	loop {
		let elapsed = timeout_after(port, timeout)?;
		if elapsed < timeout + LATE {
			return Ok(());
		}
		ensure!(tries < 6, "timed out after {elapsed:?}, but the deadline was {timeout:?} (and similarly {tries} times)");
		tries += 1;
	}
}

fn timeout_after(port: &mut Serial, timeout: Duration) -> Result<Duration, String> {
	let start = Instant::now();
	let deadline = Lib::make_deadline(port, timeout);
	let mut buffer = [0; 16];
	match Lib::read(port, &mut buffer, &deadline) {
		Ok(n) => Err(format!("got {} while nothing should be there", hex(&buffer[..n]))),
		Err(e) => {
			let elapsed = start.elapsed();
			ensure!(Serial::is_timeout_error(&e), "the error of a timeout is not recognized as such: {e:?}");
			ensure!(elapsed >= timeout, "timed out after {elapsed:?}, before the deadline of {timeout:?}");
			ensure!(elapsed < timeout + PATIENCE, "timed out after {elapsed:?}, but the deadline was {timeout:?}");
			Ok(elapsed)
		},
	}
}

fn check_io(case: &RawIo, tags: &mut Tags) -> Result<(), String> {
	let pty = Pty::new()?;
	let mut port = Serial::open(&pty.path, case.baud).map_err(|e| e.to_string())?;
	let fd = port.as_raw_fd();
	for (i, step) in case.steps.iter().enumerate() {
		let context = |e: String| format!("step {i} {step:?}: {e}");
		(|| -> Result<(), String> {
			match step {
				Io::Send(data) => {
					tags.tag("send");
					tags.nontrivial_if(!data.is_empty());
					// The other side has to read meanwhile if this is more than fits.
					let received = std::thread::scope(|s| {
						let reader = s.spawn(|| pty.read_n(data.len()));
						Lib::write_all(&mut port, data).map_err(|e| e.to_string())?;
						Ok::<_, String>(reader.join().unwrap())
					})?;
					ensure!(received == *data, "sent {}, but {} arrived", hex(data), hex(&received));
				},
				Io::Receive { data, cuts, buffer } => {
					tags.tag("receive");
					tags.nontrivial_if(!data.is_empty());
					let mut got = vec![];
					for part in gen::split(data, cuts) {
						pty.write(&part)?;
						// Sometimes read in between.
						if part.len() % 2 == 0 {
							got.extend(receive(&mut port, 1, usize::from(*buffer).max(1))?);
						}
					}
					got.extend(receive(&mut port, data.len() - got.len(), usize::from(*buffer).max(1))?);
					ensure!(got == *data, "received {}, expected {}", hex(&got), hex(data));
				},
				Io::ReceiveLater { data, after_us, max } => {
					tags.tag("receive later");
					// Wait as long as possible, or just very long.
					let timeout = if *max { Duration::MAX } else { Duration::from_secs(1000) };
					let deadline = Lib::make_deadline(&port, timeout);
					let mut buffer = vec![0; data.len()];
					let start = Instant::now();
					let r = std::thread::scope(|s| {
						s.spawn(|| {
							std::thread::sleep(Duration::from_micros(u64::from(*after_us)));
							pty.write(data)
						});
						Lib::read(&mut port, &mut buffer, &deadline)
					});
					let n = r.map_err(|e| format!("{e:?}"))?;
					ensure!(start.elapsed() < PATIENCE, "data was returned only after {:?}", start.elapsed());
					ensure!(n > 0 && buffer[..n] == data[..n], "received {}, expected {}", hex(&buffer[..n]), hex(data));
					let rest = receive(&mut port, data.len() - n, 64)?;
					ensure!(rest == data[n..], "then received {}, expected {}", hex(&rest), hex(&data[n..]));
				},
				Io::Timeout { us } => {
					tags.tag("timeout");
					expect_timeout(&mut port, Duration::from_micros(u64::from(*us)))?;
				},
				Io::Expired { data } => {
					tags.tag("expired deadline");
					pty.write(data)?;
					await_input(fd, data.len())?;
					let deadline = Lib::make_deadline(&port, Duration::ZERO);
					std::thread::sleep(Duration::from_micros(100));
					let mut buffer = vec![0; data.len()];
					// Whether this gives data or a timeout, nothing may be lost.
					let n = match Lib::read(&mut port, &mut buffer, &deadline) {
						Ok(n) => n,
						Err(e) => {
							ensure!(Serial::is_timeout_error(&e), "the error of a timeout is not recognized as such: {e:?}");
							0
						},
					};
					let mut got = buffer[..n].to_vec();
					got.extend(receive(&mut port, data.len() - n, 64)?);
					ensure!(got == *data, "received {}, expected {}", hex(&got), hex(data));
				},
				Io::Discard { data, then } => {
					tags.tag("discard");
					pty.write(data)?;
					await_input(fd, data.len())?;
					Lib::discard_input_buffer(&mut port).map_err(|e| e.to_string())?;
					ensure!(waiting(fd) == 0, "{} bytes are left after discarding the input", waiting(fd));
					pty.write(then)?;
					let got = receive(&mut port, then.len(), 64)?;
					ensure!(got == *then, "received {} after discarding {}, expected {}", hex(&got), hex(data), hex(then));
				},
				Io::Baud(baud) => {
					tags.tag("baud");
					Lib::set_baud_rate(&mut port, *baud).map_err(|e| e.to_string())?;
					let reported = Lib::baud_rate(&port).map_err(|e| e.to_string())?;
					check_baud(&pty, &format!("setting it to {baud}"), reported, *baud)?;
				},
			}
			Ok(())
		})()
		.map_err(context)?;
	}
	expect_timeout(&mut port, Duration::ZERO).map_err(|e| format!("in the end: {e}"))
}

// Exchanges with a reference motor.

/// Have a thread answer everything that is received as whole frames.
pub fn with_responder<R>(pty: &Pty, mut respond: impl FnMut(&[u8]) -> Vec<Vec<u8>> + Send, f: impl FnOnce() -> R) -> (R, Vec<Vec<u8>>) {
	struct Stop<'a>(&'a AtomicBool);
	impl Drop for Stop<'_> {
		fn drop(&mut self) {
			self.0.store(true, Ordering::SeqCst);
		}
	}
	let stop = AtomicBool::new(false);
	std::thread::scope(|s| {
		let thread = s.spawn(|| {
			let mut buffer = vec![];
			let mut frames = vec![];
			loop {
				let stopping = stop.load(Ordering::SeqCst);
				let new = pty.read(Duration::from_millis(if stopping { 0 } else { 2 }));
				if new.is_empty() && stopping {
					break;
				}
				buffer.extend(new);
				// Only complete frames are of interest. The checks are on the frames.
				while buffer.len() >= 7 {
					let len = 7 + usize::from(buffer[5]) + 256 * usize::from(buffer[6]);
					if buffer.len() < len {
						break;
					}
					let frame: Vec<u8> = buffer.drain(..len).collect();
					for burst in respond(&frame) {
						pty.write(&burst).ok();
					}
					frames.push(frame);
				}
			}
			if !buffer.is_empty() {
				frames.push(buffer);
			}
			frames
		});
		let r = {
			let _stop = Stop(&stop);
			f()
		};
		(r, thread.join().unwrap())
	})
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PtyStep {
	cmd: Cmd,
	/// Data for the replies.
	errors: Vec<u8>,
	fill: u8,
	cuts: Vec<u16>,
	/// Late replies to an earlier command, which are received before this command is sent.
	stale: Vec<(u8, u8)>,
	take: Option<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PtyExchange {
	baud: u32,
	steps: Vec<PtyStep>,
}

fn replies(step: &PtyStep) -> Vec<(Reply, u8, u16)> {
	match step.cmd.expect() {
		Expect::Replies(list) => list
			.into_iter()
			.enumerate()
			.map(|(i, (id, n))| {
				let reply = Reply {
					id,
					error: step.errors[i % step.errors.len()],
					data: (0..n).map(|j| (j as u8).wrapping_mul(step.fill).wrapping_add(i as u8)).collect(),
				};
				(reply, id, n)
			})
			.collect(),
		_ => vec![],
	}
}

fn exchange_once(case: &PtyExchange, tags: &mut Tags) -> Result<(), String> {
	let pty = Pty::new()?;
	let mut client = Client::open_with_buffers(&pty.path, case.baud, vec![0; 1024], vec![0; 1024]).map_err(|e| e.to_string())?;
	for (i, step) in case.steps.iter().enumerate() {
		let list = replies(step);
		let take = step.take.map(usize::from).unwrap_or(usize::MAX);
		let want: Vec<Vec<Item>> = if list.is_empty() && step.cmd.wire().0 == refm::BROADCAST && has_result(&step.cmd) {
			vec![vec![Ok(Good {
				id: refm::BROADCAST,
				alert: false,
				data: vec![],
			})]]
		} else {
			let n = if step.cmd.is_multi_read() { take } else { usize::MAX };
			list.iter().take(n).map(|(r, id, n)| judge(r, Some(*id), Some(*n))).collect()
		};
		let stale: Vec<u8> = step.stale.iter().flat_map(|(id, n)| refm::status(*id, 0, &vec![0x5A; usize::from(*n)])).collect();
		pty.write(&stale)?;
		await_input(client.serial_port().as_raw_fd(), stale.len())?;
		let line: Vec<u8> = list.iter().flat_map(|(r, _, _)| r.frame()).collect();
		let bursts = gen::split(&line, &step.cuts);
		let (outcome, frames) = with_responder(&pty, |_| bursts.clone(), || exec_n(&mut client, &step.cmd, take, &mut |_| ()));
		let name = format!("step {i} {:?}", step.cmd);
		ensure!(
			frames == [step.cmd.frame()],
			"{name}: transmitted {}, expected {}",
			hex(&frames.concat()),
			hex(&step.cmd.frame())
		);
		ensure_eq!(outcome.started, Ok(()), "transmission in {name}");
		ensure!(
			outcome.items.len() == want.len() && outcome.items.iter().zip(&want).all(|(a, b)| b.contains(a)),
			"{name}: got {:?}, expected {want:?}",
			outcome.items
		);
		tags.tag(step.cmd.name());
		tags.tag_if(!stale.is_empty(), "stale data");
		tags.nontrivial_if(!list.is_empty());
	}
	Ok(())
}

/// Commands that give a result even if nobody replies.
fn has_result(cmd: &Cmd) -> bool {
	matches!(
		cmd,
		Cmd::Write { .. }
			| Cmd::WriteBytes { .. }
			| Cmd::RegWrite { .. }
			| Cmd::RegWriteBytes { .. }
			| Cmd::Action { .. }
			| Cmd::FactoryReset { .. }
			| Cmd::Reboot { .. }
			| Cmd::ClearRevolution { .. }
			| Cmd::ClearError { .. }
	)
}

/// Something that depends on the machine being fast enough: try more than once.
pub fn patiently(mut f: impl FnMut() -> Result<(), String>) -> Result<(), String> {
	f().or_else(|_| f()).or_else(|_| f())
}

fn check_exchange(case: &PtyExchange, tags: &mut Tags) -> Result<(), String> {
	patiently(|| exchange_once(case, tags))
}

// Without an answer.

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct NoAnswer {
	baud: u32,
	id: u8,
	count: u16,
	/// A complete reply without its tail.
	partial: Option<u8>,
}

fn check_no_answer(case: &NoAnswer, tags: &mut Tags) -> Result<(), String> {
	let pty = Pty::new()?;
	let mut client = Client::open(&pty.path, case.baud).map_err(|e| e.to_string())?;
	let cmd = Cmd::ReadBytes {
		id: case.id,
		addr: 1,
		count: case.count,
	};
	let mut partial = match case.partial {
		Some(_) => refm::status(case.id, 0, &vec![0; usize::from(case.count)]),
		None => vec![],
	};
	partial.truncate(usize::from(case.partial.unwrap_or(0)) % (partial.len().max(1)));
	tags.nontrivial();
	tags.tag_if(!partial.is_empty(), "partial reply");
	let start = Instant::now();
	let (outcome, frames) = with_responder(&pty, |_| vec![partial.clone()], || exec_n(&mut client, &cmd, 1, &mut |_| ()));
	let elapsed = start.elapsed();
	ensure!(frames == [cmd.frame()], "transmitted {}", hex(&frames.concat()));
	ensure_eq!(outcome.items, vec![Err(Bad::Timeout)], "result without an answer");
	let budget = Duration::from_nanos(refm::reply_budget_ns(u64::from(case.count), case.baud) as u64);
	ensure!(elapsed >= budget, "gave up after {elapsed:?}, but the reply is allowed to take {budget:?}");
	ensure!(elapsed < budget + PATIENCE, "gave up only after {elapsed:?}, but the reply is allowed to take {budget:?}");
	Ok(())
}

// A client and a device on two real terminals.

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pair {
	id: u8,
	form: Form,
	steps: Vec<SysStep>,
}

fn pair_once(case: &Pair, tags: &mut Tags) -> Result<(), String> {
	// With a low baud rate, there is plenty of time.
	let baud = 50;
	let (a, b) = (Pty::new()?, Pty::new()?);
	let mut client = Client::open_with_buffers(&a.path, baud, vec![0; 2048], vec![0; 2048]).map_err(|e| e.to_string())?;
	let mut device = Device::open_with_buffers(&b.path, baud, vec![0; 2048], vec![0; 2048]).map_err(|e| e.to_string())?;
	let stop = AtomicBool::new(false);
	struct Stop<'a>(&'a AtomicBool);
	impl Drop for Stop<'_> {
		fn drop(&mut self) {
			self.0.store(true, Ordering::SeqCst);
		}
	}
	let mut expected = vec![Memory::new(case.id)];
	let pump = |from: &Pty, to: &Pty| -> Result<(), String> {
		while !stop.load(Ordering::SeqCst) {
			to.write(&from.read(Duration::from_millis(2)))?;
		}
		Ok(())
	};
	std::thread::scope(|s| {
		let _stop = Stop(&stop);
		let (pump, a, b) = (&pump, &a, &b);
		s.spawn(move || pump(a, b));
		s.spawn(move || pump(b, a));
		let motor = s.spawn(|| -> Result<Memory, String> {
			let mut memory = Memory::new(case.id);
			while !stop.load(Ordering::SeqCst) {
				match device_read(&mut device, case.form, Duration::from_millis(3)) {
					Ok((target, instruction)) => {
						if let Some((_, result)) = memory.handle(target, instruction) {
							let status = memory.status(result);
							device
								.write_status(status.id, status.error, status.data.len(), |b| {
									b.copy_from_slice(&status.data);
									Ok(())
								})
								.map_err(|e| format!("the device failed to write a status: {e}"))?;
						}
					},
					Err(Bad::Timeout) => (),
					Err(e) => return Err(format!("the device reports {e:?}")),
				}
			}
			Ok(memory)
		});
		let mut run = || -> Result<(), String> {
			let end = SysStep {
				cmd: Cmd::Ping { id: case.id },
				take: None,
				noise: vec![],
			};
			for (i, step) in case.steps.iter().chain([&end]).enumerate() {
				// Unread replies would have to be waited for, and missing motors take long.
				if matches!(step.cmd, Cmd::Scan | Cmd::RawWrite { .. }) {
					continue;
				}
				let take = step.take.map(usize::from).unwrap_or(usize::MAX);
				let mut next = expected.clone();
				let want = model(&mut next, &step.cmd, usize::MAX);
				if want.iter().any(|x| x.contains(&Err(Bad::Timeout))) {
					continue;
				}
				expected = next;
				let want = if step.cmd.is_multi_read() { &want[..want.len().min(take)] } else { &want[..] };
				let outcome = exec_n(&mut client, &step.cmd, take, &mut |_| ());
				ensure_eq!(outcome.started, Ok(()), "transmission in step {i} {:?}", step.cmd);
				ensure!(
					outcome.items.len() == want.len() && outcome.items.iter().zip(want).all(|(a, b)| b.contains(a)),
					"step {i} {:?}: got {:?}, expected {want:?}",
					step.cmd,
					outcome.items
				);
				tags.tag(step.cmd.name());
				tags.nontrivial();
			}
			Ok(())
		};
		let result = run();
		stop.store(true, Ordering::SeqCst);
		let memory = motor.join().map_err(|_| "the device panicked".to_string())?;
		// A problem of the device is the likely cause of one of the client.
		let memory = memory?;
		result?;
		ensure!(
			memory == expected[0],
			"the state of the motor is wrong: {}",
			difference(&memory, &expected[0])
		);
		Ok(())
	})
}

fn check_pair(case: &Pair, tags: &mut Tags) -> Result<(), String> {
	patiently(|| pair_once(case, tags))
}

// A device waiting for instructions.

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Waiting {
	form: Form,
	timeout_us: u32,
	/// Status packets of others.
	statuses: Vec<(u8, u8)>,
	cmd: Cmd,
	cuts: Vec<u16>,
	max: bool,
}

fn waiting_once(case: &Waiting, tags: &mut Tags) -> Result<(), String> {
	let pty = Pty::new()?;
	let mut device = Device::open_with_buffers(&pty.path, 57600, vec![0; 1024], vec![0; 64]).map_err(|e| e.to_string())?;
	let traffic: Vec<u8> = case.statuses.iter().flat_map(|(id, n)| refm::status(*id, 0, &vec![1; usize::from(*n)])).collect();
	pty.write(&traffic)?;
	await_input(device.serial_port().as_raw_fd(), traffic.len())?;
	let timeout = Duration::from_micros(u64::from(case.timeout_us));
	let start = Instant::now();
	let got = device_read(&mut device, case.form, timeout);
	let elapsed = start.elapsed();
	ensure_eq!(got, Err(Bad::Timeout), "reading while only status packets come in");
	ensure!(elapsed >= timeout, "timed out after {elapsed:?}, before the deadline of {timeout:?}");
	ensure!(elapsed < timeout + PATIENCE, "timed out after {elapsed:?}, but the deadline was {timeout:?}");
	let frame = case.cmd.frame();
	let timeout = if case.max { Duration::MAX } else { PATIENCE };
	let got = std::thread::scope(|s| {
		s.spawn(|| {
			for part in gen::split(&frame, &case.cuts) {
				pty.write(&part).ok();
			}
		});
		device_read(&mut device, case.form, timeout)
	});
	ensure_eq!(got, Ok(super::device::meaning(&case.cmd)), "instruction received by the device");
	let data = &frame[..frame.len().min(20)];
	device
		.write_status(3, 0x80, data.len(), |b| {
			b.copy_from_slice(data);
			Ok(())
		})
		.map_err(|e| e.to_string())?;
	let want = refm::status(3, 0x80, data);
	let sent = pty.read_n(want.len());
	ensure!(sent == want, "the device sent {}, expected {}", hex(&sent), hex(&want));
	tags.nontrivial();
	tags.tag_if(!case.statuses.is_empty(), "status packets");
	Ok(())
}

fn check_waiting(case: &Waiting, tags: &mut Tags) -> Result<(), String> {
	waiting_once(case, tags)
}

/// Kinds of errors that certainly do not mean that time is up.
const NO_TIMEOUT: [std::io::ErrorKind; 16] = {
	use std::io::ErrorKind::*;
	[
		NotFound,
		PermissionDenied,
		ConnectionRefused,
		ConnectionReset,
		ConnectionAborted,
		NotConnected,
		AddrInUse,
		BrokenPipe,
		AlreadyExists,
		InvalidInput,
		InvalidData,
		WriteZero,
		Interrupted,
		Unsupported,
		UnexpectedEof,
		OutOfMemory,
	]
};

/// Which errors are timeouts: the kind with this index, or a system error.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum ErrorCase {
	TimedOut,
	Kind(u8),
	Os(i32),
}

fn check_error(case: &ErrorCase, tags: &mut Tags) -> Result<(), String> {
	tags.nontrivial();
	let (error, timeout) = match case {
		ErrorCase::TimedOut => (std::io::Error::from(std::io::ErrorKind::TimedOut), true),
		ErrorCase::Kind(i) => (std::io::Error::from(NO_TIMEOUT[usize::from(*i)]), false),
		ErrorCase::Os(x) => (std::io::Error::from_raw_os_error(*x), *x == libc::ETIMEDOUT),
	};
	ensure_eq!(Serial::is_timeout_error(&error), timeout, "whether {error:?} is a timeout");
	Ok(())
}

pub fn c28(ctx: &mut Ctx) {
	ctx.rule = "pseudo-terminals opened by the library: generated baud rates, byte strings, deadlines, exchanges with a reference motor, and complete client and device pairs; non-trivial: something is configured or transferred";
	ctx.assumptions = vec![
		"a pseudo-terminal stands in for serial hardware, so what a line does with the configured baud rate is not covered".into(),
		"upper bounds on elapsed time are 20 s, or half a second more than the timeout in at least one of six tries, and exchanges that depend on the speed of the machine are tried up to three times".into(),
	];
	ctx.scale = 1.0;
	ctx.hang_limit = 300;
	ctx.enumerate(
		"errors",
		|shard| {
			let kinds = (0..NO_TIMEOUT.len()).map(|i| ErrorCase::Kind(i as u8));
			// Operations that would block may be considered as timed out.
			let system = (1..=133).filter(|x| *x != libc::EAGAIN).map(ErrorCase::Os);
			std::iter::once(ErrorCase::TimedOut).chain(kinds).chain(system).skip(shard).step_by(SHARDS)
		},
		check_error,
	);
	ctx.pbt(
		"configuration",
		ctx.n(1500, 12_000),
		|| {
			let how = proptest::sample::select(vec![
				Opening::ClientOpen,
				Opening::ClientOpenWithBuffers,
				Opening::ClientNew,
				Opening::DeviceOpen,
				Opening::DeviceOpenWithBuffers,
				Opening::DeviceNew,
			]);
			(how, rate(), proptest::collection::vec(rate(), 0..4)).prop_map(|(how, baud, then)| Config { how, baud, then }).boxed()
		},
		check_config,
	);
	ctx.pbt(
		"raw",
		ctx.n(3000, 40_000),
		|| {
			let bytes = |max: usize| {
				prop_oneof![
					3 => gen::data(1, 40),
					2 => proptest::collection::vec(any::<u8>(), 1..max),
					1 => Just((0..=255u8).collect::<Vec<u8>>()),
				]
			};
			let step = prop_oneof![
				3 => prop_oneof![4 => bytes(3000), 1 => bytes(20_000)].prop_map(Io::Send),
				3 => (bytes(1500), gen::cuts(), prop_oneof![1u16..8, 1u16..4000]).prop_map(|(data, cuts, buffer)| Io::Receive { data, cuts, buffer }),
				1 => (bytes(100), 0u16..3000, any::<bool>()).prop_map(|(data, after_us, max)| Io::ReceiveLater { data, after_us, max }),
				1 => (0u32..5000).prop_map(|us| Io::Timeout { us }),
				1 => bytes(100).prop_map(|data| Io::Expired { data }),
				2 => (bytes(1000), bytes(100)).prop_map(|(data, then)| Io::Discard { data, then }),
				1 => rate().prop_map(Io::Baud),
			];
			(rate(), proptest::collection::vec(step, 1..8)).prop_map(|(baud, steps)| RawIo { baud, steps }).boxed()
		},
		check_io,
	);
	ctx.pbt(
		"exchanges",
		ctx.n(600, 8_000),
		|| {
			let cmd = prop_oneof![4 => gen::single(gen::CFG), 1 => gen::silent(gen::CFG), 3 => gen::multi(gen::CFG)];
			let step = (
				cmd,
				proptest::collection::vec(gen::error_byte(), 1..4),
				any::<u8>(),
				gen::cuts(),
				prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec((gen::motor_id(), 0u8..8), 1..4)],
				prop_oneof![4 => Just(None), 1 => (0u8..4).prop_map(Some)],
			)
				.prop_map(|(cmd, errors, fill, cuts, stale, take)| PtyStep {
					cmd,
					errors,
					fill,
					cuts,
					stale,
					take,
				});
			// Low baud rates give the other side a lot of time to reply.
			let baud = proptest::sample::select(vec![50u32, 75, 110]);
			(baud, proptest::collection::vec(step, 1..8)).prop_map(|(baud, steps)| PtyExchange { baud, steps }).boxed()
		},
		check_exchange,
	);
	ctx.pbt(
		"no_answer",
		ctx.n(200, 2_000),
		|| {
			(proptest::sample::select(vec![9600u32, 57600, 115_200, 1_000_000, 4_000_000]), gen::motor_id(), 0u16..100, prop_oneof![Just(None), any::<u8>().prop_map(Some)])
				.prop_map(|(baud, id, count, partial)| NoAnswer { baud, id, count, partial })
				.boxed()
		},
		check_no_answer,
	);
	ctx.pbt(
		"pairs",
		ctx.n(160, 2_400),
		|| {
			(gen::motor_id(), form())
				.prop_flat_map(|(id, form)| (Just(id), Just(form), proptest::collection::vec(steps(vec![id], false), 1..16)))
				.prop_map(|(id, form, steps)| Pair { id, form, steps })
				.boxed()
		},
		check_pair,
	);
	ctx.pbt(
		"waiting",
		ctx.n(400, 6_000),
		|| {
			let cmd = prop_oneof![
				3 => gen::single(gen::Cfg { raw: false, ..gen::CFG }),
				1 => gen::silent(gen::Cfg { raw: false, ..gen::CFG }),
				1 => gen::multi(gen::CFG)
			];
			(form(), 0u32..5000, proptest::collection::vec((gen::motor_id(), 0u8..10), 0..6), cmd, gen::cuts(), any::<bool>())
				.prop_map(|(form, timeout_us, statuses, cmd, cuts, max)| Waiting {
					form,
					timeout_us,
					statuses,
					cmd,
					cuts,
					max,
				})
				.boxed()
		},
		check_waiting,
	);
}
