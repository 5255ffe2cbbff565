//! A generic description of client commands, an executor against the real client,
//! and the reference description of what each command means on the wire.

use crate::refm::{self, ins, BROADCAST};
use crate::sim::{SimError, SimPort};
use dynamixel2::bus::Data;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, FactoryResetKind, SyncWriteData};
use dynamixel2::{Client, ExpectedCount, InvalidMessage, ReadError, Response, TransferError, WriteError};
use serde::{Deserialize, Serialize};

pub type SimClient = Client<SimPort, Vec<u8>>;

/// A register type.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
	U8,
	U16,
	U32,
	U64,
	U128,
	I8,
	I16,
	I32,
	I64,
	I128,
	/// `[u8; 0]`
	A0,
	/// `[u8; 3]`
	A3,
	/// `[u16; 2]`
	A2U16,
	/// `[i32; 3]`
	A3I32,
	/// `[[u16; 2]; 3]`
	AA,
	/// `[u8; 40]`
	A40,
	/// User defined: `u16` followed by an `i8`.
	Pair,
	/// An array of two user defined values.
	Pair2,
	/// `[u8; 300]`
	A300,
	/// `[u16; 200]`
	A200U16,
	/// `[[i32; 64]; 2]`
	AA512,
	/// An array of 100 user defined values.
	Pair100,
}

/// Types that need more than 255 bytes.
pub const BIG_TYPES: [Ty; 4] = [Ty::A300, Ty::A200U16, Ty::AA512, Ty::Pair100];

pub const ALL_TYPES: [Ty; 18] = [
	Ty::U8,
	Ty::U16,
	Ty::U32,
	Ty::U64,
	Ty::U128,
	Ty::I8,
	Ty::I16,
	Ty::I32,
	Ty::I64,
	Ty::I128,
	Ty::A0,
	Ty::A3,
	Ty::A2U16,
	Ty::A3I32,
	Ty::AA,
	Ty::A40,
	Ty::Pair,
	Ty::Pair2,
];

impl Ty {
	/// The encoded size, written down independently of the crate under test.
	pub fn size(self) -> usize {
		match self {
			Ty::U8 | Ty::I8 => 1,
			Ty::U16 | Ty::I16 => 2,
			Ty::U32 | Ty::I32 => 4,
			Ty::U64 | Ty::I64 => 8,
			Ty::U128 | Ty::I128 => 16,
			Ty::A0 => 0,
			Ty::A3 => 3,
			Ty::A2U16 => 4,
			Ty::A3I32 => 12,
			Ty::AA => 12,
			Ty::A40 => 40,
			Ty::Pair => 3,
			Ty::Pair2 => 6,
			Ty::A300 | Ty::Pair100 => 300,
			Ty::A200U16 => 400,
			Ty::AA512 => 512,
		}
	}
}

/// Conversion between a value and its reference encoding.
pub trait TestVal: Data {
	fn from_ref(bytes: &[u8]) -> Self;
	fn to_ref(&self) -> Vec<u8>;
}

macro_rules! test_val_number {
	($($t:ty),*) => {$(
		impl TestVal for $t {
			fn from_ref(bytes: &[u8]) -> Self {
				// Naive little endian decoding.
				let mut v: u128 = 0;
				for (i, b) in bytes.iter().enumerate() {
					v += u128::from(*b) << (8 * i);
				}
				v as $t
			}
			fn to_ref(&self) -> Vec<u8> {
				let mut v = *self as u128;
				let mut out = Vec::new();
				for _ in 0..core::mem::size_of::<$t>() {
					out.push((v % 256) as u8);
					v /= 256;
				}
				out
			}
		}
	)*}
}
test_val_number!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl<T: TestVal, const N: usize> TestVal for [T; N] {
	fn from_ref(bytes: &[u8]) -> Self {
		let size = if N == 0 { 0 } else { bytes.len() / N };
		core::array::from_fn(|i| T::from_ref(&bytes[i * size..(i + 1) * size]))
	}
	fn to_ref(&self) -> Vec<u8> {
		self.iter().flat_map(|x| x.to_ref()).collect()
	}
}

/// A user-defined register type.
#[derive(Debug, Clone, PartialEq)]
pub struct Pair {
	pub a: u16,
	pub b: i8,
}

impl Data for Pair {
	const ENCODED_SIZE: u16 = 3;

	fn encode(&self, buffer: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
		dynamixel2::BufferTooSmallError::check(3, buffer.len())?;
		buffer[0] = (self.a & 0xFF) as u8;
		buffer[1] = (self.a >> 8) as u8;
		buffer[2] = self.b as u8;
		Ok(())
	}

	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		if buffer.len() != 3 {
			return Err(InvalidMessage::InvalidParameterCount(dynamixel2::InvalidParameterCount {
				actual: buffer.len(),
				expected: ExpectedCount::Exact(3),
			}));
		}
		Ok(Self {
			a: u16::from(buffer[0]) | u16::from(buffer[1]) << 8,
			b: buffer[2] as i8,
		})
	}
}

impl TestVal for Pair {
	fn from_ref(bytes: &[u8]) -> Self {
		Self {
			a: u16::from_ref(&bytes[..2]),
			b: i8::from_ref(&bytes[2..]),
		}
	}
	fn to_ref(&self) -> Vec<u8> {
		let mut out = self.a.to_ref();
		out.extend(self.b.to_ref());
		out
	}
}

#[macro_export]
macro_rules! with_ty {
	($ty:expr, $T:ident => $e:expr) => {
		match $ty {
			$crate::cmd::Ty::U8 => { type $T = u8; $e },
			$crate::cmd::Ty::U16 => { type $T = u16; $e },
			$crate::cmd::Ty::U32 => { type $T = u32; $e },
			$crate::cmd::Ty::U64 => { type $T = u64; $e },
			$crate::cmd::Ty::U128 => { type $T = u128; $e },
			$crate::cmd::Ty::I8 => { type $T = i8; $e },
			$crate::cmd::Ty::I16 => { type $T = i16; $e },
			$crate::cmd::Ty::I32 => { type $T = i32; $e },
			$crate::cmd::Ty::I64 => { type $T = i64; $e },
			$crate::cmd::Ty::I128 => { type $T = i128; $e },
			$crate::cmd::Ty::A0 => { type $T = [u8; 0]; $e },
			$crate::cmd::Ty::A3 => { type $T = [u8; 3]; $e },
			$crate::cmd::Ty::A2U16 => { type $T = [u16; 2]; $e },
			$crate::cmd::Ty::A3I32 => { type $T = [i32; 3]; $e },
			$crate::cmd::Ty::AA => { type $T = [[u16; 2]; 3]; $e },
			$crate::cmd::Ty::A40 => { type $T = [u8; 40]; $e },
			$crate::cmd::Ty::Pair => { type $T = $crate::cmd::Pair; $e },
			$crate::cmd::Ty::Pair2 => { type $T = [$crate::cmd::Pair; 2]; $e },
			$crate::cmd::Ty::A300 => { type $T = [u8; 300]; $e },
			$crate::cmd::Ty::A200U16 => { type $T = [u16; 200]; $e },
			$crate::cmd::Ty::AA512 => { type $T = [[i32; 64]; 2]; $e },
			$crate::cmd::Ty::Pair100 => { type $T = [$crate::cmd::Pair; 100]; $e },
		}
	};
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
	ResetAll,
	KeepId,
	KeepIdAndBaudRate,
}

impl Kind {
	pub fn real(self) -> FactoryResetKind {
		match self {
			Kind::ResetAll => FactoryResetKind::ResetAll,
			Kind::KeepId => FactoryResetKind::KeepId,
			Kind::KeepIdAndBaudRate => FactoryResetKind::KeepIdAndBaudRate,
		}
	}
	pub fn byte(self) -> u8 {
		match self {
			Kind::ResetAll => 0xFF,
			Kind::KeepId => 0x01,
			Kind::KeepIdAndBaudRate => 0x02,
		}
	}
}

/// How to consume a multi-motor read.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Via {
	/// Call `read_next()`.
	Next,
	/// Use the `Iterator` implementation.
	Iter,
	/// Call `read_next_borrow()` on an operation started with the non-borrowing constructor.
	Borrow,
	/// Call `read_next_borrow()` on an operation started with the borrowing constructor.
	BorrowCtor,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cmd {
	Ping { id: u8 },
	Scan,
	Read { id: u8, addr: u16, ty: Ty },
	ReadBytes { id: u8, addr: u16, count: u16 },
	Write { id: u8, addr: u16, ty: Ty, val: Vec<u8> },
	WriteBytes { id: u8, addr: u16, data: Vec<u8> },
	RegWrite { id: u8, addr: u16, ty: Ty, val: Vec<u8> },
	RegWriteBytes { id: u8, addr: u16, data: Vec<u8> },
	Action { id: u8 },
	BroadcastAction,
	FactoryReset { id: u8, kind: Kind },
	BroadcastFactoryReset { kind: Kind },
	Reboot { id: u8 },
	BroadcastReboot,
	ClearRevolution { id: u8 },
	BroadcastClearRevolution,
	ClearError { id: u8 },
	BroadcastClearError,
	SyncRead { ids: Vec<u8>, addr: u16, ty: Ty, via: Via },
	SyncReadBytes { ids: Vec<u8>, addr: u16, count: u16, via: Via },
	SyncWrite { addr: u16, ty: Ty, writes: Vec<(u8, Vec<u8>)> },
	SyncWriteBytes { addr: u16, count: u16, writes: Vec<(u8, Vec<u8>)> },
	BulkRead { reads: Vec<(u8, u16, u16)>, via: Via },
	BulkWrite { writes: Vec<(u8, u16, Vec<u8>)> },
	/// `transfer_single` with a custom instruction.
	Raw { id: u8, instruction: u8, params: Vec<u8>, expect: u16 },
	/// `write_instruction` with a custom instruction and no reply.
	RawWrite { id: u8, instruction: u8, params: Vec<u8> },
}

/// What replies a command waits for.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Expect {
	/// No reply at all.
	None,
	/// One reply for each of these motors, with this many parameters.
	Replies(Vec<(u8, u16)>),
	/// Ping replies until a timeout.
	Scan,
}

fn le(x: u16) -> [u8; 2] {
	[(x % 256) as u8, (x / 256) as u8]
}

impl Cmd {
	pub fn name(&self) -> &'static str {
		match self {
			Cmd::Ping { .. } => "ping",
			Cmd::Scan => "scan",
			Cmd::Read { .. } => "read",
			Cmd::ReadBytes { .. } => "read_bytes",
			Cmd::Write { .. } => "write",
			Cmd::WriteBytes { .. } => "write_bytes",
			Cmd::RegWrite { .. } => "reg_write",
			Cmd::RegWriteBytes { .. } => "reg_write_bytes",
			Cmd::Action { .. } => "action",
			Cmd::BroadcastAction => "broadcast_action",
			Cmd::FactoryReset { .. } => "factory_reset",
			Cmd::BroadcastFactoryReset { .. } => "broadcast_factory_reset",
			Cmd::Reboot { .. } => "reboot",
			Cmd::BroadcastReboot => "broadcast_reboot",
			Cmd::ClearRevolution { .. } => "clear_revolution_counter",
			Cmd::BroadcastClearRevolution => "broadcast_clear_revolution_counter",
			Cmd::ClearError { .. } => "clear_error",
			Cmd::BroadcastClearError => "broadcast_clear_error",
			Cmd::SyncRead { .. } => "sync_read",
			Cmd::SyncReadBytes { .. } => "sync_read_bytes",
			Cmd::SyncWrite { .. } => "sync_write",
			Cmd::SyncWriteBytes { .. } => "sync_write_bytes",
			Cmd::BulkRead { .. } => "bulk_read",
			Cmd::BulkWrite { .. } => "bulk_write",
			Cmd::Raw { .. } => "transfer_single",
			Cmd::RawWrite { .. } => "write_instruction",
		}
	}

	/// The reference encoding: packet ID, instruction and parameters.
	pub fn wire(&self) -> (u8, u8, Vec<u8>) {
		let addressed = |addr: u16, data: &[u8]| {
			let mut p = le(addr).to_vec();
			p.extend_from_slice(data);
			p
		};
		match self {
			Cmd::Ping { id } => (*id, ins::PING, vec![]),
			Cmd::Scan => (BROADCAST, ins::PING, vec![]),
			Cmd::Read { id, addr, ty } => (*id, ins::READ, addressed(*addr, &le(ty.size() as u16))),
			Cmd::ReadBytes { id, addr, count } => (*id, ins::READ, addressed(*addr, &le(*count))),
			Cmd::Write { id, addr, val, .. } => (*id, ins::WRITE, addressed(*addr, val)),
			Cmd::WriteBytes { id, addr, data } => (*id, ins::WRITE, addressed(*addr, data)),
			Cmd::RegWrite { id, addr, val, .. } => (*id, ins::REG_WRITE, addressed(*addr, val)),
			Cmd::RegWriteBytes { id, addr, data } => (*id, ins::REG_WRITE, addressed(*addr, data)),
			Cmd::Action { id } => (*id, ins::ACTION, vec![]),
			Cmd::BroadcastAction => (BROADCAST, ins::ACTION, vec![]),
			Cmd::FactoryReset { id, kind } => (*id, ins::FACTORY_RESET, vec![kind.byte()]),
			Cmd::BroadcastFactoryReset { kind } => (BROADCAST, ins::FACTORY_RESET, vec![kind.byte()]),
			Cmd::Reboot { id } => (*id, ins::REBOOT, vec![]),
			Cmd::BroadcastReboot => (BROADCAST, ins::REBOOT, vec![]),
			Cmd::ClearRevolution { id } => (*id, ins::CLEAR, vec![0x01, 0x44, 0x58, 0x4C, 0x22]),
			Cmd::BroadcastClearRevolution => (BROADCAST, ins::CLEAR, vec![0x01, 0x44, 0x58, 0x4C, 0x22]),
			Cmd::ClearError { id } => (*id, ins::CLEAR, vec![0x02, 0x45, 0x52, 0x43, 0x4C]),
			Cmd::BroadcastClearError => (BROADCAST, ins::CLEAR, vec![0x02, 0x45, 0x52, 0x43, 0x4C]),
			Cmd::SyncRead { ids, addr, ty, .. } => {
				let mut p = addressed(*addr, &le(ty.size() as u16));
				p.extend_from_slice(ids);
				(BROADCAST, ins::SYNC_READ, p)
			},
			Cmd::SyncReadBytes { ids, addr, count, .. } => {
				let mut p = addressed(*addr, &le(*count));
				p.extend_from_slice(ids);
				(BROADCAST, ins::SYNC_READ, p)
			},
			Cmd::SyncWrite { addr, ty, writes } => {
				let mut p = addressed(*addr, &le(ty.size() as u16));
				for (id, data) in writes {
					p.push(*id);
					p.extend_from_slice(data);
				}
				(BROADCAST, ins::SYNC_WRITE, p)
			},
			Cmd::SyncWriteBytes { addr, count, writes } => {
				let mut p = addressed(*addr, &le(*count));
				for (id, data) in writes {
					p.push(*id);
					p.extend_from_slice(data);
				}
				(BROADCAST, ins::SYNC_WRITE, p)
			},
			Cmd::BulkRead { reads, .. } => {
				let mut p = vec![];
				for (id, addr, count) in reads {
					p.push(*id);
					p.extend_from_slice(&le(*addr));
					p.extend_from_slice(&le(*count));
				}
				(BROADCAST, ins::BULK_READ, p)
			},
			Cmd::BulkWrite { writes } => {
				let mut p = vec![];
				for (id, addr, data) in writes {
					p.push(*id);
					p.extend_from_slice(&le(*addr));
					p.extend_from_slice(&le(data.len() as u16));
					p.extend_from_slice(data);
				}
				(BROADCAST, ins::BULK_WRITE, p)
			},
			Cmd::Raw {
				id, instruction, params, ..
			}
			| Cmd::RawWrite { id, instruction, params } => (*id, *instruction, params.clone()),
		}
	}

	pub fn frame(&self) -> Vec<u8> {
		let (id, instruction, params) = self.wire();
		refm::frame(id, instruction, &params)
	}

	/// Number of bytes of the stuffed frame.
	pub fn frame_len(&self) -> usize {
		let (_, instruction, params) = self.wire();
		refm::frame_len(instruction, &params)
	}

	pub fn expect(&self) -> Expect {
		let ack = |id: &u8| {
			if *id == BROADCAST {
				Expect::None
			} else {
				Expect::Replies(vec![(*id, 0)])
			}
		};
		match self {
			Cmd::Ping { id } => Expect::Replies(vec![(*id, 3)]),
			Cmd::Scan => Expect::Scan,
			Cmd::Read { id, ty, .. } => Expect::Replies(vec![(*id, ty.size() as u16)]),
			Cmd::ReadBytes { id, count, .. } => Expect::Replies(vec![(*id, *count)]),
			Cmd::Write { id, .. }
			| Cmd::WriteBytes { id, .. }
			| Cmd::RegWrite { id, .. }
			| Cmd::RegWriteBytes { id, .. }
			| Cmd::Action { id }
			| Cmd::FactoryReset { id, .. }
			| Cmd::Reboot { id }
			| Cmd::ClearRevolution { id }
			| Cmd::ClearError { id } => ack(id),
			Cmd::BroadcastAction
			| Cmd::BroadcastFactoryReset { .. }
			| Cmd::BroadcastReboot
			| Cmd::BroadcastClearRevolution
			| Cmd::BroadcastClearError
			| Cmd::SyncWrite { .. }
			| Cmd::SyncWriteBytes { .. }
			| Cmd::BulkWrite { .. }
			| Cmd::RawWrite { .. } => Expect::None,
			Cmd::SyncRead { ids, ty, .. } => Expect::Replies(ids.iter().map(|id| (*id, ty.size() as u16)).collect()),
			Cmd::SyncReadBytes { ids, count, .. } => Expect::Replies(ids.iter().map(|id| (*id, *count)).collect()),
			Cmd::BulkRead { reads, .. } => Expect::Replies(reads.iter().map(|(id, _, count)| (*id, *count)).collect()),
			Cmd::Raw { id, expect, .. } => Expect::Replies(vec![(*id, *expect)]),
		}
	}

	/// True for sync and bulk reads.
	pub fn is_multi_read(&self) -> bool {
		matches!(self, Cmd::SyncRead { .. } | Cmd::SyncReadBytes { .. } | Cmd::BulkRead { .. })
	}
}

/// Normalized error.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Bad {
	/// Write buffer too small.
	WriteBuffer { required: usize, total: usize },
	Discard(String),
	Write(String),
	/// Read buffer too small.
	ReadBuffer { required: usize, total: usize },
	/// The port reported a timeout while reading.
	Timeout,
	/// The port reported another error while reading.
	Io(String),
	Prefix,
	Crc { message: u16, computed: u16 },
	Id { actual: u8, expected: Option<u8> },
	Instruction { actual: u8, expected: u8 },
	Count { actual: usize, expected: String },
	Motor { raw: u8 },
}

/// Errors of serial ports.
pub trait PortError: core::fmt::Debug {
	fn is_timeout(&self) -> bool;
}

impl PortError for SimError {
	fn is_timeout(&self) -> bool {
		*self == SimError::Timeout
	}
}

impl PortError for std::io::Error {
	fn is_timeout(&self) -> bool {
		self.kind() == std::io::ErrorKind::TimedOut
	}
}

/// Serial ports with such errors.
pub trait Port: dynamixel2::SerialPort<Error = Self::PortError> {
	type PortError: PortError;
}

impl<P: dynamixel2::SerialPort> Port for P
where
	P::Error: PortError,
{
	type PortError = P::Error;
}

pub fn norm_write<E: PortError>(e: WriteError<E>) -> Bad {
	match e {
		WriteError::BufferTooSmall(e) => Bad::WriteBuffer {
			required: e.required_size,
			total: e.total_size,
		},
		WriteError::DiscardBuffer(e) => Bad::Discard(format!("{e:?}")),
		WriteError::Write(e) => Bad::Write(format!("{e:?}")),
	}
}

pub fn norm_invalid(e: InvalidMessage) -> Bad {
	match e {
		InvalidMessage::InvalidHeaderPrefix(_) => Bad::Prefix,
		InvalidMessage::InvalidChecksum(e) => Bad::Crc {
			message: e.message,
			computed: e.computed,
		},
		InvalidMessage::InvalidPacketId(e) => Bad::Id {
			actual: e.actual,
			expected: e.expected,
		},
		InvalidMessage::InvalidInstruction(e) => Bad::Instruction {
			actual: e.actual,
			expected: e.expected,
		},
		InvalidMessage::InvalidParameterCount(e) => norm_count(e),
	}
}

pub fn norm_count(e: dynamixel2::InvalidParameterCount) -> Bad {
	Bad::Count {
		actual: e.actual,
		expected: match e.expected {
			ExpectedCount::Exact(x) => format!("={x}"),
			ExpectedCount::Max(x) => format!("<={x}"),
			ExpectedCount::Min(x) => format!(">={x}"),
		},
	}
}

pub fn norm_read<E: PortError>(e: ReadError<E>) -> Bad {
	match e {
		ReadError::BufferFull(e) => Bad::ReadBuffer {
			required: e.required_size,
			total: e.total_size,
		},
		ReadError::Io(e) if e.is_timeout() => Bad::Timeout,
		ReadError::Io(e) => Bad::Io(format!("{e:?}")),
		ReadError::InvalidMessage(e) => norm_invalid(e),
		ReadError::MotorError(e) => Bad::Motor { raw: e.raw },
	}
}

pub fn norm_transfer<E: PortError>(e: TransferError<E>) -> Bad {
	match e {
		TransferError::WriteError(e) => norm_write(e),
		TransferError::ReadError(e) => norm_read(e),
	}
}

/// A successful reply.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Good {
	pub id: u8,
	pub alert: bool,
	pub data: Vec<u8>,
}

pub type Item = Result<Good, Bad>;

/// The result of executing a command.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Outcome {
	/// Whether the transmission step succeeded (for commands with a separate write phase).
	pub started: Result<(), Bad>,
	/// Reported replies.
	pub items: Vec<Item>,
}

/// A byte string view that can be borrowed from a slice.
pub struct View(pub Vec<u8>);

impl core::borrow::Borrow<View> for [u8] {
	fn borrow(&self) -> &View {
		// The borrowing API of the library ties the view to the slice, so a copy has to be leaked.
		Box::leak(Box::new(View(self.to_vec())))
	}
}

impl<'a> From<&'a [u8]> for View {
	fn from(x: &'a [u8]) -> Self {
		View(x.to_vec())
	}
}

fn good<T>(r: Response<T>, f: impl FnOnce(T) -> Vec<u8>) -> Good {
	Good {
		id: r.motor_id,
		alert: r.alert,
		data: f(r.data),
	}
}

fn single<E: PortError>(r: Result<Good, TransferError<E>>) -> Outcome {
	match r {
		Ok(g) => Outcome {
			started: Ok(()),
			items: vec![Ok(g)],
		},
		Err(TransferError::WriteError(e)) => Outcome {
			started: Err(norm_write(e)),
			items: vec![],
		},
		Err(TransferError::ReadError(e)) => Outcome {
			started: Ok(()),
			items: vec![Err(norm_read(e))],
		},
	}
}

fn unit<E: PortError>(r: Result<Response<()>, TransferError<E>>) -> Outcome {
	single(r.map(|r| good(r, |()| vec![])))
}

fn write_only<E: PortError>(r: Result<(), WriteError<E>>) -> Outcome {
	Outcome {
		started: r.map_err(norm_write),
		items: vec![],
	}
}

fn not_started<E: PortError>(e: WriteError<E>) -> Outcome {
	Outcome {
		started: Err(norm_write(e)),
		items: vec![],
	}
}

/// Execute a command and normalize the result.
pub fn exec<P: Port, B: AsRef<[u8]> + AsMut<[u8]>>(client: &mut Client<P, B>, cmd: &Cmd) -> Outcome {
	exec_n(client, cmd, usize::MAX, &mut |_| ())
}

/// Execute a command, taking at most `take` replies from commands with multiple replies before dropping them.
///
/// `observe` is called with the `remaining()` counts seen along the way.
pub fn exec_n<P: Port, B: AsRef<[u8]> + AsMut<[u8]>>(client: &mut Client<P, B>, cmd: &Cmd, take: usize, observe: &mut dyn FnMut(usize)) -> Outcome {
	// More than any command can give for the amounts of input that are generated.
	let limit = take.min(MAX_ITEMS);
	let outcome = exec_limited(client, cmd, limit, observe);
	assert!(outcome.items.len() < MAX_ITEMS, "the results of {cmd:?} do not end");
	outcome
}

pub const MAX_ITEMS: usize = 20_000;

fn exec_limited<P: Port, B: AsRef<[u8]> + AsMut<[u8]>>(
	client: &mut Client<P, B>,
	cmd: &Cmd,
	take: usize,
	observe: &mut dyn FnMut(usize),
) -> Outcome {
	macro_rules! multi {
		($start:expr, $next:expr, $conv:expr) => {{
			match $start {
				Err(e) => not_started(e),
				Ok(mut op) => {
					let mut items = Vec::new();
					observe(op.remaining());
					while items.len() < take {
						#[allow(clippy::redundant_closure_call)]
						match ($next)(&mut op) {
							None => break,
							Some(Ok(r)) => items.push(Ok(good(r, $conv))),
							Some(Err(e)) => items.push(Err(norm_read(e))),
						}
						observe(op.remaining());
					}
					drop(op);
					Outcome { started: Ok(()), items }
				},
			}
		}};
	}
	// The borrowed variant needs its loop expanded, because the closure can not express the lifetimes.
	macro_rules! multi_borrow {
		($start:expr) => {{
			match $start {
				Err(e) => not_started(e),
				Ok(mut op) => {
					let mut items = Vec::new();
					observe(op.remaining());
					while items.len() < take {
						match op.read_next_borrow() {
							None => break,
							Some(Ok(r)) => items.push(Ok(good(r, |x: &View| x.0.clone()))),
							Some(Err(e)) => items.push(Err(norm_read(e))),
						}
						observe(op.remaining());
					}
					drop(op);
					Outcome { started: Ok(()), items }
				},
			}
		}};
	}

	match cmd {
		Cmd::Ping { id } => single(client.ping(*id).map(|r| good(r, |p| vec![(p.model & 0xFF) as u8, (p.model >> 8) as u8, p.firmware]))),
		Cmd::Scan => match client.scan() {
			Err(e) => not_started(e),
			Ok(mut scan) => {
				let mut items = Vec::new();
				let mut flip = false;
				while items.len() < take {
					flip = !flip;
					let next = if flip { scan.next() } else { scan.scan_next() };
					match next {
						None => break,
						Some(Ok(r)) => items.push(Ok(good(r, |p| {
							vec![(p.model & 0xFF) as u8, (p.model >> 8) as u8, p.firmware]
						}))),
						Some(Err(e)) => items.push(Err(norm_read(e))),
					}
				}
				// Tell the observer that everything from now on is the drop.
				observe(0);
				drop(scan);
				Outcome { started: Ok(()), items }
			},
		},
		Cmd::Read { id, addr, ty } => with_ty!(*ty, T => single(client.read::<T>(*id, *addr).map(|r| good(r, |x| x.to_ref())))),
		Cmd::ReadBytes { id, addr, count } => match addr % 2 {
			0 => single(client.read_bytes::<Vec<u8>>(*id, *addr, *count).map(|r| good(r, |x| x))),
			_ => single(client.read_bytes::<&[u8]>(*id, *addr, *count).map(|r| good(r, |x| x.to_vec()))),
		},
		Cmd::Write { id, addr, ty, val } => with_ty!(*ty, T => unit(client.write::<T>(*id, *addr, &T::from_ref(val)))),
		Cmd::WriteBytes { id, addr, data } => unit(client.write_bytes(*id, *addr, data)),
		Cmd::RegWrite { id, addr, ty, val } => with_ty!(*ty, T => unit(client.reg_write::<T>(*id, *addr, &T::from_ref(val)))),
		Cmd::RegWriteBytes { id, addr, data } => unit(client.reg_write_bytes(*id, *addr, data)),
		Cmd::Action { id } => unit(client.action(*id)),
		Cmd::BroadcastAction => write_only(client.broadcast_action()),
		Cmd::FactoryReset { id, kind } => unit(client.factory_reset(*id, kind.real())),
		Cmd::BroadcastFactoryReset { kind } => write_only(client.broadcast_factory_reset(kind.real())),
		Cmd::Reboot { id } => unit(client.reboot(*id)),
		Cmd::BroadcastReboot => write_only(client.broadcast_reboot()),
		Cmd::ClearRevolution { id } => unit(client.clear_revolution_counter(*id)),
		Cmd::BroadcastClearRevolution => write_only(client.broadcast_clear_revolution_counter()),
		Cmd::ClearError { id } => unit(client.clear_error(*id)),
		Cmd::BroadcastClearError => write_only(client.broadcast_clear_error()),
		Cmd::SyncRead { ids, addr, ty, via } => with_ty!(*ty, T => match via {
			Via::Iter => multi!(client.sync_read::<T>(ids, *addr), |op: &mut dynamixel2::instructions::SyncRead<T, P, B>| op.next(), |x: T| x.to_ref()),
			_ => multi!(client.sync_read::<T>(ids, *addr), |op: &mut dynamixel2::instructions::SyncRead<T, P, B>| op.read_next(), |x: T| x.to_ref()),
		}),
		// The type of the bytes variants can not be named, so expand the loops.
		Cmd::SyncReadBytes { ids, addr, count, via } => match via {
			Via::Borrow => multi_borrow!(client.sync_read_bytes::<View>(ids, *addr, *count)),
			Via::BorrowCtor => multi_borrow!(client.sync_read_bytes_borrow::<View>(ids, *addr, *count)),
			Via::Iter => match client.sync_read_bytes::<Vec<u8>>(ids, *addr, *count) {
				Err(e) => not_started(e),
				Ok(mut op) => {
					let mut items = Vec::new();
					observe(op.remaining());
					while items.len() < take {
						match op.next() {
							None => break,
							Some(r) => items.push(r.map(|r| good(r, |x| x)).map_err(norm_read)),
						}
						observe(op.remaining());
					}
					Outcome { started: Ok(()), items }
				},
			},
			Via::Next => match client.sync_read_bytes::<Vec<u8>>(ids, *addr, *count) {
				Err(e) => not_started(e),
				Ok(mut op) => {
					let mut items = Vec::new();
					observe(op.remaining());
					while items.len() < take {
						match op.read_next() {
							None => break,
							Some(r) => items.push(r.map(|r| good(r, |x| x)).map_err(norm_read)),
						}
						observe(op.remaining());
					}
					Outcome { started: Ok(()), items }
				},
			},
		},
		Cmd::SyncWrite { addr, ty, writes } => with_ty!(*ty, T => {
			let data: Vec<SyncWriteData<T>> = writes.iter().map(|(id, x)| SyncWriteData { motor_id: *id, data: T::from_ref(x) }).collect();
			write_only(client.sync_write::<_, _, T>(*addr, data))
		}),
		Cmd::SyncWriteBytes { addr, count, writes } => {
			let data: Vec<SyncWriteData<&[u8]>> = writes
				.iter()
				.map(|(id, x)| SyncWriteData {
					motor_id: *id,
					data: x.as_slice(),
				})
				.collect();
			write_only(client.sync_write_bytes(*addr, *count, &data))
		},
		Cmd::BulkRead { reads, via } => {
			let reads: Vec<BulkReadData> = reads
				.iter()
				.map(|(motor_id, address, count)| BulkReadData {
					motor_id: *motor_id,
					address: *address,
					count: *count,
				})
				.collect();
			match via {
				Via::Borrow => multi_borrow!(client.bulk_read_bytes::<View>(&reads)),
				Via::BorrowCtor => multi_borrow!(client.bulk_read_bytes_borrow::<View>(&reads)),
				Via::Iter => match client.bulk_read_bytes::<Vec<u8>>(&reads) {
					Err(e) => not_started(e),
					Ok(mut op) => {
						let mut items = Vec::new();
						observe(op.remaining());
						while items.len() < take {
							match op.next() {
								None => break,
								Some(r) => items.push(r.map(|r| good(r, |x| x)).map_err(norm_read)),
							}
							observe(op.remaining());
						}
						Outcome { started: Ok(()), items }
					},
				},
				Via::Next => match client.bulk_read_bytes::<Vec<u8>>(&reads) {
					Err(e) => not_started(e),
					Ok(mut op) => {
						let mut items = Vec::new();
						observe(op.remaining());
						while items.len() < take {
							match op.read_next() {
								None => break,
								Some(r) => items.push(r.map(|r| good(r, |x| x)).map_err(norm_read)),
							}
							observe(op.remaining());
						}
						Outcome { started: Ok(()), items }
					},
				},
			}
		},
		Cmd::BulkWrite { writes } => {
			let writes: Vec<BulkWriteData<&[u8]>> = writes
				.iter()
				.map(|(motor_id, address, data)| BulkWriteData {
					motor_id: *motor_id,
					address: *address,
					data: data.as_slice(),
				})
				.collect();
			write_only(client.bulk_write(&writes))
		},
		Cmd::Raw {
			id,
			instruction,
			params,
			expect,
		} => single(
			client
				.transfer_single(*id, *instruction, params.len(), *expect, |buffer| {
					buffer.copy_from_slice(params);
					Ok(())
				})
				.map(|s| Good {
					id: s.packet_id(),
					alert: s.alert(),
					data: s.parameters().to_vec(),
				}),
		),
		Cmd::RawWrite { id, instruction, params } => write_only(client.write_instruction(*id, *instruction, params.len(), |buffer| {
			buffer.copy_from_slice(params);
			Ok(())
		})),
	}
}

/// A reference reply frame.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Reply {
	pub id: u8,
	pub error: u8,
	pub data: Vec<u8>,
}

impl Reply {
	pub fn frame(&self) -> Vec<u8> {
		refm::status(self.id, self.error, &self.data)
	}
}

/// The reference verdict on an intact status frame answering a request to `(id, count)`.
///
/// Returns all acceptable outcomes (several defects may be present, and any of them may be reported).
pub fn judge(reply: &Reply, id: Option<u8>, count: Option<u16>) -> Vec<Item> {
	let mut bad = Vec::new();
	if reply.error & 0x7F != 0 {
		bad.push(Err(Bad::Motor { raw: reply.error }));
	}
	if let Some(id) = id {
		if reply.id != id {
			bad.push(Err(Bad::Id {
				actual: reply.id,
				expected: Some(id),
			}));
		}
	}
	if let Some(count) = count {
		if reply.data.len() != usize::from(count) {
			bad.push(Err(Bad::Count {
				actual: reply.data.len(),
				expected: format!("={count}"),
			}));
		}
	}
	if bad.is_empty() {
		bad.push(Ok(Good {
			id: reply.id,
			alert: reply.error & 0x80 != 0,
			data: reply.data.clone(),
		}));
	}
	bad
}
