//! Register values: C20, C21.

use super::*;
use crate::cmd::{norm_invalid, Bad, Pair, TestVal};
use crate::gen;
use crate::refm;
use crate::runner::{Ctx, Tags, SHARDS};
use crate::{ensure, ensure_eq};
use dynamixel2::bus::Data;
use dynamixel2::{BufferTooSmallError, ExpectedCount, InvalidMessage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

// C20

/// A user defined type without any data.
#[derive(Debug, Clone, PartialEq)]
pub struct Nothing;

impl Data for Nothing {
	const ENCODED_SIZE: u16 = 0;
	fn encode(&self, _buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(buffer.len(), 0)?;
		Ok(Nothing)
	}
}

impl TestVal for Nothing {
	fn from_ref(_bytes: &[u8]) -> Self {
		Nothing
	}
	fn to_ref(&self) -> Vec<u8> {
		vec![]
	}
}

/// A user defined type with array fields.
#[derive(Debug, Clone, PartialEq)]
pub struct Triple {
	a: [u16; 2],
	b: i32,
	c: u8,
}

impl Data for Triple {
	const ENCODED_SIZE: u16 = 9;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(9, buffer.len())?;
		self.a.encode(&mut buffer[0..])?;
		self.b.encode(&mut buffer[4..])?;
		self.c.encode(&mut buffer[8..])
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(buffer.len(), 9)?;
		Ok(Triple {
			a: Data::decode(&buffer[0..4])?,
			b: Data::decode(&buffer[4..8])?,
			c: Data::decode(&buffer[8..9])?,
		})
	}
}

impl TestVal for Triple {
	fn from_ref(x: &[u8]) -> Self {
		Triple {
			a: TestVal::from_ref(&x[..4]),
			b: TestVal::from_ref(&x[4..8]),
			c: x[8],
		}
	}
	fn to_ref(&self) -> Vec<u8> {
		let mut out = self.a.to_ref();
		out.extend(self.b.to_ref());
		out.push(self.c);
		out
	}
}

/// All types to check, with their encoded sizes.
macro_rules! types {
	($($name:literal => $t:ty, $size:expr;)*) => {
		const TYPES: &[(&str, usize)] = &[$(($name, $size)),*];

		fn check_type(name: &str, bytes: &[u8], other: &[u8], room: usize, fill: u8) -> Result<(), String> {
			match name {
				$($name => check_value::<$t>($size, bytes, other, room, fill),)*
				_ => Err(format!("unknown type {name}")),
			}
		}
	}
}

types! {
	"u8" => u8, 1;
	"u16" => u16, 2;
	"u32" => u32, 4;
	"u64" => u64, 8;
	"u128" => u128, 16;
	"i8" => i8, 1;
	"i16" => i16, 2;
	"i32" => i32, 4;
	"i64" => i64, 8;
	"i128" => i128, 16;
	"[u8; 0]" => [u8; 0], 0;
	"[u8; 1]" => [u8; 1], 1;
	"[u8; 3]" => [u8; 3], 3;
	"[u8; 147]" => [u8; 147], 147;
	"[i8; 5]" => [i8; 5], 5;
	"[u16; 0]" => [u16; 0], 0;
	"[u16; 2]" => [u16; 2], 4;
	"[u16; 7]" => [u16; 7], 14;
	"[i16; 4]" => [i16; 4], 8;
	"[u32; 1]" => [u32; 1], 4;
	"[i32; 3]" => [i32; 3], 12;
	"[u64; 2]" => [u64; 2], 16;
	"[i64; 3]" => [i64; 3], 24;
	"[u128; 2]" => [u128; 2], 32;
	"[i128; 3]" => [i128; 3], 48;
	"[[u16; 2]; 3]" => [[u16; 2]; 3], 12;
	"[[u8; 3]; 2]" => [[u8; 3]; 2], 6;
	"[[i32; 2]; 2]" => [[i32; 2]; 2], 16;
	"[[[i16; 2]; 3]; 2]" => [[[i16; 2]; 3]; 2], 24;
	"[[u8; 0]; 4]" => [[u8; 0]; 4], 0;
	"[[u32; 4]; 0]" => [[u32; 4]; 0], 0;
	"Pair" => Pair, 3;
	"[Pair; 1]" => [Pair; 1], 3;
	"[Pair; 4]" => [Pair; 4], 12;
	"[[Pair; 2]; 3]" => [[Pair; 2]; 3], 18;
	"Nothing" => Nothing, 0;
	"[Nothing; 6]" => [Nothing; 6], 0;
	"Triple" => Triple, 9;
	"[Triple; 3]" => [Triple; 3], 27;
}

/// Encode and decode with every kind of size.
fn check_value<T: TestVal + PartialEq + std::fmt::Debug>(size: usize, bytes: &[u8], other: &[u8], room: usize, fill: u8) -> Result<(), String> {
	ensure_eq!(usize::from(T::ENCODED_SIZE), size, "encoded size");
	let value = T::from_ref(bytes);
	// Encoding.
	let mut buffer = vec![fill; room];
	let result = value.encode(&mut buffer);
	if room < size {
		let want = BufferTooSmallError {
			required_size: size,
			total_size: room,
		};
		match result {
			Ok(()) => return Err(format!("encoding {value:?} with {size} bytes in a buffer of {room} bytes succeeded")),
			Err(e) => ensure!(
				e.required_size == want.required_size && e.total_size == want.total_size,
				"encoding in a too small buffer: {e:?}, expected {want:?}"
			),
		}
	} else {
		ensure!(result.is_ok(), "encoding {value:?} in a buffer of {room} bytes: {result:?}");
		ensure!(
			buffer[..size] == *bytes,
			"{value:?} was encoded as {}, expected {}",
			hex(&buffer[..size]),
			hex(bytes)
		);
		ensure!(buffer[size..].iter().all(|x| *x == fill), "encoding touched the buffer behind the value: {}", hex(&buffer));
	}
	// Decoding.
	match T::decode(bytes) {
		Ok(x) => {
			ensure!(x == value, "{} was decoded as {x:?}, expected {value:?}", hex(bytes));
			ensure!(x.to_ref() == bytes, "{} was decoded as {x:?}", hex(bytes));
		},
		Err(e) => return Err(format!("decoding {} failed: {e:?}", hex(bytes))),
	}
	// Decoding something else.
	match T::decode(other) {
		Ok(x) => {
			ensure!(other.len() == size, "a buffer of {} bytes was decoded as a value of {size} bytes: {x:?}", other.len());
			ensure!(x == T::from_ref(other), "{} was decoded as {x:?}", hex(other));
		},
		Err(e) => {
			ensure!(other.len() != size, "decoding {} failed: {e:?}", hex(other));
			let want = Bad::Count {
				actual: other.len(),
				expected: format!("={size}"),
			};
			ensure_eq!(norm_invalid(e), want, "decoding a buffer of the wrong size");
		},
	}
	Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ValueCase {
	ty: String,
	bytes: Vec<u8>,
	/// Something else to decode.
	other: Vec<u8>,
	/// Size of the buffer to encode to.
	room: usize,
	fill: u8,
}

fn check_c20(case: &ValueCase, tags: &mut Tags) -> Result<(), String> {
	let size = case.bytes.len();
	tags.tag_if(case.room < size, "too little room");
	tags.tag_if(case.room > size, "more room");
	tags.tag_if(case.other.len() < size, "short input");
	tags.tag_if(case.other.len() > size, "long input");
	tags.tag_if(case.ty.contains('['), "array");
	tags.tag_if(case.ty.contains("[["), "nested array");
	tags.tag_if(case.ty.contains("Pair") || case.ty.contains("Triple") || case.ty.contains("Nothing"), "user defined");
	tags.nontrivial_if(case.bytes.iter().any(|x| *x != 0) || case.other.len() != size);
	check_type(&case.ty, &case.bytes, &case.other, case.room, case.fill)
}

/// Every value of the small types.
fn check_small(low: &u16, tags: &mut Tags) -> Result<(), String> {
	let x = *low;
	let b = [(x % 256) as u8, (x / 256) as u8];
	check_type("u16", &b, &b[..1], 3, 7)?;
	check_type("i16", &b, &[], 1, 7)?;
	check_type("[u8; 1]", &b[..1], &b, 2, 7)?;
	ensure_eq!(u16::decode(&b).ok(), Some(x), "decoding u16");
	ensure_eq!(i16::decode(&b).ok(), Some(i32::from(x).wrapping_sub(if x >= 0x8000 { 0x10000 } else { 0 }) as i16), "decoding i16");
	if x < 256 {
		check_type("u8", &b[..1], &b, 1, 7)?;
		check_type("i8", &b[..1], &b, 0, 7)?;
		ensure_eq!(i8::decode(&b[..1]).ok(), Some((i32::from(x) - if x >= 128 { 256 } else { 0 }) as i8), "decoding i8");
	}
	tags.sub_evals(2);
	tags.nontrivial();
	Ok(())
}

thread_local! {
	/// Slices that elements were decoded from, and rooms they were encoded to.
	static SLICES: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}

/// An element that records what it is decoded from, and that refuses some values.
#[derive(Debug, Clone, PartialEq)]
struct Picky {
	x: [u8; 2],
}

const REFUSED: u8 = 0xEE;
const TOO_LARGE: u8 = 0xDD;

impl Data for Picky {
	const ENCODED_SIZE: u16 = 2;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		if self.x[0] == TOO_LARGE {
			return Err(BufferTooSmallError {
				required_size: 1000 + usize::from(self.x[1]),
				total_size: 7,
			});
		}
		BufferTooSmallError::check(2, buffer.len())?;
		buffer[..2].copy_from_slice(&self.x);
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		SLICES.with_borrow_mut(|x| x.push(buffer.to_vec()));
		if buffer.len() == 2 && buffer[0] == REFUSED {
			return Err(InvalidMessage::InvalidParameterCount(dynamixel2::InvalidParameterCount {
				actual: buffer[1].into(),
				expected: ExpectedCount::Max(5),
			}));
		}
		Ok(Picky {
			x: buffer.try_into().unwrap_or([0, 0]),
		})
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PickyCase {
	len: u8,
	bytes: Vec<u8>,
}

fn check_picky_n<const N: usize>(bytes: &[u8], tags: &mut Tags) -> Result<(), String> {
	SLICES.with_borrow_mut(|x| x.clear());
	let result = <[Picky; N]>::decode(bytes);
	let slices = SLICES.with_borrow(|x| x.clone());
	if bytes.len() != 2 * N {
		let want = Bad::Count {
			actual: bytes.len(),
			expected: format!("={}", 2 * N),
		};
		tags.tag("wrong size");
		match result {
			Ok(x) => return Err(format!("{} bytes were decoded as {N} elements: {x:?}", bytes.len())),
			Err(e) => ensure_eq!(norm_invalid(e), want, "decoding a buffer of the wrong size"),
		}
		return Ok(());
	}
	let chunks: Vec<Vec<u8>> = bytes.chunks(2).map(|x| x.to_vec()).collect();
	match chunks.iter().position(|x| x[0] == REFUSED) {
		None => {
			let sorted = |x: &[Vec<u8>]| {
				let mut x = x.to_vec();
				x.sort();
				x
			};
			ensure_eq!(sorted(&slices), sorted(&chunks), "what the elements were decoded from");
			match result {
				Ok(x) => {
					ensure!(x.iter().map(|x| x.x.to_vec()).collect::<Vec<_>>() == chunks, "decoded {x:?} from {}", hex(bytes));
				},
				Err(e) => return Err(format!("decoding failed: {e:?}")),
			}
		},
		Some(_) => {
			tags.tag("refused element");
			// Which element is reported first is not fixed, but it has to be one of them.
			let errors: Vec<Bad> = chunks
				.iter()
				.filter(|x| x[0] == REFUSED)
				.map(|x| Bad::Count {
					actual: x[1].into(),
					expected: "<=5".into(),
				})
				.collect();
			match result {
				Ok(x) => return Err(format!("decoding succeeded although an element was refused: {x:?}")),
				Err(e) => {
					let e = norm_invalid(e);
					ensure!(errors.contains(&e), "an element was refused with {errors:?}, but decoding the array gives {e:?}");
				},
			}
		},
	}
	// Encoding, with some elements that do not want to.
	let value: [Picky; N] = std::array::from_fn(|i| Picky {
		x: [bytes[2 * i], bytes[2 * i + 1]],
	});
	let mut buffer = vec![0x5A; 2 * N + 3];
	let result = value.encode(&mut buffer);
	let errors: Vec<usize> = value.iter().filter(|x| x.x[0] == TOO_LARGE).map(|x| 1000 + usize::from(x.x[1])).collect();
	match result {
		Ok(()) => {
			ensure!(errors.is_empty(), "encoding succeeded although an element could not be encoded");
			ensure!(buffer[..2 * N] == *bytes, "encoded as {}, expected {}", hex(&buffer), hex(bytes));
		},
		Err(e) => {
			tags.tag("failing element");
			ensure!(errors.contains(&e.required_size) && e.total_size == 7, "encoding failed with {e:?}, expected one of {errors:?}");
		},
	}
	ensure!(buffer[2 * N..] == [0x5A; 3], "encoding wrote behind the value");
	tags.nontrivial_if(N > 0);
	Ok(())
}

fn check_picky(case: &PickyCase, tags: &mut Tags) -> Result<(), String> {
	match case.len {
		0 => check_picky_n::<0>(&case.bytes, tags),
		1 => check_picky_n::<1>(&case.bytes, tags),
		2 => check_picky_n::<2>(&case.bytes, tags),
		3 => check_picky_n::<3>(&case.bytes, tags),
		4 => check_picky_n::<4>(&case.bytes, tags),
		_ => check_picky_n::<9>(&case.bytes, tags),
	}
}

/// Very large arrays.
fn check_large(case: &ValueCase, tags: &mut Tags) -> Result<(), String> {
	tags.nontrivial();
	macro_rules! sizes {
		($($name:literal => $t:ty, $n:expr, $size:expr;)*) => {
			match case.ty.as_str() {
				$($name => {
					const S: usize = $size;
					ensure_eq!(usize::from(<[$t; $n]>::ENCODED_SIZE), S * $n, "encoded size");
					let bytes: Vec<u8> = case.bytes.iter().copied().cycle().take(S * $n).collect();
					let x = match <[$t; $n]>::decode(&bytes) {
						Ok(x) => Box::new(x),
						Err(e) => return Err(format!("decoding failed: {e:?}")),
					};
					for (i, y) in x.iter().enumerate() {
						ensure!(*y == <$t>::from_ref(&bytes[i * S..(i + 1) * S]), "element {i} is {y:?}");
					}
					let mut buffer = vec![case.fill; case.room + S * $n];
					ensure!(x.encode(&mut buffer).is_ok(), "encoding failed");
					ensure!(buffer[..S * $n] == bytes[..], "wrong encoding");
					ensure!(buffer[S * $n..].iter().all(|x| *x == case.fill), "encoding wrote behind the value");
					ensure!(x.encode(&mut buffer[..S * $n - 1]).is_err(), "encoding in a too small buffer succeeded");
					ensure!(<[$t; $n]>::decode(&bytes[1..]).is_err(), "decoding a short buffer succeeded");
					Ok(())
				})*
				_ => Err("unknown type".into()),
			}
		}
	}
	sizes! {
		"u8" => u8, 65535, 1;
		"u16" => u16, 32767, 2;
		"i128" => i128, 4095, 16;
		"[u8; 255]" => [u8; 255], 257, 255;
		"Pair" => Pair, 21845, 3;
	}
}

pub fn c20(ctx: &mut Ctx) {
	ctx.scale = 64.0;
	ctx.rule = "the value is not zero, or the input has the wrong size";
	ctx.enumerate("all_small_values", |shard| (0..=u16::MAX).skip(shard).step_by(SHARDS), check_small);
	let n = ctx.n(40_000, 2_000_000);
	ctx.pbt(
		"values",
		n,
		|| {
			proptest::sample::select(TYPES.to_vec())
				.prop_flat_map(|(ty, size)| {
					let edge = prop_oneof![Just(0u8), Just(0xFFu8), Just(0x80u8), Just(0x7Fu8), Just(1u8)];
					let bytes = prop_oneof![
						3 => proptest::collection::vec(any::<u8>(), size),
						1 => proptest::collection::vec(edge, size),
					];
					let near = |size: usize| prop_oneof![2 => Just(size), 3 => size.saturating_sub(3)..size + 4, 2 => 0..=2 * size + 2];
					let other = near(size).prop_flat_map(|n| proptest::collection::vec(any::<u8>(), n));
					(Just(ty.to_string()), bytes, other, near(size), any::<u8>())
				})
				.prop_map(|(ty, bytes, other, room, fill)| ValueCase { ty, bytes, other, room, fill })
				.boxed()
		},
		check_c20,
	);
	// Every wrong size around the right one, for every type.
	ctx.enumerate(
		"all_sizes",
		|shard| {
			let mut out = Vec::new();
			for (ty, size) in TYPES {
				for n in 0..=2 * size + 3 {
					out.push(ValueCase {
						ty: ty.to_string(),
						bytes: (0..*size).map(|i| (i as u8).wrapping_mul(37).wrapping_add(200)).collect(),
						other: (0..n).map(|i| (i as u8).wrapping_mul(91)).collect(),
						room: n,
						fill: 0xA5,
					});
				}
			}
			out.into_iter().skip(shard).step_by(SHARDS)
		},
		check_c20,
	);
	let n = ctx.n(8_000, 200_000);
	ctx.pbt(
		"failing_elements",
		n,
		|| {
			proptest::sample::select(vec![0u8, 1, 2, 3, 4, 9])
				.prop_flat_map(|len| {
					let right = 2 * usize::from(len);
					let byte = prop_oneof![6 => any::<u8>(), 1 => Just(REFUSED), 1 => Just(TOO_LARGE)];
					let n = prop_oneof![5 => Just(right), 1 => 0..=right + 3];
					(Just(len), n.prop_flat_map(move |n| proptest::collection::vec(byte.clone(), n)))
				})
				.prop_map(|(len, bytes)| PickyCase { len, bytes })
				.boxed()
		},
		check_picky,
	);
	let n = ctx.n(40, 400);
	ctx.pbt(
		"large_arrays",
		n,
		|| {
			(
				proptest::sample::select(vec!["u8", "u16", "i128", "[u8; 255]", "Pair"]),
				proptest::collection::vec(any::<u8>(), 1..70),
				0usize..5,
				any::<u8>(),
			)
				.prop_map(|(ty, bytes, room, fill)| ValueCase {
					ty: ty.into(),
					bytes,
					other: vec![],
					room,
					fill,
				})
				.boxed()
		},
		check_large,
	);
}

// C21

#[derive(Default)]
struct Ledger {
	/// The bytes of each element ever created, by ID.
	created: Vec<u8>,
	/// How often each was dropped, by ID.
	dropped: Vec<u32>,
	/// Something dropped an element that does not exist.
	unknown: u32,
	fail: Fail,
	calls: usize,
}

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fail {
	#[default]
	Never,
	/// Decoding the element with this index fails.
	Error(u16),
	/// Decoding the element with this index panics.
	Panic(u16),
}

thread_local! {
	static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

/// An element that keeps track of its own life.
#[derive(Debug)]
struct Tracked<const SIZE: u16> {
	id: usize,
	/// To recognize garbage.
	check: usize,
}

const CHECK: usize = 0x5EED_1234_5678_9ABC;

/// Decide whether the next element can be made.
fn next_element() -> Result<(), InvalidMessage> {
	let (n, fail) = LEDGER.with_borrow_mut(|x| {
		x.calls += 1;
		(x.calls - 1, x.fail)
	});
	match fail {
		Fail::Error(i) if usize::from(i) == n => Err(InvalidMessage::InvalidParameterCount(dynamixel2::InvalidParameterCount {
			actual: 1234,
			expected: ExpectedCount::Max(n),
		})),
		Fail::Panic(i) if usize::from(i) == n => std::panic::panic_any(InjectedPanic),
		_ => Ok(()),
	}
}

struct InjectedPanic;

impl<const SIZE: u16> Data for Tracked<SIZE> {
	const ENCODED_SIZE: u16 = SIZE;
	fn encode(&self, _buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		next_element()?;
		let id = LEDGER.with_borrow_mut(|x| {
			x.created.push(buffer.first().copied().unwrap_or(0));
			x.dropped.push(0);
			x.created.len() - 1
		});
		Ok(Self { id, check: id ^ CHECK })
	}
}

impl<const SIZE: u16> Drop for Tracked<SIZE> {
	fn drop(&mut self) {
		LEDGER.with_borrow_mut(|x| match x.dropped.get_mut(self.id) {
			Some(n) if self.check == self.id ^ CHECK => *n += 1,
			_ => x.unknown += 1,
		});
	}
}

/// A zero sized element can only be counted.
#[derive(Debug)]
struct Zero;

impl Data for Zero {
	const ENCODED_SIZE: u16 = 1;
	fn encode(&self, _buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		next_element()?;
		LEDGER.with_borrow_mut(|x| x.created.push(buffer[0]));
		Ok(Zero)
	}
}

impl Drop for Zero {
	fn drop(&mut self) {
		// Assign the drops to elements in order: only the total matters.
		LEDGER.with_borrow_mut(|x| x.dropped.push(1));
	}
}

trait Leaves {
	/// Bytes per element.
	const SIZE: usize;
	/// Number of elements.
	const COUNT: usize;
	const ZERO: bool;
	fn ids(&self, out: &mut Vec<usize>);
}

impl<const SIZE: u16> Leaves for Tracked<SIZE> {
	const SIZE: usize = SIZE as usize;
	const COUNT: usize = 1;
	const ZERO: bool = false;
	fn ids(&self, out: &mut Vec<usize>) {
		out.push(if self.check == self.id ^ CHECK { self.id } else { usize::MAX });
	}
}

impl Leaves for Zero {
	const SIZE: usize = 1;
	const COUNT: usize = 1;
	const ZERO: bool = true;
	fn ids(&self, out: &mut Vec<usize>) {
		out.push(out.len());
	}
}

impl<T: Leaves, const N: usize> Leaves for [T; N] {
	const SIZE: usize = T::SIZE;
	const COUNT: usize = T::COUNT * N;
	const ZERO: bool = T::ZERO;
	fn ids(&self, out: &mut Vec<usize>) {
		for x in self {
			x.ids(out);
		}
	}
}

/// How to get the array.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Path {
	Decode,
	Read,
	SyncRead,
	/// Throw the result of a sync read away by dropping the operation.
	DropSyncRead,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LedgerCase {
	shape: String,
	path: Path,
	fail: Fail,
	seed: u8,
	/// Take the array apart element by element instead of dropping it as a whole.
	take_apart: bool,
}

/// Elements that are gone must have been dropped once, and those in `alive` not at all.
fn check_ledger(alive: &[usize], zero: Option<usize>, what: &str) -> Result<(), String> {
	LEDGER.with_borrow(|x| {
		ensure!(x.unknown == 0, "{what}: something was dropped that was never an element");
		match zero {
			Some(alive) => ensure!(
				x.dropped.len() + alive == x.created.len(),
				"{what}: {} elements were decoded, {} are in use, but {} were dropped",
				x.created.len(),
				alive,
				x.dropped.len()
			),
			None => {
				let mut used = vec![false; x.dropped.len()];
				for id in alive {
					ensure!(used.get(*id) == Some(&false), "{what}: the array contains element {id}, which does not exist or is used twice");
					used[*id] = true;
				}
				for (id, n) in x.dropped.iter().enumerate() {
					let want = u32::from(!used[id]);
					ensure!(*n == want, "{what}: element {id} was dropped {n} times instead of {want}");
				}
			},
		}
		Ok(())
	})
}

fn run_ledger<T: Data + Leaves>(case: &LedgerCase, tags: &mut Tags) -> Result<(), String> {
	LEDGER.with_borrow_mut(|x| {
		*x = Ledger {
			fail: case.fail,
			..Default::default()
		}
	});
	let bytes: Vec<u8> = (0..T::COUNT * T::SIZE).map(|i| (i as u8).wrapping_mul(7).wrapping_add(case.seed)).collect();
	let reply = refm::status(1, 0, &bytes);
	let zero = |n: usize| T::ZERO.then_some(n);
	let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Option<T>, ()> {
		let port = SimPort::new(BAUD);
		answer(&port, vec![reply]);
		let mut client = client(&port, 2048, 128);
		match case.path {
			Path::Decode => T::decode(&bytes).map(Some).map_err(|_| ()),
			Path::Read => client.read::<T>(1, 0).map(|x| Some(x.data)).map_err(|_| ()),
			Path::SyncRead => {
				let mut op = client.sync_read::<T>(&[1], 0).map_err(|_| ())?;
				op.next().unwrap().map(|x| Some(x.data)).map_err(|_| ())
			},
			Path::DropSyncRead => {
				drop(client.sync_read::<T>(&[1], 0).map_err(|_| ())?);
				Ok(None)
			},
		}
	}));
	let fails = match case.fail {
		Fail::Never => None,
		Fail::Error(i) | Fail::Panic(i) => (usize::from(i) < T::COUNT).then_some(usize::from(i)),
	};
	tags.nontrivial_if(T::COUNT > 0);
	match (result, fails) {
		(Ok(Ok(Some(value))), None) => {
			tags.tag("decoded");
			let ids = |value: &T| {
				let mut out = Vec::new();
				value.ids(&mut out);
				out
			};
			let alive = ids(&value);
			ensure_eq!(alive.len(), T::COUNT, "number of elements");
			let (created, calls) = LEDGER.with_borrow(|x| (x.created.clone(), x.calls));
			ensure_eq!(calls, T::COUNT, "number of elements decoded");
			if T::SIZE > 0 {
				let got: Vec<u8> = alive.iter().map(|id| created.get(*id).copied().unwrap_or(0)).collect();
				let want: Vec<u8> = bytes.iter().copied().step_by(T::SIZE).collect();
				ensure_eq!(got, want, "values of the elements");
			}
			check_ledger(&alive, zero(T::COUNT), "with the array in use")?;
			// Move it around.
			let moved = Box::new(value);
			ensure_eq!(ids(&moved), alive, "elements after moving the array");
			let again = vec![*moved];
			check_ledger(&alive, zero(T::COUNT), "after moving the array")?;
			ensure_eq!(ids(&again[0]), alive, "elements after moving the array twice");
			if case.take_apart {
				let value = again.into_iter().next();
				check_ledger(&alive, zero(T::COUNT), "before the end")?;
				drop(value);
			} else {
				drop(again);
			}
			check_ledger(&[], zero(0), "after dropping the array")
		},
		(Ok(Ok(Some(_))), Some(i)) => Err(format!("decoding element {i} failed, but an array was returned")),
		(Ok(Ok(None)), None) => {
			tags.tag("dropped");
			check_ledger(&[], zero(0), "after dropping the operation")
		},
		(Ok(Ok(None)), Some(i)) => {
			// Failures while draining are not reported, but panics are not swallowed.
			ensure!(!matches!(case.fail, Fail::Panic(_)) || LEDGER.with_borrow(|x| x.calls <= i), "a panic disappeared");
			tags.tag("dropped with failure");
			check_ledger(&[], zero(0), "after dropping the operation")
		},
		(Ok(Err(())), Some(i)) if matches!(case.fail, Fail::Error(_)) => {
			tags.tag("error");
			ensure_eq!(LEDGER.with_borrow(|x| x.created.len()), i, "number of elements decoded before the failure");
			check_ledger(&[], zero(0), "after decoding an element failed")
		},
		(Err(e), Some(i)) if matches!(case.fail, Fail::Panic(_)) => {
			if !e.is::<InjectedPanic>() {
				std::panic::resume_unwind(e);
			}
			tags.tag("panic");
			ensure_eq!(LEDGER.with_borrow(|x| x.created.len()), i, "number of elements decoded before the panic");
			check_ledger(&[], zero(0), "after decoding an element panicked")
		},
		(Err(e), _) => std::panic::resume_unwind(e),
		(Ok(Err(())), _) => Err("decoding failed".into()),
	}
}

macro_rules! shapes {
	($($name:literal => $t:ty;)*) => {
		const ALL_SHAPES: &[(&str, usize)] = &[$(($name, <$t as Leaves>::COUNT)),*];
		fn check_c21(case: &LedgerCase, tags: &mut Tags) -> Result<(), String> {
			match case.shape.as_str() {
				$($name => run_ledger::<$t>(case, tags),)*
				_ => Err("unknown shape".into()),
			}
		}
	}
}

shapes! {
	"[T; 0]" => [Tracked<2>; 0];
	"[T; 1]" => [Tracked<2>; 1];
	"[T; 2]" => [Tracked<1>; 2];
	"[T; 3]" => [Tracked<3>; 3];
	"[T; 7]" => [Tracked<2>; 7];
	"[T; 40]" => [Tracked<1>; 40];
	"[T0; 4]" => [Tracked<0>; 4];
	"[[T; 2]; 3]" => [[Tracked<2>; 2]; 3];
	"[[T; 3]; 2]" => [[Tracked<1>; 3]; 2];
	"[[T; 0]; 3]" => [[Tracked<1>; 0]; 3];
	"[[[T; 2]; 2]; 2]" => [[[Tracked<1>; 2]; 2]; 2];
	"[Z; 0]" => [Zero; 0];
	"[Z; 5]" => [Zero; 5];
	"[[Z; 2]; 3]" => [[Zero; 2]; 3];
	"[T; 130]" => [Tracked<2>; 130];
	"[T; 256]" => [Tracked<1>; 256];
	"[T; 300]" => [Tracked<3>; 300];
	"[T; 1100]" => [Tracked<1>; 1100];
	"[[T; 20]; 30]" => [[Tracked<2>; 20]; 30];
	"[[T; 300]; 2]" => [[Tracked<1>; 300]; 2];
	"[[T; 2]; 300]" => [[Tracked<1>; 2]; 300];
	"[Z; 700]" => [Zero; 700];
	"[[Z; 300]; 3]" => [[Zero; 300]; 3];
}

/// The shapes with or without those of many elements.
fn shapes(large: bool) -> Vec<(&'static str, usize)> {
	ALL_SHAPES.iter().filter(|x| (x.1 > 100) == large).copied().collect()
}

fn ledger(large: bool) -> BoxedStrategy<LedgerCase> {
	proptest::sample::select(shapes(large))
		.prop_flat_map(|(shape, count)| {
			let i = 0..=count as u16;
			(
				Just(shape.to_string()),
				proptest::sample::select(vec![Path::Decode, Path::Read, Path::SyncRead, Path::DropSyncRead]),
				prop_oneof![1 => Just(Fail::Never), 2 => i.clone().prop_map(Fail::Error), 2 => i.prop_map(Fail::Panic)],
				any::<u8>(),
				any::<bool>(),
			)
		})
		.prop_map(|(shape, path, fail, seed, take_apart)| LedgerCase {
			shape,
			path,
			fail,
			seed,
			take_apart,
		})
		.boxed()
}

pub fn c21(ctx: &mut Ctx) {
	ctx.scale = 160.0;
	ctx.rule = "the array has elements";
	ctx.assumptions.push("dropping an element does not panic".into());
	// All of it.
	ctx.enumerate(
		"ledger_enumerated",
		|shard| {
			let mut out = Vec::new();
			for (shape, count) in &shapes(false) {
				let mut fails = vec![Fail::Never];
				for i in 0..=*count {
					fails.push(Fail::Error(i as u16));
					fails.push(Fail::Panic(i as u16));
				}
				for fail in fails {
					for path in [Path::Decode, Path::Read, Path::SyncRead, Path::DropSyncRead] {
						for take_apart in [false, true] {
							out.push(LedgerCase {
								shape: shape.to_string(),
								path,
								fail,
								seed: 200,
								take_apart,
							});
						}
					}
				}
			}
			out.into_iter().skip(shard).step_by(SHARDS)
		},
		check_c21,
	);
	let n = ctx.n(8_000, 400_000);
	ctx.pbt("ledger", n, || ledger(false), check_c21);
	let n = ctx.n(60, 3_000);
	ctx.pbt("many_elements", n, || ledger(true), check_c21);
	// Arrays of wrong sizes must not leave anything behind either.
	let n = ctx.n(2_000, 50_000);
	ctx.pbt(
		"wrong_size",
		n,
		|| gen::data(0, 16).boxed(),
		|bytes, tags| {
			LEDGER.with_borrow_mut(|x| *x = Ledger::default());
			// Whether this is refused is not the question here (that is C20).
			let result = std::panic::catch_unwind(|| <[Tracked<2>; 4]>::decode(bytes));
			tags.nontrivial_if(bytes.len() != 8);
			drop(result);
			check_ledger(&[], None, "afterwards")
		},
	);
}
