//! Generators.

use crate::cmd::{Cmd, Kind, Ty, Via, ALL_TYPES, BIG_TYPES};
use crate::refm;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// Numbers that appear in the code under test, and their neighbours: a dictionary, as fuzzers call it.
///
/// They only make some inputs more likely. What is right or wrong does not depend on them.
pub fn dictionary() -> &'static [u32] {
	static DICTIONARY: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
	DICTIONARY.get_or_init(|| {
		let mut found = std::collections::BTreeSet::new();
		let mut todo = vec![std::path::PathBuf::from("/repo/src")];
		while let Some(path) = todo.pop() {
			if path.is_dir() {
				todo.extend(std::fs::read_dir(path).into_iter().flatten().flatten().map(|x| x.path()));
			} else if path.extension().is_some_and(|x| x == "rs") {
				let text = std::fs::read_to_string(path).unwrap_or_default();
				// Whatever follows is not part of the library.
				let text = text.split("#[cfg(test)]").next().unwrap();
				for line in text.lines().filter(|x| !x.trim_start().starts_with("//")) {
					let numbers: Vec<u32> = line
						.split(|x: char| !x.is_ascii_alphanumeric() && x != '_')
						.filter_map(|word| {
							let word = word.replace('_', "");
							let word = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize"]
								.iter()
								.find_map(|x| word.strip_suffix(x))
								.unwrap_or(&word);
							match word.strip_prefix("0x") {
								Some(hex) => u32::from_str_radix(hex, 16).ok(),
								None => word.parse().ok(),
							}
						})
						.collect();
					// More than a few are a table.
					if numbers.len() <= 6 {
						found.extend(numbers);
					}
				}
			}
		}
		let near: Vec<u32> = found.iter().filter(|&&x| x > 4).flat_map(|x| [x - 1, x.saturating_add(1)]).collect();
		found.extend(near);
		found.into_iter().collect()
	})
}

/// A number from the dictionary that is at most `max`.
pub fn magic(max: u32) -> BoxedStrategy<u32> {
	let len = dictionary().partition_point(|&x| x <= max);
	any::<u16>().prop_map(move |i| if len == 0 { max.min(u32::from(i)) } else { dictionary()[usize::from(i) % len] }).boxed()
}

/// A byte from the dictionary.
pub fn magic_byte() -> BoxedStrategy<u8> {
	magic(255).prop_map(|x| x as u8).boxed()
}

/// A number of bytes to read.
pub fn count(max: u16) -> BoxedStrategy<u16> {
	prop_oneof![7 => 0..=max, 1 => magic(max.into()).prop_map(|x| x as u16)].boxed()
}

pub fn chance(percent: u32) -> BoxedStrategy<bool> {
	prop_oneof![percent => Just(true), (100 - percent) => Just(false)].boxed()
}

/// A motor ID that a motor can have.
pub fn motor_id() -> BoxedStrategy<u8> {
	prop_oneof![4 => 1u8..=5, 1 => Just(0u8), 1 => Just(252u8), 2 => Just(253u8), 4 => 0u8..=253, 1 => magic(253).prop_map(|x| x as u8)].boxed()
}

/// Any packet ID.
pub fn any_id() -> BoxedStrategy<u8> {
	prop_oneof![4 => motor_id(), 2 => Just(254u8), 1 => Just(255u8), 2 => any::<u8>(), 1 => magic_byte()].boxed()
}

/// A motor ID or the broadcast ID.
pub fn motor_or_broadcast() -> BoxedStrategy<u8> {
	prop_oneof![6 => motor_id(), 1 => Just(254u8)].boxed()
}

/// Bytes that matter to the framing are much more likely than others.
pub fn nasty_byte() -> BoxedStrategy<u8> {
	prop_oneof![
		8 => Just(0xFFu8),
		6 => Just(0xFDu8),
		3 => Just(0x00u8),
		1 => Just(0xFEu8),
		1 => Just(0x55u8),
		1 => Just(0x01u8),
		1 => Just(0x80u8),
		4 => any::<u8>(),
		1 => magic_byte(),
	]
	.boxed()
}

/// A piece of data containing (parts of) patterns that matter to the framing.
pub fn fragment() -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		Just(vec![0xFF, 0xFF, 0xFD]),
		Just(vec![0xFF, 0xFF, 0xFD, 0x00]),
		Just(vec![0xFF, 0xFF, 0xFD, 0xFD]),
		Just(vec![0xFF, 0xFF, 0xFF, 0xFD]),
		Just(vec![0xFF, 0xFF]),
		Just(vec![0xFF]),
		Just(vec![0xFD]),
		Just(vec![0x00]),
		proptest::collection::vec(any::<u8>(), 1..4),
		(magic(u32::MAX), 1usize..=4).prop_map(|(x, n)| x.to_le_bytes()[..n].to_vec()),
	]
	.boxed()
}

/// Arbitrary data of a length in the given range (inclusive).
pub fn data(min: usize, max: usize) -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		3 => proptest::collection::vec(nasty_byte(), min..=max),
		2 => proptest::collection::vec(any::<u8>(), min..=max),
		2 => proptest::collection::vec(prop_oneof![Just(0xFFu8), Just(0xFDu8)], min..=max),
		3 => (proptest::collection::vec(fragment(), 0..=(max / 2 + 1)), min..=max, any::<u8>()).prop_map(move |(parts, len, fill)| {
			let mut out: Vec<u8> = parts.concat();
			out.truncate(max);
			if out.len() < min {
				out.resize(len, fill);
			}
			out
		}),
	]
	.boxed()
}

/// A lot of data: a pattern that is repeated, with a few exceptions. Cheap to generate and shrink.
pub fn big(min: usize, max: usize) -> BoxedStrategy<Vec<u8>> {
	let pattern = prop_oneof![
		3 => proptest::collection::vec(fragment(), 1..4).prop_map(|x| x.concat()),
		1 => proptest::collection::vec(any::<u8>(), 1..9),
		1 => Just((0..=250u8).collect::<Vec<u8>>()),
	];
	(pattern, min..=max, proptest::collection::vec((any::<u32>(), nasty_byte()), 0..4))
		.prop_map(|(pattern, len, pokes)| {
			let mut out: Vec<u8> = pattern.into_iter().cycle().take(len).collect();
			for (at, byte) in pokes {
				if !out.is_empty() {
					let at = at as usize % out.len();
					out[at] = byte;
				}
			}
			out
		})
		.boxed()
}

/// A length around sizes at which a counter could wrap, or anything else.
pub fn big_len(max: usize) -> BoxedStrategy<usize> {
	prop_oneof![
		4 => 0..=max,
		2 => (proptest::sample::select(vec![127usize, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 4095, 32767, 32768]), -12isize..=12).prop_map(move |(x, d)| (x as isize + d).clamp(0, max as isize) as usize),
		1 => 0..=max.min(600),
		1 => (magic(max as u32), -12isize..=12).prop_map(move |(x, d)| (x as isize + d).clamp(0, max as isize) as usize),
	]
	.boxed()
}

/// Data with exactly the given length.
pub fn data_exact(len: usize) -> BoxedStrategy<Vec<u8>> {
	data(len, len)
}

/// Data that is usually short, but sometimes quite long.
pub fn data_sized(max: usize) -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		6 => data(0, max.min(12)),
		3 => data(0, max.min(80)),
		1 => data(0, max),
		1 => magic(max as u32).prop_flat_map(|x| if x > 200 { big(x as usize, x as usize) } else { data(x as usize, x as usize) }),
	]
	.boxed()
}

pub fn addr() -> BoxedStrategy<u16> {
	prop_oneof![
		4 => any::<u16>(),
		3 => 0u16..200,
		1 => Just(0xFFFFu16),
		1 => Just(0xFDFFu16),
		1 => Just(0xFFFDu16),
		1 => Just(0x00FFu16),
		1 => magic(0xFFFF).prop_map(|x| x as u16),
	]
	.boxed()
}

pub fn ty() -> BoxedStrategy<Ty> {
	proptest::sample::select(ALL_TYPES.to_vec()).boxed()
}

pub fn via() -> BoxedStrategy<Via> {
	proptest::sample::select(vec![Via::Next, Via::Iter, Via::Borrow, Via::BorrowCtor]).boxed()
}

pub fn kind() -> BoxedStrategy<Kind> {
	proptest::sample::select(vec![Kind::ResetAll, Kind::KeepId, Kind::KeepIdAndBaudRate]).boxed()
}

/// A list of distinct motor IDs.
pub fn id_list(max: usize) -> BoxedStrategy<Vec<u8>> {
	proptest::collection::vec(motor_id(), 0..=max)
		.prop_map(|ids| {
			let mut out = Vec::new();
			for id in ids {
				if !out.contains(&id) {
					out.push(id);
				}
			}
			out
		})
		.boxed()
}

/// A list of distinct motor IDs, sometimes with (almost) all of them if that many are allowed.
pub fn ids(max: usize) -> BoxedStrategy<Vec<u8>> {
	if max < 100 {
		return id_list(max);
	}
	let all = (Just((0..=253u8).collect::<Vec<u8>>()).prop_shuffle(), 0usize..4).prop_map(|(mut x, less)| {
		x.truncate(254 - less);
		x
	});
	prop_oneof![2 => id_list(max), 1 => all].boxed()
}

/// A list of motor IDs for a sync read, which may contain the same motor multiple times.
pub fn sync_ids(max: usize) -> BoxedStrategy<Vec<u8>> {
	let twice = (ids(max), proptest::collection::vec((any::<u16>(), any::<u16>()), 1..4), if max < 100 { Just(0).boxed() } else { (0usize..80).boxed() }).prop_map(
		|(mut ids, copies, more)| {
			for (from, to) in copies {
				if !ids.is_empty() {
					let id = ids[usize::from(from) % ids.len()];
					ids.insert(usize::from(to) % (ids.len() + 1), id);
				}
			}
			let again: Vec<u8> = ids.iter().take(more).copied().collect();
			ids.extend(again);
			ids
		},
	);
	prop_oneof![7 => ids(max), 1 => twice].boxed()
}

/// Parameters for the command generator.
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
	/// Maximum amount of data in a single write.
	pub data: usize,
	/// Maximum number of bytes to read.
	pub count: u16,
	/// Maximum number of motors in sync and bulk commands.
	pub motors: usize,
	/// Allow broadcast IDs for commands that allow it.
	pub broadcast: bool,
	/// Allow packet IDs and parameters that no real motor would use.
	pub raw: bool,
}

pub const CFG: Cfg = Cfg {
	data: 40,
	count: 60,
	motors: 6,
	broadcast: true,
	raw: true,
};

/// Register types that take more than 255 bytes.
pub fn big_ty() -> BoxedStrategy<Ty> {
	proptest::sample::select(BIG_TYPES.to_vec()).boxed()
}

fn typed() -> BoxedStrategy<(Ty, Vec<u8>)> {
	ty().prop_flat_map(|ty| (Just(ty), data_exact(ty.size()))).boxed()
}

/// Commands with a single reply (or none if the ID is the broadcast ID).
pub fn single(cfg: Cfg) -> BoxedStrategy<Cmd> {
	let id = if cfg.broadcast { motor_or_broadcast() } else { motor_id() };
	let mid = motor_id();
	prop_oneof![
		1 => mid.clone().prop_map(|id| Cmd::Ping { id }),
		2 => (mid.clone(), addr(), ty()).prop_map(|(id, addr, ty)| Cmd::Read { id, addr, ty }),
		2 => (mid.clone(), addr(), count(cfg.count)).prop_map(|(id, addr, count)| Cmd::ReadBytes { id, addr, count }),
		2 => (id.clone(), addr(), typed()).prop_map(|(id, addr, (ty, val))| Cmd::Write { id, addr, ty, val }),
		2 => (id.clone(), addr(), data_sized(cfg.data)).prop_map(|(id, addr, data)| Cmd::WriteBytes { id, addr, data }),
		2 => (id.clone(), addr(), typed()).prop_map(|(id, addr, (ty, val))| Cmd::RegWrite { id, addr, ty, val }),
		2 => (id.clone(), addr(), data_sized(cfg.data)).prop_map(|(id, addr, data)| Cmd::RegWriteBytes { id, addr, data }),
		1 => id.clone().prop_map(|id| Cmd::Action { id }),
		1 => (id.clone(), kind()).prop_map(|(id, kind)| Cmd::FactoryReset { id, kind }),
		1 => id.clone().prop_map(|id| Cmd::Reboot { id }),
		1 => id.clone().prop_map(|id| Cmd::ClearRevolution { id }),
		1 => id.prop_map(|id| Cmd::ClearError { id }),
		2 => (mid, any::<u8>(), data_sized(cfg.data), count(cfg.count))
			.prop_map(move |(id, instruction, params, expect)| if cfg.raw { Cmd::Raw { id, instruction, params, expect } } else { Cmd::Ping { id } }),
	]
	.boxed()
}

/// Commands that never get a reply.
pub fn silent(cfg: Cfg) -> BoxedStrategy<Cmd> {
	prop_oneof![
		1 => Just(Cmd::BroadcastAction),
		1 => kind().prop_map(|kind| Cmd::BroadcastFactoryReset { kind }),
		1 => Just(Cmd::BroadcastReboot),
		1 => Just(Cmd::BroadcastClearRevolution),
		1 => Just(Cmd::BroadcastClearError),
		3 => (addr(), ty(), ids(cfg.motors)).prop_flat_map(|(addr, ty, ids)| {
			let n = ids.len();
			(Just((addr, ty, ids)), proptest::collection::vec(data_exact(ty.size()), n))
		}).prop_map(|((addr, ty, ids), data)| Cmd::SyncWrite { addr, ty, writes: ids.into_iter().zip(data).collect() }),
		3 => (addr(), 0..=cfg.data.min(60), ids(cfg.motors)).prop_flat_map(|(addr, count, ids)| {
			let n = ids.len();
			(Just((addr, count, ids)), proptest::collection::vec(data_exact(count), n))
		}).prop_map(|((addr, count, ids), data)| Cmd::SyncWriteBytes { addr, count: count as u16, writes: ids.into_iter().zip(data).collect() }),
		3 => ids(cfg.motors).prop_flat_map(move |ids| {
			let n = ids.len();
			(Just(ids), proptest::collection::vec((addr(), data_sized(cfg.data)), n))
		}).prop_map(|(ids, data)| Cmd::BulkWrite { writes: ids.into_iter().zip(data).map(|(id, (addr, data))| (id, addr, data)).collect() }),
		3 => (any_id(), any::<u8>(), data_sized(cfg.data))
			.prop_map(move |(id, instruction, params)| if cfg.raw { Cmd::RawWrite { id, instruction, params } } else { Cmd::BroadcastAction }),
	]
	.boxed()
}

/// Sync and bulk reads.
pub fn multi(cfg: Cfg) -> BoxedStrategy<Cmd> {
	prop_oneof![
		2 => (sync_ids(cfg.motors), addr(), ty(), proptest::sample::select(vec![Via::Next, Via::Iter])).prop_map(|(ids, addr, ty, via)| Cmd::SyncRead { ids, addr, ty, via }),
		2 => (sync_ids(cfg.motors), addr(), count(cfg.count), via()).prop_map(|(ids, addr, count, via)| Cmd::SyncReadBytes { ids, addr, count, via }),
		2 => ids(cfg.motors).prop_flat_map(move |ids| {
			let n = ids.len();
			(Just(ids), proptest::collection::vec((addr(), count(cfg.count)), n), via())
		}).prop_map(|(ids, data, via)| Cmd::BulkRead { reads: ids.into_iter().zip(data).map(|(id, (addr, count))| (id, addr, count)).collect(), via }),
	]
	.boxed()
}

/// Any command.
pub fn cmd(cfg: Cfg) -> BoxedStrategy<Cmd> {
	prop_oneof![
		12 => single(cfg),
		5 => silent(cfg),
		4 => multi(cfg),
		1 => Just(Cmd::Scan),
	]
	.boxed()
}

/// The error byte of a status packet: mostly fine.
pub fn error_byte() -> BoxedStrategy<u8> {
	prop_oneof![6 => Just(0u8), 2 => Just(0x80u8), 1 => 1u8..8, 1 => 0x81u8..0x88, 1 => any::<u8>(), 1 => magic_byte()].boxed()
}

/// The error byte of a status packet that is no error.
pub fn ok_byte() -> BoxedStrategy<u8> {
	prop_oneof![3 => Just(0u8), 1 => Just(0x80u8)].boxed()
}

/// A piece of a nasty input stream.
#[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Piece {
	/// Arbitrary bytes.
	Bytes(Vec<u8>),
	/// An intact frame.
	Frame { id: u8, instruction: u8, params: Vec<u8> },
	/// A frame of which one byte is modified.
	Mutated { id: u8, instruction: u8, params: Vec<u8>, at: u16, xor: u8 },
	/// An intact frame without its tail.
	Truncated { id: u8, instruction: u8, params: Vec<u8>, keep: u16 },
	/// A header with an arbitrary length field, followed by arbitrary bytes.
	Header { id: u8, len: u16, rest: Vec<u8> },
	/// A frame with a correct CRC but a body that is not properly stuffed, and a length field of the real size.
	Unstuffed { id: u8, body: Vec<u8> },
	/// A frame with a (too) short length field, with the CRC where the length says it should be.
	Short { id: u8, len: u8, xor: u16 },
}

impl Piece {
	pub fn bytes(&self) -> Vec<u8> {
		match self {
			Piece::Bytes(x) => x.clone(),
			Piece::Frame { id, instruction, params } => refm::frame(*id, *instruction, params),
			Piece::Mutated {
				id,
				instruction,
				params,
				at,
				xor,
			} => {
				let mut f = refm::frame(*id, *instruction, params);
				let i = usize::from(*at) % f.len();
				f[i] ^= xor;
				f
			},
			Piece::Truncated {
				id,
				instruction,
				params,
				keep,
			} => {
				let mut f = refm::frame(*id, *instruction, params);
				f.truncate(usize::from(*keep) % f.len());
				f
			},
			Piece::Header { id, len, rest } => {
				let mut f = vec![0xFF, 0xFF, 0xFD, 0x00, *id, (len % 256) as u8, (len / 256) as u8];
				f.extend_from_slice(rest);
				f
			},
			Piece::Unstuffed { id, body } => refm::frame_raw(*id, body.len() as u16 + 2, body),
			Piece::Short { id, len, xor } => {
				let mut f = refm::frame_raw(*id, u16::from(*len), &[]);
				// With a length of 0 or 1, part of the CRC would overlap the header: just append it.
				let n = f.len();
				f[n - 1] ^= (xor >> 8) as u8;
				f[n - 2] ^= (xor & 0xFF) as u8;
				f
			},
		}
	}

	pub fn has_header(&self) -> bool {
		refm::find_prefix(&self.bytes()).is_some()
	}
}

/// A nasty piece, with packets mostly being status packets if `status` is set.
pub fn piece(status: bool, max: usize) -> BoxedStrategy<Piece> {
	let instruction = if status {
		prop_oneof![6 => Just(0x55u8), 1 => any::<u8>()].boxed()
	} else {
		prop_oneof![
			4 => proptest::sample::select(vec![0x01u8, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93]),
			2 => Just(0x55u8),
			1 => any::<u8>()
		]
		.boxed()
	};
	let params = || {
		if status {
			prop_oneof![3 => (error_byte(), data(0, max)).prop_map(|(e, mut x)| { x.insert(0, e); x }), 1 => data(0, max)].boxed()
		} else {
			data(0, max)
		}
	};
	prop_oneof![
		3 => data(0, 12).prop_map(Piece::Bytes),
		3 => (motor_or_broadcast(), instruction.clone(), params()).prop_map(|(id, instruction, params)| Piece::Frame { id, instruction, params }),
		2 => (motor_or_broadcast(), instruction.clone(), params(), any::<u16>(), 1u8..=255)
			.prop_map(|(id, instruction, params, at, xor)| Piece::Mutated { id, instruction, params, at, xor }),
		2 => (motor_or_broadcast(), instruction, params(), any::<u16>())
			.prop_map(|(id, instruction, params, keep)| Piece::Truncated { id, instruction, params, keep }),
		1 => (any_id(), prop_oneof![0u16..16, 0u16..400, any::<u16>()], data(0, 20)).prop_map(|(id, len, rest)| Piece::Header { id, len, rest }),
		1 => (any_id(), data(0, 20)).prop_map(|(id, body)| Piece::Unstuffed { id, body }),
		1 => (any_id(), 0u8..6, prop_oneof![3 => Just(0u16), 1 => any::<u16>()]).prop_map(|(id, len, xor)| Piece::Short { id, len, xor }),
	]
	.boxed()
}

/// Where to cut a stream, as fractions of 65536.
pub fn cuts() -> BoxedStrategy<Vec<u16>> {
	prop_oneof![
		1 => Just(vec![]),
		4 => proptest::collection::vec(any::<u16>(), 1..6),
		1 => proptest::collection::vec(any::<u16>(), 6..40),
	]
	.boxed()
}

/// Split a stream at the given relative positions.
pub fn split(stream: &[u8], cuts: &[u16]) -> Vec<Vec<u8>> {
	let mut at: Vec<usize> = cuts.iter().map(|c| usize::from(*c) * (stream.len() + 1) / 65536).collect();
	at.push(stream.len());
	at.sort_unstable();
	let mut out = Vec::new();
	let mut start = 0;
	for end in at {
		if end > start {
			out.push(stream[start..end].to_vec());
			start = end;
		}
	}
	out
}
