//! Independent reference model of the Dynamixel Protocol 2.0 wire format.
//!
//! Written from the protocol description, deliberately in the most naive way,
//! and sharing no code with the crate under test.

/// Bitwise CRC-16 (polynomial 0x8005, MSB first, no reflection, no final xor).
pub fn crc(initial: u16, data: &[u8]) -> u16 {
	let mut crc = initial;
	for &byte in data {
		crc ^= u16::from(byte) << 8;
		for _ in 0..8 {
			crc = if crc & 0x8000 != 0 { (crc << 1) ^ 0x8005 } else { crc << 1 };
		}
	}
	crc
}

/// Insert the byte `0xFD` after every occurrence of `FF FF FD`.
pub fn stuff(body: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(body.len() + body.len() / 3);
	for i in 0..body.len() {
		out.push(body[i]);
		if i >= 2 && body[i - 2] == 0xFF && body[i - 1] == 0xFF && body[i] == 0xFD {
			out.push(0xFD);
		}
	}
	out
}

/// Remove the byte following every `FF FF FD` (which must be `FD` in a properly stuffed body).
///
/// Returns `None` if the body is not properly stuffed.
pub fn unstuff(body: &[u8]) -> Option<Vec<u8>> {
	let mut out: Vec<u8> = Vec::with_capacity(body.len());
	let mut i = 0;
	while i < body.len() {
		out.push(body[i]);
		if out.ends_with(&[0xFF, 0xFF, 0xFD]) {
			if body.get(i + 1) != Some(&0xFD) {
				return None;
			}
			i += 1;
		}
		i += 1;
	}
	Some(out)
}

/// The number of bytes of a frame for this instruction and these parameters (after stuffing).
pub fn frame_len(instruction: u8, params: &[u8]) -> usize {
	let mut body = vec![instruction];
	body.extend_from_slice(params);
	7 + stuff(&body).len() + 2
}

/// Encode a frame from an unstuffed body.
pub fn frame_body(id: u8, body: &[u8]) -> Vec<u8> {
	let stuffed = stuff(body);
	let len = stuffed.len() + 2;
	assert!(len <= 0xFFFF, "reference frame too long");
	frame_raw(id, len as u16, &stuffed)
}

/// Encode a frame with the given length field and (already stuffed) body, and a correct CRC.
pub fn frame_raw(id: u8, len: u16, stuffed_body: &[u8]) -> Vec<u8> {
	let mut out = vec![0xFF, 0xFF, 0xFD, 0x00, id, (len % 256) as u8, (len / 256) as u8];
	out.extend_from_slice(stuffed_body);
	let c = crc(0, &out);
	out.push((c % 256) as u8);
	out.push((c / 256) as u8);
	out
}

pub fn frame(id: u8, instruction: u8, params: &[u8]) -> Vec<u8> {
	let mut body = vec![instruction];
	body.extend_from_slice(params);
	frame_body(id, &body)
}

pub fn status(id: u8, error: u8, params: &[u8]) -> Vec<u8> {
	let mut p = vec![error];
	p.extend_from_slice(params);
	frame(id, 0x55, &p)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RefPacket {
	pub id: u8,
	pub instruction: u8,
	pub params: Vec<u8>,
}

/// Decode a byte string that must be exactly one well-formed frame.
pub fn parse_frame(bytes: &[u8]) -> Result<RefPacket, String> {
	if bytes.len() < 10 {
		return Err(format!("frame too short: {} bytes", bytes.len()));
	}
	if bytes[..4] != [0xFF, 0xFF, 0xFD, 0x00] {
		return Err("frame does not start with the header prefix".into());
	}
	let len = usize::from(bytes[5]) + 256 * usize::from(bytes[6]);
	if len + 7 != bytes.len() {
		return Err(format!("length field {} does not match frame size {}", len, bytes.len()));
	}
	let c = crc(0, &bytes[..bytes.len() - 2]);
	let got = u16::from(bytes[bytes.len() - 2]) + 256 * u16::from(bytes[bytes.len() - 1]);
	if c != got {
		return Err(format!("crc {got:04X} does not match computed {c:04X}"));
	}
	let body = unstuff(&bytes[7..bytes.len() - 2]).ok_or("body is not properly stuffed")?;
	Ok(RefPacket {
		id: bytes[4],
		instruction: body[0],
		params: body[1..].to_vec(),
	})
}

/// All well-formed status frames found at any offset of a byte stream.
pub fn valid_status_frames(stream: &[u8]) -> Vec<RefPacket> {
	let mut out = Vec::new();
	for i in 0..stream.len().saturating_sub(10) {
		if stream[i..].starts_with(&[0xFF, 0xFF, 0xFD, 0x00]) {
			let len = usize::from(stream[i + 5]) + 256 * usize::from(stream[i + 6]);
			if let Some(f) = stream.get(i..i + 7 + len) {
				// Only the CRC and framing matter here, so accept improper stuffing as well.
				if len < 4 {
					continue;
				}
				let c = crc(0, &f[..f.len() - 2]);
				let got = u16::from(f[f.len() - 2]) + 256 * u16::from(f[f.len() - 1]);
				if c == got && f[7] == 0x55 {
					let body = lenient_unstuff(&f[7..f.len() - 2]);
					if body.len() >= 2 {
						out.push(RefPacket {
							id: f[4],
							instruction: body[0],
							params: body[1..].to_vec(),
						});
					}
				}
			}
		}
	}
	out
}

/// Remove the `FD` following every `FF FF FD`, leaving improperly stuffed sequences alone.
pub fn lenient_unstuff(body: &[u8]) -> Vec<u8> {
	let mut out: Vec<u8> = Vec::new();
	let mut last3 = [0u8; 3];
	let mut skip_ok = false;
	for &b in body {
		if skip_ok && b == 0xFD {
			skip_ok = false;
			last3 = [0; 3];
			continue;
		}
		out.push(b);
		last3 = [last3[1], last3[2], b];
		skip_ok = last3 == [0xFF, 0xFF, 0xFD];
	}
	out
}

/// Offset of the first complete header prefix in a stream.
pub fn find_prefix(stream: &[u8]) -> Option<usize> {
	(0..stream.len()).find(|&i| stream[i..].starts_with(&[0xFF, 0xFF, 0xFD, 0x00]))
}

pub mod ins {
	pub const PING: u8 = 0x01;
	pub const READ: u8 = 0x02;
	pub const WRITE: u8 = 0x03;
	pub const REG_WRITE: u8 = 0x04;
	pub const ACTION: u8 = 0x05;
	pub const FACTORY_RESET: u8 = 0x06;
	pub const REBOOT: u8 = 0x08;
	pub const CLEAR: u8 = 0x10;
	pub const STATUS: u8 = 0x55;
	pub const SYNC_READ: u8 = 0x82;
	pub const SYNC_WRITE: u8 = 0x83;
	pub const BULK_READ: u8 = 0x92;
	pub const BULK_WRITE: u8 = 0x93;
}
pub const BROADCAST: u8 = 0xFE;

/// Exact time to transfer `bytes` bytes of 10 bits at `baud`, in nanoseconds, rounded up.
pub fn transfer_ns(bytes: u64, baud: u32) -> u128 {
	(u128::from(bytes) * 10 * 1_000_000_000).div_ceil(u128::from(baud))
}

/// Protocol-level time budget for one reply with `params` parameters: the transfer time plus 34 ms.
pub fn reply_budget_ns(params: u64, baud: u32) -> u128 {
	// header (4) + id (1) + length (2) + instruction (1) + error (1) + params + crc (2)
	transfer_ns(11 + params, baud) + 34_000_000
}
