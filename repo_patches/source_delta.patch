From 3415261f56eda432e045c3ce5f2adca9e346f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 01/16] fix: byte stuffing of patterns preceded by extra 0xFF
 bytes

---
 src/bus/bytestuff.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/bus/bytestuff.rs b/src/bus/bytestuff.rs
index 3033ff3..a9bd7f5 100644
--- a/src/bus/bytestuff.rs
+++ b/src/bus/bytestuff.rs
@@ -7,6 +7,24 @@ use crate::error::BufferTooSmallError;
 /// The unstuffed pattern is this with the last byte removed.
 pub const PATTERN: [u8; 4] = [0xFF, 0xFF, 0xFD, 0xFD];
 
+/// Given that the last `state` bytes match the start of [`PATTERN`], get the length of the match after adding another byte.
+///
+/// On a mismatch, the last bytes may still be a shorter match.
+fn next_state(state: usize, byte: u8) -> usize {
+	if byte == PATTERN[state] {
+		state + 1
+	} else if byte == 0xFF {
+		// After `[0xFF, 0xFF]`, another `0xFF` still leaves us with a match for `[0xFF, 0xFF]`.
+		if state == 2 {
+			2
+		} else {
+			1
+		}
+	} else {
+		0
+	}
+}
+
 /// Remove bit-stuffing in-place.
 ///
 /// All patterns of `[0xFF, 0xFF, 0xFD, 0xFD]` will be replaced with `[0xFF, 0xFF, 0xFD]`.
@@ -16,11 +34,7 @@ pub fn unstuff_inplace(data: &mut [u8]) -> usize {
 	let mut state = 0;
 
 	for i in 0..data.len() {
-		if data[i] == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = next_state(state, data[i]);
 		if state == 4 {
 			state = 0;
 			deleted += 1;
@@ -37,11 +51,7 @@ pub fn stuffing_required(data: &[u8]) -> usize {
 	let mut state = 0;
 	let mut count = 0;
 	for &byte in data {
-		if byte == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = next_state(state, byte);
 		if state == PATTERN.len() - 1 {
 			state = 0;
 			count += 1;
-- 
2.43.0


From 0ad10accd341c1d6d4e5f8336228eb0dd5bd2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 02/16] fix: report a too small write buffer if only the
 checksum does not fit after stuffing

---
 src/bus/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 19eec2b..f60effd 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -205,7 +205,11 @@ where
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], 1 + parameter_count)?;
+		// Make sure there is room for the stuffed body and the checksum.
+		let body_len = 1 + parameter_count;
+		let stuffed_body_len = body_len + bytestuff::stuffing_required(&buffer[HEADER_SIZE..][..body_len]);
+		crate::error::BufferTooSmallError::check(HEADER_SIZE + stuffed_body_len + 2, buffer.len())?;
+		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], body_len)?;
 
 		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
 
-- 
2.43.0


From 36cd8fb8398c8d49319af45d89c0a4f8be453520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 03/16] fix: refuse to write packets that are too long for the
 length field

---
 src/bus/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index f60effd..81d94ee 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -208,7 +208,9 @@ where
 		// Make sure there is room for the stuffed body and the checksum.
 		let body_len = 1 + parameter_count;
 		let stuffed_body_len = body_len + bytestuff::stuffing_required(&buffer[HEADER_SIZE..][..body_len]);
-		crate::error::BufferTooSmallError::check(HEADER_SIZE + stuffed_body_len + 2, buffer.len())?;
+		// The length field of the header also limits the size of the message, no matter how large the buffer is.
+		let max_len = buffer.len().min(HEADER_SIZE + usize::from(u16::MAX));
+		crate::error::BufferTooSmallError::check(HEADER_SIZE + stuffed_body_len + 2, max_len)?;
 		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], body_len)?;
 
 		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
-- 
2.43.0


From 9d7336b851430e1068551713582deac6c85086ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 04/16] fix: report packets without instruction ID or error
 field instead of panicking

---
 src/bus/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 81d94ee..9c3dec4 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -248,6 +248,16 @@ where
 				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
 				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;
 
+				// The length includes at least the instruction ID and the checksum.
+				if body_len < 3 {
+					self.consume_read_bytes(HEADER_SIZE);
+					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
+						actual: body_len,
+						expected: crate::ExpectedCount::Min(3),
+					})
+					.into());
+				}
+
 				// Check if the read buffer is large enough for the entire message.
 				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
 					self.consume_read_bytes(HEADER_SIZE);
@@ -286,14 +296,14 @@ where
 		self.used_bytes += stuffed_message_len;
 
 		// Remove byte-stuffing from the everything from instruction ID to the parameters.
-		let parameter_count = bytestuff::unstuff_inplace(&mut buffer[HEADER_SIZE..parameters_end]);
+		let body_len = bytestuff::unstuff_inplace(&mut buffer[HEADER_SIZE..parameters_end]);
 
 		// Wrap the data in a `Packet`.
-		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
+		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + body_len];
 		let packet = packet::Packet { data };
 
-		// Ensure that status packets have an error field (included in parameter_count here).
-		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 1 {
+		// Ensure that status packets have an error field in addition to the instruction ID.
+		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && body_len < 2 {
 			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 				actual: 0,
 				expected: crate::ExpectedCount::Min(1),
-- 
2.43.0


From 58acd1e3e102ab988fbf58d55d898ef44fa5301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 05/16] fix: parameter count of typed registered writes

---
 src/instructions/reg_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/reg_write.rs b/src/instructions/reg_write.rs
index f6c4b09..c9146a4 100644
--- a/src/instructions/reg_write.rs
+++ b/src/instructions/reg_write.rs
@@ -36,7 +36,7 @@ where
 	/// You may specify [`crate::instructions::packet_id::BROADCAST`] as motor ID.
 	/// If you do, none of the devices will reply with a response, and this function will not wait for any.
 	pub fn reg_write<T: Data>(&mut self, motor_id: u8, address: u16, value: &T) -> Result<Response<()>, TransferError<SerialPort::Error>> {
-		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + 1, |buffer| {
+		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			value.encode(&mut buffer[2..])
 		})?;
-- 
2.43.0


From bd75355aff7b90346c53e6b25713354567e476f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 06/16] fix: data size of typed sync writes

---
 src/instructions/sync_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 6fe40c2..377e993 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -80,7 +80,7 @@ where
 		T: crate::bus::Data,
 	{
 		let data = data.into_iter();
-		let count = core::mem::size_of::<u8>();
+		let count = T::ENCODED_SIZE as usize;
 		let motors = data.len();
 		let stride = 1 + count;
 		let parameter_count = 4 + motors * stride;
-- 
2.43.0


From 5b16d9420026eb941f2ab4a275dc8b70b992e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 07/16] fix: owned bulk write instructions were reported as
 bulk reads

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 19f18d3..a18d8e5 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -373,7 +373,7 @@ impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<alloc::vec::Vec<u8>> {
 			Instructions::BulkRead { parameters } => Instructions::BulkRead {
 				parameters: parameters.to_owned(),
 			},
-			Instructions::BulkWrite { parameters } => Instructions::BulkRead {
+			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
 				parameters: parameters.to_owned(),
 			},
 			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
-- 
2.43.0


From 51fc48c76046d8e5f2fc4e079535c317d9269bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 08/16] fix: option byte of the clear error instruction

---
 src/instructions/clear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/clear.rs b/src/instructions/clear.rs
index 05201fe..fb22ca1 100644
--- a/src/instructions/clear.rs
+++ b/src/instructions/clear.rs
@@ -7,7 +7,7 @@ const CLEAR_REVOLUTION_COUNT: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
 /// The parameters for the CLEAR command to clear the error state.
 ///
 /// This is only supported on some motors.
-const CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C];
+const CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
 
 impl<SerialPort, Buffer> Client<SerialPort, Buffer>
 where
-- 
2.43.0


From 0a6e9b43644718f7a0e702f2d9bfa42c78903525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 09/16] fix: bulk_write did not panic on duplicate motor IDs as
 documented

---
 src/instructions/bulk_write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instructions/bulk_write.rs b/src/instructions/bulk_write.rs
index f3bec14..f307a88 100644
--- a/src/instructions/bulk_write.rs
+++ b/src/instructions/bulk_write.rs
@@ -56,8 +56,13 @@ where
 
 		let writes = writes.into_iter();
 		let mut parameter_count = 0;
-		for write in writes.clone() {
+		for (i, write) in writes.clone().enumerate() {
 			let write = write.borrow();
+			for (j, other) in writes.clone().enumerate().skip(i + 1) {
+				if write.motor_id == other.borrow().motor_id {
+					panic!("bulk_write: motor ID {} used multiple at index {} and {}", write.motor_id, i, j)
+				}
+			}
 			let data = write.data.as_ref();
 			if data.len() > u16::MAX.into() {
 				panic!(
-- 
2.43.0


From 4b103aafd52f2cde8c00edef6e011ec3f27950c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 10/16] fix: double drop of the elements of decoded arrays

---
 src/bus/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 4875a70..da456ed 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -143,7 +143,9 @@ impl<T: Sized, const N: usize> ArrayInitializer<T, N> {
 		debug_assert!(self.initialized == N);
 		// SAFETY: The caller must guarantee that `self.data` is fully initialized,
 		// if they did, reading it as `[T; N]` is sound.
-		core::ptr::read(self.data.as_ptr().cast())
+		// Make sure that the elements are not dropped by `self`, since they are now owned by the returned array.
+		let this = core::mem::ManuallyDrop::new(self);
+		core::ptr::read(this.data.as_ptr().cast())
 	}
 }
 
-- 
2.43.0


From 916dde40255e80fbfeb0a111bf59a1a7d20c5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 11/16] fix: decoding arrays from a buffer of the wrong size

---
 src/bus/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index da456ed..82c07d0 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -95,6 +95,7 @@ impl<T: Data, const N: usize> Data for [T; N] {
 
 	fn decode(buffer: &[u8]) -> Result<Self, crate::InvalidMessage> {
 		let encoded_size = T::ENCODED_SIZE as usize;
+		crate::error::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
 		let mut output = ArrayInitializer::new();
 		for i in 0..N {
 			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
-- 
2.43.0


From de603d5163acdb7f87d2270d49b8ab0d2c43d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 12/16] fix: check the packet ID of acknowledgements

---
 src/instructions/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/mod.rs b/src/instructions/mod.rs
index cd1d4cd..dd7bc8c 100644
--- a/src/instructions/mod.rs
+++ b/src/instructions/mod.rs
@@ -118,6 +118,8 @@ where
 			data: (),
 		})
 	} else {
-		Ok(client.read_status_response(0)?.try_into()?)
+		let response = client.read_status_response(0)?;
+		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
+		Ok(response.try_into()?)
 	}
 }
-- 
2.43.0


From eaf3c89a62c00a9203f9d1d5e5c304f19d744e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 13/16] fix: endless loop when dropping a scan with a failing
 serial port

---
 src/instructions/ping.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 106db49..9b8d572 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -1,7 +1,7 @@
 use core::time::Duration;
 
 use super::{instruction_id, packet_id};
-use crate::bus::StatusPacket;
+use crate::bus::{InstructionPacket, StatusPacket};
 use crate::{Client, ReadError, Response, TransferError};
 
 /// A response from a motor to a ping instruction.
@@ -115,7 +115,15 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	fn drop(&mut self) {
-		while self.next().is_some() {}
+		while let Some(response) = self.next() {
+			match response {
+				// If the serial port fails, it may very well keep failing. Don't get stuck here.
+				Err(ReadError::Io(_)) => break,
+				// Same if the read buffer is too small for any message at all.
+				Err(ReadError::BufferFull(e)) if e.total_size < InstructionPacket::message_len(0) => break,
+				_ => (),
+			}
+		}
 	}
 }
 
-- 
2.43.0


From e3de1c27379af1eb63818c228ebd7d0a2ba0fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 14/16] fix: panic on timeouts that are too long for an Instant

---
 src/serial_port/serial2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/serial_port/serial2.rs b/src/serial_port/serial2.rs
index 534e740..db3968d 100644
--- a/src/serial_port/serial2.rs
+++ b/src/serial_port/serial2.rs
@@ -2,6 +2,9 @@
 
 use std::time::{Duration, Instant};
 
+/// Used instead of timeouts that are too long to make a deadline from: 100 years.
+const FAR_FUTURE: Duration = Duration::from_secs(100 * 365 * 24 * 60 * 60);
+
 impl crate::SerialPort for serial2::SerialPort {
 	type Error = std::io::Error;
 	type Instant = std::time::Instant;
@@ -34,7 +37,9 @@ impl crate::SerialPort for serial2::SerialPort {
 	}
 
 	fn make_deadline(&self, timeout: Duration) -> Self::Instant {
-		Instant::now() + timeout
+		let now = Instant::now();
+		// Timeouts that can not be represented will not expire anytime soon.
+		now.checked_add(timeout).unwrap_or_else(|| now + FAR_FUTURE)
 	}
 
 	fn is_timeout_error(error: &Self::Error) -> bool {
-- 
2.43.0


From 5aa5ca59a1eefb213f7f00298ef680da4193bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 15/16] fix: reads of a serial port timing out up to a
 millisecond before the deadline

---
 src/serial_port/serial2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serial_port/serial2.rs b/src/serial_port/serial2.rs
index db3968d..f8e7661 100644
--- a/src/serial_port/serial2.rs
+++ b/src/serial_port/serial2.rs
@@ -28,7 +28,8 @@ impl crate::SerialPort for serial2::SerialPort {
 		let timeout = deadline
 			.checked_duration_since(Instant::now())
 			.ok_or(std::io::ErrorKind::TimedOut)?;
-		self.set_read_timeout(timeout)?;
+		// The timeout is truncated to whole milliseconds, but reading may not give up before the deadline.
+		self.set_read_timeout(timeout.saturating_add(Duration::from_nanos(999_999)))?;
 		serial2::SerialPort::read(self, buffer)
 	}
 
-- 
2.43.0


From f98bb9c6f20c1359321aa27149cfcc9fd42a6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:50 +0000
Subject: [PATCH 16/16] fix: log the bytes that are really skipped as garbage

---
 src/bus/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 9c3dec4..1b19c11 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -320,7 +320,7 @@ where
 		let garbage_len = find_header(&read_buffer[..self.read_len][self.used_bytes..]);
 		if garbage_len > 0 {
 			debug!("skipping {} bytes of leading garbage.", garbage_len);
-			trace!("skipped garbage: {:02X?}", &read_buffer[..garbage_len]);
+			trace!("skipped garbage: {:02X?}", &read_buffer[self.used_bytes..][..garbage_len]);
 		}
 		self.consume_read_bytes(self.used_bytes + garbage_len);
 		debug_assert_eq!(self.used_bytes, 0);
-- 
2.43.0

