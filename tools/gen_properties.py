#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSON lines are unpleasant to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BUS="src/bus/mod.rs"; STUFF="src/bus/bytestuff.rs"; CL="src/client.rs"; DEV="src/device.rs"; ERR="src/error.rs"; DATA="src/bus/data.rs"; PKT="src/bus/packet.rs"
INS=["src/instructions/%s.rs"%x for x in "ping read write reg_write action factory_reset reboot clear sync_read sync_write bulk_read bulk_write mod".split()]

p("C01","Every transmitted packet is one well-formed protocol frame",
  "Whatever instruction or status packet is sent, the bytes handed to the serial port are exactly one Protocol 2.0 frame: header FF FF FD 00, the packet ID, a length field that counts everything after it, the byte-stuffed body, and the checksum over all preceding bytes, low byte first. Nothing is sent before or after the frame. A packet whose stuffed body does not fit the 16-bit length field is refused with an error and nothing is sent.",
  ["inputs"],"all packet IDs, instruction IDs, parameter strings (any bytes, lengths 0 up to beyond the 16-bit limit) for instruction and status packets",
  "The tests compare a handful of fixed frames of simple commands with small parameters; frames of other sizes, with stuffing, or near the length limit are never looked at.",
  [BUS,STUFF,"src/checksum.rs","src/bus/endian.rs"],[("packet writer","src/bus/mod.rs write_packet"),("status writer","src/bus/mod.rs write_status")],observe=["SerialPort::write_all"])

p("C02","Byte stuffing is transparent in both directions",
  "When a packet is sent, an FD byte follows every occurrence of FF FF FD between the length field and the checksum, and no other byte is added, so the header pattern never appears inside a body. When a packet is received, exactly those inserted bytes are removed again. So any instruction ID, error byte and parameter string arrives at the other side byte for byte, including runs of FF, overlapping patterns and occurrences that span the instruction, error and parameter bytes.",
  ["inputs"],"every body over a byte alphabet including FF, FD and 00 (all short strings exhaustively, longer ones at random), for sending and receiving, in instruction and status packets",
  "The unit tests stuff and unstuff about a dozen fixed strings, none with more than two consecutive FF bytes.",
  [STUFF,BUS],[("stuffing","src/bus/bytestuff.rs stuff_inplace"),("unstuffing","src/bus/bytestuff.rs unstuff_inplace")],observe=["SerialPort::write_all","StatusPacket::parameters"])

p("C03","Every client command sends its documented instruction",
  "Each client command transmits the packet ID, instruction ID and parameter layout that the protocol documents for it: 16-bit fields and register values little-endian, addresses before lengths before data, motors in the order given, the declared length equal to the size of the register type or data. This holds for every register type, motor ID, address, count and list of motors, and each broadcast variant sends the same parameters to ID FE.",
  ["inputs"],"every client command x every built-in and user-defined register type x generated IDs, addresses, counts, values and motor lists (including empty ones)",
  "Only ping, read, write, reg_write, bulk_read and sync_read are exercised, with one value and mostly one register type each.",
  INS,[("parameter encoding","src/instructions/*.rs"),("register values","src/bus/data.rs Data::encode")],observe=["SerialPort::write_all"])

p("C04","A device understands exactly what the client asked",
  "When the device side of this library receives what the client side sent, it reports the instruction the caller invoked with the same ID, address, length, motor list, reset kind, clear kind and data. This holds for every command and argument, both when the instruction is borrowed and when it is converted to owned data.",
  ["inputs"],"every client command x generated arguments, delivered to the device through the borrowed and the owned interface",
  "The integration tests interpret five instructions through the device with fixed arguments; factory reset, clear, sync write and bulk write are never received, and the owned conversion is never compared.",
  [DEV]+INS,[("instruction parsing","src/device.rs TryFrom<InstructionPacket>")],observe=["Device::read","Device::read_owned"])

p("C05","Device instruction parsing is exact and total",
  "For every intact instruction packet the device either reports the fields laid out as the protocol documents, or rejects it with an invalid-parameter-count error that states the actual count and the bound it violated. Unknown instruction IDs, reset kinds and clear kinds are reported with their raw value and never mistaken for another instruction. The raw packet, the borrowed instruction and the owned instruction agree, and no packet causes a panic.",
  ["inputs"],"all 256 instruction IDs x packet IDs x parameter strings of any content and length, through the raw, borrowed and owned interfaces",
  "No test feeds the device a malformed or unknown instruction.",
  [DEV,PKT,ERR],[("instruction parsing","src/device.rs"),("count checks","src/error.rs InvalidParameterCount")],observe=["Device::read","Device::read_owned","Device::read_raw_instruction_timeout"])

p("C06","An answered command returns exactly what the motor replied",
  "If the addressed motor answers a command with a matching status packet, the command succeeds and returns that motor's ID, the alert bit, and precisely the data of the reply, decoded little-endian into the requested register type. If the error number in the reply is non-zero, the command instead fails with a motor error carrying the raw error byte; the alert bit alone is never an error.",
  ["inputs"],"every command that expects a reply x every register type x every error byte x reply data x motor ID",
  "Tests receive a few well-formed replies with error 0; alert bits, error numbers and most value types are never received.",
  [CL,"src/response.rs",PKT,DATA,ERR]+INS,[("reply decoding","src/response.rs, src/bus/data.rs"),("motor error check","src/error.rs MotorError::check")],observe=["Client methods' return values"])

p("C07","A reply is accepted only if it is valid and from the right motor",
  "A command succeeds only if what was received contains an intact status packet from the addressed motor with exactly the expected number of parameters and no error number. Every other reply yields an error naming what is wrong (checksum, packet ID, instruction, parameter count, motor error) with the true received and expected values, and never data. In particular the acknowledgement of a write, registered write, action, reboot, reset or clear must come from the motor addressed. (A raw transfer leaves the number of parameters to its caller.)",
  ["inputs","fault_sequences"],"every command with a reply x replies mutated in ID, instruction, error byte, parameter count, length field, checksum, single and multiple byte corruptions, truncation",
  "No test receives an invalid reply.",
  [BUS,CL,ERR]+INS,[("checksum check","src/bus/mod.rs read_packet_deadline"),("ID and count checks","src/client.rs, src/instructions/*.rs")],observe=["Client methods' return values"])

p("C08","How the serial port splits the data makes no difference",
  "The outcome of every operation depends only on the sequence of bytes received before its deadline, not on how those bytes are divided over read calls. One byte at a time, arbitrary pieces, and several packets in one read give identical results on the client and on the device side.",
  ["schedules","inputs"],"all ways to split a byte stream (replies, several replies, noise and corrupt packets) over reads; every two-way split is enumerated for a set of streams",
  "The mock port used by the tests always delivers whole packets.",
  [BUS],[("read loop and buffer bookkeeping","src/bus/mod.rs read_packet_deadline, remove_garbage, consume_read_bytes")],
  state=[("read_len","valid bytes in the read buffer","src/bus/mod.rs"),("used_bytes","bytes of the last returned packet","src/bus/mod.rs")],observe=["Client and Device return values"])

p("C09","A valid packet is found after noise",
  "Bytes preceding a valid packet that do not themselves form a packet header are skipped, whatever they are, including partial, repeated or overlapping pieces of the header. After a packet with a bad checksum, an over-long packet or a malformed packet has been reported as an error, the next intact packet is still delivered.",
  ["inputs","fault_sequences"],"all short noise strings over the header alphabet and random longer ones, mixed with damaged packets, before valid packets; client and device side",
  "Only a direct unit test of the header search with a handful of inputs and one oversized packet exist.",
  [BUS],[("header search","src/bus/mod.rs find_header"),("garbage removal","src/bus/mod.rs remove_garbage")],observe=["Client and Device return values"])

p("C10","No input can crash or hang the reader",
  "Whatever bytes arrive, in whatever order and with whatever timing, every client and device operation returns a value or an error: it never panics, never reads out of bounds, and finishes once the line is silent past its deadline. Afterwards the same client or device still completes a normal exchange.",
  ["inputs","schedules","histories"],"arbitrary and structure-aware byte streams (header fragments, any length fields, valid and invalid checksums) against sequences of client and device operations with read buffers of any size",
  "No test feeds arbitrary input.",
  [BUS,STUFF,PKT,CL,DEV],[("length and count checks","src/bus/mod.rs read_packet_deadline")],observe=["every public operation"])

p("C11","Old input never answers a later command",
  "Everything received before a command is transmitted is discarded: late, duplicate or surplus replies and left-over bytes of earlier exchanges, whether in the serial port or in internal buffers, are never taken as the answer to a later command. The outcome of a command therefore depends only on what arrives after it was sent, never on the history of earlier commands, errors or buffer contents.",
  ["histories","inputs"],"random histories of commands with late, surplus, damaged, truncated or missing replies, each compared with the same command on a fresh client",
  "The tests run each command once on a fresh or clean connection.",
  [BUS],[("discard before transmit","src/bus/mod.rs write_packet")],state=[("read buffer","received but unconsumed bytes","src/bus/mod.rs")],observe=["Client return values"])

p("C12","Reply deadlines follow the expected reply size and baud rate",
  "A reply is awaited for the time the expected reply takes on the wire at the current baud rate (10 bits per byte, rounded up) plus 34 ms, a scan for each reply for the time of 253 ping replies plus 34 ms, and explicit timeouts for the given time. A reply completed by the deadline is delivered; if none is, the operation fails with the port's timeout error when the deadline passes. The deadline is set once, after transmission, and never extended by partial data, noise or unrelated packets.",
  ["inputs","schedules","configurations"],"every command with a reply x baud rates 1 to 4 Gbd x arrival times on both sides of the deadline x noise arriving in between, under a virtual clock",
  "The transfer time helper is unit tested; nothing tests the deadlines that operations use.",
  [CL,BUS,"src/instructions/ping.rs"],[("timeout calculation","src/client.rs read_status_response"),("transfer time","src/bus/mod.rs message_transfer_time"),("scan timeout","src/instructions/ping.rs")],observe=["SerialPort::make_deadline","SerialPort::read deadline"])

p("C13","Write buffer limits are exact and reported before sending",
  "A packet that the length field can represent is sent if and only if its complete frame, stuffing and checksum included, fits the write buffer; otherwise the operation fails with a buffer-too-small error and nothing reaches the port. The error gives the true buffer size and a required size that is larger than it but not larger than what the frame needs. Callers that fill in parameters get exactly the number of bytes they asked for, and an error they return is passed on with nothing sent.",
  ["inputs","configurations"],"every command and raw packet x write buffer sizes around the exact frame size, with and without stuffing",
  "All tests use 128-byte buffers and small packets.",
  [BUS,STUFF,ERR],[("size checks","src/bus/mod.rs write_packet, write_status"),("stuffing size check","src/bus/bytestuff.rs stuff_inplace")],observe=["WriteError::BufferTooSmall","SerialPort::write_all"])

p("C14","Read buffer limits are exact and recoverable",
  "A received packet is delivered if and only if its complete frame fits the read buffer, regardless of preceding noise or earlier packets in the buffer. A longer packet is reported as a buffer-full error with the true buffer size and the size that packet needs, and later packets that fit are still delivered.",
  ["inputs","configurations"],"read buffer sizes from 0 up around the exact frame size x packets with and without stuffing x noise and preceding packets; client and device side",
  "One unit test covers one oversized packet with one buffer size.",
  [BUS,ERR],[("size check","src/bus/mod.rs read_packet_deadline")],observe=["ReadError::BufferFull"])

p("C15","Sync and bulk reads attribute every reply to the right motor",
  "A sync or bulk read yields exactly one result per requested motor, in request order: that motor's own reply, or an error when its reply is missing, damaged, from another motor, of the wrong size or carries an error number. A bad or missing reply never shifts data to another motor, and the number of outstanding replies decreases by one per result. (A reply that comes in while an earlier motor is still awaited counts against that motor and is consumed.) All ways to consume the results (typed, bytes, borrowed, iterator) agree.",
  ["inputs","fault_sequences","schedules"],"motor lists of length 0 and up x types and counts x replies individually missing, damaged, reordered, duplicated, wrong-sized or with error numbers x all consumption interfaces",
  "The tests read from two healthy motors.",
  ["src/instructions/sync_read.rs","src/instructions/bulk_read.rs"],[("per-motor index","pop_motor_id / pop_bulk_read_data"),("ID and count checks","next_response")],state=[("index","next motor to answer","src/instructions/sync_read.rs")],observe=["SyncRead::read_next","remaining"])

p("C16","Abandoned multi-reply operations are drained on drop",
  "When a sync read, bulk read or scan is dropped before all replies were taken, dropping it waits for the outstanding replies with the same deadlines as reading them would and consumes them, so that the following command is transmitted only after they have passed. Dropping always terminates, even if replies are missing, damaged, or the port has failed permanently.",
  ["histories","fault_sequences","schedules"],"every multi-reply operation x every number of replies taken before the drop x missing, damaged and late replies x a permanently failing port",
  "The tests always consume every reply.",
  ["src/instructions/sync_read.rs","src/instructions/bulk_read.rs","src/instructions/ping.rs"],[("draining","Drop implementations")],observe=["SerialPort calls made by drop","time at which the next command is sent"])

p("C17","Broadcast commands never wait for a reply",
  "Commands addressed to the broadcast ID that motors do not answer (write, registered write, action, reboot, factory reset, clear, sync write, bulk write) return as soon as the packet is written, without reading from the port, and report success with the broadcast ID where a response is returned. The same commands addressed to any other ID always wait for and report the motor's acknowledgement.",
  ["inputs"],"every acknowledged command x all 256 motor IDs x arguments, and every broadcast variant",
  "No test sends a broadcast write.",
  ["src/instructions/mod.rs"]+INS,[("broadcast shortcut","src/instructions/mod.rs read_response_if_not_broadcast")],observe=["SerialPort::read calls"])

p("C18","A scan reports every motor that answers and then ends",
  "A scan yields one item per reply that arrives in time, in order of arrival, with the sender's ID, model, firmware and alert bit; a damaged, malformed or error reply yields one error without hiding the other replies. After the last reply the scan ends with no error when the line is silent for its timeout.",
  ["inputs","schedules","fault_sequences"],"any set of up to 253 motors x arrival times and splits x damaged, malformed and error replies in between",
  "Scan is not tested at all.",
  ["src/instructions/ping.rs"],[("scan iteration","src/instructions/ping.rs scan_next")],observe=["Scan iterator"])

p("C19","Serial port failures surface unchanged and do no lasting harm",
  "A failure of the serial port while discarding, writing or reading fails the operation in which it happens with that very error, in the variant naming the failed step, and no other result is made up. A packet is not written if discarding failed and no reply is awaited if writing failed. Once the port works again, the next command on the same client behaves as on a fresh one.",
  ["fault_sequences","histories"],"every command x a fault at every individual port call of the exchange (enumerated), then a follow-up exchange; random multi-fault histories",
  "The mock port never fails.",
  [BUS,CL,ERR],[("error mapping","src/bus/mod.rs write_packet, read_packet_deadline"),("error conversions","src/error.rs")],observe=["WriteError, ReadError variants"])

p("C20","Register values convert losslessly and reject wrong sizes",
  "Encoding a register value writes exactly its encoded size in little-endian two's complement into the start of the buffer, leaves the rest untouched, and fails with a buffer-too-small error for a shorter buffer. Decoding inverts encoding for every value and rejects any buffer of another length with an invalid-parameter-count error stating the true counts. This holds for all integer types, arrays, nested arrays and user-defined types inside arrays.",
  ["inputs"],"all register types x generated values and buffers of every length around the encoded size (8- and 16-bit values exhaustively)",
  "The value conversions have no tests; a few values pass through the integration tests.",
  [DATA,ERR],[("number conversion","src/bus/data.rs impl_data_for_number"),("array conversion","src/bus/data.rs [T; N]")],observe=["Data::encode","Data::decode"])

p("C21","Decoded array elements are owned exactly once",
  "Decoding an array of user-defined register values drops every decoded element exactly once: none is dropped before the caller is done with the returned array and none is leaked. If decoding an element fails or panics midway, precisely the elements decoded before it are dropped, once.",
  ["inputs","fault_sequences"],"arrays of several lengths and nestings of drop-counting, heap-owning elements x failure or panic at every element, directly and through read, sync_read",
  "The tests only decode integers, for which ownership errors are invisible.",
  [DATA],[("array initializer","src/bus/data.rs ArrayInitializer")],observe=["element Drop"])

p("C22","The checksum is the protocol's CRC-16 and composes",
  "The checksum of any data equals the CRC-16 with polynomial 8005 (most significant bit first, no final inversion) continued from the given initial value. Checksumming data in pieces, passing each result on as the next initial value, equals checksumming it at once.",
  ["inputs"],"every initial value x every byte exhaustively, and random strings with random split points",
  "One 8-byte string is tested, which uses 8 of the 256 table entries.",
  ["src/checksum.rs"],[("table-driven CRC","src/checksum.rs")],observe=["checksum::calculate_checksum"])

p("C23","Forbidden requests are rejected before anything is sent",
  "Requests that the protocol or the documentation forbids (a bulk read or bulk write naming a motor twice, a bulk write with more than 65535 bytes for a motor, a sync write whose data size differs from the declared count) panic as documented, and never transmit a packet. Requests that are allowed never panic, including empty motor lists and largest sizes.",
  ["inputs"],"motor lists with and without duplicates at every position, data sizes around the limits",
  "No test makes a forbidden request.",
  ["src/instructions/bulk_read.rs","src/instructions/bulk_write.rs","src/instructions/sync_write.rs"],[("duplicate and size checks","bulk_read.rs, bulk_write.rs, sync_write.rs")],observe=["SerialPort::write_all"])

p("C24","A client and simulated motors act as one memory",
  "For any history of client commands against motors built on the device side of this library, every read (single, sync or bulk) returns what the most recent writes to that motor stored; registered writes take effect exactly at the next action addressed to that motor or broadcast; and reset, reboot and clear reach precisely the motors addressed. Errors or alerts a motor raises are reported on the command that caused them.",
  ["histories"],"random histories of all commands over several motors with mixed register types, compared with a plain memory model after every step",
  "The tests do a single write followed by a read.",
  [CL,DEV]+INS,[("whole exchange","src/client.rs, src/device.rs")],observe=["Client return values","motor memory"])

p("C25","A static buffer is handed out at most once",
  "Each occurrence of the static buffer macro yields a zeroed buffer of the requested size exactly once; every further evaluation panics, also when several threads race for it. Different occurrences never share memory.",
  ["schedules","histories","inputs"],"sequences of evaluations over many occurrences and sizes, threads racing for the same occurrence, in fresh processes",
  "The tests evaluate an occurrence twice on a single thread.",
  [BUS],[("one-shot flag","src/bus/mod.rs static_buffer!")],observe=["addresses and contents of the buffers, panics"])

p("C26","The known baud rate is always the one in effect",
  "A client or device knows the baud rate of the port it was created with and, after every successful change, the new one; a failed change reports the port's error and leaves the rate and all timeouts as they were. Changing the baud rate configures the port with exactly the requested rate.",
  ["histories","fault_sequences"],"random histories of baud rate changes, some failing, mixed with commands whose deadlines are observed",
  "set_baud_rate is not tested.",
  [BUS,CL,DEV],[("baud rate state","src/bus/mod.rs set_baud_rate")],state=[("baud_rate","rate used for timeouts","src/bus/mod.rs")],observe=["baud_rate()","SerialPort::set_baud_rate","SerialPort::make_deadline"])

p("C27","Every feature combination behaves the same",
  "The library builds with every supported combination of its features (no features, alloc, std, serial2 with and without RS-4xx support, log), and with debug assertions on or off, and all builds give identical results and identical bytes on the wire for the same inputs. With static buffers instead of allocated ones nothing changes either, and logging has no effect on behaviour.",
  ["configurations","inputs"],"all feature sets x optimised and debug builds x generated exchanges (valid, damaged and arbitrary input), compared with each other",
  "The tests run in the default configuration only.",
  ["Cargo.toml","src/lib.rs","src/log.rs",ERR,DEV,CL],[("feature gates","cfg(feature = ...) throughout")],observe=["normalised outcomes and transmitted bytes per build"])

p("C28","Real serial ports behave as the library assumes",
  "Over a real terminal device, opening with a baud rate configures exactly that rate and transfers all 256 byte values unmodified in both directions; reads return as soon as data is available and fail with a timeout error not before the deadline, however long the timeout is, and no other error is taken for a timeout; discarding drops what was received but not yet read. Complete client and device exchanges work over it, and late replies are not taken for the next answer.",
  ["inputs","schedules","configurations"],"generated exchanges, byte strings and standard baud rates over a pseudo-terminal pair",
  "No test opens a serial device (the one for real hardware is disabled).",
  ["src/serial_port/serial2.rs",CL,DEV],[("SerialPort for serial2","src/serial_port/serial2.rs")],observe=["bytes at the other end of the pty","termios settings","elapsed time"])

p("C29","The command line tool performs exactly the requested exchange",
  "Every subcommand of the dynamixel2 tool sends exactly the packet that its arguments describe, at the baud rate given, prints the values the motors replied with, and exits successfully if and only if the exchange succeeded; motor errors, timeouts and damaged replies end in a failure exit (a scan of the bus instead lists everything that replied, good or bad). Invalid or forbidden arguments (values out of range, reading from the broadcast ID) are refused without sending anything. Shell completion scripts are written completely, to where they were asked for.",
  ["inputs"],"all subcommands x generated motor IDs, addresses, values and replies (good, error, missing), against a simulated motor on a pseudo-terminal",
  "The tool has no tests.",
  ["dynamixel2-cli/src/bin/dynamixel2/main.rs","dynamixel2-cli/src/bin/dynamixel2/options.rs"],[("subcommands","main.rs"),("argument parsing","options.rs")],observe=["process output and exit status","bytes on the pty"])

p("C30","A device sees instructions only, in order, within its deadline",
  "A device returns each intact instruction packet on the bus once and in order of arrival, regardless of the ID it is addressed to, skipping status packets of other motors however many there are, without extending its deadline. Only sending a status discards input that was received before. What it sends as status carries the given ID, error byte and parameters, and the convenience forms send an empty status with error zero or the given error.",
  ["inputs","schedules","histories"],"random bus traffic of instruction and status packets with noise, damaged packets and pauses, read with arbitrary timeouts",
  "The mock motor of the tests only ever sees single instructions.",
  [DEV,BUS],[("instruction loop","src/device.rs read_raw_instruction_timeout"),("status writer","src/device.rs write_status*")],observe=["Device::read*","SerialPort::write_all"])

p("C31","Errors convert and print without losing information",
  "Converting an error into any of the wider error types keeps the variant and every value in it, and the check helpers accept exactly the values they document. Formatting any error as text never panics and mentions the values it carries; the alert bit and error number split a raw motor error without loss.",
  ["inputs"],"all error types x all conversions x generated field values (error bytes exhaustively)",
  "No test touches the error conversions or messages.",
  [ERR],[("From conversions, check helpers, Display","src/error.rs")],observe=["Display, Debug, From, check"])

p("C32","The log shows exactly what was sent, received and skipped",
  "In a build with logging, every packet that is sent and every packet that is received is logged with exactly its bytes as they are on the bus (of received packets possibly without the checksum), and so are all bytes that are skipped because no packet starts there, in the order in which they were sent, received or skipped. Nothing that was not sent or received is logged as a list of bytes. However the data is split into reads, and whatever was received before, the log is the same.",
  ["inputs","histories"],"all exchanges of clients and devices x noise between packets x splits of the stream",
  "The tests do not enable logging; what is logged depends on how the stream is split and on what is in the buffer.",
  [BUS,"src/log.rs"],[("logging of packets and garbage","src/bus/mod.rs")],observe=["log records"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
