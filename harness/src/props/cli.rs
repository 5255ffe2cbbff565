//! The command line tool: C29.

use super::pty::{patiently, with_responder, Pty, PATIENCE, RATES};
use super::*;
use crate::cmd::{judge, Expect, Reply, Ty};
use crate::gen;
use crate::refm;
use crate::runner::Tags;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::time::{Duration, Instant};

/// How much fits in the buffers of the tool.
const BUFFER: usize = 128;
/// After how many seconds the tool is taken to hang.
const LIMIT_S: u64 = 60;

fn executable() -> Result<PathBuf, String> {
	let target = std::env::var("DXL_TARGET").unwrap_or_else(|_| "/verif/harness/target".into());
	let path = Path::new(&target).join("cli/debug/dynamixel2");
	ensure!(path.exists(), "internal error: {} is missing", path.display());
	Ok(path)
}

fn run_tool(args: &[String]) -> Result<Output, String> {
	let mut child = Command::new("timeout")
		.args(["-s", "KILL", &LIMIT_S.to_string()])
		.arg(executable()?)
		.args(args)
		.stdin(Stdio::null())
		.stdout(Stdio::piped())
		.stderr(Stdio::piped())
		.spawn()
		.map_err(|e| format!("internal error: failed to run the tool: {e}"))?;
	// The output may be endless.
	fn read(from: impl std::io::Read) -> Vec<u8> {
		let mut out = vec![];
		from.take(1 << 20).read_to_end(&mut out).ok();
		out
	}
	let (stdout, stderr) = (child.stdout.take(), child.stderr.take());
	let (stdout, stderr) = std::thread::scope(|s| {
		let stderr = s.spawn(|| read(stderr.unwrap()));
		(read(stdout.unwrap()), stderr.join().unwrap())
	});
	let status = child.wait().map_err(|e| format!("internal error: failed to wait for the tool: {e}"))?;
	let out = Output { status, stdout, stderr };
	if out.status.code() == Some(137) || out.status.signal() == Some(9) {
		return Err(format!("the tool does not terminate: {args:?}"));
	}
	if out.status.code() == Some(101) || out.status.code().is_none() || out.status.code() > Some(124) {
		return Err(format!("the tool crashed with {:?}: {}", out.status, text(&out)));
	}
	Ok(out)
}

fn text(out: &Output) -> String {
	format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr))
}

/// How the arguments are written down.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Style {
	/// None: use the default.
	baud: Option<u32>,
	/// Short options, long options, or with an equals sign.
	form: u8,
	/// Options after the subcommand.
	after: bool,
	verbose: u8,
	/// Leading zeros in numbers.
	zeros: u8,
	/// How to write the broadcast ID.
	broadcast: u8,
}

impl Style {
	fn number(&self, x: impl std::fmt::Display) -> String {
		format!("{}{x}", "0".repeat(usize::from(self.zeros)))
	}

	fn id(&self, id: u8) -> String {
		if id == refm::BROADCAST {
			["broadcast", "254", "BROADCAST", "Broadcast"][usize::from(self.broadcast) % 4].into()
		} else {
			self.number(id)
		}
	}

	fn options(&self, port: &Path) -> Vec<String> {
		let mut out = vec![];
		let mut option = |short: &str, long: &str, value: String| match self.form % 4 {
			0 => out.extend([format!("-{short}"), value]),
			1 => out.extend([format!("--{long}"), value]),
			2 => out.push(format!("--{long}={value}")),
			_ => out.push(format!("-{short}{value}")),
		};
		option("s", "serial-port", port.display().to_string());
		if let Some(baud) = self.baud {
			option("b", "baud-rate", baud.to_string());
		}
		for _ in 0..self.verbose {
			out.push("-v".into());
		}
		out
	}

	fn arrange(&self, port: &Path, subcommand: Vec<String>) -> Vec<String> {
		let options = self.options(port);
		if self.after {
			[subcommand, options].concat()
		} else {
			[options, subcommand].concat()
		}
	}

	fn baud(&self) -> u32 {
		self.baud.unwrap_or(57600)
	}
}

fn style(bauds: Vec<u32>) -> BoxedStrategy<Style> {
	let default = bauds.contains(&57600);
	let baud = proptest::sample::select(bauds).prop_map(move |x| if default && x == 57600 { None } else { Some(x) });
	(baud, 0u8..4, any::<bool>(), prop_oneof![4 => Just(0u8), 1 => 1u8..4], prop_oneof![4 => Just(0u8), 1 => 1u8..3], 0u8..4)
		.prop_map(|(baud, form, after, verbose, zeros, broadcast)| Style {
			baud,
			form,
			after,
			verbose,
			zeros,
			broadcast,
		})
		.boxed()
}

/// The subcommand for a command of the library.
fn subcommand(cmd: &Cmd, style: &Style) -> Vec<String> {
	let n = |x: u64| style.number(x);
	let value = |bytes: &[u8]| bytes.iter().rev().fold(0u64, |v, b| v * 256 + u64::from(*b));
	let bits = |ty: &Ty| ty.size() * 8;
	match cmd {
		Cmd::Ping { id } => vec!["ping".into(), style.id(*id)],
		Cmd::Scan => vec!["ping".into(), style.id(refm::BROADCAST)],
		Cmd::Reboot { id } => vec!["reboot".into(), style.id(*id)],
		Cmd::Read { id, addr, ty } => vec![format!("read{}", bits(ty)), style.id(*id), n((*addr).into())],
		Cmd::ReadBytes { id, addr, count } => vec!["read".into(), style.id(*id), n((*addr).into()), n((*count).into())],
		Cmd::Write { id, addr, ty, val } => vec![format!("write{}", bits(ty)), style.id(*id), n((*addr).into()), n(value(val))],
		Cmd::WriteBytes { id, addr, data } => {
			let mut out = vec!["write".into(), style.id(*id), n((*addr).into())];
			out.extend(data.iter().map(|x| n((*x).into())));
			out
		},
		x => unreachable!("{x:?}"),
	}
}

/// What the end of a line of the output must be, for intact replies.
fn printed(cmd: &Cmd, data: &[u8]) -> String {
	let word = |i: usize| u16::from(data[i]) | u16::from(data[i + 1]) << 8;
	match cmd {
		Cmd::Ping { .. } => format!(": Ping {{ model: {}, firmware: {} }}", word(0), data[2]),
		Cmd::Read { ty: Ty::U8, .. } => format!(": {} (0x{:02X})", data[0], data[0]),
		Cmd::Read { ty: Ty::U16, .. } => format!(": {} (0x{:04X})", word(0), word(0)),
		Cmd::Read { ty: Ty::U32, .. } => {
			let value = u32::from(word(0)) | u32::from(word(2)) << 16;
			format!(": {value} (0x{:04X} {:04X})", word(2), word(0))
		},
		Cmd::ReadBytes { .. } => {
			let list: Vec<_> = data.iter().map(|x| x.to_string()).collect();
			format!(": [{}]", list.join(", "))
		},
		_ => ": Ok".into(),
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Answer {
	/// A reply with this error byte.
	Intact { error: u8 },
	Nothing,
	/// A reply of another motor.
	OtherMotor { id: u8 },
	/// This byte of the reply is changed.
	Damaged { at: u16, xor: u8 },
	/// A reply with another number of bytes, for commands that have data in the reply.
	WrongCount { count: u8 },
	/// Not all of the reply.
	Partial { len: u16 },
	/// The port disappears as soon as the command has been sent.
	HangUp,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CliCase {
	style: Style,
	cmd: Cmd,
	answer: Answer,
	/// The data that the motor replies with.
	fill: Vec<u8>,
	cuts: Vec<u16>,
}

/// Keep the terminal settings, and do not cause a hang-up.
fn hold(pty: &Pty) -> Result<std::fs::File, String> {
	use std::os::unix::fs::OpenOptionsExt;
	std::fs::OpenOptions::new()
		.read(true)
		.write(true)
		.custom_flags(libc::O_NOCTTY)
		.open(&pty.path)
		.map_err(|e| format!("internal error: failed to open {}: {e}", pty.path.display()))
}

/// What was transmitted, and what the tool printed.
struct Ran {
	out: Output,
	text: String,
	frames: Vec<Vec<u8>>,
	baud: (u32, u32),
}

fn run_with(args: &[String], pty: &Pty, respond: impl FnMut(&[u8]) -> Vec<Vec<u8>> + Send) -> Result<Ran, String> {
	let (out, frames) = with_responder(pty, respond, || run_tool(args));
	let out = out?;
	let text = text(&out);
	Ok(Ran {
		out,
		text,
		frames,
		baud: pty.baud()?,
	})
}

fn has_data(cmd: &Cmd) -> bool {
	matches!(cmd, Cmd::Ping { .. } | Cmd::Read { .. } | Cmd::ReadBytes { .. })
}

fn check_cli_once(case: &CliCase, tags: &mut Tags) -> Result<(), String> {
	let pty = Pty::new()?;
	let _slave = hold(&pty)?;
	let cmd = &case.cmd;
	let args = case.style.arrange(&pty.path, subcommand(cmd, &case.style));
	let what = format!("dynamixel2 {}", args.join(" "));
	let frame = cmd.frame();
	let expect = match cmd.expect() {
		Expect::Replies(list) => list.first().copied(),
		_ => None,
	};
	let mut too_long = frame.len() > BUFFER;
	// The reply, and whether it is a good one.
	let mut good = true;
	let mut alert = false;
	let mut data = vec![];
	let mut line = vec![];
	if let Some((id, count)) = expect {
		data = (0..usize::from(count)).map(|i| case.fill[i % case.fill.len()]).collect();
		let mut reply = Reply {
			id,
			error: 0,
			data: data.clone(),
		};
		match &case.answer {
			Answer::Intact { error } => reply.error = *error,
			Answer::OtherMotor { id: other } if *other != id => reply.id = *other,
			Answer::WrongCount { count: other } if u16::from(*other) != count && has_data(cmd) => reply.data = vec![1; usize::from(*other)],
			_ => (),
		}
		good = judge(&reply, Some(id), Some(count)).iter().all(|x| x.is_ok());
		alert = good && reply.error & 0x80 != 0;
		line = reply.frame();
		too_long |= line.len() > BUFFER;
		match &case.answer {
			Answer::Damaged { at, xor } if *xor != 0 => {
				let n = line.len();
				// Not in the header or the length, which changes which bytes belong to the packet.
				let fixed = 7;
				line[fixed + usize::from(*at) % (n - fixed)] ^= xor;
				good = false;
			},
			Answer::Partial { len } => {
				line.truncate(usize::from(*len) % line.len());
				good = false;
			},
			Answer::Nothing | Answer::HangUp => {
				line = vec![];
				good = false;
			},
			_ => (),
		}
	}
	if matches!(case.answer, Answer::HangUp) {
		// Nothing must be sent twice, and the tool must end.
		drop(_slave);
		let stop = std::sync::atomic::AtomicBool::new(false);
		let (out, sent) = std::thread::scope(|s| {
			let stop = &stop;
			let n = frame.len();
			let t = s.spawn(move || {
				let until = Instant::now() + PATIENCE;
				let mut sent = vec![];
				while sent.len() < n && Instant::now() < until && !stop.load(std::sync::atomic::Ordering::SeqCst) {
					sent.extend(pty.read(Duration::from_millis(5)));
				}
				loop {
					let more = pty.read(Duration::ZERO);
					if more.is_empty() {
						break;
					}
					sent.extend(more);
				}
				drop(pty);
				sent
			});
			let out = run_tool(&args);
			stop.store(true, std::sync::atomic::Ordering::SeqCst);
			(out, t.join().unwrap())
		});
		let out = out?;
		tags.tag("hang up");
		if too_long && sent.is_empty() {
			ensure!(!out.status.success(), "{what}: successful, but nothing was sent");
			return Ok(());
		}
		tags.nontrivial();
		ensure!(sent == frame, "{what}: transmitted {}, expected {}", hex(&sent), hex(&frame));
		// A scan may just not find anything.
		if expect.is_some() {
			ensure!(!out.status.success(), "{what}: successful, but the serial port disappeared: {}", text(&out));
		}
		return Ok(());
	}
	let bursts = gen::split(&line, &case.cuts);
	let ran = run_with(&args, &pty, |_| bursts.clone())?;
	let context = format!("{what}, reply {}, exit status {:?}, output {:?}", hex(&line), ran.out.status.code(), ran.text);
	if too_long {
		tags.tag("too long");
		ensure!(
			ran.frames.is_empty() || ran.frames == [frame.clone()],
			"transmitted {}, expected {} or nothing; {context}",
			hex(&ran.frames.concat()),
			hex(&frame)
		);
		ensure!(
			!ran.out.status.success() || (good && !ran.frames.is_empty()),
			"successful without a good exchange; {context}"
		);
	} else {
		ensure!(
			ran.frames == [frame.clone()],
			"transmitted {}, expected {}; {context}",
			hex(&ran.frames.concat()),
			hex(&frame)
		);
		ensure!(ran.out.status.success() == good, "exit status, while the exchange was {}; {context}", if good { "good" } else { "bad" });
	}
	ensure_eq!(ran.baud, (case.style.baud(), case.style.baud()), "baud rate of the terminal; {context}");
	let line = printed(cmd, &data);
	let prints = ran.text.lines().any(|x| x.ends_with(&line));
	if ran.out.status.success() {
		ensure!(prints, "{line:?} is not printed; {context}");
		ensure!(ran.text.contains("Alert bit") == alert, "the alert bit is {alert}; {context}");
		ensure!(!ran.text.contains("Error:"), "an error is printed; {context}");
	} else {
		ensure!(!(has_data(cmd) && ran.text.lines().any(|x| x.starts_with(|c: char| c.is_ascii_digit()))), "a result is printed; {context}");
		ensure!(ran.text.contains("Error"), "no error is printed; {context}");
	}
	tags.tag(cmd.name());
	tags.tag(match &case.answer {
		_ if expect.is_none() => "no reply expected",
		Answer::Intact { error: 0 } => "good",
		Answer::Intact { error: 0x80 } => "alert",
		Answer::Intact { .. } => "motor error",
		Answer::Nothing => "missing",
		Answer::OtherMotor { .. } => "other motor",
		Answer::Damaged { .. } => "damaged",
		Answer::WrongCount { .. } => "wrong count",
		Answer::Partial { .. } => "partial",
		Answer::HangUp => "hang up",
	});
	tags.nontrivial();
	Ok(())
}

fn check_cli(case: &CliCase, tags: &mut Tags) -> Result<(), String> {
	patiently(|| check_cli_once(case, tags))
}

fn check_cli_strict(case: &CliCase, tags: &mut Tags) -> Result<(), String> {
	check_cli_once(case, tags)
}

fn cli_cmd(id: BoxedStrategy<u8>, unicast: BoxedStrategy<u8>, read: bool, max: usize) -> BoxedStrategy<Cmd> {
	let ty = proptest::sample::select(vec![Ty::U8, Ty::U16, Ty::U32]);
	let write = prop_oneof![
		1 => id.clone().prop_map(|id| Cmd::Reboot { id }),
		3 => (id.clone(), gen::addr(), ty.clone()).prop_flat_map(|(id, addr, ty)| {
			gen::data_exact(ty.size()).prop_map(move |val| Cmd::Write { id, addr, ty, val })
		}),
		2 => (id, gen::addr(), gen::data_sized(max)).prop_map(|(id, addr, data)| Cmd::WriteBytes { id, addr, data }),
	];
	if !read {
		return write.boxed();
	}
	prop_oneof![
		1 => unicast.clone().prop_map(|id| Cmd::Ping { id }),
		3 => (unicast.clone(), gen::addr(), ty).prop_map(|(id, addr, ty)| Cmd::Read { id, addr, ty }),
		2 => (unicast, gen::addr(), 0..=max as u16).prop_map(|(id, addr, count)| Cmd::ReadBytes { id, addr, count }),
		6 => write,
	]
	.boxed()
}

fn cli_case(style: BoxedStrategy<Style>, cmd: BoxedStrategy<Cmd>, answer: BoxedStrategy<Answer>) -> BoxedStrategy<CliCase> {
	(style, cmd, answer, gen::data(1, 12), gen::cuts())
		.prop_map(|(style, cmd, answer, fill, cuts)| CliCase {
			style,
			cmd,
			answer,
			fill,
			cuts,
		})
		.boxed()
}

// Scans.

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CliScan {
	style: Style,
	/// ID, error byte, model, firmware.
	motors: Vec<(u8, u8, u16, u8)>,
	cuts: Vec<u16>,
}

fn scan_once(case: &CliScan, tags: &mut Tags) -> Result<(), String> {
	let pty = Pty::new()?;
	let _slave = hold(&pty)?;
	let args = case.style.arrange(&pty.path, subcommand(&Cmd::Scan, &case.style));
	let line: Vec<u8> = case
		.motors
		.iter()
		.flat_map(|(id, error, model, firmware)| refm::status(*id, *error, &[(model % 256) as u8, (model / 256) as u8, *firmware]))
		.collect();
	let bursts = gen::split(&line, &case.cuts);
	let ran = run_with(&args, &pty, |_| bursts.clone())?;
	let context = format!("dynamixel2 {}, replies {}, output {:?}", args.join(" "), hex(&line), ran.text);
	ensure!(ran.frames == [Cmd::Scan.frame()], "transmitted {}; {context}", hex(&ran.frames.concat()));
	ensure_eq!(ran.baud, (case.style.baud(), case.style.baud()), "baud rate of the terminal; {context}");
	// Only the lines that matter.
	let mut got = vec![];
	for line in ran.text.lines() {
		for (label, name) in [("Motor ID: ", "id"), ("Model: ", "model"), ("Firmware: ", "firmware"), ("Alert: ", "alert"), ("Error: ", "error")] {
			if let Some((prefix, value)) = line.split_once(label) {
				if prefix.chars().all(|c| !c.is_alphanumeric()) {
					got.push((name, if name == "error" { String::new() } else { value.trim().to_string() }));
				}
			}
		}
	}
	let mut want = vec![];
	let mut errors = 0;
	for (id, error, model, firmware) in &case.motors {
		if error & 0x7F != 0 {
			errors += 1;
			want.push(("error", String::new()));
			continue;
		}
		want.push(("id", id.to_string()));
		if error & 0x80 != 0 {
			want.push(("alert", "true".into()));
		}
		want.push(("model", model.to_string()));
		want.push(("firmware", firmware.to_string()));
	}
	ensure!(got == want, "printed {got:?}, expected {want:?}; {context}");
	ensure!(errors > 0 || ran.out.status.success(), "exit status of a good scan is {:?}; {context}", ran.out.status.code());
	tags.nontrivial_if(!case.motors.is_empty());
	tags.tag_if(errors > 0, "motor errors");
	tags.tag_if(case.motors.is_empty(), "no motors");
	Ok(())
}

fn check_scan(case: &CliScan, tags: &mut Tags) -> Result<(), String> {
	patiently(|| scan_once(case, tags))
}

// Invalid arguments.

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Wrong {
	/// Replace this argument of the subcommand.
	Replace { at: u8, with: String },
	/// Leave this argument out (and all after it).
	Cut { at: u8 },
	/// One argument too many.
	Extra(String),
	/// Not a baud rate.
	Baud(String),
	UnknownOption,
	UnknownCommand(String),
	NoPort,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Invalid {
	style: Style,
	cmd: Cmd,
	wrong: Wrong,
}

/// The arguments, or None if these are not known to be invalid.
fn spoil(case: &Invalid, port: &Path) -> Option<Vec<String>> {
	if let Wrong::Replace { with: text, .. } | Wrong::Extra(text) = &case.wrong {
		// That may be an option, or the end of the options.
		if text.starts_with('-') && !text[1..].starts_with(|c: char| c.is_ascii_digit()) {
			return None;
		}
	}
	let mut style = case.style.clone();
	let mut sub = subcommand(&case.cmd, &style);
	let valid = |text: &str, max: u64| text.parse::<u64>().is_ok_and(|x| x <= max);
	match &case.wrong {
		Wrong::Replace { at, with } => {
			let at = 1 + usize::from(*at) % (sub.len() - 1);
			let is_read = matches!(case.cmd, Cmd::Read { .. } | Cmd::ReadBytes { .. });
			let max = match (at, &case.cmd) {
				// Whether 255 is a motor ID is up to the tool.
				(1, _) => 255,
				(2, _) => 65535,
				(3, Cmd::ReadBytes { .. }) => 65535,
				(3, Cmd::Write { ty: Ty::U16, .. }) => 65535,
				(3, Cmd::Write { ty: Ty::U32, .. }) => u64::from(u32::MAX),
				(_, _) => 255,
			};
			let broadcast = at == 1 && (with.eq_ignore_ascii_case("broadcast") || *with == "254");
			if broadcast && !is_read || !broadcast && valid(with, max) {
				return None;
			}
			sub[at] = with.clone();
		},
		Wrong::Cut { at } => {
			// The data of the general write command is optional.
			let optional = if matches!(case.cmd, Cmd::WriteBytes { .. }) { 3 } else { sub.len() };
			sub.truncate(1 + usize::from(*at) % (optional - 1));
		},
		Wrong::Extra(text) => {
			if matches!(case.cmd, Cmd::WriteBytes { .. }) && valid(text, 255) {
				return None;
			}
			sub.push(text.clone());
		},
		Wrong::Baud(text) => {
			if valid(text, u64::from(u32::MAX)) {
				return None;
			}
			style.baud = None;
			sub.push(format!("--baud-rate={text}"));
		},
		Wrong::UnknownOption => sub.push("--unknown-option".into()),
		Wrong::UnknownCommand(name) => sub[0] = name.clone(),
		Wrong::NoPort => return Some(style.arrange(&port.join("missing"), sub)),
	}
	Some(style.arrange(port, sub))
}

fn check_invalid(case: &Invalid, tags: &mut Tags) -> Result<(), String> {
	let pty = Pty::new()?;
	let _slave = hold(&pty)?;
	let Some(args) = spoil(case, &pty.path) else {
		return Ok(());
	};
	let ran = run_with(&args, &pty, |_| vec![])?;
	let context = format!("dynamixel2 {args:?}, output {:?}", ran.text);
	ensure!(ran.frames.is_empty(), "transmitted {} for invalid arguments; {context}", hex(&ran.frames.concat()));
	ensure!(!ran.out.status.success(), "exit status {:?} for invalid arguments; {context}", ran.out.status.code());
	ensure!(!ran.text.is_empty(), "nothing is printed for invalid arguments; {context}");
	tags.nontrivial();
	tags.tag(match case.wrong {
		Wrong::Replace { .. } => "wrong argument",
		Wrong::Cut { .. } => "missing argument",
		Wrong::Extra(_) => "extra argument",
		Wrong::Baud(_) => "wrong baud rate",
		Wrong::UnknownOption => "unknown option",
		Wrong::UnknownCommand(_) => "unknown command",
		Wrong::NoPort => "missing port",
	});
	Ok(())
}

// Shell completion.

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Completion {
	shell: String,
	/// To a file instead of standard output.
	file: bool,
	/// In a directory that does not exist.
	missing: bool,
	/// There is something in the file already.
	old: u16,
	verbose: bool,
}

fn check_completion(case: &Completion, tags: &mut Tags) -> Result<(), String> {
	use std::sync::atomic::{AtomicU64, Ordering};
	static COUNT: AtomicU64 = AtomicU64::new(0);
	let pty = Pty::new()?;
	let _slave = hold(&pty)?;
	let dir = std::env::temp_dir().join(format!("dxlcheck-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
	std::fs::create_dir(&dir).map_err(|e| format!("internal error: {}: {e}", dir.display()))?;
	let result = (|| {
		let base = ["-s".to_string(), pty.path.display().to_string(), "shell-completion".into(), "--shell".into(), case.shell.clone()];
		let ran = run_with(&base, &pty, |_| vec![])?;
		ensure!(ran.frames.is_empty(), "transmitted {}", hex(&ran.frames.concat()));
		ensure!(ran.out.status.success(), "failed: {}", ran.text);
		let script = ran.out.stdout.clone();
		let readable = String::from_utf8_lossy(&script).to_string();
		for name in ["ping", "reboot", "read8", "read16", "read32", "write8", "write16", "write32", "shell-completion", "baud-rate", "serial-port"] {
			ensure!(readable.contains(name), "{name} is missing in the output");
		}
		ensure!(script.ends_with(b"\n"), "the output does not end with a newline");
		let mut args = base.to_vec();
		if case.verbose {
			args.push("-v".into());
		}
		let file = if case.missing { dir.join("missing/file") } else { dir.join("file") };
		if case.file {
			if !case.missing {
				std::fs::write(&file, vec![b'x'; usize::from(case.old)]).map_err(|e| e.to_string())?;
			}
			args.extend(["--output".into(), file.display().to_string()]);
		} else {
			args.extend(["-o".into(), "-".into()]);
		}
		let ran = run_with(&args, &pty, |_| vec![])?;
		ensure!(ran.frames.is_empty(), "transmitted {}", hex(&ran.frames.concat()));
		tags.nontrivial();
		if case.file && case.missing {
			tags.tag("missing directory");
			ensure!(!ran.out.status.success(), "successful without a directory for the output");
			ensure!(ran.text.contains("Error"), "no error is printed");
		} else if case.file {
			tags.tag("file");
			ensure!(ran.out.status.success(), "failed: {}", ran.text);
			let written = std::fs::read(&file).map_err(|e| e.to_string())?;
			ensure!(written == script, "the file does not contain what goes to standard output otherwise");
		} else {
			tags.tag("standard output");
			ensure!(ran.out.status.success(), "failed: {}", ran.text);
			ensure!(ran.out.stdout == script, "the output is not the same twice");
		}
		Ok(())
	})();
	std::fs::remove_dir_all(&dir).ok();
	result
}

pub fn c29(ctx: &mut Ctx) {
	ctx.rule = "runs of the dynamixel2 binary with generated arguments against a simulated motor on a pseudo-terminal; non-trivial: a packet was exchanged, invalid arguments were refused, or a script was written";
	ctx.assumptions = vec![
		"exchanges that depend on the speed of the machine use low baud rates, and are tried up to three times".into(),
		"the format of the printed values is the current one, the text of messages is not checked".into(),
	];
	ctx.scale = 1.0;
	ctx.hang_limit = 3 * LIMIT_S + 120;
	let broadcast = || Just(refm::BROADCAST).boxed();
	ctx.pbt(
		"exchanges",
		ctx.n(1000, 12_000),
		|| {
			let answer = prop_oneof![3 => Just(0u8), 2 => Just(0x80u8), 2 => gen::error_byte()].prop_map(|error| Answer::Intact { error }).boxed();
			prop_oneof![
				3 => cli_case(style(vec![50, 75, 110]), cli_cmd(gen::motor_or_broadcast(), gen::motor_id(), true, 6), answer.clone()),
				2 => cli_case(style(vec![300, 600]), cli_cmd(gen::motor_id(), gen::motor_id(), true, 100), answer.clone()),
				1 => cli_case(style(vec![300, 600]), cli_cmd(gen::motor_id(), gen::motor_id(), true, 300), answer),
			]
			.boxed()
		},
		check_cli,
	);
	ctx.pbt(
		"silent",
		ctx.n(500, 6_000),
		|| {
			let answer = Just(Answer::Nothing).boxed();
			let bauds = RATES.iter().copied().chain([57600; 10]).collect();
			cli_case(style(bauds), cli_cmd(broadcast(), broadcast(), false, 150), answer)
		},
		check_cli_strict,
	);
	ctx.pbt(
		"bad_replies",
		ctx.n(600, 8_000),
		|| {
			let answer = prop_oneof![
				1 => Just(Answer::Nothing),
				2 => gen::motor_id().prop_map(|id| Answer::OtherMotor { id }),
				3 => (any::<u16>(), 1u8..).prop_map(|(at, xor)| Answer::Damaged { at, xor }),
				2 => (0u8..20).prop_map(|count| Answer::WrongCount { count }),
				1 => any::<u16>().prop_map(|len| Answer::Partial { len }),
				3 => (1u8..).prop_map(|error| Answer::Intact { error: if error == 0x80 { 0x81 } else { error } }),
			];
			// Any of these fails quickly.
			cli_case(style(vec![9600, 57600, 115_200, 1_000_000]), cli_cmd(gen::motor_id(), gen::motor_id(), true, 20), answer.boxed())
		},
		check_cli,
	);
	ctx.pbt(
		"hang_up",
		ctx.n(120, 1_500),
		|| {
			let cmd = prop_oneof![1 => Just(Cmd::Scan), 5 => cli_cmd(gen::motor_or_broadcast(), gen::motor_id(), true, 20)];
			cli_case(style(vec![57600]), cmd.boxed(), Just(Answer::HangUp).boxed())
		},
		check_cli_strict,
	);
	ctx.pbt(
		"scans",
		ctx.n(80, 1_000),
		|| {
			let motor = (gen::motor_id(), prop_oneof![4 => Just(0u8), 2 => Just(0x80u8), 1 => gen::error_byte()], any::<u16>(), any::<u8>());
			(style(vec![57600, 115_200]), proptest::collection::vec(motor, 0..8), gen::cuts())
				.prop_map(|(style, motors, cuts)| CliScan { style, motors, cuts })
				.boxed()
		},
		check_scan,
	);
	ctx.pbt(
		"invalid",
		ctx.n(1500, 15_000),
		|| {
			let text = || {
				prop_oneof![
					2 => proptest::sample::select(vec![
						"256", "257", "300", "510", "65536", "65537", "131072", "4294967296", "4294967297", "18446744073709551616", "-1", "-5", "abc", "", " ", "1.5", "1e3", "all",
						"broadcast", "254", "Broadcast", "1,2", "1 2", "broadcasts", "0x", "one", "255a",
					]).prop_map(String::from),
					1 => (256u64..).prop_map(|x| x.to_string()),
					1 => (256u64..70_000).prop_map(|x| x.to_string()),
					1 => "[ -~]{0,6}",
				]
			};
			let unknown = proptest::sample::select(vec!["pong", "read64", "write64", "read7", "Ping", "", "scan8"]);
			let wrong = prop_oneof![
				6 => (any::<u8>(), text()).prop_map(|(at, with)| Wrong::Replace { at, with }),
				2 => any::<u8>().prop_map(|at| Wrong::Cut { at }),
				1 => text().prop_map(Wrong::Extra),
				1 => text().prop_map(Wrong::Baud),
				1 => Just(Wrong::UnknownOption),
				1 => unknown.prop_map(|x| Wrong::UnknownCommand(x.into())),
				1 => Just(Wrong::NoPort),
			];
			// Options first, so that an argument that looks like an option does not change what they mean.
			let style = style(RATES.to_vec()).prop_map(|x| Style { after: false, ..x });
			(style, cli_cmd(gen::motor_or_broadcast(), gen::motor_id(), true, 10), wrong)
				.prop_map(|(style, cmd, wrong)| Invalid { style, cmd, wrong })
				.boxed()
		},
		check_invalid,
	);
	ctx.pbt(
		"completion",
		ctx.n(60, 300),
		|| {
			let shell = proptest::sample::select(vec!["bash", "elvish", "fish", "powershell", "zsh"]);
			(shell, any::<bool>(), gen::chance(20), prop_oneof![Just(0u16), any::<u16>()], any::<bool>())
				.prop_map(|(shell, file, missing, old, verbose)| Completion {
					shell: shell.into(),
					file,
					missing,
					old,
					verbose,
				})
				.boxed()
		},
		check_completion,
	);
}
