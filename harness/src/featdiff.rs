//! Executes cases (one JSON value per line) with one particular build of the library.

use harness::diff::{execute, Buffers, Exchange};
use std::io::{BufRead, Write};

#[cfg(feature = "dxl-log")]
mod logger {
	use std::fmt::Write;
	use std::sync::Mutex;

	/// What was logged, if anyone is interested.
	pub static RECORDS: Mutex<Option<Vec<String>>> = Mutex::new(None);

	/// Formats everything.
	pub struct Logger;

	impl log::Log for Logger {
		fn enabled(&self, _: &log::Metadata) -> bool {
			true
		}
		fn log(&self, record: &log::Record) {
			let mut text = String::new();
			write!(text, "{}", record.args()).unwrap();
			std::hint::black_box(&text);
			if let Some(records) = RECORDS.lock().unwrap().as_mut() {
				records.push(text);
			}
		}
		fn flush(&self) {}
	}

	pub fn install() {
		log::set_logger(&Logger).unwrap();
		log::set_max_level(log::LevelFilter::Trace);
	}
}

fn main() {
	#[cfg(feature = "dxl-log")]
	logger::install();
	std::panic::set_hook(Box::new(|_| ()));
	// Whether to give the log in addition to each report.
	#[cfg(feature = "dxl-log")]
	let log = std::env::args().nth(1).as_deref() == Some("--log");
	let mut buffers = Buffers::take();
	let mut out = std::io::stdout().lock();
	for line in std::io::stdin().lock().lines() {
		let case: Exchange = serde_json::from_str(&line.unwrap()).unwrap();
		#[cfg(feature = "dxl-log")]
		if log {
			*logger::RECORDS.lock().unwrap() = Some(vec![]);
		}
		let report = execute(&case, &mut buffers);
		#[cfg(feature = "dxl-log")]
		if log {
			let records = logger::RECORDS.lock().unwrap().take().unwrap();
			serde_json::to_writer(&mut out, &(&report, records)).unwrap();
			out.write_all(b"\n").unwrap();
			out.flush().unwrap();
			continue;
		}
		serde_json::to_writer(&mut out, &report).unwrap();
		out.write_all(b"\n").unwrap();
		out.flush().unwrap();
	}
}
