use harness::runner::{install_panic_hook, report_crash, Ctx, Known, Stats, CRASH_ENV, HANG_LIMIT_S, TRACE_ENV};
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::time::Instant;

/// Most cases take microseconds, so there can be many.
const DEFAULT_SCALE: f64 = 8.0;

fn known(id: &str) -> Vec<Known> {
	let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
	let Ok(text) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) else {
		return vec![];
	};
	// Lines of the form `finding: {json}` suppress exactly one signature, all other lines are documentation.
	text.lines()
		.filter_map(|l| l.strip_prefix("finding: "))
		.map(|l| serde_json::from_str::<Known>(l).expect("invalid line in known_findings.txt"))
		.filter(|k| k.property == id)
		.collect()
}

/// Run the check in a child process, to be able to report crashes (aborts, segmentation faults) as well.
fn supervise(id: &str, seed: u64, thorough: bool) -> ! {
	let exe = std::env::current_exe().expect("own executable");
	let run = |args: &[String], trace: Option<&str>| {
		let mut command = Command::new(&exe);
		command.args(args).env(CRASH_ENV, "1");
		if let Some(dir) = trace {
			command.env(TRACE_ENV, dir);
		}
		command.status().expect("failed to run child process")
	};
	let crashed = |status: &std::process::ExitStatus| {
		// SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
		status.signal().filter(|x| [4, 5, 6, 7, 8, 11].contains(x))
	};
	let args: Vec<String> = std::env::args().skip(1).collect();
	let status = run(&args, None);
	let Some(signal) = crashed(&status) else {
		std::process::exit(status.code().unwrap_or(3));
	};
	println!("{id}: the process crashed with signal {signal}, looking for the case");
	// Generation is deterministic, so do it again while keeping track of the cases.
	let dir = std::env::temp_dir().join(format!("dxlcheck-trace-{}", std::process::id()));
	std::fs::create_dir_all(&dir).expect("failed to create directory for traces");
	run(&args, dir.to_str());
	let mut candidates: Vec<serde_json::Value> = Vec::new();
	for entry in std::fs::read_dir(&dir).expect("failed to read traces").flatten() {
		if let Some(x) = std::fs::read_to_string(entry.path()).ok().and_then(|x| serde_json::from_str(&x).ok()) {
			candidates.push(x);
		}
	}
	let mut culprit = None;
	for x in &candidates {
		let file = dir.join("candidate.json");
		std::fs::write(&file, serde_json::json!({"property": id, "sub": x["sub"], "case": x["case"]}).to_string()).expect("failed to write candidate");
		let status = run(&["replay".into(), file.to_str().unwrap().into()], None);
		if crashed(&status).is_some() {
			culprit = Some(x.clone());
			break;
		}
	}
	std::fs::remove_dir_all(&dir).ok();
	let case = culprit.or_else(|| candidates.first().cloned()).unwrap_or_default();
	report_crash(id, seed, thorough, signal, case)
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let usage = "usage: dxlcheck PROPERTY quick|thorough | dxlcheck replay FILE | dxlcheck worker NAME ARGS...";
	let (id, thorough, replay) = match args.get(1).map(|x| x.as_str()) {
		Some("worker") => std::process::exit(harness::props::worker(&args[2..])),
		Some("replay") => {
			let text = std::fs::read_to_string(args.get(2).expect(usage)).expect("failed to read replay file");
			let value: serde_json::Value = serde_json::from_str(&text).expect("invalid replay file");
			let id = value["property"].as_str().expect("invalid replay file").to_string();
			let sub = value["sub"].as_str().expect("invalid replay file").to_string();
			(id, false, Some((sub, value["case"].clone())))
		},
		Some(id) => (id.to_string(), args.get(2).map(|x| x == "thorough").unwrap_or(false), None),
		None => panic!("{usage}"),
	};
	let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
	if replay.is_none() && std::env::var_os(CRASH_ENV).is_none() {
		supervise(&id, seed, thorough);
	}
	install_panic_hook();
	let mut ctx = Ctx {
		known: known(&id),
		id: id.clone(),
		thorough,
		seed,
		stats: Stats::default(),
		rule: "",
		assumptions: vec![],
		violation: None,
		replay,
		replay_ran: false,
		known_hits: Default::default(),
		t0: Instant::now(),
		hang_limit: HANG_LIMIT_S,
		scale: DEFAULT_SCALE,
	};
	if !harness::props::run(&id, &mut ctx) {
		eprintln!("unknown property {id}");
		std::process::exit(2);
	}
	std::process::exit(ctx.finish());
}
