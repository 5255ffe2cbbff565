//! The property checks.

use crate::cmd::{exec, Cmd, Outcome, SimClient};
use crate::runner::Ctx;
use crate::sim::{Rx, SimPort};
use dynamixel2::{Client, Device};

pub mod cli;
pub mod data;
pub mod device;
pub mod features;
pub mod logging;
pub mod multi;
pub mod pty;
pub mod reply;
pub mod state;
pub mod stream;
pub mod system;
pub mod wire;

pub type SimDevice = Device<SimPort, Vec<u8>>;

pub const BAUD: u32 = 1_000_000;

pub fn client(port: &SimPort, read: usize, write: usize) -> SimClient {
	Client::with_buffers(port.clone(), vec![0; read], vec![0; write]).unwrap()
}

pub fn device(port: &SimPort, read: usize, write: usize) -> SimDevice {
	Device::with_buffers(port.clone(), vec![0; read], vec![0; write]).unwrap()
}

/// A port that answers every write with the given bursts, all arriving immediately.
pub fn answer(port: &SimPort, bursts: Vec<Vec<u8>>) {
	port.on_write(move |_, now| bursts.iter().map(|data| Rx { at: now, data: data.clone() }).collect());
}

/// Execute a command on a fresh client.
pub fn exec_fresh(cmd: &Cmd, bursts: Vec<Vec<u8>>) -> (Outcome, SimPort) {
	exec_sized(cmd, bursts, 4096)
}

/// The same with a read buffer of the given size.
pub fn exec_sized(cmd: &Cmd, bursts: Vec<Vec<u8>>, read: usize) -> (Outcome, SimPort) {
	let port = SimPort::new(BAUD);
	answer(&port, bursts);
	let mut client = client(&port, read, 4096);
	let outcome = exec(&mut client, cmd);
	(outcome, port)
}

pub fn hex(x: &[u8]) -> String {
	if x.len() > 120 {
		format!("{} ... ({} bytes)", hex(&x[..100]), x.len())
	} else {
		x.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(" ")
	}
}

#[macro_export]
macro_rules! ensure {
	($cond:expr, $($fmt:tt)*) => {
		if !$cond {
			return Err(format!($($fmt)*));
		}
	};
}

#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($fmt:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if a != b {
			return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)*), a, b));
		}
	}};
}

pub fn run(id: &str, ctx: &mut Ctx) -> bool {
	match id {
		"C01" => wire::c01(ctx),
		"C02" => wire::c02(ctx),
		"C03" => wire::c03(ctx),
		"C04" => device::c04(ctx),
		"C05" => device::c05(ctx),
		"C30" => device::c30(ctx),
		"C08" => stream::c08(ctx),
		"C09" => stream::c09(ctx),
		"C10" => stream::c10(ctx),
		"C11" => stream::c11(ctx),
		"C18" => stream::c18(ctx),
		"C06" => reply::c06(ctx),
		"C07" => reply::c07(ctx),
		"C12" => reply::c12(ctx),
		"C14" => reply::c14(ctx),
		"C17" => reply::c17(ctx),
		"C19" => reply::c19(ctx),
		"C15" => multi::c15(ctx),
		"C16" => multi::c16(ctx),
		"C20" => data::c20(ctx),
		"C21" => data::c21(ctx),
		"C24" => system::c24(ctx),
		"C25" => state::c25(ctx),
		"C26" => state::c26(ctx),
		"C27" => features::c27(ctx),
		"C28" => pty::c28(ctx),
		"C29" => cli::c29(ctx),
		"C31" => state::c31(ctx),
		"C32" => logging::c32(ctx),
		"C13" => wire::c13(ctx),
		"C22" => wire::c22(ctx),
		"C23" => wire::c23(ctx),
		_ => return false,
	}
	true
}

/// Entry points for other processes.
pub fn worker(args: &[String]) -> i32 {
	state::worker(args)
}
