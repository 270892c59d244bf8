//! The two command-line programs, run as processes: every way to say what is wanted, every failure on the way.
mod instrumenter;
mod purity;

use mc_common::Ctx;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// A directory of its own, gone when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("cli-mc.{}.{n}", std::process::id()));
        std::fs::create_dir_all(&d).expect("a scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// How a program is started.
#[derive(Clone, Debug, Default)]
pub struct Call {
    pub args: Vec<String>,
    pub env: Vec<(&'static str, String)>,
    pub stdin: Option<Vec<u8>>,
    /// Where the output is expected: a file, or standard output.
    pub to: Option<PathBuf>,
    /// Standard output is a device on which nothing fits.
    pub full: bool,
    /// No file can grow beyond this (what is left on a disk).
    pub room: Option<u64>,
}
#[derive(Debug)]
pub struct Ended {
    pub success: bool,
    pub status: String,
    pub output: Vec<u8>,
    pub complaint: String,
}
pub fn run(program: &str, dir: &Path, call: &Call) -> Ended {
    let at = std::env::current_exe().expect("a path").with_file_name(program);
    let mut c = Command::new(at);
    c.args(&call.args).current_dir(dir).env_clear().env("PATH", "/nonexistent").env("RUST_BACKTRACE", "0");
    c.envs(call.env.iter().map(|(k, v)| (*k, v)));
    let (mut reader, mut writer) = (None, None);
    if let Some(b) = &call.stdin {
        // From a file: the process may stop reading at any time.
        let p = dir.join("stdin");
        std::fs::write(&p, b).expect("standard input");
        reader = Some(std::fs::File::open(p).expect("standard input"));
    }
    if call.full {
        writer = Some(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("a full device"));
    } else if call.to.is_none() {
        writer = Some(std::fs::File::create(dir.join("stdout")).expect("standard output"));
    }
    c.stdin(reader.map_or_else(Stdio::null, Stdio::from));
    c.stdout(writer.map_or_else(Stdio::null, Stdio::from));
    if let Some(room) = call.room {
        // Only calls that are safe between fork and exec.
        unsafe {
            std::os::unix::process::CommandExt::pre_exec(&mut c, move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: room, rlim_max: room };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &l) == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) }
            });
        }
    }
    if let Some(t) = &call.to {
        let _ = std::fs::remove_file(t);
    }
    let line = format!("{c:?}");
    c.stderr(Stdio::piped());
    unsafe {
        // it is not to outlive the check
        std::os::unix::process::CommandExt::pre_exec(&mut c, || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
            Ok(())
        });
    }
    let ended = mc_common::catch_on(line.as_bytes(), || c.spawn().and_then(|c| c.wait_with_output()));
    let o = ended.expect("the program runs").expect("the program starts");
    let output = std::fs::read(call.to.clone().unwrap_or_else(|| dir.join("stdout"))).unwrap_or_default();
    Ended { success: o.status.success(), status: o.status.to_string(), output, complaint: String::from_utf8_lossy(&o.stderr).chars().take(600).collect() }
}
/// All orders of 0..n.
pub fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    orders(n - 1)
        .into_iter()
        .flat_map(|o| {
            (0..n).map(move |k| {
                let mut o = o.clone();
                o.insert(k, n - 1);
                o
            })
        })
        .collect()
}
/// What the environment may ask of the reading or writing of a program.
pub fn weather(which: &'static str, short: Option<usize>, interrupt: bool, fail: Option<usize>) -> Vec<(&'static str, String)> {
    let name = |k: &str| -> &'static str {
        match (which, k) {
            ("READ", "SHORT") => "CLIO_READ_SHORT",
            ("READ", "INTERRUPT") => "CLIO_READ_INTERRUPT",
            ("READ", _) => "CLIO_READ_FAIL",
            (_, "SHORT") => "CLIO_WRITE_SHORT",
            (_, "INTERRUPT") => "CLIO_WRITE_INTERRUPT",
            _ => "CLIO_WRITE_FAIL",
        }
    };
    let mut v = vec![];
    v.extend(short.map(|n| (name("SHORT"), n.to_string())));
    v.extend(interrupt.then(|| (name("INTERRUPT"), "1".into())));
    v.extend(fail.map(|n| (name("FAIL"), n.to_string())));
    v
}

fn main() {
    mc_common::quiet_panics();
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    let (check, level): (fn(&Ctx), &str) = match id.as_str() {
        "C45" => (instrumenter::command_line, "exploration"),
        "C52" => (purity::command_line, "exploration"),
        _ => {
            eprintln!("no check {id}");
            std::process::exit(3);
        }
    };
    ctx.assume("the stand-ins for clap and clio understand options with values, files and standard streams as the real ones do");
    ctx.assume("the decoder of modules, the interpreter and the linker that stand in for what cannot be fetched");
    mc_common::decide(&ctx, check);
    ctx.finish(level);
}
