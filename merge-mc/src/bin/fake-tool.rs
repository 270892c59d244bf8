//! Stands in for binaryen's `wasm-merge`: records what it was given and then behaves as told.
//! Everything it reads or writes lies in the scratch directory named by MC_MERGE_SCRATCH, and the
//! `-o` path it is given (which the harness places in that scratch directory through TMPDIR).
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::net::UnixStream;
use std::path::{Path, PathBuf};

fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}

fn raise_limits() {
    for r in [libc::RLIMIT_NOFILE, libc::RLIMIT_FSIZE] {
        unsafe {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(r, &mut l);
            l.rlim_cur = l.rlim_max;
            libc::setrlimit(r, &l);
        }
    }
}

fn main() {
    raise_limits();
    let scratch = PathBuf::from(std::env::var_os("MC_MERGE_SCRATCH").expect("MC_MERGE_SCRATCH"));
    let args: Vec<std::ffi::OsString> = std::env::args_os().skip(1).collect();
    let inside = |p: &Path| p.canonicalize().map(|p| p.starts_with(&scratch)).unwrap_or(false);

    let mut sock = UnixStream::connect(scratch.join("sched")).ok();
    let mut lines = sock.as_ref().map(|s| BufReader::new(s.try_clone().unwrap()));
    let mut directive = String::new();
    let mut gate = |sock: &mut Option<UnixStream>, what: &str, directive: &mut String| {
        if let Some(s) = sock {
            s.write_all(format!("{what}\n").as_bytes()).unwrap();
            directive.clear();
            if lines.as_mut().unwrap().read_line(directive).unwrap() == 0 {
                std::process::exit(99); // the harness went away
            }
        }
    };

    // 1. what was handed over
    gate(&mut sock, "begin", &mut directive);
    let mut log = String::new();
    let mut out: Option<PathBuf> = None;
    let mut inputs = vec![];
    let mut k = 0;
    while k < args.len() {
        log.push_str(&format!("arg {}\n", hex(args[k].as_bytes())));
        if (args[k] == "-o" || args[k] == "--output") && k + 1 < args.len() {
            k += 1;
            out = Some(PathBuf::from(&args[k]));
            log.push_str(&format!("arg {}\n", hex(args[k].as_bytes())));
        } else if let Ok(mut f) = fs::File::open(&args[k]) {
            let mut b = vec![];
            if f.read_to_end(&mut b).is_ok() {
                log.push_str(&format!("file {}\n", hex(&b)));
                inputs.push(PathBuf::from(&args[k]));
                // the name that goes with it, whatever it looks like
                if k + 1 < args.len() {
                    k += 1;
                    log.push_str(&format!("name {}\n", hex(args[k].as_bytes())));
                }
            }
        }
        k += 1;
    }
    let log_name = if sock.is_some() { format!("log.{}", std::process::id()) } else { "log".into() };
    fs::write(scratch.join(&log_name), log).unwrap();

    // 2. the merged module
    gate(&mut sock, &log_name, &mut directive);
    let get = |n: &str| fs::read(scratch.join(n)).ok();
    let body = if sock.is_some() { Some(directive.trim_end().as_bytes().to_vec()) } else { get("out") };
    if let (Some(b), Some(p)) = (body, &out) {
        if inside(p) {
            // as binaryen: open for writing, truncating
            fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).unwrap().write_all(&b).unwrap();
        }
    }
    match get("unlink").as_deref() {
        Some(b"inputs") => inputs.iter().filter(|p| inside(p)).for_each(|p| fs::remove_file(p).unwrap()),
        Some(b"output") => out.iter().filter(|p| inside(p)).for_each(|p| fs::remove_file(p).unwrap()),
        _ => {}
    }

    // 3. the ending
    gate(&mut sock, "wrote", &mut directive);
    if let Some(b) = get("stdout") {
        let _ = std::io::stdout().write_all(&b);
        let _ = std::io::stdout().flush();
    }
    let ending = if sock.is_some() { directive.trim_end().to_string() } else { String::from_utf8(get("ending").unwrap_or(b"0".to_vec())).unwrap() };
    if let Some(b) = get("stderr") {
        let _ = std::io::stderr().write_all(&b);
    }
    if let Some(sig) = ending.strip_prefix("sig") {
        unsafe {
            libc::signal(sig.parse().unwrap(), libc::SIG_DFL);
            libc::kill(libc::getpid(), sig.parse().unwrap());
            libc::pause();
        }
    }
    std::process::exit(ending.parse().unwrap());
}
