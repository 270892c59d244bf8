//! Exhaustive enumeration of what `MergeOptions::merge` can be asked and of what its environment can answer.
//! The external tool is replaced by `fake-tool` (first in PATH), which records exactly what reached it and then
//! behaves as the enumerated scenario says. All files live in one scratch directory, removed at the end.
mod explore;
use explore::Grain;
mod gate;
use gate::{Call, Fault, Mode};
use mc_common::{digits, hash_of, sequences, Ctx};
use serde_json::json;
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use wasm_merge::options::*;
use wasm_merge::{InputModule, MergeOptions};

/// The documented flag of every option, in the order of the fields below.
const FLAGS: [&str; 23] = [
    "--no-validation", "--rename-export-conflicts", "--enable-bulk-memory", "--enable-bulk-memory-opt",
    "--enable-call-indirect-overlong", "--enable-extended-const", "--enable-exception-handling", "--enable-fp16",
    "--enable-gc", "--enable-memory64", "--enable-multimemory", "--enable-multivalue", "--enable-mutable-globals",
    "--enable-nontrapping-float-to-int", "--enable-reference-types", "--enable-relaxed-simd",
    "--enable-shared-everything", "--enable-sign-ext", "--enable-simd", "--enable-strings", "--enable-tail-call",
    "--enable-threads", "--enable-typed-continuations",
];

macro_rules! set {
    ($m:expr, $mask:expr, $($i:literal $f:ident $t:ident),*) => { $( if $mask & (1 << $i) != 0 { $m.$f = $t::Enable; } )* };
}

type Mod = (Vec<u8>, String);

#[derive(Clone, Debug, PartialEq)]
enum Tool { Ready, Missing, NotExecutable, Garbage }
#[derive(Clone, Debug, PartialEq)]
enum Tmp { Normal, Missing, IsFile, Named(String) }

#[derive(Clone, Debug)]
struct Case {
    mask: u32,
    primary: Option<Mod>,
    mods: Vec<Mod>,
    out: Option<Vec<u8>>,
    stderr: Vec<u8>,
    stdout: Vec<u8>,
    ending: String,
    unlink: &'static str,
    nofile: Option<u64>,
    fsize: Option<u64>,
    tool: Tool,
    tmp: Tmp,
    /// Which of its system calls fail or transfer less than asked for.
    faults: Vec<(Call, usize, Fault)>,
}

impl Case {
    fn new() -> Case {
        Case {
            mask: 0, primary: None, mods: vec![], out: Some(b"\0asm\x01\0\0\0".to_vec()), stderr: vec![], stdout: vec![],
            ending: "0".into(), unlink: "", nofile: None, fsize: None, tool: Tool::Ready, tmp: Tmp::Normal, faults: vec![],
        }
    }
    fn all(&self) -> Vec<&Mod> {
        self.primary.iter().chain(self.mods.iter()).collect()
    }
    fn show(&self) -> String {
        let m = |m: &Mod| format!("({} bytes {:02x?}.., {:?})", m.0.len(), &m.0[..m.0.len().min(8)], m.1);
        format!(
            "options {:?}; primary {:?}; modules [{}]; tool {:?} writes {:?}, stderr {:?}, stdout {} bytes, ends {:?}, unlinks {:?}; TMPDIR {:?}; fd limit {:?}; file size limit {:?}; faults {:?}",
            (0..23).filter(|i| self.mask & (1 << i) != 0).map(|i| FLAGS[i]).collect::<Vec<_>>(),
            self.primary.as_ref().map(m),
            self.mods.iter().map(m).collect::<Vec<_>>().join(", "),
            self.tool,
            self.out.as_ref().map(|o| format!("{} bytes {:02x?}..", o.len(), &o[..o.len().min(8)])),
            String::from_utf8_lossy(&self.stderr[..self.stderr.len().min(60)]), self.stdout.len(), self.ending, self.unlink, self.tmp, self.nofile, self.fsize, self.faults
        )
    }
}

#[derive(Debug, Clone)]
enum Arg { Plain(Vec<u8>), File(Vec<u8>, Vec<u8>, Option<Vec<u8>>) }

#[derive(Debug)]
struct Obs {
    result: Result<Result<Vec<u8>, String>, String>, // outer Err: panic
    argv: Option<Vec<Arg>>,
    residue: Vec<String>,
    /// The faults that took place.
    fired: Vec<(Call, usize, Fault)>,
    calls: std::collections::BTreeMap<Call, usize>,
}
impl Obs {
    /// Nothing went wrong in the environment that a caller has to put up with: calls that were interrupted or
    /// transferred less than asked for are to be continued.
    fn benign(&self) -> bool {
        self.fired.iter().all(|(c, _, f)| match f {
            Fault::Short(_) | Fault::One => true,
            Fault::Errno(e) => *e == libc::EINTR || *c == Call::Create && *e == libc::EEXIST,
        })
    }
}

struct Bench { dir: PathBuf }

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn read_log(p: &Path) -> Option<Vec<Arg>> {
    let text = fs::read_to_string(p).ok()?;
    let mut v: Vec<Arg> = vec![];
    for l in text.lines() {
        let (k, h) = l.split_once(' ').unwrap();
        let h = unhex(h);
        match k {
            "arg" => v.push(Arg::Plain(h)),
            "file" => {
                let Some(Arg::Plain(path)) = v.pop() else { panic!("log") };
                v.push(Arg::File(path, h, None));
            }
            "name" => {
                let Some(Arg::File(_, _, n)) = v.last_mut() else { panic!("log") };
                *n = Some(h);
            }
            _ => panic!("log"),
        }
    }
    Some(v)
}

fn limit(res: u32, n: Option<u64>) -> u64 {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(res, &mut l);
        let old = l.rlim_cur;
        if let Some(n) = n {
            l.rlim_cur = n;
            assert_eq!(libc::setrlimit(res, &l), 0);
        }
        old
    }
}

impl Bench {
    fn new() -> Bench {
        let dir = PathBuf::from(std::env::var_os("MC_MERGE_ROOT").expect("MC_MERGE_ROOT"))
            .join(std::env::var("MC_SHARD").unwrap_or("solo".into()).replace('/', "of"));
        fs::create_dir_all(dir.join("tmp")).unwrap();
        fs::create_dir_all(dir.join("bin")).unwrap();
        let fake = std::env::current_exe().unwrap().parent().unwrap().join("fake-tool");
        fs::copy(fake, dir.join("fake")).unwrap();
        fs::hard_link(dir.join("fake"), dir.join("bin/wasm-merge")).unwrap();
        std::env::set_var("PATH", format!("{}:/usr/bin:/bin", dir.join("bin").display()));
        std::env::set_var("MC_MERGE_SCRATCH", &dir);
        // should a name reach a shell after all, its effects stay in here
        fs::create_dir_all(dir.join("cwd/deep")).unwrap();
        std::env::set_current_dir(dir.join("cwd/deep")).unwrap();
        std::env::set_var("HOME", dir.join("cwd/deep"));
        // an unprivileged user who owns nothing but this directory
        if unsafe { libc::geteuid() } == 0 {
            for d in ["", "tmp", "bin", "cwd", "cwd/deep", "fake"] {
                std::os::unix::fs::chown(dir.join(d), Some(65534), Some(65534)).unwrap();
            }
            unsafe {
                libc::setgroups(0, std::ptr::null());
                if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                    eprintln!("note: still root; effects are contained by the working directory only");
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
                libc::prctl(libc::PR_SET_DUMPABLE, 1, 0, 0, 0);
            }
        }
        unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); }
        Bench { dir }
    }
    fn put(&self, n: &str, v: Option<&[u8]>) {
        match v {
            Some(b) => fs::write(self.dir.join(n), b).unwrap(),
            None => { let _ = fs::remove_file(self.dir.join(n)); }
        }
    }
    fn merge(case: &Case, mode: &Mode) -> Result<Result<Vec<u8>, String>, String> {
        let mut o = MergeOptions {
            primary: case.primary.as_ref().map(|(b, n)| InputModule { module: b, namespace: n.clone() }),
            input_modules: case.mods.iter().map(|(b, n)| InputModule { module: b, namespace: n.clone() }).collect(),
            ..Default::default()
        };
        set!(o, case.mask, 0 no_validation NoValidate, 1 rename_export_conflicts RenameExportConflicts, 2 bulk_memory BulkMemory,
            3 bulk_memory_opt BulkMemoryOpt, 4 call_indirect_overlong CallIndirectOverlong, 5 extended_const ExtendedConst,
            6 exception_handling ExceptionHandling, 7 fp16 Fp16, 8 gc Gc, 9 memory64 Memory64, 10 multimemory Multimemory,
            11 multivalue Multivalue, 12 mutable_globals MutableGlobals, 13 nontrapping_float_to_int NontrappingFloatToInt,
            14 reference_types ReferenceTypes, 15 relaxed_simd RelaxedSimd, 16 shared_everything SharedEverything, 17 sign_ext SignExt,
            18 simd Simd, 19 strings Strings, 20 tail_call TailCall, 21 threads Threads, 22 typed_continuations TypedContinuations);
        mc_common::catch_on(case.show().as_bytes(), || gate::with(mode, || o.merge().map_err(|e| e.to_string())))
    }
    fn tmp_dir(&self, t: &Tmp) -> PathBuf {
        match t {
            Tmp::Named(n) => self.dir.join(n),
            _ => self.dir.join("tmp"),
        }
    }
    fn run(&self, case: &Case) -> Obs {
        self.put("out", case.out.as_deref());
        self.put("stderr", if case.stderr.is_empty() { None } else { Some(&case.stderr) });
        self.put("stdout", if case.stdout.is_empty() { None } else { Some(&case.stdout) });
        self.put("ending", Some(case.ending.as_bytes()));
        self.put("unlink", if case.unlink.is_empty() { None } else { Some(case.unlink.as_bytes()) });
        self.put("log", None);
        let tmp = self.tmp_dir(&case.tmp);
        match &case.tmp {
            Tmp::Normal | Tmp::Missing => {}
            Tmp::IsFile => { fs::remove_dir(&tmp).unwrap(); fs::write(&tmp, b"").unwrap(); }
            Tmp::Named(_) => fs::create_dir_all(&tmp).unwrap(),
        }
        std::env::set_var("TMPDIR", if case.tmp == Tmp::Missing { self.dir.join("nowhere") } else { tmp.clone() });
        let tool = self.dir.join("bin/wasm-merge");
        match case.tool {
            Tool::Ready => {}
            _ => {
                fs::remove_file(&tool).unwrap();
                if case.tool != Tool::Missing {
                    fs::write(&tool, b"\x7fELFnot really").unwrap();
                    use std::os::unix::fs::PermissionsExt;
                    fs::set_permissions(&tool, fs::Permissions::from_mode(if case.tool == Tool::Garbage { 0o755 } else { 0o644 })).unwrap();
                }
            }
        }
        let fds = case.nofile.map(|k| limit(libc::RLIMIT_NOFILE, Some(open_fds() + k)));
        let fsz = case.fsize.map(|k| limit(libc::RLIMIT_FSIZE, Some(k)));
        let mode = Mode::faults(&case.faults);
        let result = Self::merge(case, &mode);
        if let Some(n) = fds { limit(libc::RLIMIT_NOFILE, Some(n)); }
        if let Some(n) = fsz { limit(libc::RLIMIT_FSIZE, Some(n)); }
        if case.tool != Tool::Ready {
            let _ = fs::remove_file(&tool);
            fs::hard_link(self.dir.join("fake"), &tool).unwrap();
        }
        let argv = read_log(&self.dir.join("log"));
        let mut residue = vec![];
        if case.tmp == Tmp::IsFile {
            fs::remove_file(&tmp).unwrap();
            fs::create_dir(&tmp).unwrap();
        } else {
            for e in fs::read_dir(&tmp).unwrap() {
                let e = e.unwrap();
                // Without a descriptor a directory cannot even be emptied.
                let excused = case.nofile.is_some() && e.file_type().is_ok_and(|t| t.is_dir());
                if !excused { residue.push(e.file_name().to_string_lossy().to_string()); }
                scrap(&e.path());
            }
            if let Tmp::Named(_) = case.tmp { fs::remove_dir(&tmp).unwrap(); }
        }
        if self.dir.join("nowhere").exists() { residue.push("TMPDIR was created".into()); let _ = fs::remove_dir_all(self.dir.join("nowhere")); }
        // anything else that should not be in the scratch directory
        for e in fs::read_dir(&self.dir).unwrap() {
            let n = e.unwrap().file_name().to_string_lossy().to_string();
            if !["tmp", "bin", "cwd", "fake", "out", "stderr", "stdout", "ending", "unlink", "log", "sched"].contains(&n.as_str()) {
                residue.push(format!("../{n}"));
            }
        }
        Obs { result, argv, residue, fired: mode.fired(), calls: mode.calls() }
    }
}

fn scrap(p: &Path) {
    if p.symlink_metadata().is_ok_and(|m| m.is_dir()) { let _ = fs::remove_dir_all(p); } else { let _ = fs::remove_file(p); }
}

fn open_fds() -> u64 {
    fs::read_dir("/proc/self/fd").unwrap().count() as u64 - 1
}

struct Parsed { flags: Vec<String>, pairs: Vec<(Vec<u8>, Option<Vec<u8>>)>, paths: Vec<Vec<u8>>, out: Vec<Vec<u8>> }

fn parse(argv: &[Arg]) -> Parsed {
    let mut p = Parsed { flags: vec![], pairs: vec![], paths: vec![], out: vec![] };
    let mut k = 0;
    while k < argv.len() {
        match &argv[k] {
            Arg::File(path, bytes, name) => {
                p.paths.push(path.clone());
                p.pairs.push((bytes.clone(), name.clone()));
            }
            Arg::Plain(a) if a == b"-o" || a == b"--output" => {
                k += 1;
                if let Some(Arg::Plain(x)) = argv.get(k) { p.out.push(x.clone()); }
            }
            Arg::Plain(a) => p.flags.push(String::from_utf8_lossy(a).to_string()),
        }
        k += 1;
    }
    p
}

fn key(case: &Case) -> String { case.show() }

/// Flags, modules and the output path that reached the tool.
fn check_invocation(ctx: &Ctx, case: &Case, obs: &Obs, flags: bool, modules: bool) {
    let fail = |why: String| ctx.violation(&key(case), || format!("{why}\ncase: {}\nobserved: {:?}", case.show(), short(obs)));
    let Some(argv) = &obs.argv else { return fail("the tool was never invoked".into()) };
    let p = parse(argv);
    if flags {
        let mut got = p.flags.clone();
        got.sort();
        got.dedup();
        let mut want: Vec<String> = (0..23).filter(|i| case.mask & (1 << i) != 0).map(|i| FLAGS[i].to_string()).collect();
        want.sort();
        if got != want { fail(format!("options given to the tool: {got:?}, expected {want:?}")); }
    }
    if modules {
        let want: Vec<(Vec<u8>, Option<Vec<u8>>)> = case.all().iter().map(|(b, n)| (b.clone(), Some(n.as_bytes().to_vec()))).collect();
        if p.pairs != want {
            let show = |v: &[(Vec<u8>, Option<Vec<u8>>)]| v.iter().map(|(b, n)| format!("({} bytes #{:x}, {:?})", b.len(), hash_of(b) & 0xffff, n.as_ref().map(|n| String::from_utf8_lossy(n).to_string()))).collect::<Vec<_>>();
            fail(format!("modules given to the tool: {:?}, expected {:?}", show(&p.pairs), show(&want)));
        }
        if !flags && p.flags.iter().any(|f| !f.starts_with("--")) { fail(format!("stray arguments {:?}", p.flags)); }
        let mut all: Vec<&Vec<u8>> = p.paths.iter().chain(p.out.iter()).collect();
        let n = all.len();
        all.sort();
        all.dedup();
        if all.len() != n { fail("two roles share one file".into()); }
        if p.out.len() != 1 { fail(format!("{} output paths", p.out.len())); }
    }
}

fn short(o: &Obs) -> String {
    let r = match &o.result {
        Err(p) => format!("panic: {p}"),
        Ok(Err(e)) => format!("error: {}", e.chars().take(200).collect::<String>()),
        Ok(Ok(b)) => format!("ok, {} bytes {:02x?}..", b.len(), &b[..b.len().min(12)]),
    };
    let a = o.argv.as_ref().map(|v| v.iter().map(|a| match a {
        Arg::Plain(x) => String::from_utf8_lossy(x).to_string(),
        Arg::File(p, b, n) => format!("{}<{} bytes> {:?}", String::from_utf8_lossy(p), b.len(), n.as_ref().map(|n| String::from_utf8_lossy(n).to_string())),
    }).collect::<Vec<_>>());
    format!("{r}; tool saw {a:?}; left behind {:?}", o.residue)
}

/// Success exactly when the tool ended with status 0 and an empty error stream; then exactly its output.
fn check_outcome(ctx: &Ctx, case: &Case, obs: &Obs) {
    let fail = |why: &str| ctx.violation(&key(case), || format!("{why}\ncase: {}\nobserved: {:?}", case.show(), short(obs)));
    let ran = obs.argv.is_some();
    let good = ran && case.tool == Tool::Ready && case.ending == "0" && case.stderr.is_empty();
    match &obs.result {
        Err(_) => fail("panicked"),
        Ok(Ok(b)) => {
            if !good { return fail("reported as merged although the tool did not succeed"); }
            if case.unlink == "output" { return; }
            if *b != case.out.clone().unwrap_or_default() { fail("the result is not what the tool wrote"); }
        }
        Ok(Err(e)) => {
            if good && case.out.is_some() && case.unlink != "output" && case.nofile.is_none() && case.fsize.is_none() && obs.benign() {
                return fail("reported as failed although the tool succeeded");
            }
            if ran && !case.stderr.is_empty() && case.nofile.is_none() && obs.benign() {
                let want = String::from_utf8_lossy(&case.stderr);
                if !e.contains(want.trim()) { fail("the error does not carry what the tool reported"); }
            }
            if e.trim().is_empty() { fail("the error says nothing"); }
        }
    }
}

fn check_residue(ctx: &Ctx, case: &Case, obs: &Obs) {
    if !obs.residue.is_empty() {
        ctx.violation(&key(case), || format!("temporary files left behind: {:?}\ncase: {}\nobserved: {}", obs.residue, case.show(), short(obs)));
    }
}

fn blob(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => b"\0asm\x01\0\0\0".to_vec(),
        2 => (0..=255u8).collect(),
        3 => (0..70_000u32).map(|i| (i.wrapping_mul(i) >> 7) as u8).collect(),
        4 => b"\n\r\n \0\0".to_vec(),
        _ => (0..300_000u32).map(|i| (i ^ (i >> 5)) as u8).collect(),
    }
}

fn subsets(n: u32, k: u32) -> Vec<u32> {
    (0..1u32 << n).filter(|m| m.count_ones() <= k || m.count_ones() >= n - k).collect()
}

/// What a module may look like from outside: a binary or a text, and what can stand before and after it.
fn contents() -> Vec<Vec<u8>> {
    let around: [&[u8]; 9] = [b"", b" ", b"\n", b"\r\n", b"\0", b"\xef\xbb\xbf", b"\t;; c\n", b"\xff", b"warning: x\n"];
    let cores: [&[u8]; 7] = [b"\0asm\x01\0\0\0", b"(module)", b"(module\r\n  (func (export \"f\")) )", b"\0asm\x01\0\0\0\0\x04\x03abc", b"\0asm\x0d\0\x01\0", b"#!/bin/sh\n", b""];
    let mut v: Vec<Vec<u8>> = vec![];
    for core in cores {
        for before in around {
            for after in around { v.push([before, core, after].concat()); }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// 1, 2, and every power of two up to 2^k with its neighbours
fn boundary_sizes(k: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=k).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1]).filter(|n| *n > 0).collect();
    v.sort();
    v.dedup();
    v
}

/// Every fault that can befall one system call of a merge of n modules. `benign`: only those a caller has to put up with.
fn fault_menu(n: usize, benign: bool) -> Vec<(Call, usize, Fault)> {
    use Fault::*;
    use libc::*;
    let e = |l: &[i32]| l.iter().map(|e| Errno(*e)).collect::<Vec<_>>();
    let menu: Vec<(Call, usize, Vec<Fault>)> = if benign {
        vec![
            (Call::Create, n + 2, e(&[EINTR, EEXIST])), (Call::Open, 2, e(&[EINTR])), (Call::Write, n + 2, vec![Errno(EINTR), One, Short(1)]), (Call::ReadFile, 4, vec![Errno(EINTR), One, Short(1)]),
            (Call::ReadPipe, 4, vec![Errno(EINTR), One]), (Call::Poll, 3, e(&[EINTR])), (Call::Wait, 2, e(&[EINTR])),
        ]
    } else {
        vec![
            (Call::Create, n + 2, e(&[EMFILE, ENFILE, ENOSPC, EACCES, EINTR, EROFS, EEXIST])), (Call::Open, 2, e(&[EMFILE, ENFILE, EACCES, EINTR])), (Call::Write, n + 2, [e(&[ENOSPC, EIO, EDQUOT, EINTR, EFBIG]), vec![One, Short(1)]].concat()),
            (Call::ReadFile, 4, vec![Errno(EIO), Errno(EINTR), One, Short(1)]), (Call::ReadPipe, 4, vec![Errno(EINTR), One]), (Call::Poll, 3, e(&[EINTR])), (Call::Wait, 2, e(&[EINTR])),
            (Call::Pipe, 3, e(&[EMFILE, ENFILE])), (Call::Spawn, 2, e(&[EAGAIN, ENOMEM, ENOENT, EACCES, E2BIG])), (Call::Unlink, n + 2, e(&[EBUSY, EIO])), (Call::Make, n + 2, e(&[ENOSPC])),
        ]
    };
    menu.into_iter().flat_map(|(c, k, fs)| (0..k).flat_map(move |i| fs.clone().into_iter().map(move |f| (c, i, f)))).collect()
}

/// Every set of one or two faults at different calls; in the thorough tier also every three of those a caller puts up with.
fn fault_plans(n: usize, benign: bool, thorough: bool) -> Vec<Vec<(Call, usize, Fault)>> {
    let m = fault_menu(n, benign);
    let mut v: Vec<Vec<_>> = m.iter().map(|f| vec![*f]).collect();
    let apart = |a: &(Call, usize, Fault), b: &(Call, usize, Fault)| (a.0, a.1) != (b.0, b.1);
    for (i, a) in m.iter().enumerate() {
        for (j, b) in m[i + 1..].iter().enumerate().filter(|(_, b)| apart(a, b)) {
            v.push(vec![*a, *b]);
            if benign && thorough {
                for c in m[i + j + 2..].iter().filter(|c| apart(a, c) && apart(b, c)) { v.push(vec![*a, *b, *c]); }
            }
        }
    }
    v
}

/// The cases of one worker: every n-th.
struct Share { at: u64, k: u64, n: u64, cases: Vec<(u64, Case)> }
impl Share {
    fn push(&mut self, c: Case) {
        if self.at % self.n == self.k { self.cases.push((self.at, c)); }
        self.at += 1;
    }
}

fn cases(id: &str, thorough: bool, k: u64, n: u64) -> Vec<(u64, Case)> {
    let base = Case::new();
    let mut v = Share { at: 0, k, n, cases: vec![] };
    let md = |b: usize, n: &str| (blob(b), n.to_string());
    match id {
        "C10" => {
            for m in subsets(23, if thorough { 5 } else { 3 }) {
                let (primary, mods) = match m % 4 {
                    0 => (None, vec![]),
                    1 => (Some(md(1, "p")), vec![]),
                    2 => (None, vec![md(1, "a"), md(4, "b")]),
                    _ => (Some(md(1, "p")), vec![md(4, "b")]),
                };
                v.push(Case { mask: m, primary, mods, ..base.clone() });
            }
            // every number of modules with each option alone, all but one, all and none
            for n in (0..=(if thorough { 40 } else { 12 })).chain([17, 33, 65]) {
                let all: Vec<Mod> = (0..n).map(|i| (vec![i as u8; i % 5], format!("m{i}"))).collect();
                for m in subsets(23, 1) {
                    for p in [0, 1.min(n)] {
                        v.push(Case { mask: m, primary: (p == 1).then(|| all[0].clone()), mods: all[p..].to_vec(), ..base.clone() });
                    }
                }
            }
        }
        "C11" => {
            let nb = 3;
            let names = ["ns", "other", "é", "wastrumentation_stack"];
            let maxlen = if thorough { 4 } else { 3 };
            let al: Vec<(usize, usize)> = (0..nb).flat_map(|b| (0..4).map(move |n| (b, n))).collect();
            let mk = |x: &usize| md(al[*x].0, names[al[*x].1]);
            for s in sequences(al.len(), 0, maxlen) {
                v.push(Case { mods: s.iter().map(mk).collect(), ..base.clone() });
                if !s.is_empty() {
                    v.push(Case { primary: Some(mk(&s[0])), mods: s[1..].iter().map(mk).collect(), ..base.clone() });
                }
            }
            // lengths and sizes, all modules different and all the same
            for n in [5usize, 8, 9, 12, 16, 17, 26, 32, 33, 40, 64, 65, 100, 129, 257] {
                for p in [0, 1] {
                    for same in [false, true] {
                        let all: Vec<Mod> = (0..n).map(|i| {
                            let mut b = blob(if same { 3 } else { [3, 2, 4, 1][i % 4] });
                            if !same { b.push(i as u8); }
                            (b, if same { "ns".into() } else { format!("n{i}") })
                        }).collect();
                        v.push(Case { primary: (p == 1).then(|| all[0].clone()), mods: all[p..].to_vec(), ..base.clone() });
                    }
                }
            }
            for b in contents() {
                v.push(Case { primary: Some((b.clone(), "p".into())), mods: vec![md(1, "a")], ..base.clone() });
                v.push(Case { mods: vec![md(1, "a"), (b, "b".into())], ..base.clone() });
            }
            for len in boundary_sizes(if thorough { 25 } else { 22 }) {
                let b: Vec<u8> = (0..len).map(|i| (i * 31 + (i >> 8)) as u8).collect();
                let mut c = b.clone();
                c.reverse();
                v.push(Case { primary: Some((b.clone(), "x".into())), mods: vec![(c.clone(), "x".into())], ..base.clone() });
                v.push(Case { mods: vec![(c, "x".into()), (b, "y".into())], ..base.clone() });
            }
            // interrupted and partial transfers, and every error that a call may meet: what the tool gets is complete or it gets nothing
            for (primary, mods) in [(None, vec![md(2, "a")]), (Some(md(3, "p")), vec![md(2, "a"), md(4, "b")])] {
                let n = mods.len() + primary.iter().len();
                for faults in fault_plans(n, true, thorough).into_iter().chain(fault_plans(n, false, thorough)) {
                    v.push(Case { primary: primary.clone(), mods: mods.clone(), faults, ..base.clone() });
                }
            }
            // the disk fills up
            for len in [1usize, 5, 4095, 4096, 4097, 8192, 70_000] {
                for lim in [0, 1, len as u64 / 2, len as u64 - 1, len as u64] {
                    let m = |n: &str| ((0..len).map(|i| (i * 31 + (i >> 8)) as u8).collect::<Vec<u8>>(), n.to_string());
                    v.push(Case { mods: vec![m("a")], fsize: Some(lim), ..base.clone() });
                    v.push(Case { primary: Some(md(1, "p")), mods: vec![m("a"), md(4, "b")], fsize: Some(lim), ..base.clone() });
                }
            }
        }
        "C12" | "C13" => {
            let errs: Vec<Vec<u8>> = vec![vec![], b"x".to_vec(), b"Fatal: error in parsing input\n".to_vec(), b"\xff\xfe".to_vec(), b"\nfirst line\n\n  second \xe9 line\r\n".to_vec(), b"\n".to_vec(), vec![b'w'; 200_000]];
            let outs: Vec<Option<Vec<u8>>> = vec![Some(blob(1)), None, Some(vec![]), Some(blob(2)), Some(blob(3)), Some(blob(5)), Some(b"caf\xc3".to_vec())];
            let stdo: Vec<Vec<u8>> = vec![vec![], b"noise\n".to_vec(), vec![b'o'; 200_000]];
            let ends = ["0", "1", "2", "3", "101", "126", "127", "128", "137", "255", "sig9", "sig11", "sig15", "sig6", "sig2", "sig13"];
            let shapes: Vec<(Option<Mod>, Vec<Mod>)> = vec![
                (None, vec![]), (Some(md(1, "p")), vec![]), (None, vec![md(1, "a"), md(2, "b")]), (Some(md(3, "p")), vec![md(1, "a"), md(4, "b")]),
            ];
            for o in &outs { for e in &errs { for so in &stdo { for end in ends { for (i, (p, m)) in shapes.iter().enumerate() {
                if !thorough && (e.len() > 1000 || so.len() > 1000 || o.as_ref().is_some_and(|o| o.len() > 1000)) && i != 3 { continue; }
                v.push(Case { out: o.clone(), stderr: e.clone(), stdout: so.clone(), ending: end.into(), primary: p.clone(), mods: m.clone(), ..base.clone() });
            }}}}}
            for (p, m) in &shapes {
                let c = Case { primary: p.clone(), mods: m.clone(), ..base.clone() };
                for tool in [Tool::Missing, Tool::NotExecutable, Tool::Garbage] {
                    for tmp in [Tmp::Normal, Tmp::Missing, Tmp::IsFile] {
                        v.push(Case { tool: tool.clone(), tmp, ..c.clone() });
                    }
                }
                for tmp in [Tmp::Missing, Tmp::IsFile] { v.push(Case { tmp, ..c.clone() }); }
                for unlink in ["inputs", "output"] {
                    for end in ["0", "1", "sig9"] { v.push(Case { unlink, ending: end.into(), ..c.clone() }); }
                }
                // every point at which file descriptors can run out
                for k in 0..=(if thorough { 64 } else { 32 }) { for end in ["0", "1"] { v.push(Case { nofile: Some(k), ending: end.into(), ..c.clone() }); } }
            }
            // every error, interruption or partial transfer at every system call, and every two of them
            for (i, (p, m)) in shapes.iter().enumerate() {
                for (j, faults) in fault_plans(m.len() + p.iter().len(), false, thorough).into_iter().enumerate() {
                    for (k, (end, err)) in [("0", &b""[..]), ("1", b"Fatal: no"), ("0", b"warning"), ("sig9", b"")].into_iter().enumerate() {
                        if !thorough && k > 0 && (i == 3 || (i + j + k) % 2 == 0) { continue; }
                        v.push(Case { primary: p.clone(), mods: m.clone(), out: Some(blob(if i == 3 { 5 } else { 2 })), ending: end.into(), stderr: err.to_vec(), faults: faults.clone(), ..base.clone() });
                    }
                }
            }
            for (i, out) in contents().into_iter().enumerate() {
                let (p, m) = &shapes[i % shapes.len()];
                for end in ["0", "1"] {
                    v.push(Case { out: Some(out.clone()), ending: end.into(), primary: p.clone(), mods: m.clone(), ..base.clone() });
                }
            }
            // every number of modules, and how the tool ends
            for n in (0..=(if thorough { 40 } else { 20 })).chain([64, 65, 129]) {
                let all: Vec<Mod> = (0..n).map(|i| (vec![i as u8; i % 5], format!("m{i}"))).collect();
                for end in ends {
                    for (e, p) in [(&b""[..], 0), (b"", 1), (b"warning", 0), (b"warning", 1)] {
                        let p = p.min(n);
                        v.push(Case { stderr: e.to_vec(), ending: end.into(), primary: (p == 1).then(|| all[0].clone()), mods: all[p..].to_vec(), ..base.clone() });
                    }
                }
            }
            // every size of output around a power of two
            for (i, len) in boundary_sizes(if thorough { 25 } else { 23 }).into_iter().enumerate() {
                let (p, m) = &shapes[i % shapes.len()];
                let out: Vec<u8> = (0..len).map(|i| (i * 7 + (i >> 9)) as u8).collect();
                for end in ["0", "1"] {
                    v.push(Case { out: Some(out.clone()), ending: end.into(), primary: p.clone(), mods: m.clone(), ..base.clone() });
                }
            }
            // every point at which the disk can fill up while the inputs are written
            let sizes: Vec<Vec<usize>> = sequences(4, 1, if thorough { 4 } else { 3 });
            for s in sizes {
                let all: Vec<Mod> = s.iter().enumerate().map(|(i, l)| (vec![i as u8 + 1; [0, 3, 7, 12][*l]], format!("m{i}"))).collect();
                for lim in 0..=12u64 {
                    v.push(Case { primary: (s.len() % 2 == 0).then(|| all[0].clone()), mods: all[if s.len() % 2 == 0 { 1 } else { 0 }..].to_vec(), fsize: Some(lim), ..base.clone() });
                }
            }
        }
        "C14" => {
            let mut names: Vec<String> = (1..=255u8).filter(|b| b.is_ascii()).map(|b| (b as char).to_string()).collect();
            let parts = ["a", " ", "$", "`", "\"", "'", ";", "&", "|", "*", "?", "(", ")", "<", ">", "\\", "\n", "\t", "#", "~", "!", "{", "}", "[", "]", "=", "%", "-", "--", "é", "🟢", "$HOME", "-o", "./", "..", "@", "^", ":", ",", "\r", "\u{1}", "\u{7f}", "$(id)", "${PATH}", "''", "\"\"", "2>", "+", "/", "e\u{301}", "\u{feff}", "Az"];
            for s in sequences(parts.len(), 0, 3) { names.push(s.iter().map(|i| parts[*i]).collect()); }
            names.extend(["a b c", "a  b", " lead", "trail ", "$(touch x)", "a;exit 1", "x -o /dev/null", "--help", "--enable-gc", "-o", "--output", "a\u{0}b", "\u{0}", "wasi_snapshot_preview1", "./ns", "a=b"].map(String::from));
            names.push("n".repeat(100_000));
            names.sort();
            names.dedup();
            for (i, n) in names.iter().enumerate() {
                if thorough || i % 2 == 0 {
                    v.push(Case { primary: Some((blob(1), n.clone())), mods: vec![md(2, "x")], ..base.clone() });
                }
                if thorough || i % 2 == 1 {
                    v.push(Case { mods: vec![md(2, "x"), (blob(1), n.clone()), (blob(4), n.clone())], ..base.clone() });
                }
            }
            for d in parts.iter().filter(|p| !["./", "..", ">", "2>"].contains(p)).flat_map(|p| [format!("d{p}"), format!("{p}d"), format!("d{p}e f")]) {
                if d.contains('/') { continue; }
                v.push(Case { tmp: Tmp::Named(d), mods: vec![md(1, "a"), md(2, "b c")], primary: Some(md(4, "p")), ..base.clone() });
            }
        }
        _ => panic!("no cases"),
    }
    v.cases
}

fn worker(ctx: Ctx, k: u64, n: u64) -> ! {
    let bench = Bench::new();
    if ctx.id == "C15" {
        schedules(&ctx, &bench, k, n);
        ctx.export();
    }
    for (i, case) in &cases(&ctx.id, ctx.thorough, k, n) {
        let obs = bench.run(case);
        ctx.add("evaluations", 1);
        ctx.distinct("distinct_nontrivial", hash_of(&case.show()));
        ctx.distinct("distinct_outcomes", hash_of(&match &obs.result { Ok(Ok(b)) => format!("ok {}", hash_of(b)), Ok(Err(e)) => { let mut e = e.split("/tmp").next().unwrap().to_string(); e.truncate(e.char_indices().nth(40).map_or(e.len(), |x| x.0)); e } Err(_) => "panic".into() }));
        ctx.add(match &obs.result { Ok(Ok(_)) => "merged", Ok(Err(_)) => "failed", Err(_) => "panicked" }, 1);
        if obs.argv.is_some() { ctx.add("tool_invocations", 1); }
        if !case.faults.is_empty() {
            ctx.add("fault_plans", 1);
            ctx.add("faults_fired", obs.fired.len() as u64);
            for f in &obs.fired { ctx.distinct("distinct_faults", hash_of(&format!("{f:?}"))); }
        }
        match ctx.id.as_str() {
            "C10" => check_invocation(&ctx, case, &obs, true, false),
            // the tool either sees everything or is not started
            "C11" => if obs.argv.is_some() || case.fsize.is_none() && obs.benign() { check_invocation(&ctx, case, &obs, true, true) },
            "C12" => check_outcome(&ctx, case, &obs),
            "C13" => if !obs.fired.iter().any(|f| f.0 == Call::Unlink) { check_residue(&ctx, case, &obs) },
            "C14" => {
                if case.all().iter().any(|m| m.1.contains('\0')) {
                    // cannot be passed to a process at all: it must not be merged under another name
                    if matches!(obs.result, Ok(Ok(_)) | Err(_)) { check_invocation(&ctx, case, &obs, false, true); }
                } else {
                    check_invocation(&ctx, case, &obs, true, true);
                    if obs.argv.is_some() { check_outcome(&ctx, case, &obs); }
                }
                check_residue(&ctx, case, &obs);
            }
            _ => unreachable!(),
        }
        if i / n % 400 == 7 { ctx.sample(json!(case.show())); }
    }
    ctx.export()
}

// ---------------------------------------------------------------------------------------------
// C15: concurrent merges

struct Live { stream: UnixStream, lines: BufReader<UnixStream>, log: Option<String> }

impl Live {
    fn line(&mut self) -> String {
        let mut s = String::new();
        self.lines.read_line(&mut s).unwrap();
        s.trim_end().to_string()
    }
    fn go(&mut self, d: &str) { self.stream.write_all(format!("{d}\n").as_bytes()).unwrap(); }
}

/// Plan of one concurrent merge.
#[derive(Clone, Debug)]
struct Plan { case: Case, body: String, ending: &'static str }

/// Each merge got what it would have got alone, and nothing is left.
fn judge(ctx: &Ctx, bench: &Bench, plans: &[Plan], o: &[Obs], sched: &str, describe: &dyn Fn(&[Obs]) -> String) {
    for (p, ob) in plans.iter().zip(o) {
        let hurt = !ob.benign();
        let want = if p.ending == "0" { Some(p.body.clone().into_bytes()) } else { None };
        let got = match &ob.result { Ok(Ok(b)) => Some(b.clone()), _ => None };
        let pairs = ob.argv.as_ref().map(|a| parse(a));
        let wp: Vec<_> = p.case.all().iter().map(|(b, n)| (b.clone(), Some(n.as_bytes().to_vec()))).collect();
        let wf: Vec<String> = { let mut f: Vec<String> = (0..23).filter(|i| p.case.mask & (1 << i) != 0).map(|i| FLAGS[i].to_string()).collect(); f.sort(); f };
        let gf = pairs.as_ref().map(|p| { let mut f = p.flags.clone(); f.sort(); f.dedup(); f });
        let told = pairs.as_ref().map(|p| p.pairs.clone()) == Some(wp) && gf == Some(wf);
        let ok = if hurt { ob.result.is_ok() && (got.is_none() || got == want) && (pairs.is_none() || told) } else { ob.result.is_ok() && got == want && told };
        if !ok {
            ctx.violation(&format!("{sched} {}", p.case.show()), || format!("a merge was disturbed by another one\n{}", describe(o)));
        }
    }
    if std::env::current_dir().ok() != Some(bench.dir.join("cwd/deep")) {
        ctx.violation(sched, || format!("the working directory of the process is another one now\n{}", describe(o)));
        std::env::set_current_dir(bench.dir.join("cwd/deep")).unwrap();
    }
    let left: Vec<_> = fs::read_dir(bench.dir.join("tmp")).unwrap().map(|e| e.unwrap().path()).collect();
    if !left.is_empty() {
        ctx.violation(sched, || format!("left behind {left:?}\n{}", describe(o)));
        for l in left { scrap(&l); }
    }
}

/// Interleavings at every system call, up to a bound on preemptions.
fn fine(ctx: &Ctx, bench: &Bench, listener: &UnixListener, plans: &[Plan], bound: usize, grain: Grain, k: u64, n: u64) {
    let mut first = true;
    let mut count = 0u64;
    explore::explore(bench, listener, plans, bound, grain, &|h| h % n == k, &mut |prefix, r| {
        let r = match r {
            Ok(r) => r,
            Err(e) => { ctx.violation(&format!("{prefix:?}"), || format!("{e} after {prefix:?}: {plans:?}")); return None }
        };
        let all: Vec<usize> = r.trace.iter().map(|s| s.chosen).collect();
        let describe = |o: &[Obs]| format!("choices {all:?} (which merge goes on; grain {grain:?})\n{}", plans.iter().zip(o).enumerate().map(|(i, (p, o))| format!("merge {i}: {} writes {:?} ends {}: {}", p.case.show(), p.body, p.ending, short(o))).collect::<Vec<_>>().join("\n"));
        judge(ctx, bench, plans, &r.obs, &format!("{all:?}"), &describe);
        if first {
            first = false;
            let again = explore::run(bench, listener, plans, &all, grain).unwrap();
            assert!(again.trace.iter().map(|s| s.chosen).eq(all.iter().copied()), "replay diverged");
            ctx.add("schedules_replayed", 1);
        }
        ctx.add("traces_validated_against_impl", 1);
        // every choice past the prefix is a node of the tree of schedules that was not visited before
        ctx.add("states", (all.len() - prefix.len()) as u64);
        ctx.add(match grain { Grain::Call => "executions_by_system_call", _ => "executions_by_tool_step" }, 1);
        ctx.add("transitions", all.len() as u64);
        ctx.distinct("distinct_schedules", hash_of(&format!("{plans:?}{all:?}")));
        count += 1;
        if count % 700 == 9 { ctx.sample(json!(format!("{all:?}"))); }
        (ctx.n_violations() < 60).then_some(r.trace)
    });
}

fn schedules(ctx: &Ctx, bench: &Bench, k: u64, n: u64) {
    for f in ["out", "stderr", "stdout", "unlink", "ending"] { bench.put(f, None); }
    std::env::set_var("TMPDIR", bench.dir.join("tmp"));
    let listener = UnixListener::bind(bench.dir.join("sched")).unwrap();
    listener.set_nonblocking(true).unwrap();
    let base = Case::new();
    // what the merges are: (kind, description); they collide on purpose
    let mk = |b: &[u8], ns: &str, prim: bool, mask: u32| {
        let m = (b.to_vec(), ns.to_string());
        if prim { Case { primary: Some(m), mods: vec![(b"tail".to_vec(), ns.into())], mask, ..base.clone() } } else { Case { mods: vec![m, (b"tail".to_vec(), "t".into())], mask, ..base.clone() } }
    };
    let menus: Vec<Vec<Case>> = vec![
        vec![mk(b"same", "ns", false, 0), mk(b"same", "ns", false, 0), mk(b"same", "ns", false, 0)],
        vec![mk(b"one", "ns", true, 1), mk(b"two", "ns", true, 2), mk(b"three", "ns", true, 4)],
        vec![mk(b"one", "x", false, 3), mk(b"longer than that", "y", true, 0), mk(b"", "x", false, 5)],
    ];
    let ends: Vec<[&'static str; 3]> = vec![["0", "0", "0"], ["0", "1", "0"], ["1", "0", "0"], ["sig9", "0", "1"], ["1", "sig9", "0"]];
    let plan = |c: &Case, i: usize, e: &'static str| Plan { case: c.clone(), body: format!("OUT{i}{}", "z".repeat(i * 9)), ending: e };
    for (mi, m) in menus.iter().enumerate() {
        for (ei, e) in ends.iter().enumerate() {
            let two: Vec<Plan> = (0..2).map(|i| plan(&m[i], i, e[i])).collect();
            let three: Vec<Plan> = (0..3).map(|i| plan(&m[i], i, e[i])).collect();
            // no bound on preemptions at the coarser grains
            fine(ctx, bench, &listener, &two, usize::MAX, Grain::Step, k, n);
            if ei == 0 || mi == 1 || ctx.thorough { fine(ctx, bench, &listener, &three, usize::MAX, Grain::Tool, k, n); }
            fine(ctx, bench, &listener, &two, if ctx.thorough || ei == 0 || mi == 1 { 3 } else { 2 }, Grain::Call, k, n);
            if ei == 0 || ctx.thorough {
                fine(ctx, bench, &listener, &three, if ei == 0 && (ctx.thorough || mi == 1) { 2 } else { 1 }, Grain::Call, k, n);
            }
        }
    }
    // one merge meets trouble, the other must not notice
    for f in [(Call::Create, 0, Fault::Errno(libc::ENOSPC)), (Call::Create, 1, Fault::Errno(libc::EMFILE)), (Call::Write, 0, Fault::Errno(libc::ENOSPC)), (Call::Write, 1, Fault::One), (Call::Spawn, 0, Fault::Errno(libc::EAGAIN)), (Call::ReadFile, 0, Fault::Errno(libc::EIO)), (Call::ReadFile, 0, Fault::One)] {
        for m in &menus[..2] {
            let mut two: Vec<Plan> = (0..2).map(|i| plan(&m[i], i, "0")).collect();
            two[0].case.faults = vec![f];
            fine(ctx, bench, &listener, &two, if ctx.thorough { 2 } else { 1 }, Grain::Call, k, n);
        }
    }
    drop(listener);
    let _ = fs::remove_file(bench.dir.join("sched"));
}

fn main() {
    mc_common::quiet_panics();
    let id = std::env::args().nth(1).expect("usage: merge-mc <property>");
    let ctx = Ctx::new(&id);
    if let Some((k, n)) = Ctx::shard() {
        mc_common::watch(&ctx);
        worker(ctx, k, n);
    }
    let root = std::env::temp_dir().join(format!("merge-mc.{}.{}", id, std::process::id()));
    fs::create_dir_all(&root).unwrap();
    std::env::set_var("MC_MERGE_ROOT", &root);
    let ran = mc_common::caught(|| ctx.run_shards(8));
    if let Err(e) = ran { let _ = fs::remove_dir_all(&root); eprintln!("{e}"); std::process::exit(3); }
    fs::remove_dir_all(&root).unwrap();
    let rule = match id.as_str() {
        "C10" => "every set of enabled options with few or nearly all options on, run through merge(); the options that reached the tool are compared with the documented flags; distinct = distinct cases",
        "C11" => "every sequence of modules over small byte and namespace alphabets with and without a primary, plus long and large ones; distinct = distinct cases",
        "C12" | "C13" => "every combination of what the tool writes, says and how it ends, and every point at which descriptors or disk space run out; distinct = distinct cases",
        "C14" => "every string over an alphabet of shell-significant fragments up to the bound as namespace or in the temporary directory's path; distinct = distinct cases",
        _ => "every interleaving of the steps of concurrent merges over colliding inputs within the bounds on preemptions; a state is a node of the tree of schedules (a sequence of choices), a transition is a step of a merge that was let go on; each schedule is executed on the real code",
    };
    ctx.set("rule", json!(rule));
    ctx.set("exhaustive", json!(true));
    ctx.assume("the stand-in for binaryen's wasm-merge receives its arguments and files exactly as the real tool would");
    let level = match id.as_str() { "C12" | "C13" => "fault_enumeration", "C15" => "model_checking", _ => "exploration" };
    let _ = digits;
    ctx.finish(level)
}
