//! Stand-in for clio (not in the offline cache): files or "-" on the command line. The environment may ask for short
//! or interrupted reads and writes (as pipes make them) and for failures after so many bytes (as a full disk makes
//! them).
use std::ffi::OsStr;
use std::fs::File;
use std::io::{self, Read, Write};
use std::ops::Deref;
use std::path::{Path, PathBuf};

pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug)]
pub struct Error(io::Error);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error(e)
    }
}
impl From<Error> for io::Error {
    fn from(e: Error) -> Self {
        e.0
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ClioPath(PathBuf);
impl ClioPath {
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn is_std(&self) -> bool {
        self.0.as_os_str() == "-"
    }
}
impl Deref for ClioPath {
    type Target = Path;
    fn deref(&self) -> &Path {
        &self.0
    }
}
impl AsRef<Path> for ClioPath {
    fn as_ref(&self) -> &Path {
        &self.0
    }
}
/// What the environment asks of reads or writes.
#[derive(Debug, Clone, Copy)]
struct Weather {
    short: Option<usize>,
    fail: Option<usize>,
    interrupt: bool,
    done: usize,
    calls: usize,
}
impl Weather {
    fn of(which: &str) -> Weather {
        let number = |k: &str| std::env::var(format!("CLIO_{which}_{k}")).ok().and_then(|v| v.parse().ok());
        Weather { short: number("SHORT"), fail: number("FAIL"), interrupt: number("INTERRUPT").is_some(), done: 0, calls: 0 }
    }
    /// How many of n bytes this call moves.
    fn next(&mut self, n: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = self.short.map_or(n, |s| n.min(s));
        if let Some(f) = self.fail {
            if n > 0 && self.done >= f {
                return Err(io::Error::other("no space, or no medium"));
            }
            n = n.min(f - self.done);
        }
        Ok(n)
    }
}
macro_rules! common {
    ($t:ident) => {
        impl $t {
            pub fn path(&self) -> &ClioPath {
                &self.path
            }
            pub fn is_std(&self) -> bool {
                self.path.is_std()
            }
        }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, concat!(stringify!($t), "({:?})"), self.path)
            }
        }
        impl clap::builder::ValueParserFactory for $t {
            fn from_os(s: &OsStr) -> std::result::Result<Self, String> {
                $t::new(s).map_err(|e| e.to_string())
            }
        }
    };
}
pub struct Input {
    path: ClioPath,
    from: Box<dyn Read + Send>,
    weather: Weather,
}
impl Input {
    pub fn new(path: impl AsRef<OsStr>) -> Result<Self> {
        let path = ClioPath(path.as_ref().into());
        let from: Box<dyn Read + Send> = if path.is_std() { Box::new(io::stdin()) } else { Box::new(File::open(&path.0)?) };
        Ok(Input { path, from, weather: Weather::of("READ") })
    }
}
impl Read for Input {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.weather.next(b.len())?;
        let n = self.from.read(&mut b[..n])?;
        self.weather.done += n;
        Ok(n)
    }
}
common!(Input);
pub struct Output {
    path: ClioPath,
    to: Box<dyn Write + Send>,
    weather: Weather,
}
impl Output {
    pub fn new(path: impl AsRef<OsStr>) -> Result<Self> {
        let path = ClioPath(path.as_ref().into());
        let to: Box<dyn Write + Send> = if path.is_std() { Box::new(io::stdout()) } else { Box::new(File::create(&path.0)?) };
        Ok(Output { path, to, weather: Weather::of("WRITE") })
    }
    pub fn finish(mut self) -> Result<()> {
        self.flush()?;
        Ok(())
    }
}
impl Write for Output {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.weather.next(b.len())?;
        let n = self.to.write(&b[..n])?;
        self.weather.done += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.to.flush()
    }
}
common!(Output);

/// A path that is opened later.
#[derive(Debug, Clone)]
pub struct OutputPath(ClioPath);
impl OutputPath {
    pub fn new(path: impl AsRef<OsStr>) -> Result<Self> {
        Ok(OutputPath(ClioPath(path.as_ref().into())))
    }
    pub fn create(self) -> Result<Output> {
        Output::new(self.0 .0)
    }
    pub fn path(&self) -> &ClioPath {
        &self.0
    }
}
#[derive(Debug, Clone)]
pub struct InputPath(ClioPath);
impl InputPath {
    pub fn new(path: impl AsRef<OsStr>) -> Result<Self> {
        File::open(path.as_ref())?;
        Ok(InputPath(ClioPath(path.as_ref().into())))
    }
    pub fn open(self) -> Result<Input> {
        Input::new(self.0 .0)
    }
    pub fn path(&self) -> &ClioPath {
        &self.0
    }
}
impl clap::builder::ValueParserFactory for OutputPath {
    fn from_os(s: &OsStr) -> std::result::Result<Self, String> {
        OutputPath::new(s).map_err(|e| e.to_string())
    }
}
impl clap::builder::ValueParserFactory for InputPath {
    fn from_os(s: &OsStr) -> std::result::Result<Self, String> {
        InputPath::new(s).map_err(|e| e.to_string())
    }
}
