//! Stand-in for clap (not in the offline cache): options with values, as clap 4 reads them.
pub use clap_derive::{Parser, ValueEnum};
use std::ffi::{OsStr, OsString};

pub mod builder {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PossibleValue(String);
    impl PossibleValue {
        pub fn new(name: impl Into<String>) -> Self {
            PossibleValue(name.into())
        }
        pub fn get_name(&self) -> &str {
            &self.0
        }
    }
    pub trait ValueParserFactory: Sized {
        fn from_os(s: &std::ffi::OsStr) -> Result<Self, String>;
    }
}
pub trait ValueEnum: Sized + Clone {
    fn value_variants<'a>() -> &'a [Self];
    fn to_possible_value(&self) -> Option<builder::PossibleValue>;
    fn from_str(input: &str, ignore_case: bool) -> Result<Self, String> {
        Self::value_variants()
            .iter()
            .find(|v| v.to_possible_value().is_some_and(|p| if ignore_case { p.get_name().eq_ignore_ascii_case(input) } else { p.get_name() == input }))
            .cloned()
            .ok_or_else(|| format!("invalid value '{input}'"))
    }
}
#[derive(Debug)]
pub struct Error {
    message: String,
    code: i32,
}
impl Error {
    pub fn exit(&self) -> ! {
        if self.code == 0 {
            println!("{}", self.message);
        } else {
            eprintln!("error: {}", self.message);
        }
        std::process::exit(self.code)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

pub trait Parser: Sized {
    fn __specs() -> Vec<__private::Spec>;
    fn __build(m: &__private::Matches) -> Result<Self, String>;
    fn parse() -> Self {
        Self::parse_from(std::env::args_os())
    }
    fn parse_from<I: IntoIterator<Item = T>, T: Into<OsString>>(args: I) -> Self {
        Self::try_parse_from(args).unwrap_or_else(|e| e.exit())
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(std::env::args_os())
    }
    fn try_parse_from<I: IntoIterator<Item = T>, T: Into<OsString>>(args: I) -> Result<Self, Error> {
        let args: Vec<OsString> = args.into_iter().skip(1).map(Into::into).collect();
        let m = __private::read(Self::__specs(), &args)?;
        Self::__build(&m).map_err(|message| Error { message, code: 2 })
    }
}
#[doc(hidden)]
pub mod __private {
    use super::*;
    use std::marker::PhantomData;
    use std::os::unix::ffi::{OsStrExt, OsStringExt};

    pub struct Spec {
        pub id: &'static str,
        pub long: Option<&'static str>,
        pub short: Option<char>,
        pub lo: usize,
        pub hi: usize,
        pub many: bool,
        pub required: bool,
        pub delimiter: Option<char>,
        pub default: Option<String>,
    }
    pub struct Matches(Vec<(Spec, Option<Vec<OsString>>)>);
    impl Matches {
        fn of(&self, id: &str) -> Option<&Vec<OsString>> {
            self.0.iter().find(|(s, _)| s.id == id).and_then(|(_, v)| v.as_ref())
        }
        pub fn present(&self, id: &str) -> bool {
            self.of(id).is_some()
        }
        pub fn one<T>(&self, id: &str, f: impl Fn(&OsStr) -> Result<T, String>) -> Result<Option<T>, String> {
            self.of(id).and_then(|v| v.last()).map(|s| f(s)).transpose()
        }
        pub fn many<T>(&self, id: &str, f: impl Fn(&OsStr) -> Result<T, String>) -> Result<Option<Vec<T>>, String> {
            self.of(id).map(|v| v.iter().map(|s| f(s)).collect()).transpose()
        }
    }
    fn usage(message: String) -> Error {
        Error { message, code: 2 }
    }
    pub fn read(specs: Vec<Spec>, args: &[OsString]) -> Result<Matches, Error> {
        let mut m = Matches(specs.into_iter().map(|s| (s, None)).collect());
        let mut i = 0;
        while i < args.len() {
            let a = args[i].as_bytes().to_vec();
            i += 1;
            if a == b"--help" || a == b"-h" || a == b"--version" || a == b"-V" {
                return Err(Error { message: "usage".into(), code: 0 });
            }
            let shown = String::from_utf8_lossy(&a).into_owned();
            // which option, and the value that comes with it
            let (at, attached) = if let Some(l) = a.strip_prefix(b"--") {
                let (n, v) = match l.iter().position(|c| *c == b'=') {
                    Some(k) => (&l[..k], Some(l[k + 1..].to_vec())),
                    None => (l, None),
                };
                (m.0.iter().position(|(s, _)| s.long.is_some_and(|x| x.as_bytes() == n)), v)
            } else if a.len() > 1 && a[0] == b'-' {
                let v = match &a[2..] {
                    [] => None,
                    [b'=', rest @ ..] => Some(rest.to_vec()),
                    rest => Some(rest.to_vec()),
                };
                (m.0.iter().position(|(s, _)| s.short.is_some_and(|c| c as u32 == u32::from(a[1]))), v)
            } else {
                (None, None)
            };
            let Some(at) = at else { return Err(usage(format!("unexpected argument '{shown}' found"))) };
            let (spec, values) = &mut m.0[at];
            if values.is_some() && !spec.many {
                return Err(usage(format!("the argument '{shown}' cannot be used multiple times")));
            }
            let mut own: Vec<Vec<u8>> = vec![];
            match attached {
                Some(_) if spec.hi == 0 => return Err(usage(format!("unexpected value for '{shown}'"))),
                Some(v) => own.push(v),
                None => {
                    while own.len() < spec.hi && i < args.len() {
                        let n = args[i].as_bytes();
                        if n.len() > 1 && n[0] == b'-' {
                            break;
                        }
                        own.push(n.to_vec());
                        i += 1;
                    }
                }
            }
            if let Some(d) = spec.delimiter {
                own = own.iter().flat_map(|v| v.split(|c| u32::from(*c) == d as u32).map(<[u8]>::to_vec).collect::<Vec<_>>()).collect();
            }
            if own.len() < spec.lo {
                return Err(usage(format!("a value is required for '{shown}' but none was supplied")));
            }
            values.get_or_insert_default().extend(own.into_iter().map(OsString::from_vec));
        }
        for (spec, values) in &mut m.0 {
            if values.is_none() {
                if let Some(d) = &spec.default {
                    *values = Some(vec![d.into()]);
                } else if spec.required {
                    return Err(usage(format!("the required argument '{}' was not provided", spec.id)));
                }
            }
        }
        Ok(m)
    }
    pub struct Wrap<T>(PhantomData<T>);
    impl<T> Wrap<T> {
        pub const NEW: Self = Wrap(PhantomData);
    }
    pub trait ViaEnum<T> {
        fn value(&self, s: &OsStr) -> Result<T, String>;
    }
    impl<T: ValueEnum> ViaEnum<T> for &&Wrap<T> {
        fn value(&self, s: &OsStr) -> Result<T, String> {
            <T as ValueEnum>::from_str(s.to_str().ok_or("invalid UTF-8")?, false)
        }
    }
    pub trait ViaFactory<T> {
        fn value(&self, s: &OsStr) -> Result<T, String>;
    }
    impl<T: builder::ValueParserFactory> ViaFactory<T> for &Wrap<T> {
        fn value(&self, s: &OsStr) -> Result<T, String> {
            T::from_os(s)
        }
    }
    pub trait ViaText<T> {
        fn value(&self, s: &OsStr) -> Result<T, String>;
    }
    impl<T: std::str::FromStr> ViaText<T> for Wrap<T>
    where
        T::Err: std::fmt::Display,
    {
        fn value(&self, s: &OsStr) -> Result<T, String> {
            s.to_str().ok_or("invalid UTF-8")?.parse().map_err(|e: T::Err| e.to_string())
        }
    }
}
