//! Same options, error and input types as the real crate; `merge` records what it was asked to do
//! (for the thread that asked) and returns a marker instead of running binaryen.
pub use real::error;
pub use real::options;
pub use real::InputModule;
use std::cell::RefCell;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Recorded {
    pub primary: Option<(String, Vec<u8>)>,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub options: String,
}
const MAGIC: &[u8] = b"a merge:";
/// For processes that hand on what they merge: the record as bytes.
impl Recorded {
    fn encode(&self) -> Vec<u8> {
        let mut o = MAGIC.to_vec();
        let mut put = |b: &[u8]| {
            o.extend((b.len() as u32).to_le_bytes());
            o.extend(b);
        };
        put(self.options.as_bytes());
        put(&[u8::from(self.primary.is_some())]);
        for (n, m) in self.primary.iter().chain(&self.inputs) {
            put(n.as_bytes());
            put(m);
        }
        o
    }
    pub fn decode(bytes: &[u8]) -> Option<Recorded> {
        let mut at = bytes.strip_prefix(MAGIC)?;
        let mut parts = vec![];
        while !at.is_empty() {
            let n = u32::from_le_bytes(at.get(..4)?.try_into().ok()?) as usize;
            parts.push(at.get(4..4 + n)?.to_vec());
            at = &at[4 + n..];
        }
        if parts.len() < 2 || parts.len() % 2 != 0 {
            return None;
        }
        let text = |b: &[u8]| String::from_utf8(b.to_vec()).ok();
        let mut inputs = parts[2..].chunks(2).map(|c| Some((text(&c[0])?, c[1].clone()))).collect::<Option<Vec<_>>>()?;
        let primary = (parts[1] == [1] && !inputs.is_empty()).then(|| inputs.remove(0));
        Some(Recorded { primary, inputs, options: text(&parts[0])? })
    }
}
thread_local! {
    static LAST: RefCell<Option<Recorded>> = const { RefCell::new(None) };
    static FAIL: RefCell<bool> = const { RefCell::new(false) };
}
pub fn take_recorded() -> Option<Recorded> {
    LAST.with(|l| l.borrow_mut().take())
}
pub fn fail_next(fail: bool) {
    FAIL.with(|f| *f.borrow_mut() = fail);
}
pub const MERGED: &[u8] = b"merged by the recorder";

macro_rules! mirror {
    ($($field:ident : $ty:ident),* $(,)?) => {
        #[derive(Debug, Default)]
        pub struct MergeOptions<'a> {
            pub primary: Option<InputModule<'a>>,
            pub input_modules: Vec<InputModule<'a>>,
            $(pub $field: options::$ty),*
        }
        impl MergeOptions<'_> {
            /// # Errors
            /// When the harness asked for a failure.
            pub fn merge(&self) -> Result<Vec<u8>, error::Error> {
                let copy = |m: &InputModule| (m.namespace.clone(), m.module.to_vec());
                let mut options = String::new();
                $(options.push_str(&format!("{}={:?};", stringify!($field), self.$field));)*
                let r = Recorded {
                    primary: self.primary.as_ref().map(copy),
                    inputs: self.input_modules.iter().map(copy).collect(),
                    options,
                };
                if std::env::var_os("MERGE_ENCODED").is_some() {
                    if std::env::var_os("MERGE_FAILS").is_some() {
                        return Err(error::Error::MergeExecutionFailedReason("the recorder was told to fail".into()));
                    }
                    return Ok(r.encode());
                }
                LAST.with(|l| *l.borrow_mut() = Some(r));
                if FAIL.with(|f| f.replace(false)) {
                    return Err(error::Error::MergeExecutionFailedReason("the recorder was told to fail".into()));
                }
                Ok(MERGED.to_vec())
            }
        }
    };
}
mirror! {
    no_validation: NoValidate,
    rename_export_conflicts: RenameExportConflicts,
    bulk_memory: BulkMemory,
    bulk_memory_opt: BulkMemoryOpt,
    call_indirect_overlong: CallIndirectOverlong,
    extended_const: ExtendedConst,
    exception_handling: ExceptionHandling,
    fp16: Fp16,
    gc: Gc,
    memory64: Memory64,
    multimemory: Multimemory,
    multivalue: Multivalue,
    mutable_globals: MutableGlobals,
    nontrapping_float_to_int: NontrappingFloatToInt,
    reference_types: ReferenceTypes,
    relaxed_simd: RelaxedSimd,
    shared_everything: SharedEverything,
    sign_ext: SignExt,
    simd: Simd,
    strings: Strings,
    tail_call: TailCall,
    threads: Threads,
    typed_continuations: TypedContinuations,
}
