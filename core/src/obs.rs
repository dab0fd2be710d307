//! How the monitors watch calls into the library.
use crate::mslice::FuelExhausted;
use nt_hive::NtHiveError as E;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, Ordering};

#[derive(Clone, Debug)]
pub enum Fault {
    /// a call did not return
    Panic { op: String, msg: String },
    /// a call returned something else than the oracle
    Diff { op: String, detail: String },
    /// the property under test could not be reached because another operation misbehaved
    Skip(String),
}

impl Fault {
    pub fn text(&self) -> String {
        match self {
            Fault::Panic { op, msg } => format!("{op} panicked: {msg}"),
            Fault::Diff { op, detail } => format!("{op}: {detail}"),
            Fault::Skip(s) => format!("not reached: {s}"),
        }
    }
    pub fn skip(self) -> Fault {
        match self {
            Fault::Skip(s) => Fault::Skip(s),
            f => Fault::Skip(f.text()),
        }
    }
}

pub type Res<T = ()> = Result<T, Fault>;

pub fn diff<T>(op: &str, detail: impl Into<String>) -> Res<T> {
    let mut detail: String = detail.into();
    if detail.len() > 3000 {
        let mut k = 3000;
        while !detail.is_char_boundary(k) {
            k -= 1;
        }
        detail.truncate(k);
        detail.push('…');
    }
    Err(Fault::Diff { op: op.to_string(), detail })
}

thread_local! {
    static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Shared status page: [0] calls, [1] in-call flag (1 tested, 2 navigation), then the op name.
pub static STATUS: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
pub fn total_calls() -> u64 {
    calls()
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(f) = info.payload().downcast_ref::<FuelExhausted>() {
            format!("more than {} accesses to the hive bytes in one call", f.0 - 1)
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if !IN_CALL.with(|c| c.get()) {
            eprintln!("panic outside a monitored call: {msg}{loc}");
        }
        LAST.with(|l| *l.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

pub fn take_panic() -> String {
    LAST.with(|l| l.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

pub fn set_panic(s: String) {
    LAST.with(|l| *l.borrow_mut() = Some(s));
}

fn enter(op: &str, kind: u8) {
    CALLS.with(|c| c.set(c.get() + 1));
    let p = STATUS.load(Ordering::Relaxed);
    if !p.is_null() {
        // SAFETY: the harness maps at least 256 bytes there and only this thread writes to it.
        unsafe {
            let n = op.len().min(40);
            (p as *mut u64).write_volatile(calls());
            std::ptr::copy_nonoverlapping(op.as_ptr(), p.add(16), n);
            p.add(16 + n).write_volatile(0);
            p.add(8).write_volatile(kind);
        }
    }
}
fn leave() {
    let p = STATUS.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe { p.add(8).write_volatile(0) };
    }
}

/// Runs one call into the library under test; a panic is a fault of that call.
pub fn call<T>(op: &str, f: impl FnOnce() -> T) -> Res<T> {
    enter(op, 1);
    let was = IN_CALL.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(was));
    leave();
    r.map_err(|_| Fault::Panic { op: op.to_string(), msg: take_panic() })
}

/// Runs a call that only leads to the one under test: if it misbehaves, the case is skipped.
pub fn nav<T>(op: &str, f: impl FnOnce() -> T) -> Res<T> {
    enter(op, 2);
    let was = IN_CALL.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(was));
    leave();
    r.map_err(|_| Fault::Skip(format!("{op} panicked: {}", take_panic())))
}

/// Navigation that must succeed.
pub fn nav_ok<T, Er: std::fmt::Debug>(op: &str, f: impl FnOnce() -> Result<T, Er>) -> Res<T> {
    nav(op, f)?.map_err(|e| Fault::Skip(format!("{op} failed: {e:?}")))
}

pub fn nav_some<T, Er: std::fmt::Debug>(op: &str, f: impl FnOnce() -> Option<Result<T, Er>>) -> Res<T> {
    match nav(op, f)? {
        None => Err(Fault::Skip(format!("{op} gave None"))),
        Some(Err(e)) => Err(Fault::Skip(format!("{op} failed: {e:?}"))),
        Some(Ok(t)) => Ok(t),
    }
}

/// Tested call that must succeed.
pub fn call_ok<T, Er: std::fmt::Debug>(op: &str, f: impl FnOnce() -> Result<T, Er>) -> Res<T> {
    match call(op, f)? {
        Ok(t) => Ok(t),
        Err(e) => diff(op, format!("failed with {e:?}")),
    }
}

pub fn kind(e: &E) -> &'static str {
    match e {
        E::InvalidChecksum { .. } => "InvalidChecksum",
        E::InvalidDataSize { .. } => "InvalidDataSize",
        E::InvalidFourByteSignature { .. } => "InvalidFourByteSignature",
        E::InvalidHeaderSize { .. } => "InvalidHeaderSize",
        E::InvalidKeyValueDataType { .. } => "InvalidKeyValueDataType",
        E::InvalidSizeField { .. } => "InvalidSizeField",
        E::InvalidSizeFieldAlignment { .. } => "InvalidSizeFieldAlignment",
        E::InvalidTwoByteSignature { .. } => "InvalidTwoByteSignature",
        E::SequenceNumberMismatch { .. } => "SequenceNumberMismatch",
        E::UnallocatedCell { .. } => "UnallocatedCell",
        E::UnsupportedClusteringFactor { .. } => "UnsupportedClusteringFactor",
        E::UnsupportedFileFormat { .. } => "UnsupportedFileFormat",
        E::UnsupportedFileType { .. } => "UnsupportedFileType",
        E::UnsupportedKeyValueDataType { .. } => "UnsupportedKeyValueDataType",
        E::UnsupportedVersion { .. } => "UnsupportedVersion",
        E::InvalidKeyNodeTree { .. } => "InvalidKeyNodeTree",
        #[allow(unreachable_patterns)]
        _ => "Other",
    }
}

/// The numbers in an error, in field order, capped at 2^32-1 (32-bit targets saturate there).
pub fn err_numbers(e: &E) -> Vec<u64> {
    let s = format!("{e:?}");
    let mut v = vec![];
    let mut cur: Option<u64> = None;
    let mut word = false;
    for c in s.chars().chain(" ".chars()) {
        if c.is_ascii_digit() && !word {
            cur = Some(cur.unwrap_or(0).saturating_mul(10).saturating_add(c as u64 - 48));
        } else {
            if let Some(x) = cur.take() {
                v.push(x.min(u32::MAX as u64));
            }
            word = c.is_alphanumeric() || c == '_';
        }
    }
    v
}

/// Numbers in a message: decimal, or hexadecimal after 0x.
fn numbers(m: &str) -> Vec<i64> {
    let b = m.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'0' && i + 1 < b.len() && (b[i + 1] == b'x' || b[i + 1] == b'X') {
            let j = (i + 2..b.len()).find(|k| !b[*k].is_ascii_hexdigit()).unwrap_or(b.len());
            if let Ok(x) = i64::from_str_radix(&m[i + 2..j], 16) {
                v.push(x);
            }
            i = j;
        } else if b[i].is_ascii_digit() {
            let j = (i..b.len()).find(|k| !b[*k].is_ascii_digit()).unwrap_or(b.len());
            if let Ok(x) = m[i..j].parse::<i64>() {
                v.push(x);
                if i > 0 && b[i - 1] == b'-' {
                    v.push(-x);
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    v
}

/// Does the text of the error contain its quantities?
pub fn message_fits(e: &E) -> Result<(), String> {
    let m = e.to_string();
    let n = numbers(&m);
    let mut want: Vec<i64> = vec![];
    let mut sigs: Vec<&[u8]> = vec![];
    let mut words: Vec<String> = vec![];
    match e {
        E::InvalidChecksum { expected, actual } => want.extend([*expected as i64, *actual as i64]),
        E::InvalidDataSize { offset, expected, actual }
        | E::InvalidHeaderSize { offset, expected, actual }
        | E::InvalidSizeField { offset, expected, actual } => want.extend([*offset as i64, *expected as i64, *actual as i64]),
        E::InvalidFourByteSignature { offset, expected, actual } => {
            want.push(*offset as i64);
            sigs.push(expected);
            sigs.push(actual);
        }
        E::InvalidTwoByteSignature { offset, expected, actual } => {
            want.push(*offset as i64);
            sigs.push(expected);
            sigs.push(actual);
        }
        E::InvalidKeyValueDataType { expected, actual } => {
            words.push(format!("{actual:?}"));
            words.extend(expected.iter().map(|t| format!("{t:?}")));
        }
        E::InvalidSizeFieldAlignment { offset, size, expected_alignment } => {
            want.extend([*offset as i64, *size as i64, *expected_alignment as i64])
        }
        E::SequenceNumberMismatch { primary, secondary } => want.extend([*primary as i64, *secondary as i64]),
        E::UnallocatedCell { offset, size } => want.extend([*offset as i64, *size as i64]),
        E::UnsupportedClusteringFactor { expected, actual }
        | E::UnsupportedFileFormat { expected, actual }
        | E::UnsupportedFileType { expected, actual } => want.extend([*expected as i64, *actual as i64]),
        E::UnsupportedKeyValueDataType { offset, actual } => want.extend([*offset as i64, *actual as i64]),
        E::UnsupportedVersion { major, minor } => want.extend([*major as i64, *minor as i64]),
        E::InvalidKeyNodeTree { offset } => want.push(*offset as i64),
        #[allow(unreachable_patterns)]
        _ => (),
    }
    for w in want {
        if !n.contains(&w) {
            return Err(format!("the message {m:?} does not contain {w} ({w:#x}) of {e:?}"));
        }
    }
    for s in sigs {
        let text = String::from_utf8_lossy(s).into_owned();
        if !m.contains(&text) && !s.iter().all(|b| n.contains(&(*b as i64))) {
            return Err(format!("the message {m:?} does not contain the signature {s:?} of {e:?}"));
        }
    }
    for w in words {
        if !m.contains(&w) {
            return Err(format!("the message {m:?} does not contain {w} of {e:?}"));
        }
    }
    Ok(())
}
