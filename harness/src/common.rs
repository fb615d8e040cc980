//! Helpers shared by the harnesses.
use palc::{Error, Parser};
use std::ffi::OsString;
use std::fmt::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};

pub use crate::sym::*;

/// Declares the scenarios of a property: each is an entry point of the symbolic executor.
#[macro_export]
macro_rules! scenarios {
    ($([$tier:ident, $bounds:literal] fn $name:ident() $body:block)*) => {
        $(
            #[unsafe(no_mangle)]
            pub extern "C" fn $name() $body
        )*
        pub const TABLE: &[$crate::Entry] = &[
            $($crate::Entry { name: stringify!($name), tier: stringify!($tier), bounds: $bounds, run: $name },)*
        ];
    };
}

pub fn s(x: &str) -> OsString {
    OsString::from(x)
}
/// Concatenation of raw pieces into one token.
pub fn cat(parts: &[&[u8]]) -> OsString {
    let mut v = Vec::with_capacity(parts.iter().map(|p| p.len()).sum());
    for p in parts {
        v.extend_from_slice(p);
    }
    OsString::from_vec(v)
}
pub fn raw(x: &OsString) -> &[u8] {
    x.as_bytes()
}
/// Parse `toks` as the arguments after argv[0].
#[inline(never)]
pub fn parse<P: Parser>(toks: Vec<OsString>) -> Result<P, Error> {
    let mut v = Vec::with_capacity(toks.len() + 1);
    v.push(OsString::from("x"));
    for t in &toks {
        note(t.as_bytes());
    }
    note_end();
    v.extend(toks);
    P::try_parse_from(v)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Class {
    Arg0 = 1,
    Unexpected, // unknown named argument or extra positional one
    UnknownSub,
    Duplicate,
    UnexpectedValue,
    MissingValue,
    InvalidValue,
    MissingEq,
    Required,
    RequiredSub,
    Requires,
    Exclusive,
    Conflict,
    Other, // help, custom
}

/// Collects what is written before the first quoted input.
struct Head {
    buf: [u8; 48],
    n: usize,
    tail: [u8; 24],
}
impl Write for Head {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            // A name in a description may have a quote itself.
            if b == b'"' && !self.buf[..self.n].starts_with(b"the argument") {
                return Err(std::fmt::Error);
            }
            if self.n < 48 {
                self.buf[self.n] = b;
                self.n += 1;
            }
            // The rest only matters for messages made of constants: keep the last bytes.
            self.tail.rotate_left(1);
            self.tail[23] = b;
        }
        Ok(())
    }
}

/// Which kind of error the user is told about.
#[inline(never)]
pub fn class(e: &Error) -> Class {
    let mut h = Head { buf: [0; 48], n: 0, tail: [0; 24] };
    let _ = write!(h, "{e}");
    let b = &h.buf[..h.n];
    if b == b"unexpected argument " {
        Class::Unexpected
    } else if b == b"unrecognized subcommand " {
        Class::UnknownSub
    } else if b == b"unexpected value " {
        Class::UnexpectedValue
    } else if b == b"invalid value " {
        Class::InvalidValue
    } else if b.starts_with(b"missing executable") {
        Class::Arg0
    } else if b.starts_with(b"a value is required for") {
        Class::MissingValue
    } else if b.starts_with(b"equal sign is needed") {
        Class::MissingEq
    } else if b.starts_with(b"the subcommand is required") {
        Class::RequiredSub
    } else if b.starts_with(b"the argument '") {
        if h.tail.ends_with(b"used multiple times") {
            Class::Duplicate
        } else if h.tail.ends_with(b"but not provided") {
            Class::Required
        } else if h.tail.ends_with(b"arguments are provided") {
            Class::Requires
        } else if h.tail.ends_with(b"other specified argument") || h.tail.ends_with(b"specified arguments") {
            Class::Exclusive
        } else if h.tail.ends_with(b"some other arguments") {
            Class::Conflict
        } else {
            Class::Other
        }
    } else {
        Class::Other
    }
}
pub fn class_of<T>(r: &Result<T, Error>) -> Option<Class> {
    r.as_ref().err().map(class)
}
/// Records how a parse ended, for the comparison with the native run.
pub fn emit_end<T>(r: &Result<T, Error>) {
    emit(match r {
        Ok(_) => 0,
        Err(e) => class(e) as u64,
    });
}
pub fn is_class<T>(r: &Result<T, Error>, c: Class) -> bool {
    match r {
        Ok(_) => false,
        Err(e) => class(e) == c,
    }
}

/// Same value or same kind of error.
pub fn same<T: PartialEq>(a: &Result<T, Error>, b: &Result<T, Error>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(x), Err(y)) => class(x) == class(y),
        _ => false,
    }
}
/// Numbers of characters or items around the powers of two.
pub const SIZES: [usize; 14] = [31, 32, 33, 63, 65, 127, 128, 129, 254, 255, 256, 257, 300, 1030];
/// A long text: many times one character of 1 to 4 bytes after up to 3 others, so that any place is within one once.
pub fn lengthy() -> Vec<u8> {
    let c = pick(&["n", "é", "漢", "🎉"]);
    let mut v = b"xyz"[..choice(c.len())].to_vec();
    for _ in 0..pick(&SIZES) {
        v.extend_from_slice(c.as_bytes());
    }
    v
}
/// Would this word be taken as the value of a plain option when it follows it?
pub fn plain(v: &[u8]) -> bool {
    v.is_empty() || v[0] != b'-' || v.len() == 1
}
/// Can this value be attached to a short option without '='?
pub fn attachable(v: &[u8]) -> bool {
    !v.is_empty() && v[0] != b'='
}
pub fn dashes(long: bool) -> &'static [u8] {
    if long { b"--" } else { b"-" }
}
