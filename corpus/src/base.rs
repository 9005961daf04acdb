//! Values as the user observes them, and the value types used by the corpus.
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U,
    B(bool),
    /// Text or OS string, by bytes.
    S(Vec<u8>),
    N(i64),
    C(char),
    /// Enum variant, by identifier.
    T(&'static str),
    Nil,
    Some(Box<Val>),
    L(Vec<Val>),
    Rec(Vec<(&'static str, Val)>),
    Var(&'static str, Box<Val>),
}
impl Val {
    pub fn s(s: &str) -> Val {
        Val::S(s.as_bytes().to_vec())
    }
}
pub trait Show {
    fn show(&self) -> Val;
}
impl Show for bool { fn show(&self) -> Val { Val::B(*self) } }
impl Show for String { fn show(&self) -> Val { Val::S(self.as_bytes().to_vec()) } }
impl Show for OsString { fn show(&self) -> Val { Val::S(self.as_bytes().to_vec()) } }
impl Show for PathBuf { fn show(&self) -> Val { Val::S(self.as_os_str().as_bytes().to_vec()) } }
impl Show for u8 { fn show(&self) -> Val { Val::N(*self as i64) } }
impl Show for i32 { fn show(&self) -> Val { Val::N(*self as i64) } }
impl Show for i64 { fn show(&self) -> Val { Val::N(*self) } }
impl Show for char { fn show(&self) -> Val { Val::C(*self) } }
impl<T: Show> Show for Option<T> {
    fn show(&self) -> Val {
        match self { None => Val::Nil, Some(x) => Val::Some(Box::new(x.show())) }
    }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self) -> Val { Val::L(self.iter().map(|x| x.show()).collect()) }
}

/// A `FromStr` type with a restricted domain.
#[derive(Debug, Clone, PartialEq)]
pub struct Even(pub u32);
impl std::str::FromStr for Even {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let n: u32 = s.parse().map_err(|_| "not a number".to_string())?;
        if n % 2 == 0 { Ok(Even(n)) } else { Err("odd".into()) }
    }
}
impl Show for Even { fn show(&self) -> Val { Val::N(self.0 as i64) } }

/// A `TryFrom<&OsStr>` type with a restricted domain that is not limited to UTF-8.
#[derive(Debug, Clone, PartialEq)]
pub struct Tag(pub OsString);
impl TryFrom<&OsStr> for Tag {
    type Error = &'static str;
    fn try_from(s: &OsStr) -> Result<Self, &'static str> {
        match s.as_bytes() {
            [b'#', rest @ ..] => Ok(Tag(OsString::from_vec(rest.to_vec()))),
            _ => Err("no hash"),
        }
    }
}
impl Show for Tag { fn show(&self) -> Val { Val::S(self.0.as_bytes().to_vec()) } }

pub enum Real {
    Ok(Val),
    Err { msg: String, help: Option<String> },
}
pub fn run<P: palc::Parser + Show>(argv: &mut dyn Iterator<Item = OsString>) -> Real {
    match P::try_parse_from(argv) {
        Ok(v) => Real::Ok(v.show()),
        Err(e) => {
            let msg = e.to_string();
            match e.try_into_help() {
                Ok(h) => Real::Err { msg, help: Some(h) },
                Err(e2) => {
                    let m2 = e2.to_string();
                    Real::Err { msg: m2, help: None }
                }
            }
        }
    }
}
