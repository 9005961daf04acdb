//! Descriptions of the corpus definitions, used by the oracle only.
use crate::base::{Real, Val};
use std::ffi::OsString;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Bool, Value, Opt, OptOpt, Vec, OptVec }
#[derive(Clone, Copy, Debug)]
pub enum Ty { Bool, Str, Os, U8, I32, I64, Char, Even, Tag, Enum(&'static [(&'static str, &'static str)]) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Name { Long(String), Short(char) }
#[derive(Clone, Debug)]
pub enum Dflt { None, Text(&'static str), Val(Val) }
#[derive(Clone, Debug)]
pub struct ArgD {
    pub field: &'static str,
    pub kind: Kind,
    pub ty: Ty,
    pub names: Vec<Name>,
    pub desc: &'static str,
    pub eq: bool,
    pub hy: bool,
    pub neg: bool,
    pub glob: bool,
    pub icase: bool,
    pub trailing: bool,
    pub last: bool,
    pub delim: Option<char>,
    pub required: bool,
    pub default: Dflt,
    pub shown: Option<&'static str>,
    pub exclusive: bool,
    pub requires: Vec<&'static str>,
    pub conflicts: Vec<&'static str>,
    pub hide: bool,
    pub doc: &'static str,
}
impl ArgD {
    pub fn named(&self) -> bool { !self.names.is_empty() }
    pub fn multi(&self) -> bool { matches!(self.kind, Kind::Vec | Kind::OptVec) }
    pub fn takes(&self) -> bool { !matches!(self.kind, Kind::Bool | Kind::OptOpt) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape { Unit, New, Struct }
#[derive(Clone, Debug)]
pub struct VarD { pub ident: &'static str, pub name: &'static str, pub shape: Shape, pub cmd: CmdD }
#[derive(Clone, Debug)]
pub struct SubD { pub field: &'static str, pub optional: bool, pub variants: Vec<VarD> }
#[derive(Clone, Debug)]
pub struct CmdD {
    pub args: Vec<ArgD>,
    pub flats: Vec<(&'static str, CmdD)>,
    pub sub: Option<SubD>,
    pub about: &'static str,
    pub after: &'static str,
}
pub struct Cli {
    pub label: &'static str,
    pub desc: CmdD,
    pub run: fn(&mut dyn Iterator<Item = OsString>) -> Real,
}
