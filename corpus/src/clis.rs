// @generated by gen.py
#![allow(dead_code, unused, clippy::all)]
use crate::base::*;
use crate::desc::*;
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;
use std::path::PathBuf;
#[derive(Debug, Clone, PartialEq, ValueEnum)]
pub enum Color {
    Auto,
    Never,
    Always,
}
pub const Color_NAMES: &[(&str, &str)] = &[("auto", "Auto"), ("never", "Never"), ("always", "Always")];
impl Show for Color { fn show(&self) -> Val { Val::T(match self { Color::Auto => "Auto", Color::Never => "Never", Color::Always => "Always" }) } }
#[derive(Debug, Clone, PartialEq, ValueEnum)]
pub enum Mode {
    FastMode,
    #[value(name = "SLOW")]
    Slow,
    #[value(name = "x y")]
    Other,
    #[value(name = "é")]
    Uni,
    Fast,
}
pub const Mode_NAMES: &[(&str, &str)] = &[("fast-mode", "FastMode"), ("SLOW", "Slow"), ("x y", "Other"), ("é", "Uni"), ("fast", "Fast")];
impl Show for Mode { fn show(&self) -> Val { Val::T(match self { Mode::FastMode => "FastMode", Mode::Slow => "Slow", Mode::Other => "Other", Mode::Uni => "Uni", Mode::Fast => "Fast" }) } }
#[derive(Debug, Clone, PartialEq, ValueEnum)]
#[value(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum Lvl {
    Low,
    MidHigh,
    #[value(name = "low")]
    Odd,
}
pub const Lvl_NAMES: &[(&str, &str)] = &[("LOW", "Low"), ("MID_HIGH", "MidHigh"), ("low", "Odd")];
impl Show for Lvl { fn show(&self) -> Val { Val::T(match self { Lvl::Low => "Low", Lvl::MidHigh => "MidHigh", Lvl::Odd => "Odd" }) } }
#[derive(Debug, Clone, PartialEq, ValueEnum)]
pub enum Low {
    Ab,
    Abc,
    A,
    #[value(name = "é1")]
    Zz,
}
pub const Low_NAMES: &[(&str, &str)] = &[("ab", "Ab"), ("abc", "Abc"), ("a", "A"), ("é1", "Zz")];
impl Show for Low { fn show(&self) -> Val { Val::T(match self { Low::Ab => "Ab", Low::Abc => "Abc", Low::A => "A", Low::Zz => "Zz" }) } }
#[derive(Debug, Clone, PartialEq, ValueEnum)]
#[value(rename_all = "camelCase")]
pub enum Camel {
    OneTwo,
    One,
    Three,
}
pub const Camel_NAMES: &[(&str, &str)] = &[("oneTwo", "OneTwo"), ("one", "One"), ("three", "Three")];
impl Show for Camel { fn show(&self) -> Val { Val::T(match self { Camel::OneTwo => "OneTwo", Camel::One => "One", Camel::Three => "Three" }) } }
#[derive(Debug, Clone, PartialEq, ValueEnum)]
#[value(rename_all = "verbatim")]
pub enum Verb {
    OneTwo,
    One,
    #[value(name = "")]
    Emp,
}
pub const Verb_NAMES: &[(&str, &str)] = &[("OneTwo", "OneTwo"), ("One", "One"), ("", "Emp")];
impl Show for Verb { fn show(&self) -> Val { Val::T(match self { Verb::OneTwo => "OneTwo", Verb::One => "One", Verb::Emp => "Emp" }) } }
#[derive(Debug, Clone, PartialEq, ValueEnum)]
pub enum OddV {
    #[value(name = "ab")]
    Ab,
    #[value(name = "AB")]
    AB,
    #[value(name = "a b")]
    Aa,
    #[value(name = "a")]
    A,
    #[value(name = "é")]
    A2,
    #[value(name = "É")]
    A3,
    #[value(name = "aB")]
    B,
    #[value(name = "-")]
    Dash,
    #[value(name = "--")]
    Dd,
    #[value(name = "a=b")]
    Eq,
    #[value(name = " ")]
    Sp,
    #[value(name = "a,b")]
    Comma,
}
pub const OddV_NAMES: &[(&str, &str)] = &[("ab", "Ab"), ("AB", "AB"), ("a b", "Aa"), ("a", "A"), ("é", "A2"), ("É", "A3"), ("aB", "B"), ("-", "Dash"), ("--", "Dd"), ("a=b", "Eq"), (" ", "Sp"), ("a,b", "Comma")];
impl Show for OddV { fn show(&self) -> Val { Val::T(match self { OddV::Ab => "Ab", OddV::AB => "AB", OddV::Aa => "Aa", OddV::A => "A", OddV::A2 => "A2", OddV::A3 => "A3", OddV::B => "B", OddV::Dash => "Dash", OddV::Dd => "Dd", OddV::Eq => "Eq", OddV::Sp => "Sp", OddV::Comma => "Comma" }) } }
#[derive(Debug, Clone, PartialEq, ValueEnum)]
pub enum Nest {
    IOTest,
    Ice,
    #[value(name = "ß")]
    Dz,
    #[value(name = "é")]
    Ed,
}
pub const Nest_NAMES: &[(&str, &str)] = &[("io-test", "IOTest"), ("ice", "Ice"), ("ß", "Dz"), ("é", "Ed")];
impl Show for Nest { fn show(&self) -> Val { Val::T(match self { Nest::IOTest => "IOTest", Nest::Ice => "Ice", Nest::Dz => "Dz", Nest::Ed => "Ed" }) } }
#[derive(Debug, Clone, PartialEq, ValueEnum)]
#[value(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum RawV {
    r#type,
    r#match,
    Plain,
}
pub const RawV_NAMES: &[(&str, &str)] = &[("TYPE", "r#type"), ("MATCH", "r#match"), ("PLAIN", "Plain")];
impl Show for RawV { fn show(&self) -> Val { Val::T(match self { RawV::r#type => "r#type", RawV::r#match => "r#match", RawV::Plain => "Plain" }) } }

#[derive(Debug, Parser)]
pub struct S1 {
    #[arg(long, short = 'a')]
    aa: bool,
    #[arg(short = 'b')]
    bb: bool,
    #[arg(long)]
    cc: bool,
}
impl Show for S1 { fn show(&self) -> Val { Val::Rec(vec![("aa", self.aa.show()), ("bb", self.bb.show()), ("cc", self.cc.show())]) } }
#[derive(Debug, Parser)]
pub struct S2 {
    #[arg(long, short)]
    file: String,
}
impl Show for S2 { fn show(&self) -> Val { Val::Rec(vec![("file", self.file.show())]) } }
#[derive(Debug, Parser)]
pub struct S3 {
    #[arg(long, short = 'f')]
    file: Option<String>,
    #[arg(short = 'v')]
    verbose: bool,
    #[arg(long = "number", short = 'n')]
    num: Option<i32>,
}
impl Show for S3 { fn show(&self) -> Val { Val::Rec(vec![("file", self.file.show()), ("verbose", self.verbose.show()), ("num", self.num.show())]) } }
#[derive(Debug, Parser)]
pub struct S4 {
    #[arg(long = "path", short = 'p')]
    p: Option<PathBuf>,
    #[arg(long = "os", short = 'o')]
    o: Option<OsString>,
    rest: Vec<OsString>,
}
impl Show for S4 { fn show(&self) -> Val { Val::Rec(vec![("p", self.p.show()), ("o", self.o.show()), ("rest", self.rest.show())]) } }
#[derive(Debug, Parser)]
pub struct S5 {
    #[arg(long, short = 'c', require_equals = true)]
    color: Option<String>,
    #[arg(short = 'x')]
    x: bool,
    pos: Option<String>,
}
impl Show for S5 { fn show(&self) -> Val { Val::Rec(vec![("color", self.color.show()), ("x", self.x.show()), ("pos", self.pos.show())]) } }
#[derive(Debug, Parser)]
pub struct S6 {
    #[arg(long, short = 'c', require_equals = true)]
    color: Option<Option<String>>,
    #[arg(short = 'x')]
    x: bool,
    pos: Option<String>,
}
impl Show for S6 { fn show(&self) -> Val { Val::Rec(vec![("color", self.color.show()), ("x", self.x.show()), ("pos", self.pos.show())]) } }
#[derive(Debug, Parser)]
pub struct S7 {
    #[arg(long, short = 'j', require_equals = true)]
    jobs: Option<Option<u8>>,
    #[arg(short = 'a')]
    a: bool,
    #[arg(short = 'b')]
    b: Option<String>,
}
impl Show for S7 { fn show(&self) -> Val { Val::Rec(vec![("jobs", self.jobs.show()), ("a", self.a.show()), ("b", self.b.show())]) } }
#[derive(Debug, Parser)]
pub struct S8 {
    #[arg(long, alias = "hue", require_equals = true)]
    tint: Option<Option<String>>,
    #[arg(long = "yes")]
    y: bool,
}
impl Show for S8 { fn show(&self) -> Val { Val::Rec(vec![("tint", self.tint.show()), ("y", self.y.show())]) } }
#[derive(Debug, Parser)]
pub struct S9 {
    #[arg(long, short = 'm', require_equals = true)]
    mode: Option<Option<Color>>,
}
impl Show for S9 { fn show(&self) -> Val { Val::Rec(vec![("mode", self.mode.show())]) } }
#[derive(Debug, Parser)]
pub struct S10 {
    #[arg(long, short = 'a', allow_hyphen_values = true)]
    any: Option<String>,
    #[arg(long, short = 'p')]
    plain: Option<String>,
    #[arg(short = 'x')]
    x: bool,
}
impl Show for S10 { fn show(&self) -> Val { Val::Rec(vec![("any", self.any.show()), ("plain", self.plain.show()), ("x", self.x.show())]) } }
#[derive(Debug, Parser)]
pub struct S11 {
    #[arg(long, short = 'n', allow_negative_numbers = true)]
    num: Option<i32>,
    #[arg(long, short = 's', allow_negative_numbers = true)]
    s: Option<String>,
    #[arg(short = '1')]
    one: bool,
}
impl Show for S11 { fn show(&self) -> Val { Val::Rec(vec![("num", self.num.show()), ("s", self.s.show()), ("one", self.one.show())]) } }
#[derive(Debug, Parser)]
pub struct S12 {
    #[arg(long, short = 'n')]
    num: Option<i32>,
    rest: Vec<i32>,
}
impl Show for S12 { fn show(&self) -> Val { Val::Rec(vec![("num", self.num.show()), ("rest", self.rest.show())]) } }
#[derive(Debug, Parser)]
pub struct S13 {
    #[arg(long = "include", short = 'I')]
    inc: Vec<String>,
    #[arg(short = 'l')]
    lib: Option<Vec<String>>,
    #[arg(short = 'q')]
    q: bool,
}
impl Show for S13 { fn show(&self) -> Val { Val::Rec(vec![("inc", self.inc.show()), ("lib", self.lib.show()), ("q", self.q.show())]) } }
#[derive(Debug, Parser)]
pub struct S14 {
    #[arg(long = "num", short = 'n')]
    n: Vec<u8>,
    rest: Vec<u8>,
}
impl Show for S14 { fn show(&self) -> Val { Val::Rec(vec![("n", self.n.show()), ("rest", self.rest.show())]) } }
#[derive(Debug, Parser)]
pub struct S15 {
    #[arg(long, short = 'l', value_delimiter = ',')]
    list: Vec<String>,
    #[arg(long, value_delimiter = ':')]
    nums: Option<Vec<u8>>,
    #[arg(short = 'd')]
    d: bool,
}
impl Show for S15 { fn show(&self) -> Val { Val::Rec(vec![("list", self.list.show()), ("nums", self.nums.show()), ("d", self.d.show())]) } }
#[derive(Debug, Parser)]
pub struct S16 {
    #[arg(long, short = 'l', use_value_delimiter = true)]
    list: Vec<OsString>,
    #[arg(short = 'u', value_delimiter = 'é')]
    uni: Vec<String>,
    #[arg(value_delimiter = ';')]
    pos: Vec<String>,
}
impl Show for S16 { fn show(&self) -> Val { Val::Rec(vec![("list", self.list.show()), ("uni", self.uni.show()), ("pos", self.pos.show())]) } }
#[derive(Debug, Parser)]
pub struct S17 {
    #[arg(long, short = 'c', value_delimiter = ',')]
    cols: Vec<Color>,
    #[arg(long, short = 'e', require_equals = true, value_delimiter = '=')]
    eqs: Vec<u8>,
}
impl Show for S17 { fn show(&self) -> Val { Val::Rec(vec![("cols", self.cols.show()), ("eqs", self.eqs.show())]) } }
#[derive(Debug, Parser)]
pub struct S18 {
    #[arg(short = 'a')]
    a: bool,
    #[arg(short = 'b')]
    b: bool,
    #[arg(short = 'c')]
    c: Option<String>,
    #[arg(short = 'd')]
    d: Vec<String>,
    #[arg(short = 'e', require_equals = true)]
    e: Option<Option<String>>,
    #[arg(short = 'f', require_equals = true)]
    f: Option<String>,
}
impl Show for S18 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show()), ("f", self.f.show())]) } }
#[derive(Debug, Parser)]
pub struct S19 {
    #[arg(short = 'é')]
    a: bool,
    #[arg(short = '文')]
    b: bool,
    #[arg(short = '😀')]
    c: Option<OsString>,
    #[arg(short = 'd', short_aliases = ['δ', 'D'])]
    d: bool,
}
impl Show for S19 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show())]) } }
#[derive(Debug, Parser)]
pub struct S20 {
    #[arg(short = '1')]
    one: bool,
    #[arg(short = '2')]
    two: Option<i32>,
    #[arg(short = '.')]
    dot: bool,
    #[arg(short = '+')]
    plus: bool,
}
impl Show for S20 { fn show(&self) -> Val { Val::Rec(vec![("one", self.one.show()), ("two", self.two.show()), ("dot", self.dot.show()), ("plus", self.plus.show())]) } }
#[derive(Debug, Parser)]
pub struct S21 {
    #[arg(long, short = 'l', aliases = ["ln", "long"], short_aliases = ['L', 'x'])]
    long_name: Option<String>,
    #[arg(long, alias = "lon")]
    longer: bool,
}
impl Show for S21 { fn show(&self) -> Val { Val::Rec(vec![("long_name", self.long_name.show()), ("longer", self.longer.show())]) } }
#[derive(Debug, Parser)]
pub struct S22 {
    #[arg(long = "a")]
    a: bool,
    #[arg(long = "ab")]
    ab: bool,
    #[arg(long = "abc")]
    abc: bool,
    #[arg(long = "a-b")]
    abd: Option<String>,
    #[arg(long = "b", short = 'b')]
    b: bool,
    #[arg(long = "A", short = 'B')]
    upper: bool,
    #[arg(long = "é")]
    uni: bool,
    #[arg(long = "a b")]
    sp: bool,
    #[arg(long = "a/b")]
    sl: Option<String>,
}
impl Show for S22 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("ab", self.ab.show()), ("abc", self.abc.show()), ("abd", self.abd.show()), ("b", self.b.show()), ("upper", self.upper.show()), ("uni", self.uni.show()), ("sp", self.sp.show()), ("sl", self.sl.show())]) } }
#[derive(Debug, Parser)]
pub struct S23 {
    one: String,
    two: Option<String>,
    three: Option<i32>,
}
impl Show for S23 { fn show(&self) -> Val { Val::Rec(vec![("one", self.one.show()), ("two", self.two.show()), ("three", self.three.show())]) } }
#[derive(Debug, Parser)]
pub struct S24 {
    #[arg(short = 'x')]
    x: bool,
    one: Option<String>,
    two: Option<u8>,
}
impl Show for S24 { fn show(&self) -> Val { Val::Rec(vec![("x", self.x.show()), ("one", self.one.show()), ("two", self.two.show())]) } }
#[derive(Debug, Parser)]
pub struct S25 {
    first: String,
    rest: Vec<String>,
    #[arg(long = "verb", short = 'v')]
    v: bool,
}
impl Show for S25 { fn show(&self) -> Val { Val::Rec(vec![("first", self.first.show()), ("rest", self.rest.show()), ("v", self.v.show())]) } }
#[derive(Debug, Parser)]
pub struct S26 {
    rest: Option<Vec<u8>>,
    #[arg(short = 'v')]
    v: Option<String>,
}
impl Show for S26 { fn show(&self) -> Val { Val::Rec(vec![("rest", self.rest.show()), ("v", self.v.show())]) } }
#[derive(Debug, Parser)]
pub struct S27 {
    more: Option<String>,
    #[arg(short = 'o')]
    opt: bool,
    again: Option<String>,
    #[arg(long)]
    val: Option<String>,
    third: Option<OsString>,
}
impl Show for S27 { fn show(&self) -> Val { Val::Rec(vec![("more", self.more.show()), ("opt", self.opt.show()), ("again", self.again.show()), ("val", self.val.show()), ("third", self.third.show())]) } }
#[derive(Debug, Parser)]
pub struct S28 {
    #[arg(short = 'v')]
    v: bool,
    cmd: String,
    #[arg(trailing_var_arg = true)]
    args: Vec<OsString>,
}
impl Show for S28 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("cmd", self.cmd.show()), ("args", self.args.show())]) } }
#[derive(Debug, Parser)]
pub struct S29 {
    #[arg(long = "verbose", short = 'v')]
    v: bool,
    #[arg(trailing_var_arg = true)]
    args: Vec<String>,
}
impl Show for S29 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("args", self.args.show())]) } }
#[derive(Debug, Parser)]
pub struct S30 {
    #[arg(long = "out", short = 'o')]
    o: Option<String>,
    #[arg(trailing_var_arg = true)]
    args: Option<Vec<u8>>,
}
impl Show for S30 { fn show(&self) -> Val { Val::Rec(vec![("o", self.o.show()), ("args", self.args.show())]) } }
#[derive(Debug, Parser)]
pub struct S31 {
    #[arg(trailing_var_arg = true)]
    args: Vec<String>,
    #[arg(last = true)]
    tail: Vec<String>,
    #[arg(short = 'q')]
    q: bool,
}
impl Show for S31 { fn show(&self) -> Val { Val::Rec(vec![("args", self.args.show()), ("tail", self.tail.show()), ("q", self.q.show())]) } }
#[derive(Debug, Parser)]
pub struct S32 {
    x: Option<String>,
    #[arg(short = 'v')]
    v: bool,
    #[arg(last = true)]
    rest: Vec<String>,
}
impl Show for S32 { fn show(&self) -> Val { Val::Rec(vec![("x", self.x.show()), ("v", self.v.show()), ("rest", self.rest.show())]) } }
#[derive(Debug, Parser)]
pub struct S33 {
    files: Vec<String>,
    #[arg(last = true)]
    cmd: Option<Vec<OsString>>,
    #[arg(long = "val", short = 'v')]
    v: Option<String>,
}
impl Show for S33 { fn show(&self) -> Val { Val::Rec(vec![("files", self.files.show()), ("cmd", self.cmd.show()), ("v", self.v.show())]) } }
#[derive(Debug, Parser)]
pub struct S34 {
    #[arg(last = true)]
    cmd: Vec<u8>,
    one: Option<String>,
    two: Option<String>,
}
impl Show for S34 { fn show(&self) -> Val { Val::Rec(vec![("cmd", self.cmd.show()), ("one", self.one.show()), ("two", self.two.show())]) } }
#[derive(Debug, Parser)]
pub struct S35 {
    #[arg(last = true, required = true)]
    cmd: Vec<String>,
    #[arg(short = 'a')]
    a: bool,
}
impl Show for S35 { fn show(&self) -> Val { Val::Rec(vec![("cmd", self.cmd.show()), ("a", self.a.show())]) } }
#[derive(Debug, Parser)]
pub struct S36 {
    #[arg(required = true)]
    files: Vec<String>,
    #[arg(long = "oo", required = true)]
    o: Option<Vec<String>>,
}
impl Show for S36 { fn show(&self) -> Val { Val::Rec(vec![("files", self.files.show()), ("o", self.o.show())]) } }
#[derive(Debug, Parser)]
pub struct S37 {
}
impl Show for S37 { fn show(&self) -> Val { Val::Rec(vec![]) } }
#[derive(Debug, Parser)]
pub struct S38 {
    #[arg(long = "u8", short = 'u')]
    u: Option<u8>,
    #[arg(long = "i64", short = 'i', allow_hyphen_values = true)]
    i: Option<i64>,
    #[arg(long = "char", short = 'c')]
    c: Option<char>,
    #[arg(long = "even")]
    e: Option<Even>,
    #[arg(long = "tag", short = 't')]
    t: Option<Tag>,
}
impl Show for S38 { fn show(&self) -> Val { Val::Rec(vec![("u", self.u.show()), ("i", self.i.show()), ("c", self.c.show()), ("e", self.e.show()), ("t", self.t.show())]) } }
#[derive(Debug, Parser)]
pub struct S39 {
    #[arg(long, short = 'c')]
    color: Option<Color>,
    #[arg(long, short = 'm')]
    mode: Vec<Mode>,
    #[arg(long)]
    lvl: Option<Lvl>,
    #[arg(long)]
    cam: Option<Camel>,
    #[arg(long)]
    verb: Option<Verb>,
}
impl Show for S39 { fn show(&self) -> Val { Val::Rec(vec![("color", self.color.show()), ("mode", self.mode.show()), ("lvl", self.lvl.show()), ("cam", self.cam.show()), ("verb", self.verb.show())]) } }
#[derive(Debug, Parser)]
pub struct S40 {
    #[arg(long, short = 'l', ignore_case = true)]
    low: Option<Low>,
    #[arg(long, short = 'm', ignore_case = true, value_delimiter = ',')]
    many: Vec<Low>,
    #[arg(long, short = 'e')]
    exact: Option<Low>,
    #[arg(long, short = 'o', require_equals = true, ignore_case = true)]
    opt: Option<Option<Color>>,
}
impl Show for S40 { fn show(&self) -> Val { Val::Rec(vec![("low", self.low.show()), ("many", self.many.show()), ("exact", self.exact.show()), ("opt", self.opt.show())]) } }
#[derive(Debug, Parser)]
pub struct S41 {
    c: Color,
    ms: Vec<Mode>,
}
impl Show for S41 { fn show(&self) -> Val { Val::Rec(vec![("c", self.c.show()), ("ms", self.ms.show())]) } }
#[derive(Debug, Parser)]
pub struct S42 {
    #[arg(long, short = 'n', default_value = "42")]
    num: i32,
    #[arg(long, default_value_t = "bob".into())]
    name: String,
    #[arg(short = 'f', default_value_t = true)]
    flag: bool,
    #[arg(long, default_value_t = Color::Never)]
    col: Color,
    #[arg(long, default_value = "/x y")]
    path: PathBuf,
}
impl Show for S42 { fn show(&self) -> Val { Val::Rec(vec![("num", self.num.show()), ("name", self.name.show()), ("flag", self.flag.show()), ("col", self.col.show()), ("path", self.path.show())]) } }
#[derive(Debug, Parser)]
pub struct S43 {
    #[arg(long, short = 'z', default_value_t)]
    z: u8,
    #[arg(long, short = 'l', default_value = "a,b", value_delimiter = ',')]
    list: Vec<String>,
    #[arg(short = 'o', default_value = "7")]
    one: Vec<u8>,
    #[arg(default_value = "dp")]
    pos: Option<String>,
    #[arg(default_value = "-5")]
    more: Option<i32>,
    #[arg(long, require_equals = true, default_value = "dd")]
    oo: Option<Option<String>>,
}
impl Show for S43 { fn show(&self) -> Val { Val::Rec(vec![("z", self.z.show()), ("list", self.list.show()), ("one", self.one.show()), ("pos", self.pos.show()), ("more", self.more.show()), ("oo", self.oo.show())]) } }
#[derive(Debug, Parser)]
pub struct S44 {
    #[arg(short = 'x')]
    x: bool,
    #[arg(default_value = "3")]
    a: u8,
    #[arg(default_value = "bee")]
    b: String,
    #[arg(default_value = "r")]
    rest: Vec<String>,
}
impl Show for S44 { fn show(&self) -> Val { Val::Rec(vec![("x", self.x.show()), ("a", self.a.show()), ("b", self.b.show()), ("rest", self.rest.show())]) } }
#[derive(Debug, Parser)]
pub struct S45 {
    #[arg(short = 'a', required = true)]
    a: bool,
    #[arg(long = "bb", short = 'b', required = true)]
    b: Option<String>,
    #[arg(long = "cc")]
    c: bool,
}
impl Show for S45 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show())]) } }
#[derive(Debug, Parser)]
pub struct S46 {
    #[arg(long = "aa", short = 'a', conflicts_with = "b")]
    a: bool,
    #[arg(short = 'b')]
    b: Option<String>,
    #[arg(short = 'c', conflicts_with = "a", conflicts_with = "pos")]
    c: Vec<String>,
    pos: Option<String>,
}
impl Show for S46 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("pos", self.pos.show())]) } }
#[derive(Debug, Parser)]
pub struct S47 {
    #[arg(short = 'a', conflicts_with_all = ["b", "c", "d"])]
    a: bool,
    #[arg(short = 'b')]
    b: bool,
    #[arg(short = 'c', require_equals = true)]
    c: Option<Option<String>>,
    #[arg(short = 'd', default_value = "4")]
    d: Option<u8>,
}
impl Show for S47 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show())]) } }
#[derive(Debug, Parser)]
pub struct S48 {
    #[arg(short = 'a', requires = "b", requires = "c")]
    a: bool,
    #[arg(short = 'b')]
    b: Option<String>,
    #[arg(short = 'c', requires = "d")]
    c: Vec<String>,
    #[arg(short = 'd')]
    d: bool,
    #[arg(short = 'e', requires = "pos")]
    e: Option<u8>,
    #[arg(requires = "d")]
    pos: Option<String>,
}
impl Show for S48 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show()), ("pos", self.pos.show())]) } }
#[derive(Debug, Parser)]
pub struct S49 {
    #[arg(short = 'a', requires = "b")]
    a: bool,
    #[arg(short = 'b', default_value = "9", conflicts_with = "c")]
    b: u8,
    #[arg(short = 'c', default_value = "cc", requires = "d")]
    c: Option<String>,
    #[arg(short = 'd', default_value_t = true)]
    d: bool,
}
impl Show for S49 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show())]) } }
#[derive(Debug, Parser)]
pub struct S50 {
    #[arg(long = "aa", short = 'a', exclusive = true)]
    a: bool,
    #[arg(short = 'b')]
    b: Option<String>,
    #[arg(short = 'c')]
    c: Vec<String>,
    #[arg(short = 'd', default_value = "1")]
    d: u8,
    pos: Option<String>,
}
impl Show for S50 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("pos", self.pos.show())]) } }
#[derive(Debug, Parser)]
pub struct S51 {
    #[arg(short = 'v', exclusive = true)]
    v: Vec<String>,
    #[arg(short = 'w', require_equals = true, exclusive = true)]
    w: Option<Option<u8>>,
    #[arg(exclusive = true)]
    p: Vec<String>,
    #[arg(short = 'f')]
    f: bool,
}
impl Show for S51 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("w", self.w.show()), ("p", self.p.show()), ("f", self.f.show())]) } }
#[derive(Debug, Parser)]
pub struct S52 {
    #[arg(short = 'a', exclusive = true)]
    a: bool,
    #[arg(short = 'n', conflicts_with = "m")]
    n: Option<String>,
    #[arg(short = 'm', requires = "a")]
    m: Option<String>,
}
impl Show for S52 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("n", self.n.show()), ("m", self.m.show())]) } }
#[derive(Debug, Parser)]
pub struct S53 {
    inp: String,
    #[arg(long, short = 'o', conflicts_with = "dry")]
    out: Option<String>,
    #[arg(long = "dry-run", short = 'n', conflicts_with = "out")]
    dry: bool,
    #[arg(short = 'f', requires = "out")]
    force: bool,
    #[arg(long, requires = "force", requires = "out", conflicts_with = "extra")]
    lvl: Option<u8>,
    #[arg(last = true)]
    extra: Vec<String>,
}
impl Show for S53 { fn show(&self) -> Val { Val::Rec(vec![("inp", self.inp.show()), ("out", self.out.show()), ("dry", self.dry.show()), ("force", self.force.show()), ("lvl", self.lvl.show()), ("extra", self.extra.show())]) } }
#[derive(Debug, Parser)]
pub struct S54 {
    #[arg(long, short = 'a')]
    opt_0: bool,
    #[arg(long, short = 'b', alias = "al-7")]
    opt_1: Option<u8>,
    #[arg(long, short = 'c')]
    opt_2: Option<u8>,
    #[arg(long, short = 'd', alias = "al-21")]
    opt_3: bool,
    #[arg(long, short = 'e')]
    opt_4: Option<u8>,
    #[arg(long, short = 'f', alias = "al-35")]
    opt_5: Option<u8>,
    #[arg(long, short = 'g')]
    opt_6: bool,
    #[arg(long, short = 'h', alias = "al-49")]
    opt_7: Option<u8>,
    #[arg(long, short = 'i')]
    opt_8: Option<u8>,
    #[arg(long, short = 'j', alias = "al-3")]
    opt_9: bool,
    #[arg(long, short = 'k')]
    opt_10: Option<u8>,
    #[arg(long, short = 'l', alias = "al-17")]
    opt_11: Option<u8>,
    #[arg(long, short = 'm')]
    opt_12: bool,
    #[arg(long, short = 'n', alias = "al-31")]
    opt_13: Option<u8>,
    #[arg(long, short = 'o')]
    opt_14: Option<u8>,
    #[arg(long, short = 'p', alias = "al-45")]
    opt_15: bool,
    #[arg(long, short = 'q')]
    opt_16: Option<u8>,
    #[arg(long, short = 'r', alias = "al-59")]
    opt_17: Option<u8>,
    #[arg(long, short = 's')]
    opt_18: bool,
    #[arg(long, short = 't', alias = "al-13")]
    opt_19: Option<u8>,
    #[arg(long, short = 'u')]
    opt_20: Option<u8>,
    #[arg(long, short = 'v', alias = "al-27")]
    opt_21: bool,
    #[arg(long, short = 'w')]
    opt_22: Option<u8>,
    #[arg(long, short = 'x', alias = "al-41")]
    opt_23: Option<u8>,
    #[arg(long, short = 'y')]
    opt_24: bool,
    #[arg(long, short = 'z', alias = "al-55")]
    opt_25: Option<u8>,
    #[arg(long, short = 'A')]
    opt_26: Option<u8>,
    #[arg(long, short = 'B', alias = "al-9")]
    opt_27: bool,
    #[arg(long, short = 'C')]
    opt_28: Option<u8>,
    #[arg(long, short = 'D', alias = "al-23")]
    opt_29: Option<u8>,
    #[arg(long, short = 'E')]
    opt_30: bool,
    #[arg(long, short = 'F', alias = "al-37")]
    opt_31: Option<u8>,
    #[arg(long, short = 'G')]
    opt_32: Option<u8>,
    #[arg(long, short = 'H', alias = "al-51")]
    opt_33: bool,
    #[arg(long, short = 'I')]
    opt_34: Option<u8>,
    #[arg(long, short = 'J', alias = "al-5")]
    opt_35: Option<u8>,
    #[arg(long, short = 'K')]
    opt_36: bool,
    #[arg(long, short = 'L', alias = "al-19")]
    opt_37: Option<u8>,
    #[arg(long, short = 'M')]
    opt_38: Option<u8>,
    #[arg(long, short = 'N', alias = "al-33")]
    opt_39: bool,
    #[arg(long, short = 'O')]
    opt_40: Option<u8>,
    #[arg(long, short = 'P', alias = "al-47")]
    opt_41: Option<u8>,
    #[arg(long, short = 'Q')]
    opt_42: bool,
    #[arg(long, short = 'R', alias = "al-1")]
    opt_43: Option<u8>,
    #[arg(long, short = 'S')]
    opt_44: Option<u8>,
    #[arg(long, short = 'T', alias = "al-15")]
    opt_45: bool,
    #[arg(long, short = 'U')]
    opt_46: Option<u8>,
    #[arg(long, short = 'V', alias = "al-29")]
    opt_47: Option<u8>,
    #[arg(long, short = 'W')]
    opt_48: bool,
    #[arg(long, short = 'X', alias = "al-43")]
    opt_49: Option<u8>,
    #[arg(long, short = 'Y')]
    opt_50: Option<u8>,
    #[arg(long, short = 'Z', alias = "al-57")]
    opt_51: bool,
    #[arg(long)]
    opt_52: Option<u8>,
    #[arg(long, alias = "al-11")]
    opt_53: Option<u8>,
    #[arg(long)]
    opt_54: bool,
    #[arg(long, alias = "al-25")]
    opt_55: Option<u8>,
    #[arg(long)]
    opt_56: Option<u8>,
    #[arg(long, alias = "al-39")]
    opt_57: bool,
    #[arg(long)]
    opt_58: Option<u8>,
    #[arg(long, alias = "al-53")]
    opt_59: Option<u8>,
    p0: Option<String>,
    p1: Option<String>,
    pv: Vec<String>,
}
impl Show for S54 { fn show(&self) -> Val { Val::Rec(vec![("opt_0", self.opt_0.show()), ("opt_1", self.opt_1.show()), ("opt_2", self.opt_2.show()), ("opt_3", self.opt_3.show()), ("opt_4", self.opt_4.show()), ("opt_5", self.opt_5.show()), ("opt_6", self.opt_6.show()), ("opt_7", self.opt_7.show()), ("opt_8", self.opt_8.show()), ("opt_9", self.opt_9.show()), ("opt_10", self.opt_10.show()), ("opt_11", self.opt_11.show()), ("opt_12", self.opt_12.show()), ("opt_13", self.opt_13.show()), ("opt_14", self.opt_14.show()), ("opt_15", self.opt_15.show()), ("opt_16", self.opt_16.show()), ("opt_17", self.opt_17.show()), ("opt_18", self.opt_18.show()), ("opt_19", self.opt_19.show()), ("opt_20", self.opt_20.show()), ("opt_21", self.opt_21.show()), ("opt_22", self.opt_22.show()), ("opt_23", self.opt_23.show()), ("opt_24", self.opt_24.show()), ("opt_25", self.opt_25.show()), ("opt_26", self.opt_26.show()), ("opt_27", self.opt_27.show()), ("opt_28", self.opt_28.show()), ("opt_29", self.opt_29.show()), ("opt_30", self.opt_30.show()), ("opt_31", self.opt_31.show()), ("opt_32", self.opt_32.show()), ("opt_33", self.opt_33.show()), ("opt_34", self.opt_34.show()), ("opt_35", self.opt_35.show()), ("opt_36", self.opt_36.show()), ("opt_37", self.opt_37.show()), ("opt_38", self.opt_38.show()), ("opt_39", self.opt_39.show()), ("opt_40", self.opt_40.show()), ("opt_41", self.opt_41.show()), ("opt_42", self.opt_42.show()), ("opt_43", self.opt_43.show()), ("opt_44", self.opt_44.show()), ("opt_45", self.opt_45.show()), ("opt_46", self.opt_46.show()), ("opt_47", self.opt_47.show()), ("opt_48", self.opt_48.show()), ("opt_49", self.opt_49.show()), ("opt_50", self.opt_50.show()), ("opt_51", self.opt_51.show()), ("opt_52", self.opt_52.show()), ("opt_53", self.opt_53.show()), ("opt_54", self.opt_54.show()), ("opt_55", self.opt_55.show()), ("opt_56", self.opt_56.show()), ("opt_57", self.opt_57.show()), ("opt_58", self.opt_58.show()), ("opt_59", self.opt_59.show()), ("p0", self.p0.show()), ("p1", self.p1.show()), ("pv", self.pv.show())]) } }
#[derive(Debug, Parser)]
pub struct S55 {
    #[arg(long)]
    o0: bool,
    #[arg(long)]
    o1: Option<u8>,
    #[arg(long)]
    o2: bool,
    #[arg(long)]
    o3: Option<u8>,
    #[arg(long)]
    o4: bool,
    #[arg(long)]
    o5: Option<u8>,
    #[arg(long)]
    o6: bool,
    #[arg(long)]
    o7: Option<u8>,
    #[arg(long)]
    o8: bool,
    #[arg(long)]
    o9: Option<u8>,
    #[arg(long)]
    o10: bool,
    #[arg(long)]
    o11: Option<u8>,
    #[arg(long)]
    o12: bool,
    #[arg(long)]
    o13: Option<u8>,
    #[arg(long)]
    o14: bool,
    #[arg(long)]
    o15: Option<u8>,
    #[arg(long)]
    o16: bool,
    #[arg(long)]
    o17: Option<u8>,
    #[arg(long)]
    o18: bool,
    #[arg(long)]
    o19: Option<u8>,
    #[arg(long)]
    o20: bool,
    #[arg(long)]
    o21: Option<u8>,
    #[arg(long)]
    o22: bool,
    #[arg(long)]
    o23: Option<u8>,
    #[arg(long)]
    o24: bool,
    #[arg(long)]
    o25: Option<u8>,
    #[arg(long)]
    o26: bool,
    #[arg(long)]
    o27: Option<u8>,
    #[arg(long)]
    o28: bool,
    #[arg(long)]
    o29: Option<u8>,
    #[arg(long)]
    o30: bool,
    #[arg(long)]
    o31: Option<u8>,
    #[arg(long)]
    o32: bool,
    #[arg(long)]
    o33: Option<u8>,
    #[arg(long)]
    o34: bool,
    #[arg(long)]
    o35: Option<u8>,
    #[arg(long)]
    o36: bool,
    #[arg(long)]
    o37: Option<u8>,
    #[arg(long)]
    o38: bool,
    #[arg(long)]
    o39: Option<u8>,
    #[arg(long)]
    o40: bool,
    #[arg(long)]
    o41: Option<u8>,
    #[arg(long)]
    o42: bool,
    #[arg(long)]
    o43: Option<u8>,
    #[arg(long)]
    o44: bool,
    #[arg(long)]
    o45: Option<u8>,
    #[arg(long)]
    o46: bool,
    #[arg(long)]
    o47: Option<u8>,
    #[arg(long)]
    o48: bool,
    #[arg(long)]
    o49: Option<u8>,
    #[arg(long)]
    o50: bool,
    #[arg(long)]
    o51: Option<u8>,
    #[arg(long)]
    o52: bool,
    #[arg(long)]
    o53: Option<u8>,
    #[arg(long)]
    o54: bool,
    #[arg(long)]
    o55: Option<u8>,
    #[arg(long)]
    o56: bool,
    #[arg(long)]
    o57: Option<u8>,
    #[arg(long)]
    o58: bool,
    #[arg(long)]
    o59: Option<u8>,
    #[arg(long)]
    o60: bool,
    #[arg(long)]
    o61: Option<u8>,
    #[arg(long)]
    o62: bool,
    #[arg(long)]
    o63: Option<u8>,
    #[arg(long)]
    o64: bool,
    #[arg(long)]
    o65: Option<u8>,
    #[arg(long)]
    o66: bool,
    #[arg(long)]
    o67: Option<u8>,
    #[arg(long)]
    o68: bool,
    #[arg(long)]
    o69: Option<u8>,
    #[arg(long)]
    o70: bool,
    #[arg(long)]
    o71: Option<u8>,
    #[arg(long)]
    o72: bool,
    #[arg(long)]
    o73: Option<u8>,
    #[arg(long)]
    o74: bool,
    #[arg(long)]
    o75: Option<u8>,
    #[arg(long)]
    o76: bool,
    #[arg(long)]
    o77: Option<u8>,
    #[arg(long)]
    o78: bool,
    #[arg(long)]
    o79: Option<u8>,
    #[arg(long)]
    o80: bool,
    #[arg(long)]
    o81: Option<u8>,
    #[arg(long)]
    o82: bool,
    #[arg(long)]
    o83: Option<u8>,
    #[arg(long)]
    o84: bool,
    #[arg(long)]
    o85: Option<u8>,
    #[arg(long)]
    o86: bool,
    #[arg(long)]
    o87: Option<u8>,
    #[arg(long)]
    o88: bool,
    #[arg(long)]
    o89: Option<u8>,
    #[arg(long)]
    o90: bool,
    #[arg(long)]
    o91: Option<u8>,
    #[arg(long)]
    o92: bool,
    #[arg(long)]
    o93: Option<u8>,
    #[arg(long)]
    o94: bool,
    #[arg(long)]
    o95: Option<u8>,
    #[arg(long)]
    o96: bool,
    #[arg(long)]
    o97: Option<u8>,
    #[arg(long)]
    o98: bool,
    #[arg(long)]
    o99: Option<u8>,
    #[arg(long)]
    o100: bool,
    #[arg(long)]
    o101: Option<u8>,
    #[arg(long)]
    o102: bool,
    #[arg(long)]
    o103: Option<u8>,
    #[arg(long)]
    o104: bool,
    #[arg(long)]
    o105: Option<u8>,
    #[arg(long)]
    o106: bool,
    #[arg(long)]
    o107: Option<u8>,
    #[arg(long)]
    o108: bool,
    #[arg(long)]
    o109: Option<u8>,
    #[arg(long)]
    o110: bool,
    #[arg(long)]
    o111: Option<u8>,
    #[arg(long)]
    o112: bool,
    #[arg(long)]
    o113: Option<u8>,
    #[arg(long)]
    o114: bool,
    #[arg(long)]
    o115: Option<u8>,
    #[arg(long)]
    o116: bool,
    #[arg(long)]
    o117: Option<u8>,
    #[arg(long)]
    o118: bool,
    #[arg(long)]
    o119: Option<u8>,
    #[arg(long)]
    o120: bool,
    #[arg(long)]
    o121: Option<u8>,
    #[arg(long)]
    o122: bool,
    #[arg(long)]
    o123: Option<u8>,
    #[arg(long)]
    o124: bool,
    #[arg(long)]
    o125: Option<u8>,
    #[arg(long)]
    o126: bool,
    #[arg(long)]
    o127: Option<u8>,
    #[arg(long)]
    o128: bool,
    #[arg(long)]
    o129: Option<u8>,
    #[arg(long)]
    o130: bool,
    #[arg(long)]
    o131: Option<u8>,
    #[arg(long)]
    o132: bool,
    #[arg(long)]
    o133: Option<u8>,
    #[arg(long)]
    o134: bool,
    #[arg(long)]
    o135: Option<u8>,
    #[arg(long)]
    o136: bool,
    #[arg(long)]
    o137: Option<u8>,
    #[arg(long)]
    o138: bool,
    #[arg(long)]
    o139: Option<u8>,
    #[arg(long)]
    o140: bool,
    #[arg(long)]
    o141: Option<u8>,
    #[arg(long)]
    o142: bool,
    #[arg(long)]
    o143: Option<u8>,
    #[arg(long)]
    o144: bool,
    #[arg(long)]
    o145: Option<u8>,
    #[arg(long)]
    o146: bool,
    #[arg(long)]
    o147: Option<u8>,
    #[arg(long)]
    o148: bool,
    #[arg(long)]
    o149: Option<u8>,
    #[arg(long)]
    o150: bool,
    #[arg(long)]
    o151: Option<u8>,
    #[arg(long)]
    o152: bool,
    #[arg(long)]
    o153: Option<u8>,
    #[arg(long)]
    o154: bool,
    #[arg(long)]
    o155: Option<u8>,
    #[arg(long)]
    o156: bool,
    #[arg(long)]
    o157: Option<u8>,
    #[arg(long)]
    o158: bool,
    #[arg(long)]
    o159: Option<u8>,
    #[arg(long)]
    o160: bool,
    #[arg(long)]
    o161: Option<u8>,
    #[arg(long)]
    o162: bool,
    #[arg(long)]
    o163: Option<u8>,
    #[arg(long)]
    o164: bool,
    #[arg(long)]
    o165: Option<u8>,
    #[arg(long)]
    o166: bool,
    #[arg(long)]
    o167: Option<u8>,
    #[arg(long)]
    o168: bool,
    #[arg(long)]
    o169: Option<u8>,
    #[arg(long)]
    o170: bool,
    #[arg(long)]
    o171: Option<u8>,
    #[arg(long)]
    o172: bool,
    #[arg(long)]
    o173: Option<u8>,
    #[arg(long)]
    o174: bool,
    #[arg(long)]
    o175: Option<u8>,
    #[arg(long)]
    o176: bool,
    #[arg(long)]
    o177: Option<u8>,
    #[arg(long)]
    o178: bool,
    #[arg(long)]
    o179: Option<u8>,
    #[arg(long)]
    o180: bool,
    #[arg(long)]
    o181: Option<u8>,
    #[arg(long)]
    o182: bool,
    #[arg(long)]
    o183: Option<u8>,
    #[arg(long)]
    o184: bool,
    #[arg(long)]
    o185: Option<u8>,
    #[arg(long)]
    o186: bool,
    #[arg(long)]
    o187: Option<u8>,
    #[arg(long)]
    o188: bool,
    #[arg(long)]
    o189: Option<u8>,
    #[arg(long)]
    o190: bool,
    #[arg(long)]
    o191: Option<u8>,
    #[arg(long)]
    o192: bool,
    #[arg(long)]
    o193: Option<u8>,
    #[arg(long)]
    o194: bool,
    #[arg(long)]
    o195: Option<u8>,
    #[arg(long)]
    o196: bool,
    #[arg(long)]
    o197: Option<u8>,
    #[arg(long)]
    o198: bool,
    #[arg(long)]
    o199: Option<u8>,
    #[arg(long)]
    o200: bool,
    #[arg(long)]
    o201: Option<u8>,
    #[arg(long)]
    o202: bool,
    #[arg(long)]
    o203: Option<u8>,
    #[arg(long)]
    o204: bool,
    #[arg(long)]
    o205: Option<u8>,
    #[arg(long)]
    o206: bool,
    #[arg(long)]
    o207: Option<u8>,
    #[arg(long)]
    o208: bool,
    #[arg(long)]
    o209: Option<u8>,
    #[arg(long)]
    o210: bool,
    #[arg(long)]
    o211: Option<u8>,
    #[arg(long)]
    o212: bool,
    #[arg(long)]
    o213: Option<u8>,
    #[arg(long)]
    o214: bool,
    #[arg(long)]
    o215: Option<u8>,
    #[arg(long)]
    o216: bool,
    #[arg(long)]
    o217: Option<u8>,
    #[arg(long)]
    o218: bool,
    #[arg(long)]
    o219: Option<u8>,
    #[arg(long)]
    o220: bool,
    #[arg(long)]
    o221: Option<u8>,
    #[arg(long)]
    o222: bool,
    #[arg(long)]
    o223: Option<u8>,
    #[arg(long)]
    o224: bool,
    #[arg(long)]
    o225: Option<u8>,
    #[arg(long)]
    o226: bool,
    #[arg(long)]
    o227: Option<u8>,
    #[arg(long)]
    o228: bool,
    #[arg(long)]
    o229: Option<u8>,
    #[arg(long)]
    o230: bool,
    #[arg(long)]
    o231: Option<u8>,
    #[arg(long)]
    o232: bool,
    #[arg(long)]
    o233: Option<u8>,
    #[arg(long)]
    o234: bool,
    #[arg(long)]
    o235: Option<u8>,
    #[arg(long)]
    o236: bool,
    #[arg(long)]
    o237: Option<u8>,
    #[arg(long)]
    o238: bool,
    #[arg(long)]
    o239: Option<u8>,
    #[arg(long)]
    o240: bool,
    #[arg(long)]
    o241: Option<u8>,
    #[arg(long)]
    o242: bool,
    #[arg(long)]
    o243: Option<u8>,
    #[arg(long)]
    o244: bool,
    #[arg(long)]
    o245: Option<u8>,
    #[arg(long)]
    o246: bool,
    #[arg(long)]
    o247: Option<u8>,
    #[arg(long)]
    o248: bool,
    #[arg(long)]
    o249: Option<u8>,
    p0: Option<u8>,
    p1: Option<u8>,
    p2: Option<u8>,
    p3: Vec<u8>,
}
impl Show for S55 { fn show(&self) -> Val { Val::Rec(vec![("o0", self.o0.show()), ("o1", self.o1.show()), ("o2", self.o2.show()), ("o3", self.o3.show()), ("o4", self.o4.show()), ("o5", self.o5.show()), ("o6", self.o6.show()), ("o7", self.o7.show()), ("o8", self.o8.show()), ("o9", self.o9.show()), ("o10", self.o10.show()), ("o11", self.o11.show()), ("o12", self.o12.show()), ("o13", self.o13.show()), ("o14", self.o14.show()), ("o15", self.o15.show()), ("o16", self.o16.show()), ("o17", self.o17.show()), ("o18", self.o18.show()), ("o19", self.o19.show()), ("o20", self.o20.show()), ("o21", self.o21.show()), ("o22", self.o22.show()), ("o23", self.o23.show()), ("o24", self.o24.show()), ("o25", self.o25.show()), ("o26", self.o26.show()), ("o27", self.o27.show()), ("o28", self.o28.show()), ("o29", self.o29.show()), ("o30", self.o30.show()), ("o31", self.o31.show()), ("o32", self.o32.show()), ("o33", self.o33.show()), ("o34", self.o34.show()), ("o35", self.o35.show()), ("o36", self.o36.show()), ("o37", self.o37.show()), ("o38", self.o38.show()), ("o39", self.o39.show()), ("o40", self.o40.show()), ("o41", self.o41.show()), ("o42", self.o42.show()), ("o43", self.o43.show()), ("o44", self.o44.show()), ("o45", self.o45.show()), ("o46", self.o46.show()), ("o47", self.o47.show()), ("o48", self.o48.show()), ("o49", self.o49.show()), ("o50", self.o50.show()), ("o51", self.o51.show()), ("o52", self.o52.show()), ("o53", self.o53.show()), ("o54", self.o54.show()), ("o55", self.o55.show()), ("o56", self.o56.show()), ("o57", self.o57.show()), ("o58", self.o58.show()), ("o59", self.o59.show()), ("o60", self.o60.show()), ("o61", self.o61.show()), ("o62", self.o62.show()), ("o63", self.o63.show()), ("o64", self.o64.show()), ("o65", self.o65.show()), ("o66", self.o66.show()), ("o67", self.o67.show()), ("o68", self.o68.show()), ("o69", self.o69.show()), ("o70", self.o70.show()), ("o71", self.o71.show()), ("o72", self.o72.show()), ("o73", self.o73.show()), ("o74", self.o74.show()), ("o75", self.o75.show()), ("o76", self.o76.show()), ("o77", self.o77.show()), ("o78", self.o78.show()), ("o79", self.o79.show()), ("o80", self.o80.show()), ("o81", self.o81.show()), ("o82", self.o82.show()), ("o83", self.o83.show()), ("o84", self.o84.show()), ("o85", self.o85.show()), ("o86", self.o86.show()), ("o87", self.o87.show()), ("o88", self.o88.show()), ("o89", self.o89.show()), ("o90", self.o90.show()), ("o91", self.o91.show()), ("o92", self.o92.show()), ("o93", self.o93.show()), ("o94", self.o94.show()), ("o95", self.o95.show()), ("o96", self.o96.show()), ("o97", self.o97.show()), ("o98", self.o98.show()), ("o99", self.o99.show()), ("o100", self.o100.show()), ("o101", self.o101.show()), ("o102", self.o102.show()), ("o103", self.o103.show()), ("o104", self.o104.show()), ("o105", self.o105.show()), ("o106", self.o106.show()), ("o107", self.o107.show()), ("o108", self.o108.show()), ("o109", self.o109.show()), ("o110", self.o110.show()), ("o111", self.o111.show()), ("o112", self.o112.show()), ("o113", self.o113.show()), ("o114", self.o114.show()), ("o115", self.o115.show()), ("o116", self.o116.show()), ("o117", self.o117.show()), ("o118", self.o118.show()), ("o119", self.o119.show()), ("o120", self.o120.show()), ("o121", self.o121.show()), ("o122", self.o122.show()), ("o123", self.o123.show()), ("o124", self.o124.show()), ("o125", self.o125.show()), ("o126", self.o126.show()), ("o127", self.o127.show()), ("o128", self.o128.show()), ("o129", self.o129.show()), ("o130", self.o130.show()), ("o131", self.o131.show()), ("o132", self.o132.show()), ("o133", self.o133.show()), ("o134", self.o134.show()), ("o135", self.o135.show()), ("o136", self.o136.show()), ("o137", self.o137.show()), ("o138", self.o138.show()), ("o139", self.o139.show()), ("o140", self.o140.show()), ("o141", self.o141.show()), ("o142", self.o142.show()), ("o143", self.o143.show()), ("o144", self.o144.show()), ("o145", self.o145.show()), ("o146", self.o146.show()), ("o147", self.o147.show()), ("o148", self.o148.show()), ("o149", self.o149.show()), ("o150", self.o150.show()), ("o151", self.o151.show()), ("o152", self.o152.show()), ("o153", self.o153.show()), ("o154", self.o154.show()), ("o155", self.o155.show()), ("o156", self.o156.show()), ("o157", self.o157.show()), ("o158", self.o158.show()), ("o159", self.o159.show()), ("o160", self.o160.show()), ("o161", self.o161.show()), ("o162", self.o162.show()), ("o163", self.o163.show()), ("o164", self.o164.show()), ("o165", self.o165.show()), ("o166", self.o166.show()), ("o167", self.o167.show()), ("o168", self.o168.show()), ("o169", self.o169.show()), ("o170", self.o170.show()), ("o171", self.o171.show()), ("o172", self.o172.show()), ("o173", self.o173.show()), ("o174", self.o174.show()), ("o175", self.o175.show()), ("o176", self.o176.show()), ("o177", self.o177.show()), ("o178", self.o178.show()), ("o179", self.o179.show()), ("o180", self.o180.show()), ("o181", self.o181.show()), ("o182", self.o182.show()), ("o183", self.o183.show()), ("o184", self.o184.show()), ("o185", self.o185.show()), ("o186", self.o186.show()), ("o187", self.o187.show()), ("o188", self.o188.show()), ("o189", self.o189.show()), ("o190", self.o190.show()), ("o191", self.o191.show()), ("o192", self.o192.show()), ("o193", self.o193.show()), ("o194", self.o194.show()), ("o195", self.o195.show()), ("o196", self.o196.show()), ("o197", self.o197.show()), ("o198", self.o198.show()), ("o199", self.o199.show()), ("o200", self.o200.show()), ("o201", self.o201.show()), ("o202", self.o202.show()), ("o203", self.o203.show()), ("o204", self.o204.show()), ("o205", self.o205.show()), ("o206", self.o206.show()), ("o207", self.o207.show()), ("o208", self.o208.show()), ("o209", self.o209.show()), ("o210", self.o210.show()), ("o211", self.o211.show()), ("o212", self.o212.show()), ("o213", self.o213.show()), ("o214", self.o214.show()), ("o215", self.o215.show()), ("o216", self.o216.show()), ("o217", self.o217.show()), ("o218", self.o218.show()), ("o219", self.o219.show()), ("o220", self.o220.show()), ("o221", self.o221.show()), ("o222", self.o222.show()), ("o223", self.o223.show()), ("o224", self.o224.show()), ("o225", self.o225.show()), ("o226", self.o226.show()), ("o227", self.o227.show()), ("o228", self.o228.show()), ("o229", self.o229.show()), ("o230", self.o230.show()), ("o231", self.o231.show()), ("o232", self.o232.show()), ("o233", self.o233.show()), ("o234", self.o234.show()), ("o235", self.o235.show()), ("o236", self.o236.show()), ("o237", self.o237.show()), ("o238", self.o238.show()), ("o239", self.o239.show()), ("o240", self.o240.show()), ("o241", self.o241.show()), ("o242", self.o242.show()), ("o243", self.o243.show()), ("o244", self.o244.show()), ("o245", self.o245.show()), ("o246", self.o246.show()), ("o247", self.o247.show()), ("o248", self.o248.show()), ("o249", self.o249.show()), ("p0", self.p0.show()), ("p1", self.p1.show()), ("p2", self.p2.show()), ("p3", self.p3.show())]) } }
#[derive(Debug, Parser)]
pub struct S56 {
    #[arg(short = 'v')]
    v: bool,
    p0: Option<String>,
    p1: Option<String>,
    p2: Option<String>,
    p3: Option<String>,
    p4: Option<String>,
    p5: Option<String>,
    p6: Option<String>,
    p7: Option<String>,
    p8: Option<String>,
    p9: Option<String>,
    p10: Option<String>,
    p11: Option<String>,
}
impl Show for S56 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("p0", self.p0.show()), ("p1", self.p1.show()), ("p2", self.p2.show()), ("p3", self.p3.show()), ("p4", self.p4.show()), ("p5", self.p5.show()), ("p6", self.p6.show()), ("p7", self.p7.show()), ("p8", self.p8.show()), ("p9", self.p9.show()), ("p10", self.p10.show()), ("p11", self.p11.show())]) } }
#[derive(Debug, Parser)]
pub struct S57 {
    p0: Option<u8>,
    p1: Option<u8>,
    p2: Option<u8>,
    p3: Option<u8>,
    p4: Option<u8>,
    p5: Option<u8>,
    p6: Option<u8>,
    p7: Option<u8>,
    p8: Option<u8>,
    p9: Option<u8>,
    p10: Option<u8>,
    p11: Option<u8>,
    p12: Option<u8>,
    p13: Option<u8>,
    p14: Option<u8>,
    p15: Option<u8>,
    p16: Option<u8>,
    p17: Option<u8>,
    p18: Option<u8>,
    p19: Option<u8>,
    p20: Option<u8>,
    p21: Option<u8>,
    p22: Option<u8>,
    p23: Option<u8>,
    p24: Option<u8>,
    p25: Option<u8>,
    p26: Option<u8>,
    p27: Option<u8>,
    p28: Option<u8>,
    p29: Option<u8>,
    p30: Option<u8>,
    p31: Option<u8>,
    p32: Option<u8>,
    p33: Option<u8>,
    p34: Option<u8>,
    p35: Option<u8>,
    p36: Option<u8>,
    p37: Option<u8>,
    p38: Option<u8>,
    p39: Option<u8>,
    p40: Option<u8>,
    p41: Option<u8>,
    p42: Option<u8>,
    p43: Option<u8>,
    p44: Option<u8>,
    p45: Option<u8>,
    p46: Option<u8>,
    p47: Option<u8>,
    p48: Option<u8>,
    p49: Option<u8>,
    p50: Option<u8>,
    p51: Option<u8>,
    p52: Option<u8>,
    p53: Option<u8>,
    p54: Option<u8>,
    p55: Option<u8>,
    p56: Option<u8>,
    p57: Option<u8>,
    p58: Option<u8>,
    p59: Option<u8>,
    p60: Option<u8>,
    p61: Option<u8>,
    p62: Option<u8>,
    p63: Option<u8>,
    p64: Option<u8>,
    p65: Option<u8>,
    p66: Option<u8>,
    p67: Option<u8>,
    p68: Option<u8>,
    p69: Option<u8>,
    p70: Option<u8>,
    p71: Option<u8>,
    p72: Option<u8>,
    p73: Option<u8>,
    p74: Option<u8>,
    p75: Option<u8>,
    p76: Option<u8>,
    p77: Option<u8>,
    p78: Option<u8>,
    p79: Option<u8>,
    p80: Option<u8>,
    p81: Option<u8>,
    p82: Option<u8>,
    p83: Option<u8>,
    p84: Option<u8>,
    p85: Option<u8>,
    p86: Option<u8>,
    p87: Option<u8>,
    p88: Option<u8>,
    p89: Option<u8>,
    p90: Option<u8>,
    p91: Option<u8>,
    p92: Option<u8>,
    p93: Option<u8>,
    p94: Option<u8>,
    p95: Option<u8>,
    p96: Option<u8>,
    p97: Option<u8>,
    p98: Option<u8>,
    p99: Option<u8>,
    p100: Option<u8>,
    p101: Option<u8>,
    p102: Option<u8>,
    p103: Option<u8>,
    p104: Option<u8>,
    p105: Option<u8>,
    p106: Option<u8>,
    p107: Option<u8>,
    p108: Option<u8>,
    p109: Option<u8>,
    p110: Option<u8>,
    p111: Option<u8>,
    p112: Option<u8>,
    p113: Option<u8>,
    p114: Option<u8>,
    p115: Option<u8>,
    p116: Option<u8>,
    p117: Option<u8>,
    p118: Option<u8>,
    p119: Option<u8>,
    p120: Option<u8>,
    p121: Option<u8>,
    p122: Option<u8>,
    p123: Option<u8>,
    p124: Option<u8>,
    p125: Option<u8>,
    p126: Option<u8>,
    p127: Option<u8>,
    p128: Option<u8>,
    p129: Option<u8>,
    p130: Option<u8>,
    p131: Option<u8>,
    p132: Option<u8>,
    p133: Option<u8>,
    p134: Option<u8>,
    p135: Option<u8>,
    p136: Option<u8>,
    p137: Option<u8>,
    p138: Option<u8>,
    p139: Option<u8>,
    p140: Option<u8>,
    p141: Option<u8>,
    p142: Option<u8>,
    p143: Option<u8>,
    p144: Option<u8>,
    p145: Option<u8>,
    p146: Option<u8>,
    p147: Option<u8>,
    p148: Option<u8>,
    p149: Option<u8>,
    p150: Option<u8>,
    p151: Option<u8>,
    p152: Option<u8>,
    p153: Option<u8>,
    p154: Option<u8>,
    p155: Option<u8>,
    p156: Option<u8>,
    p157: Option<u8>,
    p158: Option<u8>,
    p159: Option<u8>,
    p160: Option<u8>,
    p161: Option<u8>,
    p162: Option<u8>,
    p163: Option<u8>,
    p164: Option<u8>,
    p165: Option<u8>,
    p166: Option<u8>,
    p167: Option<u8>,
    p168: Option<u8>,
    p169: Option<u8>,
    p170: Option<u8>,
    p171: Option<u8>,
    p172: Option<u8>,
    p173: Option<u8>,
    p174: Option<u8>,
    p175: Option<u8>,
    p176: Option<u8>,
    p177: Option<u8>,
    p178: Option<u8>,
    p179: Option<u8>,
    p180: Option<u8>,
    p181: Option<u8>,
    p182: Option<u8>,
    p183: Option<u8>,
    p184: Option<u8>,
    p185: Option<u8>,
    p186: Option<u8>,
    p187: Option<u8>,
    p188: Option<u8>,
    p189: Option<u8>,
    p190: Option<u8>,
    p191: Option<u8>,
    p192: Option<u8>,
    p193: Option<u8>,
    p194: Option<u8>,
    p195: Option<u8>,
    p196: Option<u8>,
    p197: Option<u8>,
    p198: Option<u8>,
    p199: Option<u8>,
    p200: Option<u8>,
    p201: Option<u8>,
    p202: Option<u8>,
    p203: Option<u8>,
    p204: Option<u8>,
    p205: Option<u8>,
    p206: Option<u8>,
    p207: Option<u8>,
    p208: Option<u8>,
    p209: Option<u8>,
    p210: Option<u8>,
    p211: Option<u8>,
    p212: Option<u8>,
    p213: Option<u8>,
    p214: Option<u8>,
    p215: Option<u8>,
    p216: Option<u8>,
    p217: Option<u8>,
    p218: Option<u8>,
    p219: Option<u8>,
    p220: Option<u8>,
    p221: Option<u8>,
    p222: Option<u8>,
    p223: Option<u8>,
    p224: Option<u8>,
    p225: Option<u8>,
    p226: Option<u8>,
    p227: Option<u8>,
    p228: Option<u8>,
    p229: Option<u8>,
    p230: Option<u8>,
    p231: Option<u8>,
    p232: Option<u8>,
    p233: Option<u8>,
    p234: Option<u8>,
    p235: Option<u8>,
    p236: Option<u8>,
    p237: Option<u8>,
    p238: Option<u8>,
    p239: Option<u8>,
    p240: Option<u8>,
    p241: Option<u8>,
    p242: Option<u8>,
    p243: Option<u8>,
    p244: Option<u8>,
    p245: Option<u8>,
    p246: Option<u8>,
    p247: Option<u8>,
    p248: Option<u8>,
    p249: Option<u8>,
    p250: Option<u8>,
    p251: Option<u8>,
    p252: Option<u8>,
    p253: Option<u8>,
}
impl Show for S57 { fn show(&self) -> Val { Val::Rec(vec![("p0", self.p0.show()), ("p1", self.p1.show()), ("p2", self.p2.show()), ("p3", self.p3.show()), ("p4", self.p4.show()), ("p5", self.p5.show()), ("p6", self.p6.show()), ("p7", self.p7.show()), ("p8", self.p8.show()), ("p9", self.p9.show()), ("p10", self.p10.show()), ("p11", self.p11.show()), ("p12", self.p12.show()), ("p13", self.p13.show()), ("p14", self.p14.show()), ("p15", self.p15.show()), ("p16", self.p16.show()), ("p17", self.p17.show()), ("p18", self.p18.show()), ("p19", self.p19.show()), ("p20", self.p20.show()), ("p21", self.p21.show()), ("p22", self.p22.show()), ("p23", self.p23.show()), ("p24", self.p24.show()), ("p25", self.p25.show()), ("p26", self.p26.show()), ("p27", self.p27.show()), ("p28", self.p28.show()), ("p29", self.p29.show()), ("p30", self.p30.show()), ("p31", self.p31.show()), ("p32", self.p32.show()), ("p33", self.p33.show()), ("p34", self.p34.show()), ("p35", self.p35.show()), ("p36", self.p36.show()), ("p37", self.p37.show()), ("p38", self.p38.show()), ("p39", self.p39.show()), ("p40", self.p40.show()), ("p41", self.p41.show()), ("p42", self.p42.show()), ("p43", self.p43.show()), ("p44", self.p44.show()), ("p45", self.p45.show()), ("p46", self.p46.show()), ("p47", self.p47.show()), ("p48", self.p48.show()), ("p49", self.p49.show()), ("p50", self.p50.show()), ("p51", self.p51.show()), ("p52", self.p52.show()), ("p53", self.p53.show()), ("p54", self.p54.show()), ("p55", self.p55.show()), ("p56", self.p56.show()), ("p57", self.p57.show()), ("p58", self.p58.show()), ("p59", self.p59.show()), ("p60", self.p60.show()), ("p61", self.p61.show()), ("p62", self.p62.show()), ("p63", self.p63.show()), ("p64", self.p64.show()), ("p65", self.p65.show()), ("p66", self.p66.show()), ("p67", self.p67.show()), ("p68", self.p68.show()), ("p69", self.p69.show()), ("p70", self.p70.show()), ("p71", self.p71.show()), ("p72", self.p72.show()), ("p73", self.p73.show()), ("p74", self.p74.show()), ("p75", self.p75.show()), ("p76", self.p76.show()), ("p77", self.p77.show()), ("p78", self.p78.show()), ("p79", self.p79.show()), ("p80", self.p80.show()), ("p81", self.p81.show()), ("p82", self.p82.show()), ("p83", self.p83.show()), ("p84", self.p84.show()), ("p85", self.p85.show()), ("p86", self.p86.show()), ("p87", self.p87.show()), ("p88", self.p88.show()), ("p89", self.p89.show()), ("p90", self.p90.show()), ("p91", self.p91.show()), ("p92", self.p92.show()), ("p93", self.p93.show()), ("p94", self.p94.show()), ("p95", self.p95.show()), ("p96", self.p96.show()), ("p97", self.p97.show()), ("p98", self.p98.show()), ("p99", self.p99.show()), ("p100", self.p100.show()), ("p101", self.p101.show()), ("p102", self.p102.show()), ("p103", self.p103.show()), ("p104", self.p104.show()), ("p105", self.p105.show()), ("p106", self.p106.show()), ("p107", self.p107.show()), ("p108", self.p108.show()), ("p109", self.p109.show()), ("p110", self.p110.show()), ("p111", self.p111.show()), ("p112", self.p112.show()), ("p113", self.p113.show()), ("p114", self.p114.show()), ("p115", self.p115.show()), ("p116", self.p116.show()), ("p117", self.p117.show()), ("p118", self.p118.show()), ("p119", self.p119.show()), ("p120", self.p120.show()), ("p121", self.p121.show()), ("p122", self.p122.show()), ("p123", self.p123.show()), ("p124", self.p124.show()), ("p125", self.p125.show()), ("p126", self.p126.show()), ("p127", self.p127.show()), ("p128", self.p128.show()), ("p129", self.p129.show()), ("p130", self.p130.show()), ("p131", self.p131.show()), ("p132", self.p132.show()), ("p133", self.p133.show()), ("p134", self.p134.show()), ("p135", self.p135.show()), ("p136", self.p136.show()), ("p137", self.p137.show()), ("p138", self.p138.show()), ("p139", self.p139.show()), ("p140", self.p140.show()), ("p141", self.p141.show()), ("p142", self.p142.show()), ("p143", self.p143.show()), ("p144", self.p144.show()), ("p145", self.p145.show()), ("p146", self.p146.show()), ("p147", self.p147.show()), ("p148", self.p148.show()), ("p149", self.p149.show()), ("p150", self.p150.show()), ("p151", self.p151.show()), ("p152", self.p152.show()), ("p153", self.p153.show()), ("p154", self.p154.show()), ("p155", self.p155.show()), ("p156", self.p156.show()), ("p157", self.p157.show()), ("p158", self.p158.show()), ("p159", self.p159.show()), ("p160", self.p160.show()), ("p161", self.p161.show()), ("p162", self.p162.show()), ("p163", self.p163.show()), ("p164", self.p164.show()), ("p165", self.p165.show()), ("p166", self.p166.show()), ("p167", self.p167.show()), ("p168", self.p168.show()), ("p169", self.p169.show()), ("p170", self.p170.show()), ("p171", self.p171.show()), ("p172", self.p172.show()), ("p173", self.p173.show()), ("p174", self.p174.show()), ("p175", self.p175.show()), ("p176", self.p176.show()), ("p177", self.p177.show()), ("p178", self.p178.show()), ("p179", self.p179.show()), ("p180", self.p180.show()), ("p181", self.p181.show()), ("p182", self.p182.show()), ("p183", self.p183.show()), ("p184", self.p184.show()), ("p185", self.p185.show()), ("p186", self.p186.show()), ("p187", self.p187.show()), ("p188", self.p188.show()), ("p189", self.p189.show()), ("p190", self.p190.show()), ("p191", self.p191.show()), ("p192", self.p192.show()), ("p193", self.p193.show()), ("p194", self.p194.show()), ("p195", self.p195.show()), ("p196", self.p196.show()), ("p197", self.p197.show()), ("p198", self.p198.show()), ("p199", self.p199.show()), ("p200", self.p200.show()), ("p201", self.p201.show()), ("p202", self.p202.show()), ("p203", self.p203.show()), ("p204", self.p204.show()), ("p205", self.p205.show()), ("p206", self.p206.show()), ("p207", self.p207.show()), ("p208", self.p208.show()), ("p209", self.p209.show()), ("p210", self.p210.show()), ("p211", self.p211.show()), ("p212", self.p212.show()), ("p213", self.p213.show()), ("p214", self.p214.show()), ("p215", self.p215.show()), ("p216", self.p216.show()), ("p217", self.p217.show()), ("p218", self.p218.show()), ("p219", self.p219.show()), ("p220", self.p220.show()), ("p221", self.p221.show()), ("p222", self.p222.show()), ("p223", self.p223.show()), ("p224", self.p224.show()), ("p225", self.p225.show()), ("p226", self.p226.show()), ("p227", self.p227.show()), ("p228", self.p228.show()), ("p229", self.p229.show()), ("p230", self.p230.show()), ("p231", self.p231.show()), ("p232", self.p232.show()), ("p233", self.p233.show()), ("p234", self.p234.show()), ("p235", self.p235.show()), ("p236", self.p236.show()), ("p237", self.p237.show()), ("p238", self.p238.show()), ("p239", self.p239.show()), ("p240", self.p240.show()), ("p241", self.p241.show()), ("p242", self.p242.show()), ("p243", self.p243.show()), ("p244", self.p244.show()), ("p245", self.p245.show()), ("p246", self.p246.show()), ("p247", self.p247.show()), ("p248", self.p248.show()), ("p249", self.p249.show()), ("p250", self.p250.show()), ("p251", self.p251.show()), ("p252", self.p252.show()), ("p253", self.p253.show())]) } }
#[derive(Debug, Parser)]
pub struct S58 {
    p0: Option<u8>,
    p1: Option<u8>,
    p2: Option<u8>,
    p3: Option<u8>,
    p4: Option<u8>,
    p5: Option<u8>,
    p6: Option<u8>,
    p7: Option<u8>,
    p8: Option<u8>,
    p9: Option<u8>,
    p10: Option<u8>,
    p11: Option<u8>,
    p12: Option<u8>,
    p13: Option<u8>,
    p14: Option<u8>,
    p15: Option<u8>,
    p16: Option<u8>,
    p17: Option<u8>,
    p18: Option<u8>,
    p19: Option<u8>,
    p20: Option<u8>,
    p21: Option<u8>,
    p22: Option<u8>,
    p23: Option<u8>,
    p24: Option<u8>,
    p25: Option<u8>,
    p26: Option<u8>,
    p27: Option<u8>,
    p28: Option<u8>,
    p29: Option<u8>,
    p30: Option<u8>,
    p31: Option<u8>,
    p32: Option<u8>,
    p33: Option<u8>,
    p34: Option<u8>,
    p35: Option<u8>,
    p36: Option<u8>,
    p37: Option<u8>,
    p38: Option<u8>,
    p39: Option<u8>,
    p40: Option<u8>,
    p41: Option<u8>,
    p42: Option<u8>,
    p43: Option<u8>,
    p44: Option<u8>,
    p45: Option<u8>,
    p46: Option<u8>,
    p47: Option<u8>,
    p48: Option<u8>,
    p49: Option<u8>,
    p50: Option<u8>,
    p51: Option<u8>,
    p52: Option<u8>,
    p53: Option<u8>,
    p54: Option<u8>,
    p55: Option<u8>,
    p56: Option<u8>,
    p57: Option<u8>,
    p58: Option<u8>,
    p59: Option<u8>,
    p60: Option<u8>,
    p61: Option<u8>,
    p62: Option<u8>,
    p63: Option<u8>,
    p64: Option<u8>,
    p65: Option<u8>,
    p66: Option<u8>,
    p67: Option<u8>,
    p68: Option<u8>,
    p69: Option<u8>,
    p70: Option<u8>,
    p71: Option<u8>,
    p72: Option<u8>,
    p73: Option<u8>,
    p74: Option<u8>,
    p75: Option<u8>,
    p76: Option<u8>,
    p77: Option<u8>,
    p78: Option<u8>,
    p79: Option<u8>,
    p80: Option<u8>,
    p81: Option<u8>,
    p82: Option<u8>,
    p83: Option<u8>,
    p84: Option<u8>,
    p85: Option<u8>,
    p86: Option<u8>,
    p87: Option<u8>,
    p88: Option<u8>,
    p89: Option<u8>,
    p90: Option<u8>,
    p91: Option<u8>,
    p92: Option<u8>,
    p93: Option<u8>,
    p94: Option<u8>,
    p95: Option<u8>,
    p96: Option<u8>,
    p97: Option<u8>,
    p98: Option<u8>,
    p99: Option<u8>,
    p100: Option<u8>,
    p101: Option<u8>,
    p102: Option<u8>,
    p103: Option<u8>,
    p104: Option<u8>,
    p105: Option<u8>,
    p106: Option<u8>,
    p107: Option<u8>,
    p108: Option<u8>,
    p109: Option<u8>,
    p110: Option<u8>,
    p111: Option<u8>,
    p112: Option<u8>,
    p113: Option<u8>,
    p114: Option<u8>,
    p115: Option<u8>,
    p116: Option<u8>,
    p117: Option<u8>,
    p118: Option<u8>,
    p119: Option<u8>,
    p120: Option<u8>,
    p121: Option<u8>,
    p122: Option<u8>,
    p123: Option<u8>,
    p124: Option<u8>,
    p125: Option<u8>,
    p126: Option<u8>,
    p127: Option<u8>,
    p128: Option<u8>,
    p129: Option<u8>,
    p130: Option<u8>,
    p131: Option<u8>,
    p132: Option<u8>,
    p133: Option<u8>,
    p134: Option<u8>,
    p135: Option<u8>,
    p136: Option<u8>,
    p137: Option<u8>,
    p138: Option<u8>,
    p139: Option<u8>,
    p140: Option<u8>,
    p141: Option<u8>,
    p142: Option<u8>,
    p143: Option<u8>,
    p144: Option<u8>,
    p145: Option<u8>,
    p146: Option<u8>,
    p147: Option<u8>,
    p148: Option<u8>,
    p149: Option<u8>,
    p150: Option<u8>,
    p151: Option<u8>,
    p152: Option<u8>,
    p153: Option<u8>,
    p154: Option<u8>,
    p155: Option<u8>,
    p156: Option<u8>,
    p157: Option<u8>,
    p158: Option<u8>,
    p159: Option<u8>,
    p160: Option<u8>,
    p161: Option<u8>,
    p162: Option<u8>,
    p163: Option<u8>,
    p164: Option<u8>,
    p165: Option<u8>,
    p166: Option<u8>,
    p167: Option<u8>,
    p168: Option<u8>,
    p169: Option<u8>,
    p170: Option<u8>,
    p171: Option<u8>,
    p172: Option<u8>,
    p173: Option<u8>,
    p174: Option<u8>,
    p175: Option<u8>,
    p176: Option<u8>,
    p177: Option<u8>,
    p178: Option<u8>,
    p179: Option<u8>,
    p180: Option<u8>,
    p181: Option<u8>,
    p182: Option<u8>,
    p183: Option<u8>,
    p184: Option<u8>,
    p185: Option<u8>,
    p186: Option<u8>,
    p187: Option<u8>,
    p188: Option<u8>,
    p189: Option<u8>,
    p190: Option<u8>,
    p191: Option<u8>,
    p192: Option<u8>,
    p193: Option<u8>,
    p194: Option<u8>,
    p195: Option<u8>,
    p196: Option<u8>,
    p197: Option<u8>,
    p198: Option<u8>,
    p199: Option<u8>,
    p200: Option<u8>,
    p201: Option<u8>,
    p202: Option<u8>,
    p203: Option<u8>,
    p204: Option<u8>,
    p205: Option<u8>,
    p206: Option<u8>,
    p207: Option<u8>,
    p208: Option<u8>,
    p209: Option<u8>,
    p210: Option<u8>,
    p211: Option<u8>,
    p212: Option<u8>,
    p213: Option<u8>,
    p214: Option<u8>,
    p215: Option<u8>,
    p216: Option<u8>,
    p217: Option<u8>,
    p218: Option<u8>,
    p219: Option<u8>,
    p220: Option<u8>,
    p221: Option<u8>,
    p222: Option<u8>,
    p223: Option<u8>,
    p224: Option<u8>,
    p225: Option<u8>,
    p226: Option<u8>,
    p227: Option<u8>,
    p228: Option<u8>,
    p229: Option<u8>,
    p230: Option<u8>,
    p231: Option<u8>,
    p232: Option<u8>,
    p233: Option<u8>,
    p234: Option<u8>,
    p235: Option<u8>,
    p236: Option<u8>,
    p237: Option<u8>,
    p238: Option<u8>,
    p239: Option<u8>,
    p240: Option<u8>,
    p241: Option<u8>,
    p242: Option<u8>,
    p243: Option<u8>,
    p244: Option<u8>,
    p245: Option<u8>,
    p246: Option<u8>,
    p247: Option<u8>,
    p248: Option<u8>,
    p249: Option<u8>,
    p250: Option<u8>,
    p251: Option<u8>,
    p252: Option<u8>,
    #[arg(last = true)]
    tl: Vec<u8>,
}
impl Show for S58 { fn show(&self) -> Val { Val::Rec(vec![("p0", self.p0.show()), ("p1", self.p1.show()), ("p2", self.p2.show()), ("p3", self.p3.show()), ("p4", self.p4.show()), ("p5", self.p5.show()), ("p6", self.p6.show()), ("p7", self.p7.show()), ("p8", self.p8.show()), ("p9", self.p9.show()), ("p10", self.p10.show()), ("p11", self.p11.show()), ("p12", self.p12.show()), ("p13", self.p13.show()), ("p14", self.p14.show()), ("p15", self.p15.show()), ("p16", self.p16.show()), ("p17", self.p17.show()), ("p18", self.p18.show()), ("p19", self.p19.show()), ("p20", self.p20.show()), ("p21", self.p21.show()), ("p22", self.p22.show()), ("p23", self.p23.show()), ("p24", self.p24.show()), ("p25", self.p25.show()), ("p26", self.p26.show()), ("p27", self.p27.show()), ("p28", self.p28.show()), ("p29", self.p29.show()), ("p30", self.p30.show()), ("p31", self.p31.show()), ("p32", self.p32.show()), ("p33", self.p33.show()), ("p34", self.p34.show()), ("p35", self.p35.show()), ("p36", self.p36.show()), ("p37", self.p37.show()), ("p38", self.p38.show()), ("p39", self.p39.show()), ("p40", self.p40.show()), ("p41", self.p41.show()), ("p42", self.p42.show()), ("p43", self.p43.show()), ("p44", self.p44.show()), ("p45", self.p45.show()), ("p46", self.p46.show()), ("p47", self.p47.show()), ("p48", self.p48.show()), ("p49", self.p49.show()), ("p50", self.p50.show()), ("p51", self.p51.show()), ("p52", self.p52.show()), ("p53", self.p53.show()), ("p54", self.p54.show()), ("p55", self.p55.show()), ("p56", self.p56.show()), ("p57", self.p57.show()), ("p58", self.p58.show()), ("p59", self.p59.show()), ("p60", self.p60.show()), ("p61", self.p61.show()), ("p62", self.p62.show()), ("p63", self.p63.show()), ("p64", self.p64.show()), ("p65", self.p65.show()), ("p66", self.p66.show()), ("p67", self.p67.show()), ("p68", self.p68.show()), ("p69", self.p69.show()), ("p70", self.p70.show()), ("p71", self.p71.show()), ("p72", self.p72.show()), ("p73", self.p73.show()), ("p74", self.p74.show()), ("p75", self.p75.show()), ("p76", self.p76.show()), ("p77", self.p77.show()), ("p78", self.p78.show()), ("p79", self.p79.show()), ("p80", self.p80.show()), ("p81", self.p81.show()), ("p82", self.p82.show()), ("p83", self.p83.show()), ("p84", self.p84.show()), ("p85", self.p85.show()), ("p86", self.p86.show()), ("p87", self.p87.show()), ("p88", self.p88.show()), ("p89", self.p89.show()), ("p90", self.p90.show()), ("p91", self.p91.show()), ("p92", self.p92.show()), ("p93", self.p93.show()), ("p94", self.p94.show()), ("p95", self.p95.show()), ("p96", self.p96.show()), ("p97", self.p97.show()), ("p98", self.p98.show()), ("p99", self.p99.show()), ("p100", self.p100.show()), ("p101", self.p101.show()), ("p102", self.p102.show()), ("p103", self.p103.show()), ("p104", self.p104.show()), ("p105", self.p105.show()), ("p106", self.p106.show()), ("p107", self.p107.show()), ("p108", self.p108.show()), ("p109", self.p109.show()), ("p110", self.p110.show()), ("p111", self.p111.show()), ("p112", self.p112.show()), ("p113", self.p113.show()), ("p114", self.p114.show()), ("p115", self.p115.show()), ("p116", self.p116.show()), ("p117", self.p117.show()), ("p118", self.p118.show()), ("p119", self.p119.show()), ("p120", self.p120.show()), ("p121", self.p121.show()), ("p122", self.p122.show()), ("p123", self.p123.show()), ("p124", self.p124.show()), ("p125", self.p125.show()), ("p126", self.p126.show()), ("p127", self.p127.show()), ("p128", self.p128.show()), ("p129", self.p129.show()), ("p130", self.p130.show()), ("p131", self.p131.show()), ("p132", self.p132.show()), ("p133", self.p133.show()), ("p134", self.p134.show()), ("p135", self.p135.show()), ("p136", self.p136.show()), ("p137", self.p137.show()), ("p138", self.p138.show()), ("p139", self.p139.show()), ("p140", self.p140.show()), ("p141", self.p141.show()), ("p142", self.p142.show()), ("p143", self.p143.show()), ("p144", self.p144.show()), ("p145", self.p145.show()), ("p146", self.p146.show()), ("p147", self.p147.show()), ("p148", self.p148.show()), ("p149", self.p149.show()), ("p150", self.p150.show()), ("p151", self.p151.show()), ("p152", self.p152.show()), ("p153", self.p153.show()), ("p154", self.p154.show()), ("p155", self.p155.show()), ("p156", self.p156.show()), ("p157", self.p157.show()), ("p158", self.p158.show()), ("p159", self.p159.show()), ("p160", self.p160.show()), ("p161", self.p161.show()), ("p162", self.p162.show()), ("p163", self.p163.show()), ("p164", self.p164.show()), ("p165", self.p165.show()), ("p166", self.p166.show()), ("p167", self.p167.show()), ("p168", self.p168.show()), ("p169", self.p169.show()), ("p170", self.p170.show()), ("p171", self.p171.show()), ("p172", self.p172.show()), ("p173", self.p173.show()), ("p174", self.p174.show()), ("p175", self.p175.show()), ("p176", self.p176.show()), ("p177", self.p177.show()), ("p178", self.p178.show()), ("p179", self.p179.show()), ("p180", self.p180.show()), ("p181", self.p181.show()), ("p182", self.p182.show()), ("p183", self.p183.show()), ("p184", self.p184.show()), ("p185", self.p185.show()), ("p186", self.p186.show()), ("p187", self.p187.show()), ("p188", self.p188.show()), ("p189", self.p189.show()), ("p190", self.p190.show()), ("p191", self.p191.show()), ("p192", self.p192.show()), ("p193", self.p193.show()), ("p194", self.p194.show()), ("p195", self.p195.show()), ("p196", self.p196.show()), ("p197", self.p197.show()), ("p198", self.p198.show()), ("p199", self.p199.show()), ("p200", self.p200.show()), ("p201", self.p201.show()), ("p202", self.p202.show()), ("p203", self.p203.show()), ("p204", self.p204.show()), ("p205", self.p205.show()), ("p206", self.p206.show()), ("p207", self.p207.show()), ("p208", self.p208.show()), ("p209", self.p209.show()), ("p210", self.p210.show()), ("p211", self.p211.show()), ("p212", self.p212.show()), ("p213", self.p213.show()), ("p214", self.p214.show()), ("p215", self.p215.show()), ("p216", self.p216.show()), ("p217", self.p217.show()), ("p218", self.p218.show()), ("p219", self.p219.show()), ("p220", self.p220.show()), ("p221", self.p221.show()), ("p222", self.p222.show()), ("p223", self.p223.show()), ("p224", self.p224.show()), ("p225", self.p225.show()), ("p226", self.p226.show()), ("p227", self.p227.show()), ("p228", self.p228.show()), ("p229", self.p229.show()), ("p230", self.p230.show()), ("p231", self.p231.show()), ("p232", self.p232.show()), ("p233", self.p233.show()), ("p234", self.p234.show()), ("p235", self.p235.show()), ("p236", self.p236.show()), ("p237", self.p237.show()), ("p238", self.p238.show()), ("p239", self.p239.show()), ("p240", self.p240.show()), ("p241", self.p241.show()), ("p242", self.p242.show()), ("p243", self.p243.show()), ("p244", self.p244.show()), ("p245", self.p245.show()), ("p246", self.p246.show()), ("p247", self.p247.show()), ("p248", self.p248.show()), ("p249", self.p249.show()), ("p250", self.p250.show()), ("p251", self.p251.show()), ("p252", self.p252.show()), ("tl", self.tl.show())]) } }
#[derive(Debug, Parser)]
pub struct S59 {
    #[arg(long = "host", short = 'h')]
    host: Option<String>,
    #[arg(short = 'v')]
    v: bool,
}
impl Show for S59 { fn show(&self) -> Val { Val::Rec(vec![("host", self.host.show()), ("v", self.v.show())]) } }
#[derive(Debug, Parser)]
pub struct S60 {
    #[arg(long = "help")]
    help: bool,
    #[arg(short = 'v')]
    v: bool,
    req: String,
}
impl Show for S60 { fn show(&self) -> Val { Val::Rec(vec![("help", self.help.show()), ("v", self.v.show()), ("req", self.req.show())]) } }
#[derive(Debug, Parser)]
pub struct S61 {
    #[arg(long = "help", short = 'h', require_equals = true)]
    help: Option<Option<String>>,
    pos: Vec<String>,
}
impl Show for S61 { fn show(&self) -> Val { Val::Rec(vec![("help", self.help.show()), ("pos", self.pos.show())]) } }
#[derive(Debug, Args)]
pub struct S63 {
    /// Config file.
    #[arg(long, short = 'c')]
    cfg: Option<String>,
    #[arg(short = 'g')]
    g1: bool,
}
impl Show for S63 { fn show(&self) -> Val { Val::Rec(vec![("cfg", self.cfg.show()), ("g1", self.g1.show())]) } }
#[derive(Debug, Parser)]
pub struct S62 {
    #[arg(long, short = 'v')]
    v: bool,
    pos: Vec<String>,
    #[command(flatten)]
    g: S63,
}
impl Show for S62 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("pos", self.pos.show()), ("g", self.g.show())]) } }
#[derive(Debug, Args)]
pub struct S65 {
    #[arg(long, short = 'l', default_value = "1")]
    lvl: u8,
    #[arg(long = "tag", short = 't', conflicts_with = "quiet")]
    tags: Vec<String>,
    #[arg(long, short = 'q')]
    quiet: bool,
}
impl Show for S65 { fn show(&self) -> Val { Val::Rec(vec![("lvl", self.lvl.show()), ("tags", self.tags.show()), ("quiet", self.quiet.show())]) } }
#[derive(Debug, Parser)]
pub struct S64 {
    #[arg(short = 'v')]
    v: bool,
    #[arg(short = 'o')]
    o: Option<String>,
    #[command(flatten)]
    ga: S63,
    #[command(flatten)]
    gb: S65,
}
impl Show for S64 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("o", self.o.show()), ("ga", self.ga.show()), ("gb", self.gb.show())]) } }
#[derive(Debug, Args)]
pub struct S67 {
    #[arg(long, short = 'n')]
    need: String,
    #[arg(long, requires = "dep2")]
    deps: Option<String>,
    #[arg(short = 'd')]
    dep2: bool,
}
impl Show for S67 { fn show(&self) -> Val { Val::Rec(vec![("need", self.need.show()), ("deps", self.deps.show()), ("dep2", self.dep2.show())]) } }
#[derive(Debug, Args)]
pub struct S68 {
    #[arg(long, short = 'i')]
    inner: Option<u8>,
    #[command(flatten)]
    g1: S63,
}
impl Show for S68 { fn show(&self) -> Val { Val::Rec(vec![("inner", self.inner.show()), ("g1", self.g1.show())]) } }
#[derive(Debug, Parser)]
pub struct S66 {
    x: Option<String>,
    #[arg(short = 'o')]
    o: Option<String>,
    #[command(flatten)]
    ga: S65,
    #[command(flatten)]
    gb: S67,
    #[command(flatten)]
    gc: S68,
}
impl Show for S66 { fn show(&self) -> Val { Val::Rec(vec![("x", self.x.show()), ("o", self.o.show()), ("ga", self.ga.show()), ("gb", self.gb.show()), ("gc", self.gc.show())]) } }
#[derive(Debug, Parser)]
pub struct S69 {
    #[command(flatten)]
    ga: S67,
}
impl Show for S69 { fn show(&self) -> Val { Val::Rec(vec![("ga", self.ga.show())]) } }
#[derive(Debug, Parser)]
pub struct S70 {
    #[arg(short = 'z')]
    z: bool,
    #[command(flatten)]
    n: S68,
    #[command(flatten)]
    m: S65,
}
impl Show for S70 { fn show(&self) -> Val { Val::Rec(vec![("z", self.z.show()), ("n", self.n.show()), ("m", self.m.show())]) } }
#[derive(Debug, Args)]
/// Add files.
/// 
/// Second paragraph
/// continued.
#[command(after_long_help = "after add")]
pub struct S73 {
    files: Vec<String>,
    #[arg(long, short = 'm')]
    msg: Option<String>,
}
impl Show for S73 { fn show(&self) -> Val { Val::Rec(vec![("files", self.files.show()), ("msg", self.msg.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E72 {
    /// Run it.
    Run {
    #[arg(long, short = 'f')]
    fast: bool,
    target: Option<String>,
    },
    Add(S73),
    /// List all.
    ListAll,
        Ad,
}
impl Show for E72 { fn show(&self) -> Val { match self { E72::Run { fast, target } => Val::Var("Run", Box::new(Val::Rec(vec![("fast", fast.show()), ("target", target.show())]))), E72::Add(x) => Val::Var("Add", Box::new(x.show())), E72::ListAll => Val::Var("ListAll", Box::new(Val::U)), E72::Ad => Val::Var("Ad", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
/// Top.
pub struct S71 {
    #[arg(short = 'v')]
    v: bool,
    #[command(subcommand)]
    cmd: E72,
}
impl Show for S71 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("cmd", self.cmd.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E75 {
        Run {
    #[arg(long, short = 'f')]
    fast: bool,
    target: Option<String>,
    },
        Stop,
}
impl Show for E75 { fn show(&self) -> Val { match self { E75::Run { fast, target } => Val::Var("Run", Box::new(Val::Rec(vec![("fast", fast.show()), ("target", target.show())]))), E75::Stop => Val::Var("Stop", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S74 {
    #[arg(short = 'v')]
    v: bool,
    #[arg(long, short = 'n')]
    name: Option<String>,
    #[command(subcommand)]
    cmd: Option<E75>,
}
impl Show for S74 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("name", self.name.show()), ("cmd", self.cmd.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E77 {
        Run,
        R {
    x: Option<String>,
    },
}
impl Show for E77 { fn show(&self) -> Val { match self { E77::Run => Val::Var("Run", Box::new(Val::U)), E77::R { x } => Val::Var("R", Box::new(Val::Rec(vec![("x", x.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S76 {
    file: Option<String>,
    more: Option<String>,
    #[command(subcommand)]
    cmd: Option<E77>,
}
impl Show for S76 { fn show(&self) -> Val { Val::Rec(vec![("file", self.file.show()), ("more", self.more.show()), ("cmd", self.cmd.show())]) } }
#[derive(Debug, Args)]
pub struct S80 {
}
impl Show for S80 { fn show(&self) -> Val { Val::Rec(vec![]) } }
#[derive(Debug, Subcommand)]
pub enum E79 {
        Go {
    w: Vec<String>,
    },
    Empty(S80),
}
impl Show for E79 { fn show(&self) -> Val { match self { E79::Go { w } => Val::Var("Go", Box::new(Val::Rec(vec![("w", w.show())]))), E79::Empty(x) => Val::Var("Empty", Box::new(x.show())),  } } }
#[derive(Debug, Parser)]
pub struct S78 {
    files: Vec<String>,
    #[arg(short = 'v')]
    v: bool,
    #[command(subcommand)]
    cmd: Option<E79>,
}
impl Show for S78 { fn show(&self) -> Val { Val::Rec(vec![("files", self.files.show()), ("v", self.v.show()), ("cmd", self.cmd.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E82 {
        Go,
        Exec {
    #[arg(trailing_var_arg = true)]
    argv: Vec<OsString>,
    #[arg(short = 'e')]
    e: bool,
    },
}
impl Show for E82 { fn show(&self) -> Val { match self { E82::Go => Val::Var("Go", Box::new(Val::U)), E82::Exec { argv, e } => Val::Var("Exec", Box::new(Val::Rec(vec![("argv", argv.show()), ("e", e.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S81 {
    #[arg(short = 'v')]
    v: bool,
    #[arg(trailing_var_arg = true)]
    t: Vec<String>,
    #[command(subcommand)]
    cmd: Option<E82>,
}
impl Show for S81 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("t", self.t.show()), ("cmd", self.cmd.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E84 {
        Go {
    #[arg(last = true)]
    l: Vec<String>,
    },
        G,
}
impl Show for E84 { fn show(&self) -> Val { match self { E84::Go { l } => Val::Var("Go", Box::new(Val::Rec(vec![("l", l.show())]))), E84::G => Val::Var("G", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S83 {
    #[arg(last = true)]
    l: Vec<String>,
    #[arg(short = 'x')]
    x: Option<String>,
    #[command(subcommand)]
    cmd: Option<E84>,
}
impl Show for S83 { fn show(&self) -> Val { Val::Rec(vec![("l", self.l.show()), ("x", self.x.show()), ("cmd", self.cmd.show())]) } }
#[derive(Debug, Args)]
pub struct S89 {
    #[arg(long, short = 'l')]
    leaf: Option<String>,
    #[arg(short = 'v')]
    v: Option<String>,
    w: Vec<String>,
}
impl Show for S89 { fn show(&self) -> Val { Val::Rec(vec![("leaf", self.leaf.show()), ("v", self.v.show()), ("w", self.w.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E88 {
    Leaf(S89),
        Unit,
}
impl Show for E88 { fn show(&self) -> Val { match self { E88::Leaf(x) => Val::Var("Leaf", Box::new(x.show())), E88::Unit => Val::Var("Unit", Box::new(Val::U)),  } } }
#[derive(Debug, Args)]
pub struct S87 {
    #[arg(long, short = 'm', global = true)]
    mid: Option<String>,
    #[arg(long = "loc", short = 'L')]
    loc: bool,
    #[arg(long = "dup", short = 'D', global = true)]
    dup: bool,
    #[command(subcommand)]
    c2: Option<E88>,
}
impl Show for S87 { fn show(&self) -> Val { Val::Rec(vec![("mid", self.mid.show()), ("loc", self.loc.show()), ("dup", self.dup.show()), ("c2", self.c2.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E86 {
    Mid(S87),
        Plain,
        Own {
    #[arg(long)]
    conf: bool,
    p: Option<String>,
    },
}
impl Show for E86 { fn show(&self) -> Val { match self { E86::Mid(x) => Val::Var("Mid", Box::new(x.show())), E86::Plain => Val::Var("Plain", Box::new(Val::U)), E86::Own { conf, p } => Val::Var("Own", Box::new(Val::Rec(vec![("conf", conf.show()), ("p", p.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S85 {
    #[arg(short = 'v', global = true)]
    v: bool,
    #[arg(long, short = 'c', global = true)]
    conf: Option<String>,
    #[arg(long = "dup", global = true)]
    dup: Option<String>,
    #[arg(long = "private", short = 'p')]
    privy: bool,
    #[arg(long, short = 'M', global = true)]
    many: Vec<u8>,
    #[command(subcommand)]
    c1: E86,
}
impl Show for S85 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("conf", self.conf.show()), ("dup", self.dup.show()), ("privy", self.privy.show()), ("many", self.many.show()), ("c1", self.c1.show())]) } }
#[derive(Debug, Args)]
pub struct S91 {
    #[arg(long, short = 'g', global = true)]
    gcfg: Option<String>,
    #[arg(long)]
    gloc: bool,
    #[arg(short = 'V', global = true)]
    gv: Vec<String>,
}
impl Show for S91 { fn show(&self) -> Val { Val::Rec(vec![("gcfg", self.gcfg.show()), ("gloc", self.gloc.show()), ("gv", self.gv.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E92 {
        A {
    #[arg(long = "gloc")]
    loc: bool,
    #[command(flatten)]
    h: S63,
    },
        B,
}
impl Show for E92 { fn show(&self) -> Val { match self { E92::A { loc, h } => Val::Var("A", Box::new(Val::Rec(vec![("loc", loc.show()), ("h", h.show())]))), E92::B => Val::Var("B", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S90 {
    #[arg(long, short = 'r', global = true)]
    req: String,
    #[arg(short = 'd', global = true, default_value = "3")]
    def: u8,
    #[command(flatten)]
    g: S91,
    #[command(subcommand)]
    c: Option<E92>,
}
impl Show for S90 { fn show(&self) -> Val { Val::Rec(vec![("req", self.req.show()), ("def", self.def.show()), ("g", self.g.show()), ("c", self.c.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E94 {
        S {
    #[arg(short = 'n')]
    n: Option<u8>,
    #[arg(short = 'q')]
    q: String,
    },
        T,
}
impl Show for E94 { fn show(&self) -> Val { match self { E94::S { n, q } => Val::Var("S", Box::new(Val::Rec(vec![("n", n.show()), ("q", q.show())]))), E94::T => Val::Var("T", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S93 {
    #[arg(short = 'a', global = true, conflicts_with = "b")]
    a: bool,
    #[arg(short = 'b', global = true)]
    b: bool,
    #[arg(short = 'x', global = true, exclusive = true)]
    x: bool,
    #[arg(short = 'r', requires = "a")]
    r: bool,
    #[command(subcommand)]
    c: Option<E94>,
}
impl Show for S93 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("x", self.x.show()), ("r", self.r.show()), ("c", self.c.show())]) } }
#[derive(Debug, Args)]
pub struct S101 {
    d: Vec<String>,
}
impl Show for S101 { fn show(&self) -> Val { Val::Rec(vec![("d", self.d.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E100 {
    Four(S101),
}
impl Show for E100 { fn show(&self) -> Val { match self { E100::Four(x) => Val::Var("Four", Box::new(x.show())),  } } }
#[derive(Debug, Args)]
pub struct S99 {
    #[arg(short = 'c')]
    c: bool,
    #[command(subcommand)]
    s: Option<E100>,
}
impl Show for S99 { fn show(&self) -> Val { Val::Rec(vec![("c", self.c.show()), ("s", self.s.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E98 {
    Three(S99),
        Two,
}
impl Show for E98 { fn show(&self) -> Val { match self { E98::Three(x) => Val::Var("Three", Box::new(x.show())), E98::Two => Val::Var("Two", Box::new(Val::U)),  } } }
#[derive(Debug, Args)]
pub struct S97 {
    #[arg(short = 'b', global = true)]
    b: bool,
    #[command(subcommand)]
    s: E98,
}
impl Show for S97 { fn show(&self) -> Val { Val::Rec(vec![("b", self.b.show()), ("s", self.s.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E96 {
    Two(S97),
        One,
}
impl Show for E96 { fn show(&self) -> Val { match self { E96::Two(x) => Val::Var("Two", Box::new(x.show())), E96::One => Val::Var("One", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S95 {
    #[arg(short = 'a', global = true)]
    a: bool,
    #[arg(short = 'n', global = true)]
    n: Option<u8>,
    #[command(subcommand)]
    s: E96,
}
impl Show for S95 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("n", self.n.show()), ("s", self.s.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E103 {
        A,
        Ab,
        AbC,
        Abc,
        B,
        Zed,
        FooBarBaz,
        Foo,
        FooBar,
        X1,
        C,
        D,
        E,
        Test,
        Tes,
}
impl Show for E103 { fn show(&self) -> Val { match self { E103::A => Val::Var("A", Box::new(Val::U)), E103::Ab => Val::Var("Ab", Box::new(Val::U)), E103::AbC => Val::Var("AbC", Box::new(Val::U)), E103::Abc => Val::Var("Abc", Box::new(Val::U)), E103::B => Val::Var("B", Box::new(Val::U)), E103::Zed => Val::Var("Zed", Box::new(Val::U)), E103::FooBarBaz => Val::Var("FooBarBaz", Box::new(Val::U)), E103::Foo => Val::Var("Foo", Box::new(Val::U)), E103::FooBar => Val::Var("FooBar", Box::new(Val::U)), E103::X1 => Val::Var("X1", Box::new(Val::U)), E103::C => Val::Var("C", Box::new(Val::U)), E103::D => Val::Var("D", Box::new(Val::U)), E103::E => Val::Var("E", Box::new(Val::U)), E103::Test => Val::Var("Test", Box::new(Val::U)), E103::Tes => Val::Var("Tes", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S102 {
    #[command(subcommand)]
    c: E103,
}
impl Show for S102 { fn show(&self) -> Val { Val::Rec(vec![("c", self.c.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E105 {
        CmdAa {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdLb {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdWc {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdHd {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdSe {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdDf {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdOg {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdZh {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdKi {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdVj {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdGk {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdRl {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdCm {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdNn {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdYo {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdJp {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdUq {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdFr {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdQs {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdBt {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdMu {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdXv {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdIw {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdTx {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdEy {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
        CmdPz {
    #[arg(short = 'n')]
    n: Option<u8>,
    p: Option<String>,
    },
}
impl Show for E105 { fn show(&self) -> Val { match self { E105::CmdAa { n, p } => Val::Var("CmdAa", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdLb { n, p } => Val::Var("CmdLb", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdWc { n, p } => Val::Var("CmdWc", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdHd { n, p } => Val::Var("CmdHd", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdSe { n, p } => Val::Var("CmdSe", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdDf { n, p } => Val::Var("CmdDf", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdOg { n, p } => Val::Var("CmdOg", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdZh { n, p } => Val::Var("CmdZh", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdKi { n, p } => Val::Var("CmdKi", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdVj { n, p } => Val::Var("CmdVj", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdGk { n, p } => Val::Var("CmdGk", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdRl { n, p } => Val::Var("CmdRl", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdCm { n, p } => Val::Var("CmdCm", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdNn { n, p } => Val::Var("CmdNn", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdYo { n, p } => Val::Var("CmdYo", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdJp { n, p } => Val::Var("CmdJp", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdUq { n, p } => Val::Var("CmdUq", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdFr { n, p } => Val::Var("CmdFr", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdQs { n, p } => Val::Var("CmdQs", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdBt { n, p } => Val::Var("CmdBt", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdMu { n, p } => Val::Var("CmdMu", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdXv { n, p } => Val::Var("CmdXv", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdIw { n, p } => Val::Var("CmdIw", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdTx { n, p } => Val::Var("CmdTx", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdEy { n, p } => Val::Var("CmdEy", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))), E105::CmdPz { n, p } => Val::Var("CmdPz", Box::new(Val::Rec(vec![("n", n.show()), ("p", p.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S104 {
    #[arg(short = 'v', global = true)]
    v: bool,
    #[command(subcommand)]
    c: Option<E105>,
}
impl Show for S104 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("c", self.c.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E107 {
        Go,
        On {
    #[arg(short = 'x', exclusive = true)]
    x: bool,
    #[arg(short = 'y')]
    y: bool,
    },
}
impl Show for E107 { fn show(&self) -> Val { match self { E107::Go => Val::Var("Go", Box::new(Val::U)), E107::On { x, y } => Val::Var("On", Box::new(Val::Rec(vec![("x", x.show()), ("y", y.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S106 {
    #[arg(short = 'a', exclusive = true)]
    a: bool,
    #[arg(short = 'b')]
    b: bool,
    #[command(subcommand)]
    c: Option<E107>,
}
impl Show for S106 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E109 {
}
impl Show for E109 { fn show(&self) -> Val { match *self {} } }
#[derive(Debug, Parser)]
pub struct S108 {
    #[arg(short = 'a')]
    a: bool,
    #[command(subcommand)]
    c: Option<E109>,
}
impl Show for S108 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("c", self.c.show())]) } }
#[derive(Debug, Args)]
pub struct S112 {
    #[arg(short = 'c')]
    c: Option<u8>,
    #[command(flatten)]
    z: S68,
}
impl Show for S112 { fn show(&self) -> Val { Val::Rec(vec![("c", self.c.show()), ("z", self.z.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E111 {
        One {
    #[arg(short = 'x')]
    x: bool,
    #[command(flatten)]
    g: S67,
    },
    Two(S112),
}
impl Show for E111 { fn show(&self) -> Val { match self { E111::One { x, g } => Val::Var("One", Box::new(Val::Rec(vec![("x", x.show()), ("g", g.show())]))), E111::Two(x) => Val::Var("Two", Box::new(x.show())),  } } }
#[derive(Debug, Parser)]
pub struct S110 {
    #[arg(short = 'a')]
    a: bool,
    #[command(flatten)]
    g: S63,
    #[command(flatten)]
    k: S65,
    #[command(subcommand)]
    c: E111,
}
impl Show for S110 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("g", self.g.show()), ("k", self.k.show()), ("c", self.c.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E114 {
        In {
    #[arg(short = 'x')]
    x: bool,
    },
        Own {
    #[arg(long)]
    help: Option<String>,
    },
}
impl Show for E114 { fn show(&self) -> Val { match self { E114::In { x } => Val::Var("In", Box::new(Val::Rec(vec![("x", x.show())]))), E114::Own { help } => Val::Var("Own", Box::new(Val::Rec(vec![("help", help.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S113 {
    #[arg(long, short = 'h', global = true)]
    help: bool,
    #[command(subcommand)]
    c: Option<E114>,
}
impl Show for S113 { fn show(&self) -> Val { Val::Rec(vec![("help", self.help.show()), ("c", self.c.show())]) } }
#[derive(Debug, Parser)]
/// About text.
/// 
/// Details.
#[command(after_long_help = "Trailer.")]
pub struct S115 {
    /// Alpha doc.
    /// 
    /// More alpha.
    #[arg(long, short = 'a')]
    alpha: Option<String>,
    #[arg(long = "hidden", hide = true)]
    hid: bool,
    /// Beta.
    #[arg(short = 'b', value_name = "BE-TA")]
    beta: String,
    /// Output.
    #[arg(value_name = "OUT FILE")]
    out: String,
    #[arg(hide = true)]
    hp: Option<String>,
    /// Rest.
    rest: Vec<String>,
    #[command(flatten)]
    g: S63,
}
impl Show for S115 { fn show(&self) -> Val { Val::Rec(vec![("alpha", self.alpha.show()), ("hid", self.hid.show()), ("beta", self.beta.show()), ("out", self.out.show()), ("hp", self.hp.show()), ("rest", self.rest.show()), ("g", self.g.show())]) } }
#[derive(Debug, Parser)]
pub struct S116 {
    #[arg(long = "type")]
    kind: Option<String>,
    #[arg(long = "in", short = 'i')]
    in_: bool,
}
impl Show for S116 { fn show(&self) -> Val { Val::Rec(vec![("kind", self.kind.show()), ("in_", self.in_.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E118 {
        r#move,
        r#fn {
    #[arg(short)]
    r#in: Vec<RawV>,
    r#for: String,
    },
}
impl Show for E118 { fn show(&self) -> Val { match self { E118::r#move => Val::Var("r#move", Box::new(Val::U)), E118::r#fn { r#in, r#for } => Val::Var("r#fn", Box::new(Val::Rec(vec![("in", r#in.show()), ("for", r#for.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S117 {
    #[arg(long, short, global = true, conflicts_with = "r#loop")]
    r#type: Option<RawV>,
    #[arg(long, global = true)]
    r#loop: bool,
    r#as: Option<String>,
    #[command(subcommand)]
    r#use: Option<E118>,
}
impl Show for S117 { fn show(&self) -> Val { Val::Rec(vec![("type", self.r#type.show()), ("loop", self.r#loop.show()), ("as", self.r#as.show()), ("use", self.r#use.show())]) } }
#[derive(Debug, Parser)]
pub struct S119 {
    #[arg(long = "ab")]
    f0: Option<String>,
    #[arg(long = "a-b")]
    f1: bool,
    #[arg(long = "a_b")]
    f2: Option<String>,
    #[arg(long = "aB")]
    f3: bool,
    #[arg(long = "AB")]
    f4: Option<String>,
    #[arg(long = "Ab")]
    f5: bool,
    #[arg(long = "a.b")]
    f6: Option<String>,
    #[arg(long = "a")]
    f7: bool,
    #[arg(long = "A")]
    f8: Option<String>,
    #[arg(long = "a1")]
    f9: bool,
    #[arg(long = "a10")]
    f10: Option<String>,
    #[arg(long = "a2")]
    f11: bool,
    #[arg(long = "é")]
    f12: Option<String>,
    #[arg(long = "e")]
    f13: bool,
    #[arg(long = "f")]
    f14: Option<String>,
    #[arg(long = "zz")]
    f15: bool,
    #[arg(long = "ZZ")]
    f16: Option<String>,
    #[arg(long = "_")]
    f17: bool,
    #[arg(long = "b")]
    f18: Option<String>,
    #[arg(long = "ba")]
    f19: bool,
    #[arg(long = "b-")]
    f20: Option<String>,
    #[arg(long = "b-a")]
    f21: bool,
    #[arg(long = "B")]
    f22: Option<String>,
    #[arg(long = "文")]
    f23: bool,
    #[arg(long = "ｚ")]
    f24: Option<String>,
    #[arg(long = "😀")]
    f25: bool,
    #[arg(long = "~")]
    f26: Option<String>,
}
impl Show for S119 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show()), ("f5", self.f5.show()), ("f6", self.f6.show()), ("f7", self.f7.show()), ("f8", self.f8.show()), ("f9", self.f9.show()), ("f10", self.f10.show()), ("f11", self.f11.show()), ("f12", self.f12.show()), ("f13", self.f13.show()), ("f14", self.f14.show()), ("f15", self.f15.show()), ("f16", self.f16.show()), ("f17", self.f17.show()), ("f18", self.f18.show()), ("f19", self.f19.show()), ("f20", self.f20.show()), ("f21", self.f21.show()), ("f22", self.f22.show()), ("f23", self.f23.show()), ("f24", self.f24.show()), ("f25", self.f25.show()), ("f26", self.f26.show())]) } }
#[derive(Debug, Parser)]
pub struct S120 {
    #[arg(long = "~", short = 'z')]
    f0: Option<String>,
    #[arg(long = "😀", short = 'y')]
    f1: bool,
    #[arg(long = "ｚ", short = 'x')]
    f2: Option<String>,
    #[arg(long = "文", short = 'w')]
    f3: bool,
    #[arg(long = "B", short = 'v')]
    f4: Option<String>,
    #[arg(long = "b-a", short = 'u')]
    f5: bool,
    #[arg(long = "b-", short = 't')]
    f6: Option<String>,
    #[arg(long = "ba", short = 's')]
    f7: bool,
    #[arg(long = "b", short = 'r')]
    f8: Option<String>,
    #[arg(long = "_", short = 'q')]
    f9: bool,
    #[arg(long = "ZZ", short = 'Z')]
    f10: Option<String>,
    #[arg(long = "zz", short = 'Y')]
    f11: bool,
    #[arg(long = "f", short = 'X')]
    f12: Option<String>,
    #[arg(long = "e", short = 'W')]
    f13: bool,
    #[arg(long = "é", short = 'V')]
    f14: Option<String>,
    #[arg(long = "a2", short = 'U')]
    f15: bool,
    #[arg(long = "a10", short = 'T')]
    f16: Option<String>,
    #[arg(long = "a1", short = 'S')]
    f17: bool,
    #[arg(long = "A", short = 'R')]
    f18: Option<String>,
    #[arg(long = "a", short = 'Q')]
    f19: bool,
    #[arg(long = "a.b", short = '9')]
    f20: Option<String>,
    #[arg(long = "Ab", short = '8')]
    f21: bool,
    #[arg(long = "AB", short = '7')]
    f22: Option<String>,
    #[arg(long = "aB", short = '6')]
    f23: bool,
    #[arg(long = "a_b", short = '5')]
    f24: Option<String>,
    #[arg(long = "a-b", short = '4')]
    f25: bool,
    #[arg(long = "ab", short = '3')]
    f26: Option<String>,
}
impl Show for S120 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show()), ("f5", self.f5.show()), ("f6", self.f6.show()), ("f7", self.f7.show()), ("f8", self.f8.show()), ("f9", self.f9.show()), ("f10", self.f10.show()), ("f11", self.f11.show()), ("f12", self.f12.show()), ("f13", self.f13.show()), ("f14", self.f14.show()), ("f15", self.f15.show()), ("f16", self.f16.show()), ("f17", self.f17.show()), ("f18", self.f18.show()), ("f19", self.f19.show()), ("f20", self.f20.show()), ("f21", self.f21.show()), ("f22", self.f22.show()), ("f23", self.f23.show()), ("f24", self.f24.show()), ("f25", self.f25.show()), ("f26", self.f26.show())]) } }
#[derive(Debug, Parser)]
pub struct S121 {
    #[arg(long = "l0", aliases = ["ab", "Ab", "a10", "zz", "b-", "😀"], short_aliases = ['q', 'A', '0'])]
    f0: Option<String>,
    #[arg(long = "l1", aliases = ["a-b", "a.b", "a2", "ZZ", "b-a", "~"], short_aliases = ['Q', 'z'])]
    f1: bool,
    #[arg(long = "l2", aliases = ["a_b", "a", "é", "_", "B"], short_aliases = ['p', 'Z'])]
    f2: Option<String>,
    #[arg(long = "l3", aliases = ["aB", "A", "e", "b", "文"], short_aliases = ['P', 'é'])]
    f3: bool,
    #[arg(long = "l4", aliases = ["AB", "a1", "f", "ba", "ｚ"], short_aliases = ['a', '文'])]
    f4: Option<String>,
}
impl Show for S121 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Parser)]
pub struct S122 {
    #[arg(short = 'a')]
    f0: Option<String>,
    #[arg(short = 'A')]
    f1: bool,
    #[arg(short = 'b')]
    f2: bool,
    #[arg(short = 'B')]
    f3: Option<String>,
    #[arg(short = 'z')]
    f4: bool,
    #[arg(short = 'Z')]
    f5: bool,
    #[arg(short = '0')]
    f6: Option<String>,
    #[arg(short = '1')]
    f7: bool,
    #[arg(short = '9')]
    f8: bool,
    #[arg(short = '.')]
    f9: Option<String>,
    #[arg(short = ',')]
    f10: bool,
    #[arg(short = '+')]
    f11: bool,
    #[arg(short = '/')]
    f12: Option<String>,
    #[arg(short = ':')]
    f13: bool,
    #[arg(short = '@')]
    f14: bool,
    #[arg(short = '_')]
    f15: Option<String>,
    #[arg(short = '~')]
    f16: bool,
    #[arg(short = 'é')]
    f17: bool,
    #[arg(short = 'ß')]
    f18: Option<String>,
    #[arg(short = 'δ')]
    f19: bool,
    #[arg(short = 'Δ')]
    f20: bool,
    #[arg(short = '文')]
    f21: Option<String>,
    #[arg(short = '字')]
    f22: bool,
    #[arg(short = '😀')]
    f23: bool,
}
impl Show for S122 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show()), ("f5", self.f5.show()), ("f6", self.f6.show()), ("f7", self.f7.show()), ("f8", self.f8.show()), ("f9", self.f9.show()), ("f10", self.f10.show()), ("f11", self.f11.show()), ("f12", self.f12.show()), ("f13", self.f13.show()), ("f14", self.f14.show()), ("f15", self.f15.show()), ("f16", self.f16.show()), ("f17", self.f17.show()), ("f18", self.f18.show()), ("f19", self.f19.show()), ("f20", self.f20.show()), ("f21", self.f21.show()), ("f22", self.f22.show()), ("f23", self.f23.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E124 {
        IOTest,
        Ice,
        Zap,
        ABTest,
        Abc,
        Ab,
        XMLHttp,
        Xm,
        XmlA,
        Xmla,
        HTTPServer,
        Http,
        Été,
        Ete,
        A_B,
        AC,
}
impl Show for E124 { fn show(&self) -> Val { match self { E124::IOTest => Val::Var("IOTest", Box::new(Val::U)), E124::Ice => Val::Var("Ice", Box::new(Val::U)), E124::Zap => Val::Var("Zap", Box::new(Val::U)), E124::ABTest => Val::Var("ABTest", Box::new(Val::U)), E124::Abc => Val::Var("Abc", Box::new(Val::U)), E124::Ab => Val::Var("Ab", Box::new(Val::U)), E124::XMLHttp => Val::Var("XMLHttp", Box::new(Val::U)), E124::Xm => Val::Var("Xm", Box::new(Val::U)), E124::XmlA => Val::Var("XmlA", Box::new(Val::U)), E124::Xmla => Val::Var("Xmla", Box::new(Val::U)), E124::HTTPServer => Val::Var("HTTPServer", Box::new(Val::U)), E124::Http => Val::Var("Http", Box::new(Val::U)), E124::Été => Val::Var("Été", Box::new(Val::U)), E124::Ete => Val::Var("Ete", Box::new(Val::U)), E124::A_B => Val::Var("A_B", Box::new(Val::U)), E124::AC => Val::Var("AC", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S123 {
    #[command(subcommand)]
    c: E124,
}
impl Show for S123 { fn show(&self) -> Val { Val::Rec(vec![("c", self.c.show())]) } }
#[derive(Debug, Args)]
pub struct S127 {
    #[arg(short = 'n')]
    n: Option<String>,
}
impl Show for S127 { fn show(&self) -> Val { Val::Rec(vec![("n", self.n.show())]) } }
#[derive(Debug, Args)]
pub struct S128 {
    #[arg(short = 'n')]
    n: Option<String>,
}
impl Show for S128 { fn show(&self) -> Val { Val::Rec(vec![("n", self.n.show())]) } }
#[derive(Debug, Args)]
pub struct S129 {
    #[arg(short = 'n')]
    n: Option<String>,
}
impl Show for S129 { fn show(&self) -> Val { Val::Rec(vec![("n", self.n.show())]) } }
#[derive(Debug, Args)]
pub struct S130 {
    #[arg(short = 'n')]
    n: Option<String>,
}
impl Show for S130 { fn show(&self) -> Val { Val::Rec(vec![("n", self.n.show())]) } }
#[derive(Debug, Args)]
pub struct S131 {
    #[arg(short = 'n')]
    n: Option<String>,
}
impl Show for S131 { fn show(&self) -> Val { Val::Rec(vec![("n", self.n.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E126 {
        AC {
    #[arg(short = 'n')]
    n: Option<String>,
    },
    A_B(S127),
        Ete,
        Été {
    #[arg(short = 'n')]
    n: Option<String>,
    },
    Http(S128),
        HTTPServer,
        Xmla {
    #[arg(short = 'n')]
    n: Option<String>,
    },
    XmlA(S129),
        Xm,
        XMLHttp {
    #[arg(short = 'n')]
    n: Option<String>,
    },
    Ab(S130),
        Abc,
        ABTest {
    #[arg(short = 'n')]
    n: Option<String>,
    },
    Zap(S131),
        Ice,
        IOTest {
    #[arg(short = 'n')]
    n: Option<String>,
    },
}
impl Show for E126 { fn show(&self) -> Val { match self { E126::AC { n } => Val::Var("AC", Box::new(Val::Rec(vec![("n", n.show())]))), E126::A_B(x) => Val::Var("A_B", Box::new(x.show())), E126::Ete => Val::Var("Ete", Box::new(Val::U)), E126::Été { n } => Val::Var("Été", Box::new(Val::Rec(vec![("n", n.show())]))), E126::Http(x) => Val::Var("Http", Box::new(x.show())), E126::HTTPServer => Val::Var("HTTPServer", Box::new(Val::U)), E126::Xmla { n } => Val::Var("Xmla", Box::new(Val::Rec(vec![("n", n.show())]))), E126::XmlA(x) => Val::Var("XmlA", Box::new(x.show())), E126::Xm => Val::Var("Xm", Box::new(Val::U)), E126::XMLHttp { n } => Val::Var("XMLHttp", Box::new(Val::Rec(vec![("n", n.show())]))), E126::Ab(x) => Val::Var("Ab", Box::new(x.show())), E126::Abc => Val::Var("Abc", Box::new(Val::U)), E126::ABTest { n } => Val::Var("ABTest", Box::new(Val::Rec(vec![("n", n.show())]))), E126::Zap(x) => Val::Var("Zap", Box::new(x.show())), E126::Ice => Val::Var("Ice", Box::new(Val::U)), E126::IOTest { n } => Val::Var("IOTest", Box::new(Val::Rec(vec![("n", n.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S125 {
    #[arg(short = 'v', global = true)]
    v: bool,
    #[command(subcommand)]
    c: Option<E126>,
}
impl Show for S125 { fn show(&self) -> Val { Val::Rec(vec![("v", self.v.show()), ("c", self.c.show())]) } }
#[derive(Debug, Parser)]
pub struct S132 {
    #[arg(short = 'a')]
    a: Vec<OddV>,
    #[arg(short = 'b', ignore_case = true)]
    b: Option<Nest>,
    #[arg(value_delimiter = '|')]
    c: Vec<OddV>,
}
impl Show for S132 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show())]) } }
#[derive(Debug, Args)]
/// Not shown for newtypes?
pub struct S135 {
    #[arg(short = 'q')]
    q: bool,
}
impl Show for S135 { fn show(&self) -> Val { Val::Rec(vec![("q", self.q.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E134 {
    /// Go.
    G,
        Mid {
    /// P.
    p: Option<String>,
    },
    /// Long.
/// 
/// More.
    AVeryLongSubcommandNameThatIsHardlyEverTyped,
    TwentyTwoBytesLongName(S135),
        K,
}
impl Show for E134 { fn show(&self) -> Val { match self { E134::G => Val::Var("G", Box::new(Val::U)), E134::Mid { p } => Val::Var("Mid", Box::new(Val::Rec(vec![("p", p.show())]))), E134::AVeryLongSubcommandNameThatIsHardlyEverTyped => Val::Var("AVeryLongSubcommandNameThatIsHardlyEverTyped", Box::new(Val::U)), E134::TwentyTwoBytesLongName(x) => Val::Var("TwentyTwoBytesLongName", Box::new(x.show())), E134::K => Val::Var("K", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S133 {
    /// Long one.
    #[arg(long = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", short = 'o')]
    o: Option<String>,
    #[command(subcommand)]
    c: Option<E134>,
}
impl Show for S133 { fn show(&self) -> Val { Val::Rec(vec![("o", self.o.show()), ("c", self.c.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E137 {
    /// É.
    Éé,
        AVeryLongSubcommandNameThatIsHardlyEverTyped,
}
impl Show for E137 { fn show(&self) -> Val { match self { E137::Éé => Val::Var("Éé", Box::new(Val::U)), E137::AVeryLongSubcommandNameThatIsHardlyEverTyped => Val::Var("AVeryLongSubcommandNameThatIsHardlyEverTyped", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S136 {
    #[command(subcommand)]
    c: E137,
}
impl Show for S136 { fn show(&self) -> Val { Val::Rec(vec![("c", self.c.show())]) } }
#[derive(Debug, Args)]
pub struct S139 {
    #[arg(long = "al", short = 's', requires = "f2", requires = "f1")]
    f0: String,
    #[arg(short = 'j', require_equals = true, global = true)]
    f1: Vec<String>,
    #[arg(long = "x-y", short = 'm', alias = "beta", require_equals = true, hide = true, requires = "f3", requires = "f1")]
    f2: Option<Vec<u8>>,
    #[arg(long = "alp", short_alias = 'a', require_equals = true, global = true, default_value = "-3")]
    f3: i32,
    #[arg(short = 'w', alias = "x1", require_equals = true, global = true)]
    f4: i32,
}
impl Show for S139 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Args)]
pub struct S140 {
    #[arg(short = 'v', alias = "xy", allow_negative_numbers = true, requires = "f2", conflicts_with = "f4")]
    f0: Option<OsString>,
    #[arg(long = "alpha", short = 'e', global = true, allow_negative_numbers = true)]
    f1: Option<OsString>,
    #[arg(long = "Z", short_alias = 'G', allow_hyphen_values = true, conflicts_with = "f3")]
    f2: Vec<Low>,
    #[arg(long = "keys", short = 'o', alias = "x", require_equals = true, global = true, value_delimiter = ';')]
    f3: Option<Vec<u8>>,
    #[arg(short = 'l', global = true)]
    f4: bool,
}
impl Show for S140 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Args)]
pub struct S143 {
    #[arg(short = 'l', allow_hyphen_values = true, conflicts_with = "f4")]
    f0: i32,
    #[arg(short = 'v', allow_hyphen_values = true, required = true, conflicts_with = "f2")]
    f1: Option<u8>,
    #[arg(long = "Z", short_alias = 'k', requires = "f0", requires = "f4")]
    f2: Option<Color>,
    #[arg(long = "be", require_equals = true, default_value = "-3", requires = "f4")]
    f3: i32,
    #[arg(long = "x-y", short = 'E', alias = "x", require_equals = true, hide = true, conflicts_with = "f0")]
    f4: i32,
}
impl Show for S143 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E144 {
        Sta {
    #[arg(short = '1', require_equals = true)]
    f0: Option<Color>,
    #[arg(short = 'v', allow_negative_numbers = true, requires = "f2", requires = "f0")]
    f1: Option<OsString>,
    #[arg(long = "al", short = '@', alias = "out", conflicts_with = "f1")]
    f2: bool,
    },
        A {
    p1: Option<String>,
    #[arg(short = 'o', global = true, allow_negative_numbers = true, requires = "va")]
    f0: Option<OsString>,
    #[arg(long = "x", short = 'E', short_alias = 'B', require_equals = true, global = true, requires = "va")]
    f1: Option<u8>,
    #[arg(short = 'é', alias = "n", conflicts_with = "p0")]
    f2: Option<Color>,
    p0: Option<String>,
    #[arg(conflicts_with = "p0")]
    va: Vec<OsString>,
    },
}
impl Show for E144 { fn show(&self) -> Val { match self { E144::Sta { f0, f1, f2 } => Val::Var("Sta", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show())]))), E144::A { p1, f0, f1, f2, p0, va } => Val::Var("A", Box::new(Val::Rec(vec![("p1", p1.show()), ("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("p0", p0.show()), ("va", va.show())]))),  } } }
#[derive(Debug, Args)]
pub struct S142 {
    #[arg(long = "al", short = 'w')]
    f0: bool,
    #[arg(long = "Ünï")]
    f1: Option<String>,
    #[arg(short = 'é')]
    f2: bool,
    #[command(flatten)]
    fl0: S143,
    #[command(subcommand)]
    sub: Option<E144>,
}
impl Show for S142 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("fl0", self.fl0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E141 {
    Gone(S142),
        Status,
        GoOn,
}
impl Show for E141 { fn show(&self) -> Val { match self { E141::Gone(x) => Val::Var("Gone", Box::new(x.show())), E141::Status => Val::Var("Status", Box::new(Val::U)), E141::GoOn => Val::Var("GoOn", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S138 {
    #[arg(long = "key", short = 'c', require_equals = true, global = true, value_delimiter = ',', requires = "f2", conflicts_with = "f3")]
    f0: Option<Vec<u8>>,
    #[arg(long = "no-out", short = 'u')]
    f1: Option<String>,
    #[arg(long = "output", short = 'J', alias = "out", require_equals = true, global = true)]
    f2: Option<Option<String>>,
    #[arg(short = '0', allow_negative_numbers = true, default_value = "-3")]
    f3: i32,
    #[command(flatten)]
    fl0: S139,
    #[command(flatten)]
    fl1: S140,
    #[command(subcommand)]
    sub: Option<E141>,
}
impl Show for S138 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("fl0", self.fl0.show()), ("fl1", self.fl1.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E146 {
        Go {
    #[arg(long = "x-y", short = ',', short_alias = 'j', allow_negative_numbers = true, default_value = "-3")]
    f0: i32,
    p0: Option<u8>,
    #[arg(long = "n", allow_negative_numbers = true, hide = true)]
    f1: Option<Vec<u8>>,
    #[arg(long = "al")]
    f2: bool,
    #[arg(conflicts_with = "la")]
    va: Vec<OsString>,
    #[arg(last = true, requires = "f2")]
    la: Vec<String>,
    },
        Gone {
    p1: Option<String>,
    #[arg(long = "alp", alias = "alpha", hide = true, default_value = "dflt", requires = "p1")]
    f0: String,
    #[arg(conflicts_with = "f2")]
    p0: Option<u8>,
    #[arg(long = "x", short = 'd', alias = "Z", requires = "f2", requires = "f0")]
    f1: String,
    #[arg(short = 'k', allow_hyphen_values = true, exclusive = true, value_delimiter = ',', requires = "f0", requires = "p0")]
    f2: Vec<String>,
    },
        A {
    #[arg(long = "output", alias = "keys", hide = true, default_value = "7", value_delimiter = ';')]
    f0: Option<Vec<u8>>,
    #[arg(long = "be", global = true, allow_negative_numbers = true, default_value = "-3", conflicts_with = "va")]
    f1: i32,
    va: Vec<OsString>,
    },
        Sta,
}
impl Show for E146 { fn show(&self) -> Val { match self { E146::Go { f0, p0, f1, f2, va, la } => Val::Var("Go", Box::new(Val::Rec(vec![("f0", f0.show()), ("p0", p0.show()), ("f1", f1.show()), ("f2", f2.show()), ("va", va.show()), ("la", la.show())]))), E146::Gone { p1, f0, p0, f1, f2 } => Val::Var("Gone", Box::new(Val::Rec(vec![("p1", p1.show()), ("f0", f0.show()), ("p0", p0.show()), ("f1", f1.show()), ("f2", f2.show())]))), E146::A { f0, f1, va } => Val::Var("A", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("va", va.show())]))), E146::Sta => Val::Var("Sta", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S145 {
    #[arg(long = "no-out", short = '@', short_alias = 'j', allow_negative_numbers = true, hide = true, default_value = "dflt", requires = "f2")]
    f0: String,
    #[arg(short = 'v', require_equals = true)]
    f1: Option<Color>,
    #[arg(short = 'n', alias = "keys", conflicts_with = "f3")]
    f2: bool,
    #[arg(short = '2', short_alias = 'a', global = true, allow_hyphen_values = true, conflicts_with = "f1")]
    f3: Option<Color>,
    #[command(subcommand)]
    sub: Option<E146>,
}
impl Show for S145 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S149 {
    #[arg(long = "x1", short = 'e', default_value = "7", value_delimiter = ':', requires = "f1")]
    f0: Option<Vec<u8>>,
    #[arg(long = "al", short = 'y', alias = "keys", short_alias = 'n', global = true, allow_hyphen_values = true, required = true)]
    f1: Option<OsString>,
    #[arg(long = "be", short = 'j', alias = "bet-a", require_equals = true, default_value = "dflt", requires = "f1", requires = "f0")]
    f2: String,
    #[arg(last = true)]
    la: Vec<u8>,
}
impl Show for S149 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("la", self.la.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E148 {
        Go,
        Status {
    #[arg(long = "keys", short = 'J', alias = "help-me", require_equals = true)]
    f0: Option<Option<String>>,
    #[arg(long = "zeta", short = 'j', alias = "x-y", global = true, conflicts_with = "p0")]
    f1: Option<Vec<u8>>,
    #[arg(short = 'z', allow_hyphen_values = true, requires = "f0")]
    f2: Option<String>,
    p0: Option<OsString>,
    },
        Gone {
    #[arg(long = "beta", short = '2', alias = "out", short_alias = '文')]
    f0: bool,
    p0: Option<OsString>,
    #[arg(long = "xy", alias = "x-y", global = true, allow_hyphen_values = true, requires = "p1")]
    f1: Option<String>,
    p1: Option<OsString>,
    #[arg(last = true)]
    la: Vec<u8>,
    },
    GoOn(S149),
}
impl Show for E148 { fn show(&self) -> Val { match self { E148::Go => Val::Var("Go", Box::new(Val::U)), E148::Status { f0, f1, f2, p0 } => Val::Var("Status", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("p0", p0.show())]))), E148::Gone { f0, p0, f1, p1, la } => Val::Var("Gone", Box::new(Val::Rec(vec![("f0", f0.show()), ("p0", p0.show()), ("f1", f1.show()), ("p1", p1.show()), ("la", la.show())]))), E148::GoOn(x) => Val::Var("GoOn", Box::new(x.show())),  } } }
#[derive(Debug, Parser)]
pub struct S147 {
    #[arg(long = "x", short = 'b', allow_hyphen_values = true, default_value = "dflt", conflicts_with = "p0")]
    f0: String,
    p0: Option<String>,
    va: Option<Vec<u8>>,
    #[command(subcommand)]
    sub: Option<E148>,
}
impl Show for S147 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("va", self.va.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S151 {
    #[arg(long = "key", short = ':', alias = "x", global = true, conflicts_with = "f1")]
    f0: bool,
    #[arg(long = "help-me", short = 'c', global = true)]
    f1: bool,
    #[arg(long = "no-out", short = 'n', global = true, allow_negative_numbers = true)]
    f2: Option<String>,
    #[arg(long = "keys", short = 'ß', allow_hyphen_values = true)]
    f3: i32,
}
impl Show for S151 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show())]) } }
#[derive(Debug, Args)]
pub struct S153 {
    #[arg(long = "out", conflicts_with = "f3")]
    f0: bool,
    #[arg(long = "beta", short = 'b', alias = "bet-a", short_alias = 'i', allow_hyphen_values = true, requires = "f0")]
    f1: Option<String>,
    #[arg(short = '文', require_equals = true, default_value = "auto", conflicts_with = "f3")]
    f2: Option<Color>,
    #[arg(long = "zeta", short = 'e', alias = "al")]
    f3: String,
    #[arg(long = "Z", alias = "no-out", require_equals = true)]
    f4: String,
}
impl Show for S153 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Args)]
pub struct S154 {
    #[arg(long = "xy", require_equals = true, required = true, conflicts_with = "f1")]
    f0: Option<OsString>,
    #[arg(long = "x1", alias = "x", require_equals = true, required = true, conflicts_with = "f0")]
    f1: Option<Option<String>>,
    #[arg(short = 'C', conflicts_with = "f4")]
    f2: Option<u8>,
    #[arg(long = "n", value_delimiter = ',', requires = "f1")]
    f3: Option<Vec<u8>>,
    #[arg(long = "alp", allow_hyphen_values = true)]
    f4: i32,
}
impl Show for S154 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E155 {
        Sta {
    #[arg(short = 'r', require_equals = true, requires = "p0")]
    f0: Vec<Low>,
    p1: Option<u8>,
    p0: Option<OsString>,
    },
        GoOn {
    #[arg(long = "beta", short = 'F', conflicts_with = "f4")]
    f0: Option<String>,
    #[arg(long = "Z", short = 'r', short_alias = 'k', conflicts_with = "f4")]
    f1: i32,
    #[arg(long = "x1", short = 'H', required = true, requires = "f0", requires = "f3")]
    f2: bool,
    #[arg(short = 'a', short_alias = 'E', allow_negative_numbers = true, conflicts_with = "f0")]
    f3: Option<String>,
    #[arg(short = 'o', alias = "no-out")]
    f4: Option<Color>,
    },
        Go {
    p0: Option<String>,
    #[arg(long = "beta", short_alias = 'D')]
    f0: Option<Color>,
    #[arg(requires = "f0")]
    va: Vec<OsString>,
    #[arg(last = true)]
    la: Vec<u8>,
    },
}
impl Show for E155 { fn show(&self) -> Val { match self { E155::Sta { f0, p1, p0 } => Val::Var("Sta", Box::new(Val::Rec(vec![("f0", f0.show()), ("p1", p1.show()), ("p0", p0.show())]))), E155::GoOn { f0, f1, f2, f3, f4 } => Val::Var("GoOn", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("f4", f4.show())]))), E155::Go { p0, f0, va, la } => Val::Var("Go", Box::new(Val::Rec(vec![("p0", p0.show()), ("f0", f0.show()), ("va", va.show()), ("la", la.show())]))),  } } }
#[derive(Debug, Args)]
pub struct S158 {
    #[arg(long = "be", short = 'q', alias = "x", global = true)]
    f0: Option<u8>,
    p0: String,
    #[arg(short = 'H', global = true, allow_hyphen_values = true, default_value = "auto")]
    f1: Option<Color>,
}
impl Show for S158 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Args)]
pub struct S159 {
    #[arg(long = "keys", global = true, required = true)]
    f0: bool,
    #[arg(long = "key", alias = "al", short_alias = 'j', require_equals = true)]
    f1: Option<Vec<u8>>,
}
impl Show for S159 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E157 {
    A(S158),
        GoOn {
    #[arg(long = "help-me", short = '@', allow_hyphen_values = true, default_value = "-3")]
    f0: i32,
    #[arg(long = "x1", short = 'x', default_value = "dflt", requires = "f3")]
    f1: String,
    #[arg(long = "out", short = 'B')]
    f2: bool,
    #[arg(long = "al", short = '2', alias = "be", allow_negative_numbers = true, default_value = "-3", conflicts_with = "f0")]
    f3: i32,
    va: Vec<String>,
    #[arg(last = true)]
    la: Vec<String>,
    },
    Sta(S159),
        Go {
    p1: Option<String>,
    #[arg(default_value = "pd")]
    p0: String,
    #[arg(long = "out", short = 'b', alias = "bet-a")]
    f0: Option<String>,
    #[arg(long = "alp", short = ',', require_equals = true, hide = true)]
    f1: Option<Option<String>>,
    #[arg(last = true, exclusive = true, requires = "p1")]
    la: Vec<u8>,
    },
}
impl Show for E157 { fn show(&self) -> Val { match self { E157::A(x) => Val::Var("A", Box::new(x.show())), E157::GoOn { f0, f1, f2, f3, va, la } => Val::Var("GoOn", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("va", va.show()), ("la", la.show())]))), E157::Sta(x) => Val::Var("Sta", Box::new(x.show())), E157::Go { p1, p0, f0, f1, la } => Val::Var("Go", Box::new(Val::Rec(vec![("p1", p1.show()), ("p0", p0.show()), ("f0", f0.show()), ("f1", f1.show()), ("la", la.show())]))),  } } }
#[derive(Debug, Args)]
pub struct S156 {
    #[arg(short = 'q', short_alias = 'd', required = true)]
    f0: String,
    #[arg(long = "x1", alias = "n", global = true, allow_negative_numbers = true, requires = "f0")]
    f1: Option<OsString>,
    #[arg(conflicts_with = "f1")]
    va: Option<Vec<u8>>,
    #[command(subcommand)]
    sub: E157,
}
impl Show for S156 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("va", self.va.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S160 {
    #[arg(short = '@', alias = "x-y", allow_hyphen_values = true)]
    f0: Option<OsString>,
}
impl Show for S160 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show())]) } }
#[derive(Debug, Args)]
pub struct S161 {
    #[arg(long = "Ünï", short_alias = 'r', require_equals = true, exclusive = true)]
    f0: Option<u8>,
    #[arg(long = "out", short = 'J', alias = "x", require_equals = true, requires = "f0")]
    f1: Option<Option<String>>,
}
impl Show for S161 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E162 {
        Status,
}
impl Show for E162 { fn show(&self) -> Val { match self { E162::Status => Val::Var("Status", Box::new(Val::U)),  } } }
#[derive(Debug, Subcommand)]
pub enum E152 {
        Sta,
        A {
    #[arg(long = "be", short = 'E', short_alias = 'w', allow_negative_numbers = true, default_value = "dflt", conflicts_with = "f4")]
    f0: String,
    #[arg(long = "x-y", short = 'I', alias = "help-me", allow_negative_numbers = true, value_delimiter = ':')]
    f1: Vec<String>,
    #[arg(long = "keys", alias = "key", require_equals = true, ignore_case = true, value_delimiter = ';', requires = "f3")]
    f2: Vec<Low>,
    #[arg(short = 's', short_alias = ':', allow_hyphen_values = true)]
    f3: Option<Color>,
    #[arg(long = "alpha", require_equals = true)]
    f4: Option<OsString>,
    #[command(flatten)]
    fl0: S153,
    #[command(flatten)]
    fl1: S154,
    #[command(subcommand)]
    sub: Option<E155>,
    },
    Status(S156),
        GoOn {
    #[arg(long = "xy", short = ':', alias = "n", require_equals = true, required = true)]
    f0: Option<String>,
    #[arg(short = 'b', short_alias = 'y', require_equals = true)]
    f1: String,
    #[arg(long = "x1", conflicts_with = "f1")]
    f2: bool,
    #[arg(short = 'w', allow_negative_numbers = true, requires = "f2")]
    f3: i32,
    #[command(flatten)]
    fl0: S160,
    #[command(flatten)]
    fl1: S161,
    #[command(subcommand)]
    sub: E162,
    },
}
impl Show for E152 { fn show(&self) -> Val { match self { E152::Sta => Val::Var("Sta", Box::new(Val::U)), E152::A { f0, f1, f2, f3, f4, fl0, fl1, sub } => Val::Var("A", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("f4", f4.show()), ("fl0", fl0.show()), ("fl1", fl1.show()), ("sub", sub.show())]))), E152::Status(x) => Val::Var("Status", Box::new(x.show())), E152::GoOn { f0, f1, f2, f3, fl0, fl1, sub } => Val::Var("GoOn", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("fl0", fl0.show()), ("fl1", fl1.show()), ("sub", sub.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S150 {
    #[arg(long = "alpha", alias = "x-y", require_equals = true, required = true)]
    f0: Option<Option<String>>,
    #[arg(long = "al", short = '@', require_equals = true, global = true)]
    f1: Option<Option<String>>,
    #[arg(trailing_var_arg = true)]
    va: Vec<String>,
    #[command(flatten)]
    fl0: S151,
    #[command(subcommand)]
    sub: Option<E152>,
}
impl Show for S150 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("va", self.va.show()), ("fl0", self.fl0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E164 {
        Gone {
    #[arg(long = "beta", short = ',', require_equals = true)]
    f0: Option<String>,
    #[arg(long = "keys", allow_negative_numbers = true, conflicts_with = "f0")]
    f1: Option<String>,
    },
        Sta {
    #[arg(long = "key", short = 'z', alias = "x-y", require_equals = true, global = true, default_value = "auto")]
    f0: Option<Color>,
    #[arg(long = "alpha", short = ':', short_alias = 'é', global = true, allow_hyphen_values = true)]
    f1: Option<String>,
    #[arg(requires = "f4", conflicts_with = "f1")]
    p0: Option<OsString>,
    #[arg(long = "no-out", short = 'q', allow_hyphen_values = true, value_delimiter = ',')]
    f2: Vec<String>,
    #[arg(short = 'I', required = true)]
    f3: Option<Color>,
    #[arg(requires = "va", conflicts_with = "f3")]
    p1: String,
    #[arg(short = 'i', require_equals = true, hide = true)]
    f4: String,
    #[arg(conflicts_with = "f0")]
    va: Vec<String>,
    },
}
impl Show for E164 { fn show(&self) -> Val { match self { E164::Gone { f0, f1 } => Val::Var("Gone", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show())]))), E164::Sta { f0, f1, p0, f2, f3, p1, f4, va } => Val::Var("Sta", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("p0", p0.show()), ("f2", f2.show()), ("f3", f3.show()), ("p1", p1.show()), ("f4", f4.show()), ("va", va.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S163 {
    #[arg(short = 'E')]
    f0: Option<u8>,
    #[arg(long = "out", short = 'l', short_alias = 'C')]
    f1: bool,
    #[arg(long = "alpha", short = 't', alias = "n", conflicts_with = "f1")]
    f2: Option<String>,
    #[arg(long = "x-y", short = '文', short_alias = 'H', require_equals = true, global = true, requires = "f0")]
    f3: Option<String>,
    #[command(subcommand)]
    sub: E164,
}
impl Show for S163 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S167 {
    #[arg(long = "alp", short = 'E', short_alias = 't')]
    f0: Option<String>,
    #[arg(long = "alpha", short = 'é', requires = "f0")]
    f1: String,
}
impl Show for S167 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E166 {
        Gone,
    Go(S167),
}
impl Show for E166 { fn show(&self) -> Val { match self { E166::Gone => Val::Var("Gone", Box::new(Val::U)), E166::Go(x) => Val::Var("Go", Box::new(x.show())),  } } }
#[derive(Debug, Parser)]
pub struct S165 {
    #[arg(long = "alp", short = 'w', require_equals = true, global = true, default_value = "dflt", requires = "f2", requires = "f1")]
    f0: Option<String>,
    #[arg(long = "out", short_alias = 'v')]
    f1: Option<u8>,
    #[arg(short = '2', alias = "no-out", allow_hyphen_values = true, conflicts_with = "f1")]
    f2: Option<OsString>,
    #[arg(long = "n", allow_negative_numbers = true)]
    f3: Option<Color>,
    #[arg(requires = "f0", requires = "f3")]
    va: Option<Vec<u8>>,
    #[command(subcommand)]
    sub: E166,
}
impl Show for S165 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("va", self.va.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S170 {
    #[arg(long = "x1", short_alias = 'w')]
    f0: Option<String>,
    #[arg(long = "zeta", short = 'q', require_equals = true)]
    f1: Option<Option<String>>,
    #[arg(long = "al", alias = "keys", global = true)]
    f2: Vec<String>,
    #[arg(long = "x", short = ',', global = true, exclusive = true, requires = "f2", requires = "f4")]
    f3: Option<OsString>,
    #[arg(long = "be", short = 'l', alias = "key", global = true)]
    f4: bool,
}
impl Show for S170 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E171 {
        Go {
    #[arg(long = "key")]
    f0: Option<Color>,
    #[arg(long = "al", short = 't', conflicts_with = "va")]
    f1: Option<u8>,
    #[arg(long = "alp", short = 'p', short_alias = '2', allow_hyphen_values = true, default_value = "-3")]
    f2: i32,
    va: Option<Vec<u8>>,
    #[arg(last = true)]
    la: Vec<u8>,
    },
}
impl Show for E171 { fn show(&self) -> Val { match self { E171::Go { f0, f1, f2, va, la } => Val::Var("Go", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("va", va.show()), ("la", la.show())]))),  } } }
#[derive(Debug, Subcommand)]
pub enum E169 {
        Status,
        A,
        Go {
    #[arg(long = "beta", alias = "output", global = true)]
    f0: bool,
    #[arg(short = 'H', short_alias = '2', allow_hyphen_values = true, hide = true, default_value = "7")]
    f1: Option<u8>,
    #[arg(long = "xy", short = 'é', alias = "Z", allow_hyphen_values = true, requires = "f1")]
    f2: Option<u8>,
    #[command(flatten)]
    fl0: S170,
    #[command(subcommand)]
    sub: E171,
    },
}
impl Show for E169 { fn show(&self) -> Val { match self { E169::Status => Val::Var("Status", Box::new(Val::U)), E169::A => Val::Var("A", Box::new(Val::U)), E169::Go { f0, f1, f2, fl0, sub } => Val::Var("Go", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("fl0", fl0.show()), ("sub", sub.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S168 {
    #[arg(short = 'C', global = true, allow_negative_numbers = true)]
    f0: Option<String>,
    #[arg(default_value = "pd", conflicts_with = "f0")]
    p0: String,
    #[command(subcommand)]
    sub: E169,
}
impl Show for S168 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S172 {
    #[arg(long = "Z", allow_negative_numbers = true)]
    f0: Option<String>,
    p0: String,
    #[arg(trailing_var_arg = true)]
    va: Option<Vec<u8>>,
}
impl Show for S172 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("va", self.va.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E174 {
        Gone {
    p0: Option<u8>,
    #[arg(long = "keys", global = true)]
    f0: bool,
    va: Option<Vec<u8>>,
    #[arg(last = true)]
    la: Vec<String>,
    },
        GoOn {
    #[arg(short = '文', global = true, required = true)]
    f0: Option<String>,
    #[arg(conflicts_with = "f0")]
    p0: String,
    #[arg(long = "bet-a", short = 'C', alias = "Ünï", global = true, allow_negative_numbers = true, requires = "va", requires = "p0", conflicts_with = "f0")]
    f1: Option<Color>,
    #[arg(requires = "f0")]
    va: Vec<OsString>,
    },
        Sta {
    #[arg(conflicts_with = "f2")]
    p1: Option<OsString>,
    #[arg(long = "al", short = 'C', alias = "x-y", short_alias = 'y', value_delimiter = ':')]
    f0: Option<Vec<u8>>,
    #[arg(long = "Ünï", short = 'B', alias = "alp", short_alias = '?', allow_negative_numbers = true, requires = "va", requires = "f3")]
    f1: Option<Color>,
    #[arg(short = 'z', allow_negative_numbers = true, hide = true, default_value = "-3", requires = "f0", requires = "f1")]
    f2: i32,
    #[arg(long = "no-out", short = 'o', requires = "f1", requires = "p0")]
    f3: bool,
    #[arg(requires = "f3")]
    p0: Option<u8>,
    va: Option<Vec<u8>>,
    },
        A {
    #[arg(long = "zeta", default_value = "dflt")]
    f0: String,
    #[arg(short = 'e', require_equals = true, ignore_case = true, conflicts_with = "f2")]
    f1: Vec<Low>,
    #[arg(long = "output", short = 'I', allow_negative_numbers = true, default_value = "dflt")]
    f2: String,
    #[arg(short = '2', conflicts_with = "f4")]
    f3: bool,
    #[arg(long = "al", short = 'm', short_alias = 'c', default_value = "7", value_delimiter = ';')]
    f4: Option<Vec<u8>>,
    p0: Option<OsString>,
    #[arg(requires = "f0")]
    p1: Option<OsString>,
    },
}
impl Show for E174 { fn show(&self) -> Val { match self { E174::Gone { p0, f0, va, la } => Val::Var("Gone", Box::new(Val::Rec(vec![("p0", p0.show()), ("f0", f0.show()), ("va", va.show()), ("la", la.show())]))), E174::GoOn { f0, p0, f1, va } => Val::Var("GoOn", Box::new(Val::Rec(vec![("f0", f0.show()), ("p0", p0.show()), ("f1", f1.show()), ("va", va.show())]))), E174::Sta { p1, f0, f1, f2, f3, p0, va } => Val::Var("Sta", Box::new(Val::Rec(vec![("p1", p1.show()), ("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("p0", p0.show()), ("va", va.show())]))), E174::A { f0, f1, f2, f3, f4, p0, p1 } => Val::Var("A", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("f4", f4.show()), ("p0", p0.show()), ("p1", p1.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S173 {
    #[arg(long = "alpha", hide = true)]
    f0: bool,
    #[arg(requires = "p0")]
    p1: Option<u8>,
    #[arg(conflicts_with = "f3")]
    p0: Option<OsString>,
    #[arg(long = "beta", short = '9')]
    f1: bool,
    #[arg(long = "alp", short = 'q', global = true, requires = "f0")]
    f2: Option<String>,
    #[arg(long = "Z", short = 'x', require_equals = true, global = true, default_value = "auto")]
    f3: Option<Color>,
    #[arg(long = "help-me", short = 'c', default_value = "-3", requires = "p1")]
    f4: i32,
    #[arg(last = true)]
    la: Vec<u8>,
    #[command(subcommand)]
    sub: E174,
}
impl Show for S173 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p1", self.p1.show()), ("p0", self.p0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show()), ("la", self.la.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S175 {
    p0: String,
    #[arg(short = 'j', exclusive = true)]
    f0: Option<Color>,
    #[arg(short = 'o', allow_negative_numbers = true, requires = "p0", conflicts_with = "f2")]
    f1: Option<OsString>,
    #[arg(long = "Z", short = '9', short_alias = 'i', allow_negative_numbers = true)]
    f2: Option<Color>,
}
impl Show for S175 { fn show(&self) -> Val { Val::Rec(vec![("p0", self.p0.show()), ("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show())]) } }
#[derive(Debug, Args)]
pub struct S177 {
    #[arg(short = 'g', alias = "alp", short_alias = 'n', require_equals = true, global = true, ignore_case = true, value_delimiter = ';')]
    f0: Vec<Low>,
    #[arg(long = "x", short = 'd', global = true, exclusive = true)]
    f1: bool,
    #[arg(long = "alpha", short = 'C', alias = "Z", short_alias = ':', value_delimiter = ',', conflicts_with = "f1")]
    f2: Vec<String>,
}
impl Show for S177 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E178 {
        Status {
    #[arg(long = "alp", short = 's', alias = "n", global = true, allow_negative_numbers = true, requires = "f4", requires = "va", conflicts_with = "f1")]
    f0: Option<u8>,
    #[arg(long = "xy", short = '?', global = true, allow_hyphen_values = true, required = true, requires = "p0", conflicts_with = "va")]
    f1: Option<OsString>,
    #[arg(long = "Z", short = 'o', short_alias = 'k')]
    f2: Option<String>,
    #[arg(long = "out", short = 'ß', alias = "Ünï", short_alias = '1', ignore_case = true, required = true, requires = "f2", requires = "f4")]
    f3: Vec<Low>,
    #[arg(short = 'u', require_equals = true, default_value = "-3")]
    f4: i32,
    p0: Option<String>,
    va: Option<Vec<u8>>,
    },
}
impl Show for E178 { fn show(&self) -> Val { match self { E178::Status { f0, f1, f2, f3, f4, p0, va } => Val::Var("Status", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("f4", f4.show()), ("p0", p0.show()), ("va", va.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S176 {
    #[arg(long = "al", short = 'H', global = true, required = true, conflicts_with = "va")]
    f0: Option<String>,
    #[arg(long = "xy", short = 'E', allow_negative_numbers = true)]
    f1: Option<OsString>,
    #[arg(default_value = "pd")]
    p0: String,
    #[arg(long = "out", short = 'J', global = true)]
    f2: Option<String>,
    #[arg(long = "keys", short = 'B', default_value = "auto")]
    f3: Option<Color>,
    #[arg(long = "help-me", alias = "Ünï", ignore_case = true, value_delimiter = ',', requires = "f1", requires = "f0", conflicts_with = "va")]
    f4: Vec<Low>,
    #[arg(requires = "f0")]
    va: Vec<OsString>,
    #[command(flatten)]
    fl0: S177,
    #[command(subcommand)]
    sub: Option<E178>,
}
impl Show for S176 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("p0", self.p0.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show()), ("va", self.va.show()), ("fl0", self.fl0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S180 {
    #[arg(short = 'l', alias = "al", hide = true)]
    f0: Vec<String>,
    #[arg(long = "key", short = '文', short_alias = 'é', global = true, ignore_case = true, value_delimiter = ',')]
    f1: Vec<Low>,
    #[arg(long = "keys", alias = "beta", value_delimiter = ',', requires = "f0")]
    f2: Vec<Low>,
}
impl Show for S180 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show())]) } }
#[derive(Debug, Parser)]
pub struct S179 {
    #[arg(long = "no-out", global = true)]
    f0: bool,
    #[arg(long = "x", short_alias = 'r', allow_hyphen_values = true, requires = "f0")]
    f1: Option<OsString>,
    #[command(flatten)]
    fl0: S180,
}
impl Show for S179 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("fl0", self.fl0.show())]) } }
#[derive(Debug, Args)]
pub struct S182 {
    #[arg(long = "output", global = true, requires = "f2")]
    f0: i32,
    #[arg(short = 'H', require_equals = true, global = true, requires = "f3")]
    f1: Option<Option<String>>,
    #[arg(long = "x-y", short = 'q', require_equals = true, requires = "f0", conflicts_with = "f4")]
    f2: Option<String>,
    #[arg(long = "bet-a", short = 'y', short_alias = 'w', global = true)]
    f3: Option<Color>,
    #[arg(long = "alpha", alias = "x1", short_alias = 'B', default_value = "dflt", conflicts_with = "f2")]
    f4: String,
}
impl Show for S182 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Args)]
pub struct S186 {
    #[arg(long = "xy", global = true, requires = "p0")]
    f0: Vec<String>,
    #[arg(requires = "f0")]
    p0: Option<u8>,
    #[arg(conflicts_with = "p0")]
    p1: Option<String>,
}
impl Show for S186 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("p1", self.p1.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E185 {
    Gone(S186),
}
impl Show for E185 { fn show(&self) -> Val { match self { E185::Gone(x) => Val::Var("Gone", Box::new(x.show())),  } } }
#[derive(Debug, Args)]
pub struct S184 {
    #[arg(long = "n", short_alias = 'x', global = true, allow_hyphen_values = true)]
    f0: Option<Color>,
    #[arg(long = "x", short = 'w', short_alias = 'j', global = true, conflicts_with = "f0")]
    f1: bool,
    #[command(subcommand)]
    sub: Option<E185>,
}
impl Show for S184 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E183 {
        Go {
    p0: Option<OsString>,
    #[arg(long = "zeta", alias = "bet-a")]
    f0: bool,
    #[arg(long = "keys", short = 't', alias = "beta", requires = "p0")]
    f1: Option<String>,
    #[arg(short = 'k', alias = "key", allow_hyphen_values = true, value_delimiter = ';', requires = "f0", conflicts_with = "f4")]
    f2: Vec<String>,
    #[arg(long = "Z", short = 'c', alias = "al", required = true)]
    f3: bool,
    #[arg(requires = "f2", conflicts_with = "f1")]
    p1: Option<String>,
    #[arg(short = '/', require_equals = true)]
    f4: Option<Option<String>>,
    },
    Sta(S184),
}
impl Show for E183 { fn show(&self) -> Val { match self { E183::Go { p0, f0, f1, f2, f3, p1, f4 } => Val::Var("Go", Box::new(Val::Rec(vec![("p0", p0.show()), ("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("p1", p1.show()), ("f4", f4.show())]))), E183::Sta(x) => Val::Var("Sta", Box::new(x.show())),  } } }
#[derive(Debug, Parser)]
pub struct S181 {
    #[arg(long = "Ünï", global = true, allow_negative_numbers = true, default_value = "-3")]
    f0: i32,
    #[arg(short = 'j', allow_negative_numbers = true)]
    f1: Option<String>,
    #[arg(long = "zeta")]
    f2: Option<Color>,
    #[arg(requires = "f0", requires = "f1")]
    p0: Option<u8>,
    #[arg(long = "out", alias = "n", global = true, allow_hyphen_values = true, conflicts_with = "la")]
    f3: Option<Vec<u8>>,
    p1: Option<u8>,
    #[arg(long = "Z", require_equals = true, global = true)]
    f4: Option<u8>,
    #[arg(last = true, requires = "p1")]
    la: Vec<String>,
    #[command(flatten)]
    fl0: S182,
    #[command(subcommand)]
    sub: Option<E183>,
}
impl Show for S181 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("p0", self.p0.show()), ("f3", self.f3.show()), ("p1", self.p1.show()), ("f4", self.f4.show()), ("la", self.la.show()), ("fl0", self.fl0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S187 {
    #[arg(conflicts_with = "f0")]
    p1: Option<OsString>,
    #[arg(requires = "f0")]
    p0: Option<OsString>,
    #[arg(long = "xy", short = ',', alias = "beta", global = true, allow_hyphen_values = true, requires = "p1", conflicts_with = "va")]
    f0: Option<Color>,
    va: Option<Vec<u8>>,
}
impl Show for S187 { fn show(&self) -> Val { Val::Rec(vec![("p1", self.p1.show()), ("p0", self.p0.show()), ("f0", self.f0.show()), ("va", self.va.show())]) } }
#[derive(Debug, Parser)]
pub struct S188 {
    p0: Option<OsString>,
    #[arg(short = 'I', hide = true, default_value = "dflt", requires = "f1", requires = "p0")]
    f0: Option<String>,
    #[arg(long = "Z", short = 'D', alias = "n", default_value = "7")]
    f1: Option<u8>,
}
impl Show for S188 { fn show(&self) -> Val { Val::Rec(vec![("p0", self.p0.show()), ("f0", self.f0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Args)]
pub struct S190 {
    #[arg(long = "x-y", short = 'I', hide = true, conflicts_with = "f3")]
    f0: Option<String>,
    #[arg(long = "al", short = 'C', alias = "Ünï", global = true, conflicts_with = "f0")]
    f1: Option<Color>,
    #[arg(long = "no-out")]
    f2: Option<String>,
    #[arg(short = 'x', require_equals = true, global = true, conflicts_with = "f0")]
    f3: Option<Option<String>>,
    #[arg(long = "alp", short = 'A', allow_negative_numbers = true, default_value = "7", value_delimiter = ',')]
    f4: Option<Vec<u8>>,
}
impl Show for S190 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Parser)]
pub struct S189 {
    #[arg(long = "help-me", short = 'k', short_alias = ',', hide = true)]
    f0: bool,
    #[arg(conflicts_with = "f0")]
    p0: Option<String>,
    #[command(flatten)]
    fl0: S190,
}
impl Show for S189 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("fl0", self.fl0.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E194 {
        GoOn {
    #[arg(long = "al", short = 'c', default_value = "-3")]
    f0: i32,
    #[arg(long = "xy", short = 'F')]
    f1: Option<u8>,
    },
}
impl Show for E194 { fn show(&self) -> Val { match self { E194::GoOn { f0, f1 } => Val::Var("GoOn", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show())]))),  } } }
#[derive(Debug, Args)]
pub struct S193 {
    #[arg(long = "alpha", short = '@', global = true, allow_negative_numbers = true, ignore_case = true, value_delimiter = ',', requires = "f3")]
    f0: Vec<Low>,
    #[arg(short = 'f', require_equals = true, global = true, conflicts_with = "p0")]
    f1: Option<Option<String>>,
    #[arg(long = "beta", alias = "help-me", require_equals = true, default_value = "-3")]
    f2: i32,
    #[arg(long = "be", short = 'E', alias = "bet-a")]
    f3: Option<OsString>,
    #[arg(conflicts_with = "f3")]
    p0: Option<OsString>,
    #[arg(trailing_var_arg = true, conflicts_with = "f0")]
    va: Vec<OsString>,
    #[command(subcommand)]
    sub: E194,
}
impl Show for S193 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("p0", self.p0.show()), ("va", self.va.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E192 {
    Go(S193),
        Status {
    #[arg(long = "xy", short = 'D', short_alias = 's', global = true, allow_hyphen_values = true, required = true, requires = "p0")]
    f0: Vec<String>,
    #[arg(long = "x-y", short = 'A', alias = "x1", global = true, default_value = "dflt", requires = "f4")]
    f1: Option<String>,
    #[arg(long = "alp", short = 'v', require_equals = true, global = true, value_delimiter = ';')]
    f2: Option<Vec<u8>>,
    p0: Option<u8>,
    #[arg(short = 'b', alias = "zeta", global = true, requires = "la")]
    f3: bool,
    #[arg(long = "bet-a", short = ':', alias = "alpha", short_alias = '1', global = true, conflicts_with = "f1")]
    f4: Option<Vec<u8>>,
    p1: Option<String>,
    #[arg(last = true)]
    la: Vec<u8>,
    },
        A {
    #[arg(long = "beta", short = '0', hide = true, value_delimiter = ';')]
    f0: Vec<Low>,
    #[arg(short = 'n', alias = "Ünï", short_alias = 's', allow_hyphen_values = true, hide = true)]
    f1: Option<OsString>,
    #[arg(long = "n", short = 'e', alias = "out", short_alias = 'H', allow_negative_numbers = true, default_value = "-3", conflicts_with = "f3")]
    f2: i32,
    #[arg(long = "al", alias = "no-out", require_equals = true)]
    f3: Option<Option<String>>,
    },
}
impl Show for E192 { fn show(&self) -> Val { match self { E192::Go(x) => Val::Var("Go", Box::new(x.show())), E192::Status { f0, f1, f2, p0, f3, f4, p1, la } => Val::Var("Status", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("p0", p0.show()), ("f3", f3.show()), ("f4", f4.show()), ("p1", p1.show()), ("la", la.show())]))), E192::A { f0, f1, f2, f3 } => Val::Var("A", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S191 {
    #[arg(short = 'J', require_equals = true, global = true, hide = true)]
    f0: Option<Option<String>>,
    #[arg(long = "Z", alias = "x1", allow_hyphen_values = true, conflicts_with = "va")]
    f1: Option<String>,
    #[arg(long = "zeta", require_equals = true, global = true, exclusive = true)]
    f2: Option<Option<String>>,
    p0: Option<u8>,
    #[arg(trailing_var_arg = true)]
    va: Vec<String>,
    #[arg(last = true, conflicts_with = "p0")]
    la: Vec<u8>,
    #[command(subcommand)]
    sub: Option<E192>,
}
impl Show for S191 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("p0", self.p0.show()), ("va", self.va.show()), ("la", self.la.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E196 {
        Sta {
    #[arg(short = ':', global = true, allow_hyphen_values = true, default_value = "-3", conflicts_with = "f2")]
    f0: i32,
    p1: Option<OsString>,
    #[arg(long = "no-out", alias = "xy", allow_negative_numbers = true)]
    f1: Option<OsString>,
    #[arg(long = "key", alias = "out", global = true, allow_negative_numbers = true, default_value = "dflt")]
    f2: Option<String>,
    p0: Option<u8>,
    #[arg(long = "x", short = 'B', short_alias = '0', require_equals = true, global = true, conflicts_with = "f0")]
    f3: Option<Option<String>>,
    #[arg(conflicts_with = "p0")]
    va: Vec<String>,
    },
        Status {
    #[arg(long = "be", short = 'n', global = true, allow_hyphen_values = true, ignore_case = true)]
    f0: Vec<Low>,
    },
        Go {
    #[arg(short = 'u', short_alias = 'J')]
    f0: Option<OsString>,
    #[arg(long = "alp", short = 'A', alias = "output", global = true, allow_negative_numbers = true)]
    f1: Option<OsString>,
    #[arg(short = 'f', global = true)]
    f2: bool,
    p0: String,
    #[arg(long = "help-me", short = 'k', global = true, allow_hyphen_values = true)]
    f3: Option<OsString>,
    #[arg(short = 'G', short_alias = 'F', required = true, value_delimiter = ':', requires = "p0", requires = "f0")]
    f4: Vec<String>,
    },
        Gone,
}
impl Show for E196 { fn show(&self) -> Val { match self { E196::Sta { f0, p1, f1, f2, p0, f3, va } => Val::Var("Sta", Box::new(Val::Rec(vec![("f0", f0.show()), ("p1", p1.show()), ("f1", f1.show()), ("f2", f2.show()), ("p0", p0.show()), ("f3", f3.show()), ("va", va.show())]))), E196::Status { f0 } => Val::Var("Status", Box::new(Val::Rec(vec![("f0", f0.show())]))), E196::Go { f0, f1, f2, p0, f3, f4 } => Val::Var("Go", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("p0", p0.show()), ("f3", f3.show()), ("f4", f4.show())]))), E196::Gone => Val::Var("Gone", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S195 {
    #[arg(long = "out", short = 'A', requires = "f1", requires = "p0")]
    f0: Option<String>,
    #[arg(conflicts_with = "f1")]
    p0: Option<String>,
    #[arg(long = "x", short = 'E', alias = "x-y", allow_hyphen_values = true)]
    f1: Option<String>,
    #[command(subcommand)]
    sub: E196,
}
impl Show for S195 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("f1", self.f1.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S197 {
    #[arg(long = "Z", short = 'n', global = true, allow_hyphen_values = true, required = true, hide = true)]
    f0: Option<u8>,
    #[arg(long = "n", short = 'o', require_equals = true, hide = true)]
    f1: Option<Option<String>>,
    #[arg(long = "x", short = 'm', ignore_case = true, conflicts_with = "f0")]
    f2: Vec<Low>,
}
impl Show for S197 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show())]) } }
#[derive(Debug, Args)]
pub struct S200 {
    p0: Option<u8>,
    #[arg(long = "n", short = 'z')]
    f0: bool,
    #[arg(long = "al", short = 'c', requires = "f2")]
    f1: bool,
    #[arg(long = "bet-a", short = 'é', require_equals = true, global = true)]
    f2: Option<OsString>,
    #[arg(long = "x1", short = 'G', short_alias = '/', require_equals = true, requires = "la", requires = "f0")]
    f3: Option<Vec<u8>>,
    #[arg(last = true)]
    la: Vec<u8>,
}
impl Show for S200 { fn show(&self) -> Val { Val::Rec(vec![("p0", self.p0.show()), ("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("la", self.la.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E199 {
    Go(S200),
        Gone {
    #[arg(long = "keys")]
    f0: Option<OsString>,
    p0: Option<String>,
    #[arg(long = "zeta", short = 't', alias = "n", conflicts_with = "f0")]
    f1: i32,
    #[arg(long = "al")]
    f2: bool,
    },
        GoOn {
    #[arg(long = "x1", required = true)]
    f0: Option<u8>,
    },
}
impl Show for E199 { fn show(&self) -> Val { match self { E199::Go(x) => Val::Var("Go", Box::new(x.show())), E199::Gone { f0, p0, f1, f2 } => Val::Var("Gone", Box::new(Val::Rec(vec![("f0", f0.show()), ("p0", p0.show()), ("f1", f1.show()), ("f2", f2.show())]))), E199::GoOn { f0 } => Val::Var("GoOn", Box::new(Val::Rec(vec![("f0", f0.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S198 {
    #[arg(long = "xy", short = 'z', default_value = "dflt", requires = "f1")]
    f0: String,
    #[arg(long = "output", short = 'H', global = true, allow_hyphen_values = true, requires = "f0")]
    f1: Vec<String>,
    #[command(subcommand)]
    sub: Option<E199>,
}
impl Show for S198 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S201 {
    #[arg(short = 'y', short_alias = '?', require_equals = true, hide = true)]
    f0: Option<String>,
    #[arg(requires = "f0")]
    p0: Option<OsString>,
    va: Vec<String>,
}
impl Show for S201 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("va", self.va.show())]) } }
#[derive(Debug, Args)]
pub struct S203 {
    #[arg(long = "x-y", short = '?', alias = "Z", short_alias = 'd', require_equals = true, global = true, requires = "f2")]
    f0: Option<Option<String>>,
    #[arg(short = 'F', global = true, allow_negative_numbers = true, hide = true)]
    f1: Option<u8>,
    #[arg(long = "x1", alias = "output", allow_hyphen_values = true, requires = "f1")]
    f2: Option<Color>,
    #[arg(short = 'G', alias = "beta", global = true, requires = "f0")]
    f3: bool,
}
impl Show for S203 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show())]) } }
#[derive(Debug, Args)]
pub struct S205 {
    #[arg(long = "bet-a", require_equals = true, global = true)]
    f0: Option<Color>,
    #[arg(long = "xy", alias = "no-out", short_alias = 'c', global = true, value_delimiter = ':')]
    f1: Vec<Low>,
    #[arg(long = "Z", alias = "n", short_alias = '?', default_value = "dflt", requires = "f3", requires = "f0")]
    f2: String,
    #[arg(long = "alpha", short = 't', global = true)]
    f3: bool,
}
impl Show for S205 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show())]) } }
#[derive(Debug, Args)]
pub struct S207 {
    #[arg(long = "Z", allow_hyphen_values = true)]
    f0: Option<OsString>,
    #[arg(long = "beta", alias = "al")]
    f1: Option<OsString>,
    #[arg(long = "key", short = 'F', short_alias = 'd', require_equals = true, requires = "f3")]
    f2: Option<Color>,
    #[arg(short = 't', short_alias = '文', allow_negative_numbers = true)]
    f3: Option<String>,
    #[arg(short = 'J', alias = "x-y")]
    f4: Option<Vec<u8>>,
}
impl Show for S207 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E206 {
    Status(S207),
}
impl Show for E206 { fn show(&self) -> Val { match self { E206::Status(x) => Val::Var("Status", Box::new(x.show())),  } } }
#[derive(Debug, Args)]
pub struct S209 {
    #[arg(long = "x", alias = "no-out", require_equals = true)]
    f0: Option<Option<String>>,
    #[arg(long = "output", short = 'F', conflicts_with = "f2")]
    f1: bool,
    #[arg(long = "xy")]
    f2: bool,
    #[arg(short = '0', global = true, required = true, hide = true, value_delimiter = ',')]
    f3: Vec<String>,
}
impl Show for S209 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E210 {
        A {
    #[arg(long = "zeta", allow_negative_numbers = true, default_value = "dflt", value_delimiter = ':', requires = "f1")]
    f0: Vec<String>,
    #[arg(long = "bet-a", short = 'n', short_alias = 'c', require_equals = true, global = true)]
    f1: Option<Option<String>>,
    #[arg(short = 'e', global = true, required = true, value_delimiter = ':')]
    f2: Option<Vec<u8>>,
    #[arg(short = '9', global = true, allow_negative_numbers = true)]
    f3: Option<String>,
    #[arg(long = "out", short = 'q', require_equals = true, global = true, conflicts_with = "f3")]
    f4: Option<Option<String>>,
    },
        Gone {
    #[arg(long = "Ünï", allow_negative_numbers = true, exclusive = true, requires = "la")]
    f0: Option<OsString>,
    #[arg(last = true)]
    la: Vec<u8>,
    },
}
impl Show for E210 { fn show(&self) -> Val { match self { E210::A { f0, f1, f2, f3, f4 } => Val::Var("A", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("f4", f4.show())]))), E210::Gone { f0, la } => Val::Var("Gone", Box::new(Val::Rec(vec![("f0", f0.show()), ("la", la.show())]))),  } } }
#[derive(Debug, Args)]
pub struct S208 {
    p1: Option<u8>,
    #[arg(long = "key", short = 'q', alias = "be", global = true, required = true)]
    f0: Vec<Low>,
    #[arg(long = "bet-a", short = 'n', short_alias = '@', global = true)]
    f1: bool,
    #[arg(long = "keys", short = 'D', alias = "al", allow_hyphen_values = true, default_value = "dflt")]
    f2: Option<String>,
    p0: Option<String>,
    #[command(flatten)]
    fl0: S209,
    #[command(subcommand)]
    sub: E210,
}
impl Show for S208 { fn show(&self) -> Val { Val::Rec(vec![("p1", self.p1.show()), ("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("p0", self.p0.show()), ("fl0", self.fl0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S211 {
    #[arg(long = "be", short = 'b', require_equals = true, global = true, requires = "f2", requires = "f3")]
    f0: Option<OsString>,
    #[arg(long = "n", short = '?', require_equals = true, value_delimiter = ',', requires = "f3", requires = "f0")]
    f1: Option<Vec<u8>>,
    #[arg(short = 'C', global = true, conflicts_with = "f1")]
    f2: bool,
    #[arg(long = "beta", alias = "help-me", allow_negative_numbers = true)]
    f3: Vec<String>,
}
impl Show for S211 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E212 {
        Gone,
}
impl Show for E212 { fn show(&self) -> Val { match self { E212::Gone => Val::Var("Gone", Box::new(Val::U)),  } } }
#[derive(Debug, Subcommand)]
pub enum E204 {
        Sta {
    #[arg(long = "Ünï", alias = "x-y", global = true, default_value = "dflt")]
    f0: Option<String>,
    #[command(flatten)]
    fl0: S205,
    #[command(subcommand)]
    sub: Option<E206>,
    },
    A(S208),
        Status {
    p0: String,
    #[arg(long = "beta", short = 'E', allow_negative_numbers = true, exclusive = true)]
    f0: Option<OsString>,
    },
        GoOn {
    #[arg(requires = "f0")]
    p0: Option<String>,
    #[arg(long = "keys", short = 'o')]
    f0: bool,
    #[command(flatten)]
    fl0: S211,
    #[command(subcommand)]
    sub: E212,
    },
}
impl Show for E204 { fn show(&self) -> Val { match self { E204::Sta { f0, fl0, sub } => Val::Var("Sta", Box::new(Val::Rec(vec![("f0", f0.show()), ("fl0", fl0.show()), ("sub", sub.show())]))), E204::A(x) => Val::Var("A", Box::new(x.show())), E204::Status { p0, f0 } => Val::Var("Status", Box::new(Val::Rec(vec![("p0", p0.show()), ("f0", f0.show())]))), E204::GoOn { p0, f0, fl0, sub } => Val::Var("GoOn", Box::new(Val::Rec(vec![("p0", p0.show()), ("f0", f0.show()), ("fl0", fl0.show()), ("sub", sub.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S202 {
    #[arg(long = "zeta", short = 'D', global = true)]
    f0: Option<OsString>,
    #[arg(long = "no-out", short = 'é', global = true)]
    f1: bool,
    #[arg(short = 'j', alias = "key", require_equals = true, default_value = "-3")]
    f2: i32,
    #[arg(long = "xy", short = 'I', allow_hyphen_values = true, conflicts_with = "f0")]
    f3: Option<String>,
    #[arg(long = "keys", allow_hyphen_values = true, conflicts_with = "f2")]
    f4: Option<Vec<u8>>,
    #[command(flatten)]
    fl0: S203,
    #[command(subcommand)]
    sub: E204,
}
impl Show for S202 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show()), ("fl0", self.fl0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S213 {
    #[arg(long = "Z", allow_hyphen_values = true, conflicts_with = "f1")]
    f0: i32,
    #[arg(long = "x-y", short = 't')]
    f1: Option<Vec<u8>>,
}
impl Show for S213 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Parser)]
pub struct S214 {
    #[arg(long = "alpha", short = 'd', short_alias = 'é')]
    f0: Option<Vec<u8>>,
    #[arg(long = "alp", allow_negative_numbers = true, default_value = "-3", conflicts_with = "va")]
    f1: i32,
    va: Option<Vec<u8>>,
}
impl Show for S214 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("va", self.va.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E216 {
        Go,
        Gone,
}
impl Show for E216 { fn show(&self) -> Val { match self { E216::Go => Val::Var("Go", Box::new(Val::U)), E216::Gone => Val::Var("Gone", Box::new(Val::U)),  } } }
#[derive(Debug, Parser)]
pub struct S215 {
    #[arg(long = "help-me", short = 's', alias = "zeta", global = true)]
    f0: i32,
    #[arg(long = "bet-a", short = 'c', allow_negative_numbers = true)]
    f1: Vec<String>,
    #[arg(short = '文', alias = "beta", allow_hyphen_values = true, requires = "f1", requires = "f3", conflicts_with = "f0")]
    f2: Option<Color>,
    #[arg(long = "keys", short = 'G', short_alias = 'ß', global = true, hide = true, default_value = "auto")]
    f3: Option<Color>,
    #[command(subcommand)]
    sub: Option<E216>,
}
impl Show for S215 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S217 {
    #[arg(short = ':', alias = "out", global = true, ignore_case = true, requires = "f3")]
    f0: Vec<Low>,
    #[arg(short = 'I')]
    f1: bool,
    #[arg(short = 'F', alias = "Z", global = true)]
    f2: bool,
    #[arg(long = "no-out", alias = "Ünï", requires = "f2", conflicts_with = "f1")]
    f3: bool,
}
impl Show for S217 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show())]) } }
#[derive(Debug, Args)]
pub struct S219 {
    #[arg(long = "al", short = 'a', alias = "Z")]
    f0: Option<u8>,
    #[arg(long = "be", alias = "xy", global = true, default_value = "7")]
    f1: Option<Vec<u8>>,
}
impl Show for S219 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Args)]
pub struct S221 {
    #[arg(short = 'd')]
    f0: bool,
    #[arg(conflicts_with = "f0")]
    p0: Option<String>,
}
impl Show for S221 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E220 {
    Sta(S221),
        Status,
        Go {
    p0: Option<OsString>,
    #[arg(short = 'u')]
    f0: bool,
    },
}
impl Show for E220 { fn show(&self) -> Val { match self { E220::Sta(x) => Val::Var("Sta", Box::new(x.show())), E220::Status => Val::Var("Status", Box::new(Val::U)), E220::Go { p0, f0 } => Val::Var("Go", Box::new(Val::Rec(vec![("p0", p0.show()), ("f0", f0.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S218 {
    #[arg(long = "Ünï", short = 'w', global = true, hide = true, default_value = "dflt", conflicts_with = "va")]
    f0: String,
    #[arg(short = 'A', alias = "keys", requires = "va", requires = "f0")]
    f1: bool,
    #[arg(long = "x", global = true, conflicts_with = "f0")]
    f2: bool,
    #[arg(short = 'H', global = true, allow_hyphen_values = true, hide = true, default_value = "auto", requires = "va", conflicts_with = "f2")]
    f3: Option<Color>,
    va: Option<Vec<u8>>,
    #[command(flatten)]
    fl0: S219,
    #[command(subcommand)]
    sub: Option<E220>,
}
impl Show for S218 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("va", self.va.show()), ("fl0", self.fl0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S223 {
    #[arg(long = "xy", short = 'y', alias = "output", global = true, allow_negative_numbers = true, default_value = "dflt", conflicts_with = "f1")]
    f0: String,
    #[arg(long = "be", short = 'z', alias = "out", value_delimiter = ';', requires = "f0")]
    f1: Vec<String>,
}
impl Show for S223 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Parser)]
pub struct S222 {
    #[arg(long = "beta", short = 'q', short_alias = 'k', require_equals = true, conflicts_with = "p0")]
    f0: Option<Option<String>>,
    p0: Option<u8>,
    #[arg(long = "help-me", alias = "alpha", short_alias = ',', global = true, allow_negative_numbers = true, requires = "p0")]
    f1: Option<String>,
    #[command(flatten)]
    fl0: S223,
}
impl Show for S222 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("f1", self.f1.show()), ("fl0", self.fl0.show())]) } }
#[derive(Debug, Parser)]
pub struct S224 {
    #[arg(long = "alpha", short = 'm', short_alias = 'e', require_equals = true, conflicts_with = "p0")]
    f0: Option<Option<String>>,
    #[arg(long = "alp", short = 'w')]
    f1: Option<OsString>,
    #[arg(requires = "f0", conflicts_with = "f1")]
    p0: Option<u8>,
}
impl Show for S224 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("p0", self.p0.show())]) } }
#[derive(Debug, Parser)]
pub struct S225 {
    #[arg(long = "alp", short = 'H', hide = true)]
    f0: Option<Vec<u8>>,
    p0: Option<String>,
    #[arg(long = "n", short = 'e', require_equals = true)]
    f1: Option<Option<String>>,
}
impl Show for S225 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("p0", self.p0.show()), ("f1", self.f1.show())]) } }
#[derive(Debug, Args)]
pub struct S228 {
    #[arg(long = "Ünï", alias = "be", conflicts_with = "f2")]
    f0: bool,
    #[arg(short = 'é', alias = "alp", short_alias = '1', value_delimiter = ';', requires = "f0")]
    f1: Option<Vec<u8>>,
    #[arg(long = "key", short_alias = 'v', allow_hyphen_values = true, default_value = "-3")]
    f2: i32,
}
impl Show for S228 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show())]) } }
#[derive(Debug, Args)]
pub struct S229 {
    #[arg(long = "help-me", alias = "alpha", allow_hyphen_values = true)]
    f0: Vec<Low>,
    #[arg(long = "no-out", alias = "x-y", allow_negative_numbers = true, hide = true)]
    f1: Option<String>,
    #[arg(long = "output", short = '文', require_equals = true, conflicts_with = "f3")]
    f2: Option<Option<String>>,
    #[arg(long = "al", short = 'q', alias = "bet-a")]
    f3: bool,
    #[arg(long = "Z", short_alias = 'z', require_equals = true)]
    f4: Option<String>,
}
impl Show for S229 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E230 {
        A {
    #[arg(short = 'q', alias = "x1", allow_hyphen_values = true, requires = "f2")]
    f0: Option<Color>,
    #[arg(long = "xy", short = 'H', conflicts_with = "f3")]
    f1: bool,
    #[arg(short = 'o', require_equals = true)]
    f2: Option<Option<String>>,
    #[arg(long = "x-y", short = '9', require_equals = true)]
    f3: Option<String>,
    #[arg(last = true)]
    la: Vec<u8>,
    },
        GoOn {
    #[arg(long = "keys")]
    f0: Option<Vec<u8>>,
    #[arg(long = "Ünï", short = 'x', require_equals = true, ignore_case = true, value_delimiter = ':', conflicts_with = "f2")]
    f1: Vec<Low>,
    p0: Option<OsString>,
    #[arg(short = 'ß', short_alias = 'c', require_equals = true)]
    f2: Option<Option<String>>,
    },
        Status {
    #[arg(long = "alp", alias = "keys", conflicts_with = "f3")]
    f0: bool,
    p1: Option<OsString>,
    p0: Option<u8>,
    #[arg(long = "n", short = 'G', allow_negative_numbers = true)]
    f1: Option<Color>,
    #[arg(long = "beta", short = 'd', alias = "xy", short_alias = '?', allow_negative_numbers = true, exclusive = true, default_value = "7")]
    f2: Option<u8>,
    #[arg(long = "out", short = ',', short_alias = 'u', require_equals = true)]
    f3: Option<String>,
    },
        Go {
    #[arg(default_value = "pd")]
    p1: String,
    #[arg(long = "x", short = '9')]
    f0: Option<u8>,
    #[arg(conflicts_with = "va")]
    p0: String,
    va: Option<Vec<u8>>,
    },
}
impl Show for E230 { fn show(&self) -> Val { match self { E230::A { f0, f1, f2, f3, la } => Val::Var("A", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show()), ("la", la.show())]))), E230::GoOn { f0, f1, p0, f2 } => Val::Var("GoOn", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("p0", p0.show()), ("f2", f2.show())]))), E230::Status { f0, p1, p0, f1, f2, f3 } => Val::Var("Status", Box::new(Val::Rec(vec![("f0", f0.show()), ("p1", p1.show()), ("p0", p0.show()), ("f1", f1.show()), ("f2", f2.show()), ("f3", f3.show())]))), E230::Go { p1, f0, p0, va } => Val::Var("Go", Box::new(Val::Rec(vec![("p1", p1.show()), ("f0", f0.show()), ("p0", p0.show()), ("va", va.show())]))),  } } }
#[derive(Debug, Args)]
pub struct S233 {
    p0: Option<u8>,
    #[arg(long = "alp", short = ',', alias = "help-me", allow_negative_numbers = true, value_delimiter = ',', requires = "f2")]
    f0: Option<Vec<u8>>,
    #[arg(long = "no-out", short = 'J', requires = "f0", requires = "p0")]
    f1: bool,
    #[arg(long = "zeta", alias = "Ünï", requires = "f0", requires = "f1")]
    f2: bool,
}
impl Show for S233 { fn show(&self) -> Val { Val::Rec(vec![("p0", self.p0.show()), ("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E232 {
    GoOn(S233),
}
impl Show for E232 { fn show(&self) -> Val { match self { E232::GoOn(x) => Val::Var("GoOn", Box::new(x.show())),  } } }
#[derive(Debug, Args)]
pub struct S231 {
    #[arg(long = "no-out", short = 'd', require_equals = true, global = true, hide = true, default_value = "dflt")]
    f0: Option<String>,
    #[arg(short = 'k', short_alias = '/', global = true, requires = "f4", requires = "f3")]
    f1: bool,
    #[arg(long = "x1", short_alias = 'D', allow_hyphen_values = true)]
    f2: String,
    #[arg(long = "alpha", short = 'A', allow_negative_numbers = true, requires = "f4")]
    f3: Option<u8>,
    #[arg(short = 's', alias = "zeta", short_alias = 'J', global = true, requires = "f2")]
    f4: bool,
    #[command(subcommand)]
    sub: E232,
}
impl Show for S231 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E227 {
        Sta {
    #[arg(requires = "f0")]
    p0: Option<OsString>,
    #[arg(long = "x", short = 'n', allow_hyphen_values = true, value_delimiter = ',')]
    f0: Option<Vec<u8>>,
    #[arg(requires = "f0")]
    p1: Option<String>,
    #[arg(long = "out", short = 'D', value_delimiter = ',', conflicts_with = "p1")]
    f1: Vec<String>,
    #[command(flatten)]
    fl0: S228,
    #[command(flatten)]
    fl1: S229,
    #[command(subcommand)]
    sub: Option<E230>,
    },
    A(S231),
}
impl Show for E227 { fn show(&self) -> Val { match self { E227::Sta { p0, f0, p1, f1, fl0, fl1, sub } => Val::Var("Sta", Box::new(Val::Rec(vec![("p0", p0.show()), ("f0", f0.show()), ("p1", p1.show()), ("f1", f1.show()), ("fl0", fl0.show()), ("fl1", fl1.show()), ("sub", sub.show())]))), E227::A(x) => Val::Var("A", Box::new(x.show())),  } } }
#[derive(Debug, Parser)]
pub struct S226 {
    #[arg(conflicts_with = "f1")]
    p1: Option<OsString>,
    #[arg(long = "no-out", alias = "beta", global = true, allow_hyphen_values = true, value_delimiter = ':', conflicts_with = "p0")]
    f0: Vec<String>,
    p0: Option<u8>,
    #[arg(long = "n", short = 'o', global = true)]
    f1: Option<Vec<u8>>,
    #[command(subcommand)]
    sub: E227,
}
impl Show for S226 { fn show(&self) -> Val { Val::Rec(vec![("p1", self.p1.show()), ("f0", self.f0.show()), ("p0", self.p0.show()), ("f1", self.f1.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S235 {
    #[arg(long = "beta", alias = "x", require_equals = true, required = true, exclusive = true)]
    f0: Option<Option<String>>,
}
impl Show for S235 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show())]) } }
#[derive(Debug, Args)]
pub struct S237 {
    #[arg(short = 'o', allow_negative_numbers = true, conflicts_with = "f1")]
    f0: Option<String>,
    #[arg(long = "be", short = 'w', alias = "output")]
    f1: bool,
    #[arg(conflicts_with = "f0")]
    p0: Option<String>,
    p1: Option<u8>,
    #[arg(long = "x", short = 'ß')]
    f2: i32,
    #[arg(last = true)]
    la: Vec<u8>,
}
impl Show for S237 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("p0", self.p0.show()), ("p1", self.p1.show()), ("f2", self.f2.show()), ("la", self.la.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E236 {
    Sta(S237),
}
impl Show for E236 { fn show(&self) -> Val { match self { E236::Sta(x) => Val::Var("Sta", Box::new(x.show())),  } } }
#[derive(Debug, Parser)]
pub struct S234 {
    #[arg(long = "keys", short = 'b')]
    f0: Option<String>,
    #[arg(long = "n", short = 'c', alias = "bet-a", requires = "f0", requires = "f2")]
    f1: Vec<String>,
    #[arg(long = "zeta", alias = "xy", hide = true)]
    f2: String,
    #[command(flatten)]
    fl0: S235,
    #[command(subcommand)]
    sub: Option<E236>,
}
impl Show for S234 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("fl0", self.fl0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Args)]
pub struct S240 {
    #[arg(short = 'm', short_alias = 'w', value_delimiter = ':', requires = "f1")]
    f0: Option<Vec<u8>>,
    #[arg(long = "output", short = '文', allow_hyphen_values = true)]
    f1: Option<String>,
    #[arg(last = true)]
    la: Vec<u8>,
}
impl Show for S240 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("la", self.la.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E239 {
    Status(S240),
        Go {
    #[arg(long = "n", short = '@', short_alias = 'e', allow_negative_numbers = true)]
    f0: Option<String>,
    },
}
impl Show for E239 { fn show(&self) -> Val { match self { E239::Status(x) => Val::Var("Status", Box::new(x.show())), E239::Go { f0 } => Val::Var("Go", Box::new(Val::Rec(vec![("f0", f0.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S238 {
    #[arg(conflicts_with = "f0")]
    p1: Option<u8>,
    #[arg(short = 'C', alias = "al", global = true, conflicts_with = "va")]
    f0: bool,
    #[arg(default_value = "pd", requires = "va", requires = "f0")]
    p0: String,
    #[arg(conflicts_with = "p0")]
    va: Vec<OsString>,
    #[command(subcommand)]
    sub: Option<E239>,
}
impl Show for S238 { fn show(&self) -> Val { Val::Rec(vec![("p1", self.p1.show()), ("f0", self.f0.show()), ("p0", self.p0.show()), ("va", self.va.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S241 {
    #[arg(long = "out", short = '9', allow_hyphen_values = true, hide = true, conflicts_with = "f3")]
    f0: Option<String>,
    #[arg(short = 'B', allow_hyphen_values = true)]
    f1: Option<String>,
    #[arg(long = "Z", short = 'é', alias = "x1", short_alias = 'I', default_value = "dflt")]
    f2: String,
    #[arg(short = 'n', require_equals = true, required = true)]
    f3: Option<String>,
    #[arg(long = "key", short = 'f', alias = "zeta")]
    f4: Option<Color>,
}
impl Show for S241 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("f4", self.f4.show())]) } }
#[derive(Debug, Parser)]
pub struct S242 {
    #[arg(long = "Ünï", short = 's', alias = "alpha", default_value = "7")]
    f0: Option<u8>,
    #[arg(long = "x1", short = 'w', default_value = "dflt", conflicts_with = "f0")]
    f1: Option<String>,
    #[arg(short = 'x', requires = "f3", conflicts_with = "va")]
    f2: Option<String>,
    #[arg(short = 'é', short_alias = 'y', allow_hyphen_values = true, default_value = "dflt", requires = "va")]
    f3: Option<String>,
    #[arg(trailing_var_arg = true)]
    va: Vec<OsString>,
}
impl Show for S242 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("f1", self.f1.show()), ("f2", self.f2.show()), ("f3", self.f3.show()), ("va", self.va.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E244 {
        Go,
        Gone {
    #[arg(long = "xy", short = 's', allow_negative_numbers = true)]
    f0: Option<String>,
    #[arg(long = "alp", short = 'j')]
    f1: bool,
    p0: Option<u8>,
    #[arg(short = 'q')]
    f2: Option<u8>,
    #[arg(trailing_var_arg = true)]
    va: Vec<OsString>,
    },
        GoOn {
    #[arg(long = "alp", short = 'e', alias = "keys", require_equals = true, default_value = "-3", requires = "f1", conflicts_with = "f2")]
    f0: i32,
    #[arg(long = "x-y", short = 'j', require_equals = true, global = true, ignore_case = true, hide = true)]
    f1: Vec<Low>,
    #[arg(long = "al", short = 't', require_equals = true, global = true, conflicts_with = "f1")]
    f2: Option<Option<String>>,
    },
}
impl Show for E244 { fn show(&self) -> Val { match self { E244::Go => Val::Var("Go", Box::new(Val::U)), E244::Gone { f0, f1, p0, f2, va } => Val::Var("Gone", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("p0", p0.show()), ("f2", f2.show()), ("va", va.show())]))), E244::GoOn { f0, f1, f2 } => Val::Var("GoOn", Box::new(Val::Rec(vec![("f0", f0.show()), ("f1", f1.show()), ("f2", f2.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S243 {
    #[arg(short = 'g', short_alias = 'w', global = true, allow_negative_numbers = true, value_delimiter = ',')]
    f0: Vec<String>,
    #[command(subcommand)]
    sub: E244,
}
impl Show for S243 { fn show(&self) -> Val { Val::Rec(vec![("f0", self.f0.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S245 {
    #[arg(long = "out0", short = 'u', default_value = "5", conflicts_with_all = ["b", "c", "d"])]
    a: Vec<String>,
    #[arg(short = 'v', conflicts_with_all = ["a", "d", "c"])]
    b: Option<u8>,
    #[arg(short = 'w', exclusive = true)]
    c: bool,
    #[arg(long = "out3", short = 'x')]
    d: Option<u8>,
}
impl Show for S245 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E247 {
        Go,
        On {
    #[arg(short = 'u', required = true, conflicts_with_all = ["b"])]
    a: bool,
    #[arg(long = "out1", short = 'v', require_equals = true, conflicts_with = "a")]
    b: Option<Option<u8>>,
    },
}
impl Show for E247 { fn show(&self) -> Val { match self { E247::Go => Val::Var("Go", Box::new(Val::U)), E247::On { a, b } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S246 {
    #[arg(short = 'a', exclusive = true, conflicts_with = "b")]
    a: Option<String>,
    #[arg(short = 'b', conflicts_with = "a")]
    b: Option<Vec<String>>,
    #[command(subcommand)]
    sub: Option<E247>,
}
impl Show for S246 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S248 {
    #[arg(long = "out0", short = 'u')]
    a: bool,
    #[arg(short = 'v', default_value_t = true, requires = "d", conflicts_with = "e")]
    b: bool,
    #[arg(long = "out2", short = 'w', requires = "b", conflicts_with = "a")]
    c: Option<Vec<String>>,
    #[arg(long = "out3", short = 'x', default_value_t = true, requires = "b", conflicts_with_all = ["f"])]
    d: bool,
    #[arg(long = "out4", short = 'y', required = true, conflicts_with = "c", conflicts_with = "d", conflicts_with = "b")]
    e: bool,
    #[arg(short = 'z', conflicts_with = "c", conflicts_with = "e", conflicts_with = "a")]
    f: Option<String>,
}
impl Show for S248 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show()), ("f", self.f.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E250 {
        Go,
        On {
    #[arg(short = 'u', required = true, requires = "f", requires = "c", conflicts_with = "d")]
    a: bool,
    #[arg(requires = "d", requires = "b")]
    pos: Vec<String>,
    #[arg(long = "out1", short = 'v', conflicts_with_all = ["f", "pos"])]
    b: bool,
    #[arg(short = 'w', requires = "b")]
    c: Option<u8>,
    #[arg(long = "out3", short = 'x', conflicts_with_all = ["b", "f", "c"])]
    d: bool,
    #[arg(short = 'y', require_equals = true, required = true, conflicts_with_all = ["b"])]
    e: Option<Option<u8>>,
    #[arg(short = 'z')]
    f: Option<String>,
    },
}
impl Show for E250 { fn show(&self) -> Val { match self { E250::Go => Val::Var("Go", Box::new(Val::U)), E250::On { a, pos, b, c, d, e, f } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("pos", pos.show()), ("b", b.show()), ("c", c.show()), ("d", d.show()), ("e", e.show()), ("f", f.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S249 {
    #[arg(short = 'a', global = true, conflicts_with = "d")]
    a: Option<Vec<String>>,
    #[arg(short = 'b', require_equals = true, requires = "d", requires = "c")]
    b: Option<Option<u8>>,
    #[arg(short = 'c', global = true, exclusive = true, default_value = "5", conflicts_with_all = ["a", "b"])]
    c: Option<u8>,
    #[arg(long = "in3", short = 'd', requires = "a", requires = "b")]
    d: bool,
    #[command(subcommand)]
    sub: Option<E250>,
}
impl Show for S249 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S251 {
    #[arg(short = 'u', require_equals = true, conflicts_with_all = ["e"])]
    a: Option<Option<u8>>,
    #[arg(short = 'v')]
    b: Option<Vec<String>>,
    #[arg(short = 'w', require_equals = true, requires = "a")]
    c: Option<Option<u8>>,
    #[arg(short = 'x', require_equals = true, conflicts_with_all = ["b"])]
    d: Option<Option<u8>>,
    #[arg(short = 'y', requires = "d", conflicts_with = "c")]
    e: Option<u8>,
}
impl Show for S251 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E253 {
        Go,
        On {
    #[arg(short = 'u', conflicts_with_all = ["f", "d"])]
    a: bool,
    #[arg(long = "out1", short = 'v', requires = "a")]
    b: bool,
    #[arg(short = 'w', required = true, requires = "b", conflicts_with = "pos")]
    c: Vec<String>,
    #[arg(short = 'x', default_value_t = true)]
    d: bool,
    #[arg(short = 'y', required = true, conflicts_with_all = ["f", "b", "c"])]
    e: Option<Vec<String>>,
    #[arg(required = true)]
    pos: Vec<String>,
    #[arg(short = 'z', require_equals = true, exclusive = true, requires = "a", conflicts_with = "b", conflicts_with = "d", conflicts_with = "e")]
    f: Option<Option<u8>>,
    },
}
impl Show for E253 { fn show(&self) -> Val { match self { E253::Go => Val::Var("Go", Box::new(Val::U)), E253::On { a, b, c, d, e, pos, f } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show()), ("d", d.show()), ("e", e.show()), ("pos", pos.show()), ("f", f.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S252 {
    #[arg(short = 'a', conflicts_with_all = ["b"])]
    a: Option<Vec<String>>,
    #[arg(short = 'b', conflicts_with = "a")]
    b: Option<String>,
    #[command(subcommand)]
    sub: E253,
}
impl Show for S252 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S254 {
    #[arg(long = "out0", short = 'u', default_value_t = true, conflicts_with_all = ["pos", "b"])]
    a: bool,
    #[arg(short = 'v', requires = "pos", requires = "a")]
    b: Option<u8>,
    #[arg(conflicts_with_all = ["b", "a"])]
    pos: Option<String>,
}
impl Show for S254 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("pos", self.pos.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E256 {
        Go,
        On {
    #[arg(short = 'u', conflicts_with = "b")]
    a: Option<String>,
    #[arg(short = 'v', require_equals = true, exclusive = true, requires = "c", conflicts_with_all = ["d"])]
    b: Option<Option<u8>>,
    #[arg(short = 'w', exclusive = true, conflicts_with = "d")]
    c: Option<String>,
    #[arg(short = 'x', conflicts_with_all = ["b", "c", "a"])]
    d: bool,
    },
}
impl Show for E256 { fn show(&self) -> Val { match self { E256::Go => Val::Var("Go", Box::new(Val::U)), E256::On { a, b, c, d } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show()), ("d", d.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S255 {
    #[arg(requires = "b", requires = "a")]
    pos: Vec<String>,
    #[arg(short = 'a', global = true, conflicts_with = "pos", conflicts_with = "b")]
    a: Option<Vec<String>>,
    #[arg(short = 'b', global = true, requires = "pos", conflicts_with_all = ["a"])]
    b: bool,
    #[command(subcommand)]
    sub: E256,
}
impl Show for S255 { fn show(&self) -> Val { Val::Rec(vec![("pos", self.pos.show()), ("a", self.a.show()), ("b", self.b.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S257 {
    #[arg(long = "out0", short = 'u', required = true, conflicts_with_all = ["b"])]
    a: bool,
    #[arg(short = 'v', exclusive = true, requires = "a")]
    b: bool,
}
impl Show for S257 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E259 {
        Go,
        On {
    #[arg(requires = "e", requires = "a")]
    pos: Option<String>,
    #[arg(short = 'u')]
    a: bool,
    #[arg(short = 'v', require_equals = true, required = true, requires = "pos", conflicts_with = "a", conflicts_with = "e", conflicts_with = "c")]
    b: Option<Option<u8>>,
    #[arg(short = 'w', required = true)]
    c: bool,
    #[arg(short = 'x', default_value = "5", requires = "c")]
    d: Option<String>,
    #[arg(short = 'y', required = true, conflicts_with = "d")]
    e: bool,
    },
}
impl Show for E259 { fn show(&self) -> Val { match self { E259::Go => Val::Var("Go", Box::new(Val::U)), E259::On { pos, a, b, c, d, e } => Val::Var("On", Box::new(Val::Rec(vec![("pos", pos.show()), ("a", a.show()), ("b", b.show()), ("c", c.show()), ("d", d.show()), ("e", e.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S258 {
    #[arg(long = "in0", short = 'a', default_value = "5", requires = "b", conflicts_with_all = ["d"])]
    a: Vec<String>,
    #[arg(short = 'b', conflicts_with_all = ["c", "d", "a"])]
    b: bool,
    #[arg(short = 'c', conflicts_with_all = ["a", "d"])]
    c: Vec<String>,
    #[arg(short = 'd')]
    d: bool,
    #[command(subcommand)]
    sub: E259,
}
impl Show for S258 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S260 {
    #[arg(short = 'u', required = true)]
    a: Option<Vec<String>>,
    #[arg(long = "out1", short = 'v', required = true)]
    b: Option<Vec<String>>,
    #[arg(requires = "a", conflicts_with = "b")]
    pos: Vec<String>,
    #[arg(short = 'w', conflicts_with = "a", conflicts_with = "d", conflicts_with = "e")]
    c: bool,
    #[arg(short = 'x', conflicts_with_all = ["e"])]
    d: bool,
    #[arg(long = "out4", short = 'y', required = true, requires = "b", conflicts_with_all = ["d"])]
    e: Option<String>,
}
impl Show for S260 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("pos", self.pos.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E262 {
        Go,
        On {
    #[arg(long = "out0", short = 'u', conflicts_with_all = ["b", "c", "pos"])]
    a: bool,
    #[arg(required = true, conflicts_with_all = ["c", "a", "b"])]
    pos: Vec<String>,
    #[arg(short = 'v', exclusive = true, requires = "pos")]
    b: Option<Vec<String>>,
    #[arg(short = 'w', default_value_t = true, conflicts_with_all = ["b", "a"])]
    c: bool,
    },
}
impl Show for E262 { fn show(&self) -> Val { match self { E262::Go => Val::Var("Go", Box::new(Val::U)), E262::On { a, pos, b, c } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("pos", pos.show()), ("b", b.show()), ("c", c.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S261 {
    #[arg(short = 'a', global = true, default_value = "5", requires = "c")]
    a: Vec<String>,
    #[arg(short = 'b', required = true, requires = "a", requires = "c")]
    b: Vec<String>,
    #[arg(short = 'c', global = true, conflicts_with = "a", conflicts_with = "b")]
    c: Option<String>,
    #[command(subcommand)]
    sub: E262,
}
impl Show for S261 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S263 {
    #[arg(long = "out0", short = 'u', require_equals = true)]
    a: Option<Option<u8>>,
    #[arg(short = 'v', required = true, conflicts_with = "pos")]
    b: bool,
    #[arg(long = "out2", short = 'w', conflicts_with = "b", conflicts_with = "a", conflicts_with = "pos")]
    c: bool,
    #[arg(short = 'x', conflicts_with_all = ["pos", "b"])]
    d: Option<Vec<String>>,
    #[arg(requires = "a", conflicts_with = "f")]
    pos: Vec<String>,
    #[arg(short = 'y', conflicts_with_all = ["d", "pos"])]
    e: Vec<String>,
    #[arg(short = 'z', required = true, conflicts_with = "a", conflicts_with = "d")]
    f: Option<Vec<String>>,
}
impl Show for S263 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("pos", self.pos.show()), ("e", self.e.show()), ("f", self.f.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E265 {
        Go,
        On {
    #[arg(long = "out0", short = 'u', exclusive = true, default_value = "5")]
    a: Option<u8>,
    #[arg(short = 'v', required = true, conflicts_with_all = ["a", "c"])]
    b: bool,
    #[arg(long = "out2", short = 'w', conflicts_with = "a")]
    c: Option<Vec<String>>,
    },
}
impl Show for E265 { fn show(&self) -> Val { match self { E265::Go => Val::Var("Go", Box::new(Val::U)), E265::On { a, b, c } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S264 {
    #[arg(short = 'a', required = true, conflicts_with = "b")]
    a: Option<u8>,
    #[arg(short = 'b', default_value = "5")]
    b: Option<u8>,
    #[arg(conflicts_with_all = ["b", "a"])]
    pos: Vec<String>,
    #[command(subcommand)]
    sub: E265,
}
impl Show for S264 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("pos", self.pos.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S266 {
    #[arg(short = 'u')]
    a: Option<u8>,
    #[arg(long = "out1", short = 'v', conflicts_with = "a")]
    b: bool,
}
impl Show for S266 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E268 {
        Go,
        On {
    #[arg(short = 'u', exclusive = true, default_value_t = true)]
    a: bool,
    #[arg(short = 'v', exclusive = true, requires = "a")]
    b: bool,
    #[arg(short = 'w', default_value = "5", conflicts_with = "b")]
    c: Option<String>,
    #[arg(conflicts_with_all = ["b", "c"])]
    pos: Vec<String>,
    },
}
impl Show for E268 { fn show(&self) -> Val { match self { E268::Go => Val::Var("Go", Box::new(Val::U)), E268::On { a, b, c, pos } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show()), ("pos", pos.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S267 {
    #[arg(short = 'a', conflicts_with = "b")]
    a: bool,
    #[arg(short = 'b', conflicts_with = "a")]
    b: Option<String>,
    #[arg(conflicts_with = "b")]
    pos: Vec<String>,
    #[arg(long = "in2", short = 'c', exclusive = true, conflicts_with = "b", conflicts_with = "d")]
    c: Option<Vec<String>>,
    #[arg(short = 'd', global = true, exclusive = true, requires = "a")]
    d: Option<u8>,
    #[command(subcommand)]
    sub: E268,
}
impl Show for S267 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("pos", self.pos.show()), ("c", self.c.show()), ("d", self.d.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S269 {
    #[arg(short = 'u', required = true, conflicts_with = "pos", conflicts_with = "b")]
    a: Option<u8>,
    #[arg(requires = "a", requires = "b")]
    pos: Vec<String>,
    #[arg(long = "out1", short = 'v', require_equals = true, requires = "pos", requires = "a")]
    b: Option<Option<u8>>,
}
impl Show for S269 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("pos", self.pos.show()), ("b", self.b.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E271 {
        Go,
        On {
    #[arg(short = 'u', conflicts_with_all = ["b", "c"])]
    a: bool,
    #[arg(short = 'v')]
    b: bool,
    #[arg(short = 'w', default_value = "5", conflicts_with = "d")]
    c: Option<u8>,
    #[arg(long = "out3", short = 'x', conflicts_with = "b")]
    d: Option<String>,
    #[arg(short = 'y', conflicts_with_all = ["b"])]
    e: Option<Vec<String>>,
    },
}
impl Show for E271 { fn show(&self) -> Val { match self { E271::Go => Val::Var("Go", Box::new(Val::U)), E271::On { a, b, c, d, e } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show()), ("d", d.show()), ("e", e.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S270 {
    #[arg(long = "in0", short = 'a', required = true, conflicts_with_all = ["pos", "b"])]
    a: bool,
    #[arg(short = 'b', default_value = "5", conflicts_with = "pos", conflicts_with = "a")]
    b: Option<u8>,
    #[arg(required = true)]
    pos: Option<String>,
    #[command(subcommand)]
    sub: E271,
}
impl Show for S270 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("pos", self.pos.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S272 {
    #[arg(long = "out0", short = 'u', default_value_t = true, conflicts_with_all = ["pos", "c", "b"])]
    a: bool,
    #[arg(requires = "c", conflicts_with_all = ["a"])]
    pos: Option<String>,
    #[arg(short = 'v', conflicts_with = "a")]
    b: Vec<String>,
    #[arg(long = "out2", short = 'w', require_equals = true, requires = "a", requires = "pos")]
    c: Option<Option<u8>>,
}
impl Show for S272 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("pos", self.pos.show()), ("b", self.b.show()), ("c", self.c.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E274 {
        Go,
        On {
    #[arg(short = 'u', conflicts_with_all = ["b"])]
    a: Option<Vec<String>>,
    #[arg(short = 'v', conflicts_with_all = ["c"])]
    b: bool,
    #[arg(long = "out2", short = 'w', default_value = "5", conflicts_with_all = ["b", "a"])]
    c: Option<u8>,
    },
}
impl Show for E274 { fn show(&self) -> Val { match self { E274::Go => Val::Var("Go", Box::new(Val::U)), E274::On { a, b, c } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S273 {
    #[arg(required = true, exclusive = true, conflicts_with_all = ["c", "a", "d"])]
    pos: Option<String>,
    #[arg(short = 'a', conflicts_with = "pos", conflicts_with = "c", conflicts_with = "d")]
    a: bool,
    #[arg(short = 'b', require_equals = true, global = true, conflicts_with_all = ["c", "a"])]
    b: Option<Option<u8>>,
    #[arg(short = 'c', requires = "d")]
    c: bool,
    #[arg(short = 'd', exclusive = true, default_value = "5", conflicts_with_all = ["pos"])]
    d: Vec<String>,
    #[command(subcommand)]
    sub: Option<E274>,
}
impl Show for S273 { fn show(&self) -> Val { Val::Rec(vec![("pos", self.pos.show()), ("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S275 {
    #[arg(short = 'u', required = true, conflicts_with = "c")]
    a: bool,
    #[arg(long = "out1", short = 'v', required = true, exclusive = true)]
    b: bool,
    #[arg(short = 'w', conflicts_with = "b", conflicts_with = "a")]
    c: Option<Vec<String>>,
}
impl Show for S275 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E277 {
        Go,
        On {
    #[arg(short = 'u', required = true, conflicts_with = "d", conflicts_with = "e", conflicts_with = "c")]
    a: bool,
    #[arg(short = 'v', conflicts_with_all = ["c", "f"])]
    b: Option<u8>,
    #[arg(long = "out2", short = 'w', requires = "b", conflicts_with = "a", conflicts_with = "d", conflicts_with = "e")]
    c: Option<Vec<String>>,
    #[arg(short = 'x', default_value = "5", requires = "f")]
    d: Option<u8>,
    #[arg(short = 'y')]
    e: bool,
    #[arg(long = "out5", short = 'z', required = true, requires = "b")]
    f: Option<Vec<String>>,
    },
}
impl Show for E277 { fn show(&self) -> Val { match self { E277::Go => Val::Var("Go", Box::new(Val::U)), E277::On { a, b, c, d, e, f } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show()), ("d", d.show()), ("e", e.show()), ("f", f.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S276 {
    #[arg(conflicts_with_all = ["c"])]
    pos: Vec<String>,
    #[arg(short = 'a', requires = "pos", conflicts_with = "c")]
    a: bool,
    #[arg(short = 'b', default_value_t = true, conflicts_with = "c", conflicts_with = "pos")]
    b: bool,
    #[arg(short = 'c', exclusive = true, default_value = "5", conflicts_with_all = ["a", "b", "pos"])]
    c: Option<String>,
    #[command(subcommand)]
    sub: E277,
}
impl Show for S276 { fn show(&self) -> Val { Val::Rec(vec![("pos", self.pos.show()), ("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S278 {
    #[arg(short = 'u', default_value = "5", requires = "d")]
    a: Option<u8>,
    #[arg(short = 'v', requires = "c", conflicts_with_all = ["a"])]
    b: Option<u8>,
    #[arg(short = 'w', conflicts_with_all = ["e", "a", "b"])]
    c: Option<u8>,
    #[arg(short = 'x', conflicts_with_all = ["e", "b", "a"])]
    d: Option<String>,
    #[arg(short = 'y')]
    e: bool,
}
impl Show for S278 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E280 {
        Go,
        On {
    #[arg(short = 'u', exclusive = true, default_value = "5", requires = "c", requires = "e")]
    a: Option<u8>,
    #[arg(short = 'v', default_value = "5", requires = "d", requires = "c")]
    b: Option<u8>,
    #[arg(short = 'w', default_value = "5", requires = "f")]
    c: Option<String>,
    #[arg(short = 'x')]
    d: Vec<String>,
    #[arg(short = 'y', exclusive = true, requires = "b")]
    e: bool,
    #[arg(short = 'z')]
    f: Vec<String>,
    },
}
impl Show for E280 { fn show(&self) -> Val { match self { E280::Go => Val::Var("Go", Box::new(Val::U)), E280::On { a, b, c, d, e, f } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show()), ("d", d.show()), ("e", e.show()), ("f", f.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S279 {
    #[arg(short = 'a', require_equals = true, requires = "c", conflicts_with = "d", conflicts_with = "pos")]
    a: Option<Option<u8>>,
    #[arg(exclusive = true)]
    pos: Vec<String>,
    #[arg(long = "in1", short = 'b', conflicts_with_all = ["a"])]
    b: Option<String>,
    #[arg(short = 'c', requires = "a", conflicts_with = "d")]
    c: Option<Vec<String>>,
    #[arg(long = "in3", short = 'd', global = true, default_value = "5", conflicts_with = "a")]
    d: Vec<String>,
    #[command(subcommand)]
    sub: E280,
}
impl Show for S279 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("pos", self.pos.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S281 {
    #[arg(short = 'u')]
    a: Option<Vec<String>>,
    #[arg(requires = "b", requires = "a")]
    pos: Vec<String>,
    #[arg(long = "out1", short = 'v', require_equals = true, exclusive = true, requires = "a")]
    b: Option<Option<u8>>,
}
impl Show for S281 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("pos", self.pos.show()), ("b", self.b.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E283 {
        Go,
        On {
    #[arg(long = "out0", short = 'u', required = true, conflicts_with = "d")]
    a: bool,
    #[arg(short = 'v', exclusive = true)]
    b: Option<u8>,
    #[arg(short = 'w', requires = "b", conflicts_with_all = ["d", "e"])]
    c: Option<String>,
    #[arg(long = "out3", short = 'x', required = true, exclusive = true, conflicts_with = "a")]
    d: bool,
    #[arg(short = 'y', conflicts_with_all = ["c", "a", "b"])]
    e: bool,
    },
}
impl Show for E283 { fn show(&self) -> Val { match self { E283::Go => Val::Var("Go", Box::new(Val::U)), E283::On { a, b, c, d, e } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show()), ("d", d.show()), ("e", e.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S282 {
    #[arg(long = "in0", short = 'a', conflicts_with_all = ["c", "pos", "d"])]
    a: Option<u8>,
    #[arg(short = 'b', required = true, conflicts_with_all = ["d", "pos"])]
    b: Option<String>,
    #[arg(short = 'c', conflicts_with_all = ["d", "a", "e"])]
    c: Vec<String>,
    #[arg(short = 'd', default_value_t = true, requires = "e")]
    d: bool,
    #[arg(requires = "c")]
    pos: Option<String>,
    #[arg(short = 'e', conflicts_with_all = ["d"])]
    e: bool,
    #[command(subcommand)]
    sub: E283,
}
impl Show for S282 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("pos", self.pos.show()), ("e", self.e.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S284 {
    #[arg(long = "out0", short = 'u', require_equals = true, conflicts_with = "b", conflicts_with = "e")]
    a: Option<Option<u8>>,
    #[arg(short = 'v', default_value_t = true, conflicts_with = "c")]
    b: bool,
    #[arg(short = 'w', default_value_t = true, conflicts_with = "d")]
    c: bool,
    #[arg(short = 'x', require_equals = true, exclusive = true, conflicts_with_all = ["a"])]
    d: Option<Option<u8>>,
    #[arg(long = "out4", short = 'y')]
    e: bool,
}
impl Show for S284 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E286 {
        Go,
        On {
    #[arg(long = "out0", short = 'u', default_value_t = true, conflicts_with_all = ["c", "b"])]
    a: bool,
    #[arg(short = 'v', conflicts_with_all = ["c", "a"])]
    b: Option<String>,
    #[arg(long = "out2", short = 'w', required = true, conflicts_with = "b")]
    c: Vec<String>,
    },
}
impl Show for E286 { fn show(&self) -> Val { match self { E286::Go => Val::Var("Go", Box::new(Val::U)), E286::On { a, b, c } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S285 {
    #[arg(short = 'a', require_equals = true, global = true, conflicts_with_all = ["b"])]
    a: Option<Option<u8>>,
    #[arg(long = "in1", short = 'b', conflicts_with = "a")]
    b: Option<String>,
    #[command(subcommand)]
    sub: Option<E286>,
}
impl Show for S285 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S287 {
    #[arg(short = 'u', exclusive = true, default_value_t = true)]
    a: bool,
    #[arg(long = "out1", short = 'v', conflicts_with = "c", conflicts_with = "a")]
    b: bool,
    #[arg(short = 'w')]
    c: bool,
    #[arg(short = 'x', conflicts_with = "b")]
    d: bool,
    #[arg(long = "out4", short = 'y', conflicts_with = "b", conflicts_with = "a", conflicts_with = "c")]
    e: bool,
    #[arg(short = 'z', required = true, conflicts_with_all = ["c"])]
    f: Option<u8>,
}
impl Show for S287 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show()), ("f", self.f.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E289 {
        Go,
        On {
    #[arg(short = 'u', default_value_t = true)]
    a: bool,
    #[arg(short = 'v')]
    b: bool,
    },
}
impl Show for E289 { fn show(&self) -> Val { match self { E289::Go => Val::Var("Go", Box::new(Val::U)), E289::On { a, b } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S288 {
    #[arg(short = 'a', exclusive = true, conflicts_with_all = ["c", "d", "e"])]
    a: Option<String>,
    #[arg(long = "in1", short = 'b', default_value_t = true, conflicts_with_all = ["f"])]
    b: bool,
    #[arg(short = 'c', require_equals = true, conflicts_with = "a")]
    c: Option<Option<u8>>,
    #[arg(short = 'd', conflicts_with = "c", conflicts_with = "e")]
    d: bool,
    #[arg(short = 'e', require_equals = true, required = true)]
    e: Option<Option<u8>>,
    #[arg(short = 'f', required = true, exclusive = true, requires = "c")]
    f: bool,
    #[command(subcommand)]
    sub: E289,
}
impl Show for S288 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show()), ("f", self.f.show()), ("sub", self.sub.show())]) } }
#[derive(Debug, Parser)]
pub struct S290 {
    #[arg(exclusive = true, requires = "d", conflicts_with_all = ["a"])]
    pos: Option<String>,
    #[arg(long = "out0", short = 'u', require_equals = true, conflicts_with_all = ["b", "d", "c"])]
    a: Option<Option<u8>>,
    #[arg(short = 'v', require_equals = true, exclusive = true, requires = "f")]
    b: Option<Option<u8>>,
    #[arg(short = 'w', exclusive = true)]
    c: bool,
    #[arg(short = 'x', required = true, exclusive = true)]
    d: bool,
    #[arg(short = 'y', conflicts_with_all = ["pos", "a"])]
    e: Vec<String>,
    #[arg(short = 'z', exclusive = true, conflicts_with = "a")]
    f: Option<String>,
}
impl Show for S290 { fn show(&self) -> Val { Val::Rec(vec![("pos", self.pos.show()), ("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show()), ("f", self.f.show())]) } }
#[derive(Debug, Subcommand)]
pub enum E292 {
        Go,
        On {
    #[arg(short = 'u', required = true, conflicts_with = "pos")]
    a: bool,
    #[arg(long = "out1", short = 'v')]
    b: Option<Vec<String>>,
    #[arg(short = 'w', require_equals = true, requires = "d")]
    c: Option<Option<u8>>,
    #[arg(required = true, requires = "b")]
    pos: Vec<String>,
    #[arg(short = 'x', default_value_t = true, requires = "a", conflicts_with_all = ["c", "b"])]
    d: bool,
    },
}
impl Show for E292 { fn show(&self) -> Val { match self { E292::Go => Val::Var("Go", Box::new(Val::U)), E292::On { a, b, c, pos, d } => Val::Var("On", Box::new(Val::Rec(vec![("a", a.show()), ("b", b.show()), ("c", c.show()), ("pos", pos.show()), ("d", d.show())]))),  } } }
#[derive(Debug, Parser)]
pub struct S291 {
    #[arg(long = "in0", short = 'a', global = true, conflicts_with_all = ["b"])]
    a: Option<String>,
    #[arg(long = "in1", short = 'b', requires = "f", requires = "d", conflicts_with = "e", conflicts_with = "a")]
    b: Option<String>,
    #[arg(short = 'c', global = true, requires = "e", requires = "b", conflicts_with = "pos", conflicts_with = "a")]
    c: Vec<String>,
    #[arg(short = 'd')]
    d: Option<String>,
    #[arg(short = 'e', default_value = "5", requires = "b", requires = "a", conflicts_with = "d", conflicts_with = "pos", conflicts_with = "c")]
    e: Option<String>,
    #[arg(long = "in5", short = 'f', require_equals = true, requires = "d", conflicts_with = "a")]
    f: Option<Option<u8>>,
    #[arg(requires = "b", requires = "d", conflicts_with_all = ["c"])]
    pos: Option<String>,
    #[command(subcommand)]
    sub: Option<E292>,
}
impl Show for S291 { fn show(&self) -> Val { Val::Rec(vec![("a", self.a.show()), ("b", self.b.show()), ("c", self.c.show()), ("d", self.d.show()), ("e", self.e.show()), ("f", self.f.show()), ("pos", self.pos.show()), ("sub", self.sub.show())]) } }
fn d0() -> CmdD { CmdD{args:vec![ArgD{field:"aa",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--aa".into()), Name::Short('a')],desc:"-a, --aa",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"bb",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"cc",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--cc".into())],desc:"--cc",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d1() -> CmdD { CmdD{args:vec![ArgD{field:"file",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--file".into()), Name::Short('f')],desc:"-f, --file <FILE>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d2() -> CmdD { CmdD{args:vec![ArgD{field:"file",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--file".into()), Name::Short('f')],desc:"-f, --file <FILE>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"verbose",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"num",kind:Kind::Opt,ty:Ty::I32,names:vec![Name::Long("--number".into()), Name::Short('n')],desc:"-n, --number <NUM>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d3() -> CmdD { CmdD{args:vec![ArgD{field:"p",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--path".into()), Name::Short('p')],desc:"-p, --path <P>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--os".into()), Name::Short('o')],desc:"-o, --os <O>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"rest",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[REST]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d4() -> CmdD { CmdD{args:vec![ArgD{field:"color",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--color".into()), Name::Short('c')],desc:"-c, --color=<COLOR>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d5() -> CmdD { CmdD{args:vec![ArgD{field:"color",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--color".into()), Name::Short('c')],desc:"-c, --color[=<COLOR>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d6() -> CmdD { CmdD{args:vec![ArgD{field:"jobs",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--jobs".into()), Name::Short('j')],desc:"-j, --jobs[=<JOBS>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d7() -> CmdD { CmdD{args:vec![ArgD{field:"tint",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--hue".into()), Name::Long("--tint".into())],desc:"--tint[=<TINT>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"y",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--yes".into())],desc:"--yes",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d8() -> CmdD { CmdD{args:vec![ArgD{field:"mode",kind:Kind::OptOpt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--mode".into()), Name::Short('m')],desc:"-m, --mode[=<MODE>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d9() -> CmdD { CmdD{args:vec![ArgD{field:"any",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--any".into()), Name::Short('a')],desc:"-a, --any <ANY>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"plain",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--plain".into()), Name::Short('p')],desc:"-p, --plain <PLAIN>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d10() -> CmdD { CmdD{args:vec![ArgD{field:"num",kind:Kind::Opt,ty:Ty::I32,names:vec![Name::Long("--num".into()), Name::Short('n')],desc:"-n, --num <NUM>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"s",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--s".into()), Name::Short('s')],desc:"-s, --s <S>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"one",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('1')],desc:"-1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d11() -> CmdD { CmdD{args:vec![ArgD{field:"num",kind:Kind::Opt,ty:Ty::I32,names:vec![Name::Long("--num".into()), Name::Short('n')],desc:"-n, --num <NUM>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"rest",kind:Kind::Vec,ty:Ty::I32,names:vec![],desc:"[REST]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d12() -> CmdD { CmdD{args:vec![ArgD{field:"inc",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--include".into()), Name::Short('I')],desc:"-I, --include <INC>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"lib",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('l')],desc:"-l <LIB>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"q",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('q')],desc:"-q",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d13() -> CmdD { CmdD{args:vec![ArgD{field:"n",kind:Kind::Vec,ty:Ty::U8,names:vec![Name::Long("--num".into()), Name::Short('n')],desc:"-n, --num <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"rest",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[REST]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d14() -> CmdD { CmdD{args:vec![ArgD{field:"list",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--list".into()), Name::Short('l')],desc:"-l, --list <LIST>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"nums",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--nums".into())],desc:"--nums <NUMS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d15() -> CmdD { CmdD{args:vec![ArgD{field:"list",kind:Kind::Vec,ty:Ty::Os,names:vec![Name::Long("--list".into()), Name::Short('l')],desc:"-l, --list <LIST>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"uni",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('u')],desc:"-u <UNI>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some('é'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d16() -> CmdD { CmdD{args:vec![ArgD{field:"cols",kind:Kind::Vec,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--cols".into()), Name::Short('c')],desc:"-c, --cols <COLS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"eqs",kind:Kind::Vec,ty:Ty::U8,names:vec![Name::Long("--eqs".into()), Name::Short('e')],desc:"-e, --eqs=<EQS>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some('='),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d17() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('d')],desc:"-d <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('e')],desc:"-e[=<E>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('f')],desc:"-f=<F>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d18() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('é')],desc:"-é",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('文')],desc:"-文",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Short('😀')],desc:"-😀 <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('δ'), Name::Short('D'), Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d19() -> CmdD { CmdD{args:vec![ArgD{field:"one",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('1')],desc:"-1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"two",kind:Kind::Opt,ty:Ty::I32,names:vec![Name::Short('2')],desc:"-2 <TWO>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"dot",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('.')],desc:"-.",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"plus",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('+')],desc:"-+",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d20() -> CmdD { CmdD{args:vec![ArgD{field:"long_name",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--ln".into()), Name::Long("--long".into()), Name::Long("--long-name".into()), Name::Short('L'), Name::Short('x'), Name::Short('l')],desc:"-l, --long-name <LONG_NAME>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"longer",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--lon".into()), Name::Long("--longer".into())],desc:"--longer",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d21() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a".into())],desc:"--a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"ab",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--ab".into())],desc:"--ab",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"abc",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--abc".into())],desc:"--abc",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"abd",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a-b".into())],desc:"--a-b <ABD>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--b".into()), Name::Short('b')],desc:"-b, --b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"upper",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--A".into()), Name::Short('B')],desc:"-B, --A",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"uni",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--é".into())],desc:"--é",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"sp",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a b".into())],desc:"--a b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"sl",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a/b".into())],desc:"--a/b <SL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d22() -> CmdD { CmdD{args:vec![ArgD{field:"one",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<ONE>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"two",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[TWO]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"three",kind:Kind::Opt,ty:Ty::I32,names:vec![],desc:"[THREE]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d23() -> CmdD { CmdD{args:vec![ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"one",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[ONE]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"two",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[TWO]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d24() -> CmdD { CmdD{args:vec![ArgD{field:"first",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<FIRST>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"rest",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[REST]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--verb".into()), Name::Short('v')],desc:"-v, --verb",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d25() -> CmdD { CmdD{args:vec![ArgD{field:"rest",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[REST]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"v",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('v')],desc:"-v <V>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d26() -> CmdD { CmdD{args:vec![ArgD{field:"more",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[MORE]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('o')],desc:"-o",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"again",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[AGAIN]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"val",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--val".into())],desc:"--val <VAL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"third",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[THIRD]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d27() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"cmd",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<CMD>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"args",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[ARGS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d28() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--verbose".into()), Name::Short('v')],desc:"-v, --verbose",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"args",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[ARGS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d29() -> CmdD { CmdD{args:vec![ArgD{field:"o",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Short('o')],desc:"-o, --out <O>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"args",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[ARGS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d30() -> CmdD { CmdD{args:vec![ArgD{field:"args",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[ARGS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"tail",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[TAIL]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"q",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('q')],desc:"-q",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d31() -> CmdD { CmdD{args:vec![ArgD{field:"x",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[X]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"rest",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[REST]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d32() -> CmdD { CmdD{args:vec![ArgD{field:"files",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[FILES]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"cmd",kind:Kind::OptVec,ty:Ty::Os,names:vec![],desc:"[CMD]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"v",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--val".into()), Name::Short('v')],desc:"-v, --val <V>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d33() -> CmdD { CmdD{args:vec![ArgD{field:"cmd",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[CMD]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"one",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[ONE]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"two",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[TWO]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d34() -> CmdD { CmdD{args:vec![ArgD{field:"cmd",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"<CMD>...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d35() -> CmdD { CmdD{args:vec![ArgD{field:"files",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"<FILES>...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Long("--oo".into())],desc:"--oo <O>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d36() -> CmdD { CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""} }
fn d37() -> CmdD { CmdD{args:vec![ArgD{field:"u",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--u8".into()), Name::Short('u')],desc:"-u, --u8 <U>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"i",kind:Kind::Opt,ty:Ty::I64,names:vec![Name::Long("--i64".into()), Name::Short('i')],desc:"-i, --i64 <I>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Char,names:vec![Name::Long("--char".into()), Name::Short('c')],desc:"-c, --char <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Opt,ty:Ty::Even,names:vec![Name::Long("--even".into())],desc:"--even <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"t",kind:Kind::Opt,ty:Ty::Tag,names:vec![Name::Long("--tag".into()), Name::Short('t')],desc:"-t, --tag <T>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d38() -> CmdD { CmdD{args:vec![ArgD{field:"color",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--color".into()), Name::Short('c')],desc:"-c, --color <COLOR>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"mode",kind:Kind::Vec,ty:Ty::Enum(Mode_NAMES),names:vec![Name::Long("--mode".into()), Name::Short('m')],desc:"-m, --mode <MODE>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"lvl",kind:Kind::Opt,ty:Ty::Enum(Lvl_NAMES),names:vec![Name::Long("--lvl".into())],desc:"--lvl <LVL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"cam",kind:Kind::Opt,ty:Ty::Enum(Camel_NAMES),names:vec![Name::Long("--cam".into())],desc:"--cam <CAM>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"verb",kind:Kind::Opt,ty:Ty::Enum(Verb_NAMES),names:vec![Name::Long("--verb".into())],desc:"--verb <VERB>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d39() -> CmdD { CmdD{args:vec![ArgD{field:"low",kind:Kind::Opt,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--low".into()), Name::Short('l')],desc:"-l, --low <LOW>",eq:false,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"many",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--many".into()), Name::Short('m')],desc:"-m, --many <MANY>",eq:false,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"exact",kind:Kind::Opt,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--exact".into()), Name::Short('e')],desc:"-e, --exact <EXACT>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt",kind:Kind::OptOpt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--opt".into()), Name::Short('o')],desc:"-o, --opt[=<OPT>]",eq:true,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d40() -> CmdD { CmdD{args:vec![ArgD{field:"c",kind:Kind::Value,ty:Ty::Enum(Color_NAMES),names:vec![],desc:"<C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"ms",kind:Kind::Vec,ty:Ty::Enum(Mode_NAMES),names:vec![],desc:"[MS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d41() -> CmdD { CmdD{args:vec![ArgD{field:"num",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--num".into()), Name::Short('n')],desc:"-n, --num <NUM>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("42"),shown:Some("42"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"name",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--name".into())],desc:"--name <NAME>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::s("bob")),shown:Some("bob"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"flag",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('f')],desc:"-f",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"col",kind:Kind::Value,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--col".into())],desc:"--col <COL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::T("Never")),shown:Some("never"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"path",kind:Kind::Value,ty:Ty::Os,names:vec![Name::Long("--path".into())],desc:"--path <PATH>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("/x y"),shown:Some("/x y"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d42() -> CmdD { CmdD{args:vec![ArgD{field:"z",kind:Kind::Value,ty:Ty::U8,names:vec![Name::Long("--z".into()), Name::Short('z')],desc:"-z, --z <Z>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::N(0)),shown:Some("0"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"list",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--list".into()), Name::Short('l')],desc:"-l, --list <LIST>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::Text("a,b"),shown:Some("a,b"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"one",kind:Kind::Vec,ty:Ty::U8,names:vec![Name::Short('o')],desc:"-o <ONE>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dp"),shown:Some("dp"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"more",kind:Kind::Opt,ty:Ty::I32,names:vec![],desc:"[MORE]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-5"),shown:Some("-5"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"oo",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--oo".into())],desc:"--oo[=<OO>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dd"),shown:Some("dd"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d43() -> CmdD { CmdD{args:vec![ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"a",kind:Kind::Value,ty:Ty::U8,names:vec![],desc:"[A]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("3"),shown:Some("3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"[B]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("bee"),shown:Some("bee"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"rest",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[REST]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("r"),shown:Some("r"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d44() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--bb".into()), Name::Short('b')],desc:"-b, --bb <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--cc".into())],desc:"--cc",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d45() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--aa".into()), Name::Short('a')],desc:"-a, --aa",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a","pos"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d46() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","c","d"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c[=<C>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('d')],desc:"-d <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("4"),shown:Some("4"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d47() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b","c"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["d"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('e')],desc:"-e <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["pos"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["d"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d48() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Value,ty:Ty::U8,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("9"),shown:Some("9"),exclusive:false,requires:vec![],conflicts:vec!["c"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("cc"),shown:Some("cc"),exclusive:false,requires:vec!["d"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d49() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--aa".into()), Name::Short('a')],desc:"-a, --aa",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Value,ty:Ty::U8,names:vec![Name::Short('d')],desc:"-d <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("1"),shown:Some("1"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d50() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('v')],desc:"-v <V>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"w",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('w')],desc:"-w[=<W>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[P]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('f')],desc:"-f",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d51() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["m"],hide:false,doc:""}, ArgD{field:"m",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('m')],desc:"-m <M>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d52() -> CmdD { CmdD{args:vec![ArgD{field:"inp",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<INP>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"out",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Short('o')],desc:"-o, --out <OUT>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["dry"],hide:false,doc:""}, ArgD{field:"dry",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--dry-run".into()), Name::Short('n')],desc:"-n, --dry-run",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["out"],hide:false,doc:""}, ArgD{field:"force",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('f')],desc:"-f",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["out"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"lvl",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--lvl".into())],desc:"--lvl <LVL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["force","out"],conflicts:vec!["extra"],hide:false,doc:""}, ArgD{field:"extra",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[EXTRA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d53() -> CmdD { CmdD{args:vec![ArgD{field:"opt_0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-0".into()), Name::Short('a')],desc:"-a, --opt-0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-7".into()), Name::Long("--opt-1".into()), Name::Short('b')],desc:"-b, --opt-1 <OPT_1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_2",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-2".into()), Name::Short('c')],desc:"-c, --opt-2 <OPT_2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-21".into()), Name::Long("--opt-3".into()), Name::Short('d')],desc:"-d, --opt-3",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_4",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-4".into()), Name::Short('e')],desc:"-e, --opt-4 <OPT_4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_5",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-35".into()), Name::Long("--opt-5".into()), Name::Short('f')],desc:"-f, --opt-5 <OPT_5>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_6",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-6".into()), Name::Short('g')],desc:"-g, --opt-6",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_7",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-49".into()), Name::Long("--opt-7".into()), Name::Short('h')],desc:"-h, --opt-7 <OPT_7>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_8",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-8".into()), Name::Short('i')],desc:"-i, --opt-8 <OPT_8>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_9",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-3".into()), Name::Long("--opt-9".into()), Name::Short('j')],desc:"-j, --opt-9",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_10",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-10".into()), Name::Short('k')],desc:"-k, --opt-10 <OPT_10>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_11",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-17".into()), Name::Long("--opt-11".into()), Name::Short('l')],desc:"-l, --opt-11 <OPT_11>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_12",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-12".into()), Name::Short('m')],desc:"-m, --opt-12",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_13",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-31".into()), Name::Long("--opt-13".into()), Name::Short('n')],desc:"-n, --opt-13 <OPT_13>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_14",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-14".into()), Name::Short('o')],desc:"-o, --opt-14 <OPT_14>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_15",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-45".into()), Name::Long("--opt-15".into()), Name::Short('p')],desc:"-p, --opt-15",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_16",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-16".into()), Name::Short('q')],desc:"-q, --opt-16 <OPT_16>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_17",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-59".into()), Name::Long("--opt-17".into()), Name::Short('r')],desc:"-r, --opt-17 <OPT_17>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_18",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-18".into()), Name::Short('s')],desc:"-s, --opt-18",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_19",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-13".into()), Name::Long("--opt-19".into()), Name::Short('t')],desc:"-t, --opt-19 <OPT_19>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_20",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-20".into()), Name::Short('u')],desc:"-u, --opt-20 <OPT_20>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_21",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-27".into()), Name::Long("--opt-21".into()), Name::Short('v')],desc:"-v, --opt-21",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_22",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-22".into()), Name::Short('w')],desc:"-w, --opt-22 <OPT_22>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_23",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-41".into()), Name::Long("--opt-23".into()), Name::Short('x')],desc:"-x, --opt-23 <OPT_23>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_24",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-24".into()), Name::Short('y')],desc:"-y, --opt-24",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_25",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-55".into()), Name::Long("--opt-25".into()), Name::Short('z')],desc:"-z, --opt-25 <OPT_25>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_26",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-26".into()), Name::Short('A')],desc:"-A, --opt-26 <OPT_26>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_27",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-9".into()), Name::Long("--opt-27".into()), Name::Short('B')],desc:"-B, --opt-27",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_28",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-28".into()), Name::Short('C')],desc:"-C, --opt-28 <OPT_28>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_29",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-23".into()), Name::Long("--opt-29".into()), Name::Short('D')],desc:"-D, --opt-29 <OPT_29>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_30",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-30".into()), Name::Short('E')],desc:"-E, --opt-30",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_31",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-37".into()), Name::Long("--opt-31".into()), Name::Short('F')],desc:"-F, --opt-31 <OPT_31>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_32",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-32".into()), Name::Short('G')],desc:"-G, --opt-32 <OPT_32>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_33",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-51".into()), Name::Long("--opt-33".into()), Name::Short('H')],desc:"-H, --opt-33",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_34",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-34".into()), Name::Short('I')],desc:"-I, --opt-34 <OPT_34>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_35",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-5".into()), Name::Long("--opt-35".into()), Name::Short('J')],desc:"-J, --opt-35 <OPT_35>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_36",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-36".into()), Name::Short('K')],desc:"-K, --opt-36",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_37",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-19".into()), Name::Long("--opt-37".into()), Name::Short('L')],desc:"-L, --opt-37 <OPT_37>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_38",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-38".into()), Name::Short('M')],desc:"-M, --opt-38 <OPT_38>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_39",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-33".into()), Name::Long("--opt-39".into()), Name::Short('N')],desc:"-N, --opt-39",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_40",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-40".into()), Name::Short('O')],desc:"-O, --opt-40 <OPT_40>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_41",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-47".into()), Name::Long("--opt-41".into()), Name::Short('P')],desc:"-P, --opt-41 <OPT_41>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_42",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-42".into()), Name::Short('Q')],desc:"-Q, --opt-42",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_43",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-1".into()), Name::Long("--opt-43".into()), Name::Short('R')],desc:"-R, --opt-43 <OPT_43>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_44",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-44".into()), Name::Short('S')],desc:"-S, --opt-44 <OPT_44>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_45",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-15".into()), Name::Long("--opt-45".into()), Name::Short('T')],desc:"-T, --opt-45",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_46",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-46".into()), Name::Short('U')],desc:"-U, --opt-46 <OPT_46>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_47",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-29".into()), Name::Long("--opt-47".into()), Name::Short('V')],desc:"-V, --opt-47 <OPT_47>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_48",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-48".into()), Name::Short('W')],desc:"-W, --opt-48",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_49",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-43".into()), Name::Long("--opt-49".into()), Name::Short('X')],desc:"-X, --opt-49 <OPT_49>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_50",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-50".into()), Name::Short('Y')],desc:"-Y, --opt-50 <OPT_50>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_51",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-57".into()), Name::Long("--opt-51".into()), Name::Short('Z')],desc:"-Z, --opt-51",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_52",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-52".into())],desc:"--opt-52 <OPT_52>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_53",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-11".into()), Name::Long("--opt-53".into())],desc:"--opt-53 <OPT_53>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_54",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--opt-54".into())],desc:"--opt-54",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_55",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-25".into()), Name::Long("--opt-55".into())],desc:"--opt-55 <OPT_55>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_56",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-56".into())],desc:"--opt-56 <OPT_56>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_57",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al-39".into()), Name::Long("--opt-57".into())],desc:"--opt-57",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_58",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--opt-58".into())],desc:"--opt-58 <OPT_58>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"opt_59",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al-53".into()), Name::Long("--opt-59".into())],desc:"--opt-59 <OPT_59>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pv",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[PV]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d54() -> CmdD { CmdD{args:vec![ArgD{field:"o0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o0".into())],desc:"--o0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o1".into())],desc:"--o1 <O1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o2".into())],desc:"--o2",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o3",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o3".into())],desc:"--o3 <O3>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o4",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o4".into())],desc:"--o4",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o5",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o5".into())],desc:"--o5 <O5>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o6",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o6".into())],desc:"--o6",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o7",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o7".into())],desc:"--o7 <O7>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o8",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o8".into())],desc:"--o8",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o9",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o9".into())],desc:"--o9 <O9>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o10",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o10".into())],desc:"--o10",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o11",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o11".into())],desc:"--o11 <O11>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o12",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o12".into())],desc:"--o12",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o13",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o13".into())],desc:"--o13 <O13>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o14",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o14".into())],desc:"--o14",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o15",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o15".into())],desc:"--o15 <O15>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o16",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o16".into())],desc:"--o16",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o17",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o17".into())],desc:"--o17 <O17>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o18",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o18".into())],desc:"--o18",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o19",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o19".into())],desc:"--o19 <O19>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o20",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o20".into())],desc:"--o20",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o21",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o21".into())],desc:"--o21 <O21>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o22",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o22".into())],desc:"--o22",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o23",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o23".into())],desc:"--o23 <O23>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o24",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o24".into())],desc:"--o24",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o25",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o25".into())],desc:"--o25 <O25>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o26",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o26".into())],desc:"--o26",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o27",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o27".into())],desc:"--o27 <O27>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o28",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o28".into())],desc:"--o28",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o29",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o29".into())],desc:"--o29 <O29>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o30",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o30".into())],desc:"--o30",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o31",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o31".into())],desc:"--o31 <O31>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o32",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o32".into())],desc:"--o32",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o33",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o33".into())],desc:"--o33 <O33>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o34",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o34".into())],desc:"--o34",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o35",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o35".into())],desc:"--o35 <O35>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o36",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o36".into())],desc:"--o36",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o37",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o37".into())],desc:"--o37 <O37>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o38",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o38".into())],desc:"--o38",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o39",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o39".into())],desc:"--o39 <O39>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o40",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o40".into())],desc:"--o40",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o41",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o41".into())],desc:"--o41 <O41>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o42",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o42".into())],desc:"--o42",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o43",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o43".into())],desc:"--o43 <O43>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o44",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o44".into())],desc:"--o44",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o45",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o45".into())],desc:"--o45 <O45>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o46",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o46".into())],desc:"--o46",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o47",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o47".into())],desc:"--o47 <O47>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o48",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o48".into())],desc:"--o48",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o49",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o49".into())],desc:"--o49 <O49>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o50",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o50".into())],desc:"--o50",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o51",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o51".into())],desc:"--o51 <O51>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o52",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o52".into())],desc:"--o52",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o53",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o53".into())],desc:"--o53 <O53>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o54",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o54".into())],desc:"--o54",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o55",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o55".into())],desc:"--o55 <O55>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o56",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o56".into())],desc:"--o56",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o57",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o57".into())],desc:"--o57 <O57>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o58",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o58".into())],desc:"--o58",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o59",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o59".into())],desc:"--o59 <O59>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o60",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o60".into())],desc:"--o60",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o61",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o61".into())],desc:"--o61 <O61>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o62",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o62".into())],desc:"--o62",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o63",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o63".into())],desc:"--o63 <O63>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o64",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o64".into())],desc:"--o64",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o65",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o65".into())],desc:"--o65 <O65>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o66",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o66".into())],desc:"--o66",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o67",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o67".into())],desc:"--o67 <O67>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o68",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o68".into())],desc:"--o68",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o69",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o69".into())],desc:"--o69 <O69>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o70",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o70".into())],desc:"--o70",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o71",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o71".into())],desc:"--o71 <O71>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o72",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o72".into())],desc:"--o72",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o73",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o73".into())],desc:"--o73 <O73>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o74",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o74".into())],desc:"--o74",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o75",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o75".into())],desc:"--o75 <O75>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o76",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o76".into())],desc:"--o76",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o77",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o77".into())],desc:"--o77 <O77>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o78",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o78".into())],desc:"--o78",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o79",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o79".into())],desc:"--o79 <O79>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o80",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o80".into())],desc:"--o80",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o81",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o81".into())],desc:"--o81 <O81>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o82",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o82".into())],desc:"--o82",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o83",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o83".into())],desc:"--o83 <O83>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o84",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o84".into())],desc:"--o84",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o85",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o85".into())],desc:"--o85 <O85>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o86",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o86".into())],desc:"--o86",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o87",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o87".into())],desc:"--o87 <O87>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o88",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o88".into())],desc:"--o88",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o89",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o89".into())],desc:"--o89 <O89>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o90",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o90".into())],desc:"--o90",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o91",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o91".into())],desc:"--o91 <O91>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o92",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o92".into())],desc:"--o92",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o93",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o93".into())],desc:"--o93 <O93>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o94",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o94".into())],desc:"--o94",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o95",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o95".into())],desc:"--o95 <O95>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o96",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o96".into())],desc:"--o96",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o97",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o97".into())],desc:"--o97 <O97>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o98",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o98".into())],desc:"--o98",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o99",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o99".into())],desc:"--o99 <O99>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o100",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o100".into())],desc:"--o100",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o101",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o101".into())],desc:"--o101 <O101>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o102",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o102".into())],desc:"--o102",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o103",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o103".into())],desc:"--o103 <O103>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o104",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o104".into())],desc:"--o104",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o105",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o105".into())],desc:"--o105 <O105>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o106",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o106".into())],desc:"--o106",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o107",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o107".into())],desc:"--o107 <O107>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o108",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o108".into())],desc:"--o108",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o109",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o109".into())],desc:"--o109 <O109>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o110",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o110".into())],desc:"--o110",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o111",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o111".into())],desc:"--o111 <O111>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o112",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o112".into())],desc:"--o112",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o113",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o113".into())],desc:"--o113 <O113>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o114",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o114".into())],desc:"--o114",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o115",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o115".into())],desc:"--o115 <O115>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o116",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o116".into())],desc:"--o116",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o117",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o117".into())],desc:"--o117 <O117>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o118",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o118".into())],desc:"--o118",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o119",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o119".into())],desc:"--o119 <O119>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o120",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o120".into())],desc:"--o120",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o121",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o121".into())],desc:"--o121 <O121>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o122",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o122".into())],desc:"--o122",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o123",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o123".into())],desc:"--o123 <O123>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o124",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o124".into())],desc:"--o124",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o125",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o125".into())],desc:"--o125 <O125>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o126",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o126".into())],desc:"--o126",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o127",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o127".into())],desc:"--o127 <O127>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o128",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o128".into())],desc:"--o128",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o129",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o129".into())],desc:"--o129 <O129>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o130",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o130".into())],desc:"--o130",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o131",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o131".into())],desc:"--o131 <O131>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o132",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o132".into())],desc:"--o132",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o133",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o133".into())],desc:"--o133 <O133>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o134",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o134".into())],desc:"--o134",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o135",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o135".into())],desc:"--o135 <O135>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o136",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o136".into())],desc:"--o136",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o137",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o137".into())],desc:"--o137 <O137>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o138",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o138".into())],desc:"--o138",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o139",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o139".into())],desc:"--o139 <O139>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o140",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o140".into())],desc:"--o140",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o141",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o141".into())],desc:"--o141 <O141>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o142",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o142".into())],desc:"--o142",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o143",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o143".into())],desc:"--o143 <O143>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o144",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o144".into())],desc:"--o144",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o145",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o145".into())],desc:"--o145 <O145>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o146",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o146".into())],desc:"--o146",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o147",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o147".into())],desc:"--o147 <O147>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o148",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o148".into())],desc:"--o148",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o149",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o149".into())],desc:"--o149 <O149>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o150",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o150".into())],desc:"--o150",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o151",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o151".into())],desc:"--o151 <O151>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o152",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o152".into())],desc:"--o152",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o153",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o153".into())],desc:"--o153 <O153>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o154",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o154".into())],desc:"--o154",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o155",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o155".into())],desc:"--o155 <O155>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o156",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o156".into())],desc:"--o156",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o157",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o157".into())],desc:"--o157 <O157>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o158",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o158".into())],desc:"--o158",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o159",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o159".into())],desc:"--o159 <O159>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o160",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o160".into())],desc:"--o160",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o161",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o161".into())],desc:"--o161 <O161>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o162",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o162".into())],desc:"--o162",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o163",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o163".into())],desc:"--o163 <O163>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o164",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o164".into())],desc:"--o164",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o165",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o165".into())],desc:"--o165 <O165>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o166",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o166".into())],desc:"--o166",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o167",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o167".into())],desc:"--o167 <O167>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o168",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o168".into())],desc:"--o168",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o169",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o169".into())],desc:"--o169 <O169>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o170",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o170".into())],desc:"--o170",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o171",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o171".into())],desc:"--o171 <O171>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o172",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o172".into())],desc:"--o172",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o173",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o173".into())],desc:"--o173 <O173>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o174",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o174".into())],desc:"--o174",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o175",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o175".into())],desc:"--o175 <O175>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o176",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o176".into())],desc:"--o176",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o177",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o177".into())],desc:"--o177 <O177>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o178",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o178".into())],desc:"--o178",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o179",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o179".into())],desc:"--o179 <O179>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o180",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o180".into())],desc:"--o180",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o181",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o181".into())],desc:"--o181 <O181>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o182",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o182".into())],desc:"--o182",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o183",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o183".into())],desc:"--o183 <O183>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o184",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o184".into())],desc:"--o184",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o185",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o185".into())],desc:"--o185 <O185>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o186",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o186".into())],desc:"--o186",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o187",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o187".into())],desc:"--o187 <O187>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o188",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o188".into())],desc:"--o188",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o189",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o189".into())],desc:"--o189 <O189>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o190",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o190".into())],desc:"--o190",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o191",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o191".into())],desc:"--o191 <O191>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o192",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o192".into())],desc:"--o192",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o193",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o193".into())],desc:"--o193 <O193>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o194",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o194".into())],desc:"--o194",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o195",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o195".into())],desc:"--o195 <O195>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o196",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o196".into())],desc:"--o196",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o197",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o197".into())],desc:"--o197 <O197>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o198",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o198".into())],desc:"--o198",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o199",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o199".into())],desc:"--o199 <O199>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o200",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o200".into())],desc:"--o200",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o201",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o201".into())],desc:"--o201 <O201>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o202",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o202".into())],desc:"--o202",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o203",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o203".into())],desc:"--o203 <O203>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o204",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o204".into())],desc:"--o204",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o205",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o205".into())],desc:"--o205 <O205>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o206",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o206".into())],desc:"--o206",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o207",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o207".into())],desc:"--o207 <O207>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o208",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o208".into())],desc:"--o208",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o209",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o209".into())],desc:"--o209 <O209>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o210",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o210".into())],desc:"--o210",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o211",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o211".into())],desc:"--o211 <O211>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o212",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o212".into())],desc:"--o212",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o213",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o213".into())],desc:"--o213 <O213>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o214",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o214".into())],desc:"--o214",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o215",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o215".into())],desc:"--o215 <O215>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o216",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o216".into())],desc:"--o216",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o217",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o217".into())],desc:"--o217 <O217>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o218",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o218".into())],desc:"--o218",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o219",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o219".into())],desc:"--o219 <O219>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o220",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o220".into())],desc:"--o220",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o221",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o221".into())],desc:"--o221 <O221>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o222",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o222".into())],desc:"--o222",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o223",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o223".into())],desc:"--o223 <O223>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o224",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o224".into())],desc:"--o224",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o225",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o225".into())],desc:"--o225 <O225>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o226",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o226".into())],desc:"--o226",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o227",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o227".into())],desc:"--o227 <O227>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o228",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o228".into())],desc:"--o228",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o229",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o229".into())],desc:"--o229 <O229>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o230",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o230".into())],desc:"--o230",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o231",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o231".into())],desc:"--o231 <O231>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o232",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o232".into())],desc:"--o232",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o233",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o233".into())],desc:"--o233 <O233>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o234",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o234".into())],desc:"--o234",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o235",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o235".into())],desc:"--o235 <O235>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o236",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o236".into())],desc:"--o236",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o237",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o237".into())],desc:"--o237 <O237>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o238",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o238".into())],desc:"--o238",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o239",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o239".into())],desc:"--o239 <O239>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o240",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o240".into())],desc:"--o240",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o241",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o241".into())],desc:"--o241 <O241>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o242",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o242".into())],desc:"--o242",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o243",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o243".into())],desc:"--o243 <O243>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o244",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o244".into())],desc:"--o244",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o245",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o245".into())],desc:"--o245 <O245>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o246",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o246".into())],desc:"--o246",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o247",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o247".into())],desc:"--o247 <O247>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o248",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--o248".into())],desc:"--o248",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o249",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--o249".into())],desc:"--o249 <O249>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p2",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P2]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p3",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[P3]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d55() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p2",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P2]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p3",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P3]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p4",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P4]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p5",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P5]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p6",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P6]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p7",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P7]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p8",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P8]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p9",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P9]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p10",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P10]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p11",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P11]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d56() -> CmdD { CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p2",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P2]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p3",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P3]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p4",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P4]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p5",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P5]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p6",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P6]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p7",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P7]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p8",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P8]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p9",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P9]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p10",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P10]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p11",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P11]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p12",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P12]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p13",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P13]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p14",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P14]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p15",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P15]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p16",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P16]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p17",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P17]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p18",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P18]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p19",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P19]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p20",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P20]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p21",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P21]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p22",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P22]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p23",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P23]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p24",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P24]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p25",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P25]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p26",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P26]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p27",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P27]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p28",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P28]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p29",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P29]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p30",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P30]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p31",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P31]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p32",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P32]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p33",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P33]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p34",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P34]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p35",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P35]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p36",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P36]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p37",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P37]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p38",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P38]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p39",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P39]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p40",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P40]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p41",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P41]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p42",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P42]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p43",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P43]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p44",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P44]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p45",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P45]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p46",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P46]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p47",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P47]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p48",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P48]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p49",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P49]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p50",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P50]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p51",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P51]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p52",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P52]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p53",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P53]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p54",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P54]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p55",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P55]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p56",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P56]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p57",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P57]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p58",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P58]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p59",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P59]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p60",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P60]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p61",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P61]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p62",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P62]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p63",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P63]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p64",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P64]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p65",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P65]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p66",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P66]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p67",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P67]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p68",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P68]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p69",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P69]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p70",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P70]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p71",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P71]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p72",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P72]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p73",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P73]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p74",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P74]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p75",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P75]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p76",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P76]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p77",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P77]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p78",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P78]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p79",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P79]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p80",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P80]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p81",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P81]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p82",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P82]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p83",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P83]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p84",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P84]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p85",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P85]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p86",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P86]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p87",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P87]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p88",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P88]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p89",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P89]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p90",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P90]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p91",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P91]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p92",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P92]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p93",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P93]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p94",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P94]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p95",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P95]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p96",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P96]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p97",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P97]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p98",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P98]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p99",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P99]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p100",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P100]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p101",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P101]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p102",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P102]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p103",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P103]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p104",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P104]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p105",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P105]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p106",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P106]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p107",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P107]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p108",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P108]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p109",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P109]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p110",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P110]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p111",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P111]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p112",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P112]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p113",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P113]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p114",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P114]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p115",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P115]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p116",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P116]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p117",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P117]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p118",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P118]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p119",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P119]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p120",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P120]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p121",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P121]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p122",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P122]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p123",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P123]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p124",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P124]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p125",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P125]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p126",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P126]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p127",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P127]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p128",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P128]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p129",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P129]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p130",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P130]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p131",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P131]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p132",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P132]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p133",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P133]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p134",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P134]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p135",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P135]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p136",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P136]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p137",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P137]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p138",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P138]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p139",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P139]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p140",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P140]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p141",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P141]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p142",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P142]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p143",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P143]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p144",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P144]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p145",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P145]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p146",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P146]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p147",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P147]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p148",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P148]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p149",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P149]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p150",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P150]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p151",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P151]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p152",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P152]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p153",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P153]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p154",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P154]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p155",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P155]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p156",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P156]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p157",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P157]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p158",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P158]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p159",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P159]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p160",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P160]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p161",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P161]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p162",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P162]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p163",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P163]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p164",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P164]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p165",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P165]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p166",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P166]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p167",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P167]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p168",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P168]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p169",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P169]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p170",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P170]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p171",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P171]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p172",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P172]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p173",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P173]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p174",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P174]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p175",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P175]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p176",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P176]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p177",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P177]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p178",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P178]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p179",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P179]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p180",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P180]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p181",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P181]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p182",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P182]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p183",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P183]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p184",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P184]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p185",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P185]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p186",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P186]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p187",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P187]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p188",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P188]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p189",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P189]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p190",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P190]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p191",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P191]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p192",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P192]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p193",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P193]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p194",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P194]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p195",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P195]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p196",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P196]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p197",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P197]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p198",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P198]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p199",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P199]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p200",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P200]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p201",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P201]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p202",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P202]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p203",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P203]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p204",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P204]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p205",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P205]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p206",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P206]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p207",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P207]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p208",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P208]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p209",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P209]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p210",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P210]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p211",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P211]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p212",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P212]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p213",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P213]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p214",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P214]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p215",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P215]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p216",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P216]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p217",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P217]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p218",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P218]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p219",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P219]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p220",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P220]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p221",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P221]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p222",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P222]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p223",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P223]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p224",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P224]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p225",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P225]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p226",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P226]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p227",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P227]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p228",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P228]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p229",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P229]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p230",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P230]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p231",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P231]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p232",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P232]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p233",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P233]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p234",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P234]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p235",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P235]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p236",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P236]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p237",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P237]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p238",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P238]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p239",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P239]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p240",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P240]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p241",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P241]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p242",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P242]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p243",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P243]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p244",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P244]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p245",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P245]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p246",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P246]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p247",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P247]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p248",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P248]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p249",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P249]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p250",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P250]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p251",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P251]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p252",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P252]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p253",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P253]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d57() -> CmdD { CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p2",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P2]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p3",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P3]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p4",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P4]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p5",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P5]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p6",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P6]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p7",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P7]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p8",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P8]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p9",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P9]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p10",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P10]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p11",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P11]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p12",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P12]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p13",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P13]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p14",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P14]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p15",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P15]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p16",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P16]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p17",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P17]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p18",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P18]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p19",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P19]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p20",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P20]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p21",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P21]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p22",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P22]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p23",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P23]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p24",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P24]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p25",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P25]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p26",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P26]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p27",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P27]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p28",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P28]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p29",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P29]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p30",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P30]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p31",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P31]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p32",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P32]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p33",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P33]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p34",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P34]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p35",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P35]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p36",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P36]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p37",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P37]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p38",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P38]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p39",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P39]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p40",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P40]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p41",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P41]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p42",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P42]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p43",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P43]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p44",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P44]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p45",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P45]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p46",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P46]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p47",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P47]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p48",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P48]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p49",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P49]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p50",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P50]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p51",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P51]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p52",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P52]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p53",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P53]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p54",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P54]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p55",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P55]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p56",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P56]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p57",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P57]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p58",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P58]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p59",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P59]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p60",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P60]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p61",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P61]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p62",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P62]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p63",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P63]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p64",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P64]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p65",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P65]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p66",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P66]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p67",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P67]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p68",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P68]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p69",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P69]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p70",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P70]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p71",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P71]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p72",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P72]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p73",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P73]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p74",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P74]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p75",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P75]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p76",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P76]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p77",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P77]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p78",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P78]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p79",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P79]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p80",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P80]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p81",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P81]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p82",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P82]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p83",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P83]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p84",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P84]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p85",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P85]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p86",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P86]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p87",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P87]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p88",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P88]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p89",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P89]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p90",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P90]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p91",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P91]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p92",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P92]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p93",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P93]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p94",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P94]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p95",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P95]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p96",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P96]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p97",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P97]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p98",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P98]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p99",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P99]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p100",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P100]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p101",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P101]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p102",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P102]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p103",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P103]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p104",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P104]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p105",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P105]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p106",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P106]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p107",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P107]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p108",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P108]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p109",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P109]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p110",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P110]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p111",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P111]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p112",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P112]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p113",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P113]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p114",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P114]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p115",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P115]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p116",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P116]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p117",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P117]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p118",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P118]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p119",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P119]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p120",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P120]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p121",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P121]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p122",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P122]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p123",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P123]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p124",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P124]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p125",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P125]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p126",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P126]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p127",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P127]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p128",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P128]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p129",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P129]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p130",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P130]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p131",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P131]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p132",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P132]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p133",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P133]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p134",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P134]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p135",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P135]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p136",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P136]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p137",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P137]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p138",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P138]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p139",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P139]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p140",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P140]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p141",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P141]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p142",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P142]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p143",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P143]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p144",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P144]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p145",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P145]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p146",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P146]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p147",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P147]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p148",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P148]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p149",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P149]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p150",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P150]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p151",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P151]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p152",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P152]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p153",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P153]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p154",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P154]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p155",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P155]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p156",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P156]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p157",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P157]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p158",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P158]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p159",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P159]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p160",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P160]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p161",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P161]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p162",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P162]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p163",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P163]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p164",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P164]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p165",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P165]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p166",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P166]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p167",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P167]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p168",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P168]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p169",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P169]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p170",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P170]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p171",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P171]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p172",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P172]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p173",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P173]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p174",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P174]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p175",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P175]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p176",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P176]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p177",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P177]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p178",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P178]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p179",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P179]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p180",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P180]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p181",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P181]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p182",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P182]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p183",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P183]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p184",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P184]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p185",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P185]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p186",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P186]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p187",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P187]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p188",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P188]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p189",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P189]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p190",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P190]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p191",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P191]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p192",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P192]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p193",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P193]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p194",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P194]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p195",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P195]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p196",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P196]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p197",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P197]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p198",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P198]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p199",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P199]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p200",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P200]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p201",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P201]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p202",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P202]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p203",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P203]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p204",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P204]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p205",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P205]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p206",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P206]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p207",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P207]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p208",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P208]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p209",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P209]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p210",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P210]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p211",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P211]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p212",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P212]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p213",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P213]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p214",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P214]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p215",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P215]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p216",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P216]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p217",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P217]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p218",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P218]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p219",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P219]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p220",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P220]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p221",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P221]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p222",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P222]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p223",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P223]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p224",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P224]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p225",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P225]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p226",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P226]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p227",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P227]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p228",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P228]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p229",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P229]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p230",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P230]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p231",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P231]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p232",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P232]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p233",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P233]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p234",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P234]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p235",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P235]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p236",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P236]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p237",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P237]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p238",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P238]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p239",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P239]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p240",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P240]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p241",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P241]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p242",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P242]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p243",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P243]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p244",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P244]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p245",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P245]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p246",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P246]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p247",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P247]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p248",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P248]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p249",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P249]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p250",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P250]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p251",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P251]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p252",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P252]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"tl",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[TL]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d58() -> CmdD { CmdD{args:vec![ArgD{field:"host",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--host".into()), Name::Short('h')],desc:"-h, --host <HOST>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d59() -> CmdD { CmdD{args:vec![ArgD{field:"help",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--help".into())],desc:"--help",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"req",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<REQ>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d60() -> CmdD { CmdD{args:vec![ArgD{field:"help",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--help".into()), Name::Short('h')],desc:"-h, --help[=<HELP>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d61() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--v".into()), Name::Short('v')],desc:"-v, --v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("g", CmdD{args:vec![ArgD{field:"cfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--cfg".into()), Name::Short('c')],desc:"-c, --cfg <CFG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Config file."}, ArgD{field:"g1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('g')],desc:"-g",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""} }
fn d62() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('o')],desc:"-o <O>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("ga", CmdD{args:vec![ArgD{field:"cfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--cfg".into()), Name::Short('c')],desc:"-c, --cfg <CFG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Config file."}, ArgD{field:"g1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('g')],desc:"-g",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}), ("gb", CmdD{args:vec![ArgD{field:"lvl",kind:Kind::Value,ty:Ty::U8,names:vec![Name::Long("--lvl".into()), Name::Short('l')],desc:"-l, --lvl <LVL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("1"),shown:Some("1"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"tags",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--tag".into()), Name::Short('t')],desc:"-t, --tag <TAGS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["quiet"],hide:false,doc:""}, ArgD{field:"quiet",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--quiet".into()), Name::Short('q')],desc:"-q, --quiet",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""} }
fn d63() -> CmdD { CmdD{args:vec![ArgD{field:"x",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[X]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"o",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('o')],desc:"-o <O>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("ga", CmdD{args:vec![ArgD{field:"lvl",kind:Kind::Value,ty:Ty::U8,names:vec![Name::Long("--lvl".into()), Name::Short('l')],desc:"-l, --lvl <LVL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("1"),shown:Some("1"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"tags",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--tag".into()), Name::Short('t')],desc:"-t, --tag <TAGS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["quiet"],hide:false,doc:""}, ArgD{field:"quiet",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--quiet".into()), Name::Short('q')],desc:"-q, --quiet",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}), ("gb", CmdD{args:vec![ArgD{field:"need",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--need".into()), Name::Short('n')],desc:"-n, --need <NEED>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"deps",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--deps".into())],desc:"--deps <DEPS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["dep2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"dep2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}), ("gc", CmdD{args:vec![ArgD{field:"inner",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--inner".into()), Name::Short('i')],desc:"-i, --inner <INNER>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("g1", CmdD{args:vec![ArgD{field:"cfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--cfg".into()), Name::Short('c')],desc:"-c, --cfg <CFG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Config file."}, ArgD{field:"g1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('g')],desc:"-g",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""})],sub:None,about:"",after:""} }
fn d64() -> CmdD { CmdD{args:vec![],flats:vec![("ga", CmdD{args:vec![ArgD{field:"need",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--need".into()), Name::Short('n')],desc:"-n, --need <NEED>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"deps",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--deps".into())],desc:"--deps <DEPS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["dep2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"dep2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""} }
fn d65() -> CmdD { CmdD{args:vec![ArgD{field:"z",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('z')],desc:"-z",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("n", CmdD{args:vec![ArgD{field:"inner",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--inner".into()), Name::Short('i')],desc:"-i, --inner <INNER>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("g1", CmdD{args:vec![ArgD{field:"cfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--cfg".into()), Name::Short('c')],desc:"-c, --cfg <CFG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Config file."}, ArgD{field:"g1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('g')],desc:"-g",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""}), ("m", CmdD{args:vec![ArgD{field:"lvl",kind:Kind::Value,ty:Ty::U8,names:vec![Name::Long("--lvl".into()), Name::Short('l')],desc:"-l, --lvl <LVL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("1"),shown:Some("1"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"tags",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--tag".into()), Name::Short('t')],desc:"-t, --tag <TAGS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["quiet"],hide:false,doc:""}, ArgD{field:"quiet",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--quiet".into()), Name::Short('q')],desc:"-q, --quiet",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""} }
fn d66() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"cmd",optional:false,variants:vec![VarD{ident:"Run",name:"run",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"fast",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--fast".into()), Name::Short('f')],desc:"-f, --fast",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"target",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[TARGET]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"Run it.",after:""}}, VarD{ident:"Add",name:"add",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"files",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[FILES]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"msg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--msg".into()), Name::Short('m')],desc:"-m, --msg <MSG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"Add files.\nSecond paragraph continued.",after:"after add"}}, VarD{ident:"ListAll",name:"list-all",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"List all.",after:""}}, VarD{ident:"Ad",name:"ad",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"Top.",after:""} }
fn d67() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"name",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--name".into()), Name::Short('n')],desc:"-n, --name <NAME>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"cmd",optional:true,variants:vec![VarD{ident:"Run",name:"run",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"fast",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--fast".into()), Name::Short('f')],desc:"-f, --fast",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"target",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[TARGET]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Stop",name:"stop",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d68() -> CmdD { CmdD{args:vec![ArgD{field:"file",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[FILE]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"more",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[MORE]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"cmd",optional:true,variants:vec![VarD{ident:"Run",name:"run",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"R",name:"r",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"x",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[X]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d69() -> CmdD { CmdD{args:vec![ArgD{field:"files",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[FILES]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"cmd",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"w",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[W]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Empty",name:"empty",shape:Shape::New,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d70() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"t",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[T]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"cmd",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Exec",name:"exec",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"argv",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[ARGV]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('e')],desc:"-e",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d71() -> CmdD { CmdD{args:vec![ArgD{field:"l",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[L]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"x",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('x')],desc:"-x <X>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"cmd",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"l",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[L]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"G",name:"g",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d72() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"conf",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--conf".into()), Name::Short('c')],desc:"-c, --conf <CONF>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"dup",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--dup".into())],desc:"--dup <DUP>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"privy",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--private".into()), Name::Short('p')],desc:"-p, --private",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"many",kind:Kind::Vec,ty:Ty::U8,names:vec![Name::Long("--many".into()), Name::Short('M')],desc:"-M, --many <MANY>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"c1",optional:false,variants:vec![VarD{ident:"Mid",name:"mid",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"mid",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--mid".into()), Name::Short('m')],desc:"-m, --mid <MID>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"loc",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--loc".into()), Name::Short('L')],desc:"-L, --loc",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"dup",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--dup".into()), Name::Short('D')],desc:"-D, --dup",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"c2",optional:true,variants:vec![VarD{ident:"Leaf",name:"leaf",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"leaf",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--leaf".into()), Name::Short('l')],desc:"-l, --leaf <LEAF>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"v",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('v')],desc:"-v <V>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"w",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[W]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Unit",name:"unit",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"Plain",name:"plain",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Own",name:"own",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"conf",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--conf".into())],desc:"--conf",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d73() -> CmdD { CmdD{args:vec![ArgD{field:"req",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--req".into()), Name::Short('r')],desc:"-r, --req <REQ>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"def",kind:Kind::Value,ty:Ty::U8,names:vec![Name::Short('d')],desc:"-d <DEF>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("3"),shown:Some("3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("g", CmdD{args:vec![ArgD{field:"gcfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--gcfg".into()), Name::Short('g')],desc:"-g, --gcfg <GCFG>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"gloc",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--gloc".into())],desc:"--gloc",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"gv",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('V')],desc:"-V <GV>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"c",optional:true,variants:vec![VarD{ident:"A",name:"a",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"loc",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--gloc".into())],desc:"--gloc",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("h", CmdD{args:vec![ArgD{field:"cfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--cfg".into()), Name::Short('c')],desc:"-c, --cfg <CFG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Config file."}, ArgD{field:"g1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('g')],desc:"-g",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""}}, VarD{ident:"B",name:"b",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d74() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"r",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('r')],desc:"-r",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"c",optional:true,variants:vec![VarD{ident:"S",name:"s",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"q",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Short('q')],desc:"-q <Q>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"T",name:"t",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d75() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"s",optional:false,variants:vec![VarD{ident:"Two",name:"two",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"s",optional:false,variants:vec![VarD{ident:"Three",name:"three",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('c')],desc:"-c",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"s",optional:true,variants:vec![VarD{ident:"Four",name:"four",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"d",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[D]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"Two",name:"two",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"One",name:"one",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d76() -> CmdD { CmdD{args:vec![],flats:vec![],sub:Some(SubD{field:"c",optional:false,variants:vec![VarD{ident:"A",name:"a",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Ab",name:"ab",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"AbC",name:"ab-c",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Abc",name:"abc",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"B",name:"b",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Zed",name:"zed",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"FooBarBaz",name:"foo-bar-baz",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Foo",name:"foo",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"FooBar",name:"foo-bar",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"X1",name:"x1",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"C",name:"c",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"D",name:"d",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"E",name:"e",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Test",name:"test",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Tes",name:"tes",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d77() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"c",optional:true,variants:vec![VarD{ident:"CmdAa",name:"cmd-aa",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdLb",name:"cmd-lb",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdWc",name:"cmd-wc",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdHd",name:"cmd-hd",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdSe",name:"cmd-se",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdDf",name:"cmd-df",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdOg",name:"cmd-og",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdZh",name:"cmd-zh",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdKi",name:"cmd-ki",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdVj",name:"cmd-vj",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdGk",name:"cmd-gk",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdRl",name:"cmd-rl",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdCm",name:"cmd-cm",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdNn",name:"cmd-nn",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdYo",name:"cmd-yo",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdJp",name:"cmd-jp",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdUq",name:"cmd-uq",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdFr",name:"cmd-fr",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdQs",name:"cmd-qs",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdBt",name:"cmd-bt",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdMu",name:"cmd-mu",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdXv",name:"cmd-xv",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdIw",name:"cmd-iw",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdTx",name:"cmd-tx",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdEy",name:"cmd-ey",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"CmdPz",name:"cmd-pz",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d78() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"c",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"y",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('y')],desc:"-y",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d79() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"c",optional:true,variants:vec![]}),about:"",after:""} }
fn d80() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("g", CmdD{args:vec![ArgD{field:"cfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--cfg".into()), Name::Short('c')],desc:"-c, --cfg <CFG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Config file."}, ArgD{field:"g1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('g')],desc:"-g",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}), ("k", CmdD{args:vec![ArgD{field:"lvl",kind:Kind::Value,ty:Ty::U8,names:vec![Name::Long("--lvl".into()), Name::Short('l')],desc:"-l, --lvl <LVL>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("1"),shown:Some("1"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"tags",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--tag".into()), Name::Short('t')],desc:"-t, --tag <TAGS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["quiet"],hide:false,doc:""}, ArgD{field:"quiet",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--quiet".into()), Name::Short('q')],desc:"-q, --quiet",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"c",optional:false,variants:vec![VarD{ident:"One",name:"one",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("g", CmdD{args:vec![ArgD{field:"need",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--need".into()), Name::Short('n')],desc:"-n, --need <NEED>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"deps",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--deps".into())],desc:"--deps <DEPS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["dep2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"dep2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""}}, VarD{ident:"Two",name:"two",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"c",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("z", CmdD{args:vec![ArgD{field:"inner",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--inner".into()), Name::Short('i')],desc:"-i, --inner <INNER>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("g1", CmdD{args:vec![ArgD{field:"cfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--cfg".into()), Name::Short('c')],desc:"-c, --cfg <CFG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Config file."}, ArgD{field:"g1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('g')],desc:"-g",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""})],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d81() -> CmdD { CmdD{args:vec![ArgD{field:"help",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--help".into()), Name::Short('h')],desc:"-h, --help",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"c",optional:true,variants:vec![VarD{ident:"In",name:"in",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"x",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Own",name:"own",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"help",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--help".into())],desc:"--help <HELP>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d82() -> CmdD { CmdD{args:vec![ArgD{field:"alpha",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--alpha".into()), Name::Short('a')],desc:"-a, --alpha <ALPHA>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Alpha doc.\nMore alpha."}, ArgD{field:"hid",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--hidden".into())],desc:"--hidden",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"beta",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <BE-TA>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Beta."}, ArgD{field:"out",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<OUT FILE>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Output."}, ArgD{field:"hp",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[HP]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"rest",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[REST]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Rest."}],flats:vec![("g", CmdD{args:vec![ArgD{field:"cfg",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--cfg".into()), Name::Short('c')],desc:"-c, --cfg <CFG>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Config file."}, ArgD{field:"g1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('g')],desc:"-g",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"About text.\nDetails.",after:"Trailer."} }
fn d83() -> CmdD { CmdD{args:vec![ArgD{field:"kind",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--type".into())],desc:"--type <KIND>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"in_",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--in".into()), Name::Short('i')],desc:"-i, --in",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d84() -> CmdD { CmdD{args:vec![ArgD{field:"type",kind:Kind::Opt,ty:Ty::Enum(RawV_NAMES),names:vec![Name::Long("--type".into()), Name::Short('t')],desc:"-t, --type <TYPE>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["loop"],hide:false,doc:""}, ArgD{field:"loop",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--loop".into())],desc:"--loop",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"as",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[AS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"use",optional:true,variants:vec![VarD{ident:"r#move",name:"move",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"r#fn",name:"fn",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"in",kind:Kind::Vec,ty:Ty::Enum(RawV_NAMES),names:vec![Name::Short('i')],desc:"-i <IN>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"for",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<FOR>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d85() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--ab".into())],desc:"--ab <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a-b".into())],desc:"--a-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a_b".into())],desc:"--a_b <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--aB".into())],desc:"--aB",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--AB".into())],desc:"--AB <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f5",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--Ab".into())],desc:"--Ab",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f6",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a.b".into())],desc:"--a.b <F6>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f7",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a".into())],desc:"--a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f8",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--A".into())],desc:"--A <F8>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f9",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a1".into())],desc:"--a1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f10",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a10".into())],desc:"--a10 <F10>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f11",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a2".into())],desc:"--a2",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f12",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--é".into())],desc:"--é <F12>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f13",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--e".into())],desc:"--e",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f14",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--f".into())],desc:"--f <F14>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f15",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--zz".into())],desc:"--zz",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f16",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--ZZ".into())],desc:"--ZZ <F16>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f17",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--_".into())],desc:"--_",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f18",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--b".into())],desc:"--b <F18>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f19",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--ba".into())],desc:"--ba",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f20",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--b-".into())],desc:"--b- <F20>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f21",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--b-a".into())],desc:"--b-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f22",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--B".into())],desc:"--B <F22>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f23",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--文".into())],desc:"--文",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f24",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--ｚ".into())],desc:"--ｚ <F24>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f25",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--😀".into())],desc:"--😀",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f26",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--~".into())],desc:"--~ <F26>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d86() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--~".into()), Name::Short('z')],desc:"-z, --~ <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--😀".into()), Name::Short('y')],desc:"-y, --😀",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--ｚ".into()), Name::Short('x')],desc:"-x, --ｚ <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--文".into()), Name::Short('w')],desc:"-w, --文",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--B".into()), Name::Short('v')],desc:"-v, --B <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f5",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--b-a".into()), Name::Short('u')],desc:"-u, --b-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f6",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--b-".into()), Name::Short('t')],desc:"-t, --b- <F6>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f7",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--ba".into()), Name::Short('s')],desc:"-s, --ba",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f8",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--b".into()), Name::Short('r')],desc:"-r, --b <F8>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f9",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--_".into()), Name::Short('q')],desc:"-q, --_",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f10",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--ZZ".into()), Name::Short('Z')],desc:"-Z, --ZZ <F10>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f11",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--zz".into()), Name::Short('Y')],desc:"-Y, --zz",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f12",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--f".into()), Name::Short('X')],desc:"-X, --f <F12>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f13",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--e".into()), Name::Short('W')],desc:"-W, --e",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f14",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--é".into()), Name::Short('V')],desc:"-V, --é <F14>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f15",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a2".into()), Name::Short('U')],desc:"-U, --a2",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f16",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a10".into()), Name::Short('T')],desc:"-T, --a10 <F16>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f17",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a1".into()), Name::Short('S')],desc:"-S, --a1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f18",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--A".into()), Name::Short('R')],desc:"-R, --A <F18>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f19",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a".into()), Name::Short('Q')],desc:"-Q, --a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f20",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a.b".into()), Name::Short('9')],desc:"-9, --a.b <F20>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f21",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--Ab".into()), Name::Short('8')],desc:"-8, --Ab",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f22",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--AB".into()), Name::Short('7')],desc:"-7, --AB <F22>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f23",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--aB".into()), Name::Short('6')],desc:"-6, --aB",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f24",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a_b".into()), Name::Short('5')],desc:"-5, --a_b <F24>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f25",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a-b".into()), Name::Short('4')],desc:"-4, --a-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f26",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--ab".into()), Name::Short('3')],desc:"-3, --ab <F26>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d87() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--ab".into()), Name::Long("--Ab".into()), Name::Long("--a10".into()), Name::Long("--zz".into()), Name::Long("--b-".into()), Name::Long("--😀".into()), Name::Long("--l0".into()), Name::Short('q'), Name::Short('A'), Name::Short('0')],desc:"--l0 <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--a-b".into()), Name::Long("--a.b".into()), Name::Long("--a2".into()), Name::Long("--ZZ".into()), Name::Long("--b-a".into()), Name::Long("--~".into()), Name::Long("--l1".into()), Name::Short('Q'), Name::Short('z')],desc:"--l1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--a_b".into()), Name::Long("--a".into()), Name::Long("--é".into()), Name::Long("--_".into()), Name::Long("--B".into()), Name::Long("--l2".into()), Name::Short('p'), Name::Short('Z')],desc:"--l2 <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--aB".into()), Name::Long("--A".into()), Name::Long("--e".into()), Name::Long("--b".into()), Name::Long("--文".into()), Name::Long("--l3".into()), Name::Short('P'), Name::Short('é')],desc:"--l3",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--AB".into()), Name::Long("--a1".into()), Name::Long("--f".into()), Name::Long("--ba".into()), Name::Long("--ｚ".into()), Name::Long("--l4".into()), Name::Short('a'), Name::Short('文')],desc:"--l4 <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d88() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('a')],desc:"-a <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('A')],desc:"-A",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('B')],desc:"-B <F3>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('z')],desc:"-z",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f5",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('Z')],desc:"-Z",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f6",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('0')],desc:"-0 <F6>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f7",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('1')],desc:"-1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f8",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('9')],desc:"-9",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f9",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('.')],desc:"-. <F9>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f10",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short(',')],desc:"-,",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f11",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('+')],desc:"-+",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f12",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('/')],desc:"-/ <F12>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f13",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short(':')],desc:"-:",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f14",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('@')],desc:"-@",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f15",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('_')],desc:"-_ <F15>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f16",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('~')],desc:"-~",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f17",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('é')],desc:"-é",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f18",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('ß')],desc:"-ß <F18>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f19",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('δ')],desc:"-δ",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f20",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('Δ')],desc:"-Δ",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f21",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('文')],desc:"-文 <F21>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f22",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('字')],desc:"-字",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f23",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('😀')],desc:"-😀",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d89() -> CmdD { CmdD{args:vec![],flats:vec![],sub:Some(SubD{field:"c",optional:false,variants:vec![VarD{ident:"IOTest",name:"io-test",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Ice",name:"ice",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Zap",name:"zap",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"ABTest",name:"ab-test",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Abc",name:"abc",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Ab",name:"ab",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"XMLHttp",name:"xml-http",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Xm",name:"xm",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"XmlA",name:"xml-a",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Xmla",name:"xmla",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"HTTPServer",name:"http-server",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Http",name:"http",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Été",name:"été",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Ete",name:"ete",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"A_B",name:"a-b",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"AC",name:"ac",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d90() -> CmdD { CmdD{args:vec![ArgD{field:"v",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"c",optional:true,variants:vec![VarD{ident:"AC",name:"ac",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"A_B",name:"a-b",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Ete",name:"ete",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Été",name:"été",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Http",name:"http",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"HTTPServer",name:"http-server",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Xmla",name:"xmla",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"XmlA",name:"xml-a",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Xm",name:"xm",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"XMLHttp",name:"xml-http",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Ab",name:"ab",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Abc",name:"abc",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"ABTest",name:"ab-test",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Zap",name:"zap",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Ice",name:"ice",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"IOTest",name:"io-test",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"n",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n <N>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d91() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Vec,ty:Ty::Enum(OddV_NAMES),names:vec![Name::Short('a')],desc:"-a <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Enum(Nest_NAMES),names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Enum(OddV_NAMES),names:vec![],desc:"[C]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some('|'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d92() -> CmdD { CmdD{args:vec![ArgD{field:"o",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx".into()), Name::Short('o')],desc:"-o, --xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx <O>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"Long one."}],flats:vec![],sub:Some(SubD{field:"c",optional:true,variants:vec![VarD{ident:"G",name:"g",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"Go.",after:""}}, VarD{ident:"Mid",name:"mid",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:"P."}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"AVeryLongSubcommandNameThatIsHardlyEverTyped",name:"a-very-long-subcommand-name-that-is-hardly-ever-typed",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"Long.\nMore.",after:""}}, VarD{ident:"TwentyTwoBytesLongName",name:"twenty-two-bytes-long-name",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"q",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('q')],desc:"-q",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"Not shown for newtypes?",after:""}}, VarD{ident:"K",name:"k",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d93() -> CmdD { CmdD{args:vec![],flats:vec![],sub:Some(SubD{field:"c",optional:false,variants:vec![VarD{ident:"Éé",name:"éé",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"É.",after:""}}, VarD{ident:"AVeryLongSubcommandNameThatIsHardlyEverTyped",name:"a-very-long-subcommand-name-that-is-hardly-ever-typed",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d94() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--key".into()), Name::Short('c')],desc:"-c, --key=<F0>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--no-out".into()), Name::Short('u')],desc:"-u, --no-out <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Long("--output".into()), Name::Short('J')],desc:"-J, --output[=<F2>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Short('0')],desc:"-0 <F3>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--al".into()), Name::Short('s')],desc:"-s, --al <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2","f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('j')],desc:"-j=<F1>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--beta".into()), Name::Long("--x-y".into()), Name::Short('m')],desc:"-m, --x-y=<F2>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3","f1"],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f3",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--alp".into()), Name::Short('a')],desc:"--alp=<F3>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--x1".into()), Name::Short('w')],desc:"-w=<F4>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}), ("fl1", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--xy".into()), Name::Short('v')],desc:"-v <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--alpha".into()), Name::Short('e')],desc:"-e, --alpha <F1>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--Z".into()), Name::Short('G')],desc:"--Z <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--x".into()), Name::Long("--keys".into()), Name::Short('o')],desc:"-o, --keys=<F3>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('l')],desc:"-l",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Gone",name:"gone",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al".into()), Name::Short('w')],desc:"-w, --al",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--Ünï".into())],desc:"--Ünï <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('é')],desc:"-é",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Short('l')],desc:"-l <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--Z".into()), Name::Short('k')],desc:"--Z <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0","f4"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--be".into())],desc:"--be=<F3>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec!["f4"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--x".into()), Name::Long("--x-y".into()), Name::Short('E')],desc:"-E, --x-y=<F4>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:true,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Sta",name:"sta",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short('1')],desc:"-1=<F0>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Short('v')],desc:"-v <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2","f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out".into()), Name::Long("--al".into()), Name::Short('@')],desc:"-@, --al",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"A",name:"a",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Short('o')],desc:"-o <F0>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["va"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--x".into()), Name::Short('B'), Name::Short('E')],desc:"-E, --x=<F1>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["va"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--n".into()), Name::Short('é')],desc:"-é <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"Status",name:"status",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d95() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--no-out".into()), Name::Short('j'), Name::Short('@')],desc:"-@, --no-out <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short('v')],desc:"-v=<F1>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--keys".into()), Name::Short('n')],desc:"-n",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short('a'), Name::Short('2')],desc:"-2 <F3>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--x-y".into()), Name::Short('j'), Name::Short(',')],desc:"-,, --x-y <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--n".into())],desc:"--n <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al".into())],desc:"--al",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["la"],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Gone",name:"gone",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--alpha".into()), Name::Long("--alp".into())],desc:"--alp <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["p1"],conflicts:vec![],hide:true,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--Z".into()), Name::Long("--x".into()), Name::Short('d')],desc:"-d, --x <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2","f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('k')],desc:"-k <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["f0","p0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"A",name:"a",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--keys".into()), Name::Long("--output".into())],desc:"--output <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--be".into())],desc:"--be <F1>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Sta",name:"sta",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d96() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--x".into()), Name::Short('b')],desc:"-b, --x <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Status",name:"status",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--help-me".into()), Name::Long("--keys".into()), Name::Short('J')],desc:"-J, --keys[=<F0>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--x-y".into()), Name::Long("--zeta".into()), Name::Short('j')],desc:"-j, --zeta <F1>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('z')],desc:"-z <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Gone",name:"gone",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out".into()), Name::Long("--beta".into()), Name::Short('文'), Name::Short('2')],desc:"-2, --beta",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Long("--xy".into())],desc:"--xy <F1>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--x1".into()), Name::Short('e')],desc:"-e, --x1 <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec!["f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--keys".into()), Name::Long("--al".into()), Name::Short('n'), Name::Short('y')],desc:"-y, --al <F1>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--bet-a".into()), Name::Long("--be".into()), Name::Short('j')],desc:"-j, --be=<F2>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f1","f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d97() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Long("--alpha".into())],desc:"--alpha[=<F0>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--al".into()), Name::Short('@')],desc:"-@, --al[=<F1>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--x".into()), Name::Long("--key".into()), Name::Short(':')],desc:"-:, --key",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--help-me".into()), Name::Short('c')],desc:"-c, --help-me",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--no-out".into()), Name::Short('n')],desc:"-n, --no-out <F2>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--keys".into()), Name::Short('ß')],desc:"-ß, --keys <F3>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Sta",name:"sta",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"A",name:"a",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--be".into()), Name::Short('w'), Name::Short('E')],desc:"-E, --be <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--help-me".into()), Name::Long("--x-y".into()), Name::Short('I')],desc:"-I, --x-y <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--key".into()), Name::Long("--keys".into())],desc:"--keys=<F2>",eq:true,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short(':'), Name::Short('s')],desc:"-s <F3>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--alpha".into())],desc:"--alpha=<F4>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out".into())],desc:"--out",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--bet-a".into()), Name::Long("--beta".into()), Name::Short('i'), Name::Short('b')],desc:"-b, --beta <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short('文')],desc:"-文=<F2>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("auto"),shown:Some("auto"),exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--al".into()), Name::Long("--zeta".into()), Name::Short('e')],desc:"-e, --zeta <F3>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--no-out".into()), Name::Long("--Z".into())],desc:"--Z=<F4>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}), ("fl1", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--xy".into())],desc:"--xy=<F0>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--x".into()), Name::Long("--x1".into())],desc:"--x1[=<F1>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('C')],desc:"-C <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--n".into())],desc:"--n <F3>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--alp".into())],desc:"--alp <F4>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Sta",name:"sta",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Short('r')],desc:"-r=<F0>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--beta".into()), Name::Short('F')],desc:"-F, --beta <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--Z".into()), Name::Short('k'), Name::Short('r')],desc:"-r, --Z <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--x1".into()), Name::Short('H')],desc:"-H, --x1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0","f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('E'), Name::Short('a')],desc:"-a <F3>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--no-out".into()), Name::Short('o')],desc:"-o <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--beta".into()), Name::Short('D')],desc:"--beta <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"Status",name:"status",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Short('d'), Name::Short('q')],desc:"-q <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--n".into()), Name::Long("--x1".into())],desc:"--x1 <F1>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"A",name:"a",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--x".into()), Name::Long("--be".into()), Name::Short('q')],desc:"-q, --be <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<P0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short('H')],desc:"-H <F1>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("auto"),shown:Some("auto"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--help-me".into()), Name::Short('@')],desc:"-@, --help-me <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--x1".into()), Name::Short('x')],desc:"-x, --x1 <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out".into()), Name::Short('B')],desc:"-B, --out",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--be".into()), Name::Long("--al".into()), Name::Short('2')],desc:"-2, --al <F3>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Sta",name:"sta",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--keys".into())],desc:"--keys",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--al".into()), Name::Long("--key".into()), Name::Short('j')],desc:"--key=<F1>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("pd"),shown:Some("pd"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--bet-a".into()), Name::Long("--out".into()), Name::Short('b')],desc:"-b, --out <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--alp".into()), Name::Short(',')],desc:"-,, --alp[=<F1>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["p1"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--n".into()), Name::Long("--xy".into()), Name::Short(':')],desc:"-:, --xy=<F0>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Short('y'), Name::Short('b')],desc:"-b=<F1>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--x1".into())],desc:"--x1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Short('w')],desc:"-w <F3>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--x-y".into()), Name::Short('@')],desc:"-@ <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}), ("fl1", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--Ünï".into()), Name::Short('r')],desc:"--Ünï=<F0>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--x".into()), Name::Long("--out".into()), Name::Short('J')],desc:"-J, --out[=<F1>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Status",name:"status",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}]}),about:"",after:""} }
fn d98() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('E')],desc:"-E <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out".into()), Name::Short('C'), Name::Short('l')],desc:"-l, --out",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--n".into()), Name::Long("--alpha".into()), Name::Short('t')],desc:"-t, --alpha <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Short('H'), Name::Short('文')],desc:"-文, --x-y=<F3>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Gone",name:"gone",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--beta".into()), Name::Short(',')],desc:"-,, --beta=<F0>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--keys".into())],desc:"--keys <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Sta",name:"sta",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--x-y".into()), Name::Long("--key".into()), Name::Short('z')],desc:"-z, --key=<F0>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("auto"),shown:Some("auto"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--alpha".into()), Name::Short('é'), Name::Short(':')],desc:"-:, --alpha <F1>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f4"],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--no-out".into()), Name::Short('q')],desc:"-q, --no-out <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short('I')],desc:"-I <F3>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<P1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["va"],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Short('i')],desc:"-i=<F4>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d99() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--alp".into()), Name::Short('w')],desc:"-w, --alp=<F0>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f2","f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--out".into()), Name::Short('v')],desc:"--out <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--no-out".into()), Name::Short('2')],desc:"-2 <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--n".into())],desc:"--n <F3>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0","f3"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Gone",name:"gone",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Go",name:"go",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--alp".into()), Name::Short('t'), Name::Short('E')],desc:"-E, --alp <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--alpha".into()), Name::Short('é')],desc:"-é, --alpha <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d100() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('C')],desc:"-C <F0>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("pd"),shown:Some("pd"),exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Status",name:"status",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"A",name:"a",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--output".into()), Name::Long("--beta".into())],desc:"--beta",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('2'), Name::Short('H')],desc:"-H <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--Z".into()), Name::Long("--xy".into()), Name::Short('é')],desc:"-é, --xy <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f1"],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x1".into()), Name::Short('w')],desc:"--x1 <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--zeta".into()), Name::Short('q')],desc:"-q, --zeta[=<F1>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--keys".into()), Name::Long("--al".into())],desc:"--al <F2>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--x".into()), Name::Short(',')],desc:"-,, --x <F3>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["f2","f4"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--key".into()), Name::Long("--be".into()), Name::Short('l')],desc:"-l, --be",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--key".into())],desc:"--key <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--al".into()), Name::Short('t')],desc:"-t, --al <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--alp".into()), Name::Short('2'), Name::Short('p')],desc:"-p, --alp <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}]}),about:"",after:""} }
fn d101() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--Z".into())],desc:"--Z <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<P0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d102() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--alpha".into())],desc:"--alpha",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--beta".into()), Name::Short('9')],desc:"-9, --beta",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--alp".into()), Name::Short('q')],desc:"-q, --alp <F2>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--Z".into()), Name::Short('x')],desc:"-x, --Z=<F3>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("auto"),shown:Some("auto"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--help-me".into()), Name::Short('c')],desc:"-c, --help-me <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec!["p1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Gone",name:"gone",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--keys".into())],desc:"--keys",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('文')],desc:"-文 <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<P0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--Ünï".into()), Name::Long("--bet-a".into()), Name::Short('C')],desc:"-C, --bet-a <F1>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["va","p0"],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Sta",name:"sta",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--x-y".into()), Name::Long("--al".into()), Name::Short('y'), Name::Short('C')],desc:"-C, --al <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--alp".into()), Name::Long("--Ünï".into()), Name::Short('?'), Name::Short('B')],desc:"-B, --Ünï <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["va","f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Short('z')],desc:"-z <F2>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec!["f0","f1"],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--no-out".into()), Name::Short('o')],desc:"-o, --no-out",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f1","p0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"A",name:"a",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--zeta".into())],desc:"--zeta <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Short('e')],desc:"-e=<F1>",eq:true,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--output".into()), Name::Short('I')],desc:"-I, --output <F2>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('2')],desc:"-2",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--al".into()), Name::Short('c'), Name::Short('m')],desc:"-m, --al <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d103() -> CmdD { CmdD{args:vec![ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<P0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short('j')],desc:"-j <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Short('o')],desc:"-o <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0"],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--Z".into()), Name::Short('i'), Name::Short('9')],desc:"-9, --Z <F2>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d104() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--al".into()), Name::Short('H')],desc:"-H, --al <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--xy".into()), Name::Short('E')],desc:"-E, --xy <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("pd"),shown:Some("pd"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Short('J')],desc:"-J, --out <F2>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--keys".into()), Name::Short('B')],desc:"-B, --keys <F3>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("auto"),shown:Some("auto"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--Ünï".into()), Name::Long("--help-me".into())],desc:"--help-me <F4>",eq:false,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f1","f0"],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--alp".into()), Name::Short('n'), Name::Short('g')],desc:"-g=<F0>",eq:true,hy:false,neg:false,glob:true,icase:true,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--x".into()), Name::Short('d')],desc:"-d, --x",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--Z".into()), Name::Long("--alpha".into()), Name::Short(':'), Name::Short('C')],desc:"-C, --alpha <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Status",name:"status",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--n".into()), Name::Long("--alp".into()), Name::Short('s')],desc:"-s, --alp <F0>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f4","va"],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--xy".into()), Name::Short('?')],desc:"-?, --xy <F1>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0"],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--Z".into()), Name::Short('k'), Name::Short('o')],desc:"-o, --Z <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--Ünï".into()), Name::Long("--out".into()), Name::Short('1'), Name::Short('ß')],desc:"-ß, --out <F3>",eq:false,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2","f4"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Short('u')],desc:"-u=<F4>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d105() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--no-out".into())],desc:"--no-out",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--x".into()), Name::Short('r')],desc:"--x <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--al".into()), Name::Short('l')],desc:"-l <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--key".into()), Name::Short('é'), Name::Short('文')],desc:"-文, --key <F1>",eq:false,hy:false,neg:false,glob:true,icase:true,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--beta".into()), Name::Long("--keys".into())],desc:"--keys <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""} }
fn d106() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--Ünï".into())],desc:"--Ünï <F0>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('j')],desc:"-j <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--zeta".into())],desc:"--zeta <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0","f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--n".into()), Name::Long("--out".into())],desc:"--out <F3>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["la"],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--Z".into())],desc:"--Z=<F4>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p1"],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--output".into())],desc:"--output <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('H')],desc:"-H[=<F1>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Short('q')],desc:"-q, --x-y=<F2>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--bet-a".into()), Name::Short('w'), Name::Short('y')],desc:"-y, --bet-a <F3>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--x1".into()), Name::Long("--alpha".into()), Name::Short('B')],desc:"--alpha <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--bet-a".into()), Name::Long("--zeta".into())],desc:"--zeta",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--beta".into()), Name::Long("--keys".into()), Name::Short('t')],desc:"-t, --keys <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--key".into()), Name::Short('k')],desc:"-k <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec!["f4"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al".into()), Name::Long("--Z".into()), Name::Short('c')],desc:"-c, --Z",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('/')],desc:"-/[=<F4>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Sta",name:"sta",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--n".into()), Name::Short('x')],desc:"--n <F0>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--x".into()), Name::Short('j'), Name::Short('w')],desc:"-w, --x",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Gone",name:"gone",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--xy".into())],desc:"--xy <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}]}),about:"",after:""} }
fn d107() -> CmdD { CmdD{args:vec![ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--beta".into()), Name::Long("--xy".into()), Name::Short(',')],desc:"-,, --xy <F0>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p1"],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d108() -> CmdD { CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('I')],desc:"-I <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f1","p0"],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--n".into()), Name::Long("--Z".into()), Name::Short('D')],desc:"-D, --Z <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d109() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--help-me".into()), Name::Short(','), Name::Short('k')],desc:"-k, --help-me",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Short('I')],desc:"-I, --x-y <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--Ünï".into()), Name::Long("--al".into()), Name::Short('C')],desc:"-C, --al <F1>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--no-out".into())],desc:"--no-out <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('x')],desc:"-x[=<F3>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--alp".into()), Name::Short('A')],desc:"-A, --alp <F4>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""} }
fn d110() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('J')],desc:"-J[=<F0>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x1".into()), Name::Long("--Z".into())],desc:"--Z <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--zeta".into())],desc:"--zeta[=<F2>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--alpha".into()), Name::Short('@')],desc:"-@, --alpha <F0>",eq:false,hy:false,neg:true,glob:true,icase:true,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('f')],desc:"-f[=<F1>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--help-me".into()), Name::Long("--beta".into())],desc:"--beta=<F2>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--bet-a".into()), Name::Long("--be".into()), Name::Short('E')],desc:"-E, --be <F3>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--al".into()), Name::Short('c')],desc:"-c, --al <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--xy".into()), Name::Short('F')],desc:"-F, --xy <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"Status",name:"status",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--xy".into()), Name::Short('s'), Name::Short('D')],desc:"-D, --xy <F0>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x1".into()), Name::Long("--x-y".into()), Name::Short('A')],desc:"-A, --x-y <F1>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f4"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--alp".into()), Name::Short('v')],desc:"-v, --alp=<F2>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--zeta".into()), Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["la"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--alpha".into()), Name::Long("--bet-a".into()), Name::Short('1'), Name::Short(':')],desc:"-:, --bet-a <F4>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"A",name:"a",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--beta".into()), Name::Short('0')],desc:"-0, --beta <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--Ünï".into()), Name::Short('s'), Name::Short('n')],desc:"-n <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--out".into()), Name::Long("--n".into()), Name::Short('H'), Name::Short('e')],desc:"-e, --n <F2>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--no-out".into()), Name::Long("--al".into())],desc:"--al[=<F3>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d111() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Short('A')],desc:"-A, --out <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f1","p0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Long("--x".into()), Name::Short('E')],desc:"-E, --x <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Sta",name:"sta",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Short(':')],desc:"-: <F0>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--xy".into()), Name::Long("--no-out".into())],desc:"--no-out <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Long("--key".into())],desc:"--key <F2>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--x".into()), Name::Short('0'), Name::Short('B')],desc:"-B, --x[=<F3>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Status",name:"status",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--be".into()), Name::Short('n')],desc:"-n, --be <F0>",eq:false,hy:true,neg:false,glob:true,icase:true,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Short('J'), Name::Short('u')],desc:"-u <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--output".into()), Name::Long("--alp".into()), Name::Short('A')],desc:"-A, --alp <F1>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('f')],desc:"-f",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<P0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--help-me".into()), Name::Short('k')],desc:"-k, --help-me <F3>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('F'), Name::Short('G')],desc:"-G <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(':'),required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0","f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Gone",name:"gone",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d112() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--Z".into()), Name::Short('n')],desc:"-n, --Z <F0>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--n".into()), Name::Short('o')],desc:"-o, --n[=<F1>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f2",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--x".into()), Name::Short('m')],desc:"-m, --x <F2>",eq:false,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d113() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--xy".into()), Name::Short('z')],desc:"-z, --xy <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--output".into()), Name::Short('H')],desc:"-H, --output <F1>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--n".into()), Name::Short('z')],desc:"-z, --n",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al".into()), Name::Short('c')],desc:"-c, --al",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--bet-a".into()), Name::Short('é')],desc:"-é, --bet-a=<F2>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--x1".into()), Name::Short('/'), Name::Short('G')],desc:"-G, --x1=<F3>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["la","f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Gone",name:"gone",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--keys".into())],desc:"--keys <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--n".into()), Name::Long("--zeta".into()), Name::Short('t')],desc:"-t, --zeta <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al".into())],desc:"--al",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--x1".into())],desc:"--x1 <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d114() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('?'), Name::Short('y')],desc:"-y=<F0>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d115() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--zeta".into()), Name::Short('D')],desc:"-D, --zeta <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--no-out".into()), Name::Short('é')],desc:"-é, --no-out",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--key".into()), Name::Short('j')],desc:"-j=<F2>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--xy".into()), Name::Short('I')],desc:"-I, --xy <F3>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--keys".into())],desc:"--keys <F4>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--Z".into()), Name::Long("--x-y".into()), Name::Short('d'), Name::Short('?')],desc:"-?, --x-y[=<F0>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('F')],desc:"-F <F1>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--output".into()), Name::Long("--x1".into())],desc:"--x1 <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--beta".into()), Name::Short('G')],desc:"-G",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Sta",name:"sta",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Long("--Ünï".into())],desc:"--Ünï <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--bet-a".into())],desc:"--bet-a=<F0>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--no-out".into()), Name::Long("--xy".into()), Name::Short('c')],desc:"--xy <F1>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--n".into()), Name::Long("--Z".into()), Name::Short('?')],desc:"--Z <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f3","f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--alpha".into()), Name::Short('t')],desc:"-t, --alpha",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Status",name:"status",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--Z".into())],desc:"--Z <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--al".into()), Name::Long("--beta".into())],desc:"--beta <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--key".into()), Name::Short('d'), Name::Short('F')],desc:"-F, --key=<F2>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('文'), Name::Short('t')],desc:"-t <F3>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--x-y".into()), Name::Short('J')],desc:"-J <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"A",name:"a",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--be".into()), Name::Long("--key".into()), Name::Short('q')],desc:"-q, --key <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--bet-a".into()), Name::Short('@'), Name::Short('n')],desc:"-n, --bet-a",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--al".into()), Name::Long("--keys".into()), Name::Short('D')],desc:"-D, --keys <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--no-out".into()), Name::Long("--x".into())],desc:"--x[=<F0>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--output".into()), Name::Short('F')],desc:"-F, --output",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--xy".into())],desc:"--xy",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('0')],desc:"-0 <F3>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:Some(','),required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"A",name:"a",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--zeta".into())],desc:"--zeta <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--bet-a".into()), Name::Short('c'), Name::Short('n')],desc:"-n, --bet-a[=<F1>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Short('e')],desc:"-e <F2>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:Some(':'),required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('9')],desc:"-9 <F3>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Short('q')],desc:"-q, --out[=<F4>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Gone",name:"gone",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--Ünï".into())],desc:"--Ünï <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["la"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"Status",name:"status",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<P0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--beta".into()), Name::Short('E')],desc:"-E, --beta <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--keys".into()), Name::Short('o')],desc:"-o, --keys",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--be".into()), Name::Short('b')],desc:"-b, --be=<F0>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2","f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--n".into()), Name::Short('?')],desc:"-?, --n=<F1>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3","f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('C')],desc:"-C",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--help-me".into()), Name::Long("--beta".into())],desc:"--beta <F3>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Gone",name:"gone",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}]}),about:"",after:""} }
fn d116() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--Z".into())],desc:"--Z <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--x-y".into()), Name::Short('t')],desc:"-t, --x-y <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d117() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--alpha".into()), Name::Short('é'), Name::Short('d')],desc:"-d, --alpha <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--alp".into())],desc:"--alp <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d118() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--zeta".into()), Name::Long("--help-me".into()), Name::Short('s')],desc:"-s, --help-me <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--bet-a".into()), Name::Short('c')],desc:"-c, --bet-a <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--beta".into()), Name::Short('文')],desc:"-文 <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f1","f3"],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--keys".into()), Name::Short('ß'), Name::Short('G')],desc:"-G, --keys <F3>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("auto"),shown:Some("auto"),exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Gone",name:"gone",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d119() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--out".into()), Name::Short(':')],desc:"-: <F0>",eq:false,hy:false,neg:false,glob:true,icase:true,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('I')],desc:"-I",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--Z".into()), Name::Short('F')],desc:"-F",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--Ünï".into()), Name::Long("--no-out".into())],desc:"--no-out",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec!["f1"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d120() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--Ünï".into()), Name::Short('w')],desc:"-w, --Ünï <F0>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec!["va"],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--keys".into()), Name::Short('A')],desc:"-A",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["va","f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--x".into())],desc:"--x",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Short('H')],desc:"-H <F3>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("auto"),shown:Some("auto"),exclusive:false,requires:vec!["va"],conflicts:vec!["f2"],hide:true,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--Z".into()), Name::Long("--al".into()), Name::Short('a')],desc:"-a, --al <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--xy".into()), Name::Long("--be".into())],desc:"--be <F1>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Sta",name:"sta",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Status",name:"status",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d121() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--beta".into()), Name::Short('k'), Name::Short('q')],desc:"-q, --beta[=<F0>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--alpha".into()), Name::Long("--help-me".into()), Name::Short(',')],desc:"--help-me <F1>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["p0"],conflicts:vec![],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--output".into()), Name::Long("--xy".into()), Name::Short('y')],desc:"-y, --xy <F0>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Long("--be".into()), Name::Short('z')],desc:"-z, --be <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:None,about:"",after:""} }
fn d122() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--alpha".into()), Name::Short('e'), Name::Short('m')],desc:"-m, --alpha[=<F0>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Os,names:vec![Name::Long("--alp".into()), Name::Short('w')],desc:"-w, --alp <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec!["f1"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d123() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--alp".into()), Name::Short('H')],desc:"-H, --alp <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--n".into()), Name::Short('e')],desc:"-e, --n[=<F1>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d124() -> CmdD { CmdD{args:vec![ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--beta".into()), Name::Long("--no-out".into())],desc:"--no-out <F0>",eq:false,hy:true,neg:false,glob:true,icase:false,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--n".into()), Name::Short('o')],desc:"-o, --n <F1>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Sta",name:"sta",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--x".into()), Name::Short('n')],desc:"-n, --x <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Short('D')],desc:"-D, --out <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p1"],hide:false,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--be".into()), Name::Long("--Ünï".into())],desc:"--Ünï",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--alp".into()), Name::Short('1'), Name::Short('é')],desc:"-é <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(';'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--key".into()), Name::Short('v')],desc:"--key <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}), ("fl1", CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--alpha".into()), Name::Long("--help-me".into())],desc:"--help-me <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Long("--no-out".into())],desc:"--no-out <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f2",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--output".into()), Name::Short('文')],desc:"-文, --output[=<F2>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--bet-a".into()), Name::Long("--al".into()), Name::Short('q')],desc:"-q, --al",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--Z".into()), Name::Short('z')],desc:"--Z=<F4>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"A",name:"a",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--x1".into()), Name::Short('q')],desc:"-q <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--xy".into()), Name::Short('H')],desc:"-H, --xy",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('o')],desc:"-o[=<F2>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x-y".into()), Name::Short('9')],desc:"-9, --x-y=<F3>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--keys".into())],desc:"--keys <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--Ünï".into()), Name::Short('x')],desc:"-x, --Ünï=<F1>",eq:true,hy:false,neg:false,glob:false,icase:true,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Short('c'), Name::Short('ß')],desc:"-ß[=<F2>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Status",name:"status",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--keys".into()), Name::Long("--alp".into())],desc:"--alp",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::Os,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--n".into()), Name::Short('G')],desc:"-G, --n <F1>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--xy".into()), Name::Long("--beta".into()), Name::Short('?'), Name::Short('d')],desc:"-d, --beta <F2>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Short('u'), Name::Short(',')],desc:"-,, --out=<F3>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"p1",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("pd"),shown:Some("pd"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--x".into()), Name::Short('9')],desc:"-9, --x <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"<P0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"va",kind:Kind::OptVec,ty:Ty::U8,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}, VarD{ident:"A",name:"a",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--no-out".into()), Name::Short('d')],desc:"-d, --no-out=<F0>",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('/'), Name::Short('k')],desc:"-k",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f4","f3"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--x1".into()), Name::Short('D')],desc:"--x1 <F2>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--alpha".into()), Name::Short('A')],desc:"-A, --alpha <F3>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f4"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--zeta".into()), Name::Short('J'), Name::Short('s')],desc:"-s",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"GoOn",name:"go-on",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Long("--help-me".into()), Name::Long("--alp".into()), Name::Short(',')],desc:"-,, --alp <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--no-out".into()), Name::Short('J')],desc:"-J, --no-out",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0","p0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--Ünï".into()), Name::Long("--zeta".into())],desc:"--zeta",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0","f1"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""}}]}),about:"",after:""} }
fn d125() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--keys".into()), Name::Short('b')],desc:"-b, --keys <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--bet-a".into()), Name::Long("--n".into()), Name::Short('c')],desc:"-c, --n <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f0","f2"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--xy".into()), Name::Long("--zeta".into())],desc:"--zeta <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}],flats:vec![("fl0", CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--x".into()), Name::Long("--beta".into())],desc:"--beta[=<F0>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""})],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Sta",name:"sta",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('o')],desc:"-o <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--output".into()), Name::Long("--be".into()), Name::Short('w')],desc:"-w, --be",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--x".into()), Name::Short('ß')],desc:"-ß, --x <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d126() -> CmdD { CmdD{args:vec![ArgD{field:"p1",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P1]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f0",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--al".into()), Name::Short('C')],desc:"-C",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Value,ty:Ty::Str,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("pd"),shown:Some("pd"),exclusive:false,requires:vec!["va","f0"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["p0"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Status",name:"status",shape:Shape::New,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::OptVec,ty:Ty::U8,names:vec![Name::Short('w'), Name::Short('m')],desc:"-m <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:Some(':'),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f1"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--output".into()), Name::Short('文')],desc:"-文, --output <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"la",kind:Kind::Vec,ty:Ty::U8,names:vec![],desc:"[LA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:true,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Go",name:"go",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--n".into()), Name::Short('e'), Name::Short('@')],desc:"-@, --n <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d127() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out".into()), Name::Short('9')],desc:"-9, --out <F0>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f3"],hide:true,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('B')],desc:"-B <F1>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Value,ty:Ty::Str,names:vec![Name::Long("--x1".into()), Name::Long("--Z".into()), Name::Short('I'), Name::Short('é')],desc:"-é, --Z <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('n')],desc:"-n=<F3>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f4",kind:Kind::Opt,ty:Ty::Enum(Color_NAMES),names:vec![Name::Long("--zeta".into()), Name::Long("--key".into()), Name::Short('f')],desc:"-f, --key <F4>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d128() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--alpha".into()), Name::Long("--Ünï".into()), Name::Short('s')],desc:"-s, --Ünï <F0>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("7"),shown:Some("7"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--x1".into()), Name::Short('w')],desc:"-w, --x1 <F1>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec![],conflicts:vec!["f0"],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('x')],desc:"-x <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f3"],conflicts:vec!["va"],hide:false,doc:""}, ArgD{field:"f3",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('y'), Name::Short('é')],desc:"-é <F3>",eq:false,hy:true,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("dflt"),shown:Some("dflt"),exclusive:false,requires:vec!["va"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d129() -> CmdD { CmdD{args:vec![ArgD{field:"f0",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('w'), Name::Short('g')],desc:"-g <F0>",eq:false,hy:false,neg:true,glob:true,icase:false,trailing:false,last:false,delim:Some(','),required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"Gone",name:"gone",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--xy".into()), Name::Short('s')],desc:"-s, --xy <F0>",eq:false,hy:false,neg:true,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--alp".into()), Name::Short('j')],desc:"-j, --alp",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"p0",kind:Kind::Opt,ty:Ty::U8,names:vec![],desc:"[P0]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f2",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('q')],desc:"-q <F2>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"va",kind:Kind::Vec,ty:Ty::Os,names:vec![],desc:"[VA]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:true,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"GoOn",name:"go-on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"f0",kind:Kind::Value,ty:Ty::I32,names:vec![Name::Long("--keys".into()), Name::Long("--alp".into()), Name::Short('e')],desc:"-e, --alp=<F0>",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("-3"),shown:Some("-3"),exclusive:false,requires:vec!["f1"],conflicts:vec!["f2"],hide:false,doc:""}, ArgD{field:"f1",kind:Kind::Vec,ty:Ty::Enum(Low_NAMES),names:vec![Name::Long("--x-y".into()), Name::Short('j')],desc:"-j, --x-y=<F1>",eq:true,hy:false,neg:false,glob:true,icase:true,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:true,doc:""}, ArgD{field:"f2",kind:Kind::OptOpt,ty:Ty::Str,names:vec![Name::Long("--al".into()), Name::Short('t')],desc:"-t, --al[=<F2>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f1"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d130() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0 <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec![],conflicts:vec!["b","c","d"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a","d","c"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('w')],desc:"-w",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--out3".into()), Name::Short('x')],desc:"-x, --out3 <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d131() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('a')],desc:"-a <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1[=<B>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d132() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec!["d"],conflicts:vec!["e"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Long("--out2".into()), Name::Short('w')],desc:"-w, --out2 <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out3".into()), Name::Short('x')],desc:"-x, --out3",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec!["b"],conflicts:vec!["f"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out4".into()), Name::Short('y')],desc:"-y, --out4",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","d","b"],hide:false,doc:""}, ArgD{field:"f",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('z')],desc:"-z <F>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","e","a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d133() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('a')],desc:"-a <A>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('b')],desc:"-b[=<B>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["d","c"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:true,requires:vec![],conflicts:vec!["a","b"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--in3".into()), Name::Short('d')],desc:"-d, --in3",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a","b"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f","c"],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["d","b"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f","pos"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out3".into()), Name::Short('x')],desc:"-x, --out3",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","f","c"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('y')],desc:"-y[=<E>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"f",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('z')],desc:"-z <F>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d134() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('u')],desc:"-u[=<A>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["e"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('w')],desc:"-w[=<C>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('x')],desc:"-x[=<D>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('y')],desc:"-y <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["d"],conflicts:vec!["c"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d135() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('a')],desc:"-a <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f","d"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec!["pos"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('y')],desc:"-y <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["f","b","c"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"<POS>...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('z')],desc:"-z[=<F>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["a"],conflicts:vec!["b","d","e"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d136() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec!["pos","b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["pos","a"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d137() -> CmdD { CmdD{args:vec![ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b","a"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"a",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('a')],desc:"-a <A>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["pos","b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["pos"],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('u')],desc:"-u <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v[=<B>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["c"],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","c","a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d138() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["a"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d139() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--in0".into()), Name::Short('a')],desc:"-a, --in0 <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec!["b"],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","d","a"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a","d"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["e","a"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v[=<B>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["pos"],conflicts:vec!["a","e","c"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('w')],desc:"-w",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('x')],desc:"-x <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec!["c"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('y')],desc:"-y",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["d"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d140() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('u')],desc:"-u <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1 <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a"],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('w')],desc:"-w",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a","d","e"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["e"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out4".into()), Name::Short('y')],desc:"-y, --out4 <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec!["d"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d141() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('a')],desc:"-a <A>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec!["c"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a","c"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a","b"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","c","pos"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"<POS>...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","a","b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["pos"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('w')],desc:"-w",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec!["b","a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d142() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0[=<A>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["pos"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out2".into()), Name::Short('w')],desc:"-w, --out2",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","a","pos"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('x')],desc:"-x <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["pos","b"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a"],conflicts:vec!["f"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('y')],desc:"-y <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["d","pos"],hide:false,doc:""}, ArgD{field:"f",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('z')],desc:"-z <F>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a","d"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d143() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('a')],desc:"-a <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","a"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0 <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a","c"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Long("--out2".into()), Name::Short('w')],desc:"-w, --out2 <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d144() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('u')],desc:"-u <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d145() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Long("--in2".into()), Name::Short('c')],desc:"-c, --in2 <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec!["b","d"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('d')],desc:"-d <D>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["a"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["a"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","c"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d146() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('u')],desc:"-u <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["pos","b"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a","b"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1[=<B>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["pos","a"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d147() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--in0".into()), Name::Short('a')],desc:"-a, --in0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["pos","b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec![],conflicts:vec!["pos","a"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"<POS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","c"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec![],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--out3".into()), Name::Short('x')],desc:"-x, --out3 <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('y')],desc:"-y <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d148() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec!["pos","c","b"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["c"],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--out2".into()), Name::Short('w')],desc:"-w, --out2[=<C>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a","pos"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d149() -> CmdD { CmdD{args:vec![ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"<POS>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec!["c","a","d"],hide:false,doc:""}, ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["pos","c","d"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('b')],desc:"-b[=<B>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","a"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('c')],desc:"-c",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["d"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('d')],desc:"-d <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:true,requires:vec![],conflicts:vec!["pos"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('u')],desc:"-u <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--out2".into()), Name::Short('w')],desc:"-w, --out2 <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec![],conflicts:vec!["b","a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d150() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d151() -> CmdD { CmdD{args:vec![ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c"],hide:false,doc:""}, ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('a')],desc:"-a",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["pos"],conflicts:vec!["c"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('b')],desc:"-b",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec!["c","pos"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:true,requires:vec![],conflicts:vec!["a","b","pos"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["d","e","c"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","f"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Long("--out2".into()), Name::Short('w')],desc:"-w, --out2 <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec!["a","d","e"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('x')],desc:"-x <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec!["f"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('y')],desc:"-y",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Long("--out5".into()), Name::Short('z')],desc:"-z, --out5 <F>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d152() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('u')],desc:"-u <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec!["d"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["c"],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["e","a","b"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('x')],desc:"-x <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["e","b","a"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('y')],desc:"-y",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d153() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('a')],desc:"-a[=<A>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["c"],conflicts:vec!["d","pos"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--in1".into()), Name::Short('b')],desc:"-b, --in1 <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["a"],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--in3".into()), Name::Short('d')],desc:"-d, --in3 <D>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('u')],desc:"-u <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:true,requires:vec!["c","e"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec!["d","c"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec!["f"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('x')],desc:"-x <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('y')],desc:"-y",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["b"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('z')],desc:"-z <F>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d154() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Short('u')],desc:"-u <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"[POS]...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b","a"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1[=<B>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["a"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d155() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Long("--in0".into()), Name::Short('a')],desc:"-a, --in0 <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","pos","d"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('b')],desc:"-b <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["d","pos"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["d","a","e"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec!["e"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["c"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('e')],desc:"-e",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["d"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('w')],desc:"-w <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec!["d","e"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out3".into()), Name::Short('x')],desc:"-x, --out3",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('y')],desc:"-y",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","a","b"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d156() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0[=<A>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","e"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec!["c"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('w')],desc:"-w",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec!["d"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('x')],desc:"-x[=<D>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out4".into()), Name::Short('y')],desc:"-y, --out4",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d157() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('a')],desc:"-a[=<A>]",eq:true,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--in1".into()), Name::Short('b')],desc:"-b, --in1 <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec!["c","b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('v')],desc:"-v <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","a"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Long("--out2".into()), Name::Short('w')],desc:"-w, --out2 <C>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d158() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","a"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('w')],desc:"-w",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--out4".into()), Name::Short('y')],desc:"-y, --out4",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","a","c"],hide:false,doc:""}, ArgD{field:"f",kind:Kind::Opt,ty:Ty::U8,names:vec![Name::Short('z')],desc:"-z <F>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d159() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('a')],desc:"-a <A>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec!["c","d","e"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Long("--in1".into()), Name::Short('b')],desc:"-b, --in1",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec!["f"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('c')],desc:"-c[=<C>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('d')],desc:"-d",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["c","e"],hide:false,doc:""}, ArgD{field:"e",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('e')],desc:"-e[=<E>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"f",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('f')],desc:"-f",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:true,requires:vec!["c"],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:false,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('v')],desc:"-v",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
fn d160() -> CmdD { CmdD{args:vec![ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["d"],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"a",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--out0".into()), Name::Short('u')],desc:"-u, --out0[=<A>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b","d","c"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('v')],desc:"-v[=<B>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec!["f"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('w')],desc:"-w",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('y')],desc:"-y <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["pos","a"],hide:false,doc:""}, ArgD{field:"f",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('z')],desc:"-z <F>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:true,requires:vec![],conflicts:vec!["a"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""} }
fn d161() -> CmdD { CmdD{args:vec![ArgD{field:"a",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--in0".into()), Name::Short('a')],desc:"-a, --in0 <A>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["b"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Long("--in1".into()), Name::Short('b')],desc:"-b, --in1 <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["f","d"],conflicts:vec!["e","a"],hide:false,doc:""}, ArgD{field:"c",kind:Kind::Vec,ty:Ty::Str,names:vec![Name::Short('c')],desc:"-c <C>",eq:false,hy:false,neg:false,glob:true,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["e","b"],conflicts:vec!["pos","a"],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('d')],desc:"-d <D>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"e",kind:Kind::Opt,ty:Ty::Str,names:vec![Name::Short('e')],desc:"-e <E>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Text("5"),shown:Some("5"),exclusive:false,requires:vec!["b","a"],conflicts:vec!["d","pos","c"],hide:false,doc:""}, ArgD{field:"f",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Long("--in5".into()), Name::Short('f')],desc:"-f, --in5[=<F>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["d"],conflicts:vec!["a"],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Opt,ty:Ty::Str,names:vec![],desc:"[POS]",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b","d"],conflicts:vec!["c"],hide:false,doc:""}],flats:vec![],sub:Some(SubD{field:"sub",optional:true,variants:vec![VarD{ident:"Go",name:"go",shape:Shape::Unit,cmd:CmdD{args:vec![],flats:vec![],sub:None,about:"",after:""}}, VarD{ident:"On",name:"on",shape:Shape::Struct,cmd:CmdD{args:vec![ArgD{field:"a",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('u')],desc:"-u",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec!["pos"],hide:false,doc:""}, ArgD{field:"b",kind:Kind::OptVec,ty:Ty::Str,names:vec![Name::Long("--out1".into()), Name::Short('v')],desc:"-v, --out1 <B>",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec![],conflicts:vec![],hide:false,doc:""}, ArgD{field:"c",kind:Kind::OptOpt,ty:Ty::U8,names:vec![Name::Short('w')],desc:"-w[=<C>]",eq:true,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::None,shown:None,exclusive:false,requires:vec!["d"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"pos",kind:Kind::Vec,ty:Ty::Str,names:vec![],desc:"<POS>...",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:true,default:Dflt::None,shown:None,exclusive:false,requires:vec!["b"],conflicts:vec![],hide:false,doc:""}, ArgD{field:"d",kind:Kind::Bool,ty:Ty::Bool,names:vec![Name::Short('x')],desc:"-x",eq:false,hy:false,neg:false,glob:false,icase:false,trailing:false,last:false,delim:None,required:false,default:Dflt::Val(Val::B(true)),shown:Some("true"),exclusive:false,requires:vec!["a"],conflicts:vec!["c","b"],hide:false,doc:""}],flats:vec![],sub:None,about:"",after:""}}]}),about:"",after:""} }
pub fn all() -> Vec<Cli> { vec![
    Cli { label: "flags", desc: d0(), run: run::<S1> },
    Cli { label: "one_value", desc: d1(), run: run::<S2> },
    Cli { label: "values", desc: d2(), run: run::<S3> },
    Cli { label: "os_values", desc: d3(), run: run::<S4> },
    Cli { label: "req_eq", desc: d4(), run: run::<S5> },
    Cli { label: "optopt", desc: d5(), run: run::<S6> },
    Cli { label: "optopt_num", desc: d6(), run: run::<S7> },
    Cli { label: "optopt_long", desc: d7(), run: run::<S8> },
    Cli { label: "optopt_unit", desc: d8(), run: run::<S9> },
    Cli { label: "hyphen_any", desc: d9(), run: run::<S10> },
    Cli { label: "hyphen_num", desc: d10(), run: run::<S11> },
    Cli { label: "hyphen_num_plain", desc: d11(), run: run::<S12> },
    Cli { label: "vecs", desc: d12(), run: run::<S13> },
    Cli { label: "vec_num", desc: d13(), run: run::<S14> },
    Cli { label: "delim", desc: d14(), run: run::<S15> },
    Cli { label: "delim2", desc: d15(), run: run::<S16> },
    Cli { label: "delim_enum", desc: d16(), run: run::<S17> },
    Cli { label: "bundle", desc: d17(), run: run::<S18> },
    Cli { label: "bundle_uni", desc: d18(), run: run::<S19> },
    Cli { label: "bundle_digits", desc: d19(), run: run::<S20> },
    Cli { label: "aliases", desc: d20(), run: run::<S21> },
    Cli { label: "prefixes", desc: d21(), run: run::<S22> },
    Cli { label: "pos_single", desc: d22(), run: run::<S23> },
    Cli { label: "pos_opt2", desc: d23(), run: run::<S24> },
    Cli { label: "pos_var", desc: d24(), run: run::<S25> },
    Cli { label: "pos_var_first", desc: d25(), run: run::<S26> },
    Cli { label: "pos_mixed_decl", desc: d26(), run: run::<S27> },
    Cli { label: "trailing", desc: d27(), run: run::<S28> },
    Cli { label: "trailing_only", desc: d28(), run: run::<S29> },
    Cli { label: "trailing_opt", desc: d29(), run: run::<S30> },
    Cli { label: "trailing_last", desc: d30(), run: run::<S31> },
    Cli { label: "last", desc: d31(), run: run::<S32> },
    Cli { label: "last_var", desc: d32(), run: run::<S33> },
    Cli { label: "last_first", desc: d33(), run: run::<S34> },
    Cli { label: "last_req", desc: d34(), run: run::<S35> },
    Cli { label: "var_req", desc: d35(), run: run::<S36> },
    Cli { label: "no_args", desc: d36(), run: run::<S37> },
    Cli { label: "typed", desc: d37(), run: run::<S38> },
    Cli { label: "enums", desc: d38(), run: run::<S39> },
    Cli { label: "enum_icase", desc: d39(), run: run::<S40> },
    Cli { label: "enum_pos", desc: d40(), run: run::<S41> },
    Cli { label: "defaults", desc: d41(), run: run::<S42> },
    Cli { label: "defaults2", desc: d42(), run: run::<S43> },
    Cli { label: "defaults_pos", desc: d43(), run: run::<S44> },
    Cli { label: "req_flag", desc: d44(), run: run::<S45> },
    Cli { label: "conflicts", desc: d45(), run: run::<S46> },
    Cli { label: "conflicts_all", desc: d46(), run: run::<S47> },
    Cli { label: "requires", desc: d47(), run: run::<S48> },
    Cli { label: "requires_default", desc: d48(), run: run::<S49> },
    Cli { label: "exclusive", desc: d49(), run: run::<S50> },
    Cli { label: "exclusive_vec", desc: d50(), run: run::<S51> },
    Cli { label: "exclusive_req", desc: d51(), run: run::<S52> },
    Cli { label: "mixed_constraints", desc: d52(), run: run::<S53> },
    Cli { label: "big", desc: d53(), run: run::<S54> },
    Cli { label: "huge", desc: d54(), run: run::<S55> },
    Cli { label: "many_pos", desc: d55(), run: run::<S56> },
    Cli { label: "max_pos", desc: d56(), run: run::<S57> },
    Cli { label: "max_pos_last", desc: d57(), run: run::<S58> },
    Cli { label: "help_short", desc: d58(), run: run::<S59> },
    Cli { label: "help_long", desc: d59(), run: run::<S60> },
    Cli { label: "help_flag_both", desc: d60(), run: run::<S61> },
    Cli { label: "flatten1", desc: d61(), run: run::<S62> },
    Cli { label: "flatten2", desc: d62(), run: run::<S64> },
    Cli { label: "flatten3", desc: d63(), run: run::<S66> },
    Cli { label: "flatten_only", desc: d64(), run: run::<S69> },
    Cli { label: "flatten_nested", desc: d65(), run: run::<S70> },
    Cli { label: "sub_req", desc: d66(), run: run::<S71> },
    Cli { label: "sub_opt", desc: d67(), run: run::<S74> },
    Cli { label: "sub_pos", desc: d68(), run: run::<S76> },
    Cli { label: "sub_var", desc: d69(), run: run::<S78> },
    Cli { label: "sub_trailing", desc: d70(), run: run::<S81> },
    Cli { label: "sub_last", desc: d71(), run: run::<S83> },
    Cli { label: "globals", desc: d72(), run: run::<S85> },
    Cli { label: "globals_flat", desc: d73(), run: run::<S90> },
    Cli { label: "globals_constr", desc: d74(), run: run::<S93> },
    Cli { label: "deep", desc: d75(), run: run::<S95> },
    Cli { label: "sub_names", desc: d76(), run: run::<S102> },
    Cli { label: "sub_many", desc: d77(), run: run::<S104> },
    Cli { label: "sub_excl", desc: d78(), run: run::<S106> },
    Cli { label: "sub_none", desc: d79(), run: run::<S108> },
    Cli { label: "sub_flat", desc: d80(), run: run::<S110> },
    Cli { label: "shadow_help", desc: d81(), run: run::<S113> },
    Cli { label: "docs", desc: d82(), run: run::<S115> },
    Cli { label: "raw_ident", desc: d83(), run: run::<S116> },
    Cli { label: "raw_names", desc: d84(), run: run::<S117> },
    Cli { label: "odd_longs", desc: d85(), run: run::<S119> },
    Cli { label: "odd_longs2", desc: d86(), run: run::<S120> },
    Cli { label: "odd_aliases", desc: d87(), run: run::<S121> },
    Cli { label: "odd_shorts", desc: d88(), run: run::<S122> },
    Cli { label: "odd_subs", desc: d89(), run: run::<S123> },
    Cli { label: "odd_subs2", desc: d90(), run: run::<S125> },
    Cli { label: "odd_values", desc: d91(), run: run::<S132> },
    Cli { label: "sub_pad", desc: d92(), run: run::<S133> },
    Cli { label: "sub_pad2", desc: d93(), run: run::<S136> },
    Cli { label: "rand0", desc: d94(), run: run::<S138> },
    Cli { label: "rand1", desc: d95(), run: run::<S145> },
    Cli { label: "rand2", desc: d96(), run: run::<S147> },
    Cli { label: "rand3", desc: d97(), run: run::<S150> },
    Cli { label: "rand4", desc: d98(), run: run::<S163> },
    Cli { label: "rand5", desc: d99(), run: run::<S165> },
    Cli { label: "rand6", desc: d100(), run: run::<S168> },
    Cli { label: "rand7", desc: d101(), run: run::<S172> },
    Cli { label: "rand8", desc: d102(), run: run::<S173> },
    Cli { label: "rand9", desc: d103(), run: run::<S175> },
    Cli { label: "rand10", desc: d104(), run: run::<S176> },
    Cli { label: "rand11", desc: d105(), run: run::<S179> },
    Cli { label: "rand12", desc: d106(), run: run::<S181> },
    Cli { label: "rand13", desc: d107(), run: run::<S187> },
    Cli { label: "rand14", desc: d108(), run: run::<S188> },
    Cli { label: "rand15", desc: d109(), run: run::<S189> },
    Cli { label: "rand16", desc: d110(), run: run::<S191> },
    Cli { label: "rand17", desc: d111(), run: run::<S195> },
    Cli { label: "rand18", desc: d112(), run: run::<S197> },
    Cli { label: "rand19", desc: d113(), run: run::<S198> },
    Cli { label: "rand20", desc: d114(), run: run::<S201> },
    Cli { label: "rand21", desc: d115(), run: run::<S202> },
    Cli { label: "rand22", desc: d116(), run: run::<S213> },
    Cli { label: "rand23", desc: d117(), run: run::<S214> },
    Cli { label: "rand24", desc: d118(), run: run::<S215> },
    Cli { label: "rand25", desc: d119(), run: run::<S217> },
    Cli { label: "rand26", desc: d120(), run: run::<S218> },
    Cli { label: "rand27", desc: d121(), run: run::<S222> },
    Cli { label: "rand28", desc: d122(), run: run::<S224> },
    Cli { label: "rand29", desc: d123(), run: run::<S225> },
    Cli { label: "rand30", desc: d124(), run: run::<S226> },
    Cli { label: "rand31", desc: d125(), run: run::<S234> },
    Cli { label: "rand32", desc: d126(), run: run::<S238> },
    Cli { label: "rand33", desc: d127(), run: run::<S241> },
    Cli { label: "rand34", desc: d128(), run: run::<S242> },
    Cli { label: "rand35", desc: d129(), run: run::<S243> },
    Cli { label: "constr0", desc: d130(), run: run::<S245> },
    Cli { label: "constr1", desc: d131(), run: run::<S246> },
    Cli { label: "constr2", desc: d132(), run: run::<S248> },
    Cli { label: "constr3", desc: d133(), run: run::<S249> },
    Cli { label: "constr4", desc: d134(), run: run::<S251> },
    Cli { label: "constr5", desc: d135(), run: run::<S252> },
    Cli { label: "constr6", desc: d136(), run: run::<S254> },
    Cli { label: "constr7", desc: d137(), run: run::<S255> },
    Cli { label: "constr8", desc: d138(), run: run::<S257> },
    Cli { label: "constr9", desc: d139(), run: run::<S258> },
    Cli { label: "constr10", desc: d140(), run: run::<S260> },
    Cli { label: "constr11", desc: d141(), run: run::<S261> },
    Cli { label: "constr12", desc: d142(), run: run::<S263> },
    Cli { label: "constr13", desc: d143(), run: run::<S264> },
    Cli { label: "constr14", desc: d144(), run: run::<S266> },
    Cli { label: "constr15", desc: d145(), run: run::<S267> },
    Cli { label: "constr16", desc: d146(), run: run::<S269> },
    Cli { label: "constr17", desc: d147(), run: run::<S270> },
    Cli { label: "constr18", desc: d148(), run: run::<S272> },
    Cli { label: "constr19", desc: d149(), run: run::<S273> },
    Cli { label: "constr20", desc: d150(), run: run::<S275> },
    Cli { label: "constr21", desc: d151(), run: run::<S276> },
    Cli { label: "constr22", desc: d152(), run: run::<S278> },
    Cli { label: "constr23", desc: d153(), run: run::<S279> },
    Cli { label: "constr24", desc: d154(), run: run::<S281> },
    Cli { label: "constr25", desc: d155(), run: run::<S282> },
    Cli { label: "constr26", desc: d156(), run: run::<S284> },
    Cli { label: "constr27", desc: d157(), run: run::<S285> },
    Cli { label: "constr28", desc: d158(), run: run::<S287> },
    Cli { label: "constr29", desc: d159(), run: run::<S288> },
    Cli { label: "constr30", desc: d160(), run: run::<S290> },
    Cli { label: "constr31", desc: d161(), run: run::<S291> },
] }
