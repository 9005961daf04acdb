//! @generated by defs.py
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;
#[derive(ValueEnum)]
pub enum Color {
    Auto,
    DarkRed,
    #[value(name = "x y")]
    X,
}
#[derive(ValueEnum)]
#[value(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum Lvl {
    Low,
    MidHigh,
    #[value(name = "low")]
    Odd,
}
#[derive(Parser)]
pub struct G1 {
    #[arg(long, short = 'f')]
    flag: bool,
    #[arg(long, default_value = "7")]
    num: u8,
    #[arg(short = 'o', requires = "flag", conflicts_with = "list")]
    opt: Option<u8>,
    #[arg(long, value_delimiter = ',')]
    list: Vec<u8>,
    #[arg(long, exclusive = true, default_value_t = 4)]
    ex: u8,
    #[arg(required = true)]
    pos: Option<String>,
}
#[derive(Subcommand)]
pub enum E5 {
        Un,
}
#[derive(Args)]
pub struct G4 {
    #[arg(long)]
    x: Option<u8>,
    #[command(subcommand)]
    d: Option<E5>,
}
#[derive(Subcommand)]
pub enum E3 {
        One,
    TwoWords(G4),
        Three {
    #[arg(long)]
    y: Vec<u8>,
    #[arg(exclusive = true)]
    z: String,
    },
}
#[derive(Parser)]
pub struct G2 {
    #[arg(long, global = true)]
    v: bool,
    #[command(subcommand)]
    c: E3,
}
#[derive(Parser)]
pub struct G6 {
    more: Option<String>,
    #[arg(long, short = 'c', require_equals = true)]
    color: Option<Option<Color>>,
    #[arg(long = "include", short = 'I')]
    inc: Option<Vec<String>>,
    again: Option<OsString>,
    #[arg(short, require_equals = true, conflicts_with = "again", conflicts_with = "more")]
    lvl: Option<Option<u8>>,
}
#[derive(Parser)]
pub struct G7 {
    #[arg(long, short = 'l', aliases = ["ln", "long"], short_aliases = ['L', 'é'])]
    long_name: Option<String>,
    #[arg(long, ignore_case = true)]
    case: Option<Color>,
    #[arg(long, short = 'y', allow_hyphen_values = true)]
    hy: Option<String>,
    #[arg(short = 'n', allow_negative_numbers = true)]
    neg: Option<i32>,
    #[arg(long = "equals", value_name = "X", require_equals = true)]
    eq: String,
    #[arg(short = '1')]
    one: bool,
    #[arg(long)]
    r_type: Option<String>,
}
#[derive(Parser)]
pub struct G8 {
    first: String,
    #[arg(short = 'v')]
    v: bool,
    second: Option<u8>,
    rest: Vec<String>,
}
#[derive(Parser)]
pub struct G9 {
    cmd: OsString,
    #[arg(trailing_var_arg = true)]
    args: Option<Vec<OsString>>,
    #[arg(last = true)]
    tail: Vec<String>,
    #[arg(short = 'q')]
    q: bool,
}
#[derive(Parser)]
pub struct G10 {
    #[arg(required = true, value_delimiter = ':')]
    files: Vec<String>,
    #[arg(last = true)]
    last: Option<Vec<String>>,
}
#[derive(Parser)]
pub struct G11 {
    #[arg(trailing_var_arg = true)]
    args: Vec<String>,
    #[arg(short = 'o')]
    o: Option<String>,
}
#[derive(Parser)]
pub struct G12 {
    #[arg(long, default_value = "1")]
    a: u8,
    #[arg(long, default_value = "")]
    b: String,
    #[arg(long, default_value_t = 5)]
    c: Option<u8>,
    #[arg(long, default_value = "1")]
    d: Vec<u8>,
}
#[derive(Parser)]
pub struct G13 {
    #[arg(long, default_value_t = Color::Auto)]
    e: Color,
    #[arg(long, default_value = "9")]
    f: Option<Vec<u8>>,
    #[arg(default_value = "-3")]
    g: i32,
    #[arg(default_value = "8")]
    h: Vec<u8>,
}
#[derive(Parser)]
pub struct G14 {
    #[arg(short = 'a', requires = "b", requires = "c")]
    a: bool,
    #[arg(short = 'b', requires = "p")]
    b: bool,
    #[arg(short = 'c', conflicts_with = "d")]
    c: Option<u8>,
    #[arg(short = 'd', default_value = "0", conflicts_with_all = ["e", "a"])]
    d: u8,
    #[arg(short = 'e', required = true)]
    e: Vec<u8>,
    #[arg(requires = "c")]
    p: Option<String>,
    #[arg(conflicts_with = "a")]
    q: Vec<String>,
}
#[derive(Parser)]
pub struct G15 {
    #[arg(long, require_equals = true, required = true, requires = "b")]
    a: Option<Option<u8>>,
    #[arg(short = 'b', exclusive = true)]
    b: bool,
    #[arg(short = 'c', default_value = "3", requires = "d")]
    c: u8,
    #[arg(short = 'd', required = true, exclusive = true)]
    d: Option<Vec<u8>>,
}
#[derive(Subcommand)]
pub enum E17 {
        Go,
        Gone,
}
#[derive(Parser)]
pub struct G16 {
    #[arg(long)]
    req: String,
    #[arg(long, short = 'V', exclusive = true)]
    ver: bool,
    #[command(subcommand)]
    c: Option<E17>,
}
#[derive(Args)]
pub struct G21 {
    pos: u8,
}
#[derive(Subcommand)]
pub enum E20 {
    Deep(G21),
        Er,
}
#[derive(Subcommand)]
pub enum E19 {
        A {
    },
        Bc {
    #[arg(long, default_value = "1")]
    n: u8,
    #[arg(long, global = true, conflicts_with = "n")]
    g: Option<String>,
    #[command(subcommand)]
    s: E20,
    },
}
#[derive(Parser)]
pub struct G18 {
    #[arg(exclusive = true)]
    only: Option<String>,
    #[command(subcommand)]
    c: Option<E19>,
}
#[derive(Args)]
pub struct G24 {
    #[arg(long, short, global = true)]
    all: bool,
}
#[derive(Subcommand)]
pub enum E25 {
        Again,
}
#[derive(Subcommand)]
pub enum E23 {
        IOTest,
    B2b(G24),
        Ice {
    #[arg(short = 't', global = true, hide = true)]
    t: Option<u8>,
    #[command(subcommand)]
    c: Option<E25>,
    },
}
#[derive(Parser)]
pub struct G22 {
    #[command(subcommand)]
    c: E23,
}
#[derive(Parser)]
pub struct G26 {
    only: String,
}
#[derive(Parser)]
pub struct G27 {
}
#[derive(Parser)]
pub struct G28 {
    #[arg(long = "aa", short = 'a', conflicts_with = "j")]
    a: bool,
    #[arg(long = "bb", short = 'b')]
    b: bool,
    #[arg(long = "cc", short = 'c')]
    c: bool,
    #[arg(long = "dd", short = 'd')]
    d: bool,
    #[arg(long = "ee", short = 'e')]
    e: bool,
    #[arg(long = "ff", short = 'f')]
    f: bool,
    #[arg(long = "gg", short = 'g')]
    g: bool,
    #[arg(long = "hh", short = 'h')]
    h: bool,
    #[arg(long = "ii", short = 'i')]
    i: bool,
    #[arg(short = 'j', exclusive = true)]
    j: Option<u8>,
}
