// Written by tools/gen_mx.py.
use crate::model::*;
use palc::{Args, Parser, Subcommand, ValueEnum};
use std::ffi::OsString;

#[derive(ValueEnum, Clone, PartialEq)]
pub enum Letter {
    A,
    B,
    Ab,
    #[value(name = "k:é")]
    Odd,
}
impl Val for Letter {
    fn raw_bytes(&self) -> Vec<u8> {
        match self {
            Letter::A => "a",
            Letter::B => "b",
            Letter::Ab => "ab",
            Letter::Odd => "k:é",
        }
        .as_bytes()
        .to_vec()
    }
}
const LETTERS: &[&str] = &["a", "b", "ab", "k:é"];

// @@ D0
/// About {it}.
#[derive(Parser)]
struct D0 {
    #[arg(long = "helper", value_name = "FOO {BAR}", hide = true)]
    f11: Option<OsString>,
    /// First {of} f9,
    ///
    /// 100% "more".
    #[arg(short = 'd', short_alias = 'G', alias = "chi", global = true, default_value_t = true, long = "x")]
    f9: bool,
    /// First {of} f4,
    ///
    /// 100% "more".
    #[arg(short = 'I', short_alias = 'k', long = "iota", alias = "gamma", default_value = "b", value_name = "[X]", allow_negative_numbers = true, global = true)]
    f4: Letter,
    /// Doc of f7.
    #[arg(require_equals = true, default_value = "", value_name = "[X]", hide = true, long = "Mu")]
    f7: Option<Option<OsString>>,
    /// Doc of f3.
    #[arg(long = "kap", value_delimiter = ',', alias = "alpha", short = '\u{10ffff}', allow_hyphen_values = true, short_alias = '�')]
    f3: Vec<OsString>,
    #[arg(short = 'u', short_alias = '\u{ffff}', long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", alias = "eps-i", default_value_t = -7, allow_hyphen_values = true)]
    f8: i16,
    /// Doc of f5.
    #[arg(ignore_case = true, value_name = "[X]", require_equals = true, global = true, short = '1')]
    f5: Option<Option<Letter>>,
    #[arg(short = '2', value_delimiter = ',', require_equals = true, long = "tau")]
    f2: Vec<i16>,
    /// Doc of f10.
    #[arg(default_value_t = Letter::B, global = true, allow_hyphen_values = true, short = 'b', ignore_case = true)]
    f10: Option<Letter>,
    #[arg(allow_negative_numbers = true, default_value_t = Letter::B, value_name = "[X]", short = 's', long = "zeta")]
    f6: Letter,
    #[arg(hide = true)]
    f1: Vec<OsString>,
}
impl Told for D0 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-2, --tau=<F2>", doc: &[], hide: false }, ..opt(&["-2", "--tau"], Kind::List) },
            Opt { hyphen: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{10ffff}, --kap <F3>", doc: &["Doc of f3."], hide: false }, ..opt(&["-\u{10ffff}", "--kap", "--alpha", "-�"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-I, --iota <[X]>", doc: &["First {of} f4,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-I", "--iota", "--gamma", "-k"], Kind::One) },
            Opt { global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-1[=<[X]>]", doc: &["Doc of f5."], hide: false }, ..opt(&["-1"], Kind::Maybe) },
            Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-s, --zeta <[X]>", doc: &["[default: b]"], hide: false }, ..opt(&["-s", "--zeta"], Kind::One) },
            Opt { rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "--Mu[=<[X]>]", doc: &["Doc of f7.", "[default: ]"], hide: true }, ..opt(&["--Mu"], Kind::Maybe) },
            Opt { hyphen: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-u, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <F8>", doc: &["[default: -7]"], hide: false }, ..opt(&["-u", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--eps-i", "-\u{ffff}"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-d, --x", doc: &["First {of} f9,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-d", "--x", "--chi", "-G"], Kind::Flag) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-b <F10>", doc: &["Doc of f10.", "[default: b]"], hide: false }, ..opt(&["-b"], Kind::One) },
            Opt { rules: Rules { ..R }, shown: Shown { as_: "--helper <FOO {BAR}>", doc: &[], hide: true }, ..opt(&["--helper"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { ..R }, shown: Shown { as_: "[F1]...", doc: &[], hide: true }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f2), list(&self.f3), just(&self.f4), maybe(&self.f5), just(&self.f6), maybe(&self.f7), just(&self.f8), flag(self.f9), one(&self.f10), one(&self.f11), list(&self.f1)]];
        v
    }
}
// @@ D1
#[derive(Args)]
struct D1G0G0 {
    /// First {of} f21,
    ///
    /// 100% "more".
    #[arg(long = "\u{5c}", value_name = "[X]")]
    f21: bool,
    /// First {of} f20,
    ///
    #[arg(hide = true, value_name = "[X]", short = 'v')]
    /// 100% "more".
    #[arg(require_equals = true, default_value_t = "dd".to_string())]
    f20: String,
    #[arg(ignore_case = true, alias = "x-y")]
    #[arg(default_value = "b", long = "tau", short_alias = '2', global = true, short = 'D')]
    f22: Option<Vec<Letter>>,
}
#[derive(Args)]
struct D1G0 {
    #[arg(default_value_t = -7, global = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", require_equals = true, short = 'ࠀ')]
    f14: Option<i16>,
    /// Doc of f18.
    #[arg(allow_negative_numbers = true, long = "x", default_value = "b", short = '߿', value_name = "[X]")]
    f18: Option<Vec<Letter>>,
    #[command(flatten)]
    g25: D1G0G0,
    /// First {of} f17,
    ///
    #[arg(long = "eps-i", default_value = "", allow_negative_numbers = true)]
    /// 100% "more".
    #[arg(value_name = "a-é", short = 'b')]
    f17: Vec<OsString>,
    /// First {of} f19,
    ///
    #[arg(short = '\u{22}')]
    /// 100% "more".
    #[arg(global = true, require_equals = true, value_delimiter = ',')]
    f19: Option<Vec<String>>,
    /// Doc of f16.
    #[arg(long = "rho_s", short = 'u', require_equals = true, global = true)]
    f16: Option<Vec<String>>,
    /// First {of} f15,
    ///
    /// 100% "more".
    #[arg(value_name = "[X]", allow_negative_numbers = true, value_delimiter = ',', short = 'f', global = true, long = "gamma")]
    f15: Vec<OsString>,
}
#[derive(Args)]
struct D1G1 {
    /// Doc of f23.
    #[arg(value_delimiter = ',')]
    #[arg(allow_hyphen_values = true, short = '{')]
    f23: Vec<Letter>,
}
/// About {it}.
#[derive(Parser)]
struct D1 {
    #[command(flatten)]
    g24: D1G0,
    #[command(flatten)]
    g26: D1G1,
    /// Doc of f12.
    #[arg(value_delimiter = ',')]
    #[arg(trailing_var_arg = true)]
    f12: Vec<String>,
    #[arg(last = true)]
    f13: Option<Vec<String>>,
}
impl Told for D1 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-ࠀ, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn=<F14>", doc: &["[default: -7]"], hide: false }, ..opt(&["-ࠀ", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-f, --gamma <[X]>", doc: &["First {of} f15,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-f", "--gamma"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-u, --rho_s=<F16>", doc: &["Doc of f16."], hide: false }, ..opt(&["-u", "--rho_s"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-b, --eps-i <a-é>", doc: &["First {of} f17,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["-b", "--eps-i"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-߿, --x <[X]>", doc: &["Doc of f18.", "[default: b]"], hide: false }, ..opt(&["-߿", "--x"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{22}=<F19>", doc: &["First {of} f19,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{22}"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-v=<[X]>", doc: &["First {of} f20,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-v"], Kind::One) },
            Opt { rules: Rules { ..R }, shown: Shown { as_: "--\u{5c}", doc: &["First {of} f21,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["--\u{5c}"], Kind::Flag) },
            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-D, --tau <F22>", doc: &["[default: b]"], hide: false }, ..opt(&["-D", "--tau", "--x-y", "-2"], Kind::List) },
            Opt { hyphen: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-{ <F23>", doc: &["Doc of f23."], hide: false }, ..opt(&["-{"], Kind::List) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "[F12]...", doc: &["Doc of f12."], hide: false }, ..pos(true) },
            Pos { last: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "[F13]...", doc: &[], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.g24.f14), list(&self.g24.f15), olist(&self.g24.f16), list(&self.g24.f17), olist(&self.g24.f18), olist(&self.g24.f19), just(&self.g24.g25.f20), flag(self.g24.g25.f21), olist(&self.g24.g25.f22), list(&self.g26.f23), list(&self.f12), olist(&self.f13)]];
        v
    }
}
// @@ D2
#[derive(Args)]
struct D2AaBb {
    /// First {of} f37,
    ///
    /// 100% "more".
    #[arg(default_value = "b", value_name = "a-é", short = 'j', ignore_case = true, allow_hyphen_values = true)]
    f37: Vec<Letter>,
    /// Doc of f38.
    #[arg(allow_negative_numbers = true, short = 'I', global = true, ignore_case = true, short_alias = 'z', value_name = "FOO {BAR}", default_value = "b", alias = "omega", long = "delta")]
    f38: Option<Letter>,
    /// First {of} f27,
    ///
    #[arg(default_value = "b,a", trailing_var_arg = true)]
    /// 100% "more".
    #[arg(value_delimiter = ',')]
    f27: Vec<Letter>,
}
#[derive(Subcommand)]
enum D2Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f35.
        #[arg(value_name = "a-é", require_equals = true, long = "é-long", hide = true)]
        f35: Option<Option<i16>>,
        /// First {of} f36,
        ///
        /// 100% "more".
        #[arg(alias = "iota", allow_hyphen_values = true, global = true, long = "nu", short_alias = 'n', short = 'j', hide = true)]
        f36: Option<Letter>,
        /// Doc of f34.
        #[arg(default_value = "dd", short = 'e')]
        #[arg(hide = true, global = true, require_equals = true)]
        f34: Option<Option<String>>,
        /// Doc of f28.
        #[arg(trailing_var_arg = true, default_value = "dd", value_name = "FOO {BAR}")]
        f28: Option<Vec<String>>,
    },
    AaBb(D2AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D2 {
    #[arg(value_delimiter = ',', short = '\u{27}', global = true, default_value = "dd,e", allow_negative_numbers = true)]
    f33: Option<Vec<String>>,
    #[arg(value_delimiter = ',', long = "kappas", short = 'I', short_alias = 'e', require_equals = true, alias = "up.s", global = true)]
    f29: Vec<i16>,
    /// Doc of f32.
    #[arg(allow_negative_numbers = true, long = "omega", global = true, default_value_t = -7)]
    f32: Option<i16>,
    /// Doc of f31.
    #[arg(global = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    #[arg(default_value_t = -7, short = 'B')]
    f31: i16,
    #[arg(value_delimiter = ',', require_equals = true, alias = "pi", short_alias = 'z', default_value = "dd,e", short = '߿', long = "iota", global = true)]
    f30: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D2Cmd,
}
impl Told for D2 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-I, --kappas=<F29>", doc: &[], hide: false }, ..opt(&["-I", "--kappas", "--up.s", "-e"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-߿, --iota=<F30>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-߿", "--iota", "--pi", "-z"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-B, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <F31>", doc: &["Doc of f31.", "[default: -7]"], hide: false }, ..opt(&["-B", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--omega <F32>", doc: &["Doc of f32.", "[default: -7]"], hide: false }, ..opt(&["--omega"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{27} <F33>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-\u{27}"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-e[=<F34>]", doc: &["Doc of f34.", "[default: dd]"], hide: true }, ..opt(&["-e"], Kind::Maybe) },
                    Opt { rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "--é-long[=<a-é>]", doc: &["Doc of f35."], hide: true }, ..opt(&["--é-long"], Kind::Maybe) },
                    Opt { hyphen: true, global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-j, --nu <F36>", doc: &["First {of} f36,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-j", "--nu", "--iota", "-n"], Kind::One) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["Doc of f28.", "[default: dd]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-j <a-é>", doc: &["First {of} f37,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-j"], Kind::List) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-I, --delta <FOO {BAR}>", doc: &["Doc of f38.", "[default: b]"], hide: false }, ..opt(&["-I", "--delta", "--omega", "-z"], Kind::One) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "[F27]...", doc: &["First {of} f27,", "100% \u{22}more\u{22}.", "[default: b,a]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f29), olist(&self.f30), just(&self.f31), one(&self.f32), olist(&self.f33)]];
        match &self.cmd {
            D2Cmd::Aa { f34, f35, f36, f28 } => {
                v.push(vec![maybe(f34), maybe(f35), one(f36), olist(f28)]);
            }
            D2Cmd::AaBb(x) => {
                v.push(vec![list(&x.f37), one(&x.f38), list(&x.f27)]);
            }
            D2Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D3
#[derive(Args)]
struct D3AaBbG0 {
    #[arg(require_equals = true, value_delimiter = ',', long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    f49: Vec<i16>,
}
#[derive(Subcommand)]
enum D3AaBbCmd {
    Aa {
        #[arg(long = "alpha", short = 'x', allow_negative_numbers = true, hide = true)]
        f50: Option<Vec<OsString>>,
    },
    Zz,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D3AaBb {
    #[command(flatten)]
    g51: D3AaBbG0,
    /// First {of} f46,
    ///
    /// 100% "more".
    #[arg(short = 'r', default_value_t = Letter::B, allow_negative_numbers = true, global = true, value_name = "[X]")]
    f46: Letter,
    /// First {of} f47,
    ///
    /// 100% "more".
    #[arg(short = '2', ignore_case = true, long = "h", allow_negative_numbers = true, value_name = "[X]")]
    f47: Option<Letter>,
    #[arg(value_name = "FOO {BAR}", allow_negative_numbers = true, default_value = "b", long = "x-y", global = true)]
    f45: Vec<Letter>,
    /// Doc of f44.
    #[arg(long = "phi+", global = true, short = '\u{27}', short_alias = 'n', require_equals = true, default_value_t = "dd".to_string(), alias = "nu", value_name = "a-é")]
    f44: Option<String>,
    /// Doc of f48.
    #[arg(value_delimiter = ',')]
    #[arg(global = true, value_name = "[X]", short = 'I', require_equals = true)]
    f48: Option<Vec<Letter>>,
    #[command(subcommand)]
    cmd: D3AaBbCmd,
}
#[derive(Subcommand)]
enum D3Cmd {
    Aa {
        #[arg(allow_hyphen_values = true, long = "phi+", global = true, short = 'r')]
        f43: Option<Letter>,
        #[arg(hide = true)]
        #[arg(long = "x-y", require_equals = true, ignore_case = true, global = true, value_delimiter = ',', short = 'I')]
        f42: Vec<Letter>,
        #[arg(default_value = "-7", trailing_var_arg = true, hide = true)]
        f40: Option<Vec<i16>>,
    },
    AaBb(D3AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D3 {
    #[arg(default_value_t = Letter::B, long = "x-y", allow_negative_numbers = true)]
    f41: Option<Letter>,
    /// Doc of f39.
    #[arg(last = true)]
    f39: Vec<i16>,
    #[command(subcommand)]
    cmd: D3Cmd,
}
impl Told for D3 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--x-y <F41>", doc: &["[default: b]"], hide: false }, ..opt(&["--x-y"], Kind::One) },
        ],
        pos: &[
            Pos { last: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "[F39]...", doc: &["Doc of f39."], hide: false }, ..pos(true) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-I, --x-y=<F42>", doc: &[], hide: true }, ..opt(&["-I", "--x-y"], Kind::List) },
                    Opt { hyphen: true, global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-r, --phi+ <F43>", doc: &[], hide: false }, ..opt(&["-r", "--phi+"], Kind::One) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "[F40]...", doc: &["[default: -7]"], hide: true }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{27}, --phi+=<a-é>", doc: &["Doc of f44.", "[default: dd]"], hide: false }, ..opt(&["-\u{27}", "--phi+", "--nu", "-n"], Kind::One) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--x-y <FOO {BAR}>", doc: &["[default: b]"], hide: false }, ..opt(&["--x-y"], Kind::List) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-r <[X]>", doc: &["First {of} f46,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-r"], Kind::One) },
                    Opt { negative: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-2, --h <[X]>", doc: &["First {of} f47,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-2", "--h"], Kind::One) },
                    Opt { eq: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-I=<[X]>", doc: &["Doc of f48."], hide: false }, ..opt(&["-I"], Kind::List) },
                    Opt { eq: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn=<F49>", doc: &[], hide: false }, ..opt(&["--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { negative: true, rules: Rules { ..R }, shown: Shown { as_: "-x, --alpha <F50>", doc: &[], hide: true }, ..opt(&["-x", "--alpha"], Kind::List) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                ],
                sub_required: true,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f41), list(&self.f39)]];
        match &self.cmd {
            D3Cmd::Aa { f42, f43, f40 } => {
                v.push(vec![list(f42), one(f43), olist(f40)]);
            }
            D3Cmd::AaBb(x) => {
                v.push(vec![one(&x.f44), list(&x.f45), just(&x.f46), one(&x.f47), olist(&x.f48), list(&x.g51.f49)]);
                match &x.cmd {
                    D3AaBbCmd::Aa { f50 } => {
                        v.push(vec![olist(f50)]);
                    }
                    D3AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D3Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D4
/// About {it}.
#[derive(Parser)]
struct D4 {
    /// First {of} f59,
    ///
    #[arg(global = true, short_alias = 'g', long = "theta", alias = "x-y")]
    /// 100% "more".
    #[arg(short = 'f', allow_hyphen_values = true, ignore_case = true, value_name = "a-é")]
    f59: Option<Vec<Letter>>,
    /// First {of} f54,
    ///
    /// 100% "more".
    #[arg(ignore_case = true, short = '\u{22}', default_value = "b", long = "x", require_equals = true, global = true, hide = true, value_name = "a-é")]
    f54: Option<Option<Letter>>,
    /// Doc of f61.
    #[arg(alias = "delta", long = "omega", default_value_t = -7, short_alias = 'q', short = 'e', global = true, allow_negative_numbers = true, value_name = "a-é")]
    f61: i16,
    /// Doc of f55.
    #[arg(value_delimiter = ',', long = "gamma", require_equals = true)]
    f55: Option<Vec<OsString>>,
    /// Doc of f56.
    #[arg(require_equals = true, value_name = "FOO {BAR}", ignore_case = true, global = true, long = "iota", value_delimiter = ',')]
    f56: Option<Vec<Letter>>,
    /// First {of} f53,
    ///
    /// 100% "more".
    #[arg(global = true, short = 'F', value_name = "FOO {BAR}", require_equals = true, alias = "helper", value_delimiter = ',', long = "eps-i", short_alias = 'v')]
    f53: Option<Vec<String>>,
    /// First {of} f57,
    ///
    /// 100% "more".
    #[arg(require_equals = true, default_value = "-7", short = 'B', value_name = "a-é")]
    f57: Option<Option<i16>>,
    /// First {of} f60,
    ///
    /// 100% "more".
    #[arg(allow_hyphen_values = true, short = 'y', default_value = "dd", short_alias = 'p', value_name = "[X]", long = "omicron", alias = "beta")]
    f60: String,
    /// Doc of f58.
    #[arg(allow_negative_numbers = true, ignore_case = true, value_name = "a-é", long = "kap")]
    f58: Option<Letter>,
    /// First {of} f62,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", short = ' ', alias = "eta", short_alias = '2', long = "phi+", default_value = "dd", require_equals = true)]
    f62: Option<OsString>,
    /// Doc of f52.
    #[arg(trailing_var_arg = true, value_name = "FOO {BAR}")]
    f52: Option<Vec<OsString>>,
}
impl Told for D4 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-F, --eps-i=<FOO {BAR}>", doc: &["First {of} f53,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-F", "--eps-i", "--helper", "-v"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-\u{22}, --x[=<a-é>]", doc: &["First {of} f54,", "100% \u{22}more\u{22}.", "[default: b]"], hide: true }, ..opt(&["-\u{22}", "--x"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "--gamma=<F55>", doc: &["Doc of f55."], hide: false }, ..opt(&["--gamma"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--iota=<FOO {BAR}>", doc: &["Doc of f56."], hide: false }, ..opt(&["--iota"], Kind::List) },
            Opt { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-B[=<a-é>]", doc: &["First {of} f57,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-B"], Kind::Maybe) },
            Opt { negative: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--kap <a-é>", doc: &["Doc of f58."], hide: false }, ..opt(&["--kap"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-f, --theta <a-é>", doc: &["First {of} f59,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-f", "--theta", "--x-y", "-g"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-y, --omicron <[X]>", doc: &["First {of} f60,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-y", "--omicron", "--beta", "-p"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-e, --omega <a-é>", doc: &["Doc of f61.", "[default: -7]"], hide: false }, ..opt(&["-e", "--omega", "--delta", "-q"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "- , --phi+=<a-é>", doc: &["First {of} f62,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["- ", "--phi+", "--eta", "-2"], Kind::One) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["Doc of f52."], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![olist(&self.f53), maybe(&self.f54), olist(&self.f55), olist(&self.f56), maybe(&self.f57), one(&self.f58), olist(&self.f59), just(&self.f60), just(&self.f61), one(&self.f62), olist(&self.f52)]];
        v
    }
}
// @@ D5
#[derive(Args)]
struct D5G0G0 {
    /// Doc of f73.
    #[arg(require_equals = true, global = true, long = "kappa", hide = true, default_value_t = "dd".to_string())]
    f73: Option<String>,
    /// First {of} f71,
    ///
    /// 100% "more".
    #[arg(allow_hyphen_values = true, global = true, short = 'b', default_value = "b")]
    f71: Option<Vec<Letter>>,
    /// First {of} f72,
    ///
    #[arg(long = "tau", short_alias = '\u{5c}', value_name = "[X]", default_value = "dd,e")]
    /// 100% "more".
    #[arg(allow_negative_numbers = true, short = '\u{d7ff}', alias = "omega", value_delimiter = ',')]
    f72: Option<Vec<String>>,
}
#[derive(Args)]
struct D5G0 {
    #[arg(default_value_t = Letter::B, alias = "kappas", global = true, short = 'e', require_equals = true, value_name = "[X]", hide = true, short_alias = '�', long = "é-long")]
    f67: Option<Letter>,
    /// First {of} f69,
    ///
    /// 100% "more".
    #[arg(default_value = "b", hide = true, short_alias = '𐀀', value_name = "[X]", long = "eps-i", allow_hyphen_values = true, alias = "x-y", ignore_case = true, global = true, short = 'J')]
    f69: Letter,
    #[arg(default_value_t = "dd".to_string())]
    #[arg(allow_negative_numbers = true, global = true, long = "x2")]
    f70: String,
    /// First {of} f66,
    ///
    /// 100% "more".
    #[arg(allow_hyphen_values = true, value_name = "FOO {BAR}", global = true, long = "psi", default_value = "-7", hide = true)]
    f66: Option<Vec<i16>>,
    /// Doc of f68.
    #[arg(long = "helper", short = 'ࠀ', value_name = "[X]", global = true, require_equals = true)]
    f68: Option<Option<i16>>,
    #[command(flatten)]
    g75: D5G0G0,
}
#[derive(Parser)]
struct D5 {
    /// Doc of f65.
    #[arg(short = 'q', value_name = "FOO {BAR}", allow_hyphen_values = true, default_value = "-7", hide = true, global = true)]
    f65: Option<i16>,
    #[command(flatten)]
    g74: D5G0,
    #[arg(require_equals = true, value_name = "[X]", short = '\u{10ffff}', default_value = "dd")]
    f64: Option<Option<OsString>>,
    f63: Option<String>,
}
impl Told for D5 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-\u{10ffff}[=<[X]>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-\u{10ffff}"], Kind::Maybe) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-q <FOO {BAR}>", doc: &["Doc of f65.", "[default: -7]"], hide: true }, ..opt(&["-q"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--psi <FOO {BAR}>", doc: &["First {of} f66,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: true }, ..opt(&["--psi"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-e, --é-long=<[X]>", doc: &["[default: b]"], hide: true }, ..opt(&["-e", "--é-long", "--kappas", "-�"], Kind::One) },
            Opt { global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-ࠀ, --helper[=<[X]>]", doc: &["Doc of f68."], hide: false }, ..opt(&["-ࠀ", "--helper"], Kind::Maybe) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-J, --eps-i <[X]>", doc: &["First {of} f69,", "100% \u{22}more\u{22}.", "[default: b]"], hide: true }, ..opt(&["-J", "--eps-i", "--x-y", "-𐀀"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--x2 <F70>", doc: &["[default: dd]"], hide: false }, ..opt(&["--x2"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-b <F71>", doc: &["First {of} f71,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-b"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{d7ff}, --tau <[X]>", doc: &["First {of} f72,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-\u{d7ff}", "--tau", "--omega", "-\u{5c}"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--kappa=<F73>", doc: &["Doc of f73.", "[default: dd]"], hide: true }, ..opt(&["--kappa"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "[F63]", doc: &[], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f64), one(&self.f65), olist(&self.g74.f66), one(&self.g74.f67), maybe(&self.g74.f68), just(&self.g74.f69), just(&self.g74.f70), olist(&self.g74.g75.f71), olist(&self.g74.g75.f72), one(&self.g74.g75.f73), one(&self.f63)]];
        v
    }
}
// @@ D6
#[derive(Args)]
struct D6AaBbG0 {
    /// First {of} f85,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", default_value_t = Letter::B, allow_hyphen_values = true, long = "chi", short = '\u{22}', global = true)]
    f85: Letter,
    #[arg(allow_hyphen_values = true)]
    #[arg(default_value = "dd", long = "eta")]
    f86: OsString,
}
#[derive(Args)]
struct D6AaBb {
    #[arg(allow_negative_numbers = true, long = "omicron", default_value = "", short = 'H', value_name = "a-é")]
    f83: OsString,
    #[command(flatten)]
    g87: D6AaBbG0,
    /// Doc of f81.
    #[arg(value_delimiter = ',', default_value = "b,a", global = true, short = 't', require_equals = true, value_name = "FOO {BAR}", ignore_case = true)]
    f81: Vec<Letter>,
    /// First {of} f80,
    ///
    /// 100% "more".
    #[arg(global = true, default_value = "dd", short = 'G', allow_negative_numbers = true)]
    f80: OsString,
    /// First {of} f82,
    ///
    /// 100% "more".
    #[arg(default_value_t = true, global = true, short = 'f', hide = true, long = "eps-i")]
    f82: bool,
    #[arg(value_name = "a-é", default_value = "b", short = 'A', long = "tau", global = true, allow_negative_numbers = true)]
    f84: Option<Letter>,
}
#[derive(Subcommand)]
enum D6Cmd {
    Aa {
        /// First {of} f79,
        ///
        /// 100% "more".
        #[arg(ignore_case = true, global = true, long = "omicron", value_name = "a-é", default_value = "b")]
        f79: Option<Letter>,
    },
    AaBb(D6AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D6 {
    #[arg(short = '\u{22}', allow_negative_numbers = true, value_name = "FOO {BAR}", default_value_t = -7, global = true)]
    f77: Option<i16>,
    /// First {of} f78,
    ///
    /// 100% "more".
    #[arg(global = true, allow_negative_numbers = true, value_name = "a-é", short = 'H', long = "chi")]
    f78: Option<Vec<i16>>,
    /// First {of} f76,
    ///
    /// 100% "more".
    #[arg(value_delimiter = ',', value_name = "a-é", default_value = "dd,e")]
    f76: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: Option<D6Cmd>,
}
impl Told for D6 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-\u{22} <FOO {BAR}>", doc: &["[default: -7]"], hide: false }, ..opt(&["-\u{22}"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-H, --chi <a-é>", doc: &["First {of} f78,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-H", "--chi"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "[a-é]...", doc: &["First {of} f76,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--omicron <a-é>", doc: &["First {of} f79,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["--omicron"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-G <F80>", doc: &["First {of} f80,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-G"], Kind::One) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-t=<FOO {BAR}>", doc: &["Doc of f81.", "[default: b,a]"], hide: false }, ..opt(&["-t"], Kind::List) },
                    Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-f, --eps-i", doc: &["First {of} f82,", "100% \u{22}more\u{22}.", "[default: true]"], hide: true }, ..opt(&["-f", "--eps-i"], Kind::Flag) },
                    Opt { negative: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-H, --omicron <a-é>", doc: &["[default: ]"], hide: false }, ..opt(&["-H", "--omicron"], Kind::One) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-A, --tau <a-é>", doc: &["[default: b]"], hide: false }, ..opt(&["-A", "--tau"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-\u{22}, --chi <a-é>", doc: &["First {of} f85,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-\u{22}", "--chi"], Kind::One) },
                    Opt { hyphen: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--eta <F86>", doc: &["[default: dd]"], hide: false }, ..opt(&["--eta"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f77), olist(&self.f78), olist(&self.f76)]];
        match &self.cmd {
            Some(D6Cmd::Aa { f79 }) => {
                v.push(vec![one(f79)]);
            }
            Some(D6Cmd::AaBb(x)) => {
                v.push(vec![just(&x.f80), list(&x.f81), flag(x.f82), just(&x.f83), one(&x.f84), just(&x.g87.f85), just(&x.g87.f86)]);
            }
            Some(D6Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D7
#[derive(Args)]
struct D7AaG0 {
    #[arg(ignore_case = true, long = "rho_s", require_equals = true, global = true)]
    f90: Option<Option<Letter>>,
}
#[derive(Subcommand)]
enum D7AaBbCmd {
    Aa {
        /// First {of} f95,
        ///
        #[arg(require_equals = true, long = "chi")]
        /// 100% "more".
        #[arg(value_name = "[X]", default_value = "dd")]
        f95: Option<Option<String>>,
        /// Doc of f96.
        #[arg(default_value = "dd,e", global = true, short = 'q')]
        #[arg(value_name = "FOO {BAR}", value_delimiter = ',', allow_hyphen_values = true)]
        f96: Option<Vec<OsString>>,
        /// Doc of f97.
        #[arg(require_equals = true)]
        #[arg(value_name = "FOO {BAR}", default_value = "b", long = "phi+", short = 'n')]
        f97: Option<Option<Letter>>,
        /// Doc of f98.
        #[arg(allow_negative_numbers = true, short = 's')]
        #[arg(global = true)]
        f98: Option<Vec<i16>>,
        #[arg(default_value = "dd")]
        f88: Vec<String>,
    },
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D7AaBb {
    /// First {of} f92,
    ///
    /// 100% "more".
    #[arg(allow_negative_numbers = true, long = "tau", default_value = "b", short_alias = 'n', short = 'r', ignore_case = true, alias = "eta")]
    f92: Option<Vec<Letter>>,
    /// Doc of f91.
    #[arg(alias = "chi", short_alias = 'x', global = true, short = 'I')]
    #[arg(long = "x", value_name = "a-é", require_equals = true)]
    f91: Option<i16>,
    #[arg(alias = "phi+", short = '😀', allow_negative_numbers = true, global = true, long = "rho_s", default_value = "-7,8", short_alias = 'q', value_delimiter = ',')]
    f93: Vec<i16>,
    #[arg(allow_negative_numbers = true, long = "up.s", default_value = "dd", value_name = "a-é")]
    f94: Option<OsString>,
    #[command(subcommand)]
    cmd: D7AaBbCmd,
}
#[derive(Subcommand)]
enum D7Cmd {
    /// About {it}.
    Aa {
        #[arg(hide = true, short = 'r')]
        #[arg(ignore_case = true, value_name = "FOO {BAR}", long = "tau", short_alias = 'n', alias = "chi", require_equals = true)]
        f89: Option<Option<Letter>>,
        #[command(flatten)]
        g99: D7AaG0,
    },
    AaBb(D7AaBb),
    /// About {it}.
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D7 {
    #[command(subcommand)]
    cmd: Option<D7Cmd>,
}
impl Told for D7 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-r, --tau[=<FOO {BAR}>]", doc: &[], hide: true }, ..opt(&["-r", "--tau", "--chi", "-n"], Kind::Maybe) },
                    Opt { global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--rho_s[=<F90>]", doc: &[], hide: false }, ..opt(&["--rho_s"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-I, --x=<a-é>", doc: &["Doc of f91."], hide: false }, ..opt(&["-I", "--x", "--chi", "-x"], Kind::One) },
                    Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-r, --tau <F92>", doc: &["First {of} f92,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-r", "--tau", "--eta", "-n"], Kind::List) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-😀, --rho_s <F93>", doc: &["[default: -7,8]"], hide: false }, ..opt(&["-😀", "--rho_s", "--phi+", "-q"], Kind::List) },
                    Opt { negative: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--up.s <a-é>", doc: &["[default: dd]"], hide: false }, ..opt(&["--up.s"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--chi[=<[X]>]", doc: &["First {of} f95,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["--chi"], Kind::Maybe) },
                            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-q <FOO {BAR}>", doc: &["Doc of f96.", "[default: dd,e]"], hide: false }, ..opt(&["-q"], Kind::List) },
                            Opt { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-n, --phi+[=<FOO {BAR}>]", doc: &["Doc of f97.", "[default: b]"], hide: false }, ..opt(&["-n", "--phi+"], Kind::Maybe) },
                            Opt { negative: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-s <F98>", doc: &["Doc of f98."], hide: false }, ..opt(&["-s"], Kind::List) },
                        ],
                        pos: &[
                            Pos { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "[F88]...", doc: &["[default: dd]"], hide: false }, ..pos(true) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                ],
                sub_required: true,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            Some(D7Cmd::Aa { f89, g99 }) => {
                v.push(vec![maybe(f89), maybe(&g99.f90)]);
            }
            Some(D7Cmd::AaBb(x)) => {
                v.push(vec![one(&x.f91), olist(&x.f92), list(&x.f93), one(&x.f94)]);
                match &x.cmd {
                    D7AaBbCmd::Aa { f95, f96, f97, f98, f88 } => {
                        v.push(vec![maybe(f95), olist(f96), maybe(f97), olist(f98), list(f88)]);
                    }
                    D7AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D7Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D8
#[derive(Args)]
struct D8G0 {
    /// First {of} f110,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", short = 'm')]
    f110: Option<Vec<i16>>,
    /// Doc of f108.
    #[arg(long = "chi", default_value = "dd")]
    #[arg(value_name = "[X]")]
    f108: OsString,
    /// First {of} f107,
    ///
    /// 100% "more".
    #[arg(default_value = "", long = "{}", alias = "zeta", short = '߿', short_alias = 'H', allow_negative_numbers = true)]
    f107: String,
    /// Doc of f109.
    #[arg(short = ' ', value_name = "FOO {BAR}", alias = "rho_s", global = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", short_alias = 'G')]
    f109: bool,
    /// First {of} f106,
    ///
    #[arg(alias = "\u{5c}", short = 'y', long = "omicron")]
    /// 100% "more".
    #[arg(require_equals = true, short_alias = 'w')]
    f106: Option<Option<i16>>,
}
/// About {it}.
#[derive(Parser)]
struct D8 {
    #[arg(short = 'c', long = "pi", value_name = "[X]", require_equals = true)]
    f101: Option<String>,
    /// Doc of f104.
    #[arg(default_value = "dd", require_equals = true, long = "x2", value_name = "[X]", short = 'F')]
    f104: OsString,
    /// Doc of f102.
    #[arg(require_equals = true, long = "eta", value_name = "a-é")]
    f102: Option<Letter>,
    #[arg(ignore_case = true, require_equals = true)]
    #[arg(short = 'v', short_alias = '0', value_name = "[X]", hide = true, global = true, alias = "eps-i", long = "h")]
    f105: Option<Letter>,
    #[command(flatten)]
    g111: D8G0,
    /// Doc of f103.
    #[arg(value_name = "a-é", long = "gamma", require_equals = true, global = true, short = '\u{ffff}')]
    f103: Option<Option<Letter>>,
    #[arg(value_name = "FOO {BAR}", value_delimiter = ',', trailing_var_arg = true)]
    f100: Vec<i16>,
}
impl Told for D8 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-c, --pi=<[X]>", doc: &[], hide: false }, ..opt(&["-c", "--pi"], Kind::One) },
            Opt { eq: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "--eta=<a-é>", doc: &["Doc of f102."], hide: false }, ..opt(&["--eta"], Kind::One) },
            Opt { global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-\u{ffff}, --gamma[=<a-é>]", doc: &["Doc of f103."], hide: false }, ..opt(&["-\u{ffff}", "--gamma"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-F, --x2=<[X]>", doc: &["Doc of f104.", "[default: dd]"], hide: false }, ..opt(&["-F", "--x2"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-v, --h=<[X]>", doc: &[], hide: true }, ..opt(&["-v", "--h", "--eps-i", "-0"], Kind::One) },
            Opt { rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-y, --omicron[=<F106>]", doc: &["First {of} f106,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-y", "--omicron", "--\u{5c}", "-w"], Kind::Maybe) },
            Opt { negative: true, rules: Rules { default: Some(""), ty: Ty::Text, ..R }, shown: Shown { as_: "-߿, --{} <F107>", doc: &["First {of} f107,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["-߿", "--{}", "--zeta", "-H"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--chi <[X]>", doc: &["Doc of f108.", "[default: dd]"], hide: false }, ..opt(&["--chi"], Kind::One) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "- , --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", doc: &["Doc of f109."], hide: false }, ..opt(&["- ", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--rho_s", "-G"], Kind::Flag) },
            Opt { rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-m <a-é>", doc: &["First {of} f110,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-m"], Kind::List) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &[], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f101), one(&self.f102), maybe(&self.f103), just(&self.f104), one(&self.f105), maybe(&self.g111.f106), just(&self.g111.f107), just(&self.g111.f108), flag(self.g111.f109), olist(&self.g111.f110), list(&self.f100)]];
        v
    }
}
// @@ D9
#[derive(Args)]
struct D9G0 {
    #[arg(value_delimiter = ',', long = "helper", default_value = "b,a", require_equals = true, value_name = "FOO {BAR}")]
    f118: Vec<Letter>,
    #[arg(alias = "omega")]
    #[arg(default_value = "", short_alias = '\u{80}', allow_negative_numbers = true, short = 'e', value_name = "a-é", long = "kappas")]
    f117: Option<String>,
    /// First {of} f116,
    ///
    /// 100% "more".
    #[arg(global = true, long = "a b", short = 'f', alias = "eps-i", hide = true, short_alias = 'w')]
    f116: Option<i16>,
}
#[derive(Args)]
struct D9G1 {
    #[arg(value_name = "FOO {BAR}", allow_negative_numbers = true, default_value = "-7", global = true, short = 'I')]
    f122: Option<i16>,
    #[arg(short = '\u{ffff}', value_delimiter = ',', allow_negative_numbers = true, default_value = "dd,e", global = true, value_name = "FOO {BAR}")]
    f121: Vec<OsString>,
    /// First {of} f120,
    ///
    /// 100% "more".
    #[arg(short = 'u', default_value_t = "dd".to_string())]
    f120: Option<String>,
    #[arg(allow_negative_numbers = true, short = 'é')]
    f119: Vec<Letter>,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D9 {
    /// First {of} f113,
    ///
    #[arg(default_value = "b", value_name = "a-é", short_alias = 'l', alias = "é-long")]
    /// 100% "more".
    #[arg(long = "nu", require_equals = true, short = 'J')]
    f113: Option<Option<Letter>>,
    #[command(flatten)]
    g124: D9G1,
    /// Doc of f114.
    #[arg(hide = true, ignore_case = true, long = "q\u{22}q", value_name = "[X]", default_value_t = Letter::B, require_equals = true)]
    f114: Letter,
    #[command(flatten)]
    g123: D9G0,
    /// Doc of f115.
    #[arg(default_value = "b", ignore_case = true)]
    #[arg(long = "x2", require_equals = true)]
    f115: Option<Option<Letter>>,
    #[arg(hide = true, default_value = "dd")]
    f112: Option<OsString>,
}
impl Told for D9 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-J, --nu[=<a-é>]", doc: &["First {of} f113,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-J", "--nu", "--é-long", "-l"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--q\u{22}q=<[X]>", doc: &["Doc of f114.", "[default: b]"], hide: true }, ..opt(&["--q\u{22}q"], Kind::One) },
            Opt { rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--x2[=<F115>]", doc: &["Doc of f115.", "[default: b]"], hide: false }, ..opt(&["--x2"], Kind::Maybe) },
            Opt { global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-f, --a b <F116>", doc: &["First {of} f116,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-f", "--a b", "--eps-i", "-w"], Kind::One) },
            Opt { negative: true, rules: Rules { default: Some(""), ty: Ty::Text, ..R }, shown: Shown { as_: "-e, --kappas <a-é>", doc: &["[default: ]"], hide: false }, ..opt(&["-e", "--kappas", "--omega", "-\u{80}"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "--helper=<FOO {BAR}>", doc: &["[default: b,a]"], hide: false }, ..opt(&["--helper"], Kind::List) },
            Opt { negative: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-é <F119>", doc: &[], hide: false }, ..opt(&["-é"], Kind::List) },
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-u <F120>", doc: &["First {of} f120,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-u"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{ffff} <FOO {BAR}>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-\u{ffff}"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-I <FOO {BAR}>", doc: &["[default: -7]"], hide: false }, ..opt(&["-I"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "[F112]", doc: &["[default: dd]"], hide: true }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f113), just(&self.f114), maybe(&self.f115), one(&self.g123.f116), one(&self.g123.f117), list(&self.g123.f118), list(&self.g124.f119), one(&self.g124.f120), list(&self.g124.f121), one(&self.g124.f122), one(&self.f112)]];
        v
    }
}
// @@ D10
#[derive(Args)]
struct D10AaG0 {
    /// Doc of f131.
    #[arg(allow_hyphen_values = true, global = true, value_name = "FOO {BAR}", long = "h")]
    f131: Vec<Letter>,
    #[arg(default_value_t = -7, short = 'p', value_name = "a-é", require_equals = true)]
    f132: Option<i16>,
    #[arg(value_name = "[X]", alias = "a b", allow_hyphen_values = true, short_alias = ' ', long = "delta", short = 'g', default_value = "-7")]
    f130: Vec<i16>,
}
#[derive(Args)]
struct D10AaBbG0G0 {
    /// First {of} f135,
    ///
    #[arg(short = 'u', short_alias = '→')]
    /// 100% "more".
    #[arg(allow_hyphen_values = true, alias = "phi+", value_name = "[X]", long = "a b")]
    f135: Option<i16>,
}
#[derive(Args)]
struct D10AaBbG0 {
    #[command(flatten)]
    g138: D10AaBbG0G0,
    /// First {of} f134,
    ///
    /// 100% "more".
    #[arg(global = true, require_equals = true, long = "delta", short = '\u{ffff}')]
    f134: Option<Option<OsString>>,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D10AaBb {
    #[command(flatten)]
    g137: D10AaBbG0,
    /// First {of} f133,
    ///
    /// 100% "more".
    #[arg(long = "iota", short = '3', alias = "eps-i", hide = true, short_alias = 'w', allow_negative_numbers = true, global = true)]
    f133: Option<OsString>,
}
#[derive(Subcommand)]
enum D10Cmd {
    Aa {
        /// Doc of f128.
        #[arg(require_equals = true, short = '3', value_name = "FOO {BAR}", global = true)]
        f128: Vec<OsString>,
        #[command(flatten)]
        g136: D10AaG0,
        /// First {of} f129,
        ///
        /// 100% "more".
        #[arg(default_value_t = "dd".to_string(), allow_hyphen_values = true, short = 'E', long = "phi+")]
        f129: String,
        /// Doc of f125.
        #[arg(trailing_var_arg = true)]
        f125: Vec<Letter>,
    },
    AaBb(D10AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D10 {
    #[arg(long = "delta", global = true, value_name = "a-é", require_equals = true)]
    f127: Option<Option<String>>,
    /// First {of} f126,
    ///
    /// 100% "more".
    #[arg(long = "kap", value_name = "[X]", default_value = "b,a", short = 'p', value_delimiter = ',', short_alias = 'g', allow_hyphen_values = true, alias = "a b")]
    f126: Option<Vec<Letter>>,
    #[command(subcommand)]
    cmd: Option<D10Cmd>,
}
impl Told for D10 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-p, --kap <[X]>", doc: &["First {of} f126,", "100% \u{22}more\u{22}.", "[default: b,a]"], hide: false }, ..opt(&["-p", "--kap", "--a b", "-g"], Kind::List) },
            Opt { global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "--delta[=<a-é>]", doc: &[], hide: false }, ..opt(&["--delta"], Kind::Maybe) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-3=<FOO {BAR}>", doc: &["Doc of f128."], hide: false }, ..opt(&["-3"], Kind::List) },
                    Opt { hyphen: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-E, --phi+ <F129>", doc: &["First {of} f129,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-E", "--phi+"], Kind::One) },
                    Opt { hyphen: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-g, --delta <[X]>", doc: &["[default: -7]"], hide: false }, ..opt(&["-g", "--delta", "--a b", "- "], Kind::List) },
                    Opt { hyphen: true, global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "--h <FOO {BAR}>", doc: &["Doc of f131."], hide: false }, ..opt(&["--h"], Kind::List) },
                    Opt { eq: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-p=<a-é>", doc: &["[default: -7]"], hide: false }, ..opt(&["-p"], Kind::One) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "[F125]...", doc: &["Doc of f125."], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-3, --iota <F133>", doc: &["First {of} f133,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-3", "--iota", "--eps-i", "-w"], Kind::One) },
                    Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-\u{ffff}, --delta[=<F134>]", doc: &["First {of} f134,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{ffff}", "--delta"], Kind::Maybe) },
                    Opt { hyphen: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-u, --a b <[X]>", doc: &["First {of} f135,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-u", "--a b", "--phi+", "-→"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.f126), maybe(&self.f127)]];
        match &self.cmd {
            Some(D10Cmd::Aa { f128, f129, g136, f125 }) => {
                v.push(vec![list(f128), just(f129), list(&g136.f130), list(&g136.f131), one(&g136.f132), list(f125)]);
            }
            Some(D10Cmd::AaBb(x)) => {
                v.push(vec![one(&x.f133), maybe(&x.g137.f134), one(&x.g137.g138.f135)]);
            }
            Some(D10Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D11
#[derive(Subcommand)]
enum D11AaBbCmd {
    /// About {it}.
    Aa {
        #[arg(alias = "{}", value_name = "a-é", short = '😀', default_value_t = true)]
        #[arg(short_alias = '\u{e000}', long = "alpha")]
        f147: bool,
        /// First {of} f148,
        ///
        /// 100% "more".
        #[arg(global = true, long = "kappas", hide = true, short = 'I', value_name = "FOO {BAR}", allow_negative_numbers = true, value_delimiter = ',', default_value = "dd,e")]
        f148: Option<Vec<String>>,
        /// First {of} f149,
        ///
        /// 100% "more".
        #[arg(short = 'G', global = true, long = "rho_s", alias = "h", ignore_case = true, require_equals = true, short_alias = '→', default_value = "b", value_name = "a-é")]
        f149: Option<Option<Letter>>,
    },
    /// About {it}.
    Zz,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D11AaBb {
    /// Doc of f146.
    #[arg(require_equals = true, short_alias = 'l', default_value = "-7,8", value_delimiter = ',', alias = "h", short = 'I', long = "rho_s", value_name = "FOO {BAR}", global = true)]
    f146: Option<Vec<i16>>,
    #[arg(value_delimiter = ',', value_name = "FOO {BAR}", last = true, default_value = "dd,e")]
    f139: Option<Vec<String>>,
    #[command(subcommand)]
    cmd: D11AaBbCmd,
}
#[derive(Subcommand)]
enum D11Cmd {
    Aa {
        /// First {of} f145,
        ///
        /// 100% "more".
        #[arg(hide = true, allow_negative_numbers = true, short = '😀', value_delimiter = ',', default_value = "dd,e", global = true)]
        f145: Vec<String>,
        /// First {of} f142,
        ///
        /// 100% "more".
        #[arg(require_equals = true, long = "a b", default_value = "b", ignore_case = true)]
        f142: Vec<Letter>,
        #[arg(short = '\u{27}', allow_hyphen_values = true, long = "x-y", global = true, value_delimiter = ',')]
        f144: Option<Vec<Letter>>,
        /// First {of} f143,
        ///
        /// 100% "more".
        #[arg(require_equals = true, long = "\u{5c}", short = '3')]
        f143: Option<Option<String>>,
        /// Doc of f141.
        #[arg(alias = "chi", global = true, default_value = "dd", short_alias = 'z', short = 'D', value_name = "a-é", long = "h")]
        f141: Vec<OsString>,
    },
    AaBb(D11AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D11 {
    #[arg(long = "a b", short = 'D', default_value = "dd,e", value_delimiter = ',')]
    #[arg(value_name = "FOO {BAR}")]
    f140: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D11Cmd,
}
impl Told for D11 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-D, --a b <FOO {BAR}>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-D", "--a b"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-D, --h <a-é>", doc: &["Doc of f141.", "[default: dd]"], hide: false }, ..opt(&["-D", "--h", "--chi", "-z"], Kind::List) },
                    Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--a b=<F142>", doc: &["First {of} f142,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["--a b"], Kind::List) },
                    Opt { rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-3, --\u{5c}[=<F143>]", doc: &["First {of} f143,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-3", "--\u{5c}"], Kind::Maybe) },
                    Opt { hyphen: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-\u{27}, --x-y <F144>", doc: &[], hide: false }, ..opt(&["-\u{27}", "--x-y"], Kind::List) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-😀 <F145>", doc: &["First {of} f145,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: true }, ..opt(&["-😀"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-I, --rho_s=<FOO {BAR}>", doc: &["Doc of f146.", "[default: -7,8]"], hide: false }, ..opt(&["-I", "--rho_s", "--h", "-l"], Kind::List) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-😀, --alpha", doc: &["[default: true]"], hide: false }, ..opt(&["-😀", "--alpha", "--{}", "-\u{e000}"], Kind::Flag) },
                            Opt { negative: true, global: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-I, --kappas <FOO {BAR}>", doc: &["First {of} f148,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: true }, ..opt(&["-I", "--kappas"], Kind::List) },
                            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-G, --rho_s[=<a-é>]", doc: &["First {of} f149,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-G", "--rho_s", "--h", "-→"], Kind::Maybe) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.f140)]];
        match &self.cmd {
            D11Cmd::Aa { f141, f142, f143, f144, f145 } => {
                v.push(vec![list(f141), list(f142), maybe(f143), olist(f144), list(f145)]);
            }
            D11Cmd::AaBb(x) => {
                v.push(vec![olist(&x.f146), olist(&x.f139)]);
                match &x.cmd {
                    D11AaBbCmd::Aa { f147, f148, f149 } => {
                        v.push(vec![flag(*f147), olist(f148), maybe(f149)]);
                    }
                    D11AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D11Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D12
#[derive(Args)]
struct D12G0 {
    /// First {of} f158,
    ///
    /// 100% "more".
    #[arg(global = true, default_value_t = Letter::B, value_name = "FOO {BAR}", long = "beta", short = 't', allow_negative_numbers = true, ignore_case = true)]
    f158: Letter,
    /// Doc of f156.
    #[arg(allow_negative_numbers = true, value_name = "a-é", default_value_t = Letter::B, ignore_case = true, hide = true, short = '𐀀')]
    f156: Letter,
    #[arg(value_name = "a-é", value_delimiter = ',', require_equals = true)]
    #[arg(short = 'p')]
    f159: Vec<String>,
    #[arg(default_value = "", hide = true, allow_hyphen_values = true, short = 'x')]
    f157: Vec<String>,
    /// Doc of f160.
    #[arg(allow_negative_numbers = true, alias = "{}", global = true)]
    #[arg(ignore_case = true, short_alias = 'k', default_value_t = Letter::B, short = '�', hide = true, long = "nu")]
    f160: Letter,
}
/// About {it}.
#[derive(Parser)]
struct D12 {
    #[command(flatten)]
    g161: D12G0,
    /// First {of} f154,
    ///
    #[arg(long = "omicron", global = true)]
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", short = 'b')]
    f154: bool,
    /// Doc of f153.
    #[arg(short = 's', long = "Mu", allow_hyphen_values = true, global = true, ignore_case = true)]
    f153: Vec<Letter>,
    /// Doc of f155.
    #[arg(require_equals = true, hide = true, value_name = "[X]", default_value = "dd", short = 'v')]
    f155: OsString,
    /// Doc of f152.
    #[arg(default_value_t = Letter::B, short = '2', long = "up.s", hide = true)]
    f152: Option<Letter>,
    #[arg(allow_negative_numbers = true, value_name = "a-é")]
    #[arg(global = true, long = "é-long")]
    f151: Option<i16>,
    /// First {of} f150,
    ///
    /// 100% "more".
    #[arg(default_value = "b")]
    f150: Option<Letter>,
}
impl Told for D12 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "--é-long <a-é>", doc: &[], hide: false }, ..opt(&["--é-long"], Kind::One) },
            Opt { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-2, --up.s <F152>", doc: &["Doc of f152.", "[default: b]"], hide: true }, ..opt(&["-2", "--up.s"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-s, --Mu <F153>", doc: &["Doc of f153."], hide: false }, ..opt(&["-s", "--Mu"], Kind::List) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-b, --omicron", doc: &["First {of} f154,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-b", "--omicron"], Kind::Flag) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-v=<[X]>", doc: &["Doc of f155.", "[default: dd]"], hide: true }, ..opt(&["-v"], Kind::One) },
            Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-𐀀 <a-é>", doc: &["Doc of f156.", "[default: b]"], hide: true }, ..opt(&["-𐀀"], Kind::One) },
            Opt { hyphen: true, rules: Rules { default: Some(""), ty: Ty::Text, ..R }, shown: Shown { as_: "-x <F157>", doc: &["[default: ]"], hide: true }, ..opt(&["-x"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-t, --beta <FOO {BAR}>", doc: &["First {of} f158,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-t", "--beta"], Kind::One) },
            Opt { eq: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-p=<a-é>", doc: &[], hide: false }, ..opt(&["-p"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-�, --nu <F160>", doc: &["Doc of f160.", "[default: b]"], hide: true }, ..opt(&["-�", "--nu", "--{}", "-k"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "[F150]", doc: &["First {of} f150,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f151), one(&self.f152), list(&self.f153), flag(self.f154), just(&self.f155), just(&self.g161.f156), list(&self.g161.f157), just(&self.g161.f158), list(&self.g161.f159), just(&self.g161.f160), one(&self.f150)]];
        v
    }
}
// @@ D13
#[derive(Args)]
struct D13G0 {
    #[arg(long = "chi", value_name = "FOO {BAR}", value_delimiter = ',')]
    #[arg(default_value = "-7,8")]
    f167: Vec<i16>,
    /// First {of} f166,
    ///
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", default_value_t = true, global = true, short = 'z')]
    f166: bool,
}
#[derive(Args)]
struct D13G1G0 {
    /// Doc of f170.
    #[arg(hide = true, short_alias = 'y', short = 'B', value_name = "FOO {BAR}", require_equals = true, default_value = "dd", alias = "iota", long = "phi+")]
    f170: Option<Vec<String>>,
    /// Doc of f169.
    #[arg(long = "eps-i", ignore_case = true, value_name = "FOO {BAR}", require_equals = true, short = 'e')]
    f169: Option<Option<Letter>>,
    #[arg(alias = "delta", value_name = "FOO {BAR}", long = "psi", default_value = "-7", global = true, short = 'w', short_alias = 'i', allow_hyphen_values = true)]
    f172: i16,
    /// Doc of f171.
    #[arg(alias = "kappa", allow_negative_numbers = true, short = '߿', long = "pi", default_value_t = "dd".to_string(), short_alias = 'd')]
    f171: Option<String>,
}
#[derive(Args)]
struct D13G1 {
    #[command(flatten)]
    g175: D13G1G0,
    /// First {of} f168,
    ///
    #[arg(long = "helper", short_alias = '𐀀', short = 'C', allow_hyphen_values = true)]
    /// 100% "more".
    #[arg(default_value_t = Letter::B, ignore_case = true, alias = "kap")]
    f168: Option<Letter>,
}
#[derive(Args)]
struct D13G2 {
}
#[derive(Parser)]
struct D13 {
    #[command(flatten)]
    g173: D13G0,
    #[command(flatten)]
    g174: D13G1,
    /// First {of} f163,
    ///
    /// 100% "more".
    #[arg(long = "Mu", require_equals = true, global = true, default_value = "")]
    f163: OsString,
    #[arg(ignore_case = true, short = '\u{ffff}', require_equals = true, value_name = "a-é", value_delimiter = ',', alias = "é-long", short_alias = 'G', long = "up.s")]
    f165: Vec<Letter>,
    #[command(flatten)]
    g176: D13G2,
    /// Doc of f164.
    #[arg(short = 'n', hide = true, value_name = "a-é", global = true, require_equals = true)]
    f164: Option<OsString>,
    /// Doc of f162.
    #[arg(default_value = "-7,8")]
    #[arg(trailing_var_arg = true, value_delimiter = ',')]
    f162: Vec<i16>,
}
impl Told for D13 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "--Mu=<F163>", doc: &["First {of} f163,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["--Mu"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-n=<a-é>", doc: &["Doc of f164."], hide: true }, ..opt(&["-n"], Kind::One) },
            Opt { eq: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-\u{ffff}, --up.s=<a-é>", doc: &[], hide: false }, ..opt(&["-\u{ffff}", "--up.s", "--é-long", "-G"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-z", doc: &["First {of} f166,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-z"], Kind::Flag) },
            Opt { rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "--chi <FOO {BAR}>", doc: &["[default: -7,8]"], hide: false }, ..opt(&["--chi"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-C, --helper <F168>", doc: &["First {of} f168,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-C", "--helper", "--kap", "-𐀀"], Kind::One) },
            Opt { rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-e, --eps-i[=<FOO {BAR}>]", doc: &["Doc of f169."], hide: false }, ..opt(&["-e", "--eps-i"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-B, --phi+=<FOO {BAR}>", doc: &["Doc of f170.", "[default: dd]"], hide: true }, ..opt(&["-B", "--phi+", "--iota", "-y"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-߿, --pi <F171>", doc: &["Doc of f171.", "[default: dd]"], hide: false }, ..opt(&["-߿", "--pi", "--kappa", "-d"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-w, --psi <FOO {BAR}>", doc: &["[default: -7]"], hide: false }, ..opt(&["-w", "--psi", "--delta", "-i"], Kind::One) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "[F162]...", doc: &["Doc of f162.", "[default: -7,8]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f163), one(&self.f164), list(&self.f165), flag(self.g173.f166), list(&self.g173.f167), one(&self.g174.f168), maybe(&self.g174.g175.f169), olist(&self.g174.g175.f170), one(&self.g174.g175.f171), just(&self.g174.g175.f172), list(&self.f162)]];
        v
    }
}
// @@ D14
#[derive(Args)]
struct D14AaG0 {
    /// Doc of f185.
    #[arg(short = '߿', allow_hyphen_values = true, default_value = "-7,8")]
    #[arg(value_delimiter = ',')]
    f185: Option<Vec<i16>>,
    /// First {of} f183,
    ///
    #[arg(allow_hyphen_values = true)]
    /// 100% "more".
    #[arg(long = "beta", global = true, default_value = "")]
    f183: String,
    /// First {of} f182,
    ///
    #[arg(ignore_case = true, require_equals = true, short = 'y', hide = true)]
    /// 100% "more".
    #[arg(value_name = "a-é", default_value = "b")]
    f182: Option<Letter>,
    /// First {of} f186,
    ///
    /// 100% "more".
    #[arg(short_alias = 'J', hide = true, long = "iota", alias = "eta", default_value = "b", short = 'v', ignore_case = true)]
    f186: Letter,
    /// Doc of f184.
    #[arg(global = true, require_equals = true, hide = true, short = 'H', value_delimiter = ',')]
    f184: Option<Vec<i16>>,
}
#[derive(Args)]
struct D14AaBb {
    #[arg(short_alias = 'I', global = true, long = "nu", require_equals = true)]
    #[arg(short = '\u{10ffff}', alias = "x2", default_value = "", value_name = "a-é")]
    f187: Vec<String>,
}
#[derive(Subcommand)]
enum D14Cmd {
    Aa {
        /// Doc of f178.
        #[arg(value_name = "[X]", short = 'd', default_value_t = -7, allow_hyphen_values = true, hide = true)]
        f178: i16,
        /// First {of} f181,
        ///
        /// 100% "more".
        #[arg(allow_negative_numbers = true, long = "x", default_value = "dd", global = true)]
        f181: OsString,
        /// First {of} f179,
        ///
        /// 100% "more".
        #[arg(global = true, short = '\u{27}', value_name = "[X]", short_alias = 'p', allow_hyphen_values = true, alias = "rho_s", long = "nu")]
        f179: Option<Vec<String>>,
        #[command(flatten)]
        g188: D14AaG0,
        /// First {of} f180,
        ///
        /// 100% "more".
        #[arg(global = true, long = "tau", default_value = "b", short = '\u{ffff}', value_name = "a-é", require_equals = true)]
        f180: Option<Letter>,
        #[arg(default_value = "b,a", value_delimiter = ',', last = true, value_name = "a-é")]
        f177: Vec<Letter>,
    },
    AaBb(D14AaBb),
    Uu,
}
#[derive(Parser)]
struct D14 {
    #[command(subcommand)]
    cmd: Option<D14Cmd>,
}
impl Told for D14 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { hyphen: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-d <[X]>", doc: &["Doc of f178.", "[default: -7]"], hide: true }, ..opt(&["-d"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{27}, --nu <[X]>", doc: &["First {of} f179,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{27}", "--nu", "--rho_s", "-p"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-\u{ffff}, --tau=<a-é>", doc: &["First {of} f180,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-\u{ffff}", "--tau"], Kind::One) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--x <F181>", doc: &["First {of} f181,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["--x"], Kind::One) },
                    Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-y=<a-é>", doc: &["First {of} f182,", "100% \u{22}more\u{22}.", "[default: b]"], hide: true }, ..opt(&["-y"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some(""), ty: Ty::Text, ..R }, shown: Shown { as_: "--beta <F183>", doc: &["First {of} f183,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["--beta"], Kind::One) },
                    Opt { eq: true, global: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-H=<F184>", doc: &["Doc of f184."], hide: true }, ..opt(&["-H"], Kind::List) },
                    Opt { hyphen: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-߿ <F185>", doc: &["Doc of f185.", "[default: -7,8]"], hide: false }, ..opt(&["-߿"], Kind::List) },
                    Opt { rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-v, --iota <F186>", doc: &["First {of} f186,", "100% \u{22}more\u{22}.", "[default: b]"], hide: true }, ..opt(&["-v", "--iota", "--eta", "-J"], Kind::One) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "[a-é]...", doc: &["[default: b,a]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some(""), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{10ffff}, --nu=<a-é>", doc: &["[default: ]"], hide: false }, ..opt(&["-\u{10ffff}", "--nu", "--x2", "-I"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            Some(D14Cmd::Aa { f178, f179, f180, f181, g188, f177 }) => {
                v.push(vec![just(f178), olist(f179), one(f180), just(f181), one(&g188.f182), just(&g188.f183), olist(&g188.f184), olist(&g188.f185), just(&g188.f186), list(f177)]);
            }
            Some(D14Cmd::AaBb(x)) => {
                v.push(vec![list(&x.f187)]);
            }
            Some(D14Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D15
#[derive(Subcommand)]
enum D15AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
    },
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D15AaBb {
    /// First {of} f199,
    ///
    /// 100% "more".
    #[arg(short = 'w', global = true, hide = true, default_value = "b", value_name = "a-é")]
    f199: Letter,
    /// First {of} f198,
    ///
    #[arg(short = 'l', long = "eps-i", allow_hyphen_values = true)]
    /// 100% "more".
    #[arg(value_delimiter = ',', default_value = "b,a")]
    f198: Vec<Letter>,
    /// First {of} f189,
    ///
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}")]
    f189: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<D15AaBbCmd>,
}
#[derive(Subcommand)]
enum D15Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[arg(value_name = "[X]", long = "up.s", default_value = "-7", require_equals = true)]
        f196: Option<i16>,
        /// Doc of f195.
        #[arg(allow_hyphen_values = true, short = 'F', global = true, ignore_case = true, default_value = "b")]
        f195: Letter,
        /// First {of} f194,
        ///
        #[arg(alias = "pi", allow_hyphen_values = true)]
        /// 100% "more".
        #[arg(global = true, long = "{}", short = 'E', short_alias = 'm')]
        f194: Option<String>,
        /// Doc of f197.
        #[arg(hide = true, allow_hyphen_values = true, short = 'r', global = true)]
        f197: Option<i16>,
    },
    AaBb(D15AaBb),
    /// About {it}.
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D15 {
    /// First {of} f192,
    ///
    #[arg(value_name = "FOO {BAR}")]
    /// 100% "more".
    #[arg(short = 'm', require_equals = true, value_delimiter = ',', default_value = "dd,e", hide = true)]
    f192: Vec<OsString>,
    /// Doc of f193.
    #[arg(allow_hyphen_values = true, default_value = "b,a", value_delimiter = ',', long = "pi")]
    f193: Option<Vec<Letter>>,
    /// Doc of f191.
    #[arg(short_alias = 'F', default_value_t = -7, short = 'r', alias = "chi", require_equals = true, long = "zeta")]
    f191: i16,
    /// Doc of f190.
    #[arg(value_name = "a-é", default_value = "dd", long = "rho_s", allow_hyphen_values = true)]
    f190: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D15Cmd,
}
impl Told for D15 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--rho_s <a-é>", doc: &["Doc of f190.", "[default: dd]"], hide: false }, ..opt(&["--rho_s"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-r, --zeta=<F191>", doc: &["Doc of f191.", "[default: -7]"], hide: false }, ..opt(&["-r", "--zeta", "--chi", "-F"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-m=<FOO {BAR}>", doc: &["First {of} f192,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: true }, ..opt(&["-m"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "--pi <F193>", doc: &["Doc of f193.", "[default: b,a]"], hide: false }, ..opt(&["--pi"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { hyphen: true, global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-E, --{} <F194>", doc: &["First {of} f194,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-E", "--{}", "--pi", "-m"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-F <F195>", doc: &["Doc of f195.", "[default: b]"], hide: false }, ..opt(&["-F"], Kind::One) },
                    Opt { eq: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--up.s=<[X]>", doc: &["[default: -7]"], hide: false }, ..opt(&["--up.s"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-r <F197>", doc: &["Doc of f197."], hide: true }, ..opt(&["-r"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { hyphen: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-l, --eps-i <F198>", doc: &["First {of} f198,", "100% \u{22}more\u{22}.", "[default: b,a]"], hide: false }, ..opt(&["-l", "--eps-i"], Kind::List) },
                    Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-w <a-é>", doc: &["First {of} f199,", "100% \u{22}more\u{22}.", "[default: b]"], hide: true }, ..opt(&["-w"], Kind::One) },
                ],
                pos: &[
                    Pos { rules: Rules { ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["First {of} f189,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.f190), just(&self.f191), list(&self.f192), olist(&self.f193)]];
        match &self.cmd {
            D15Cmd::Aa { f194, f195, f196, f197 } => {
                v.push(vec![one(f194), just(f195), one(f196), one(f197)]);
            }
            D15Cmd::AaBb(x) => {
                v.push(vec![list(&x.f198), just(&x.f199), one(&x.f189)]);
                match &x.cmd {
                    Some(D15AaBbCmd::Aa {  }) => {
                        v.push(vec![]);
                    }
                    Some(D15AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            D15Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D16
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D16 {
    #[arg(require_equals = true)]
    #[arg(short = '1', long = "kappa")]
    f208: Vec<Letter>,
    /// First {of} f205,
    ///
    #[arg(require_equals = true, long = "tau")]
    /// 100% "more".
    #[arg(default_value_t = "dd".to_string())]
    f205: String,
    /// Doc of f207.
    #[arg(value_delimiter = ',', long = "theta", default_value = "dd,e", global = true, allow_negative_numbers = true, value_name = "[X]")]
    f207: Option<Vec<OsString>>,
    /// Doc of f201.
    #[arg(long = "gamma", default_value = "dd", global = true, allow_hyphen_values = true, value_name = "FOO {BAR}", alias = "zeta", short_alias = 'd', hide = true, short = '\u{e000}')]
    f201: Option<OsString>,
    /// Doc of f209.
    #[arg(alias = "h", allow_hyphen_values = true, value_delimiter = ',', short_alias = '𐀀', short = 'A', default_value = "dd,e", long = "beta")]
    f209: Vec<String>,
    /// Doc of f204.
    #[arg(default_value_t = -7, short = '\u{ffff}', global = true)]
    f204: i16,
    /// First {of} f210,
    ///
    /// 100% "more".
    #[arg(alias = "\u{5c}", short_alias = '�', value_name = "a-é", long = "x", short = 'é', require_equals = true, default_value = "-7", global = true)]
    f210: Option<Option<i16>>,
    /// Doc of f203.
    #[arg(global = true, short = 'G', value_name = "FOO {BAR}", ignore_case = true, default_value = "b", require_equals = true)]
    f203: Option<Option<Letter>>,
    #[arg(require_equals = true, value_name = "FOO {BAR}", value_delimiter = ',', long = "{}")]
    f202: Option<Vec<String>>,
    /// Doc of f206.
    #[arg(default_value = "b", global = true)]
    #[arg(long = "pi")]
    f206: Option<Vec<Letter>>,
    /// Doc of f200.
    #[arg(value_delimiter = ',', default_value = "-7,8")]
    f200: Vec<i16>,
}
impl Told for D16 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-\u{e000}, --gamma <FOO {BAR}>", doc: &["Doc of f201.", "[default: dd]"], hide: true }, ..opt(&["-\u{e000}", "--gamma", "--zeta", "-d"], Kind::One) },
            Opt { eq: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "--{}=<FOO {BAR}>", doc: &[], hide: false }, ..opt(&["--{}"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-G[=<FOO {BAR}>]", doc: &["Doc of f203.", "[default: b]"], hide: false }, ..opt(&["-G"], Kind::Maybe) },
            Opt { global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-\u{ffff} <F204>", doc: &["Doc of f204.", "[default: -7]"], hide: false }, ..opt(&["-\u{ffff}"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--tau=<F205>", doc: &["First {of} f205,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["--tau"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--pi <F206>", doc: &["Doc of f206.", "[default: b]"], hide: false }, ..opt(&["--pi"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "--theta <[X]>", doc: &["Doc of f207.", "[default: dd,e]"], hide: false }, ..opt(&["--theta"], Kind::List) },
            Opt { eq: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-1, --kappa=<F208>", doc: &[], hide: false }, ..opt(&["-1", "--kappa"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-A, --beta <F209>", doc: &["Doc of f209.", "[default: dd,e]"], hide: false }, ..opt(&["-A", "--beta", "--h", "-𐀀"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-é, --x[=<a-é>]", doc: &["First {of} f210,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-é", "--x", "--\u{5c}", "-�"], Kind::Maybe) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "[F200]...", doc: &["Doc of f200.", "[default: -7,8]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f201), olist(&self.f202), maybe(&self.f203), just(&self.f204), just(&self.f205), olist(&self.f206), olist(&self.f207), list(&self.f208), list(&self.f209), maybe(&self.f210), list(&self.f200)]];
        v
    }
}
// @@ D17
#[derive(Args)]
struct D17G0G0 {
    /// First {of} f217,
    ///
    #[arg(global = true, long = "kappas", require_equals = true, short = 'B')]
    /// 100% "more".
    #[arg(value_name = "a-é", default_value_t = Letter::B)]
    f217: Letter,
    /// First {of} f218,
    ///
    /// 100% "more".
    #[arg(global = true, default_value_t = Letter::B, require_equals = true, long = "a b")]
    f218: Letter,
    #[arg(short = '{', short_alias = 'H', value_name = "a-é", long = "\u{5c}", allow_hyphen_values = true, alias = "eps-i", global = true)]
    f216: Option<Vec<OsString>>,
    /// First {of} f215,
    ///
    /// 100% "more".
    #[arg(value_delimiter = ',', short = 'q', global = true, long = "alpha", allow_negative_numbers = true, short_alias = 'g', value_name = "[X]", ignore_case = true, alias = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    f215: Option<Vec<Letter>>,
}
#[derive(Args)]
struct D17G0 {
    /// Doc of f214.
    #[arg(hide = true, long = "beta")]
    #[arg(value_delimiter = ',', short = '�', global = true)]
    f214: Option<Vec<i16>>,
    /// First {of} f213,
    ///
    #[arg(require_equals = true)]
    /// 100% "more".
    #[arg(default_value = "", global = true, long = "tau")]
    f213: Option<OsString>,
    #[command(flatten)]
    g223: D17G0G0,
}
#[derive(Args)]
struct D17G1G0 {
    /// Doc of f221.
    #[arg(ignore_case = true, long = "theta", value_delimiter = ',')]
    #[arg(value_name = "a-é", default_value = "b,a", allow_hyphen_values = true)]
    f221: Vec<Letter>,
}
#[derive(Args)]
struct D17G1 {
    #[arg(allow_hyphen_values = true, hide = true, long = "rho_s")]
    f219: Option<OsString>,
    #[arg(allow_hyphen_values = true, long = "h", short = 's', value_name = "[X]", global = true, default_value = "-7")]
    f220: Option<Vec<i16>>,
    #[command(flatten)]
    g225: D17G1G0,
}
/// About {it}.
#[derive(Parser)]
struct D17 {
    #[arg(default_value_t = "dd".to_string(), global = true, value_name = "[X]", short_alias = 'l', alias = "gamma", short = 'J', long = "omicron")]
    #[arg(allow_hyphen_values = true)]
    f212: String,
    #[command(flatten)]
    g222: D17G0,
    #[command(flatten)]
    g224: D17G1,
    /// Doc of f211.
    #[arg(value_delimiter = ',')]
    f211: Option<Vec<String>>,
}
impl Told for D17 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-J, --omicron <[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["-J", "--omicron", "--gamma", "-l"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "--tau=<F213>", doc: &["First {of} f213,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["--tau"], Kind::One) },
            Opt { global: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-�, --beta <F214>", doc: &["Doc of f214."], hide: true }, ..opt(&["-�", "--beta"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-q, --alpha <[X]>", doc: &["First {of} f215,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-q", "--alpha", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "-g"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-{, --\u{5c} <a-é>", doc: &[], hide: false }, ..opt(&["-{", "--\u{5c}", "--eps-i", "-H"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-B, --kappas=<a-é>", doc: &["First {of} f217,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-B", "--kappas"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--a b=<F218>", doc: &["First {of} f218,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["--a b"], Kind::One) },
            Opt { hyphen: true, rules: Rules { ..R }, shown: Shown { as_: "--rho_s <F219>", doc: &[], hide: true }, ..opt(&["--rho_s"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-s, --h <[X]>", doc: &["[default: -7]"], hide: false }, ..opt(&["-s", "--h"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--theta <a-é>", doc: &["Doc of f221.", "[default: b,a]"], hide: false }, ..opt(&["--theta"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "[F211]...", doc: &["Doc of f211."], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f212), one(&self.g222.f213), olist(&self.g222.f214), olist(&self.g222.g223.f215), olist(&self.g222.g223.f216), just(&self.g222.g223.f217), just(&self.g222.g223.f218), one(&self.g224.f219), olist(&self.g224.f220), list(&self.g224.g225.f221), olist(&self.f211)]];
        v
    }
}
// @@ D18
/// About one.
///
/// And "two".
#[derive(Args)]
struct D18AaBb {
    /// First {of} f226,
    ///
    /// 100% "more".
    #[arg(last = true, value_name = "[X]")]
    f226: Option<Vec<Letter>>,
}
#[derive(Subcommand)]
enum D18Cmd {
    /// About {it}.
    Aa {
        /// Doc of f235.
        #[arg(short = 'a', value_name = "[X]", allow_negative_numbers = true, value_delimiter = ',')]
        f235: Option<Vec<OsString>>,
        #[arg(long = "q\u{22}q", value_name = "[X]", global = true)]
        #[arg(default_value = "-7", allow_negative_numbers = true)]
        f234: Vec<i16>,
        #[arg(value_delimiter = ',', allow_hyphen_values = true, global = true, long = "x-y", short = 'I')]
        f236: Vec<OsString>,
        /// Doc of f233.
        #[arg(global = true, long = "\u{5c}", hide = true, ignore_case = true)]
        #[arg(short = 'q', allow_negative_numbers = true)]
        f233: Option<Vec<Letter>>,
    },
    AaBb(D18AaBb),
    /// About {it}.
    Uu,
}
#[derive(Parser)]
struct D18 {
    #[arg(short = 'J', long = "phi+", require_equals = true)]
    #[arg(value_name = "FOO {BAR}", default_value = "-7")]
    f231: i16,
    #[arg(long = "kappas", value_name = "a-é", default_value = "-7", short = '�', require_equals = true)]
    f228: Option<Option<i16>>,
    /// First {of} f229,
    ///
    /// 100% "more".
    #[arg(default_value = "dd,e", value_delimiter = ',', allow_negative_numbers = true, value_name = "FOO {BAR}", long = "x")]
    f229: Vec<String>,
    #[arg(default_value = "b", value_name = "FOO {BAR}", require_equals = true, long = "delta")]
    f232: Option<Vec<Letter>>,
    /// Doc of f227.
    #[arg(long = "h", short_alias = 'v', alias = "q\u{22}q", short = '𐀀')]
    f227: bool,
    #[arg(default_value_t = Letter::B, require_equals = true, short = 'y', value_name = "a-é")]
    f230: Letter,
    #[command(subcommand)]
    cmd: D18Cmd,
}
impl Told for D18 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { ..R }, shown: Shown { as_: "-𐀀, --h", doc: &["Doc of f227."], hide: false }, ..opt(&["-𐀀", "--h", "--q\u{22}q", "-v"], Kind::Flag) },
            Opt { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-�, --kappas[=<a-é>]", doc: &["[default: -7]"], hide: false }, ..opt(&["-�", "--kappas"], Kind::Maybe) },
            Opt { negative: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "--x <FOO {BAR}>", doc: &["First {of} f229,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["--x"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-y=<a-é>", doc: &["[default: b]"], hide: false }, ..opt(&["-y"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-J, --phi+=<FOO {BAR}>", doc: &["[default: -7]"], hide: false }, ..opt(&["-J", "--phi+"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--delta=<FOO {BAR}>", doc: &["[default: b]"], hide: false }, ..opt(&["--delta"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { negative: true, global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-q, --\u{5c} <F233>", doc: &["Doc of f233."], hide: true }, ..opt(&["-q", "--\u{5c}"], Kind::List) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--q\u{22}q <[X]>", doc: &["[default: -7]"], hide: false }, ..opt(&["--q\u{22}q"], Kind::List) },
                    Opt { negative: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-a <[X]>", doc: &["Doc of f235."], hide: false }, ..opt(&["-a"], Kind::List) },
                    Opt { hyphen: true, global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-I, --x-y <F236>", doc: &[], hide: false }, ..opt(&["-I", "--x-y"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                    Pos { last: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "[[X]]...", doc: &["First {of} f226,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![flag(self.f227), maybe(&self.f228), list(&self.f229), just(&self.f230), just(&self.f231), olist(&self.f232)]];
        match &self.cmd {
            D18Cmd::Aa { f233, f234, f235, f236 } => {
                v.push(vec![olist(f233), list(f234), olist(f235), list(f236)]);
            }
            D18Cmd::AaBb(x) => {
                v.push(vec![olist(&x.f226)]);
            }
            D18Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D19
#[derive(Args)]
struct D19AaBbG0 {
}
#[derive(Subcommand)]
enum D19AaBbCmd {
    Aa {
        /// First {of} f245,
        ///
        /// 100% "more".
        #[arg(short = 'o', value_name = "[X]", allow_hyphen_values = true)]
        f245: Option<OsString>,
        #[arg(alias = "psi", short_alias = 'i', value_name = "[X]", allow_negative_numbers = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", short = 'u')]
        f247: Vec<Letter>,
        #[arg(default_value = "b", long = "pi", require_equals = true, ignore_case = true)]
        #[arg(short = 'c')]
        f244: Letter,
        /// Doc of f246.
        #[arg(ignore_case = true, value_delimiter = ',', long = "x-y", allow_negative_numbers = true, default_value = "b,a")]
        #[arg(short = '\u{d7ff}')]
        f246: Vec<Letter>,
    },
    Zz,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D19AaBb {
    /// First {of} f243,
    ///
    /// 100% "more".
    #[arg(global = true, short = 'i', default_value = "")]
    f243: String,
    #[arg(global = true, hide = true, value_name = "FOO {BAR}", default_value_t = -7, long = "eta", allow_hyphen_values = true)]
    f242: Option<i16>,
    #[arg(long = "iota")]
    #[arg(hide = true, default_value_t = -7, require_equals = true, value_name = "a-é")]
    f240: i16,
    #[command(flatten)]
    g248: D19AaBbG0,
    /// Doc of f241.
    #[arg(global = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", value_name = "[X]", default_value = "b", allow_hyphen_values = true)]
    f241: Option<Letter>,
    #[command(subcommand)]
    cmd: Option<D19AaBbCmd>,
}
#[derive(Subcommand)]
enum D19Cmd {
    /// About {it}.
    Aa {
        /// Doc of f239.
        #[arg(value_delimiter = ',', short_alias = '\u{d7ff}', default_value = "b,a", alias = "alpha", allow_negative_numbers = true, short = 'o', global = true, value_name = "[X]")]
        #[arg(long = "zeta")]
        f239: Vec<Letter>,
        /// Doc of f237.
        #[arg(default_value = "-7,8", value_delimiter = ',', hide = true, last = true)]
        f237: Option<Vec<i16>>,
    },
    AaBb(D19AaBb),
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D19 {
    #[arg(default_value_t = true)]
    #[arg(value_name = "FOO {BAR}", long = "x2", global = true, hide = true)]
    f238: bool,
    #[command(subcommand)]
    cmd: Option<D19Cmd>,
}
impl Told for D19 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--x2", doc: &["[default: true]"], hide: true }, ..opt(&["--x2"], Kind::Flag) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { negative: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-o, --zeta <[X]>", doc: &["Doc of f239.", "[default: b,a]"], hide: false }, ..opt(&["-o", "--zeta", "--alpha", "-\u{d7ff}"], Kind::List) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "[F237]...", doc: &["Doc of f237.", "[default: -7,8]"], hide: true }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--iota=<a-é>", doc: &["[default: -7]"], hide: true }, ..opt(&["--iota"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <[X]>", doc: &["Doc of f241.", "[default: b]"], hide: false }, ..opt(&["--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--eta <FOO {BAR}>", doc: &["[default: -7]"], hide: true }, ..opt(&["--eta"], Kind::One) },
                    Opt { global: true, rules: Rules { default: Some(""), ty: Ty::Text, ..R }, shown: Shown { as_: "-i <F243>", doc: &["First {of} f243,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["-i"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-c, --pi=<F244>", doc: &["[default: b]"], hide: false }, ..opt(&["-c", "--pi"], Kind::One) },
                            Opt { hyphen: true, rules: Rules { ..R }, shown: Shown { as_: "-o <[X]>", doc: &["First {of} f245,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-o"], Kind::One) },
                            Opt { negative: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-\u{d7ff}, --x-y <F246>", doc: &["Doc of f246.", "[default: b,a]"], hide: false }, ..opt(&["-\u{d7ff}", "--x-y"], Kind::List) },
                            Opt { negative: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-u, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <[X]>", doc: &[], hide: false }, ..opt(&["-u", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--psi", "-i"], Kind::List) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![flag(self.f238)]];
        match &self.cmd {
            Some(D19Cmd::Aa { f239, f237 }) => {
                v.push(vec![list(f239), olist(f237)]);
            }
            Some(D19Cmd::AaBb(x)) => {
                v.push(vec![just(&x.f240), one(&x.f241), one(&x.f242), just(&x.f243)]);
                match &x.cmd {
                    Some(D19AaBbCmd::Aa { f244, f245, f246, f247 }) => {
                        v.push(vec![just(f244), one(f245), list(f246), list(f247)]);
                    }
                    Some(D19AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            Some(D19Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D20
#[derive(Args)]
struct D20G0G0 {
    /// Doc of f259.
    #[arg(require_equals = true, short = '\u{22}', global = true, value_name = "[X]")]
    f259: Option<Option<i16>>,
    #[arg(default_value = "b", long = "eta", allow_negative_numbers = true, global = true)]
    #[arg(ignore_case = true)]
    f258: Letter,
}
#[derive(Args)]
struct D20G0 {
    /// First {of} f255,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", require_equals = true, default_value_t = Letter::B, long = "kappa", ignore_case = true)]
    f255: Option<Letter>,
    #[command(flatten)]
    g261: D20G0G0,
    #[arg(default_value = "-7,8", value_delimiter = ',', long = "x2", value_name = "[X]", short = 's', allow_negative_numbers = true)]
    f256: Vec<i16>,
    /// First {of} f257,
    ///
    /// 100% "more".
    #[arg(global = true, allow_hyphen_values = true, value_delimiter = ',', long = "omicron")]
    f257: Vec<i16>,
}
#[derive(Parser)]
struct D20 {
    /// Doc of f252.
    #[arg(default_value = "dd", long = "chi", value_name = "FOO {BAR}", allow_negative_numbers = true)]
    f252: Option<String>,
    #[arg(default_value = "dd", value_name = "FOO {BAR}", short = 'd', require_equals = true, global = true)]
    #[arg(long = "delta", short_alias = 'r', alias = "theta")]
    f254: OsString,
    #[command(flatten)]
    g260: D20G0,
    /// First {of} f250,
    ///
    #[arg(short = 'p', value_name = "a-é")]
    /// 100% "more".
    #[arg(value_delimiter = ',', allow_negative_numbers = true, default_value = "-7,8")]
    f250: Vec<i16>,
    #[arg(value_delimiter = ',', hide = true, short = 'i', long = "\u{5c}", allow_negative_numbers = true, global = true)]
    f251: Vec<Letter>,
    #[arg(long = "psi", alias = "alpha", hide = true, allow_hyphen_values = true, short = 'j', value_name = "FOO {BAR}", short_alias = '→')]
    f253: Vec<Letter>,
    #[arg(value_delimiter = ',', default_value = "dd,e", value_name = "FOO {BAR}", last = true)]
    f249: Option<Vec<OsString>>,
}
impl Told for D20 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-p <a-é>", doc: &["First {of} f250,", "100% \u{22}more\u{22}.", "[default: -7,8]"], hide: false }, ..opt(&["-p"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-i, --\u{5c} <F251>", doc: &[], hide: true }, ..opt(&["-i", "--\u{5c}"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--chi <FOO {BAR}>", doc: &["Doc of f252.", "[default: dd]"], hide: false }, ..opt(&["--chi"], Kind::One) },
            Opt { hyphen: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-j, --psi <FOO {BAR}>", doc: &[], hide: true }, ..opt(&["-j", "--psi", "--alpha", "-→"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-d, --delta=<FOO {BAR}>", doc: &["[default: dd]"], hide: false }, ..opt(&["-d", "--delta", "--theta", "-r"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--kappa=<a-é>", doc: &["First {of} f255,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["--kappa"], Kind::One) },
            Opt { negative: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-s, --x2 <[X]>", doc: &["[default: -7,8]"], hide: false }, ..opt(&["-s", "--x2"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "--omicron <F257>", doc: &["First {of} f257,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["--omicron"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--eta <F258>", doc: &["[default: b]"], hide: false }, ..opt(&["--eta"], Kind::One) },
            Opt { global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-\u{22}[=<[X]>]", doc: &["Doc of f259."], hide: false }, ..opt(&["-\u{22}"], Kind::Maybe) },
        ],
        pos: &[
            Pos { last: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f250), list(&self.f251), one(&self.f252), list(&self.f253), just(&self.f254), one(&self.g260.f255), list(&self.g260.f256), list(&self.g260.f257), just(&self.g260.g261.f258), maybe(&self.g260.g261.f259), olist(&self.f249)]];
        v
    }
}
// @@ D21
#[derive(Args)]
struct D21G0G0 {
    /// First {of} f268,
    ///
    /// 100% "more".
    #[arg(value_name = "[X]", global = true, allow_hyphen_values = true, long = "h", default_value = "dd,e", value_delimiter = ',')]
    f268: Option<Vec<String>>,
    /// Doc of f267.
    #[arg(default_value = "")]
    #[arg(long = "helper", allow_hyphen_values = true, global = true, short = '߿')]
    f267: OsString,
}
#[derive(Args)]
struct D21G0 {
    #[command(flatten)]
    g274: D21G0G0,
    #[arg(allow_hyphen_values = true, global = true, long = "a b", default_value = "dd", value_name = "[X]")]
    f266: Vec<String>,
    /// First {of} f265,
    ///
    /// 100% "more".
    #[arg(allow_negative_numbers = true, value_name = "[X]", value_delimiter = ',', alias = "Mu", global = true, short = 'e', long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", short_alias = '😀')]
    f265: Vec<OsString>,
}
#[derive(Args)]
struct D21G1G0 {
    #[arg(hide = true, long = "omega", default_value = "dd", global = true, short = 'H', require_equals = true, value_name = "[X]")]
    f271: Option<Option<String>>,
    /// First {of} f270,
    ///
    /// 100% "more".
    #[arg(allow_hyphen_values = true, long = "tau", value_delimiter = ',', short = 'z', short_alias = '{', alias = "omicron")]
    f270: Option<Vec<i16>>,
}
#[derive(Args)]
struct D21G1 {
    #[arg(global = true, allow_negative_numbers = true, default_value = "dd,e", long = "{}", value_delimiter = ',')]
    f269: Vec<OsString>,
    #[command(flatten)]
    g276: D21G1G0,
}
#[derive(Args)]
struct D21G2 {
    /// Doc of f272.
    #[arg(value_name = "FOO {BAR}", default_value = "b", long = "delta", hide = true)]
    #[arg(allow_hyphen_values = true)]
    f272: Letter,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D21 {
    #[command(flatten)]
    g277: D21G2,
    #[command(flatten)]
    g275: D21G1,
    #[arg(short = 'F', hide = true, value_name = "FOO {BAR}")]
    f263: bool,
    #[command(flatten)]
    g273: D21G0,
    #[arg(default_value = "dd", short = 'y', value_name = "a-é", allow_hyphen_values = true, global = true)]
    f264: OsString,
    /// First {of} f262,
    ///
    /// 100% "more".
    #[arg(default_value = "dd")]
    f262: String,
}
impl Told for D21 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { ..R }, shown: Shown { as_: "-F", doc: &[], hide: true }, ..opt(&["-F"], Kind::Flag) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-y <a-é>", doc: &["[default: dd]"], hide: false }, ..opt(&["-y"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-e, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <[X]>", doc: &["First {of} f265,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-e", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--Mu", "-😀"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--a b <[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["--a b"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-߿, --helper <F267>", doc: &["Doc of f267.", "[default: ]"], hide: false }, ..opt(&["-߿", "--helper"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "--h <[X]>", doc: &["First {of} f268,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["--h"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "--{} <F269>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["--{}"], Kind::List) },
            Opt { hyphen: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-z, --tau <F270>", doc: &["First {of} f270,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-z", "--tau", "--omicron", "-{"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-H, --omega[=<[X]>]", doc: &["[default: dd]"], hide: true }, ..opt(&["-H", "--omega"], Kind::Maybe) },
            Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--delta <FOO {BAR}>", doc: &["Doc of f272.", "[default: b]"], hide: true }, ..opt(&["--delta"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "[F262]", doc: &["First {of} f262,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![flag(self.f263), just(&self.f264), list(&self.g273.f265), list(&self.g273.f266), just(&self.g273.g274.f267), olist(&self.g273.g274.f268), list(&self.g275.f269), olist(&self.g275.g276.f270), maybe(&self.g275.g276.f271), just(&self.g277.f272), just(&self.f262)]];
        v
    }
}
// @@ D22
#[derive(Args)]
struct D22AaG0 {
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D22AaBb {
    /// First {of} f287,
    ///
    /// 100% "more".
    #[arg(require_equals = true, long = "theta", global = true, value_name = "[X]")]
    f287: Option<Option<OsString>>,
    /// Doc of f288.
    #[arg(global = true, require_equals = true, long = "Mu", default_value = "-7")]
    f288: i16,
}
#[derive(Subcommand)]
enum D22Cmd {
    /// About {it}.
    Aa {
        /// Doc of f286.
        #[arg(short = 'n', allow_hyphen_values = true, global = true, default_value_t = -7, long = "eta")]
        f286: i16,
        /// First {of} f283,
        ///
        /// 100% "more".
        #[arg(allow_negative_numbers = true, long = "omicron")]
        f283: Option<Vec<String>>,
        #[arg(allow_hyphen_values = true, short = '0', long = "zeta", value_delimiter = ',', hide = true, global = true)]
        f285: Vec<String>,
        /// Doc of f282.
        #[arg(allow_negative_numbers = true, short = 'o', value_delimiter = ',')]
        #[arg(hide = true)]
        f282: Option<Vec<Letter>>,
        /// Doc of f284.
        #[arg(ignore_case = true, allow_negative_numbers = true)]
        #[arg(long = "chi", hide = true)]
        f284: Option<Vec<Letter>>,
        #[command(flatten)]
        g289: D22AaG0,
        /// First {of} f278,
        ///
        /// 100% "more".
        f278: Option<i16>,
    },
    AaBb(D22AaBb),
    /// About {it}.
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D22 {
    /// First {of} f280,
    ///
    #[arg(hide = true)]
    /// 100% "more".
    #[arg(default_value = "b,a", value_delimiter = ',', require_equals = true, global = true, long = "chi", short = '\u{10ffff}')]
    f280: Option<Vec<Letter>>,
    /// Doc of f279.
    #[arg(short_alias = 'p', hide = true, alias = "pi", global = true, require_equals = true, value_name = "a-é", long = "a b", short = 'E')]
    f279: Option<Option<Letter>>,
    /// First {of} f281,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", short = 'ࠀ', allow_negative_numbers = true, long = "eta")]
    f281: Vec<String>,
    #[command(subcommand)]
    cmd: Option<D22Cmd>,
}
impl Told for D22 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-E, --a b[=<a-é>]", doc: &["Doc of f279."], hide: true }, ..opt(&["-E", "--a b", "--pi", "-p"], Kind::Maybe) },
            Opt { eq: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-\u{10ffff}, --chi=<F280>", doc: &["First {of} f280,", "100% \u{22}more\u{22}.", "[default: b,a]"], hide: true }, ..opt(&["-\u{10ffff}", "--chi"], Kind::List) },
            Opt { negative: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-ࠀ, --eta <a-é>", doc: &["First {of} f281,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-ࠀ", "--eta"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { negative: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-o <F282>", doc: &["Doc of f282."], hide: true }, ..opt(&["-o"], Kind::List) },
                    Opt { negative: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "--omicron <F283>", doc: &["First {of} f283,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["--omicron"], Kind::List) },
                    Opt { negative: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--chi <F284>", doc: &["Doc of f284."], hide: true }, ..opt(&["--chi"], Kind::List) },
                    Opt { hyphen: true, global: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-0, --zeta <F285>", doc: &[], hide: true }, ..opt(&["-0", "--zeta"], Kind::List) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-n, --eta <F286>", doc: &["Doc of f286.", "[default: -7]"], hide: false }, ..opt(&["-n", "--eta"], Kind::One) },
                ],
                pos: &[
                    Pos { rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "[F278]", doc: &["First {of} f278,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "--theta[=<[X]>]", doc: &["First {of} f287,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["--theta"], Kind::Maybe) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--Mu=<F288>", doc: &["Doc of f288.", "[default: -7]"], hide: false }, ..opt(&["--Mu"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![maybe(&self.f279), olist(&self.f280), list(&self.f281)]];
        match &self.cmd {
            Some(D22Cmd::Aa { f282, f283, f284, f285, f286, g289, f278 }) => {
                v.push(vec![olist(f282), olist(f283), olist(f284), list(f285), just(f286), one(f278)]);
            }
            Some(D22Cmd::AaBb(x)) => {
                v.push(vec![maybe(&x.f287), just(&x.f288)]);
            }
            Some(D22Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D23
#[derive(Args)]
struct D23AaBbAaG0 {
}
#[derive(Subcommand)]
enum D23AaBbCmd {
    Aa {
        /// Doc of f300.
        #[arg(short = 'E', global = true)]
        #[arg(allow_negative_numbers = true, long = "rho_s")]
        f300: Option<i16>,
        #[arg(default_value_t = Letter::B, allow_hyphen_values = true, value_name = "[X]")]
        #[arg(short = '\u{5c}')]
        f298: Letter,
        /// Doc of f297.
        #[arg(allow_negative_numbers = true, default_value = "-7", long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
        f297: i16,
        #[command(flatten)]
        g301: D23AaBbAaG0,
        /// Doc of f299.
        #[arg(short = 'l', global = true, require_equals = true, long = "\u{5c}", default_value = "b")]
        f299: Letter,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D23AaBb {
    /// Doc of f296.
    #[arg(ignore_case = true, value_name = "FOO {BAR}", require_equals = true, long = "\u{5c}", hide = true)]
    f296: Option<Option<Letter>>,
    #[command(subcommand)]
    cmd: D23AaBbCmd,
}
#[derive(Subcommand)]
enum D23Cmd {
    /// About {it}.
    Aa {
        /// Doc of f294.
        #[arg(short_alias = '1', default_value = "dd", value_name = "a-é", require_equals = true, short = '\u{5c}', long = "tau", alias = "x-y", global = true)]
        f294: Vec<OsString>,
        #[arg(value_name = "[X]", short = '0', default_value = "dd,e")]
        #[arg(long = "\u{5c}", require_equals = true, value_delimiter = ',', global = true)]
        f293: Vec<OsString>,
        /// Doc of f295.
        #[arg(alias = "phi+", default_value = "dd", value_name = "a-é", short_alias = 'i', long = "beta", short = 'd', allow_hyphen_values = true)]
        f295: OsString,
    },
    AaBb(D23AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D23 {
    /// Doc of f291.
    #[arg(long = "\u{5c}", allow_hyphen_values = true, short = '\u{5c}', value_delimiter = ',')]
    f291: Vec<i16>,
    /// Doc of f292.
    #[arg(short = '1', value_delimiter = ',', allow_hyphen_values = true, global = true, default_value = "dd,e")]
    f292: Vec<OsString>,
    /// First {of} f290,
    ///
    /// 100% "more".
    #[arg(default_value = "-7")]
    f290: i16,
    #[command(subcommand)]
    cmd: D23Cmd,
}
impl Told for D23 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{5c}, --\u{5c} <F291>", doc: &["Doc of f291."], hide: false }, ..opt(&["-\u{5c}", "--\u{5c}"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-1 <F292>", doc: &["Doc of f292.", "[default: dd,e]"], hide: false }, ..opt(&["-1"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "[F290]", doc: &["First {of} f290,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..pos(false) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-0, --\u{5c}=<[X]>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-0", "--\u{5c}"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-\u{5c}, --tau=<a-é>", doc: &["Doc of f294.", "[default: dd]"], hide: false }, ..opt(&["-\u{5c}", "--tau", "--x-y", "-1"], Kind::List) },
                    Opt { hyphen: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-d, --beta <a-é>", doc: &["Doc of f295.", "[default: dd]"], hide: false }, ..opt(&["-d", "--beta", "--phi+", "-i"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--\u{5c}[=<FOO {BAR}>]", doc: &["Doc of f296."], hide: true }, ..opt(&["--\u{5c}"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { negative: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <F297>", doc: &["Doc of f297.", "[default: -7]"], hide: false }, ..opt(&["--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::One) },
                            Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-\u{5c} <[X]>", doc: &["[default: b]"], hide: false }, ..opt(&["-\u{5c}"], Kind::One) },
                            Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-l, --\u{5c}=<F299>", doc: &["Doc of f299.", "[default: b]"], hide: false }, ..opt(&["-l", "--\u{5c}"], Kind::One) },
                            Opt { negative: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-E, --rho_s <F300>", doc: &["Doc of f300."], hide: false }, ..opt(&["-E", "--rho_s"], Kind::One) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: true,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f291), list(&self.f292), just(&self.f290)]];
        match &self.cmd {
            D23Cmd::Aa { f293, f294, f295 } => {
                v.push(vec![list(f293), list(f294), just(f295)]);
            }
            D23Cmd::AaBb(x) => {
                v.push(vec![maybe(&x.f296)]);
                match &x.cmd {
                    D23AaBbCmd::Aa { f297, f298, f299, f300, g301 } => {
                        v.push(vec![just(f297), just(f298), just(f299), one(f300)]);
                    }
                    D23AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D23Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D24
#[derive(Args)]
struct D24G0G0 {
    /// First {of} f309,
    ///
    /// 100% "more".
    #[arg(global = true, allow_negative_numbers = true, short = '߿', default_value_t = Letter::B, value_name = "FOO {BAR}", ignore_case = true)]
    f309: Option<Letter>,
    /// First {of} f312,
    ///
    /// 100% "more".
    #[arg(long = "kap", hide = true, ignore_case = true, value_delimiter = ',', allow_hyphen_values = true)]
    f312: Option<Vec<Letter>>,
    #[arg(short = 'é', value_name = "FOO {BAR}", global = true)]
    #[arg(default_value_t = "dd".to_string(), allow_hyphen_values = true)]
    f308: Option<String>,
    /// Doc of f310.
    #[arg(require_equals = true, short = 's', global = true, value_name = "[X]")]
    f310: Option<Option<OsString>>,
    /// First {of} f307,
    ///
    #[arg(long = "rho_s", allow_negative_numbers = true)]
    /// 100% "more".
    #[arg(value_name = "[X]", global = true, default_value_t = Letter::B, ignore_case = true)]
    f307: Letter,
    #[arg(short_alias = 'a', require_equals = true, short = 'H', long = "omega", alias = "a b")]
    f311: Option<Vec<Letter>>,
}
#[derive(Args)]
struct D24G0 {
    #[arg(global = true, allow_negative_numbers = true, short = '\u{27}')]
    f306: Vec<i16>,
    #[command(flatten)]
    g314: D24G0G0,
}
#[derive(Parser)]
struct D24 {
    #[command(flatten)]
    g313: D24G0,
    /// Doc of f305.
    #[arg(global = true, value_delimiter = ',', long = "helper", require_equals = true)]
    #[arg(value_name = "FOO {BAR}")]
    f305: Vec<OsString>,
    #[arg(value_name = "a-é", allow_negative_numbers = true, default_value = "b", long = "Mu")]
    f303: Letter,
    /// First {of} f304,
    ///
    #[arg(require_equals = true, short = '\u{ffff}')]
    /// 100% "more".
    #[arg(global = true, value_name = "[X]", default_value = "-7")]
    f304: i16,
    /// Doc of f302.
    #[arg(default_value = "dd")]
    f302: OsString,
}
impl Told for D24 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--Mu <a-é>", doc: &["[default: b]"], hide: false }, ..opt(&["--Mu"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-\u{ffff}=<[X]>", doc: &["First {of} f304,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-\u{ffff}"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "--helper=<FOO {BAR}>", doc: &["Doc of f305."], hide: false }, ..opt(&["--helper"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-\u{27} <F306>", doc: &[], hide: false }, ..opt(&["-\u{27}"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--rho_s <[X]>", doc: &["First {of} f307,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["--rho_s"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-é <FOO {BAR}>", doc: &["[default: dd]"], hide: false }, ..opt(&["-é"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-߿ <FOO {BAR}>", doc: &["First {of} f309,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-߿"], Kind::One) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-s[=<[X]>]", doc: &["Doc of f310."], hide: false }, ..opt(&["-s"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-H, --omega=<F311>", doc: &[], hide: false }, ..opt(&["-H", "--omega", "--a b", "-a"], Kind::List) },
            Opt { hyphen: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--kap <F312>", doc: &["First {of} f312,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["--kap"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "[F302]", doc: &["Doc of f302.", "[default: dd]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f303), just(&self.f304), list(&self.f305), list(&self.g313.f306), just(&self.g313.g314.f307), one(&self.g313.g314.f308), one(&self.g313.g314.f309), maybe(&self.g313.g314.f310), olist(&self.g313.g314.f311), olist(&self.g313.g314.f312), just(&self.f302)]];
        v
    }
}
// @@ D25
#[derive(Args)]
struct D25G0 {
    /// First {of} f324,
    ///
    /// 100% "more".
    #[arg(short = '\u{22}', global = true, long = "nu", value_name = "a-é", default_value_t = Letter::B, ignore_case = true, hide = true, allow_hyphen_values = true)]
    f324: Letter,
    /// First {of} f322,
    ///
    /// 100% "more".
    #[arg(require_equals = true, value_name = "FOO {BAR}", global = true, hide = true, short = '😀')]
    f322: Option<Letter>,
    /// First {of} f325,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", long = "alpha", short = 'p', require_equals = true, default_value_t = Letter::B, alias = "chi", short_alias = 'E')]
    f325: Letter,
    /// First {of} f321,
    ///
    /// 100% "more".
    #[arg(default_value = "-7", value_name = "FOO {BAR}", short_alias = 'f', long = "gamma", alias = "delta", short = 'z', allow_hyphen_values = true)]
    f321: Option<i16>,
    /// First {of} f320,
    ///
    /// 100% "more".
    #[arg(short_alias = '\u{5c}', value_name = "FOO {BAR}", value_delimiter = ',', long = "zeta", short = '\u{80}', allow_negative_numbers = true, alias = "é-long")]
    f320: Option<Vec<i16>>,
    #[arg(default_value_t = true, long = "h", short = 'g', value_name = "a-é")]
    f323: bool,
}
#[derive(Parser)]
struct D25 {
    /// First {of} f316,
    ///
    /// 100% "more".
    #[arg(global = true, require_equals = true, short = '߿', value_name = "a-é", default_value = "dd")]
    f316: Option<String>,
    /// First {of} f317,
    ///
    #[arg(long = "tau", short_alias = 'G')]
    /// 100% "more".
    #[arg(short = 'A', alias = "up.s", default_value = "b")]
    f317: Option<Letter>,
    #[arg(short = 'b', value_name = "a-é", global = true)]
    f318: bool,
    /// Doc of f319.
    #[arg(global = true, long = "beta", short = 'v', default_value_t = "dd".to_string(), require_equals = true, hide = true)]
    f319: String,
    #[command(flatten)]
    g326: D25G0,
    /// Doc of f315.
    #[arg(default_value = "-7", value_name = "a-é", hide = true)]
    f315: Option<i16>,
}
impl Told for D25 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-߿=<a-é>", doc: &["First {of} f316,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-߿"], Kind::One) },
            Opt { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-A, --tau <F317>", doc: &["First {of} f317,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-A", "--tau", "--up.s", "-G"], Kind::One) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-b", doc: &[], hide: false }, ..opt(&["-b"], Kind::Flag) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-v, --beta=<F319>", doc: &["Doc of f319.", "[default: dd]"], hide: true }, ..opt(&["-v", "--beta"], Kind::One) },
            Opt { negative: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{80}, --zeta <FOO {BAR}>", doc: &["First {of} f320,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{80}", "--zeta", "--é-long", "-\u{5c}"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-z, --gamma <FOO {BAR}>", doc: &["First {of} f321,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-z", "--gamma", "--delta", "-f"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-😀=<FOO {BAR}>", doc: &["First {of} f322,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-😀"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-g, --h", doc: &["[default: true]"], hide: false }, ..opt(&["-g", "--h"], Kind::Flag) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-\u{22}, --nu <a-é>", doc: &["First {of} f324,", "100% \u{22}more\u{22}.", "[default: b]"], hide: true }, ..opt(&["-\u{22}", "--nu"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-p, --alpha=<a-é>", doc: &["First {of} f325,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-p", "--alpha", "--chi", "-E"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "[a-é]", doc: &["Doc of f315.", "[default: -7]"], hide: true }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f316), one(&self.f317), flag(self.f318), just(&self.f319), olist(&self.g326.f320), one(&self.g326.f321), one(&self.g326.f322), flag(self.g326.f323), just(&self.g326.f324), just(&self.g326.f325), one(&self.f315)]];
        v
    }
}
// @@ D26
#[derive(Args)]
struct D26AaG0G0 {
    #[arg(hide = true, allow_hyphen_values = true, default_value = "dd", short = '\u{d7ff}', value_name = "[X]", long = "a b")]
    f334: Option<String>,
    /// Doc of f336.
    #[arg(long = "iota", require_equals = true, global = true, value_delimiter = ',')]
    f336: Vec<String>,
    /// Doc of f335.
    #[arg(default_value = "b,a", short = 'b', long = "phi+", hide = true, ignore_case = true, value_name = "FOO {BAR}", value_delimiter = ',', allow_hyphen_values = true)]
    f335: Option<Vec<Letter>>,
    #[arg(allow_hyphen_values = true, value_delimiter = ',', value_name = "a-é", long = "theta", global = true)]
    f333: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D26AaG0 {
    /// Doc of f332.
    #[arg(allow_hyphen_values = true)]
    #[arg(default_value = "b,a", long = "kappa", value_name = "[X]", global = true, short = 'g', value_delimiter = ',', alias = "x2", ignore_case = true, short_alias = 'B')]
    f332: Vec<Letter>,
    /// Doc of f331.
    #[arg(require_equals = true, long = "zeta", value_name = "FOO {BAR}", global = true)]
    f331: Option<Option<Letter>>,
    #[command(flatten)]
    g339: D26AaG0G0,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D26AaBb {
    /// Doc of f337.
    #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", alias = "a b", default_value_t = -7, value_name = "a-é", short = 'H')]
    #[arg(short_alias = '𐀀', global = true, allow_negative_numbers = true, hide = true)]
    f337: Option<i16>,
    /// Doc of f327.
    #[arg(last = true)]
    #[arg(value_delimiter = ',')]
    f327: Vec<OsString>,
}
#[derive(Subcommand)]
enum D26Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g338: D26AaG0,
        /// First {of} f330,
        ///
        #[arg(long = "rho_s")]
        /// 100% "more".
        #[arg(short = 'C', require_equals = true, value_name = "FOO {BAR}")]
        f330: Option<Vec<i16>>,
        /// Doc of f329.
        #[arg(global = true, allow_hyphen_values = true, default_value = "dd", short = 'E')]
        f329: String,
    },
    AaBb(D26AaBb),
    Uu,
}
#[derive(Parser)]
struct D26 {
    #[arg(value_delimiter = ',', short_alias = 'g', long = "kappa", alias = "a b", global = true, require_equals = true, short = '\u{d7ff}')]
    f328: Vec<Letter>,
    #[command(subcommand)]
    cmd: Option<D26Cmd>,
}
impl Told for D26 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-\u{d7ff}, --kappa=<F328>", doc: &[], hide: false }, ..opt(&["-\u{d7ff}", "--kappa", "--a b", "-g"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-E <F329>", doc: &["Doc of f329.", "[default: dd]"], hide: false }, ..opt(&["-E"], Kind::One) },
                    Opt { eq: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-C, --rho_s=<FOO {BAR}>", doc: &["First {of} f330,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-C", "--rho_s"], Kind::List) },
                    Opt { global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "--zeta[=<FOO {BAR}>]", doc: &["Doc of f331."], hide: false }, ..opt(&["--zeta"], Kind::Maybe) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-g, --kappa <[X]>", doc: &["Doc of f332.", "[default: b,a]"], hide: false }, ..opt(&["-g", "--kappa", "--x2", "-B"], Kind::List) },
                    Opt { hyphen: true, global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "--theta <a-é>", doc: &[], hide: false }, ..opt(&["--theta"], Kind::List) },
                    Opt { hyphen: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{d7ff}, --a b <[X]>", doc: &["[default: dd]"], hide: true }, ..opt(&["-\u{d7ff}", "--a b"], Kind::One) },
                    Opt { hyphen: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-b, --phi+ <FOO {BAR}>", doc: &["Doc of f335.", "[default: b,a]"], hide: true }, ..opt(&["-b", "--phi+"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "--iota=<F336>", doc: &["Doc of f336."], hide: false }, ..opt(&["--iota"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-H, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <a-é>", doc: &["Doc of f337.", "[default: -7]"], hide: true }, ..opt(&["-H", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--a b", "-𐀀"], Kind::One) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "[F327]...", doc: &["Doc of f327."], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f328)]];
        match &self.cmd {
            Some(D26Cmd::Aa { f329, f330, g338 }) => {
                v.push(vec![just(f329), olist(f330), maybe(&g338.f331), list(&g338.f332), olist(&g338.g339.f333), one(&g338.g339.f334), olist(&g338.g339.f335), list(&g338.g339.f336)]);
            }
            Some(D26Cmd::AaBb(x)) => {
                v.push(vec![one(&x.f337), list(&x.f327)]);
            }
            Some(D26Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D27
#[derive(Subcommand)]
enum D27AaBbCmd {
    Aa {
        /// First {of} f349,
        ///
        /// 100% "more".
        #[arg(require_equals = true, global = true, value_delimiter = ',', default_value = "b,a", short = 'o', value_name = "a-é", long = "kappas", ignore_case = true)]
        f349: Option<Vec<Letter>>,
        /// Doc of f350.
        #[arg(short = '0', default_value = "dd", long = "q\u{22}q", global = true, require_equals = true, value_name = "[X]")]
        f350: Option<OsString>,
    },
    /// About {it}.
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D27AaBb {
    /// Doc of f348.
    #[arg(ignore_case = true, long = "gamma", allow_hyphen_values = true, global = true, default_value = "b")]
    f348: Option<Vec<Letter>>,
    #[arg(short = 'd', short_alias = '{', value_name = "FOO {BAR}", long = "é-long", alias = "kappa", require_equals = true)]
    f347: Option<Option<OsString>>,
    #[command(subcommand)]
    cmd: Option<D27AaBbCmd>,
}
#[derive(Subcommand)]
enum D27Cmd {
    /// About {it}.
    Aa {
        /// First {of} f346,
        ///
        /// 100% "more".
        #[arg(long = "eps-i", short = '→')]
        f346: bool,
        /// First {of} f345,
        ///
        #[arg(hide = true, default_value = "b")]
        /// 100% "more".
        #[arg(global = true, short = '0', require_equals = true)]
        f345: Option<Option<Letter>>,
        /// Doc of f340.
        #[arg(value_name = "a-é", value_delimiter = ',', hide = true)]
        #[arg(last = true)]
        f340: Vec<String>,
    },
    AaBb(D27AaBb),
    /// About {it}.
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D27 {
    /// Doc of f343.
    #[arg(short = 'v', short_alias = 'J', ignore_case = true, long = "eps-i", default_value = "b,a", alias = "x2", value_delimiter = ',', global = true, value_name = "a-é", require_equals = true)]
    f343: Option<Vec<Letter>>,
    /// Doc of f344.
    #[arg(short = '߿', default_value = "b", allow_negative_numbers = true)]
    f344: Option<Letter>,
    /// First {of} f342,
    ///
    /// 100% "more".
    #[arg(short = 'o', global = true, value_delimiter = ',', allow_hyphen_values = true, value_name = "[X]")]
    f342: Vec<i16>,
    #[arg(short = 'k', long = "kappa", require_equals = true, alias = "h", value_name = "FOO {BAR}", short_alias = '1')]
    #[arg(default_value = "dd")]
    f341: Option<Option<String>>,
    #[command(subcommand)]
    cmd: D27Cmd,
}
impl Told for D27 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-k, --kappa[=<FOO {BAR}>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-k", "--kappa", "--h", "-1"], Kind::Maybe) },
            Opt { hyphen: true, global: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-o <[X]>", doc: &["First {of} f342,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-o"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-v, --eps-i=<a-é>", doc: &["Doc of f343.", "[default: b,a]"], hide: false }, ..opt(&["-v", "--eps-i", "--x2", "-J"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-߿ <F344>", doc: &["Doc of f344.", "[default: b]"], hide: false }, ..opt(&["-߿"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-0[=<F345>]", doc: &["First {of} f345,", "100% \u{22}more\u{22}.", "[default: b]"], hide: true }, ..opt(&["-0"], Kind::Maybe) },
                    Opt { rules: Rules { ..R }, shown: Shown { as_: "-→, --eps-i", doc: &["First {of} f346,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-→", "--eps-i"], Kind::Flag) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "[a-é]...", doc: &["Doc of f340."], hide: true }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { ..R }, shown: Shown { as_: "-d, --é-long[=<FOO {BAR}>]", doc: &[], hide: false }, ..opt(&["-d", "--é-long", "--kappa", "-{"], Kind::Maybe) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--gamma <F348>", doc: &["Doc of f348.", "[default: b]"], hide: false }, ..opt(&["--gamma"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { eq: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-o, --kappas=<a-é>", doc: &["First {of} f349,", "100% \u{22}more\u{22}.", "[default: b,a]"], hide: false }, ..opt(&["-o", "--kappas"], Kind::List) },
                            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-0, --q\u{22}q=<[X]>", doc: &["Doc of f350.", "[default: dd]"], hide: false }, ..opt(&["-0", "--q\u{22}q"], Kind::One) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![maybe(&self.f341), list(&self.f342), olist(&self.f343), one(&self.f344)]];
        match &self.cmd {
            D27Cmd::Aa { f345, f346, f340 } => {
                v.push(vec![maybe(f345), flag(*f346), list(f340)]);
            }
            D27Cmd::AaBb(x) => {
                v.push(vec![maybe(&x.f347), olist(&x.f348)]);
                match &x.cmd {
                    Some(D27AaBbCmd::Aa { f349, f350 }) => {
                        v.push(vec![olist(f349), one(f350)]);
                    }
                    Some(D27AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            D27Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D28
#[derive(Args)]
struct D28G0 {
    #[arg(hide = true, allow_negative_numbers = true, short = 'd', long = "delta", alias = "pi", short_alias = 'G', value_delimiter = ',', value_name = "FOO {BAR}")]
    f359: Option<Vec<OsString>>,
    #[arg(ignore_case = true, allow_negative_numbers = true, value_delimiter = ',', short = 'n', default_value = "b,a")]
    f361: Option<Vec<Letter>>,
    #[arg(allow_negative_numbers = true, long = "eps-i", global = true)]
    f360: Option<OsString>,
    /// First {of} f358,
    ///
    /// 100% "more".
    #[arg(allow_negative_numbers = true, default_value_t = "dd".to_string(), short = '�')]
    f358: String,
    /// Doc of f356.
    #[arg(allow_hyphen_values = true, default_value_t = -7)]
    #[arg(long = "kap")]
    f356: i16,
    /// Doc of f357.
    #[arg(allow_negative_numbers = true, value_name = "FOO {BAR}", long = "eta", default_value_t = -7, short = 'H')]
    f357: Option<i16>,
}
/// About {it}.
#[derive(Parser)]
struct D28 {
    #[arg(default_value = "dd", short = 'B', long = "alpha", require_equals = true)]
    f354: Option<Option<OsString>>,
    #[arg(default_value = "", short = 'u')]
    #[arg(global = true, require_equals = true)]
    f353: Option<Vec<OsString>>,
    #[arg(default_value = "b", long = "x-y", global = true, ignore_case = true, short = 'v', value_name = "a-é", allow_hyphen_values = true)]
    f352: Option<Letter>,
    #[command(flatten)]
    g362: D28G0,
    #[arg(alias = "gamma", short = 'D', default_value_t = Letter::B, allow_negative_numbers = true, value_name = "[X]", long = "up.s", short_alias = 'k', global = true)]
    f355: Letter,
    #[arg(trailing_var_arg = true, hide = true, value_delimiter = ',', default_value = "dd,e")]
    f351: Vec<OsString>,
}
impl Told for D28 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-v, --x-y <a-é>", doc: &["[default: b]"], hide: false }, ..opt(&["-v", "--x-y"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-u=<F353>", doc: &["[default: ]"], hide: false }, ..opt(&["-u"], Kind::List) },
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-B, --alpha[=<F354>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-B", "--alpha"], Kind::Maybe) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-D, --up.s <[X]>", doc: &["[default: b]"], hide: false }, ..opt(&["-D", "--up.s", "--gamma", "-k"], Kind::One) },
            Opt { hyphen: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--kap <F356>", doc: &["Doc of f356.", "[default: -7]"], hide: false }, ..opt(&["--kap"], Kind::One) },
            Opt { negative: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-H, --eta <FOO {BAR}>", doc: &["Doc of f357.", "[default: -7]"], hide: false }, ..opt(&["-H", "--eta"], Kind::One) },
            Opt { negative: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-� <F358>", doc: &["First {of} f358,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-�"], Kind::One) },
            Opt { negative: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-d, --delta <FOO {BAR}>", doc: &[], hide: true }, ..opt(&["-d", "--delta", "--pi", "-G"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "--eps-i <F360>", doc: &[], hide: false }, ..opt(&["--eps-i"], Kind::One) },
            Opt { negative: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-n <F361>", doc: &["[default: b,a]"], hide: false }, ..opt(&["-n"], Kind::List) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "[F351]...", doc: &["[default: dd,e]"], hide: true }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f352), olist(&self.f353), maybe(&self.f354), just(&self.f355), just(&self.g362.f356), one(&self.g362.f357), just(&self.g362.f358), olist(&self.g362.f359), one(&self.g362.f360), olist(&self.g362.f361), list(&self.f351)]];
        v
    }
}
// @@ D29
#[derive(Args)]
struct D29G0 {
    #[arg(short = '\u{5c}', require_equals = true, alias = "rho_s", global = true, default_value = "", short_alias = '𐀀', hide = true, long = "a b")]
    f367: Option<Option<OsString>>,
    /// Doc of f366.
    #[arg(long = "é-long", allow_negative_numbers = true, value_name = "FOO {BAR}", short = 't', value_delimiter = ',', hide = true, short_alias = 'l', alias = "phi+", global = true)]
    f366: Vec<String>,
    /// Doc of f364.
    #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", require_equals = true, global = true)]
    f364: Option<Vec<i16>>,
    /// Doc of f365.
    #[arg(long = "delta", allow_hyphen_values = true, default_value = "-7", short = 'q')]
    f365: Option<i16>,
}
#[derive(Args)]
struct D29G1 {
    /// First {of} f371,
    ///
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", global = true, long = "Mu", default_value = "b", ignore_case = true, allow_hyphen_values = true)]
    f371: Option<Letter>,
    #[arg(short = 'é', allow_negative_numbers = true)]
    #[arg(default_value = "-7")]
    f368: i16,
    #[arg(ignore_case = true, short = 'J', require_equals = true, value_name = "FOO {BAR}")]
    f370: Option<Vec<Letter>>,
    /// Doc of f369.
    #[arg(allow_negative_numbers = true, short = 'B', hide = true, global = true, value_name = "FOO {BAR}")]
    f369: Option<String>,
}
#[derive(Args)]
struct D29G2G0 {
    /// Doc of f373.
    #[arg(allow_negative_numbers = true, short = '\u{e000}', long = "kappa", value_name = "a-é", global = true)]
    f373: Option<OsString>,
}
#[derive(Args)]
struct D29G2 {
    /// Doc of f372.
    #[arg(default_value_t = "dd".to_string(), long = "eps-i", value_name = "a-é", allow_hyphen_values = true)]
    f372: String,
    #[command(flatten)]
    g377: D29G2G0,
}
#[derive(Parser)]
struct D29 {
    #[command(flatten)]
    g374: D29G0,
    #[command(flatten)]
    g376: D29G2,
    #[command(flatten)]
    g375: D29G1,
    /// First {of} f363,
    ///
    /// 100% "more".
    #[arg(hide = true, value_name = "[X]")]
    f363: Option<Letter>,
}
impl Told for D29 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn=<F364>", doc: &["Doc of f364."], hide: false }, ..opt(&["--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-q, --delta <F365>", doc: &["Doc of f365.", "[default: -7]"], hide: false }, ..opt(&["-q", "--delta"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-t, --é-long <FOO {BAR}>", doc: &["Doc of f366."], hide: true }, ..opt(&["-t", "--é-long", "--phi+", "-l"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-\u{5c}, --a b[=<F367>]", doc: &["[default: ]"], hide: true }, ..opt(&["-\u{5c}", "--a b", "--rho_s", "-𐀀"], Kind::Maybe) },
            Opt { negative: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-é <F368>", doc: &["[default: -7]"], hide: false }, ..opt(&["-é"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-B <FOO {BAR}>", doc: &["Doc of f369."], hide: true }, ..opt(&["-B"], Kind::One) },
            Opt { eq: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-J=<FOO {BAR}>", doc: &[], hide: false }, ..opt(&["-J"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--Mu <FOO {BAR}>", doc: &["First {of} f371,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["--Mu"], Kind::One) },
            Opt { hyphen: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--eps-i <a-é>", doc: &["Doc of f372.", "[default: dd]"], hide: false }, ..opt(&["--eps-i"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-\u{e000}, --kappa <a-é>", doc: &["Doc of f373."], hide: false }, ..opt(&["-\u{e000}", "--kappa"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "[[X]]", doc: &["First {of} f363,", "100% \u{22}more\u{22}."], hide: true }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![olist(&self.g374.f364), one(&self.g374.f365), list(&self.g374.f366), maybe(&self.g374.f367), just(&self.g375.f368), one(&self.g375.f369), olist(&self.g375.f370), one(&self.g375.f371), just(&self.g376.f372), one(&self.g376.g377.f373), one(&self.f363)]];
        v
    }
}
// @@ D30
#[derive(Args)]
struct D30AaBbG0G0 {
    /// First {of} f386,
    ///
    #[arg(value_name = "[X]", value_delimiter = ',')]
    /// 100% "more".
    #[arg(long = "x2", short = 't')]
    f386: Vec<Letter>,
    /// Doc of f387.
    #[arg(require_equals = true)]
    #[arg(value_delimiter = ',', value_name = "a-é", short = 'E', long = "kap", global = true)]
    f387: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D30AaBbG0 {
    #[arg(long = "theta", default_value = "b", require_equals = true, hide = true)]
    f384: Option<Option<Letter>>,
    #[command(flatten)]
    g389: D30AaBbG0G0,
    /// First {of} f385,
    ///
    /// 100% "more".
    #[arg(alias = "tau", long = "alpha", default_value = "-7", require_equals = true, short_alias = 'o', short = 'H')]
    f385: Option<Vec<i16>>,
    #[arg(long = "psi")]
    #[arg(hide = true, global = true, allow_hyphen_values = true, default_value_t = "dd".to_string(), short = '0')]
    f383: Option<String>,
}
/// About {it}.
#[derive(Args)]
struct D30AaBb {
    /// Doc of f380.
    #[arg(global = true)]
    #[arg(value_delimiter = ',', allow_hyphen_values = true, ignore_case = true, short = '�', hide = true)]
    f380: Option<Vec<Letter>>,
    /// Doc of f382.
    #[arg(default_value_t = true, short = 'é')]
    f382: bool,
    #[command(flatten)]
    g388: D30AaBbG0,
    /// First {of} f381,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", short = '\u{10ffff}', allow_hyphen_values = true, default_value_t = Letter::B)]
    f381: Option<Letter>,
}
#[derive(Subcommand)]
enum D30Cmd {
    Aa {
        /// First {of} f379,
        ///
        /// 100% "more".
        #[arg(short = 'H', global = true, alias = "psi", default_value = "dd", require_equals = true, hide = true, long = "tau", short_alias = '0')]
        f379: String,
        /// Doc of f378.
        #[arg(last = true, default_value = "dd")]
        f378: Vec<OsString>,
    },
    AaBb(D30AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D30 {
    #[command(subcommand)]
    cmd: D30Cmd,
}
impl Told for D30 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-H, --tau=<F379>", doc: &["First {of} f379,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-H", "--tau", "--psi", "-0"], Kind::One) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "[F378]...", doc: &["Doc of f378.", "[default: dd]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { hyphen: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-� <F380>", doc: &["Doc of f380."], hide: true }, ..opt(&["-�"], Kind::List) },
                    Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-\u{10ffff} <a-é>", doc: &["First {of} f381,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-\u{10ffff}"], Kind::One) },
                    Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-é", doc: &["Doc of f382.", "[default: true]"], hide: false }, ..opt(&["-é"], Kind::Flag) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-0, --psi <F383>", doc: &["[default: dd]"], hide: true }, ..opt(&["-0", "--psi"], Kind::One) },
                    Opt { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--theta[=<F384>]", doc: &["[default: b]"], hide: true }, ..opt(&["--theta"], Kind::Maybe) },
                    Opt { eq: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-H, --alpha=<F385>", doc: &["First {of} f385,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-H", "--alpha", "--tau", "-o"], Kind::List) },
                    Opt { rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-t, --x2 <[X]>", doc: &["First {of} f386,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-t", "--x2"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-E, --kap=<a-é>", doc: &["Doc of f387."], hide: false }, ..opt(&["-E", "--kap"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            D30Cmd::Aa { f379, f378 } => {
                v.push(vec![just(f379), list(f378)]);
            }
            D30Cmd::AaBb(x) => {
                v.push(vec![olist(&x.f380), one(&x.f381), flag(x.f382), one(&x.g388.f383), maybe(&x.g388.f384), olist(&x.g388.f385), list(&x.g388.g389.f386), olist(&x.g388.g389.f387)]);
            }
            D30Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D31
#[derive(Args)]
struct D31G0 {
}
#[derive(Subcommand)]
enum D31AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// First {of} f399,
        ///
        /// 100% "more".
        #[arg(short = 'H', default_value = "dd", global = true, long = "omega", allow_hyphen_values = true)]
        f399: Option<Vec<OsString>>,
        /// First {of} f398,
        ///
        /// 100% "more".
        #[arg(ignore_case = true, require_equals = true, default_value_t = Letter::B, short = 'f', global = true)]
        f398: Letter,
        #[arg(hide = true, long = "beta", global = true)]
        f397: Vec<String>,
        /// First {of} f390,
        ///
        /// 100% "more".
        #[arg(hide = true)]
        f390: Option<Vec<Letter>>,
    },
    /// About {it}.
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D31AaBb {
    #[arg(value_name = "a-é", ignore_case = true, allow_negative_numbers = true, value_delimiter = ',', global = true, long = "delta")]
    f394: Vec<Letter>,
    /// First {of} f395,
    ///
    /// 100% "more".
    #[arg(value_name = "[X]", long = "chi", alias = "kap", short = 'g', value_delimiter = ',', short_alias = 'r')]
    f395: Option<Vec<String>>,
    #[arg(global = true, default_value = "dd", long = "x-y", hide = true, value_name = "[X]", short = 'm', allow_negative_numbers = true)]
    f396: String,
    #[command(subcommand)]
    cmd: D31AaBbCmd,
}
#[derive(Subcommand)]
enum D31Cmd {
    Aa {
    },
    AaBb(D31AaBb),
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D31 {
    /// First {of} f392,
    ///
    /// 100% "more".
    #[arg(alias = "a b", short = 'J', short_alias = 't', allow_negative_numbers = true, value_delimiter = ',', global = true, long = "psi")]
    f392: Option<Vec<Letter>>,
    /// Doc of f391.
    #[arg(global = true, long = "eps-i", value_name = "FOO {BAR}")]
    f391: bool,
    #[command(flatten)]
    g400: D31G0,
    /// Doc of f393.
    #[arg(value_name = "[X]", allow_negative_numbers = true, long = "\u{5c}")]
    #[arg(short = 'ࠀ', default_value = "-7")]
    f393: i16,
    #[command(subcommand)]
    cmd: D31Cmd,
}
impl Told for D31 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "--eps-i", doc: &["Doc of f391."], hide: false }, ..opt(&["--eps-i"], Kind::Flag) },
            Opt { negative: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-J, --psi <F392>", doc: &["First {of} f392,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-J", "--psi", "--a b", "-t"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-ࠀ, --\u{5c} <[X]>", doc: &["Doc of f393.", "[default: -7]"], hide: false }, ..opt(&["-ࠀ", "--\u{5c}"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--delta <a-é>", doc: &[], hide: false }, ..opt(&["--delta"], Kind::List) },
                    Opt { rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-g, --chi <[X]>", doc: &["First {of} f395,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-g", "--chi", "--kap", "-r"], Kind::List) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-m, --x-y <[X]>", doc: &["[default: dd]"], hide: true }, ..opt(&["-m", "--x-y"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "--beta <F397>", doc: &[], hide: true }, ..opt(&["--beta"], Kind::List) },
                            Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-f=<F398>", doc: &["First {of} f398,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-f"], Kind::One) },
                            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-H, --omega <F399>", doc: &["First {of} f399,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-H", "--omega"], Kind::List) },
                        ],
                        pos: &[
                            Pos { rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "[F390]...", doc: &["First {of} f390,", "100% \u{22}more\u{22}."], hide: true }, ..pos(true) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![flag(self.f391), olist(&self.f392), just(&self.f393)]];
        match &self.cmd {
            D31Cmd::Aa {  } => {
                v.push(vec![]);
            }
            D31Cmd::AaBb(x) => {
                v.push(vec![list(&x.f394), olist(&x.f395), just(&x.f396)]);
                match &x.cmd {
                    D31AaBbCmd::Aa { f397, f398, f399, f390 } => {
                        v.push(vec![list(f397), just(f398), olist(f399), olist(f390)]);
                    }
                    D31AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D31Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D32
#[derive(Args)]
struct D32G0 {
    /// First {of} f408,
    ///
    #[arg(long = "gamma", allow_hyphen_values = true)]
    /// 100% "more".
    #[arg(default_value = "dd", value_name = "FOO {BAR}")]
    f408: Vec<OsString>,
    /// Doc of f407.
    #[arg(long = "q\u{22}q", require_equals = true, default_value_t = Letter::B, ignore_case = true, short = 'G')]
    f407: Option<Letter>,
    #[arg(short = 'g', value_name = "a-é", value_delimiter = ',', require_equals = true)]
    f406: Vec<i16>,
    /// Doc of f409.
    #[arg(default_value_t = Letter::B, global = true, hide = true, value_name = "[X]", ignore_case = true, long = "omicron")]
    f409: Letter,
    #[arg(short = 'E')]
    #[arg(value_name = "FOO {BAR}", ignore_case = true, require_equals = true)]
    f410: Option<Option<Letter>>,
}
/// About {it}.
#[derive(Parser)]
struct D32 {
    #[command(flatten)]
    g411: D32G0,
    /// Doc of f404.
    #[arg(value_name = "FOO {BAR}", ignore_case = true, global = true, value_delimiter = ',', short = 'k')]
    f404: Vec<Letter>,
    #[arg(value_name = "FOO {BAR}", default_value = "-7", long = "tau", require_equals = true, global = true)]
    f402: Option<Option<i16>>,
    /// Doc of f403.
    #[arg(value_name = "a-é", long = "Mu", allow_hyphen_values = true)]
    f403: Option<String>,
    /// First {of} f405,
    ///
    #[arg(allow_hyphen_values = true, ignore_case = true, default_value_t = Letter::B)]
    /// 100% "more".
    #[arg(value_name = "[X]", long = "kappas", hide = true)]
    f405: Letter,
    /// First {of} f401,
    ///
    /// 100% "more".
    #[arg(trailing_var_arg = true, value_delimiter = ',', value_name = "[X]", default_value = "b,a")]
    f401: Option<Vec<Letter>>,
}
impl Told for D32 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--tau[=<FOO {BAR}>]", doc: &["[default: -7]"], hide: false }, ..opt(&["--tau"], Kind::Maybe) },
            Opt { hyphen: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "--Mu <a-é>", doc: &["Doc of f403."], hide: false }, ..opt(&["--Mu"], Kind::One) },
            Opt { global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-k <FOO {BAR}>", doc: &["Doc of f404."], hide: false }, ..opt(&["-k"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--kappas <[X]>", doc: &["First {of} f405,", "100% \u{22}more\u{22}.", "[default: b]"], hide: true }, ..opt(&["--kappas"], Kind::One) },
            Opt { eq: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-g=<a-é>", doc: &[], hide: false }, ..opt(&["-g"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-G, --q\u{22}q=<F407>", doc: &["Doc of f407.", "[default: b]"], hide: false }, ..opt(&["-G", "--q\u{22}q"], Kind::One) },
            Opt { hyphen: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--gamma <FOO {BAR}>", doc: &["First {of} f408,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["--gamma"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--omicron <[X]>", doc: &["Doc of f409.", "[default: b]"], hide: true }, ..opt(&["--omicron"], Kind::One) },
            Opt { rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-E[=<FOO {BAR}>]", doc: &[], hide: false }, ..opt(&["-E"], Kind::Maybe) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "[[X]]...", doc: &["First {of} f401,", "100% \u{22}more\u{22}.", "[default: b,a]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f402), one(&self.f403), list(&self.f404), just(&self.f405), list(&self.g411.f406), one(&self.g411.f407), list(&self.g411.f408), just(&self.g411.f409), maybe(&self.g411.f410), olist(&self.f401)]];
        v
    }
}
// @@ D33
#[derive(Args)]
struct D33G0 {
    /// Doc of f414.
    #[arg(short = '→', require_equals = true)]
    f414: Option<Option<Letter>>,
    /// First {of} f415,
    ///
    /// 100% "more".
    #[arg(hide = true, ignore_case = true, global = true, short = 'I', allow_hyphen_values = true)]
    f415: Option<Letter>,
}
#[derive(Args)]
struct D33G1 {
    #[arg(allow_hyphen_values = true, alias = "{}", short = 'p', default_value_t = Letter::B, long = "beta", value_name = "a-é", global = true, short_alias = '\u{80}')]
    f417: Letter,
    #[arg(require_equals = true, short = '\u{10ffff}', ignore_case = true, short_alias = '\u{27}', long = "\u{5c}", default_value_t = Letter::B, alias = "theta", global = true)]
    f416: Letter,
    /// Doc of f418.
    #[arg(long = "kap", ignore_case = true, default_value_t = Letter::B, value_name = "FOO {BAR}", global = true, short = '\u{22}')]
    f418: Option<Letter>,
}
#[derive(Args)]
struct D33G2G0 {
}
#[derive(Args)]
struct D33G2 {
    #[arg(short = 'G', global = true, value_delimiter = ',', value_name = "FOO {BAR}")]
    #[arg(allow_hyphen_values = true)]
    f420: Vec<String>,
    #[arg(value_delimiter = ',', short = 'j', ignore_case = true, allow_negative_numbers = true)]
    f419: Vec<Letter>,
    #[command(flatten)]
    g425: D33G2G0,
    /// Doc of f421.
    #[arg(allow_negative_numbers = true, global = true)]
    #[arg(long = "h", value_delimiter = ',')]
    f421: Option<Vec<Letter>>,
}
#[derive(Parser)]
struct D33 {
    /// Doc of f413.
    #[arg(allow_negative_numbers = true, long = "kappa")]
    f413: Option<Vec<i16>>,
    #[command(flatten)]
    g424: D33G2,
    #[command(flatten)]
    g423: D33G1,
    #[command(flatten)]
    g422: D33G0,
    /// First {of} f412,
    ///
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", hide = true, value_delimiter = ',')]
    f412: Option<Vec<i16>>,
}
impl Told for D33 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "--kappa <F413>", doc: &["Doc of f413."], hide: false }, ..opt(&["--kappa"], Kind::List) },
            Opt { rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-→[=<F414>]", doc: &["Doc of f414."], hide: false }, ..opt(&["-→"], Kind::Maybe) },
            Opt { hyphen: true, global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-I <F415>", doc: &["First {of} f415,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-I"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-\u{10ffff}, --\u{5c}=<F416>", doc: &["[default: b]"], hide: false }, ..opt(&["-\u{10ffff}", "--\u{5c}", "--theta", "-\u{27}"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-p, --beta <a-é>", doc: &["[default: b]"], hide: false }, ..opt(&["-p", "--beta", "--{}", "-\u{80}"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-\u{22}, --kap <FOO {BAR}>", doc: &["Doc of f418.", "[default: b]"], hide: false }, ..opt(&["-\u{22}", "--kap"], Kind::One) },
            Opt { negative: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-j <F419>", doc: &[], hide: false }, ..opt(&["-j"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-G <FOO {BAR}>", doc: &[], hide: false }, ..opt(&["-G"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "--h <F421>", doc: &["Doc of f421."], hide: false }, ..opt(&["--h"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["First {of} f412,", "100% \u{22}more\u{22}."], hide: true }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![olist(&self.f413), maybe(&self.g422.f414), one(&self.g422.f415), just(&self.g423.f416), just(&self.g423.f417), one(&self.g423.f418), list(&self.g424.f419), list(&self.g424.f420), olist(&self.g424.f421), olist(&self.f412)]];
        v
    }
}
// @@ D34
#[derive(Args)]
struct D34AaBbG0G0 {
}
#[derive(Args)]
struct D34AaBbG0 {
    #[command(flatten)]
    g437: D34AaBbG0G0,
    /// First {of} f434,
    ///
    /// 100% "more".
    #[arg(allow_hyphen_values = true, hide = true, value_delimiter = ',', long = "x2", short = 'z')]
    f434: Option<Vec<String>>,
    /// First {of} f435,
    ///
    #[arg(short = 'e', global = true, value_delimiter = ',', require_equals = true)]
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", default_value = "b,a")]
    f435: Vec<Letter>,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D34AaBb {
    /// First {of} f432,
    ///
    /// 100% "more".
    #[arg(short = 'n', alias = "up.s", default_value = "dd", long = "rho_s", short_alias = 'g', allow_negative_numbers = true, value_name = "[X]")]
    f432: OsString,
    #[arg(short = '\u{22}', default_value_t = "dd".to_string(), long = "nu", value_name = "[X]", allow_negative_numbers = true)]
    f433: Option<String>,
    #[command(flatten)]
    g436: D34AaBbG0,
}
#[derive(Subcommand)]
enum D34Cmd {
    Aa {
        #[arg(short = 'j', allow_hyphen_values = true)]
        f428: Option<Vec<String>>,
        /// Doc of f429.
        #[arg(global = true, allow_negative_numbers = true, value_name = "[X]", long = "omicron", value_delimiter = ',', default_value = "-7,8")]
        f429: Option<Vec<i16>>,
        /// Doc of f427.
        #[arg(allow_negative_numbers = true, value_name = "FOO {BAR}", global = true, short = 'u', default_value = "")]
        f427: Option<Vec<OsString>>,
        /// First {of} f430,
        ///
        /// 100% "more".
        #[arg(allow_hyphen_values = true, default_value_t = Letter::B, global = true, long = "Mu")]
        f430: Option<Letter>,
        #[arg(long = "eps-i", short = ' ', hide = true, default_value_t = "dd".to_string())]
        f431: Option<String>,
        /// First {of} f426,
        ///
        /// 100% "more".
        #[arg(value_name = "[X]", default_value = "dd")]
        f426: Option<String>,
    },
    AaBb(D34AaBb),
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D34 {
    #[command(subcommand)]
    cmd: Option<D34Cmd>,
}
impl Told for D34 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { negative: true, global: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-u <FOO {BAR}>", doc: &["Doc of f427.", "[default: ]"], hide: false }, ..opt(&["-u"], Kind::List) },
                    Opt { hyphen: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-j <F428>", doc: &[], hide: false }, ..opt(&["-j"], Kind::List) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "--omicron <[X]>", doc: &["Doc of f429.", "[default: -7,8]"], hide: false }, ..opt(&["--omicron"], Kind::List) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--Mu <F430>", doc: &["First {of} f430,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["--Mu"], Kind::One) },
                    Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "- , --eps-i <F431>", doc: &["[default: dd]"], hide: true }, ..opt(&["- ", "--eps-i"], Kind::One) },
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "[[X]]", doc: &["First {of} f426,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-n, --rho_s <[X]>", doc: &["First {of} f432,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-n", "--rho_s", "--up.s", "-g"], Kind::One) },
                    Opt { negative: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{22}, --nu <[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["-\u{22}", "--nu"], Kind::One) },
                    Opt { hyphen: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-z, --x2 <F434>", doc: &["First {of} f434,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-z", "--x2"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-e=<FOO {BAR}>", doc: &["First {of} f435,", "100% \u{22}more\u{22}.", "[default: b,a]"], hide: false }, ..opt(&["-e"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            Some(D34Cmd::Aa { f427, f428, f429, f430, f431, f426 }) => {
                v.push(vec![olist(f427), olist(f428), olist(f429), one(f430), one(f431), one(f426)]);
            }
            Some(D34Cmd::AaBb(x)) => {
                v.push(vec![just(&x.f432), one(&x.f433), olist(&x.g436.f434), list(&x.g436.f435)]);
            }
            Some(D34Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D35
#[derive(Args)]
struct D35AaG0 {
}
#[derive(Args)]
struct D35AaBbG0G0 {
    /// Doc of f444.
    #[arg(long = "zeta", value_delimiter = ',', require_equals = true, value_name = "a-é")]
    #[arg(default_value = "dd,e", short = 'c')]
    f444: Vec<String>,
}
#[derive(Args)]
struct D35AaBbG0 {
    /// Doc of f443.
    #[arg(short = '߿', alias = "é-long", long = "eta", global = true, short_alias = 'o', require_equals = true)]
    f443: Option<Option<String>>,
    #[command(flatten)]
    g450: D35AaBbG0G0,
    /// First {of} f442,
    ///
    /// 100% "more".
    #[arg(long = "x2", alias = "up.s", short = '\u{22}', short_alias = 'G', global = true, allow_negative_numbers = true)]
    f442: Option<Letter>,
}
#[derive(Subcommand)]
enum D35AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[arg(allow_negative_numbers = true, alias = "eta", ignore_case = true, short = 'B', long = "pi", value_name = "[X]", short_alias = 'é')]
        f445: Vec<Letter>,
        /// First {of} f446,
        ///
        /// 100% "more".
        #[arg(global = true, long = "é-long", require_equals = true, default_value = "-7", value_name = "[X]", short = 'o')]
        f446: Vec<i16>,
        /// First {of} f447,
        ///
        /// 100% "more".
        #[arg(long = "up.s", default_value_t = true)]
        f447: bool,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D35AaBb {
    #[command(flatten)]
    g449: D35AaBbG0,
    #[arg(default_value = "dd", allow_negative_numbers = true, value_name = "a-é", short = 'F')]
    f441: Option<OsString>,
    #[arg(default_value = "b", value_name = "FOO {BAR}")]
    f438: Letter,
    #[command(subcommand)]
    cmd: Option<D35AaBbCmd>,
}
#[derive(Subcommand)]
enum D35Cmd {
    /// About {it}.
    Aa {
        #[arg(short = 'o', require_equals = true)]
        f439: Option<Option<String>>,
        #[arg(long = "up.s", allow_hyphen_values = true)]
        #[arg(short = 'F')]
        f440: Option<OsString>,
        #[command(flatten)]
        g448: D35AaG0,
    },
    AaBb(D35AaBb),
    Uu,
}
#[derive(Parser)]
struct D35 {
    #[command(subcommand)]
    cmd: D35Cmd,
}
impl Told for D35 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-o[=<F439>]", doc: &[], hide: false }, ..opt(&["-o"], Kind::Maybe) },
                    Opt { hyphen: true, rules: Rules { ..R }, shown: Shown { as_: "-F, --up.s <F440>", doc: &[], hide: false }, ..opt(&["-F", "--up.s"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-F <a-é>", doc: &["[default: dd]"], hide: false }, ..opt(&["-F"], Kind::One) },
                    Opt { negative: true, global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-\u{22}, --x2 <F442>", doc: &["First {of} f442,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{22}", "--x2", "--up.s", "-G"], Kind::One) },
                    Opt { global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-߿, --eta[=<F443>]", doc: &["Doc of f443."], hide: false }, ..opt(&["-߿", "--eta", "--é-long", "-o"], Kind::Maybe) },
                    Opt { eq: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-c, --zeta=<a-é>", doc: &["Doc of f444.", "[default: dd,e]"], hide: false }, ..opt(&["-c", "--zeta"], Kind::List) },
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["[default: b]"], hide: false }, ..pos(false) },
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { negative: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-B, --pi <[X]>", doc: &[], hide: false }, ..opt(&["-B", "--pi", "--eta", "-é"], Kind::List) },
                            Opt { eq: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-o, --é-long=<[X]>", doc: &["First {of} f446,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-o", "--é-long"], Kind::List) },
                            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--up.s", doc: &["First {of} f447,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["--up.s"], Kind::Flag) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            D35Cmd::Aa { f439, f440, g448 } => {
                v.push(vec![maybe(f439), one(f440)]);
            }
            D35Cmd::AaBb(x) => {
                v.push(vec![one(&x.f441), one(&x.g449.f442), maybe(&x.g449.f443), list(&x.g449.g450.f444), just(&x.f438)]);
                match &x.cmd {
                    Some(D35AaBbCmd::Aa { f445, f446, f447 }) => {
                        v.push(vec![list(f445), list(f446), flag(*f447)]);
                    }
                    Some(D35AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            D35Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D36
#[derive(Parser)]
struct D36 {
    /// Doc of f456.
    #[arg(default_value = "-7", require_equals = true, long = "h", value_name = "FOO {BAR}")]
    f456: Option<Option<i16>>,
    /// Doc of f457.
    #[arg(long = "nu", allow_negative_numbers = true, value_name = "FOO {BAR}", value_delimiter = ',', global = true)]
    f457: Option<Vec<i16>>,
    /// Doc of f455.
    #[arg(allow_negative_numbers = true)]
    #[arg(default_value = "b", short = 'x', value_name = "FOO {BAR}")]
    f455: Letter,
    /// First {of} f452,
    ///
    /// 100% "more".
    #[arg(short = 'q', value_name = "FOO {BAR}", allow_hyphen_values = true, ignore_case = true, long = "delta", global = true, value_delimiter = ',')]
    f452: Vec<Letter>,
    /// First {of} f458,
    ///
    /// 100% "more".
    #[arg(ignore_case = true, allow_hyphen_values = true, short = 'g', default_value_t = Letter::B, long = "rho_s", global = true, value_name = "a-é")]
    f458: Letter,
    #[arg(long = "x-y", default_value = "b", short = 'F', allow_hyphen_values = true)]
    f454: Vec<Letter>,
    /// Doc of f453.
    #[arg(value_name = "FOO {BAR}", global = true, short = 'r', long = "iota", allow_negative_numbers = true, default_value_t = -7)]
    f453: i16,
    #[arg(value_name = "[X]")]
    f451: Option<String>,
}
impl Told for D36 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-q, --delta <FOO {BAR}>", doc: &["First {of} f452,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-q", "--delta"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-r, --iota <FOO {BAR}>", doc: &["Doc of f453.", "[default: -7]"], hide: false }, ..opt(&["-r", "--iota"], Kind::One) },
            Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-F, --x-y <F454>", doc: &["[default: b]"], hide: false }, ..opt(&["-F", "--x-y"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-x <FOO {BAR}>", doc: &["Doc of f455.", "[default: b]"], hide: false }, ..opt(&["-x"], Kind::One) },
            Opt { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--h[=<FOO {BAR}>]", doc: &["Doc of f456.", "[default: -7]"], hide: false }, ..opt(&["--h"], Kind::Maybe) },
            Opt { negative: true, global: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "--nu <FOO {BAR}>", doc: &["Doc of f457."], hide: false }, ..opt(&["--nu"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-g, --rho_s <a-é>", doc: &["First {of} f458,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-g", "--rho_s"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "[[X]]", doc: &[], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f452), just(&self.f453), list(&self.f454), just(&self.f455), maybe(&self.f456), olist(&self.f457), just(&self.f458), one(&self.f451)]];
        v
    }
}
// @@ D37
#[derive(Args)]
struct D37G0 {
    #[arg(ignore_case = true, short = 'G')]
    #[arg(value_delimiter = ',', default_value = "b,a", hide = true, allow_negative_numbers = true, global = true)]
    f466: Vec<Letter>,
    #[arg(long = "h", default_value_t = true, short = 'g', value_name = "FOO {BAR}", global = true)]
    f465: bool,
}
#[derive(Parser)]
struct D37 {
    /// Doc of f464.
    #[arg(long = "up.s", allow_hyphen_values = true, short = '3', alias = "chi", default_value = "b", short_alias = 'y', ignore_case = true)]
    f464: Option<Vec<Letter>>,
    /// Doc of f461.
    #[arg(long = "{}", global = true, require_equals = true)]
    f461: Option<Option<Letter>>,
    #[command(flatten)]
    g467: D37G0,
    #[arg(value_name = "FOO {BAR}", global = true, value_delimiter = ',', long = "kappa", require_equals = true, default_value = "-7,8")]
    f460: Vec<i16>,
    /// First {of} f462,
    ///
    /// 100% "more".
    #[arg(long = "beta", short = '\u{10ffff}', short_alias = 'r', value_name = "a-é", require_equals = true, value_delimiter = ',', alias = "omicron")]
    f462: Option<Vec<String>>,
    #[arg(global = true, alias = "rho_s", long = "gamma", default_value_t = true, short_alias = '\u{e000}', hide = true, short = 's')]
    f463: bool,
    /// Doc of f459.
    #[arg(trailing_var_arg = true, value_name = "a-é", value_delimiter = ',', default_value = "-7,8")]
    f459: Option<Vec<i16>>,
}
impl Told for D37 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "--kappa=<FOO {BAR}>", doc: &["[default: -7,8]"], hide: false }, ..opt(&["--kappa"], Kind::List) },
            Opt { global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "--{}[=<F461>]", doc: &["Doc of f461."], hide: false }, ..opt(&["--{}"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{10ffff}, --beta=<a-é>", doc: &["First {of} f462,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{10ffff}", "--beta", "--omicron", "-r"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-s, --gamma", doc: &["[default: true]"], hide: true }, ..opt(&["-s", "--gamma", "--rho_s", "-\u{e000}"], Kind::Flag) },
            Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-3, --up.s <F464>", doc: &["Doc of f464.", "[default: b]"], hide: false }, ..opt(&["-3", "--up.s", "--chi", "-y"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-g, --h", doc: &["[default: true]"], hide: false }, ..opt(&["-g", "--h"], Kind::Flag) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-G <F466>", doc: &["[default: b,a]"], hide: true }, ..opt(&["-G"], Kind::List) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "[a-é]...", doc: &["Doc of f459.", "[default: -7,8]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f460), maybe(&self.f461), olist(&self.f462), flag(self.f463), olist(&self.f464), flag(self.g467.f465), list(&self.g467.f466), olist(&self.f459)]];
        v
    }
}
// @@ D38
#[derive(Args)]
struct D38AaBb {
    #[arg(default_value = "b,a", value_name = "[X]")]
    #[arg(value_delimiter = ',', long = "kap", ignore_case = true, require_equals = true)]
    f475: Option<Vec<Letter>>,
    /// Doc of f474.
    #[arg(value_name = "[X]", short = 'G', alias = "kappa")]
    #[arg(value_delimiter = ',', short_alias = 'r', allow_hyphen_values = true, long = "helper")]
    f474: Vec<i16>,
    /// First {of} f473,
    ///
    /// 100% "more".
    #[arg(default_value = "", require_equals = true, long = "pi", value_name = "a-é")]
    f473: OsString,
    #[arg(default_value = "-7")]
    f468: Option<i16>,
}
#[derive(Subcommand)]
enum D38Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// First {of} f472,
        ///
        /// 100% "more".
        #[arg(default_value_t = "dd".to_string(), require_equals = true, long = "psi")]
        f472: Option<String>,
        /// First {of} f469,
        ///
        /// 100% "more".
        #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", value_name = "a-é", global = true, require_equals = true, short = '\u{80}')]
        f469: Option<Option<String>>,
        /// Doc of f470.
        #[arg(value_name = "FOO {BAR}", default_value_t = true, long = "kappas")]
        f470: bool,
        /// First {of} f471,
        ///
        /// 100% "more".
        #[arg(global = true, allow_hyphen_values = true, long = "helper", hide = true, value_name = "a-é", default_value = "-7")]
        f471: Option<i16>,
    },
    AaBb(D38AaBb),
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D38 {
    #[command(subcommand)]
    cmd: D38Cmd,
}
impl Told for D38 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{80}, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn[=<a-é>]", doc: &["First {of} f469,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{80}", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::Maybe) },
                    Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--kappas", doc: &["Doc of f470.", "[default: true]"], hide: false }, ..opt(&["--kappas"], Kind::Flag) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--helper <a-é>", doc: &["First {of} f471,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: true }, ..opt(&["--helper"], Kind::One) },
                    Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--psi=<F472>", doc: &["First {of} f472,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["--psi"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "--pi=<a-é>", doc: &["First {of} f473,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["--pi"], Kind::One) },
                    Opt { hyphen: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-G, --helper <[X]>", doc: &["Doc of f474."], hide: false }, ..opt(&["-G", "--helper", "--kappa", "-r"], Kind::List) },
                    Opt { eq: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--kap=<[X]>", doc: &["[default: b,a]"], hide: false }, ..opt(&["--kap"], Kind::List) },
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "[F468]", doc: &["[default: -7]"], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            D38Cmd::Aa { f469, f470, f471, f472 } => {
                v.push(vec![maybe(f469), flag(*f470), one(f471), one(f472)]);
            }
            D38Cmd::AaBb(x) => {
                v.push(vec![just(&x.f473), list(&x.f474), olist(&x.f475), one(&x.f468)]);
            }
            D38Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D39
#[derive(Args)]
struct D39G0G0 {
}
#[derive(Args)]
struct D39G0 {
    #[arg(alias = "psi", long = "omicron", allow_negative_numbers = true, short = 'm', short_alias = 'c')]
    f478: Option<i16>,
    #[command(flatten)]
    g485: D39G0G0,
}
#[derive(Args)]
struct D39AaG0 {
    /// Doc of f481.
    #[arg(short = '\u{5c}', value_delimiter = ',', long = "iota", global = true, allow_hyphen_values = true)]
    f481: Option<Vec<Letter>>,
    /// First {of} f480,
    ///
    #[arg(default_value = "dd")]
    /// 100% "more".
    #[arg(short = 'm', long = "psi", value_name = "a-é", allow_hyphen_values = true)]
    f480: Option<OsString>,
}
#[derive(Subcommand)]
enum D39AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[arg(alias = "gamma", value_name = "[X]", short_alias = 'm', allow_negative_numbers = true, short = '→', global = true, long = "{}", default_value = "-7")]
        f483: i16,
        /// Doc of f482.
        #[arg(global = true, hide = true, short = 'd', default_value = "dd", require_equals = true)]
        f482: Option<Option<OsString>>,
    },
    /// About {it}.
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D39AaBb {
    #[command(subcommand)]
    cmd: D39AaBbCmd,
}
#[derive(Subcommand)]
enum D39Cmd {
    /// About {it}.
    Aa {
        #[command(flatten)]
        g486: D39AaG0,
        /// First {of} f479,
        ///
        /// 100% "more".
        #[arg(short = '\u{80}', require_equals = true, global = true)]
        f479: Option<OsString>,
        /// Doc of f476.
        #[arg(value_delimiter = ',', last = true, default_value = "dd,e")]
        f476: Vec<String>,
    },
    AaBb(D39AaBb),
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D39 {
    #[command(flatten)]
    g484: D39G0,
    /// Doc of f477.
    #[arg(global = true, short_alias = '\u{80}', short = 'd')]
    #[arg(long = "chi", alias = "iota", allow_hyphen_values = true)]
    f477: Option<String>,
    #[command(subcommand)]
    cmd: Option<D39Cmd>,
}
impl Told for D39 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "-d, --chi <F477>", doc: &["Doc of f477."], hide: false }, ..opt(&["-d", "--chi", "--iota", "-\u{80}"], Kind::One) },
            Opt { negative: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-m, --omicron <F478>", doc: &[], hide: false }, ..opt(&["-m", "--omicron", "--psi", "-c"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-\u{80}=<F479>", doc: &["First {of} f479,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{80}"], Kind::One) },
                    Opt { hyphen: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-m, --psi <a-é>", doc: &["First {of} f480,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-m", "--psi"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-\u{5c}, --iota <F481>", doc: &["Doc of f481."], hide: false }, ..opt(&["-\u{5c}", "--iota"], Kind::List) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "[F476]...", doc: &["Doc of f476.", "[default: dd,e]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-d[=<F482>]", doc: &["Doc of f482.", "[default: dd]"], hide: true }, ..opt(&["-d"], Kind::Maybe) },
                            Opt { negative: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-→, --{} <[X]>", doc: &["[default: -7]"], hide: false }, ..opt(&["-→", "--{}", "--gamma", "-m"], Kind::One) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f477), one(&self.g484.f478)]];
        match &self.cmd {
            Some(D39Cmd::Aa { f479, g486, f476 }) => {
                v.push(vec![one(f479), one(&g486.f480), olist(&g486.f481), list(f476)]);
            }
            Some(D39Cmd::AaBb(x)) => {
                v.push(vec![]);
                match &x.cmd {
                    D39AaBbCmd::Aa { f482, f483 } => {
                        v.push(vec![maybe(f482), just(f483)]);
                    }
                    D39AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D39Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D40
/// About {it}.
#[derive(Parser)]
struct D40 {
    /// First {of} f489,
    ///
    #[arg(value_name = "FOO {BAR}", allow_hyphen_values = true, value_delimiter = ',')]
    /// 100% "more".
    #[arg(default_value = "-7,8", short = 't', long = "delta")]
    f489: Option<Vec<i16>>,
    #[arg(short = 'g', value_name = "a-é", ignore_case = true, require_equals = true)]
    f488: Option<Option<Letter>>,
    #[arg(hide = true, short = '\u{5c}', default_value_t = "dd".to_string(), global = true, require_equals = true, value_name = "a-é")]
    f492: Option<String>,
    #[arg(allow_hyphen_values = true, short = '𐀀', hide = true)]
    f491: Vec<Letter>,
    /// Doc of f490.
    #[arg(short = 'x', default_value_t = Letter::B, allow_negative_numbers = true, long = "omicron")]
    f490: Option<Letter>,
    /// First {of} f494,
    ///
    /// 100% "more".
    #[arg(global = true, allow_hyphen_values = true, value_delimiter = ',', long = "x", value_name = "FOO {BAR}")]
    f494: Option<Vec<OsString>>,
    /// Doc of f493.
    #[arg(short = 'A', value_delimiter = ',', ignore_case = true, require_equals = true, long = "q\u{22}q", default_value = "b,a")]
    f493: Vec<Letter>,
    /// Doc of f487.
    #[arg(value_delimiter = ',', default_value = "dd,e", value_name = "[X]")]
    f487: Vec<OsString>,
}
impl Told for D40 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-g[=<a-é>]", doc: &[], hide: false }, ..opt(&["-g"], Kind::Maybe) },
            Opt { hyphen: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-t, --delta <FOO {BAR}>", doc: &["First {of} f489,", "100% \u{22}more\u{22}.", "[default: -7,8]"], hide: false }, ..opt(&["-t", "--delta"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-x, --omicron <F490>", doc: &["Doc of f490.", "[default: b]"], hide: false }, ..opt(&["-x", "--omicron"], Kind::One) },
            Opt { hyphen: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-𐀀 <F491>", doc: &[], hide: true }, ..opt(&["-𐀀"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{5c}=<a-é>", doc: &["[default: dd]"], hide: true }, ..opt(&["-\u{5c}"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-A, --q\u{22}q=<F493>", doc: &["Doc of f493.", "[default: b,a]"], hide: false }, ..opt(&["-A", "--q\u{22}q"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "--x <FOO {BAR}>", doc: &["First {of} f494,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["--x"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "[[X]]...", doc: &["Doc of f487.", "[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f488), olist(&self.f489), one(&self.f490), list(&self.f491), one(&self.f492), list(&self.f493), olist(&self.f494), list(&self.f487)]];
        v
    }
}
// @@ D41
#[derive(Args)]
struct D41G0G0 {
    #[arg(allow_hyphen_values = true, global = true, long = "\u{5c}", default_value_t = Letter::B)]
    f498: Letter,
    /// Doc of f500.
    #[arg(hide = true, short_alias = '\u{e000}', value_name = "a-é", short = 'v', require_equals = true, long = "nu", alias = "alpha")]
    f500: Option<Option<Letter>>,
    /// First {of} f501,
    ///
    #[arg(default_value_t = -7, short = '\u{10ffff}', allow_hyphen_values = true)]
    /// 100% "more".
    #[arg(global = true)]
    f501: Option<i16>,
    #[arg(allow_hyphen_values = true, global = true, long = "phi+", short = 'A')]
    #[arg(default_value = "dd")]
    f499: OsString,
}
#[derive(Args)]
struct D41G0 {
    /// Doc of f497.
    #[arg(value_delimiter = ',', value_name = "a-é")]
    #[arg(short = 'E', default_value = "dd,e")]
    f497: Option<Vec<String>>,
    #[command(flatten)]
    g504: D41G0G0,
}
#[derive(Args)]
struct D41G1 {
}
#[derive(Args)]
struct D41G2 {
    /// First {of} f502,
    ///
    #[arg(allow_negative_numbers = true)]
    /// 100% "more".
    #[arg(default_value = "dd", global = true, short = '3')]
    f502: OsString,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D41 {
    #[command(flatten)]
    g506: D41G2,
    /// Doc of f496.
    #[arg(alias = "theta", require_equals = true, hide = true, value_name = "[X]", default_value = "-7", long = "tau", short = 't', global = true, short_alias = '1')]
    f496: Option<Option<i16>>,
    #[command(flatten)]
    g505: D41G1,
    #[command(flatten)]
    g503: D41G0,
    /// Doc of f495.
    #[arg(default_value = "dd")]
    f495: String,
}
impl Told for D41 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-t, --tau[=<[X]>]", doc: &["Doc of f496.", "[default: -7]"], hide: true }, ..opt(&["-t", "--tau", "--theta", "-1"], Kind::Maybe) },
            Opt { rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-E <a-é>", doc: &["Doc of f497.", "[default: dd,e]"], hide: false }, ..opt(&["-E"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "--\u{5c} <F498>", doc: &["[default: b]"], hide: false }, ..opt(&["--\u{5c}"], Kind::One) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-A, --phi+ <F499>", doc: &["[default: dd]"], hide: false }, ..opt(&["-A", "--phi+"], Kind::One) },
            Opt { rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-v, --nu[=<a-é>]", doc: &["Doc of f500."], hide: true }, ..opt(&["-v", "--nu", "--alpha", "-\u{e000}"], Kind::Maybe) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-\u{10ffff} <F501>", doc: &["First {of} f501,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-\u{10ffff}"], Kind::One) },
            Opt { negative: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-3 <F502>", doc: &["First {of} f502,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-3"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "[F495]", doc: &["Doc of f495.", "[default: dd]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f496), olist(&self.g503.f497), just(&self.g503.g504.f498), just(&self.g503.g504.f499), maybe(&self.g503.g504.f500), one(&self.g503.g504.f501), just(&self.g506.f502), just(&self.f495)]];
        v
    }
}
// @@ D42
#[derive(Args)]
struct D42AaG0G0 {
}
#[derive(Args)]
struct D42AaG0 {
    #[command(flatten)]
    g516: D42AaG0G0,
    /// First {of} f510,
    ///
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", default_value = "dd", short = '�', require_equals = true)]
    f510: Option<Option<String>>,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D42AaBb {
    /// Doc of f513.
    #[arg(long = "kappas", value_name = "FOO {BAR}", default_value_t = -7)]
    f513: i16,
    #[arg(default_value_t = Letter::B, ignore_case = true, allow_negative_numbers = true, value_name = "[X]", long = "delta", short = 'C')]
    f511: Letter,
    #[arg(short = 'v', allow_hyphen_values = true, ignore_case = true, global = true, value_name = "FOO {BAR}", default_value = "b")]
    f512: Option<Vec<Letter>>,
    #[arg(global = true, require_equals = true, value_name = "FOO {BAR}", long = "eta", default_value = "dd")]
    f514: Option<Option<OsString>>,
}
#[derive(Subcommand)]
enum D42Cmd {
    Aa {
        #[command(flatten)]
        g515: D42AaG0,
    },
    AaBb(D42AaBb),
    /// About {it}.
    Uu,
}
#[derive(Parser)]
struct D42 {
    /// Doc of f508.
    #[arg(hide = true, short = 's', require_equals = true, default_value = "-7", value_name = "FOO {BAR}")]
    f508: Option<Option<i16>>,
    /// First {of} f509,
    ///
    /// 100% "more".
    #[arg(default_value = "b", short = 'J', long = "kappas", require_equals = true)]
    f509: Option<Option<Letter>>,
    /// First {of} f507,
    ///
    /// 100% "more".
    #[arg(value_name = "[X]", last = true, value_delimiter = ',')]
    f507: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D42Cmd,
}
impl Told for D42 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-s[=<FOO {BAR}>]", doc: &["Doc of f508.", "[default: -7]"], hide: true }, ..opt(&["-s"], Kind::Maybe) },
            Opt { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-J, --kappas[=<F509>]", doc: &["First {of} f509,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-J", "--kappas"], Kind::Maybe) },
        ],
        pos: &[
            Pos { last: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "[[X]]...", doc: &["First {of} f507,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-�[=<FOO {BAR}>]", doc: &["First {of} f510,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-�"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-C, --delta <[X]>", doc: &["[default: b]"], hide: false }, ..opt(&["-C", "--delta"], Kind::One) },
                    Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-v <FOO {BAR}>", doc: &["[default: b]"], hide: false }, ..opt(&["-v"], Kind::List) },
                    Opt { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "--kappas <FOO {BAR}>", doc: &["Doc of f513.", "[default: -7]"], hide: false }, ..opt(&["--kappas"], Kind::One) },
                    Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--eta[=<FOO {BAR}>]", doc: &["[default: dd]"], hide: false }, ..opt(&["--eta"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![maybe(&self.f508), maybe(&self.f509), olist(&self.f507)]];
        match &self.cmd {
            D42Cmd::Aa { g515 } => {
                v.push(vec![maybe(&g515.f510)]);
            }
            D42Cmd::AaBb(x) => {
                v.push(vec![just(&x.f511), olist(&x.f512), just(&x.f513), maybe(&x.f514)]);
            }
            D42Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D43
#[derive(Subcommand)]
enum D43AaBbCmd {
    /// About {it}.
    Aa {
        #[arg(default_value = "dd", require_equals = true, long = "é-long", value_name = "FOO {BAR}")]
        f524: String,
    },
    /// About {it}.
    Zz,
}
#[derive(Args)]
struct D43AaBb {
    #[arg(short_alias = 'i', value_delimiter = ',', default_value = "b,a", value_name = "[X]", allow_negative_numbers = true, alias = "eps-i", long = "é-long", short = 'D')]
    f522: Vec<Letter>,
    /// First {of} f523,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", require_equals = true, short = 's', long = "zeta", global = true, ignore_case = true)]
    f523: Option<Option<Letter>>,
    #[command(subcommand)]
    cmd: D43AaBbCmd,
}
#[derive(Subcommand)]
enum D43Cmd {
    Aa {
    },
    AaBb(D43AaBb),
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D43 {
    #[arg(long = "gamma", value_name = "FOO {BAR}")]
    #[arg(hide = true, default_value = "dd")]
    f518: Vec<OsString>,
    #[arg(short_alias = 'a', long = "kappa", alias = "x-y")]
    #[arg(global = true, require_equals = true, value_delimiter = ',', short = '\u{d7ff}')]
    f519: Option<Vec<i16>>,
    /// Doc of f521.
    #[arg(alias = "q\u{22}q")]
    #[arg(short = 'i', short_alias = ' ', ignore_case = true, value_delimiter = ',', allow_negative_numbers = true, long = "chi")]
    f521: Option<Vec<Letter>>,
    #[arg(value_delimiter = ',', value_name = "[X]", short = 'd', hide = true, global = true, allow_negative_numbers = true)]
    f520: Option<Vec<String>>,
    #[arg(default_value = "-7")]
    f517: i16,
    #[command(subcommand)]
    cmd: D43Cmd,
}
impl Told for D43 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--gamma <FOO {BAR}>", doc: &["[default: dd]"], hide: true }, ..opt(&["--gamma"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{d7ff}, --kappa=<F519>", doc: &[], hide: false }, ..opt(&["-\u{d7ff}", "--kappa", "--x-y", "-a"], Kind::List) },
            Opt { negative: true, global: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-d <[X]>", doc: &[], hide: true }, ..opt(&["-d"], Kind::List) },
            Opt { negative: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-i, --chi <F521>", doc: &["Doc of f521."], hide: false }, ..opt(&["-i", "--chi", "--q\u{22}q", "- "], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "[F517]", doc: &["[default: -7]"], hide: false }, ..pos(false) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-D, --é-long <[X]>", doc: &["[default: b,a]"], hide: false }, ..opt(&["-D", "--é-long", "--eps-i", "-i"], Kind::List) },
                    Opt { global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-s, --zeta[=<a-é>]", doc: &["First {of} f523,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-s", "--zeta"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--é-long=<FOO {BAR}>", doc: &["[default: dd]"], hide: false }, ..opt(&["--é-long"], Kind::One) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f518), olist(&self.f519), olist(&self.f520), olist(&self.f521), just(&self.f517)]];
        match &self.cmd {
            D43Cmd::Aa {  } => {
                v.push(vec![]);
            }
            D43Cmd::AaBb(x) => {
                v.push(vec![list(&x.f522), maybe(&x.f523)]);
                match &x.cmd {
                    D43AaBbCmd::Aa { f524 } => {
                        v.push(vec![just(f524)]);
                    }
                    D43AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D43Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D44
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D44 {
    /// Doc of f527.
    #[arg(short_alias = 't', alias = "kappa", short = 'k', global = true, long = "x", default_value = "", require_equals = true)]
    f527: Option<Option<String>>,
    /// Doc of f529.
    #[arg(short = '1', long = "helper", require_equals = true, default_value = "dd", alias = "rho_s", global = true)]
    #[arg(short_alias = 'b')]
    f529: Vec<String>,
    /// First {of} f526,
    ///
    #[arg(allow_negative_numbers = true, alias = "iota", long = "x-y")]
    /// 100% "more".
    #[arg(short_alias = 'I', short = 'E', default_value_t = "dd".to_string())]
    f526: Option<String>,
    /// Doc of f530.
    #[arg(global = true, short = 'G', short_alias = 'ࠀ', default_value_t = Letter::B, alias = "zeta", value_name = "[X]", allow_hyphen_values = true, long = "tau")]
    f530: Letter,
    /// Doc of f531.
    #[arg(hide = true, global = true, value_name = "FOO {BAR}", long = "kappas")]
    f531: bool,
    #[arg(ignore_case = true, long = "up.s", value_name = "a-é", allow_hyphen_values = true)]
    f528: Vec<Letter>,
    #[arg(allow_negative_numbers = true, default_value_t = Letter::B)]
    #[arg(global = true, hide = true, long = "chi", ignore_case = true)]
    f532: Letter,
    #[arg(default_value = "dd")]
    f525: OsString,
}
impl Told for D44 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-E, --x-y <F526>", doc: &["First {of} f526,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-E", "--x-y", "--iota", "-I"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some(""), ty: Ty::Text, ..R }, shown: Shown { as_: "-k, --x[=<F527>]", doc: &["Doc of f527.", "[default: ]"], hide: false }, ..opt(&["-k", "--x", "--kappa", "-t"], Kind::Maybe) },
            Opt { hyphen: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--up.s <a-é>", doc: &[], hide: false }, ..opt(&["--up.s"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-1, --helper=<F529>", doc: &["Doc of f529.", "[default: dd]"], hide: false }, ..opt(&["-1", "--helper", "--rho_s", "-b"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-G, --tau <[X]>", doc: &["Doc of f530.", "[default: b]"], hide: false }, ..opt(&["-G", "--tau", "--zeta", "-ࠀ"], Kind::One) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "--kappas", doc: &["Doc of f531."], hide: true }, ..opt(&["--kappas"], Kind::Flag) },
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--chi <F532>", doc: &["[default: b]"], hide: true }, ..opt(&["--chi"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "[F525]", doc: &["[default: dd]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f526), maybe(&self.f527), list(&self.f528), list(&self.f529), just(&self.f530), flag(self.f531), just(&self.f532), just(&self.f525)]];
        v
    }
}
// @@ D45
#[derive(Args)]
struct D45G0 {
    #[arg(require_equals = true, value_name = "a-é", short = '3', default_value = "dd", long = "x2")]
    f534: Option<Option<OsString>>,
    /// First {of} f535,
    ///
    /// 100% "more".
    #[arg(allow_hyphen_values = true, global = true, default_value = "dd,e", short = 'f', value_delimiter = ',', long = "delta")]
    f535: Option<Vec<String>>,
}
#[derive(Args)]
struct D45G1G0 {
    /// Doc of f538.
    #[arg(alias = "iota")]
    #[arg(global = true, allow_negative_numbers = true, short = 'e', long = "eps-i", short_alias = '�')]
    f538: Option<OsString>,
    /// First {of} f540,
    ///
    #[arg(long = "q\u{22}q", require_equals = true, default_value_t = Letter::B, value_name = "[X]")]
    /// 100% "more".
    #[arg(global = true, short = 'u')]
    f540: Letter,
    /// Doc of f539.
    #[arg(long = "kap", allow_hyphen_values = true, default_value_t = Letter::B, ignore_case = true)]
    f539: Option<Letter>,
}
#[derive(Args)]
struct D45G1 {
    #[command(flatten)]
    g543: D45G1G0,
    /// Doc of f537.
    #[arg(value_name = "FOO {BAR}", default_value_t = true, short = '{')]
    f537: bool,
    #[arg(alias = "gamma", long = "beta", global = true, value_delimiter = ',')]
    #[arg(allow_hyphen_values = true, hide = true, short = 'n', short_alias = 'g')]
    f536: Vec<OsString>,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D45 {
    #[command(flatten)]
    g542: D45G1,
    #[command(flatten)]
    g541: D45G0,
    #[arg(default_value = "b", hide = true)]
    #[arg(value_name = "[X]")]
    f533: Letter,
}
impl Told for D45 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-3, --x2[=<a-é>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-3", "--x2"], Kind::Maybe) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-f, --delta <F535>", doc: &["First {of} f535,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-f", "--delta"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-n, --beta <F536>", doc: &[], hide: true }, ..opt(&["-n", "--beta", "--gamma", "-g"], Kind::List) },
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-{", doc: &["Doc of f537.", "[default: true]"], hide: false }, ..opt(&["-{"], Kind::Flag) },
            Opt { negative: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-e, --eps-i <F538>", doc: &["Doc of f538."], hide: false }, ..opt(&["-e", "--eps-i", "--iota", "-�"], Kind::One) },
            Opt { hyphen: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--kap <F539>", doc: &["Doc of f539.", "[default: b]"], hide: false }, ..opt(&["--kap"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-u, --q\u{22}q=<[X]>", doc: &["First {of} f540,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-u", "--q\u{22}q"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "[[X]]", doc: &["[default: b]"], hide: true }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.g541.f534), olist(&self.g541.f535), list(&self.g542.f536), flag(self.g542.f537), one(&self.g542.g543.f538), one(&self.g542.g543.f539), just(&self.g542.g543.f540), just(&self.f533)]];
        v
    }
}
// @@ D46
#[derive(Args)]
struct D46G0G0 {
}
#[derive(Args)]
struct D46G0 {
    #[command(flatten)]
    g553: D46G0G0,
    /// First {of} f545,
    ///
    /// 100% "more".
    #[arg(allow_hyphen_values = true, short = 'H', value_delimiter = ',')]
    f545: Option<Vec<i16>>,
}
#[derive(Args)]
struct D46AaG0G0 {
    /// Doc of f550.
    #[arg(short = 's')]
    #[arg(require_equals = true, default_value_t = Letter::B, value_name = "FOO {BAR}", ignore_case = true, long = "phi+", short_alias = '\u{e000}', alias = "eta")]
    f550: Letter,
    /// Doc of f549.
    #[arg(default_value = "dd")]
    #[arg(value_name = "[X]", long = "iota", allow_negative_numbers = true)]
    f549: Option<Vec<String>>,
}
#[derive(Args)]
struct D46AaG0 {
    #[command(flatten)]
    g555: D46AaG0G0,
    #[arg(global = true, default_value_t = Letter::B, long = "helper", ignore_case = true, allow_negative_numbers = true)]
    f547: Option<Letter>,
    /// First {of} f548,
    ///
    #[arg(long = "tau")]
    /// 100% "more".
    #[arg(value_name = "[X]", hide = true, allow_hyphen_values = true)]
    f548: Option<Letter>,
}
#[derive(Args)]
struct D46AaBb {
    /// First {of} f551,
    ///
    /// 100% "more".
    #[arg(long = "omega", value_delimiter = ',', allow_negative_numbers = true, hide = true, short = '߿', value_name = "a-é")]
    f551: Vec<OsString>,
    /// Doc of f544.
    #[arg(value_name = "[X]", trailing_var_arg = true)]
    f544: Vec<OsString>,
}
#[derive(Subcommand)]
enum D46Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[arg(short = '2', value_name = "a-é", default_value_t = -7, long = "eps-i", hide = true, allow_hyphen_values = true)]
        f546: i16,
        #[command(flatten)]
        g554: D46AaG0,
    },
    AaBb(D46AaBb),
    /// About {it}.
    Uu,
}
#[derive(Parser)]
struct D46 {
    #[command(flatten)]
    g552: D46G0,
    #[command(subcommand)]
    cmd: Option<D46Cmd>,
}
impl Told for D46 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { hyphen: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-H <F545>", doc: &["First {of} f545,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-H"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { hyphen: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-2, --eps-i <a-é>", doc: &["[default: -7]"], hide: true }, ..opt(&["-2", "--eps-i"], Kind::One) },
                    Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--helper <F547>", doc: &["[default: b]"], hide: false }, ..opt(&["--helper"], Kind::One) },
                    Opt { hyphen: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "--tau <[X]>", doc: &["First {of} f548,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["--tau"], Kind::One) },
                    Opt { negative: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "--iota <[X]>", doc: &["Doc of f549.", "[default: dd]"], hide: false }, ..opt(&["--iota"], Kind::List) },
                    Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-s, --phi+=<FOO {BAR}>", doc: &["Doc of f550.", "[default: b]"], hide: false }, ..opt(&["-s", "--phi+", "--eta", "-\u{e000}"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-߿, --omega <a-é>", doc: &["First {of} f551,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-߿", "--omega"], Kind::List) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { ..R }, shown: Shown { as_: "[[X]]...", doc: &["Doc of f544."], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.g552.f545)]];
        match &self.cmd {
            Some(D46Cmd::Aa { f546, g554 }) => {
                v.push(vec![just(f546), one(&g554.f547), one(&g554.f548), olist(&g554.g555.f549), just(&g554.g555.f550)]);
            }
            Some(D46Cmd::AaBb(x)) => {
                v.push(vec![list(&x.f551), list(&x.f544)]);
            }
            Some(D46Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D47
#[derive(Args)]
struct D47G0G0 {
    /// Doc of f557.
    #[arg(long = "psi", require_equals = true, global = true)]
    f557: Vec<Letter>,
}
#[derive(Args)]
struct D47G0 {
    #[command(flatten)]
    g565: D47G0G0,
}
#[derive(Args)]
struct D47AaBbAaG0G0 {
    /// Doc of f563.
    #[arg(alias = "helper", short = 'J', require_equals = true, global = true, short_alias = '{', long = "beta")]
    #[arg(value_name = "a-é")]
    f563: Option<Option<OsString>>,
}
#[derive(Args)]
struct D47AaBbAaG0 {
    #[command(flatten)]
    g567: D47AaBbAaG0G0,
    /// First {of} f562,
    ///
    #[arg(default_value = "-7", short = 'c')]
    /// 100% "more".
    #[arg(require_equals = true, value_name = "[X]")]
    f562: Option<i16>,
}
#[derive(Subcommand)]
enum D47AaBbCmd {
    /// About {it}.
    Aa {
        #[command(flatten)]
        g566: D47AaBbAaG0,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
#[derive(Args)]
struct D47AaBb {
    #[arg(require_equals = true, global = true, short = '\u{e000}')]
    #[arg(ignore_case = true, default_value = "b", hide = true)]
    f561: Letter,
    #[arg(value_name = "[X]", global = true, long = "psi", require_equals = true)]
    f560: Option<Option<String>>,
    /// Doc of f559.
    #[arg(long = "\u{5c}", hide = true, short_alias = '\u{5c}', short = 'p', alias = "a b", value_name = "FOO {BAR}")]
    f559: bool,
    #[command(subcommand)]
    cmd: Option<D47AaBbCmd>,
}
#[derive(Subcommand)]
enum D47Cmd {
    Aa {
        /// First {of} f558,
        ///
        /// 100% "more".
        #[arg(require_equals = true, short = 'p', long = "psi")]
        f558: Option<Option<i16>>,
        /// First {of} f556,
        ///
        /// 100% "more".
        f556: Option<OsString>,
    },
    AaBb(D47AaBb),
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D47 {
    #[command(flatten)]
    g564: D47G0,
    #[command(subcommand)]
    cmd: D47Cmd,
}
impl Told for D47 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "--psi=<F557>", doc: &["Doc of f557."], hide: false }, ..opt(&["--psi"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-p, --psi[=<F558>]", doc: &["First {of} f558,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-p", "--psi"], Kind::Maybe) },
                ],
                pos: &[
                    Pos { rules: Rules { ..R }, shown: Shown { as_: "[F556]", doc: &["First {of} f556,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { ..R }, shown: Shown { as_: "-p, --\u{5c}", doc: &["Doc of f559."], hide: true }, ..opt(&["-p", "--\u{5c}", "--a b", "-\u{5c}"], Kind::Flag) },
                    Opt { global: true, rules: Rules { ty: Ty::Text, ..R }, shown: Shown { as_: "--psi[=<[X]>]", doc: &[], hide: false }, ..opt(&["--psi"], Kind::Maybe) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-\u{e000}=<F561>", doc: &["[default: b]"], hide: true }, ..opt(&["-\u{e000}"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { eq: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-c=<[X]>", doc: &["First {of} f562,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-c"], Kind::One) },
                            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-J, --beta[=<a-é>]", doc: &["Doc of f563."], hide: false }, ..opt(&["-J", "--beta", "--helper", "-{"], Kind::Maybe) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.g564.g565.f557)]];
        match &self.cmd {
            D47Cmd::Aa { f558, f556 } => {
                v.push(vec![maybe(f558), one(f556)]);
            }
            D47Cmd::AaBb(x) => {
                v.push(vec![flag(x.f559), maybe(&x.f560), just(&x.f561)]);
                match &x.cmd {
                    Some(D47AaBbCmd::Aa { g566 }) => {
                        v.push(vec![one(&g566.f562), maybe(&g566.g567.f563)]);
                    }
                    Some(D47AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            D47Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D48
#[derive(Args)]
struct D48G0 {
    /// First {of} f574,
    ///
    /// 100% "more".
    #[arg(short = '1', value_name = "[X]", global = true)]
    f574: bool,
    #[arg(ignore_case = true, default_value = "b", global = true, long = "theta", require_equals = true, value_name = "FOO {BAR}")]
    f572: Option<Option<Letter>>,
    /// First {of} f573,
    ///
    /// 100% "more".
    #[arg(long = "phi+", global = true, allow_negative_numbers = true, default_value = "", short = 'a')]
    f573: Option<Vec<OsString>>,
    /// First {of} f575,
    ///
    #[arg(short = 'o', default_value = "b", value_name = "a-é", long = "x")]
    /// 100% "more".
    #[arg(require_equals = true)]
    f575: Option<Letter>,
}
#[derive(Parser)]
struct D48 {
    #[arg(allow_negative_numbers = true, default_value = "dd", long = "rho_s")]
    f571: Option<OsString>,
    #[command(flatten)]
    g576: D48G0,
    /// First {of} f570,
    ///
    /// 100% "more".
    #[arg(short = 'n', long = "gamma", value_name = "a-é")]
    f570: bool,
    /// Doc of f569.
    #[arg(allow_negative_numbers = true, short = '\u{ffff}')]
    #[arg(global = true)]
    f569: Option<Vec<OsString>>,
    /// Doc of f568.
    #[arg(default_value = "b")]
    f568: Option<Letter>,
}
impl Told for D48 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-\u{ffff} <F569>", doc: &["Doc of f569."], hide: false }, ..opt(&["-\u{ffff}"], Kind::List) },
            Opt { rules: Rules { ..R }, shown: Shown { as_: "-n, --gamma", doc: &["First {of} f570,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-n", "--gamma"], Kind::Flag) },
            Opt { negative: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "--rho_s <F571>", doc: &["[default: dd]"], hide: false }, ..opt(&["--rho_s"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "--theta[=<FOO {BAR}>]", doc: &["[default: b]"], hide: false }, ..opt(&["--theta"], Kind::Maybe) },
            Opt { negative: true, global: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-a, --phi+ <F573>", doc: &["First {of} f573,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["-a", "--phi+"], Kind::List) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-1", doc: &["First {of} f574,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-1"], Kind::Flag) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-o, --x=<a-é>", doc: &["First {of} f575,", "100% \u{22}more\u{22}.", "[default: b]"], hide: false }, ..opt(&["-o", "--x"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "[F568]", doc: &["Doc of f568.", "[default: b]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![olist(&self.f569), flag(self.f570), one(&self.f571), maybe(&self.g576.f572), olist(&self.g576.f573), flag(self.g576.f574), one(&self.g576.f575), one(&self.f568)]];
        v
    }
}
// @@ D49
#[derive(Args)]
struct D49G0G0 {
    #[arg(require_equals = true)]
    #[arg(short = 'F', value_name = "a-é", default_value = "b")]
    f582: Option<Vec<Letter>>,
    #[arg(long = "x2", allow_hyphen_values = true, value_name = "FOO {BAR}", value_delimiter = ',', default_value = "dd,e")]
    f583: Vec<String>,
}
#[derive(Args)]
struct D49G0 {
    #[command(flatten)]
    g586: D49G0G0,
    /// First {of} f581,
    ///
    /// 100% "more".
    #[arg(short = 'j', value_delimiter = ',', long = "beta", ignore_case = true)]
    f581: Option<Vec<Letter>>,
    /// First {of} f580,
    ///
    #[arg(global = true, alias = "phi+", ignore_case = true, short = '\u{10ffff}', short_alias = 'l')]
    /// 100% "more".
    #[arg(long = "pi")]
    f580: Vec<Letter>,
}
#[derive(Args)]
struct D49G1 {
}
#[derive(Args)]
struct D49G2 {
    /// Doc of f584.
    #[arg(default_value_t = "dd".to_string(), allow_negative_numbers = true, value_name = "FOO {BAR}", short = 'z')]
    f584: String,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D49 {
    /// Doc of f578.
    #[arg(allow_negative_numbers = true, short = '→', global = true, default_value_t = Letter::B, hide = true, value_name = "FOO {BAR}")]
    f578: Letter,
    #[command(flatten)]
    g588: D49G2,
    #[command(flatten)]
    g587: D49G1,
    #[command(flatten)]
    g585: D49G0,
    /// First {of} f579,
    ///
    /// 100% "more".
    #[arg(value_delimiter = ',', value_name = "[X]", short = 'q', allow_negative_numbers = true)]
    f579: Vec<Letter>,
    #[arg(value_name = "FOO {BAR}", last = true)]
    f577: Option<Vec<Letter>>,
}
impl Told for D49 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-→ <FOO {BAR}>", doc: &["Doc of f578.", "[default: b]"], hide: true }, ..opt(&["-→"], Kind::One) },
            Opt { negative: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-q <[X]>", doc: &["First {of} f579,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-q"], Kind::List) },
            Opt { global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-\u{10ffff}, --pi <F580>", doc: &["First {of} f580,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{10ffff}", "--pi", "--phi+", "-l"], Kind::List) },
            Opt { rules: Rules { delimiter: Some(b','), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-j, --beta <F581>", doc: &["First {of} f581,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-j", "--beta"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-F=<a-é>", doc: &["[default: b]"], hide: false }, ..opt(&["-F"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "--x2 <FOO {BAR}>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["--x2"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-z <FOO {BAR}>", doc: &["Doc of f584.", "[default: dd]"], hide: false }, ..opt(&["-z"], Kind::One) },
        ],
        pos: &[
            Pos { last: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &[], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f578), list(&self.f579), list(&self.g585.f580), olist(&self.g585.f581), olist(&self.g585.g586.f582), list(&self.g585.g586.f583), just(&self.g588.f584), olist(&self.f577)]];
        v
    }
}
// @@ D50
#[derive(Args)]
struct D50AaBb {
    #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", value_delimiter = ',', allow_negative_numbers = true, short = '→')]
    f594: Vec<String>,
    /// Doc of f596.
    #[arg(short = 'n', global = true, long = "alpha", default_value_t = "dd".to_string(), hide = true, require_equals = true)]
    f596: String,
    /// First {of} f595,
    ///
    #[arg(value_name = "a-é", default_value = "-7", allow_negative_numbers = true)]
    /// 100% "more".
    #[arg(short = '1')]
    f595: i16,
    #[arg(trailing_var_arg = true, value_name = "[X]", value_delimiter = ',', default_value = "dd,e")]
    f589: Option<Vec<String>>,
}
#[derive(Subcommand)]
enum D50Cmd {
    /// About {it}.
    Aa {
        /// Doc of f592.
        #[arg(value_name = "FOO {BAR}")]
        #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", global = true, require_equals = true, short = 'é')]
        f592: Option<Vec<i16>>,
        /// Doc of f593.
        #[arg(long = "kappa", short = 'n', global = true, value_name = "FOO {BAR}", ignore_case = true)]
        f593: Option<Letter>,
    },
    AaBb(D50AaBb),
    /// About {it}.
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D50 {
    #[arg(global = true, long = "tau", short_alias = 'n', default_value_t = Letter::B, short = '0', alias = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", hide = true)]
    f591: Option<Letter>,
    /// First {of} f590,
    ///
    /// 100% "more".
    #[arg(short = '�', value_name = "[X]", allow_negative_numbers = true)]
    f590: Option<Letter>,
    #[command(subcommand)]
    cmd: Option<D50Cmd>,
}
impl Told for D50 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { negative: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-� <[X]>", doc: &["First {of} f590,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-�"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("b"), names: LETTERS, ..R }, shown: Shown { as_: "-0, --tau <F591>", doc: &["[default: b]"], hide: true }, ..opt(&["-0", "--tau", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "-n"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-é, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn=<FOO {BAR}>", doc: &["Doc of f592."], hide: false }, ..opt(&["-é", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::List) },
                    Opt { global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-n, --kappa <FOO {BAR}>", doc: &["Doc of f593."], hide: false }, ..opt(&["-n", "--kappa"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { negative: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-→, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <F594>", doc: &[], hide: false }, ..opt(&["-→", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::List) },
                    Opt { negative: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-1 <a-é>", doc: &["First {of} f595,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-1"], Kind::One) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-n, --alpha=<F596>", doc: &["Doc of f596.", "[default: dd]"], hide: true }, ..opt(&["-n", "--alpha"], Kind::One) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { default: Some("dd,e"), ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "[[X]]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f590), one(&self.f591)]];
        match &self.cmd {
            Some(D50Cmd::Aa { f592, f593 }) => {
                v.push(vec![olist(f592), one(f593)]);
            }
            Some(D50Cmd::AaBb(x)) => {
                v.push(vec![list(&x.f594), just(&x.f595), just(&x.f596), olist(&x.f589)]);
            }
            Some(D50Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D51
#[derive(Args)]
struct D51AaG0 {
    /// Doc of f600.
    #[arg(allow_hyphen_values = true, value_delimiter = ',', short = '\u{80}', value_name = "[X]")]
    f600: Vec<String>,
}
#[derive(Args)]
struct D51AaBbAaG0 {
    /// First {of} f603,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", long = "q\u{22}q", short = 'J', alias = "alpha", global = true, require_equals = true, value_delimiter = ',', short_alias = 'C')]
    f603: Option<Vec<Letter>>,
}
#[derive(Subcommand)]
enum D51AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f601.
        #[arg(long = "pi", value_name = "a-é", value_delimiter = ',', allow_negative_numbers = true, default_value = "b,a", global = true)]
        f601: Option<Vec<Letter>>,
        /// First {of} f602,
        ///
        /// 100% "more".
        #[arg(default_value_t = "dd".to_string(), short = 'x', short_alias = '\u{80}', alias = "theta", allow_hyphen_values = true, value_name = "FOO {BAR}", long = "\u{5c}")]
        f602: String,
        #[command(flatten)]
        g605: D51AaBbAaG0,
        /// Doc of f597.
        #[arg(value_name = "a-é", last = true, value_delimiter = ',')]
        f597: Vec<i16>,
    },
    /// About {it}.
    Zz,
}
#[derive(Args)]
struct D51AaBb {
    #[command(subcommand)]
    cmd: D51AaBbCmd,
}
#[derive(Subcommand)]
enum D51Cmd {
    Aa {
        /// Doc of f599.
        #[arg(value_name = "FOO {BAR}")]
        #[arg(allow_negative_numbers = true, long = "kap")]
        f599: Vec<i16>,
        #[command(flatten)]
        g604: D51AaG0,
    },
    AaBb(D51AaBb),
    Uu,
}
#[derive(Parser)]
struct D51 {
    /// First {of} f598,
    ///
    #[arg(alias = "eta", short_alias = 'J', short = 'A')]
    /// 100% "more".
    #[arg(long = "theta", default_value_t = -7, require_equals = true)]
    f598: i16,
    #[command(subcommand)]
    cmd: Option<D51Cmd>,
}
impl Told for D51 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-A, --theta=<F598>", doc: &["First {of} f598,", "100% \u{22}more\u{22}.", "[default: -7]"], hide: false }, ..opt(&["-A", "--theta", "--eta", "-J"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { negative: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "--kap <FOO {BAR}>", doc: &["Doc of f599."], hide: false }, ..opt(&["--kap"], Kind::List) },
                    Opt { hyphen: true, rules: Rules { ty: Ty::Text, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{80} <[X]>", doc: &["Doc of f600."], hide: false }, ..opt(&["-\u{80}"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { negative: true, global: true, rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "--pi <a-é>", doc: &["Doc of f601.", "[default: b,a]"], hide: false }, ..opt(&["--pi"], Kind::List) },
                            Opt { hyphen: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-x, --\u{5c} <FOO {BAR}>", doc: &["First {of} f602,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-x", "--\u{5c}", "--theta", "-\u{80}"], Kind::One) },
                            Opt { eq: true, global: true, rules: Rules { delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "-J, --q\u{22}q=<a-é>", doc: &["First {of} f603,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-J", "--q\u{22}q", "--alpha", "-C"], Kind::List) },
                        ],
                        pos: &[
                            Pos { last: true, rules: Rules { ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "[a-é]...", doc: &["Doc of f597."], hide: false }, ..pos(true) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f598)]];
        match &self.cmd {
            Some(D51Cmd::Aa { f599, g604 }) => {
                v.push(vec![list(f599), list(&g604.f600)]);
            }
            Some(D51Cmd::AaBb(x)) => {
                v.push(vec![]);
                match &x.cmd {
                    D51AaBbCmd::Aa { f601, f602, g605, f597 } => {
                        v.push(vec![olist(f601), just(f602), olist(&g605.f603), list(f597)]);
                    }
                    D51AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D51Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D52
#[derive(Args)]
struct D52G0 {
    /// Doc of f612.
    #[arg(long = "nu", short_alias = '\u{d7ff}')]
    #[arg(short = 'i', require_equals = true, default_value = "b", alias = "rho_s", ignore_case = true, global = true)]
    f612: Option<Letter>,
    /// First {of} f611,
    ///
    /// 100% "more".
    #[arg(short = 'm', long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", require_equals = true, ignore_case = true, global = true, short_alias = 'é', alias = "pi")]
    f611: Option<Option<Letter>>,
    /// Doc of f610.
    #[arg(require_equals = true, value_name = "FOO {BAR}", short = '\u{5c}', global = true)]
    f610: Option<Option<Letter>>,
    #[arg(long = "h", short = 'p', value_delimiter = ',', alias = "theta", require_equals = true, default_value = "dd,e", short_alias = '2')]
    f609: Option<Vec<OsString>>,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D52 {
    #[arg(require_equals = true, ignore_case = true, default_value_t = Letter::B, short = 'x')]
    f608: Option<Letter>,
    #[arg(short = 'F', value_name = "a-é", default_value_t = -7, long = "Mu", global = true)]
    f607: Option<i16>,
    #[command(flatten)]
    g613: D52G0,
    #[arg(default_value = "b,a", value_delimiter = ',', value_name = "a-é")]
    f606: Option<Vec<Letter>>,
}
impl Told for D52 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("-7"), ty: Ty::Num, ..R }, shown: Shown { as_: "-F, --Mu <a-é>", doc: &["[default: -7]"], hide: false }, ..opt(&["-F", "--Mu"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-x=<F608>", doc: &["[default: b]"], hide: false }, ..opt(&["-x"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-p, --h=<F609>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-p", "--h", "--theta", "-2"], Kind::List) },
            Opt { global: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "-\u{5c}[=<FOO {BAR}>]", doc: &["Doc of f610."], hide: false }, ..opt(&["-\u{5c}"], Kind::Maybe) },
            Opt { global: true, rules: Rules { names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-m, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn[=<F611>]", doc: &["First {of} f611,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-m", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--pi", "-é"], Kind::Maybe) },
            Opt { eq: true, global: true, rules: Rules { default: Some("b"), names: LETTERS, ignore_case: true, ..R }, shown: Shown { as_: "-i, --nu=<F612>", doc: &["Doc of f612.", "[default: b]"], hide: false }, ..opt(&["-i", "--nu", "--rho_s", "-\u{d7ff}"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("b,a"), delimiter: Some(b','), names: LETTERS, ..R }, shown: Shown { as_: "[a-é]...", doc: &["[default: b,a]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f607), one(&self.f608), olist(&self.g613.f609), maybe(&self.g613.f610), maybe(&self.g613.f611), one(&self.g613.f612), olist(&self.f606)]];
        v
    }
}
// @@ D53
#[derive(Args)]
struct D53G0 {
}
#[derive(Args)]
struct D53G1 {
}
#[derive(Args)]
struct D53G2G0 {
    /// Doc of f619.
    #[arg(value_name = "a-é", short = 'B', value_delimiter = ',', hide = true, require_equals = true)]
    f619: Vec<OsString>,
    /// Doc of f620.
    #[arg(allow_negative_numbers = true, value_name = "[X]", default_value = "dd", short_alias = 'F', long = "alpha", short = 'm', alias = "a b")]
    f620: OsString,
}
#[derive(Args)]
struct D53G2 {
    #[command(flatten)]
    g624: D53G2G0,
    /// First {of} f618,
    ///
    /// 100% "more".
    #[arg(short = '߿', default_value = "dd", allow_hyphen_values = true)]
    f618: OsString,
    /// First {of} f617,
    ///
    /// 100% "more".
    #[arg(default_value = "-7,8", short = 'y', hide = true, value_name = "[X]", allow_negative_numbers = true, value_delimiter = ',')]
    f617: Vec<i16>,
    /// First {of} f616,
    ///
    /// 100% "more".
    #[arg(default_value = "dd", allow_hyphen_values = true, long = "é-long", global = true, short = '\u{d7ff}', value_name = "a-é")]
    f616: Option<String>,
}
/// About {it}.
#[derive(Parser)]
struct D53 {
    /// First {of} f615,
    ///
    #[arg(long = "theta", value_name = "a-é")]
    /// 100% "more".
    #[arg(require_equals = true, global = true, short = 'd')]
    f615: Vec<i16>,
    #[command(flatten)]
    g623: D53G2,
    #[command(flatten)]
    g621: D53G0,
    #[command(flatten)]
    g622: D53G1,
    /// Doc of f614.
    #[arg(trailing_var_arg = true)]
    f614: Vec<Letter>,
}
impl Told for D53 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { ty: Ty::Num, ..R }, shown: Shown { as_: "-d, --theta=<a-é>", doc: &["First {of} f615,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-d", "--theta"], Kind::List) },
            Opt { hyphen: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{d7ff}, --é-long <a-é>", doc: &["First {of} f616,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-\u{d7ff}", "--é-long"], Kind::One) },
            Opt { negative: true, rules: Rules { default: Some("-7,8"), ty: Ty::Num, delimiter: Some(b','), ..R }, shown: Shown { as_: "-y <[X]>", doc: &["First {of} f617,", "100% \u{22}more\u{22}.", "[default: -7,8]"], hide: true }, ..opt(&["-y"], Kind::List) },
            Opt { hyphen: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-߿ <F618>", doc: &["First {of} f618,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-߿"], Kind::One) },
            Opt { eq: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-B=<a-é>", doc: &["Doc of f619."], hide: true }, ..opt(&["-B"], Kind::List) },
            Opt { negative: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-m, --alpha <[X]>", doc: &["Doc of f620.", "[default: dd]"], hide: false }, ..opt(&["-m", "--alpha", "--a b", "-F"], Kind::One) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { names: LETTERS, ..R }, shown: Shown { as_: "[F614]...", doc: &["Doc of f614."], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f615), one(&self.g623.f616), list(&self.g623.f617), just(&self.g623.f618), list(&self.g623.g624.f619), just(&self.g623.g624.f620), list(&self.f614)]];
        v
    }
}
// @@ D54
/// About {it}.
#[derive(Parser)]
struct D54 {
    /// First {of} f627,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = ["f629"], conflicts_with_all = [], long = "beta", short_alias = 'é', required = true, short = 'f', alias = "Mu", requires = "f625", global = true, requires = "f630")]
    f627: Option<OsString>,
    /// Doc of f628.
    #[arg(exclusive = true, long = "x2", default_value = "dd", require_equals = true, short = 'k', requires = "f630")]
    f628: OsString,
    /// First {of} f631,
    ///
    #[arg(global = true, alias = "x", short_alias = 'w')]
    /// 100% "more".
    #[arg(require_equals = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", short = 'D', value_name = "FOO {BAR}")]
    f631: Option<OsString>,
    /// Doc of f630.
    #[arg(required = true, value_name = "[X]", require_equals = true, short = 'B', long = "kap", exclusive = true, global = true, conflicts_with_all = "f625")]
    f630: Option<Option<OsString>>,
    #[arg(alias = "omicron", long = "kappa", required = true, value_name = "[X]", require_equals = true, short_alias = 'm')]
    #[arg(short = 'x')]
    f629: Option<Option<OsString>>,
    #[arg(default_value = "dd")]
    #[arg(exclusive = true)]
    f625: Option<OsString>,
    /// First {of} f626,
    ///
    /// 100% "more".
    #[arg(conflicts_with = "f625", required = true, value_name = "FOO {BAR}", requires = "f628")]
    f626: OsString,
}
impl Told for D54 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { required: true, conflicts: &[2], requires: &[5, 3], ..R }, shown: Shown { as_: "-f, --beta <F627>", doc: &["First {of} f627,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-f", "--beta", "--Mu", "-é"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd"), requires: &[3], exclusive: true, ..R }, shown: Shown { as_: "-k, --x2=<F628>", doc: &["Doc of f628.", "[default: dd]"], hide: false }, ..opt(&["-k", "--x2"], Kind::One) },
            Opt { rules: Rules { required: true, ..R }, shown: Shown { as_: "-x, --kappa[=<[X]>]", doc: &[], hide: false }, ..opt(&["-x", "--kappa", "--omicron", "-m"], Kind::Maybe) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[5], exclusive: true, ..R }, shown: Shown { as_: "-B, --kap[=<[X]>]", doc: &["Doc of f630."], hide: false }, ..opt(&["-B", "--kap"], Kind::Maybe) },
            Opt { eq: true, global: true, rules: Rules { ..R }, shown: Shown { as_: "-D, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn=<FOO {BAR}>", doc: &["First {of} f631,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-D", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--x", "-w"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), exclusive: true, ..R }, shown: Shown { as_: "[F625]", doc: &["[default: dd]"], hide: false }, ..pos(false) },
            Pos { rules: Rules { required: true, conflicts: &[5], requires: &[1], ..R }, shown: Shown { as_: "<FOO {BAR}>", doc: &["First {of} f626,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f627), just(&self.f628), maybe(&self.f629), maybe(&self.f630), one(&self.f631), one(&self.f625), just(&self.f626)]];
        v
    }
}
// @@ D55
#[derive(Args)]
struct D55G0 {
    /// First {of} f633,
    ///
    #[arg(requires = "f634", alias = "kap", short_alias = 'p')]
    /// 100% "more".
    #[arg(long = "beta", value_name = "FOO {BAR}", short = 'A', required = true)]
    f633: Vec<OsString>,
    #[arg(long = "rho_s", short = '1', conflicts_with = "f633", global = true, value_name = "[X]", require_equals = true)]
    f634: Option<OsString>,
}
#[derive(Args)]
struct D55G1G0 {
    /// First {of} f636,
    ///
    /// 100% "more".
    #[arg(long = "omicron", short = 'l', default_value = "dd", global = true)]
    f636: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D55G1 {
    /// First {of} f635,
    ///
    #[arg(require_equals = true)]
    /// 100% "more".
    #[arg(value_name = "[X]", global = true, required = true, short = 'x', long = "a b")]
    f635: Option<Vec<OsString>>,
    #[command(flatten)]
    g639: D55G1G0,
}
#[derive(Args)]
struct D55G2 {
}
#[derive(Parser)]
struct D55 {
    #[arg(default_value = "dd")]
    #[arg(require_equals = true, long = "tau", short = 'r', value_name = "FOO {BAR}")]
    f632: Option<Option<OsString>>,
    #[command(flatten)]
    g640: D55G2,
    #[command(flatten)]
    g637: D55G0,
    #[command(flatten)]
    g638: D55G1,
}
impl Told for D55 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-r, --tau[=<FOO {BAR}>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-r", "--tau"], Kind::Maybe) },
            Opt { rules: Rules { required: true, requires: &[2], ..R }, shown: Shown { as_: "-A, --beta <FOO {BAR}>", doc: &["First {of} f633,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-A", "--beta", "--kap", "-p"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { conflicts: &[1], ..R }, shown: Shown { as_: "-1, --rho_s=<[X]>", doc: &[], hide: false }, ..opt(&["-1", "--rho_s"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-x, --a b=<[X]>", doc: &["First {of} f635,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-x", "--a b"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-l, --omicron <F636>", doc: &["First {of} f636,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-l", "--omicron"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f632), list(&self.g637.f633), one(&self.g637.f634), olist(&self.g638.f635), olist(&self.g638.g639.f636)]];
        v
    }
}
// @@ D56
#[derive(Args)]
struct D56AaG0G0 {
    #[arg(hide = true, require_equals = true, short = 'w', long = "tau", default_value = "dd")]
    f646: Option<Option<OsString>>,
}
#[derive(Args)]
struct D56AaG0 {
    #[command(flatten)]
    g649: D56AaG0G0,
    /// First {of} f645,
    ///
    /// 100% "more".
    #[arg(require_equals = true, required = true, long = "q\u{22}q", global = true, value_name = "[X]", alias = "kappa", short_alias = 'D', short = 'b')]
    f645: Vec<OsString>,
}
#[derive(Args)]
struct D56AaBb {
    /// Doc of f647.
    #[arg(short_alias = 'D', alias = "psi", global = true, long = "kappa", value_delimiter = ',', requires = "f641", require_equals = true, short = '0')]
    #[arg(value_name = "a-é", exclusive = true, default_value = "dd,e")]
    f647: Option<Vec<OsString>>,
    /// First {of} f641,
    ///
    #[arg(last = true, default_value = "dd,e")]
    /// 100% "more".
    #[arg(value_delimiter = ',', conflicts_with_all = ["f647"], exclusive = true, conflicts_with_all = [])]
    f641: Vec<OsString>,
}
#[derive(Subcommand)]
enum D56Cmd {
    /// About {it}.
    Aa {
        #[command(flatten)]
        g648: D56AaG0,
        #[arg(default_value = "dd,e")]
        #[arg(value_delimiter = ',', trailing_var_arg = true)]
        f642: Option<Vec<OsString>>,
    },
    AaBb(D56AaBb),
    /// About {it}.
    Uu,
}
#[derive(Parser)]
struct D56 {
    /// Doc of f643.
    #[arg(value_name = "FOO {BAR}", global = true, short = 'F', long = "psi", conflicts_with = "f644", required = true)]
    f643: bool,
    #[arg(default_value_t = "dd".to_string(), long = "kappa", global = true, requires = "f643", exclusive = true, require_equals = true, short = 'D')]
    f644: String,
    #[command(subcommand)]
    cmd: Option<D56Cmd>,
}
impl Told for D56 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-F, --psi", doc: &["Doc of f643."], hide: false }, ..opt(&["-F", "--psi"], Kind::Flag) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "-D, --kappa=<F644>", doc: &["[default: dd]"], hide: false }, ..opt(&["-D", "--kappa"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-b, --q\u{22}q=<[X]>", doc: &["First {of} f645,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-b", "--q\u{22}q", "--kappa", "-D"], Kind::List) },
                    Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-w, --tau[=<F646>]", doc: &["[default: dd]"], hide: true }, ..opt(&["-w", "--tau"], Kind::Maybe) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "[F642]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "-0, --kappa=<a-é>", doc: &["Doc of f647.", "[default: dd,e]"], hide: false }, ..opt(&["-0", "--kappa", "--psi", "-D"], Kind::List) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "[F641]...", doc: &["First {of} f641,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![flag(self.f643), just(&self.f644)]];
        match &self.cmd {
            Some(D56Cmd::Aa { g648, f642 }) => {
                v.push(vec![list(&g648.f645), maybe(&g648.g649.f646), olist(f642)]);
            }
            Some(D56Cmd::AaBb(x)) => {
                v.push(vec![olist(&x.f647), list(&x.f641)]);
            }
            Some(D56Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D57
#[derive(Args)]
struct D57AaG0 {
    /// Doc of f654.
    #[arg(require_equals = true, alias = "alpha", default_value_t = "dd".to_string(), short = 'z', long = "kappas", short_alias = 's')]
    f654: String,
}
#[derive(Subcommand)]
enum D57AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// First {of} f656,
        ///
        /// 100% "more".
        #[arg(value_name = "a-é", global = true, short = '→', conflicts_with_all = "f651", required = true, long = "kap")]
        f656: bool,
        /// Doc of f651.
        #[arg(required = true, exclusive = true)]
        f651: OsString,
    },
    /// About {it}.
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D57AaBb {
    /// First {of} f655,
    ///
    /// 100% "more".
    #[arg(default_value = "dd", value_name = "FOO {BAR}", long = "gamma", short = 'b', global = true)]
    f655: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<D57AaBbCmd>,
}
#[derive(Subcommand)]
enum D57Cmd {
    Aa {
        #[command(flatten)]
        g657: D57AaG0,
        #[arg(last = true, default_value = "dd,e", value_delimiter = ',', value_name = "a-é")]
        f650: Vec<OsString>,
    },
    AaBb(D57AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D57 {
    #[arg(conflicts_with_all = ["f652"], short = '1', alias = "kappas", conflicts_with_all = [], require_equals = true, value_name = "[X]", exclusive = true, short_alias = 'A', global = true, long = "helper", default_value = "")]
    f653: Option<Option<OsString>>,
    /// First {of} f652,
    ///
    /// 100% "more".
    #[arg(conflicts_with = "f653", hide = true, default_value_t = "dd".to_string(), value_name = "[X]", short = 's', long = "\u{5c}", global = true)]
    f652: String,
    #[command(subcommand)]
    cmd: D57Cmd,
}
impl Told for D57 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1], ..R }, shown: Shown { as_: "-s, --\u{5c} <[X]>", doc: &["First {of} f652,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-s", "--\u{5c}"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some(""), conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "-1, --helper[=<[X]>]", doc: &["[default: ]"], hide: false }, ..opt(&["-1", "--helper", "--kappas", "-A"], Kind::Maybe) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-z, --kappas=<F654>", doc: &["Doc of f654.", "[default: dd]"], hide: false }, ..opt(&["-z", "--kappas", "--alpha", "-s"], Kind::One) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "[a-é]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-b, --gamma <FOO {BAR}>", doc: &["First {of} f655,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-b", "--gamma"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-→, --kap", doc: &["First {of} f656,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-→", "--kap"], Kind::Flag) },
                        ],
                        pos: &[
                            Pos { rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "<F651>", doc: &["Doc of f651."], hide: false }, ..pos(false) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f652), maybe(&self.f653)]];
        match &self.cmd {
            D57Cmd::Aa { g657, f650 } => {
                v.push(vec![just(&g657.f654), list(f650)]);
            }
            D57Cmd::AaBb(x) => {
                v.push(vec![list(&x.f655)]);
                match &x.cmd {
                    Some(D57AaBbCmd::Aa { f656, f651 }) => {
                        v.push(vec![flag(*f656), just(f651)]);
                    }
                    Some(D57AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            D57Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D58
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D58 {
    /// Doc of f659.
    #[arg(default_value = "dd", value_name = "[X]", long = "x2", requires = "f663")]
    #[arg(requires = "f658", require_equals = true, alias = "phi+", hide = true, short = 'p', short_alias = 'd', exclusive = true)]
    f659: Option<Option<OsString>>,
    #[arg(alias = "alpha", short_alias = '𐀀', conflicts_with = "f662", default_value = "dd", exclusive = true, short = '😀', long = "eta", require_equals = true, conflicts_with_all = ["f663"], global = true)]
    f660: OsString,
    /// Doc of f661.
    #[arg(short = '0', value_delimiter = ',', conflicts_with_all = "f659", value_name = "FOO {BAR}", requires = "f660", long = "q\u{22}q", required = true)]
    f661: Vec<OsString>,
    /// Doc of f662.
    #[arg(long = "nu", conflicts_with_all = ["f658"], short_alias = 'I', alias = "gamma", short = 'E', conflicts_with_all = ["f660"], global = true, default_value_t = true)]
    f662: bool,
    #[arg(required = true)]
    #[arg(short = 'J', value_name = "a-é", value_delimiter = ',', long = "psi", requires = "f662", requires = "f660")]
    f663: Vec<OsString>,
    /// Doc of f658.
    #[arg(requires = "f660")]
    #[arg(default_value = "dd,e", hide = true, exclusive = true, value_delimiter = ',', value_name = "FOO {BAR}")]
    f658: Option<Vec<OsString>>,
}
impl Told for D58 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), requires: &[4, 5], exclusive: true, ..R }, shown: Shown { as_: "-p, --x2[=<[X]>]", doc: &["Doc of f659.", "[default: dd]"], hide: true }, ..opt(&["-p", "--x2", "--phi+", "-d"], Kind::Maybe) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), conflicts: &[3, 4], exclusive: true, ..R }, shown: Shown { as_: "-😀, --eta=<F660>", doc: &["[default: dd]"], hide: false }, ..opt(&["-😀", "--eta", "--alpha", "-𐀀"], Kind::One) },
            Opt { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[0], requires: &[1], ..R }, shown: Shown { as_: "-0, --q\u{22}q <FOO {BAR}>", doc: &["Doc of f661."], hide: false }, ..opt(&["-0", "--q\u{22}q"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[5, 1], ..R }, shown: Shown { as_: "-E, --nu", doc: &["Doc of f662.", "[default: true]"], hide: false }, ..opt(&["-E", "--nu", "--gamma", "-I"], Kind::Flag) },
            Opt { rules: Rules { required: true, delimiter: Some(b','), requires: &[3, 1], ..R }, shown: Shown { as_: "-J, --psi <a-é>", doc: &[], hide: false }, ..opt(&["-J", "--psi"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["Doc of f658.", "[default: dd,e]"], hide: true }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f659), just(&self.f660), list(&self.f661), flag(self.f662), list(&self.f663), olist(&self.f658)]];
        v
    }
}
// @@ D59
#[derive(Args)]
struct D59G0 {
    /// Doc of f668.
    #[arg(short = 'F')]
    #[arg(required = true, require_equals = true, global = true, value_name = "[X]", long = "beta")]
    f668: OsString,
}
#[derive(Args)]
struct D59G1 {
}
#[derive(Args)]
struct D59G2 {
    /// First {of} f669,
    ///
    /// 100% "more".
    #[arg(short = 'H', value_name = "[X]", hide = true, global = true, alias = "kappa", required = true, short_alias = '\u{22}', long = "h")]
    f669: Option<OsString>,
}
/// About {it}.
#[derive(Parser)]
struct D59 {
    #[command(flatten)]
    g671: D59G1,
    #[arg(long = "pi", alias = "x-y", short = '𐀀', short_alias = 'j', value_name = "a-é", requires = "f666")]
    f667: Option<OsString>,
    #[command(flatten)]
    g672: D59G2,
    #[command(flatten)]
    g670: D59G0,
    /// Doc of f666.
    #[arg(long = "delta", conflicts_with_all = ["f665"], value_delimiter = ',', required = true, conflicts_with_all = [], short = 'f', value_name = "a-é", requires = "f667", require_equals = true, requires = "f664")]
    f666: Option<Vec<OsString>>,
    /// Doc of f665.
    #[arg(long = "omicron", global = true, default_value = "dd", value_name = "a-é", short_alias = '→', short = '\u{80}', require_equals = true, alias = "tau")]
    f665: OsString,
    /// Doc of f664.
    #[arg(value_name = "FOO {BAR}", conflicts_with_all = ["f666"], conflicts_with_all = [], requires = "f667", default_value = "dd")]
    f664: Vec<OsString>,
}
impl Told for D59 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-\u{80}, --omicron=<a-é>", doc: &["Doc of f665.", "[default: dd]"], hide: false }, ..opt(&["-\u{80}", "--omicron", "--tau", "-→"], Kind::One) },
            Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[0], requires: &[2, 5], ..R }, shown: Shown { as_: "-f, --delta=<a-é>", doc: &["Doc of f666."], hide: false }, ..opt(&["-f", "--delta"], Kind::List) },
            Opt { rules: Rules { requires: &[1], ..R }, shown: Shown { as_: "-𐀀, --pi <a-é>", doc: &[], hide: false }, ..opt(&["-𐀀", "--pi", "--x-y", "-j"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-F, --beta=<[X]>", doc: &["Doc of f668."], hide: false }, ..opt(&["-F", "--beta"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-H, --h <[X]>", doc: &["First {of} f669,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-H", "--h", "--kappa", "-\u{22}"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), conflicts: &[1], requires: &[2], ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["Doc of f664.", "[default: dd]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f665), olist(&self.f666), one(&self.f667), just(&self.g670.f668), one(&self.g672.f669), list(&self.f664)]];
        v
    }
}
// @@ D60
#[derive(Args)]
struct D60AaBbG0 {
}
#[derive(Args)]
struct D60AaBb {
    #[command(flatten)]
    g680: D60AaBbG0,
    /// Doc of f674.
    #[arg(default_value = "dd", last = true)]
    f674: Vec<OsString>,
}
#[derive(Subcommand)]
enum D60Cmd {
    /// About {it}.
    Aa {
        #[arg(global = true, alias = "beta", conflicts_with = "f679", conflicts_with_all = ["f673"], exclusive = true, short = '\u{27}', default_value = "dd", long = "{}", short_alias = '�')]
        f678: Option<Vec<OsString>>,
        /// Doc of f679.
        #[arg(alias = "rho_s", short = 'v', global = true, requires = "f673", short_alias = 'n', requires = "f678", default_value_t = "dd".to_string(), exclusive = true, require_equals = true, long = "kappas")]
        f679: Option<String>,
        #[arg(conflicts_with_all = ["f679"], required = true, long = "tau")]
        #[arg(alias = "helper", short_alias = 'F', short = 'é', value_name = "FOO {BAR}", exclusive = true, conflicts_with_all = [], require_equals = true)]
        f677: Option<OsString>,
        #[arg(exclusive = true, last = true, default_value = "", value_name = "a-é", conflicts_with = "f677")]
        f673: Option<Vec<OsString>>,
    },
    AaBb(D60AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D60 {
    #[arg(default_value_t = "dd".to_string(), long = "{}")]
    #[arg(value_name = "FOO {BAR}", short = 'n', hide = true, conflicts_with = "f676")]
    f675: Option<String>,
    #[arg(conflicts_with = "f675", required = true, short_alias = 'F', alias = "beta")]
    #[arg(short = '\u{27}', value_name = "a-é", long = "tau", global = true)]
    f676: Option<OsString>,
    #[command(subcommand)]
    cmd: D60Cmd,
}
impl Told for D60 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1], ..R }, shown: Shown { as_: "-n, --{} <FOO {BAR}>", doc: &["[default: dd]"], hide: true }, ..opt(&["-n", "--{}"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[0], ..R }, shown: Shown { as_: "-\u{27}, --tau <a-é>", doc: &[], hide: false }, ..opt(&["-\u{27}", "--tau", "--beta", "-F"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { required: true, conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "-é, --tau=<FOO {BAR}>", doc: &[], hide: false }, ..opt(&["-é", "--tau", "--helper", "-F"], Kind::One) },
                    Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[2, 3], exclusive: true, ..R }, shown: Shown { as_: "-\u{27}, --{} <F678>", doc: &["[default: dd]"], hide: false }, ..opt(&["-\u{27}", "--{}", "--beta", "-�"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, requires: &[3, 1], exclusive: true, ..R }, shown: Shown { as_: "-v, --kappas=<F679>", doc: &["Doc of f679.", "[default: dd]"], hide: false }, ..opt(&["-v", "--kappas", "--rho_s", "-n"], Kind::One) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some(""), conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "[a-é]...", doc: &["[default: ]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "[F674]...", doc: &["Doc of f674.", "[default: dd]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f675), one(&self.f676)]];
        match &self.cmd {
            D60Cmd::Aa { f677, f678, f679, f673 } => {
                v.push(vec![one(f677), olist(f678), one(f679), olist(f673)]);
            }
            D60Cmd::AaBb(x) => {
                v.push(vec![list(&x.f674)]);
            }
            D60Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D61
#[derive(Subcommand)]
enum D61AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f687.
        #[arg(hide = true, global = true, short = '\u{e000}', short_alias = 'J', required = true, alias = "tau", value_name = "a-é", conflicts_with = "f686", long = "psi", conflicts_with_all = ["f685"], require_equals = true)]
        f687: Option<OsString>,
        /// First {of} f685,
        ///
        /// 100% "more".
        #[arg(short = 'C', requires = "f686", long = "x", exclusive = true, value_delimiter = ',', global = true)]
        f685: Vec<OsString>,
        /// First {of} f686,
        ///
        /// 100% "more".
        #[arg(short = 'é', value_delimiter = ',', value_name = "[X]", long = "beta", default_value = "dd,e", conflicts_with = "f687", require_equals = true, global = true, conflicts_with = "f685")]
        f686: Option<Vec<OsString>>,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
#[derive(Args)]
struct D61AaBb {
    /// First {of} f684,
    ///
    /// 100% "more".
    #[arg(short = 'C', conflicts_with_all = ["f681"], exclusive = true, long = "helper", default_value_t = "dd".to_string(), global = true, conflicts_with_all = [])]
    f684: Option<String>,
    /// First {of} f681,
    ///
    #[arg(conflicts_with_all = ["f684"], hide = true)]
    /// 100% "more".
    #[arg(conflicts_with_all = [], required = true, last = true)]
    f681: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<D61AaBbCmd>,
}
#[derive(Subcommand)]
enum D61Cmd {
    Aa {
        #[arg(trailing_var_arg = true, exclusive = true, required = true)]
        f682: Option<Vec<OsString>>,
    },
    AaBb(D61AaBb),
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D61 {
    /// Doc of f683.
    #[arg(require_equals = true, value_name = "[X]", required = true, short = 'C', exclusive = true, hide = true, long = "helper")]
    f683: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D61Cmd,
}
impl Told for D61 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "-C, --helper=<[X]>", doc: &["Doc of f683."], hide: true }, ..opt(&["-C", "--helper"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "<F682>...", doc: &[], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "-C, --helper <F684>", doc: &["First {of} f684,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-C", "--helper"], Kind::One) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { required: true, conflicts: &[0], ..R }, shown: Shown { as_: "<F681>...", doc: &["First {of} f681,", "100% \u{22}more\u{22}."], hide: true }, ..pos(true) },
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { delimiter: Some(b','), requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "-C, --x <F685>", doc: &["First {of} f685,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-C", "--x"], Kind::List) },
                            Opt { eq: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[2, 0], ..R }, shown: Shown { as_: "-é, --beta=<[X]>", doc: &["First {of} f686,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-é", "--beta"], Kind::List) },
                            Opt { eq: true, global: true, rules: Rules { required: true, conflicts: &[1, 0], ..R }, shown: Shown { as_: "-\u{e000}, --psi=<a-é>", doc: &["Doc of f687."], hide: true }, ..opt(&["-\u{e000}", "--psi", "--tau", "-J"], Kind::One) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.f683)]];
        match &self.cmd {
            D61Cmd::Aa { f682 } => {
                v.push(vec![olist(f682)]);
            }
            D61Cmd::AaBb(x) => {
                v.push(vec![one(&x.f684), list(&x.f681)]);
                match &x.cmd {
                    Some(D61AaBbCmd::Aa { f685, f686, f687 }) => {
                        v.push(vec![list(f685), olist(f686), one(f687)]);
                    }
                    Some(D61AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            D61Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D62
#[derive(Parser)]
struct D62 {
    /// First {of} f690,
    ///
    /// 100% "more".
    #[arg(alias = "omicron", short_alias = '\u{80}', required = true, long = "\u{5c}", hide = true, conflicts_with = "f693", short = 'b', requires = "f694", requires = "f692")]
    f690: OsString,
    #[arg(exclusive = true, alias = "q\u{22}q", value_delimiter = ',', default_value = "dd,e", short_alias = '�', short = 'm', long = "pi", require_equals = true)]
    f691: Vec<OsString>,
    /// Doc of f694.
    #[arg(conflicts_with = "f688", value_name = "[X]", short = '😀', require_equals = true, conflicts_with_all = ["f689"], requires = "f693", long = "phi+", requires = "f692", global = true, default_value_t = "dd".to_string())]
    f694: String,
    /// First {of} f693,
    ///
    /// 100% "more".
    #[arg(default_value = "", conflicts_with_all = ["f688"], conflicts_with_all = [], requires = "f692", short = 'f', requires = "f689", value_name = "[X]", long = "chi")]
    f693: OsString,
    /// Doc of f692.
    #[arg(conflicts_with_all = "f690", long = "iota", short = 'o', default_value_t = "dd".to_string(), global = true, alias = "helper", short_alias = 'F')]
    #[arg(exclusive = true, require_equals = true)]
    f692: Option<String>,
    /// Doc of f688.
    #[arg(value_name = "a-é")]
    #[arg(exclusive = true, conflicts_with = "f692", default_value = "dd")]
    f688: Option<OsString>,
    /// Doc of f689.
    #[arg(default_value = "dd", conflicts_with = "f693", exclusive = true, hide = true, conflicts_with = "f688")]
    f689: OsString,
}
impl Told for D62 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, conflicts: &[3], requires: &[4, 2], ..R }, shown: Shown { as_: "-b, --\u{5c} <F690>", doc: &["First {of} f690,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-b", "--\u{5c}", "--omicron", "-\u{80}"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), exclusive: true, ..R }, shown: Shown { as_: "-m, --pi=<F691>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-m", "--pi", "--q\u{22}q", "-�"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "-o, --iota=<F692>", doc: &["Doc of f692.", "[default: dd]"], hide: false }, ..opt(&["-o", "--iota", "--helper", "-F"], Kind::One) },
            Opt { rules: Rules { default: Some(""), conflicts: &[5], requires: &[2, 6], ..R }, shown: Shown { as_: "-f, --chi <[X]>", doc: &["First {of} f693,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["-f", "--chi"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[5, 6], requires: &[3, 2], ..R }, shown: Shown { as_: "-😀, --phi+=<[X]>", doc: &["Doc of f694.", "[default: dd]"], hide: false }, ..opt(&["-😀", "--phi+"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "[a-é]", doc: &["Doc of f688.", "[default: dd]"], hide: false }, ..pos(false) },
            Pos { rules: Rules { default: Some("dd"), conflicts: &[3, 5], exclusive: true, ..R }, shown: Shown { as_: "[F689]", doc: &["Doc of f689.", "[default: dd]"], hide: true }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f690), list(&self.f691), one(&self.f692), just(&self.f693), just(&self.f694), one(&self.f688), just(&self.f689)]];
        v
    }
}
// @@ D63
#[derive(Args)]
struct D63G0 {
    /// Doc of f697.
    #[arg(alias = "Mu", short = '\u{d7ff}', required = true, short_alias = 'y', long = "{}", value_name = "[X]", global = true)]
    f697: OsString,
}
#[derive(Args)]
struct D63G1G0 {
    /// First {of} f700,
    ///
    #[arg(value_name = "a-é")]
    /// 100% "more".
    #[arg(short = 'F', global = true, default_value = "dd", long = "omicron", requires = "f701")]
    f700: Option<Vec<OsString>>,
    /// First {of} f701,
    ///
    #[arg(short_alias = 's', alias = "x-y")]
    /// 100% "more".
    #[arg(long = "beta", short = 'l', value_name = "a-é", default_value = "dd", requires = "f700", global = true)]
    f701: OsString,
}
#[derive(Args)]
struct D63G1 {
    /// Doc of f699.
    #[arg(alias = "iota", value_name = "a-é", short_alias = 'o', short = '0', long = "rho_s", required = true, conflicts_with_all = "f698", value_delimiter = ',')]
    f699: Option<Vec<OsString>>,
    #[command(flatten)]
    g704: D63G1G0,
    #[arg(long = "eps-i", short = 'B', requires = "f699", require_equals = true, required = true)]
    f698: Option<OsString>,
}
/// About {it}.
#[derive(Parser)]
struct D63 {
    #[command(flatten)]
    g702: D63G0,
    #[command(flatten)]
    g703: D63G1,
    #[arg(conflicts_with = "f695", value_name = "FOO {BAR}", hide = true, default_value = "dd")]
    f696: OsString,
    #[arg(value_delimiter = ',', required = true, conflicts_with_all = "f696")]
    f695: Option<Vec<OsString>>,
}
impl Told for D63 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-\u{d7ff}, --{} <[X]>", doc: &["Doc of f697."], hide: false }, ..opt(&["-\u{d7ff}", "--{}", "--Mu", "-y"], Kind::One) },
            Opt { eq: true, rules: Rules { required: true, requires: &[2], ..R }, shown: Shown { as_: "-B, --eps-i=<F698>", doc: &[], hide: false }, ..opt(&["-B", "--eps-i"], Kind::One) },
            Opt { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1], ..R }, shown: Shown { as_: "-0, --rho_s <a-é>", doc: &["Doc of f699."], hide: false }, ..opt(&["-0", "--rho_s", "--iota", "-o"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), requires: &[4], ..R }, shown: Shown { as_: "-F, --omicron <a-é>", doc: &["First {of} f700,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-F", "--omicron"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), requires: &[3], ..R }, shown: Shown { as_: "-l, --beta <a-é>", doc: &["First {of} f701,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-l", "--beta", "--x-y", "-s"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), conflicts: &[6], ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["[default: dd]"], hide: true }, ..pos(false) },
            Pos { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[5], ..R }, shown: Shown { as_: "<F695>...", doc: &[], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.g702.f697), one(&self.g703.f698), olist(&self.g703.f699), olist(&self.g703.g704.f700), just(&self.g703.g704.f701), just(&self.f696), olist(&self.f695)]];
        v
    }
}
// @@ D64
#[derive(Args)]
struct D64AaG0 {
    /// Doc of f710.
    #[arg(short = 'n', long = "eps-i", value_name = "a-é", default_value_t = true)]
    f710: bool,
    /// First {of} f711,
    ///
    #[arg(require_equals = true, alias = "iota", short = '3', short_alias = 'd')]
    /// 100% "more".
    #[arg(global = true, long = "beta", required = true, conflicts_with = "f710")]
    f711: Option<Option<OsString>>,
}
#[derive(Args)]
struct D64AaBb {
    /// First {of} f705,
    ///
    /// 100% "more".
    #[arg(required = true, hide = true, exclusive = true)]
    f705: Option<OsString>,
}
#[derive(Subcommand)]
enum D64Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f709.
        #[arg(require_equals = true, conflicts_with_all = ["f708"], required = true, conflicts_with_all = [], value_delimiter = ',', global = true, short = 'é', alias = "omega", long = "kap", value_name = "a-é", short_alias = 'a')]
        f709: Vec<OsString>,
        #[command(flatten)]
        g712: D64AaG0,
        /// First {of} f708,
        ///
        #[arg(long = "eta", short_alias = 'ࠀ', value_name = "a-é", conflicts_with_all = "f709")]
        /// 100% "more".
        #[arg(short = 'F', alias = "tau")]
        f708: bool,
    },
    AaBb(D64AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D64 {
    /// First {of} f707,
    ///
    /// 100% "more".
    #[arg(short_alias = 'F', alias = "eps-i", hide = true, long = "omega", conflicts_with = "f706", short = 'é', global = true)]
    f707: bool,
    #[arg(conflicts_with_all = ["f707"], conflicts_with_all = [], value_name = "[X]", default_value = "dd", hide = true)]
    f706: OsString,
    #[command(subcommand)]
    cmd: D64Cmd,
}
impl Told for D64 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { conflicts: &[1], ..R }, shown: Shown { as_: "-é, --omega", doc: &["First {of} f707,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-é", "--omega", "--eps-i", "-F"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "[[X]]", doc: &["[default: dd]"], hide: true }, ..pos(false) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { conflicts: &[1], ..R }, shown: Shown { as_: "-F, --eta", doc: &["First {of} f708,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-F", "--eta", "--tau", "-ࠀ"], Kind::Flag) },
                    Opt { eq: true, global: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[0], ..R }, shown: Shown { as_: "-é, --kap=<a-é>", doc: &["Doc of f709."], hide: false }, ..opt(&["-é", "--kap", "--omega", "-a"], Kind::List) },
                    Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-n, --eps-i", doc: &["Doc of f710.", "[default: true]"], hide: false }, ..opt(&["-n", "--eps-i"], Kind::Flag) },
                    Opt { global: true, rules: Rules { required: true, conflicts: &[2], ..R }, shown: Shown { as_: "-3, --beta[=<F711>]", doc: &["First {of} f711,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-3", "--beta", "--iota", "-d"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                    Pos { rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "<F705>", doc: &["First {of} f705,", "100% \u{22}more\u{22}."], hide: true }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![flag(self.f707), just(&self.f706)]];
        match &self.cmd {
            D64Cmd::Aa { f708, f709, g712 } => {
                v.push(vec![flag(*f708), list(f709), flag(g712.f710), maybe(&g712.f711)]);
            }
            D64Cmd::AaBb(x) => {
                v.push(vec![one(&x.f705)]);
            }
            D64Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D65
#[derive(Args)]
struct D65AaBbAaG0G0 {
}
#[derive(Args)]
struct D65AaBbAaG0 {
    #[command(flatten)]
    g721: D65AaBbAaG0G0,
    /// First {of} f719,
    ///
    /// 100% "more".
    #[arg(long = "kap", short = 'd', require_equals = true, global = true, default_value = "dd")]
    f719: Option<Option<OsString>>,
}
#[derive(Subcommand)]
enum D65AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g720: D65AaBbAaG0,
    },
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D65AaBb {
    #[arg(conflicts_with = "f717", require_equals = true, hide = true, long = "phi+", alias = "delta", short_alias = 'C', default_value = "dd", short = 'E', value_name = "a-é")]
    f718: Option<Option<OsString>>,
    /// Doc of f717.
    #[arg(short = '\u{80}', long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", conflicts_with = "f718", required = true, value_name = "FOO {BAR}")]
    f717: Option<OsString>,
    #[command(subcommand)]
    cmd: D65AaBbCmd,
}
#[derive(Subcommand)]
enum D65Cmd {
    Aa {
        /// First {of} f716,
        ///
        /// 100% "more".
        #[arg(short = '\u{80}', require_equals = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", default_value_t = "dd".to_string(), value_name = "[X]", exclusive = true)]
        f716: Option<String>,
        /// Doc of f715.
        #[arg(long = "delta", exclusive = true)]
        #[arg(short = 'E', hide = true, require_equals = true, conflicts_with = "f714", default_value_t = "dd".to_string())]
        f715: String,
        #[arg(value_name = "[X]", exclusive = true, trailing_var_arg = true, required = true, requires = "f715")]
        f714: Option<Vec<OsString>>,
    },
    AaBb(D65AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D65 {
    /// Doc of f713.
    #[arg(value_name = "a-é", default_value = "")]
    f713: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<D65Cmd>,
}
impl Told for D65 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
            Pos { rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "[a-é]", doc: &["Doc of f713.", "[default: ]"], hide: false }, ..pos(false) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "-E, --delta=<F715>", doc: &["Doc of f715.", "[default: dd]"], hide: true }, ..opt(&["-E", "--delta"], Kind::One) },
                    Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, exclusive: true, ..R }, shown: Shown { as_: "-\u{80}, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn=<[X]>", doc: &["First {of} f716,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-\u{80}", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::One) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { required: true, requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "<[X]>...", doc: &[], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-\u{80}, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <FOO {BAR}>", doc: &["Doc of f717."], hide: false }, ..opt(&["-\u{80}", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::One) },
                    Opt { rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "-E, --phi+[=<a-é>]", doc: &["[default: dd]"], hide: true }, ..opt(&["-E", "--phi+", "--delta", "-C"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-d, --kap[=<F719>]", doc: &["First {of} f719,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-d", "--kap"], Kind::Maybe) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                ],
                sub_required: true,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f713)]];
        match &self.cmd {
            Some(D65Cmd::Aa { f715, f716, f714 }) => {
                v.push(vec![just(f715), one(f716), olist(f714)]);
            }
            Some(D65Cmd::AaBb(x)) => {
                v.push(vec![one(&x.f717), maybe(&x.f718)]);
                match &x.cmd {
                    D65AaBbCmd::Aa { g720 } => {
                        v.push(vec![maybe(&g720.f719)]);
                    }
                    D65AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D65Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D66
#[derive(Args)]
struct D66G0 {
    /// Doc of f726.
    #[arg(required = true, long = "Mu", require_equals = true, conflicts_with_all = ["f725"], value_delimiter = ',', conflicts_with_all = [], short = '😀')]
    f726: Vec<OsString>,
    /// First {of} f725,
    ///
    /// 100% "more".
    #[arg(long = "kappas", short = 'A', required = true)]
    f725: bool,
}
/// About {it}.
#[derive(Parser)]
struct D66 {
    #[arg(conflicts_with_all = ["f722",], required = true, short = '\u{ffff}', long = "a b", require_equals = true, conflicts_with_all = "f724")]
    f723: OsString,
    #[command(flatten)]
    g727: D66G0,
    /// Doc of f724.
    #[arg(value_name = "a-é", long = "kap", default_value_t = "dd".to_string(), short = 't', requires = "f722")]
    f724: String,
    /// Doc of f722.
    #[arg(required = true, value_name = "[X]", short = 'b', long = "theta")]
    f722: OsString,
}
impl Told for D66 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, ..R }, shown: Shown { as_: "-b, --theta <[X]>", doc: &["Doc of f722."], hide: false }, ..opt(&["-b", "--theta"], Kind::One) },
            Opt { eq: true, rules: Rules { required: true, conflicts: &[0, 2], ..R }, shown: Shown { as_: "-\u{ffff}, --a b=<F723>", doc: &[], hide: false }, ..opt(&["-\u{ffff}", "--a b"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, requires: &[0], ..R }, shown: Shown { as_: "-t, --kap <a-é>", doc: &["Doc of f724.", "[default: dd]"], hide: false }, ..opt(&["-t", "--kap"], Kind::One) },
            Opt { rules: Rules { required: true, ..R }, shown: Shown { as_: "-A, --kappas", doc: &["First {of} f725,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-A", "--kappas"], Kind::Flag) },
            Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[3], ..R }, shown: Shown { as_: "-😀, --Mu=<F726>", doc: &["Doc of f726."], hide: false }, ..opt(&["-😀", "--Mu"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f722), just(&self.f723), just(&self.f724), flag(self.g727.f725), list(&self.g727.f726)]];
        v
    }
}
// @@ D67
#[derive(Args)]
struct D67G0 {
    /// Doc of f732.
    #[arg(conflicts_with = "f730", value_delimiter = ',', short_alias = 'x', short = 'i', alias = "q\u{22}q", long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", global = true, default_value = "dd,e")]
    f732: Vec<OsString>,
    /// Doc of f731.
    #[arg(required = true, short = ' ', conflicts_with_all = ["f730"], long = "eps-i", hide = true, conflicts_with_all = ["f732"], require_equals = true)]
    f731: Option<Option<OsString>>,
    #[arg(value_name = "[X]", hide = true, alias = "kappa", conflicts_with = "f732")]
    #[arg(long = "zeta", short_alias = 'C', requires = "f731", default_value = "dd", short = '𐀀', global = true)]
    f730: OsString,
}
#[derive(Args)]
struct D67G1 {
    /// Doc of f733.
    #[arg(global = true, short = '\u{5c}', long = "Mu")]
    f733: Option<OsString>,
}
#[derive(Parser)]
struct D67 {
    #[command(flatten)]
    g735: D67G1,
    #[command(flatten)]
    g734: D67G0,
    #[arg(default_value_t = "dd".to_string(), short = 's', require_equals = true, long = "a b", global = true, conflicts_with_all = ["f728"], conflicts_with_all = [])]
    f729: Option<String>,
    /// Doc of f728.
    #[arg(default_value = "dd", conflicts_with_all = "f729", trailing_var_arg = true)]
    f728: Vec<OsString>,
}
impl Told for D67 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[5], ..R }, shown: Shown { as_: "-s, --a b=<F729>", doc: &["[default: dd]"], hide: false }, ..opt(&["-s", "--a b"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[3], requires: &[2], ..R }, shown: Shown { as_: "-𐀀, --zeta <[X]>", doc: &["[default: dd]"], hide: true }, ..opt(&["-𐀀", "--zeta", "--kappa", "-C"], Kind::One) },
            Opt { rules: Rules { required: true, conflicts: &[1, 3], ..R }, shown: Shown { as_: "- , --eps-i[=<F731>]", doc: &["Doc of f731."], hide: true }, ..opt(&["- ", "--eps-i"], Kind::Maybe) },
            Opt { global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[1], ..R }, shown: Shown { as_: "-i, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <F732>", doc: &["Doc of f732.", "[default: dd,e]"], hide: false }, ..opt(&["-i", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--q\u{22}q", "-x"], Kind::List) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-\u{5c}, --Mu <F733>", doc: &["Doc of f733."], hide: false }, ..opt(&["-\u{5c}", "--Mu"], Kind::One) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "[F728]...", doc: &["Doc of f728.", "[default: dd]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f729), just(&self.g734.f730), maybe(&self.g734.f731), list(&self.g734.f732), one(&self.g735.f733), list(&self.f728)]];
        v
    }
}
// @@ D68
#[derive(Args)]
struct D68G0 {
}
#[derive(Args)]
struct D68AaBb {
    /// First {of} f741,
    ///
    /// 100% "more".
    #[arg(required = true, exclusive = true, long = "x-y", require_equals = true, short = '2')]
    f741: Option<Option<OsString>>,
}
#[derive(Subcommand)]
enum D68Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f739.
        #[arg(requires = "f740", value_name = "FOO {BAR}", exclusive = true, short = 'v', require_equals = true, long = "kappas")]
        f739: Option<Option<OsString>>,
        #[arg(conflicts_with_all = ["f737"], short = 'y', require_equals = true)]
        #[arg(conflicts_with_all = [], default_value = "dd", long = "x2", exclusive = true)]
        f740: Option<OsString>,
        #[arg(conflicts_with = "f736", conflicts_with_all = ["f740"], long = "eta", short = 'p', global = true, alias = "chi", short_alias = 'J', requires = "f738", default_value_t = "dd".to_string())]
        f737: Option<String>,
        /// Doc of f738.
        #[arg(conflicts_with = "f740", global = true, conflicts_with = "f736", value_name = "a-é", value_delimiter = ',', short = 's', default_value = "dd,e", long = "x-y")]
        f738: Vec<OsString>,
        /// First {of} f736,
        ///
        /// 100% "more".
        #[arg(required = true, value_delimiter = ',', conflicts_with = "f738", conflicts_with = "f740", value_name = "FOO {BAR}", last = true)]
        f736: Option<Vec<OsString>>,
    },
    AaBb(D68AaBb),
    /// About {it}.
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D68 {
    #[command(flatten)]
    g742: D68G0,
    #[command(subcommand)]
    cmd: D68Cmd,
}
impl Told for D68 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[4, 3], requires: &[1], ..R }, shown: Shown { as_: "-p, --eta <F737>", doc: &["[default: dd]"], hide: false }, ..opt(&["-p", "--eta", "--chi", "-J"], Kind::One) },
                    Opt { global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[3, 4], ..R }, shown: Shown { as_: "-s, --x-y <a-é>", doc: &["Doc of f738.", "[default: dd,e]"], hide: false }, ..opt(&["-s", "--x-y"], Kind::List) },
                    Opt { rules: Rules { requires: &[3], exclusive: true, ..R }, shown: Shown { as_: "-v, --kappas[=<FOO {BAR}>]", doc: &["Doc of f739."], hide: false }, ..opt(&["-v", "--kappas"], Kind::Maybe) },
                    Opt { eq: true, rules: Rules { default: Some("dd"), conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "-y, --x2=<F740>", doc: &["[default: dd]"], hide: false }, ..opt(&["-y", "--x2"], Kind::One) },
                ],
                pos: &[
                    Pos { last: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1, 3], ..R }, shown: Shown { as_: "<FOO {BAR}>...", doc: &["First {of} f736,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "-2, --x-y[=<F741>]", doc: &["First {of} f741,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-2", "--x-y"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            D68Cmd::Aa { f737, f738, f739, f740, f736 } => {
                v.push(vec![one(f737), list(f738), maybe(f739), one(f740), olist(f736)]);
            }
            D68Cmd::AaBb(x) => {
                v.push(vec![maybe(&x.f741)]);
            }
            D68Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D69
#[derive(Args)]
struct D69AaBbAaG0 {
    /// First {of} f747,
    ///
    /// 100% "more".
    #[arg(default_value = "", global = true, short = 'H', require_equals = true, long = "kappa", conflicts_with_all = "f748")]
    f747: Option<Option<OsString>>,
    #[arg(required = true, global = true, short = 'e', value_delimiter = ',', value_name = "a-é")]
    #[arg(conflicts_with_all = ["f747"], conflicts_with_all = [], long = "zeta")]
    f748: Vec<OsString>,
}
#[derive(Subcommand)]
enum D69AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g749: D69AaBbAaG0,
    },
    Zz,
}
#[derive(Args)]
struct D69AaBb {
    #[command(subcommand)]
    cmd: D69AaBbCmd,
}
#[derive(Subcommand)]
enum D69Cmd {
    Aa {
        /// First {of} f746,
        ///
        /// 100% "more".
        #[arg(required = true, global = true, short = '�', conflicts_with_all = ["f743"], require_equals = true, long = "kap", exclusive = true, conflicts_with_all = [])]
        f746: Vec<OsString>,
        /// Doc of f743.
        #[arg(default_value = "", conflicts_with = "f746")]
        f743: OsString,
    },
    AaBb(D69AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D69 {
    #[arg(short = 'c', hide = true, default_value_t = true, long = "Mu", conflicts_with = "f744", value_name = "[X]")]
    f745: bool,
    /// First {of} f744,
    ///
    #[arg(global = true, long = "kap", alias = "a b", hide = true, value_name = "FOO {BAR}", short = '\u{e000}', conflicts_with_all = ["f745"])]
    /// 100% "more".
    #[arg(short_alias = 'd', conflicts_with_all = [], require_equals = true)]
    f744: Option<Option<OsString>>,
    #[command(subcommand)]
    cmd: D69Cmd,
}
impl Told for D69 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { conflicts: &[1], ..R }, shown: Shown { as_: "-\u{e000}, --kap[=<FOO {BAR}>]", doc: &["First {of} f744,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-\u{e000}", "--kap", "--a b", "-d"], Kind::Maybe) },
            Opt { rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "-c, --Mu", doc: &["[default: true]"], hide: true }, ..opt(&["-c", "--Mu"], Kind::Flag) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "-�, --kap=<F746>", doc: &["First {of} f746,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-�", "--kap"], Kind::List) },
                ],
                pos: &[
                    Pos { rules: Rules { default: Some(""), conflicts: &[0], ..R }, shown: Shown { as_: "[F743]", doc: &["Doc of f743.", "[default: ]"], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { default: Some(""), conflicts: &[1], ..R }, shown: Shown { as_: "-H, --kappa[=<F747>]", doc: &["First {of} f747,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["-H", "--kappa"], Kind::Maybe) },
                            Opt { global: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[0], ..R }, shown: Shown { as_: "-e, --zeta <a-é>", doc: &[], hide: false }, ..opt(&["-e", "--zeta"], Kind::List) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                ],
                sub_required: true,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![maybe(&self.f744), flag(self.f745)]];
        match &self.cmd {
            D69Cmd::Aa { f746, f743 } => {
                v.push(vec![list(f746), just(f743)]);
            }
            D69Cmd::AaBb(x) => {
                v.push(vec![]);
                match &x.cmd {
                    D69AaBbCmd::Aa { g749 } => {
                        v.push(vec![maybe(&g749.f747), list(&g749.f748)]);
                    }
                    D69AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D69Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D70
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D70 {
    /// First {of} f754,
    ///
    /// 100% "more".
    #[arg(global = true, short = 'n', exclusive = true, requires = "f752", long = "h", require_equals = true, required = true)]
    f754: Option<OsString>,
    #[arg(global = true, require_equals = true, required = true, value_name = "FOO {BAR}", short = 'q', requires = "f755", exclusive = true, long = "gamma", requires = "f750")]
    f751: OsString,
    /// First {of} f755,
    ///
    #[arg(value_name = "FOO {BAR}", requires = "f753")]
    /// 100% "more".
    #[arg(long = "zeta", short_alias = '→', alias = "kap", global = true, required = true, short = 'a')]
    f755: OsString,
    #[arg(conflicts_with = "f752", short = ' ', hide = true, global = true, value_name = "a-é", exclusive = true, long = "é-long", require_equals = true)]
    f753: Vec<OsString>,
    #[arg(conflicts_with_all = ["f751",], conflicts_with_all = "f755", default_value = "dd", global = true, requires = "f754", long = "nu", short = 'v', value_name = "[X]")]
    f752: OsString,
    #[arg(hide = true, conflicts_with_all = ["f755"], exclusive = true, default_value = "dd", conflicts_with_all = [])]
    f750: OsString,
}
impl Told for D70 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { required: true, requires: &[4, 5], exclusive: true, ..R }, shown: Shown { as_: "-q, --gamma=<FOO {BAR}>", doc: &[], hide: false }, ..opt(&["-q", "--gamma"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[0, 4], requires: &[3], ..R }, shown: Shown { as_: "-v, --nu <[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["-v", "--nu"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "- , --é-long=<a-é>", doc: &[], hide: true }, ..opt(&["- ", "--é-long"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { required: true, requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "-n, --h=<F754>", doc: &["First {of} f754,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-n", "--h"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, requires: &[2], ..R }, shown: Shown { as_: "-a, --zeta <FOO {BAR}>", doc: &["First {of} f755,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-a", "--zeta", "--kap", "-→"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), conflicts: &[4], exclusive: true, ..R }, shown: Shown { as_: "[F750]", doc: &["[default: dd]"], hide: true }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f751), just(&self.f752), list(&self.f753), one(&self.f754), just(&self.f755), just(&self.f750)]];
        v
    }
}
// @@ D71
#[derive(Args)]
struct D71G0G0 {
    #[arg(value_name = "[X]", default_value_t = "dd".to_string(), short = 'k', long = "a b")]
    f760: Option<String>,
}
#[derive(Args)]
struct D71G0 {
    #[command(flatten)]
    g763: D71G0G0,
    /// Doc of f759.
    #[arg(short = 'E')]
    #[arg(short_alias = '→', long = "gamma", alias = "nu", required = true)]
    f759: Option<OsString>,
    /// First {of} f758,
    ///
    /// 100% "more".
    #[arg(short_alias = '3', hide = true, value_name = "a-é", short = '0', alias = "rho_s", long = "eta", default_value_t = "dd".to_string(), conflicts_with_all = "f759", requires = "f757")]
    f758: String,
    /// First {of} f757,
    ///
    #[arg(value_name = "[X]", default_value_t = "dd".to_string(), long = "eps-i")]
    /// 100% "more".
    #[arg(conflicts_with = "f759", global = true, short = 'y', conflicts_with_all = ["f758"])]
    f757: Option<String>,
}
#[derive(Args)]
struct D71G1 {
    #[arg(global = true, default_value = "dd", short = 'i', long = "iota")]
    f761: Option<OsString>,
}
/// About {it}.
#[derive(Parser)]
struct D71 {
    #[command(flatten)]
    g764: D71G1,
    #[command(flatten)]
    g762: D71G0,
    /// First {of} f756,
    ///
    /// 100% "more".
    #[arg(value_name = "[X]", required = true)]
    f756: OsString,
}
impl Told for D71 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[2, 1], ..R }, shown: Shown { as_: "-y, --eps-i <[X]>", doc: &["First {of} f757,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-y", "--eps-i"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[2], requires: &[0], ..R }, shown: Shown { as_: "-0, --eta <a-é>", doc: &["First {of} f758,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-0", "--eta", "--rho_s", "-3"], Kind::One) },
            Opt { rules: Rules { required: true, ..R }, shown: Shown { as_: "-E, --gamma <F759>", doc: &["Doc of f759."], hide: false }, ..opt(&["-E", "--gamma", "--nu", "-→"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-k, --a b <[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["-k", "--a b"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-i, --iota <F761>", doc: &["[default: dd]"], hide: false }, ..opt(&["-i", "--iota"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, ..R }, shown: Shown { as_: "<[X]>", doc: &["First {of} f756,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.g762.f757), just(&self.g762.f758), one(&self.g762.f759), one(&self.g762.g763.f760), one(&self.g764.f761), just(&self.f756)]];
        v
    }
}
// @@ D72
/// About {it}.
#[derive(Args)]
struct D72AaBb {
    #[arg(long = "iota", short_alias = '߿', alias = "alpha", short = 'D', global = true, required = true, conflicts_with = "f765", value_name = "[X]")]
    f770: Option<Vec<OsString>>,
    #[arg(value_name = "a-é", trailing_var_arg = true, exclusive = true, conflicts_with_all = "f770")]
    f765: Option<Vec<OsString>>,
}
#[derive(Subcommand)]
enum D72Cmd {
    Aa {
        /// First {of} f769,
        ///
        #[arg(require_equals = true, value_name = "[X]", short = 'G', required = true, long = "alpha")]
        /// 100% "more".
        #[arg(global = true)]
        f769: Vec<OsString>,
    },
    AaBb(D72AaBb),
    Uu,
}
#[derive(Parser)]
struct D72 {
    #[arg(default_value_t = "dd".to_string(), conflicts_with = "f768", conflicts_with_all = ["f767"], global = true, long = "chi", value_name = "[X]", short = 'x')]
    f766: String,
    /// First {of} f768,
    ///
    /// 100% "more".
    #[arg(short = 'm', default_value_t = true, conflicts_with = "f767", exclusive = true, alias = "tau", long = "omega", short_alias = 'g', global = true)]
    f768: bool,
    /// First {of} f767,
    ///
    #[arg(require_equals = true, requires = "f766", alias = "theta", short_alias = 'v', hide = true, value_name = "FOO {BAR}", long = "eta", short = 'I', value_delimiter = ',', exclusive = true)]
    /// 100% "more".
    #[arg(default_value = "dd,e", requires = "f768")]
    f767: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<D72Cmd>,
}
impl Told for D72 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[2, 1], ..R }, shown: Shown { as_: "-x, --chi <[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["-x", "--chi"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[0, 2], exclusive: true, ..R }, shown: Shown { as_: "-I, --eta=<FOO {BAR}>", doc: &["First {of} f767,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: true }, ..opt(&["-I", "--eta", "--theta", "-v"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "-m, --omega", doc: &["First {of} f768,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-m", "--omega", "--tau", "-g"], Kind::Flag) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-G, --alpha=<[X]>", doc: &["First {of} f769,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-G", "--alpha"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-D, --iota <[X]>", doc: &[], hide: false }, ..opt(&["-D", "--iota", "--alpha", "-߿"], Kind::List) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "[a-é]...", doc: &[], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f766), list(&self.f767), flag(self.f768)]];
        match &self.cmd {
            Some(D72Cmd::Aa { f769 }) => {
                v.push(vec![list(f769)]);
            }
            Some(D72Cmd::AaBb(x)) => {
                v.push(vec![olist(&x.f770), olist(&x.f765)]);
            }
            Some(D72Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D73
#[derive(Args)]
struct D73G0G0 {
}
#[derive(Args)]
struct D73G0 {
    #[arg(value_name = "[X]", alias = "rho_s", default_value = "", long = "a b", short = '\u{5c}', short_alias = 'ࠀ', require_equals = true)]
    f773: Option<OsString>,
    #[command(flatten)]
    g778: D73G0G0,
}
#[derive(Args)]
struct D73AaG0 {
}
#[derive(Args)]
struct D73AaBbG0 {
}
#[derive(Subcommand)]
enum D73AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[arg(required = true, short_alias = '𐀀', exclusive = true)]
        #[arg(requires = "f771", requires = "f775", short = 'f', alias = "\u{5c}", long = "alpha")]
        f776: bool,
        #[arg(short = '0')]
        #[arg(exclusive = true, required = true, value_name = "FOO {BAR}", require_equals = true, global = true, requires = "f776", short_alias = '\u{5c}', alias = "phi+", long = "x2", requires = "f771")]
        f775: Option<Option<OsString>>,
        /// First {of} f771,
        ///
        #[arg(exclusive = true)]
        /// 100% "more".
        #[arg(last = true, value_name = "[X]", requires = "f775", requires = "f776", required = true)]
        f771: Vec<OsString>,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
#[derive(Args)]
struct D73AaBb {
    /// Doc of f774.
    #[arg(short = 'k', default_value = "dd", value_name = "FOO {BAR}")]
    #[arg(long = "gamma")]
    f774: OsString,
    #[command(flatten)]
    g780: D73AaBbG0,
    #[command(subcommand)]
    cmd: D73AaBbCmd,
}
#[derive(Subcommand)]
enum D73Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g779: D73AaG0,
    },
    AaBb(D73AaBb),
    /// About {it}.
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D73 {
    /// First {of} f772,
    ///
    /// 100% "more".
    #[arg(hide = true, value_name = "[X]", short_alias = 'I', default_value = "dd,e", value_delimiter = ',', short = 'é', alias = "gamma", long = "beta")]
    f772: Vec<OsString>,
    #[command(flatten)]
    g777: D73G0,
    #[command(subcommand)]
    cmd: Option<D73Cmd>,
}
impl Told for D73 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-é, --beta <[X]>", doc: &["First {of} f772,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: true }, ..opt(&["-é", "--beta", "--gamma", "-I"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-\u{5c}, --a b=<[X]>", doc: &["[default: ]"], hide: false }, ..opt(&["-\u{5c}", "--a b", "--rho_s", "-ࠀ"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-k, --gamma <FOO {BAR}>", doc: &["Doc of f774.", "[default: dd]"], hide: false }, ..opt(&["-k", "--gamma"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { required: true, requires: &[1, 2], exclusive: true, ..R }, shown: Shown { as_: "-0, --x2[=<FOO {BAR}>]", doc: &[], hide: false }, ..opt(&["-0", "--x2", "--phi+", "-\u{5c}"], Kind::Maybe) },
                            Opt { rules: Rules { required: true, requires: &[2, 0], exclusive: true, ..R }, shown: Shown { as_: "-f, --alpha", doc: &[], hide: false }, ..opt(&["-f", "--alpha", "--\u{5c}", "-𐀀"], Kind::Flag) },
                        ],
                        pos: &[
                            Pos { last: true, rules: Rules { required: true, requires: &[0, 1], exclusive: true, ..R }, shown: Shown { as_: "<[X]>...", doc: &["First {of} f771,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: true,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f772), one(&self.g777.f773)]];
        match &self.cmd {
            Some(D73Cmd::Aa { g779 }) => {
                v.push(vec![]);
            }
            Some(D73Cmd::AaBb(x)) => {
                v.push(vec![just(&x.f774)]);
                match &x.cmd {
                    D73AaBbCmd::Aa { f775, f776, f771 } => {
                        v.push(vec![maybe(f775), flag(*f776), list(f771)]);
                    }
                    D73AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D73Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D74
#[derive(Args)]
struct D74G0G0 {
    #[arg(required = true, alias = "q\u{22}q", global = true, short_alias = 'q', long = "a b", short = 'd')]
    f786: bool,
}
#[derive(Args)]
struct D74G0 {
    #[arg(hide = true, require_equals = true, long = "eta", short = 'y', short_alias = '\u{10ffff}', requires = "f785", default_value = "dd", alias = "nu")]
    f784: Option<OsString>,
    #[command(flatten)]
    g788: D74G0G0,
    /// First {of} f785,
    ///
    /// 100% "more".
    #[arg(alias = "psi", short_alias = 'c', long = "Mu", short = 'ࠀ', global = true, require_equals = true, default_value = "dd")]
    f785: Option<Option<OsString>>,
}
/// About {it}.
#[derive(Parser)]
struct D74 {
    /// Doc of f783.
    #[arg(long = "x-y", default_value_t = "dd".to_string(), requires = "f782", short = 'D')]
    f783: Option<String>,
    #[command(flatten)]
    g787: D74G0,
    /// Doc of f782.
    #[arg(default_value = "dd", long = "kap", short = 'I', global = true)]
    #[arg(requires = "f783", value_name = "FOO {BAR}")]
    f782: OsString,
    #[arg(value_delimiter = ',', conflicts_with = "f783", conflicts_with = "f782", default_value = "dd,e")]
    f781: Vec<OsString>,
}
impl Told for D74 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), requires: &[1], ..R }, shown: Shown { as_: "-I, --kap <FOO {BAR}>", doc: &["Doc of f782.", "[default: dd]"], hide: false }, ..opt(&["-I", "--kap"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, requires: &[0], ..R }, shown: Shown { as_: "-D, --x-y <F783>", doc: &["Doc of f783.", "[default: dd]"], hide: false }, ..opt(&["-D", "--x-y"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd"), requires: &[3], ..R }, shown: Shown { as_: "-y, --eta=<F784>", doc: &["[default: dd]"], hide: true }, ..opt(&["-y", "--eta", "--nu", "-\u{10ffff}"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-ࠀ, --Mu[=<F785>]", doc: &["First {of} f785,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-ࠀ", "--Mu", "--psi", "-c"], Kind::Maybe) },
            Opt { global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-d, --a b", doc: &[], hide: false }, ..opt(&["-d", "--a b", "--q\u{22}q", "-q"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[1, 0], ..R }, shown: Shown { as_: "[F781]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f782), one(&self.f783), one(&self.g787.f784), maybe(&self.g787.f785), flag(self.g787.g788.f786), list(&self.f781)]];
        v
    }
}
// @@ D75
#[derive(Args)]
struct D75G0 {
    #[arg(default_value = "dd", conflicts_with_all = "f792", value_name = "[X]", long = "theta", require_equals = true, short = '2')]
    f791: Vec<OsString>,
    /// First {of} f792,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = "f791", short = 'C', alias = "\u{5c}", long = "x", hide = true, short_alias = '\u{ffff}', default_value_t = "dd".to_string(), global = true)]
    f792: String,
}
#[derive(Args)]
struct D75G1 {
    /// First {of} f793,
    ///
    /// 100% "more".
    #[arg(require_equals = true, required = true, short = '1', long = "a b", hide = true, global = true)]
    f793: OsString,
}
#[derive(Args)]
struct D75G2G0 {
}
#[derive(Args)]
struct D75G2 {
    /// First {of} f794,
    ///
    /// 100% "more".
    #[arg(long = "nu", global = true, short = '{', value_name = "[X]", default_value_t = true)]
    f794: bool,
    #[command(flatten)]
    g798: D75G2G0,
}
/// About {it}.
#[derive(Parser)]
struct D75 {
    #[command(flatten)]
    g796: D75G1,
    /// First {of} f790,
    ///
    /// 100% "more".
    #[arg(required = true, short = 'b', value_name = "FOO {BAR}", require_equals = true, requires = "f789", global = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    f790: Option<Option<OsString>>,
    #[command(flatten)]
    g795: D75G0,
    #[command(flatten)]
    g797: D75G2,
    #[arg(default_value = "dd", conflicts_with_all = "f790")]
    f789: Option<OsString>,
}
impl Told for D75 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { required: true, requires: &[5], ..R }, shown: Shown { as_: "-b, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn[=<FOO {BAR}>]", doc: &["First {of} f790,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-b", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("dd"), conflicts: &[2], ..R }, shown: Shown { as_: "-2, --theta=<[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["-2", "--theta"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1], ..R }, shown: Shown { as_: "-C, --x <F792>", doc: &["First {of} f792,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-C", "--x", "--\u{5c}", "-\u{ffff}"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-1, --a b=<F793>", doc: &["First {of} f793,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-1", "--a b"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-{, --nu", doc: &["First {of} f794,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-{", "--nu"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "[F789]", doc: &["[default: dd]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f790), list(&self.g795.f791), just(&self.g795.f792), just(&self.g796.f793), flag(self.g797.f794), one(&self.f789)]];
        v
    }
}
// @@ D76
#[derive(Args)]
struct D76G0G0 {
    /// First {of} f802,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = ["f801"], require_equals = true, required = true, short = '\u{5c}', global = true, conflicts_with_all = [], long = "tau", value_name = "FOO {BAR}")]
    f802: Option<OsString>,
    #[arg(short = 'B', default_value_t = true, long = "kappas", requires = "f802", global = true)]
    f801: bool,
}
#[derive(Args)]
struct D76G0 {
    #[command(flatten)]
    g806: D76G0G0,
}
#[derive(Args)]
struct D76AaBbG0G0 {
}
#[derive(Args)]
struct D76AaBbG0 {
    #[command(flatten)]
    g808: D76AaBbG0G0,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D76AaBb {
    #[command(flatten)]
    g807: D76AaBbG0,
}
#[derive(Subcommand)]
enum D76Cmd {
    Aa {
        #[arg(long = "kap", exclusive = true, conflicts_with_all = "f803", global = true, value_name = "FOO {BAR}", short = 'i')]
        #[arg(required = true)]
        f804: Option<Vec<OsString>>,
        #[arg(value_name = "[X]", short = '\u{5c}', long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", requires = "f804", exclusive = true, short_alias = 'j', default_value = "", alias = "delta")]
        f803: Option<OsString>,
        #[arg(default_value = "dd", value_name = "a-é", trailing_var_arg = true, exclusive = true)]
        f799: Vec<OsString>,
    },
    AaBb(D76AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D76 {
    #[arg(short_alias = 'j', default_value = "dd", short = 'i', long = "eps-i", value_name = "a-é", alias = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", require_equals = true)]
    f800: Option<OsString>,
    #[command(flatten)]
    g805: D76G0,
    #[command(subcommand)]
    cmd: D76Cmd,
}
impl Told for D76 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-i, --eps-i=<a-é>", doc: &["[default: dd]"], hide: false }, ..opt(&["-i", "--eps-i", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "-j"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), requires: &[2], ..R }, shown: Shown { as_: "-B, --kappas", doc: &["[default: true]"], hide: false }, ..opt(&["-B", "--kappas"], Kind::Flag) },
            Opt { eq: true, global: true, rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-\u{5c}, --tau=<FOO {BAR}>", doc: &["First {of} f802,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{5c}", "--tau"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { default: Some(""), requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "-\u{5c}, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <[X]>", doc: &["[default: ]"], hide: false }, ..opt(&["-\u{5c}", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--delta", "-j"], Kind::One) },
                    Opt { global: true, rules: Rules { required: true, conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "-i, --kap <FOO {BAR}>", doc: &[], hide: false }, ..opt(&["-i", "--kap"], Kind::List) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { default: Some("dd"), exclusive: true, ..R }, shown: Shown { as_: "[a-é]...", doc: &["[default: dd]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f800), flag(self.g805.g806.f801), one(&self.g805.g806.f802)]];
        match &self.cmd {
            D76Cmd::Aa { f803, f804, f799 } => {
                v.push(vec![one(f803), olist(f804), list(f799)]);
            }
            D76Cmd::AaBb(x) => {
                v.push(vec![]);
            }
            D76Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D77
#[derive(Args)]
struct D77AaBbAaG0 {
    /// First {of} f814,
    ///
    #[arg(alias = "helper", global = true, value_delimiter = ',')]
    /// 100% "more".
    #[arg(long = "eta", short = 't', short_alias = '2')]
    f814: Option<Vec<OsString>>,
}
#[derive(Subcommand)]
enum D77AaBbCmd {
    Aa {
        #[command(flatten)]
        g815: D77AaBbAaG0,
        /// First {of} f809,
        ///
        /// 100% "more".
        #[arg(required = true, value_name = "a-é")]
        f809: Option<OsString>,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D77AaBb {
    #[command(subcommand)]
    cmd: D77AaBbCmd,
}
#[derive(Subcommand)]
enum D77Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f812.
        #[arg(long = "gamma", required = true, conflicts_with_all = ["f813"], short = 'E', hide = true, value_name = "a-é", conflicts_with_all = [])]
        f812: bool,
        /// First {of} f813,
        ///
        /// 100% "more".
        #[arg(required = true, long = "theta", short = '߿', value_name = "[X]", exclusive = true, global = true, requires = "f812")]
        f813: bool,
    },
    AaBb(D77AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D77 {
    #[arg(long = "Mu", global = true, value_name = "a-é", default_value_t = "dd".to_string(), alias = "gamma")]
    #[arg(short_alias = 'é', conflicts_with_all = "f810", short = 'E')]
    f811: String,
    #[arg(alias = "helper", long = "x", default_value = "dd", short_alias = '{', exclusive = true, short = '߿', value_name = "a-é", conflicts_with_all = "f811", hide = true, global = true)]
    f810: Option<OsString>,
    #[command(subcommand)]
    cmd: D77Cmd,
}
impl Told for D77 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "-߿, --x <a-é>", doc: &["[default: dd]"], hide: true }, ..opt(&["-߿", "--x", "--helper", "-{"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[0], ..R }, shown: Shown { as_: "-E, --Mu <a-é>", doc: &["[default: dd]"], hide: false }, ..opt(&["-E", "--Mu", "--gamma", "-é"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-E, --gamma", doc: &["Doc of f812."], hide: true }, ..opt(&["-E", "--gamma"], Kind::Flag) },
                    Opt { global: true, rules: Rules { required: true, requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "-߿, --theta", doc: &["First {of} f813,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-߿", "--theta"], Kind::Flag) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-t, --eta <F814>", doc: &["First {of} f814,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-t", "--eta", "--helper", "-2"], Kind::List) },
                        ],
                        pos: &[
                            Pos { rules: Rules { required: true, ..R }, shown: Shown { as_: "<a-é>", doc: &["First {of} f809,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: true,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f810), just(&self.f811)]];
        match &self.cmd {
            D77Cmd::Aa { f812, f813 } => {
                v.push(vec![flag(*f812), flag(*f813)]);
            }
            D77Cmd::AaBb(x) => {
                v.push(vec![]);
                match &x.cmd {
                    D77AaBbCmd::Aa { g815, f809 } => {
                        v.push(vec![olist(&g815.f814), one(f809)]);
                    }
                    D77AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D77Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D78
#[derive(Args)]
struct D78G0 {
    /// Doc of f817.
    #[arg(long = "x", alias = "a b", value_name = "[X]", short_alias = 'r', require_equals = true, conflicts_with_all = ["f818"], default_value = "", conflicts_with_all = [], short = 'd')]
    f817: Option<Vec<OsString>>,
    #[arg(default_value = "dd", long = "chi", conflicts_with = "f819", conflicts_with = "f818", short_alias = 'j', requires = "f817", alias = "omicron", require_equals = true)]
    #[arg(short = 'ࠀ', global = true)]
    f821: Vec<OsString>,
    /// Doc of f819.
    #[arg(default_value_t = "dd".to_string())]
    #[arg(require_equals = true, short = 'H', conflicts_with = "f821", value_name = "a-é", long = "psi", conflicts_with = "f820")]
    f819: String,
    /// Doc of f818.
    #[arg(require_equals = true, default_value = "dd", long = "x-y", requires = "f819", global = true, short = 'B')]
    f818: Option<Option<OsString>>,
    /// Doc of f820.
    #[arg(value_name = "FOO {BAR}", conflicts_with_all = ["f819",], short = 'e', require_equals = true, long = "gamma", conflicts_with_all = "f818")]
    f820: Option<Vec<OsString>>,
}
#[derive(Parser)]
struct D78 {
    #[command(flatten)]
    g822: D78G0,
    #[arg(value_name = "a-é", value_delimiter = ',', default_value = "dd,e", trailing_var_arg = true)]
    f816: Option<Vec<OsString>>,
}
impl Told for D78 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { default: Some(""), conflicts: &[1], ..R }, shown: Shown { as_: "-d, --x=<[X]>", doc: &["Doc of f817.", "[default: ]"], hide: false }, ..opt(&["-d", "--x", "--a b", "-r"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), requires: &[2], ..R }, shown: Shown { as_: "-B, --x-y[=<F818>]", doc: &["Doc of f818.", "[default: dd]"], hide: false }, ..opt(&["-B", "--x-y"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[4, 3], ..R }, shown: Shown { as_: "-H, --psi=<a-é>", doc: &["Doc of f819.", "[default: dd]"], hide: false }, ..opt(&["-H", "--psi"], Kind::One) },
            Opt { eq: true, rules: Rules { conflicts: &[2, 1], ..R }, shown: Shown { as_: "-e, --gamma=<FOO {BAR}>", doc: &["Doc of f820."], hide: false }, ..opt(&["-e", "--gamma"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), conflicts: &[2, 1], requires: &[0], ..R }, shown: Shown { as_: "-ࠀ, --chi=<F821>", doc: &["[default: dd]"], hide: false }, ..opt(&["-ࠀ", "--chi", "--omicron", "-j"], Kind::List) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "[a-é]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![olist(&self.g822.f817), maybe(&self.g822.f818), just(&self.g822.f819), olist(&self.g822.f820), list(&self.g822.f821), olist(&self.f816)]];
        v
    }
}
// @@ D79
#[derive(Args)]
struct D79G0G0 {
    #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", hide = true)]
    #[arg(conflicts_with = "f826", short = '\u{10ffff}', value_name = "FOO {BAR}", require_equals = true, short_alias = 'ࠀ', alias = "x-y")]
    f824: Option<Option<OsString>>,
    #[arg(required = true, short_alias = 'e', conflicts_with_all = ["f824",], global = true)]
    #[arg(conflicts_with_all = "f826", short = 'J', long = "{}", alias = "beta")]
    f825: bool,
    /// First {of} f826,
    ///
    #[arg(value_name = "a-é", value_delimiter = ',', long = "\u{5c}", default_value = "dd,e", global = true)]
    /// 100% "more".
    #[arg(short = 'j')]
    f826: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D79G0 {
    #[command(flatten)]
    g830: D79G0G0,
}
#[derive(Args)]
struct D79G1G0 {
    /// Doc of f828.
    #[arg(alias = "iota", hide = true, short_alias = 'b', long = "phi+", short = 'p')]
    f828: bool,
}
#[derive(Args)]
struct D79G1 {
    /// Doc of f827.
    #[arg(value_name = "FOO {BAR}", short = '→', required = true, global = true)]
    #[arg(require_equals = true, long = "alpha")]
    f827: Option<Vec<OsString>>,
    #[command(flatten)]
    g832: D79G1G0,
}
#[derive(Args)]
struct D79G2 {
}
#[derive(Parser)]
struct D79 {
    #[command(flatten)]
    g833: D79G2,
    #[command(flatten)]
    g829: D79G0,
    #[command(flatten)]
    g831: D79G1,
    /// Doc of f823.
    #[arg(required = true, trailing_var_arg = true)]
    f823: Vec<OsString>,
}
impl Told for D79 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { conflicts: &[2], ..R }, shown: Shown { as_: "-\u{10ffff}, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn[=<FOO {BAR}>]", doc: &[], hide: true }, ..opt(&["-\u{10ffff}", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--x-y", "-ࠀ"], Kind::Maybe) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[0, 2], ..R }, shown: Shown { as_: "-J, --{}", doc: &[], hide: false }, ..opt(&["-J", "--{}", "--beta", "-e"], Kind::Flag) },
            Opt { global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-j, --\u{5c} <a-é>", doc: &["First {of} f826,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-j", "--\u{5c}"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-→, --alpha=<FOO {BAR}>", doc: &["Doc of f827."], hide: false }, ..opt(&["-→", "--alpha"], Kind::List) },
            Opt { rules: Rules { ..R }, shown: Shown { as_: "-p, --phi+", doc: &["Doc of f828."], hide: true }, ..opt(&["-p", "--phi+", "--iota", "-b"], Kind::Flag) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "<F823>...", doc: &["Doc of f823."], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.g829.g830.f824), flag(self.g829.g830.f825), olist(&self.g829.g830.f826), olist(&self.g831.f827), flag(self.g831.g832.f828), list(&self.f823)]];
        v
    }
}
// @@ D80
#[derive(Args)]
struct D80G0G0 {
}
#[derive(Args)]
struct D80G0 {
    /// Doc of f837.
    #[arg(default_value = "dd,e", value_delimiter = ',', long = "kap")]
    #[arg(short = '1')]
    f837: Vec<OsString>,
    #[command(flatten)]
    g841: D80G0G0,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D80AaBb {
    /// Doc of f839.
    #[arg(require_equals = true, short = '2', long = "phi+", requires = "f838", exclusive = true, default_value = "dd", value_name = "[X]", global = true)]
    f839: Vec<OsString>,
    /// First {of} f838,
    ///
    /// 100% "more".
    #[arg(long = "helper", value_delimiter = ',', require_equals = true, short = 'q', global = true, value_name = "FOO {BAR}", exclusive = true, required = true)]
    f838: Option<Vec<OsString>>,
}
#[derive(Subcommand)]
enum D80Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// First {of} f834,
        ///
        /// 100% "more".
        #[arg(last = true, default_value = "dd,e", exclusive = true, value_delimiter = ',')]
        f834: Option<Vec<OsString>>,
    },
    AaBb(D80AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D80 {
    #[arg(default_value = "dd", short = 'q', long = "nu", global = true, require_equals = true, requires = "f835")]
    f836: Option<OsString>,
    /// First {of} f835,
    ///
    /// 100% "more".
    #[arg(short_alias = '\u{27}', alias = "x-y", require_equals = true, conflicts_with_all = "f836", long = "delta", short = 'p')]
    f835: Option<OsString>,
    #[command(flatten)]
    g840: D80G0,
    #[command(subcommand)]
    cmd: Option<D80Cmd>,
}
impl Told for D80 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { conflicts: &[1], ..R }, shown: Shown { as_: "-p, --delta=<F835>", doc: &["First {of} f835,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-p", "--delta", "--x-y", "-\u{27}"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), requires: &[0], ..R }, shown: Shown { as_: "-q, --nu=<F836>", doc: &["[default: dd]"], hide: false }, ..opt(&["-q", "--nu"], Kind::One) },
            Opt { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-1, --kap <F837>", doc: &["Doc of f837.", "[default: dd,e]"], hide: false }, ..opt(&["-1", "--kap"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), exclusive: true, ..R }, shown: Shown { as_: "[F834]...", doc: &["First {of} f834,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, delimiter: Some(b','), exclusive: true, ..R }, shown: Shown { as_: "-q, --helper=<FOO {BAR}>", doc: &["First {of} f838,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-q", "--helper"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "-2, --phi+=<[X]>", doc: &["Doc of f839.", "[default: dd]"], hide: false }, ..opt(&["-2", "--phi+"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f835), one(&self.f836), list(&self.g840.f837)]];
        match &self.cmd {
            Some(D80Cmd::Aa { f834 }) => {
                v.push(vec![olist(f834)]);
            }
            Some(D80Cmd::AaBb(x)) => {
                v.push(vec![olist(&x.f838), list(&x.f839)]);
            }
            Some(D80Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D81
#[derive(Args)]
struct D81AaBbG0 {
}
#[derive(Subcommand)]
enum D81AaBbCmd {
    /// About {it}.
    Aa {
        #[arg(requires = "f846", requires = "f847", exclusive = true, long = "iota", short = 'c', required = true)]
        f845: OsString,
        /// First {of} f847,
        ///
        /// 100% "more".
        #[arg(exclusive = true, short_alias = 'é', alias = "x2", requires = "f846", short = 'q', value_delimiter = ',', long = "é-long", required = true, requires = "f845", require_equals = true)]
        f847: Option<Vec<OsString>>,
        #[arg(required = true, require_equals = true, long = "alpha", value_name = "[X]", conflicts_with_all = ["f847"], alias = "h", value_delimiter = ',', short = '\u{27}', conflicts_with_all = [], short_alias = '\u{10ffff}')]
        f846: Vec<OsString>,
    },
    /// About {it}.
    Zz,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D81AaBb {
    #[command(flatten)]
    g848: D81AaBbG0,
    #[arg(require_equals = true, short_alias = 'q', global = true, short = 'c', long = "iota", required = true, alias = "x-y")]
    f844: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D81AaBbCmd,
}
#[derive(Subcommand)]
enum D81Cmd {
    Aa {
        /// First {of} f842,
        ///
        #[arg(trailing_var_arg = true, hide = true)]
        /// 100% "more".
        #[arg(value_delimiter = ',', required = true)]
        f842: Vec<OsString>,
    },
    AaBb(D81AaBb),
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D81 {
    /// First {of} f843,
    ///
    /// 100% "more".
    #[arg(short_alias = '\u{27}', value_name = "[X]", require_equals = true, alias = "eta", long = "nu", short = 'c', value_delimiter = ',', required = true)]
    f843: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<D81Cmd>,
}
impl Told for D81 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), ..R }, shown: Shown { as_: "-c, --nu=<[X]>", doc: &["First {of} f843,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-c", "--nu", "--eta", "-\u{27}"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { required: true, delimiter: Some(b','), ..R }, shown: Shown { as_: "<F842>...", doc: &["First {of} f842,", "100% \u{22}more\u{22}."], hide: true }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-c, --iota=<F844>", doc: &[], hide: false }, ..opt(&["-c", "--iota", "--x-y", "-q"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { rules: Rules { required: true, requires: &[1, 2], exclusive: true, ..R }, shown: Shown { as_: "-c, --iota <F845>", doc: &[], hide: false }, ..opt(&["-c", "--iota"], Kind::One) },
                            Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[2], ..R }, shown: Shown { as_: "-\u{27}, --alpha=<[X]>", doc: &[], hide: false }, ..opt(&["-\u{27}", "--alpha", "--h", "-\u{10ffff}"], Kind::List) },
                            Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), requires: &[1, 0], exclusive: true, ..R }, shown: Shown { as_: "-q, --é-long=<F847>", doc: &["First {of} f847,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-q", "--é-long", "--x2", "-é"], Kind::List) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f843)]];
        match &self.cmd {
            Some(D81Cmd::Aa { f842 }) => {
                v.push(vec![list(f842)]);
            }
            Some(D81Cmd::AaBb(x)) => {
                v.push(vec![olist(&x.f844)]);
                match &x.cmd {
                    D81AaBbCmd::Aa { f845, f846, f847 } => {
                        v.push(vec![just(f845), list(f846), olist(f847)]);
                    }
                    D81AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D81Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D82
/// About {it}.
#[derive(Parser)]
struct D82 {
    /// First {of} f854,
    ///
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", long = "delta", conflicts_with = "f849", short = 'A', exclusive = true, conflicts_with = "f850")]
    f854: bool,
    /// Doc of f852.
    #[arg(long = "kappa", require_equals = true, conflicts_with_all = "f851", requires = "f853", value_name = "FOO {BAR}", alias = "nu", default_value = "dd,e", short = 'n', requires = "f850", value_delimiter = ',', short_alias = '\u{d7ff}')]
    f852: Option<Vec<OsString>>,
    /// First {of} f853,
    ///
    #[arg(conflicts_with = "f849", alias = "h")]
    /// 100% "more".
    #[arg(long = "up.s", short = 'w', short_alias = '→', required = true, requires = "f850")]
    f853: bool,
    #[arg(short_alias = 'y', long = "pi", conflicts_with_all = ["f851",], required = true, short = ' ', conflicts_with_all = "f849", requires = "f852", value_name = "a-é", requires = "f854")]
    #[arg(alias = "alpha", require_equals = true)]
    f850: Option<Option<OsString>>,
    /// Doc of f851.
    #[arg(alias = "phi+", conflicts_with_all = ["f850"], short = 'C', conflicts_with_all = [], required = true, short_alias = '1', requires = "f853", require_equals = true, requires = "f852", long = "omega")]
    f851: Option<Option<OsString>>,
    /// First {of} f849,
    ///
    #[arg(hide = true, required = true, requires = "f852", exclusive = true)]
    /// 100% "more".
    #[arg(requires = "f853")]
    f849: Option<OsString>,
}
impl Told for D82 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, conflicts: &[1, 5], requires: &[2, 4], ..R }, shown: Shown { as_: "- , --pi[=<a-é>]", doc: &[], hide: false }, ..opt(&["- ", "--pi", "--alpha", "-y"], Kind::Maybe) },
            Opt { rules: Rules { required: true, conflicts: &[0], requires: &[3, 2], ..R }, shown: Shown { as_: "-C, --omega[=<F851>]", doc: &["Doc of f851."], hide: false }, ..opt(&["-C", "--omega", "--phi+", "-1"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[1], requires: &[3, 0], ..R }, shown: Shown { as_: "-n, --kappa=<FOO {BAR}>", doc: &["Doc of f852.", "[default: dd,e]"], hide: false }, ..opt(&["-n", "--kappa", "--nu", "-\u{d7ff}"], Kind::List) },
            Opt { rules: Rules { required: true, conflicts: &[5], requires: &[0], ..R }, shown: Shown { as_: "-w, --up.s", doc: &["First {of} f853,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-w", "--up.s", "--h", "-→"], Kind::Flag) },
            Opt { rules: Rules { conflicts: &[5, 0], exclusive: true, ..R }, shown: Shown { as_: "-A, --delta", doc: &["First {of} f854,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-A", "--delta"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, requires: &[2, 3], exclusive: true, ..R }, shown: Shown { as_: "<F849>", doc: &["First {of} f849,", "100% \u{22}more\u{22}."], hide: true }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f850), maybe(&self.f851), olist(&self.f852), flag(self.f853), flag(self.f854), one(&self.f849)]];
        v
    }
}
// @@ D83
#[derive(Args)]
struct D83G0 {
    /// Doc of f857.
    #[arg(alias = "omicron", long = "h", requires = "f856", short_alias = 'é', global = true, required = true, short = '߿', require_equals = true)]
    f857: OsString,
    /// First {of} f856,
    ///
    /// 100% "more".
    #[arg(conflicts_with = "f857", short = '→', long = "omega", value_name = "FOO {BAR}", default_value = "dd")]
    f856: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D83G1G0 {
    #[arg(long = "phi+", required = true, value_name = "FOO {BAR}", short = 'i', alias = "zeta", hide = true, value_delimiter = ',')]
    #[arg(short_alias = '3')]
    f859: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D83G1 {
    #[arg(short = 'r', hide = true, require_equals = true, long = "é-long", global = true, value_name = "[X]", short_alias = '{', alias = "kappas")]
    f858: Option<Option<OsString>>,
    #[command(flatten)]
    g862: D83G1G0,
}
#[derive(Parser)]
struct D83 {
    #[command(flatten)]
    g861: D83G1,
    #[command(flatten)]
    g860: D83G0,
    /// First {of} f855,
    ///
    #[arg(short_alias = 'J', alias = "theta", default_value = "dd", long = "gamma", global = true)]
    /// 100% "more".
    #[arg(short = 'q')]
    f855: Option<OsString>,
}
impl Told for D83 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-q, --gamma <F855>", doc: &["First {of} f855,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-q", "--gamma", "--theta", "-J"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), conflicts: &[2], ..R }, shown: Shown { as_: "-→, --omega <FOO {BAR}>", doc: &["First {of} f856,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-→", "--omega"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { required: true, requires: &[1], ..R }, shown: Shown { as_: "-߿, --h=<F857>", doc: &["Doc of f857."], hide: false }, ..opt(&["-߿", "--h", "--omicron", "-é"], Kind::One) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-r, --é-long[=<[X]>]", doc: &[], hide: true }, ..opt(&["-r", "--é-long", "--kappas", "-{"], Kind::Maybe) },
            Opt { rules: Rules { required: true, delimiter: Some(b','), ..R }, shown: Shown { as_: "-i, --phi+ <FOO {BAR}>", doc: &[], hide: true }, ..opt(&["-i", "--phi+", "--zeta", "-3"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f855), olist(&self.g860.f856), just(&self.g860.f857), maybe(&self.g861.f858), olist(&self.g861.g862.f859)]];
        v
    }
}
// @@ D84
/// About {it}.
#[derive(Args)]
struct D84AaBb {
}
#[derive(Subcommand)]
enum D84Cmd {
    Aa {
        #[arg(short = 'E', value_delimiter = ',', value_name = "FOO {BAR}", long = "eps-i", alias = "alpha", requires = "f863", require_equals = true, global = true, short_alias = 'r', required = true)]
        f868: Vec<OsString>,
        /// First {of} f867,
        ///
        /// 100% "more".
        #[arg(alias = "rho_s", requires = "f863", require_equals = true, default_value_t = "dd".to_string(), value_name = "[X]", long = "omicron", hide = true, short = '�', short_alias = 'D', requires = "f868")]
        f867: String,
        /// First {of} f863,
        ///
        /// 100% "more".
        #[arg(conflicts_with = "f868", value_name = "[X]", conflicts_with = "f867")]
        f863: Option<OsString>,
    },
    AaBb(D84AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D84 {
    /// First {of} f864,
    ///
    #[arg(default_value_t = true)]
    /// 100% "more".
    #[arg(exclusive = true, requires = "f866", long = "q\u{22}q", requires = "f865", short_alias = 'n', value_name = "a-é", short = 'r', alias = "kappas")]
    f864: bool,
    /// First {of} f866,
    ///
    /// 100% "more".
    #[arg(alias = "omicron", value_delimiter = ',', value_name = "FOO {BAR}", conflicts_with = "f865", short = 'f', global = true, long = "Mu", conflicts_with = "f864", required = true, exclusive = true, short_alias = 'u')]
    f866: Vec<OsString>,
    /// First {of} f865,
    ///
    #[arg(short_alias = 'D', long = "a b", default_value = "dd,e")]
    /// 100% "more".
    #[arg(require_equals = true, short = '𐀀', value_delimiter = ',', requires = "f866", exclusive = true, alias = "up.s")]
    f865: Vec<OsString>,
    #[command(subcommand)]
    cmd: D84Cmd,
}
impl Told for D84 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), requires: &[2, 1], exclusive: true, ..R }, shown: Shown { as_: "-r, --q\u{22}q", doc: &["First {of} f864,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-r", "--q\u{22}q", "--kappas", "-n"], Kind::Flag) },
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[2], exclusive: true, ..R }, shown: Shown { as_: "-𐀀, --a b=<F865>", doc: &["First {of} f865,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-𐀀", "--a b", "--up.s", "-D"], Kind::List) },
            Opt { global: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1, 0], exclusive: true, ..R }, shown: Shown { as_: "-f, --Mu <FOO {BAR}>", doc: &["First {of} f866,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-f", "--Mu", "--omicron", "-u"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, requires: &[2, 1], ..R }, shown: Shown { as_: "-�, --omicron=<[X]>", doc: &["First {of} f867,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-�", "--omicron", "--rho_s", "-D"], Kind::One) },
                    Opt { eq: true, global: true, rules: Rules { required: true, delimiter: Some(b','), requires: &[2], ..R }, shown: Shown { as_: "-E, --eps-i=<FOO {BAR}>", doc: &[], hide: false }, ..opt(&["-E", "--eps-i", "--alpha", "-r"], Kind::List) },
                ],
                pos: &[
                    Pos { rules: Rules { conflicts: &[1, 0], ..R }, shown: Shown { as_: "[[X]]", doc: &["First {of} f863,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![flag(self.f864), list(&self.f865), list(&self.f866)]];
        match &self.cmd {
            D84Cmd::Aa { f867, f868, f863 } => {
                v.push(vec![just(f867), list(f868), one(f863)]);
            }
            D84Cmd::AaBb(x) => {
                v.push(vec![]);
            }
            D84Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D85
#[derive(Subcommand)]
enum D85AaBbCmd {
    /// About {it}.
    Aa {
        /// Doc of f874.
        #[arg(short = 'F', long = "kappas", require_equals = true, exclusive = true, short_alias = 'n', alias = "kappa")]
        f874: Option<Vec<OsString>>,
    },
    /// About {it}.
    Zz,
}
#[derive(Args)]
struct D85AaBb {
    /// Doc of f873.
    #[arg(require_equals = true, global = true, requires = "f872", default_value = "", short = 't', long = "kappas")]
    f873: Option<Option<OsString>>,
    #[arg(long = "kappa", value_name = "a-é", required = true, conflicts_with = "f873", short = '\u{22}')]
    f872: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: Option<D85AaBbCmd>,
}
#[derive(Subcommand)]
enum D85Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[arg(hide = true)]
        #[arg(default_value = "dd")]
        f869: Option<OsString>,
    },
    AaBb(D85AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D85 {
    /// Doc of f870.
    #[arg(default_value = "dd", hide = true, short_alias = 'F', short = 'q', alias = "eps-i", conflicts_with_all = "f871", long = "kappas")]
    f870: OsString,
    /// Doc of f871.
    #[arg(global = true, short = '\u{27}', short_alias = 'ࠀ', default_value_t = true, value_name = "FOO {BAR}", conflicts_with = "f870", long = "q\u{22}q", alias = "rho_s")]
    f871: bool,
    #[command(subcommand)]
    cmd: Option<D85Cmd>,
}
impl Told for D85 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), conflicts: &[1], ..R }, shown: Shown { as_: "-q, --kappas <F870>", doc: &["Doc of f870.", "[default: dd]"], hide: true }, ..opt(&["-q", "--kappas", "--eps-i", "-F"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "-\u{27}, --q\u{22}q", doc: &["Doc of f871.", "[default: true]"], hide: false }, ..opt(&["-\u{27}", "--q\u{22}q", "--rho_s", "-ࠀ"], Kind::Flag) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "[F869]", doc: &["[default: dd]"], hide: true }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-\u{22}, --kappa <a-é>", doc: &[], hide: false }, ..opt(&["-\u{22}", "--kappa"], Kind::List) },
                    Opt { global: true, rules: Rules { default: Some(""), requires: &[0], ..R }, shown: Shown { as_: "-t, --kappas[=<F873>]", doc: &["Doc of f873.", "[default: ]"], hide: false }, ..opt(&["-t", "--kappas"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { eq: true, rules: Rules { exclusive: true, ..R }, shown: Shown { as_: "-F, --kappas=<F874>", doc: &["Doc of f874."], hide: false }, ..opt(&["-F", "--kappas", "--kappa", "-n"], Kind::List) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f870), flag(self.f871)]];
        match &self.cmd {
            Some(D85Cmd::Aa { f869 }) => {
                v.push(vec![one(f869)]);
            }
            Some(D85Cmd::AaBb(x)) => {
                v.push(vec![olist(&x.f872), maybe(&x.f873)]);
                match &x.cmd {
                    Some(D85AaBbCmd::Aa { f874 }) => {
                        v.push(vec![olist(f874)]);
                    }
                    Some(D85AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            Some(D85Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D86
#[derive(Parser)]
struct D86 {
    /// Doc of f879.
    #[arg(value_name = "[X]", short = 'p', requires = "f876", alias = "\u{5c}", required = true, value_delimiter = ',', requires = "f875", short_alias = 'o', long = "eta")]
    f879: Option<Vec<OsString>>,
    /// First {of} f876,
    ///
    /// 100% "more".
    #[arg(long = "gamma", required = true, short = '\u{e000}', alias = "x", conflicts_with_all = ["f878",], conflicts_with_all = "f877", requires = "f875", requires = "f879", short_alias = 'g')]
    f876: Vec<OsString>,
    #[arg(conflicts_with_all = ["f876"])]
    #[arg(global = true, require_equals = true, short = 'm', long = "tau", conflicts_with_all = [], requires = "f880", requires = "f875")]
    f878: Option<Option<OsString>>,
    #[arg(short = '\u{d7ff}', required = true, alias = "kappas", value_name = "a-é", conflicts_with_all = ["f878",], conflicts_with_all = "f879", exclusive = true)]
    #[arg(long = "phi+", short_alias = 'H')]
    f880: bool,
    /// First {of} f877,
    ///
    /// 100% "more".
    #[arg(long = "h", exclusive = true, conflicts_with = "f879", require_equals = true, short = 'e', default_value = "", conflicts_with_all = ["f880"], value_name = "[X]")]
    f877: Option<OsString>,
    #[arg(requires = "f879", default_value = "dd", requires = "f877", value_name = "FOO {BAR}")]
    f875: Option<OsString>,
}
impl Told for D86 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, conflicts: &[2, 1], requires: &[5, 3], ..R }, shown: Shown { as_: "-\u{e000}, --gamma <F876>", doc: &["First {of} f876,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{e000}", "--gamma", "--x", "-g"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some(""), conflicts: &[3, 4], exclusive: true, ..R }, shown: Shown { as_: "-e, --h=<[X]>", doc: &["First {of} f877,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..opt(&["-e", "--h"], Kind::One) },
            Opt { global: true, rules: Rules { conflicts: &[0], requires: &[4, 5], ..R }, shown: Shown { as_: "-m, --tau[=<F878>]", doc: &[], hide: false }, ..opt(&["-m", "--tau"], Kind::Maybe) },
            Opt { rules: Rules { required: true, delimiter: Some(b','), requires: &[0, 5], ..R }, shown: Shown { as_: "-p, --eta <[X]>", doc: &["Doc of f879."], hide: false }, ..opt(&["-p", "--eta", "--\u{5c}", "-o"], Kind::List) },
            Opt { rules: Rules { required: true, conflicts: &[2, 3], exclusive: true, ..R }, shown: Shown { as_: "-\u{d7ff}, --phi+", doc: &[], hide: false }, ..opt(&["-\u{d7ff}", "--phi+", "--kappas", "-H"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), requires: &[3, 1], ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["[default: dd]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f876), one(&self.f877), maybe(&self.f878), olist(&self.f879), flag(self.f880), one(&self.f875)]];
        v
    }
}
// @@ D87
#[derive(Args)]
struct D87G0 {
}
#[derive(Args)]
struct D87G1 {
    /// Doc of f884.
    #[arg(required = true, short = '\u{5c}', global = true, conflicts_with = "f886", value_delimiter = ',')]
    #[arg(long = "a b", require_equals = true, requires = "f885")]
    f884: Option<Vec<OsString>>,
    /// Doc of f886.
    #[arg(short_alias = 'm', require_equals = true, alias = "kappa", long = "é-long", hide = true, short = '\u{ffff}', global = true)]
    #[arg(default_value = "dd", value_name = "a-é")]
    f886: Option<OsString>,
    #[arg(long = "x2", required = true, conflicts_with_all = "f884", short = '2')]
    f885: bool,
}
#[derive(Parser)]
struct D87 {
    #[command(flatten)]
    g887: D87G0,
    /// Doc of f883.
    #[arg(required = true, short = '\u{d7ff}', conflicts_with_all = "f881", value_name = "FOO {BAR}", alias = "omega", short_alias = 'n', long = "up.s")]
    f883: OsString,
    /// Doc of f882.
    #[arg(long = "chi")]
    #[arg(short = 'e', conflicts_with = "f883", value_name = "a-é", default_value = "dd", requires = "f881")]
    f882: Vec<OsString>,
    #[command(flatten)]
    g888: D87G1,
    #[arg(last = true, value_name = "FOO {BAR}", conflicts_with_all = ["f882",], conflicts_with_all = "f883")]
    f881: Option<Vec<OsString>>,
}
impl Told for D87 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), conflicts: &[1], requires: &[5], ..R }, shown: Shown { as_: "-e, --chi <a-é>", doc: &["Doc of f882.", "[default: dd]"], hide: false }, ..opt(&["-e", "--chi"], Kind::List) },
            Opt { rules: Rules { required: true, conflicts: &[5], ..R }, shown: Shown { as_: "-\u{d7ff}, --up.s <FOO {BAR}>", doc: &["Doc of f883."], hide: false }, ..opt(&["-\u{d7ff}", "--up.s", "--omega", "-n"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[4], requires: &[3], ..R }, shown: Shown { as_: "-\u{5c}, --a b=<F884>", doc: &["Doc of f884."], hide: false }, ..opt(&["-\u{5c}", "--a b"], Kind::List) },
            Opt { rules: Rules { required: true, conflicts: &[2], ..R }, shown: Shown { as_: "-2, --x2", doc: &[], hide: false }, ..opt(&["-2", "--x2"], Kind::Flag) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-\u{ffff}, --é-long=<a-é>", doc: &["Doc of f886.", "[default: dd]"], hide: true }, ..opt(&["-\u{ffff}", "--é-long", "--kappa", "-m"], Kind::One) },
        ],
        pos: &[
            Pos { last: true, rules: Rules { conflicts: &[0, 1], ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &[], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f882), just(&self.f883), olist(&self.g888.f884), flag(self.g888.f885), one(&self.g888.f886), olist(&self.f881)]];
        v
    }
}
// @@ D88
#[derive(Args)]
struct D88G0 {
    /// First {of} f891,
    ///
    #[arg(short_alias = '\u{ffff}', value_name = "FOO {BAR}")]
    /// 100% "more".
    #[arg(required = true, short = 'z', long = "kappa", alias = "q\u{22}q")]
    f891: Vec<OsString>,
    /// First {of} f892,
    ///
    /// 100% "more".
    #[arg(short = 'F', default_value = "dd,e", value_delimiter = ',', conflicts_with = "f891", long = "{}")]
    f892: Option<Vec<OsString>>,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D88AaBb {
    /// Doc of f894.
    #[arg(exclusive = true, default_value = "dd")]
    #[arg(short = '\u{10ffff}', global = true, long = "q\u{22}q")]
    f894: OsString,
}
#[derive(Subcommand)]
enum D88Cmd {
    /// About {it}.
    Aa {
        #[arg(long = "gamma", global = true, hide = true, short = 'ࠀ')]
        #[arg(short_alias = 'e', default_value_t = true, alias = "kappas")]
        f893: bool,
    },
    AaBb(D88AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D88 {
    /// Doc of f890.
    #[arg(short_alias = '\u{10ffff}', value_name = "FOO {BAR}", alias = "kappas", long = "omega", short = 'ࠀ', conflicts_with = "f889")]
    f890: Vec<OsString>,
    #[command(flatten)]
    g895: D88G0,
    /// Doc of f889.
    #[arg(value_name = "FOO {BAR}", requires = "f890", default_value = "dd")]
    f889: OsString,
    #[command(subcommand)]
    cmd: Option<D88Cmd>,
}
impl Told for D88 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { conflicts: &[3], ..R }, shown: Shown { as_: "-ࠀ, --omega <FOO {BAR}>", doc: &["Doc of f890."], hide: false }, ..opt(&["-ࠀ", "--omega", "--kappas", "-\u{10ffff}"], Kind::List) },
            Opt { rules: Rules { required: true, ..R }, shown: Shown { as_: "-z, --kappa <FOO {BAR}>", doc: &["First {of} f891,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-z", "--kappa", "--q\u{22}q", "-\u{ffff}"], Kind::List) },
            Opt { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[1], ..R }, shown: Shown { as_: "-F, --{} <F892>", doc: &["First {of} f892,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-F", "--{}"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), requires: &[0], ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["Doc of f889.", "[default: dd]"], hide: false }, ..pos(false) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-ࠀ, --gamma", doc: &["[default: true]"], hide: true }, ..opt(&["-ࠀ", "--gamma", "--kappas", "-e"], Kind::Flag) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), exclusive: true, ..R }, shown: Shown { as_: "-\u{10ffff}, --q\u{22}q <F894>", doc: &["Doc of f894.", "[default: dd]"], hide: false }, ..opt(&["-\u{10ffff}", "--q\u{22}q"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f890), list(&self.g895.f891), olist(&self.g895.f892), just(&self.f889)]];
        match &self.cmd {
            Some(D88Cmd::Aa { f893 }) => {
                v.push(vec![flag(*f893)]);
            }
            Some(D88Cmd::AaBb(x)) => {
                v.push(vec![just(&x.f894)]);
            }
            Some(D88Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D89
#[derive(Args)]
struct D89AaBbG0G0 {
}
#[derive(Args)]
struct D89AaBbG0 {
    #[command(flatten)]
    g903: D89AaBbG0G0,
}
#[derive(Args)]
struct D89AaBbAaG0G0 {
}
#[derive(Args)]
struct D89AaBbAaG0 {
    #[command(flatten)]
    g905: D89AaBbAaG0G0,
}
#[derive(Subcommand)]
enum D89AaBbCmd {
    Aa {
        #[arg(require_equals = true, default_value = "dd", long = "helper", short = '\u{ffff}')]
        f901: Option<Option<OsString>>,
        #[command(flatten)]
        g904: D89AaBbAaG0,
        /// First {of} f896,
        ///
        #[arg(required = true, conflicts_with = "f901")]
        /// 100% "more".
        #[arg(value_name = "[X]", last = true, value_delimiter = ',')]
        f896: Option<Vec<OsString>>,
    },
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D89AaBb {
    #[command(flatten)]
    g902: D89AaBbG0,
    #[command(subcommand)]
    cmd: D89AaBbCmd,
}
#[derive(Subcommand)]
enum D89Cmd {
    Aa {
        #[arg(value_delimiter = ',', long = "kap", exclusive = true, short = 'I', conflicts_with_all = ["f899"], conflicts_with_all = [], require_equals = true)]
        f900: Option<Vec<OsString>>,
        /// Doc of f899.
        #[arg(short = 'ࠀ', value_name = "a-é", default_value_t = true, long = "helper", exclusive = true, requires = "f898", alias = "up.s", short_alias = 'v')]
        f899: bool,
        /// First {of} f898,
        ///
        /// 100% "more".
        #[arg(short_alias = '\u{22}', short = 'y', value_name = "a-é", global = true, conflicts_with = "f900", alias = "alpha", default_value_t = "dd".to_string(), require_equals = true, exclusive = true, long = "omega", conflicts_with_all = ["f899"])]
        f898: Option<String>,
    },
    AaBb(D89AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D89 {
    /// First {of} f897,
    ///
    /// 100% "more".
    #[arg(global = true, short_alias = 'v', alias = "up.s", exclusive = true, require_equals = true, short = 'ࠀ', long = "kap", default_value_t = "dd".to_string())]
    f897: String,
    #[command(subcommand)]
    cmd: D89Cmd,
}
impl Told for D89 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, exclusive: true, ..R }, shown: Shown { as_: "-ࠀ, --kap=<F897>", doc: &["First {of} f897,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-ࠀ", "--kap", "--up.s", "-v"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[2, 1], exclusive: true, ..R }, shown: Shown { as_: "-y, --omega=<a-é>", doc: &["First {of} f898,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-y", "--omega", "--alpha", "-\u{22}"], Kind::One) },
                    Opt { rules: Rules { default: Some("dd"), requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "-ࠀ, --helper", doc: &["Doc of f899.", "[default: true]"], hide: false }, ..opt(&["-ࠀ", "--helper", "--up.s", "-v"], Kind::Flag) },
                    Opt { eq: true, rules: Rules { delimiter: Some(b','), conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "-I, --kap=<F900>", doc: &[], hide: false }, ..opt(&["-I", "--kap"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-\u{ffff}, --helper[=<F901>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-\u{ffff}", "--helper"], Kind::Maybe) },
                        ],
                        pos: &[
                            Pos { last: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[0], ..R }, shown: Shown { as_: "<[X]>...", doc: &["First {of} f896,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                ],
                sub_required: true,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f897)]];
        match &self.cmd {
            D89Cmd::Aa { f898, f899, f900 } => {
                v.push(vec![one(f898), flag(*f899), olist(f900)]);
            }
            D89Cmd::AaBb(x) => {
                v.push(vec![]);
                match &x.cmd {
                    D89AaBbCmd::Aa { f901, g904, f896 } => {
                        v.push(vec![maybe(f901), olist(f896)]);
                    }
                    D89AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D89Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D90
#[derive(Args)]
struct D90G0 {
    /// First {of} f910,
    ///
    /// 100% "more".
    #[arg(value_delimiter = ',', short_alias = 'I', long = "delta", require_equals = true, default_value = "dd,e", value_name = "a-é", short = '\u{e000}', alias = "chi")]
    f910: Option<Vec<OsString>>,
    /// First {of} f911,
    ///
    /// 100% "more".
    #[arg(value_name = "[X]", long = "x-y", conflicts_with_all = "f910", requires = "f909", global = true, hide = true, short = 'é', require_equals = true, required = true)]
    f911: Option<Option<OsString>>,
    #[arg(short_alias = '\u{5c}', long = "zeta", alias = "{}", hide = true, require_equals = true, default_value = "dd", global = true, conflicts_with_all = "f910", short = 'J', value_name = "FOO {BAR}")]
    f909: Option<Option<OsString>>,
}
/// About {it}.
#[derive(Parser)]
struct D90 {
    /// Doc of f907.
    #[arg(conflicts_with = "f908", conflicts_with = "f906", default_value = "dd,e", long = "rho_s", require_equals = true, value_delimiter = ',', short = 'b')]
    f907: Vec<OsString>,
    /// Doc of f908.
    #[arg(default_value = "dd", short_alias = '0', conflicts_with_all = "f907", value_name = "[X]", short = 'a', global = true, alias = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", long = "x2")]
    f908: Option<Vec<OsString>>,
    #[command(flatten)]
    g912: D90G0,
    #[arg(default_value = "dd,e", conflicts_with = "f907", value_delimiter = ',', trailing_var_arg = true, requires = "f908")]
    #[arg(value_name = "a-é")]
    f906: Vec<OsString>,
}
impl Told for D90 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[1, 5], ..R }, shown: Shown { as_: "-b, --rho_s=<F907>", doc: &["Doc of f907.", "[default: dd,e]"], hide: false }, ..opt(&["-b", "--rho_s"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "-a, --x2 <[X]>", doc: &["Doc of f908.", "[default: dd]"], hide: false }, ..opt(&["-a", "--x2", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "-0"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[3], ..R }, shown: Shown { as_: "-J, --zeta[=<FOO {BAR}>]", doc: &["[default: dd]"], hide: true }, ..opt(&["-J", "--zeta", "--{}", "-\u{5c}"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{e000}, --delta=<a-é>", doc: &["First {of} f910,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-\u{e000}", "--delta", "--chi", "-I"], Kind::List) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[3], requires: &[2], ..R }, shown: Shown { as_: "-é, --x-y[=<[X]>]", doc: &["First {of} f911,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-é", "--x-y"], Kind::Maybe) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[0], requires: &[1], ..R }, shown: Shown { as_: "[a-é]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f907), olist(&self.f908), maybe(&self.g912.f909), olist(&self.g912.f910), maybe(&self.g912.f911), list(&self.f906)]];
        v
    }
}
// @@ D91
#[derive(Args)]
struct D91G0G0 {
    /// Doc of f918.
    #[arg(conflicts_with = "f916", long = "theta", default_value = "dd", value_name = "[X]", short_alias = 'u', short = 'a', alias = "q\u{22}q", global = true, require_equals = true, requires = "f917")]
    f918: OsString,
    /// Doc of f916.
    #[arg(global = true)]
    #[arg(short = 'o', long = "alpha", require_equals = true, value_name = "a-é", default_value = "dd", conflicts_with_all = "f917")]
    f916: Option<Option<OsString>>,
    #[arg(conflicts_with_all = ["f916"], short_alias = 'é', conflicts_with_all = [], short = '\u{d7ff}', requires = "f918", long = "pi", alias = "iota", default_value_t = "dd".to_string())]
    f917: Option<String>,
}
#[derive(Args)]
struct D91G0 {
    /// Doc of f915.
    #[arg(global = true, short = 'j', long = "Mu")]
    f915: bool,
    #[command(flatten)]
    g920: D91G0G0,
}
#[derive(Args)]
struct D91G1 {
}
/// About {it}.
#[derive(Parser)]
struct D91 {
    #[command(flatten)]
    g921: D91G1,
    #[arg(required = true, short = 'D', requires = "f913", value_name = "a-é", global = true, long = "omicron")]
    #[arg(value_delimiter = ',')]
    f914: Vec<OsString>,
    #[command(flatten)]
    g919: D91G0,
    /// First {of} f913,
    ///
    /// 100% "more".
    #[arg(value_delimiter = ',', conflicts_with = "f914", value_name = "[X]")]
    f913: Option<Vec<OsString>>,
}
impl Told for D91 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { required: true, delimiter: Some(b','), requires: &[5], ..R }, shown: Shown { as_: "-D, --omicron <a-é>", doc: &[], hide: false }, ..opt(&["-D", "--omicron"], Kind::List) },
            Opt { global: true, rules: Rules { ..R }, shown: Shown { as_: "-j, --Mu", doc: &["Doc of f915."], hide: false }, ..opt(&["-j", "--Mu"], Kind::Flag) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[3], ..R }, shown: Shown { as_: "-o, --alpha[=<a-é>]", doc: &["Doc of f916.", "[default: dd]"], hide: false }, ..opt(&["-o", "--alpha"], Kind::Maybe) },
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[2], requires: &[4], ..R }, shown: Shown { as_: "-\u{d7ff}, --pi <F917>", doc: &["[default: dd]"], hide: false }, ..opt(&["-\u{d7ff}", "--pi", "--iota", "-é"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), conflicts: &[2], requires: &[3], ..R }, shown: Shown { as_: "-a, --theta=<[X]>", doc: &["Doc of f918.", "[default: dd]"], hide: false }, ..opt(&["-a", "--theta", "--q\u{22}q", "-u"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { delimiter: Some(b','), conflicts: &[0], ..R }, shown: Shown { as_: "[[X]]...", doc: &["First {of} f913,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f914), flag(self.g919.f915), maybe(&self.g919.g920.f916), one(&self.g919.g920.f917), just(&self.g919.g920.f918), olist(&self.f913)]];
        v
    }
}
// @@ D92
#[derive(Args)]
struct D92AaBbG0G0 {
    /// Doc of f927.
    #[arg(short = 'x', value_delimiter = ',', short_alias = '0')]
    #[arg(long = "kappa", alias = "iota", require_equals = true)]
    f927: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D92AaBbG0 {
    #[command(flatten)]
    g929: D92AaBbG0G0,
    /// Doc of f926.
    #[arg(global = true, value_name = "a-é", short = 'J', require_equals = true, default_value_t = "dd".to_string(), hide = true, long = "a b")]
    f926: Option<String>,
}
/// About {it}.
#[derive(Args)]
struct D92AaBb {
    #[command(flatten)]
    g928: D92AaBbG0,
    /// Doc of f925.
    #[arg(short = 'A', value_name = "FOO {BAR}", long = "kap", default_value_t = "dd".to_string(), global = true)]
    f925: Option<String>,
}
#[derive(Subcommand)]
enum D92Cmd {
    /// About {it}.
    Aa {
        #[arg(value_delimiter = ',', alias = "kap", conflicts_with_all = ["f922"], short = '𐀀', short_alias = 'a', long = "x-y", required = true, require_equals = true, global = true, conflicts_with_all = [])]
        f924: Option<Vec<OsString>>,
        #[arg(required = true, hide = true, value_delimiter = ',')]
        f922: Vec<OsString>,
    },
    AaBb(D92AaBb),
    /// About {it}.
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D92 {
    #[arg(long = "kap", default_value_t = "dd".to_string(), short_alias = '1', exclusive = true, short = 'a', alias = "nu")]
    f923: String,
    #[command(subcommand)]
    cmd: D92Cmd,
}
impl Told for D92 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, exclusive: true, ..R }, shown: Shown { as_: "-a, --kap <F923>", doc: &["[default: dd]"], hide: false }, ..opt(&["-a", "--kap", "--nu", "-1"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1], ..R }, shown: Shown { as_: "-𐀀, --x-y=<F924>", doc: &[], hide: false }, ..opt(&["-𐀀", "--x-y", "--kap", "-a"], Kind::List) },
                ],
                pos: &[
                    Pos { rules: Rules { required: true, delimiter: Some(b','), ..R }, shown: Shown { as_: "<F922>...", doc: &[], hide: true }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-A, --kap <FOO {BAR}>", doc: &["Doc of f925.", "[default: dd]"], hide: false }, ..opt(&["-A", "--kap"], Kind::One) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-J, --a b=<a-é>", doc: &["Doc of f926.", "[default: dd]"], hide: true }, ..opt(&["-J", "--a b"], Kind::One) },
                    Opt { eq: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-x, --kappa=<F927>", doc: &["Doc of f927."], hide: false }, ..opt(&["-x", "--kappa", "--iota", "-0"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f923)]];
        match &self.cmd {
            D92Cmd::Aa { f924, f922 } => {
                v.push(vec![olist(f924), list(f922)]);
            }
            D92Cmd::AaBb(x) => {
                v.push(vec![one(&x.f925), one(&x.g928.f926), olist(&x.g928.g929.f927)]);
            }
            D92Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D93
#[derive(Args)]
struct D93G0 {
}
#[derive(Args)]
struct D93AaG0 {
}
#[derive(Args)]
struct D93AaBbG0 {
    #[arg(default_value_t = "dd".to_string(), short = '\u{80}', long = "kappas", require_equals = true, short_alias = 'w', alias = "iota")]
    f933: Option<String>,
}
#[derive(Subcommand)]
enum D93AaBbCmd {
    /// About {it}.
    Aa {
        /// First {of} f934,
        ///
        /// 100% "more".
        #[arg(short = '\u{80}', long = "omega", value_name = "a-é", required = true, exclusive = true)]
        f934: Option<OsString>,
    },
    /// About {it}.
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D93AaBb {
    #[command(flatten)]
    g937: D93AaBbG0,
    #[command(subcommand)]
    cmd: D93AaBbCmd,
}
#[derive(Subcommand)]
enum D93Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g936: D93AaG0,
        #[arg(last = true, default_value = "dd", value_name = "FOO {BAR}")]
        f930: Option<Vec<OsString>>,
    },
    AaBb(D93AaBb),
    /// About {it}.
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D93 {
    /// Doc of f932.
    #[arg(required = true, require_equals = true, hide = true, short = '\u{80}', long = "nu")]
    #[arg(conflicts_with_all = "f931")]
    f932: OsString,
    /// Doc of f931.
    #[arg(conflicts_with_all = "f932", global = true, short_alias = 'w', short = 'x', require_equals = true, value_name = "FOO {BAR}", required = true, alias = "omega", long = "pi")]
    f931: Option<Vec<OsString>>,
    #[command(flatten)]
    g935: D93G0,
    #[command(subcommand)]
    cmd: Option<D93Cmd>,
}
impl Told for D93 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-x, --pi=<FOO {BAR}>", doc: &["Doc of f931."], hide: false }, ..opt(&["-x", "--pi", "--omega", "-w"], Kind::List) },
            Opt { eq: true, rules: Rules { required: true, conflicts: &[0], ..R }, shown: Shown { as_: "-\u{80}, --nu=<F932>", doc: &["Doc of f932."], hide: true }, ..opt(&["-\u{80}", "--nu"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                    Pos { last: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["[default: dd]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{80}, --kappas=<F933>", doc: &["[default: dd]"], hide: false }, ..opt(&["-\u{80}", "--kappas", "--iota", "-w"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "-\u{80}, --omega <a-é>", doc: &["First {of} f934,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{80}", "--omega"], Kind::One) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.f931), just(&self.f932)]];
        match &self.cmd {
            Some(D93Cmd::Aa { g936, f930 }) => {
                v.push(vec![olist(f930)]);
            }
            Some(D93Cmd::AaBb(x)) => {
                v.push(vec![one(&x.g937.f933)]);
                match &x.cmd {
                    D93AaBbCmd::Aa { f934 } => {
                        v.push(vec![one(f934)]);
                    }
                    D93AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D93Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D94
#[derive(Parser)]
struct D94 {
    /// Doc of f940.
    #[arg(long = "psi", required = true, exclusive = true, requires = "f939", short = 'é', require_equals = true, alias = "beta", short_alias = 'D')]
    f940: Option<Option<OsString>>,
    /// First {of} f939,
    ///
    #[arg(short = 'y', long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", global = true, default_value_t = true)]
    /// 100% "more".
    #[arg(conflicts_with_all = ["f942",], conflicts_with_all = "f940", exclusive = true)]
    f939: bool,
    /// First {of} f942,
    ///
    /// 100% "more".
    #[arg(conflicts_with = "f938", long = "\u{5c}", conflicts_with = "f940", short = 'e', requires = "f939", required = true, requires = "f941")]
    f942: bool,
    /// Doc of f941.
    #[arg(value_name = "[X]", conflicts_with_all = ["f939",])]
    #[arg(conflicts_with_all = "f942", alias = "é-long", requires = "f940", short = '3', default_value_t = true, long = "x", short_alias = 's')]
    f941: bool,
    /// Doc of f938.
    #[arg(conflicts_with = "f942", value_delimiter = ',', required = true, exclusive = true)]
    #[arg(value_name = "a-é")]
    f938: Vec<OsString>,
}
impl Told for D94 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[3, 1], exclusive: true, ..R }, shown: Shown { as_: "-y, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", doc: &["First {of} f939,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-y", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::Flag) },
            Opt { rules: Rules { required: true, requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "-é, --psi[=<F940>]", doc: &["Doc of f940."], hide: false }, ..opt(&["-é", "--psi", "--beta", "-D"], Kind::Maybe) },
            Opt { rules: Rules { default: Some("dd"), conflicts: &[0, 3], requires: &[1], ..R }, shown: Shown { as_: "-3, --x", doc: &["Doc of f941.", "[default: true]"], hide: false }, ..opt(&["-3", "--x", "--é-long", "-s"], Kind::Flag) },
            Opt { rules: Rules { required: true, conflicts: &[4, 1], requires: &[0, 2], ..R }, shown: Shown { as_: "-e, --\u{5c}", doc: &["First {of} f942,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-e", "--\u{5c}"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[3], exclusive: true, ..R }, shown: Shown { as_: "<a-é>...", doc: &["Doc of f938."], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![flag(self.f939), maybe(&self.f940), flag(self.f941), flag(self.f942), list(&self.f938)]];
        v
    }
}
// @@ D95
#[derive(Args)]
struct D95G0 {
    /// First {of} f948,
    ///
    /// 100% "more".
    #[arg(short = '1', conflicts_with = "f949", long = "iota", default_value = "dd", value_name = "FOO {BAR}")]
    f948: OsString,
    #[arg(conflicts_with_all = "f948", short = '→', required = true, long = "kappas", value_name = "[X]", require_equals = true, value_delimiter = ',')]
    f949: Vec<OsString>,
}
/// About {it}.
#[derive(Parser)]
struct D95 {
    /// Doc of f945.
    #[arg(requires = "f943", require_equals = true, alias = "rho_s", value_delimiter = ',', long = "omega", short_alias = '\u{e000}', value_name = "[X]", short = 'C', global = true, required = true)]
    f945: Vec<OsString>,
    #[arg(long = "zeta", requires = "f946", alias = "{}")]
    #[arg(value_name = "a-é", short_alias = '\u{ffff}', short = '\u{22}')]
    f947: Option<Vec<OsString>>,
    /// First {of} f944,
    ///
    #[arg(conflicts_with = "f945")]
    /// 100% "more".
    #[arg(long = "kap", requires = "f947", default_value_t = true, alias = "x2", short = 'ࠀ', short_alias = 'm', value_name = "a-é", requires = "f946")]
    f944: bool,
    #[command(flatten)]
    g950: D95G0,
    #[arg(global = true, default_value_t = true, alias = "x-y", hide = true)]
    #[arg(short = 'p', long = "beta", requires = "f943", short_alias = 'I')]
    f946: bool,
    /// Doc of f943.
    #[arg(default_value = "dd,e", conflicts_with_all = ["f946",], value_name = "FOO {BAR}", value_delimiter = ',', conflicts_with_all = "f944", requires = "f945", last = true)]
    f943: Option<Vec<OsString>>,
}
impl Told for D95 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), conflicts: &[1], requires: &[3, 2], ..R }, shown: Shown { as_: "-ࠀ, --kap", doc: &["First {of} f944,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-ࠀ", "--kap", "--x2", "-m"], Kind::Flag) },
            Opt { eq: true, global: true, rules: Rules { required: true, delimiter: Some(b','), requires: &[6], ..R }, shown: Shown { as_: "-C, --omega=<[X]>", doc: &["Doc of f945."], hide: false }, ..opt(&["-C", "--omega", "--rho_s", "-\u{e000}"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), requires: &[6], ..R }, shown: Shown { as_: "-p, --beta", doc: &["[default: true]"], hide: true }, ..opt(&["-p", "--beta", "--x-y", "-I"], Kind::Flag) },
            Opt { rules: Rules { requires: &[2], ..R }, shown: Shown { as_: "-\u{22}, --zeta <a-é>", doc: &[], hide: false }, ..opt(&["-\u{22}", "--zeta", "--{}", "-\u{ffff}"], Kind::List) },
            Opt { rules: Rules { default: Some("dd"), conflicts: &[5], ..R }, shown: Shown { as_: "-1, --iota <FOO {BAR}>", doc: &["First {of} f948,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-1", "--iota"], Kind::One) },
            Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[4], ..R }, shown: Shown { as_: "-→, --kappas=<[X]>", doc: &[], hide: false }, ..opt(&["-→", "--kappas"], Kind::List) },
        ],
        pos: &[
            Pos { last: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[2, 0], requires: &[1], ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["Doc of f943.", "[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![flag(self.f944), list(&self.f945), flag(self.f946), olist(&self.f947), just(&self.g950.f948), list(&self.g950.f949), olist(&self.f943)]];
        v
    }
}
// @@ D96
#[derive(Args)]
struct D96G0 {
    #[arg(default_value = "dd", short_alias = '߿', long = "x-y", requires = "f956", alias = "pi", short = '😀', value_name = "[X]", requires = "f954")]
    f955: OsString,
    /// Doc of f956.
    #[arg(requires = "f955", alias = "kap", default_value_t = "dd".to_string(), short_alias = 'k', long = "delta")]
    #[arg(short = 'r', requires = "f954", value_name = "FOO {BAR}")]
    f956: Option<String>,
    #[arg(required = true, conflicts_with = "f956", value_name = "FOO {BAR}", conflicts_with = "f955", short = ' ', short_alias = '0', long = "kappa", alias = "alpha")]
    f954: bool,
}
#[derive(Args)]
struct D96G1 {
    #[arg(require_equals = true, value_name = "[X]", long = "zeta", default_value = "dd,e")]
    #[arg(global = true, value_delimiter = ',', short = 'u')]
    f957: Vec<OsString>,
}
#[derive(Args)]
struct D96G2 {
    #[arg(short = 'b', default_value_t = true, alias = "\u{5c}", long = "x2", short_alias = 'D', global = true, hide = true)]
    f958: bool,
}
#[derive(Parser)]
struct D96 {
    #[command(flatten)]
    g960: D96G1,
    #[command(flatten)]
    g959: D96G0,
    /// First {of} f953,
    ///
    /// 100% "more".
    #[arg(short = 'p', alias = "omicron", short_alias = 't', long = "rho_s", value_name = "[X]")]
    f953: bool,
    #[command(flatten)]
    g961: D96G2,
    #[arg(value_name = "[X]", required = true, conflicts_with_all = ["f952"], conflicts_with_all = ["f953"])]
    f951: OsString,
    /// Doc of f952.
    #[arg(value_name = "a-é", conflicts_with_all = "f953", requires = "f951")]
    #[arg(last = true, default_value = "dd")]
    f952: Option<Vec<OsString>>,
}
impl Told for D96 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { ..R }, shown: Shown { as_: "-p, --rho_s", doc: &["First {of} f953,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-p", "--rho_s", "--omicron", "-t"], Kind::Flag) },
            Opt { rules: Rules { required: true, conflicts: &[3, 2], ..R }, shown: Shown { as_: "- , --kappa", doc: &[], hide: false }, ..opt(&["- ", "--kappa", "--alpha", "-0"], Kind::Flag) },
            Opt { rules: Rules { default: Some("dd"), requires: &[3, 1], ..R }, shown: Shown { as_: "-😀, --x-y <[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["-😀", "--x-y", "--pi", "-߿"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, requires: &[2, 1], ..R }, shown: Shown { as_: "-r, --delta <FOO {BAR}>", doc: &["Doc of f956.", "[default: dd]"], hide: false }, ..opt(&["-r", "--delta", "--kap", "-k"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-u, --zeta=<[X]>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-u", "--zeta"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-b, --x2", doc: &["[default: true]"], hide: true }, ..opt(&["-b", "--x2", "--\u{5c}", "-D"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, conflicts: &[7, 0], ..R }, shown: Shown { as_: "<[X]>", doc: &[], hide: false }, ..pos(false) },
            Pos { last: true, rules: Rules { default: Some("dd"), conflicts: &[0], requires: &[6], ..R }, shown: Shown { as_: "[a-é]...", doc: &["Doc of f952.", "[default: dd]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![flag(self.f953), flag(self.g959.f954), just(&self.g959.f955), one(&self.g959.f956), list(&self.g960.f957), flag(self.g961.f958), just(&self.f951), olist(&self.f952)]];
        v
    }
}
// @@ D97
#[derive(Args)]
struct D97AaG0 {
    /// First {of} f970,
    ///
    /// 100% "more".
    #[arg(long = "h", require_equals = true, short = '\u{80}', value_name = "FOO {BAR}", conflicts_with = "f971")]
    f970: Option<Option<OsString>>,
    /// First {of} f971,
    ///
    #[arg(conflicts_with_all = ["f970"], value_name = "[X]", long = "delta", short = '0')]
    /// 100% "more".
    #[arg(required = true, global = true, conflicts_with_all = [])]
    f971: bool,
}
#[derive(Args)]
struct D97AaBb {
    /// Doc of f962.
    #[arg(default_value = "dd", conflicts_with = "f963", exclusive = true, conflicts_with_all = ["f964"])]
    f962: OsString,
    /// Doc of f964.
    #[arg(conflicts_with_all = "f962", value_name = "[X]", default_value = "dd", hide = true)]
    f964: OsString,
    /// Doc of f963.
    #[arg(exclusive = true, requires = "f964", value_delimiter = ',', last = true, requires = "f962")]
    f963: Vec<OsString>,
}
#[derive(Subcommand)]
enum D97Cmd {
    Aa {
        #[arg(long = "eta", short = 'o', conflicts_with = "f965", default_value_t = true, global = true, value_name = "FOO {BAR}")]
        f969: bool,
        #[command(flatten)]
        g972: D97AaG0,
        /// Doc of f965.
        #[arg(requires = "f969", required = true, value_name = "[X]")]
        f965: Option<OsString>,
    },
    AaBb(D97AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D97 {
    #[arg(exclusive = true, global = true, hide = true, default_value = "dd")]
    #[arg(long = "alpha", short = 'q')]
    f968: OsString,
    #[arg(short_alias = '𐀀', alias = "x2", default_value = "dd,e", conflicts_with = "f968", value_name = "FOO {BAR}", short = 'G', require_equals = true, requires = "f967", value_delimiter = ',', long = "h")]
    f966: Vec<OsString>,
    /// First {of} f967,
    ///
    /// 100% "more".
    #[arg(hide = true, required = true, alias = "delta", long = "eta", require_equals = true, global = true, value_name = "a-é", short_alias = '\u{80}', short = 'o')]
    f967: Vec<OsString>,
    #[command(subcommand)]
    cmd: D97Cmd,
}
impl Told for D97 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[2], requires: &[1], ..R }, shown: Shown { as_: "-G, --h=<FOO {BAR}>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-G", "--h", "--x2", "-𐀀"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-o, --eta=<a-é>", doc: &["First {of} f967,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-o", "--eta", "--delta", "-\u{80}"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), exclusive: true, ..R }, shown: Shown { as_: "-q, --alpha <F968>", doc: &["[default: dd]"], hide: true }, ..opt(&["-q", "--alpha"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[3], ..R }, shown: Shown { as_: "-o, --eta", doc: &["[default: true]"], hide: false }, ..opt(&["-o", "--eta"], Kind::Flag) },
                    Opt { rules: Rules { conflicts: &[2], ..R }, shown: Shown { as_: "-\u{80}, --h[=<FOO {BAR}>]", doc: &["First {of} f970,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{80}", "--h"], Kind::Maybe) },
                    Opt { global: true, rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-0, --delta", doc: &["First {of} f971,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-0", "--delta"], Kind::Flag) },
                ],
                pos: &[
                    Pos { rules: Rules { required: true, requires: &[0], ..R }, shown: Shown { as_: "<[X]>", doc: &["Doc of f965."], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("dd"), conflicts: &[2, 1], exclusive: true, ..R }, shown: Shown { as_: "[F962]", doc: &["Doc of f962.", "[default: dd]"], hide: false }, ..pos(false) },
                    Pos { rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "[[X]]", doc: &["Doc of f964.", "[default: dd]"], hide: true }, ..pos(false) },
                    Pos { last: true, rules: Rules { delimiter: Some(b','), requires: &[1, 0], exclusive: true, ..R }, shown: Shown { as_: "[F963]...", doc: &["Doc of f963."], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f966), list(&self.f967), just(&self.f968)]];
        match &self.cmd {
            D97Cmd::Aa { f969, g972, f965 } => {
                v.push(vec![flag(*f969), maybe(&g972.f970), flag(g972.f971), one(f965)]);
            }
            D97Cmd::AaBb(x) => {
                v.push(vec![just(&x.f962), just(&x.f964), list(&x.f963)]);
            }
            D97Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D98
#[derive(Args)]
struct D98AaG0G0 {
}
#[derive(Args)]
struct D98AaG0 {
    #[command(flatten)]
    g983: D98AaG0G0,
}
#[derive(Args)]
struct D98AaBbG0 {
    #[arg(default_value = "dd", long = "h")]
    #[arg(short = '�', require_equals = true)]
    f979: Option<Option<OsString>>,
}
#[derive(Args)]
struct D98AaBbAaG0 {
}
#[derive(Subcommand)]
enum D98AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g985: D98AaBbAaG0,
        #[arg(short = 'F', long = "h", conflicts_with = "f980")]
        f981: Vec<OsString>,
        /// Doc of f980.
        #[arg(conflicts_with_all = ["f981"], long = "{}", default_value = "dd", global = true, value_name = "FOO {BAR}", hide = true, conflicts_with_all = [], short = '�')]
        f980: Option<OsString>,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D98AaBb {
    #[command(flatten)]
    g984: D98AaBbG0,
    #[command(subcommand)]
    cmd: D98AaBbCmd,
}
#[derive(Subcommand)]
enum D98Cmd {
    /// About {it}.
    Aa {
        #[command(flatten)]
        g982: D98AaG0,
        #[arg(value_name = "FOO {BAR}", trailing_var_arg = true, required = true)]
        f975: Vec<OsString>,
    },
    AaBb(D98AaBb),
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D98 {
    /// Doc of f976.
    #[arg(short = 'y', requires = "f977", require_equals = true, exclusive = true, global = true, long = "tau", required = true, requires = "f974")]
    f976: OsString,
    /// Doc of f978.
    #[arg(short = '\u{d7ff}', global = true, alias = "beta", default_value = "dd", long = "omega", exclusive = true, conflicts_with = "f976", short_alias = 'a')]
    f978: Option<OsString>,
    /// First {of} f977,
    ///
    /// 100% "more".
    #[arg(short_alias = 'i', short = 'F', long = "eta", exclusive = true, alias = "nu", required = true, require_equals = true, requires = "f973")]
    f977: OsString,
    /// Doc of f974.
    #[arg(conflicts_with_all = ["f978"], value_name = "FOO {BAR}", conflicts_with_all = [])]
    #[arg(required = true, exclusive = true)]
    f974: Option<OsString>,
    /// Doc of f973.
    #[arg(conflicts_with = "f978")]
    #[arg(required = true, value_name = "a-é", exclusive = true, value_delimiter = ',')]
    f973: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D98Cmd,
}
impl Told for D98 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { required: true, requires: &[1, 3], exclusive: true, ..R }, shown: Shown { as_: "-y, --tau=<F976>", doc: &["Doc of f976."], hide: false }, ..opt(&["-y", "--tau"], Kind::One) },
            Opt { eq: true, rules: Rules { required: true, requires: &[4], exclusive: true, ..R }, shown: Shown { as_: "-F, --eta=<F977>", doc: &["First {of} f977,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-F", "--eta", "--nu", "-i"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "-\u{d7ff}, --omega <F978>", doc: &["Doc of f978.", "[default: dd]"], hide: false }, ..opt(&["-\u{d7ff}", "--omega", "--beta", "-a"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "<FOO {BAR}>", doc: &["Doc of f974."], hide: false }, ..pos(false) },
            Pos { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "<a-é>...", doc: &["Doc of f973."], hide: false }, ..pos(true) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "<FOO {BAR}>...", doc: &[], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-�, --h[=<F979>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-�", "--h"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[1], ..R }, shown: Shown { as_: "-�, --{} <FOO {BAR}>", doc: &["Doc of f980.", "[default: dd]"], hide: true }, ..opt(&["-�", "--{}"], Kind::One) },
                            Opt { rules: Rules { conflicts: &[0], ..R }, shown: Shown { as_: "-F, --h <F981>", doc: &[], hide: false }, ..opt(&["-F", "--h"], Kind::List) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: true,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f976), just(&self.f977), one(&self.f978), one(&self.f974), olist(&self.f973)]];
        match &self.cmd {
            D98Cmd::Aa { g982, f975 } => {
                v.push(vec![list(f975)]);
            }
            D98Cmd::AaBb(x) => {
                v.push(vec![maybe(&x.g984.f979)]);
                match &x.cmd {
                    D98AaBbCmd::Aa { f980, f981, g985 } => {
                        v.push(vec![one(f980), list(f981)]);
                    }
                    D98AaBbCmd::Zz => v.push(vec![]),
                }
            }
            D98Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D99
/// About {it}.
#[derive(Parser)]
struct D99 {
    /// Doc of f991.
    #[arg(conflicts_with_all = ["f988",], value_delimiter = ',', value_name = "FOO {BAR}", short = '𐀀', short_alias = '\u{e000}', alias = "a b", long = "psi", conflicts_with_all = "f992", requires = "f986", require_equals = true, required = true)]
    f991: Option<Vec<OsString>>,
    #[arg(long = "x2", conflicts_with_all = ["f987"])]
    #[arg(conflicts_with_all = [], requires = "f992", short = 'H', requires = "f989")]
    f990: Option<Vec<OsString>>,
    /// First {of} f992,
    ///
    /// 100% "more".
    #[arg(long = "{}", conflicts_with = "f989", conflicts_with = "f986", global = true, requires = "f990", short = '߿', requires = "f988")]
    f992: bool,
    /// First {of} f994,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = ["f992"], long = "zeta", short = '3', conflicts_with_all = ["f986"], global = true, value_delimiter = ',', required = true)]
    f994: Vec<OsString>,
    #[arg(required = true, long = "theta", value_delimiter = ',', value_name = "[X]", requires = "f994", short = 'A', exclusive = true, requires = "f992")]
    f989: Option<Vec<OsString>>,
    /// Doc of f993.
    #[arg(conflicts_with = "f990", requires = "f988", short = 'F', required = true, requires = "f986", long = "nu", value_name = "FOO {BAR}")]
    #[arg(global = true)]
    f993: Option<OsString>,
    /// First {of} f987,
    ///
    /// 100% "more".
    #[arg(required = true, requires = "f990", requires = "f994")]
    f987: OsString,
    /// First {of} f988,
    ///
    #[arg(conflicts_with_all = ["f992"], value_name = "FOO {BAR}", conflicts_with_all = [], requires = "f986")]
    /// 100% "more".
    #[arg(requires = "f993")]
    f988: Option<OsString>,
    #[arg(value_delimiter = ',', value_name = "FOO {BAR}", conflicts_with = "f989", trailing_var_arg = true, conflicts_with_all = ["f987"])]
    f986: Option<Vec<OsString>>,
}
impl Told for D99 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, delimiter: Some(b','), requires: &[5, 3], exclusive: true, ..R }, shown: Shown { as_: "-A, --theta <[X]>", doc: &[], hide: false }, ..opt(&["-A", "--theta"], Kind::List) },
            Opt { rules: Rules { conflicts: &[6], requires: &[3, 0], ..R }, shown: Shown { as_: "-H, --x2 <F990>", doc: &[], hide: false }, ..opt(&["-H", "--x2"], Kind::List) },
            Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[7, 3], requires: &[8], ..R }, shown: Shown { as_: "-𐀀, --psi=<FOO {BAR}>", doc: &["Doc of f991."], hide: false }, ..opt(&["-𐀀", "--psi", "--a b", "-\u{e000}"], Kind::List) },
            Opt { global: true, rules: Rules { conflicts: &[0, 8], requires: &[1, 7], ..R }, shown: Shown { as_: "-߿, --{}", doc: &["First {of} f992,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-߿", "--{}"], Kind::Flag) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[1], requires: &[7, 8], ..R }, shown: Shown { as_: "-F, --nu <FOO {BAR}>", doc: &["Doc of f993."], hide: false }, ..opt(&["-F", "--nu"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[3, 8], ..R }, shown: Shown { as_: "-3, --zeta <F994>", doc: &["First {of} f994,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-3", "--zeta"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, requires: &[1, 5], ..R }, shown: Shown { as_: "<F987>", doc: &["First {of} f987,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
            Pos { rules: Rules { conflicts: &[3], requires: &[8, 4], ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["First {of} f988,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
            Pos { trailing: true, rules: Rules { delimiter: Some(b','), conflicts: &[0, 6], ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &[], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![olist(&self.f989), olist(&self.f990), olist(&self.f991), flag(self.f992), one(&self.f993), list(&self.f994), just(&self.f987), one(&self.f988), olist(&self.f986)]];
        v
    }
}
// @@ D100
#[derive(Args)]
struct D100G0 {
    /// Doc of f1001.
    #[arg(short_alias = 'B', hide = true, conflicts_with = "f1000", alias = "omicron", short = 'G', value_name = "[X]", conflicts_with_all = ["f1002"], global = true, long = "kappas", default_value_t = "dd".to_string(), require_equals = true)]
    f1001: String,
    #[arg(value_name = "FOO {BAR}", long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", short = 'u')]
    #[arg(requires = "f1002", requires = "f1001", global = true)]
    f1000: bool,
    /// First {of} f1002,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = ["f1000"], required = true, value_name = "FOO {BAR}", short = '2', conflicts_with_all = [], long = "h", global = true, require_equals = true)]
    f1002: Option<Vec<OsString>>,
}
/// About {it}.
#[derive(Parser)]
struct D100 {
    #[arg(long = "é-long", short = '→', requires = "f997", required = true, value_name = "FOO {BAR}")]
    f999: bool,
    /// First {of} f997,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = ["f996"], conflicts_with_all = ["f995"], requires = "f999", short_alias = 'z', alias = "alpha", requires = "f998", short = 'l', long = "omega", required = true)]
    f997: OsString,
    #[command(flatten)]
    g1003: D100G0,
    /// Doc of f998.
    #[arg(short = '3', default_value = "dd", value_name = "FOO {BAR}", require_equals = true, conflicts_with_all = "f997", global = true, long = "helper")]
    f998: Option<Option<OsString>>,
    /// First {of} f995,
    ///
    /// 100% "more".
    #[arg(conflicts_with = "f996", value_delimiter = ',', requires = "f999", required = true, requires = "f997")]
    f995: Vec<OsString>,
    /// First {of} f996,
    ///
    #[arg(conflicts_with = "f997", required = true, requires = "f998")]
    /// 100% "more".
    #[arg(last = true)]
    f996: Vec<OsString>,
}
impl Told for D100 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, conflicts: &[7, 6], requires: &[2, 1], ..R }, shown: Shown { as_: "-l, --omega <F997>", doc: &["First {of} f997,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-l", "--omega", "--alpha", "-z"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "-3, --helper[=<FOO {BAR}>]", doc: &["Doc of f998.", "[default: dd]"], hide: false }, ..opt(&["-3", "--helper"], Kind::Maybe) },
            Opt { rules: Rules { required: true, requires: &[0], ..R }, shown: Shown { as_: "-→, --é-long", doc: &[], hide: false }, ..opt(&["-→", "--é-long"], Kind::Flag) },
            Opt { global: true, rules: Rules { requires: &[5, 4], ..R }, shown: Shown { as_: "-u, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", doc: &[], hide: false }, ..opt(&["-u", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::Flag) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[3, 5], ..R }, shown: Shown { as_: "-G, --kappas=<[X]>", doc: &["Doc of f1001.", "[default: dd]"], hide: true }, ..opt(&["-G", "--kappas", "--omicron", "-B"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { required: true, conflicts: &[3], ..R }, shown: Shown { as_: "-2, --h=<FOO {BAR}>", doc: &["First {of} f1002,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-2", "--h"], Kind::List) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[7], requires: &[2, 0], ..R }, shown: Shown { as_: "<F995>...", doc: &["First {of} f995,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
            Pos { last: true, rules: Rules { required: true, conflicts: &[0], requires: &[1], ..R }, shown: Shown { as_: "<F996>...", doc: &["First {of} f996,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.f997), maybe(&self.f998), flag(self.f999), flag(self.g1003.f1000), just(&self.g1003.f1001), olist(&self.g1003.f1002), list(&self.f995), list(&self.f996)]];
        v
    }
}
// @@ D101
#[derive(Args)]
struct D101AaBb {
    #[arg(required = true, short = 'z', alias = "é-long")]
    #[arg(short_alias = 'v', global = true, conflicts_with_all = "f1013", requires = "f1012", long = "zeta", require_equals = true)]
    f1011: OsString,
    /// Doc of f1013.
    #[arg(exclusive = true, short = 'F', short_alias = 'D', alias = "Mu", long = "{}", requires = "f1006", requires = "f1012", default_value = "")]
    f1013: Vec<OsString>,
    /// Doc of f1012.
    #[arg(conflicts_with_all = "f1006", long = "a b", alias = "kappa")]
    #[arg(requires = "f1011", short = 'f', require_equals = true, value_name = "a-é", global = true, required = true, short_alias = 'E')]
    f1012: Option<Option<OsString>>,
    /// Doc of f1006.
    #[arg(hide = true, requires = "f1013", value_name = "[X]", requires = "f1012", exclusive = true, trailing_var_arg = true, required = true, value_delimiter = ',')]
    f1006: Option<Vec<OsString>>,
}
#[derive(Subcommand)]
enum D101Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f1009.
        #[arg(default_value = "dd,e", conflicts_with = "f1010", alias = "é-long", short_alias = 'ࠀ', long = "Mu", global = true, short = 'F', value_delimiter = ',', conflicts_with_all = ["f1005"], requires = "f1007", require_equals = true)]
        f1009: Vec<OsString>,
        /// First {of} f1010,
        ///
        /// 100% "more".
        #[arg(default_value = "dd,e", short_alias = '1', long = "{}", alias = "a b", hide = true, value_delimiter = ',', global = true, short = 'f', requires = "f1009")]
        f1010: Option<Vec<OsString>>,
        #[arg(conflicts_with = "f1010", trailing_var_arg = true, value_delimiter = ',')]
        #[arg(value_name = "FOO {BAR}", requires = "f1005", required = true)]
        f1007: Option<Vec<OsString>>,
        #[arg(conflicts_with_all = ["f1010",], required = true, conflicts_with_all = "f1009", value_delimiter = ',', last = true)]
        #[arg(value_name = "[X]", requires = "f1007")]
        f1005: Vec<OsString>,
    },
    AaBb(D101AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D101 {
    /// Doc of f1008.
    #[arg(short = 'F', alias = "é-long", default_value_t = "dd".to_string(), conflicts_with = "f1004", long = "{}", short_alias = 'f')]
    f1008: Option<String>,
    /// Doc of f1004.
    #[arg(default_value = "dd,e", value_name = "a-é", conflicts_with_all = "f1008", value_delimiter = ',', exclusive = true)]
    f1004: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<D101Cmd>,
}
impl Told for D101 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1], ..R }, shown: Shown { as_: "-F, --{} <F1008>", doc: &["Doc of f1008.", "[default: dd]"], hide: false }, ..opt(&["-F", "--{}", "--é-long", "-f"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "[a-é]...", doc: &["Doc of f1004.", "[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[1, 3], requires: &[2], ..R }, shown: Shown { as_: "-F, --Mu=<F1009>", doc: &["Doc of f1009.", "[default: dd,e]"], hide: false }, ..opt(&["-F", "--Mu", "--é-long", "-ࠀ"], Kind::List) },
                    Opt { global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[0], ..R }, shown: Shown { as_: "-f, --{} <F1010>", doc: &["First {of} f1010,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: true }, ..opt(&["-f", "--{}", "--a b", "-1"], Kind::List) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1], requires: &[3], ..R }, shown: Shown { as_: "<FOO {BAR}>...", doc: &[], hide: false }, ..pos(true) },
                    Pos { last: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1, 0], requires: &[2], ..R }, shown: Shown { as_: "<[X]>...", doc: &[], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, conflicts: &[2], requires: &[1], ..R }, shown: Shown { as_: "-z, --zeta=<F1011>", doc: &[], hide: false }, ..opt(&["-z", "--zeta", "--é-long", "-v"], Kind::One) },
                    Opt { global: true, rules: Rules { required: true, conflicts: &[3], requires: &[0], ..R }, shown: Shown { as_: "-f, --a b[=<a-é>]", doc: &["Doc of f1012."], hide: false }, ..opt(&["-f", "--a b", "--kappa", "-E"], Kind::Maybe) },
                    Opt { rules: Rules { default: Some(""), requires: &[3, 1], exclusive: true, ..R }, shown: Shown { as_: "-F, --{} <F1013>", doc: &["Doc of f1013.", "[default: ]"], hide: false }, ..opt(&["-F", "--{}", "--Mu", "-D"], Kind::List) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { required: true, delimiter: Some(b','), requires: &[2, 1], exclusive: true, ..R }, shown: Shown { as_: "<[X]>...", doc: &["Doc of f1006."], hide: true }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![one(&self.f1008), list(&self.f1004)]];
        match &self.cmd {
            Some(D101Cmd::Aa { f1009, f1010, f1007, f1005 }) => {
                v.push(vec![list(f1009), olist(f1010), olist(f1007), list(f1005)]);
            }
            Some(D101Cmd::AaBb(x)) => {
                v.push(vec![just(&x.f1011), maybe(&x.f1012), list(&x.f1013), olist(&x.f1006)]);
            }
            Some(D101Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D102
#[derive(Args)]
struct D102G0G0 {
}
#[derive(Args)]
struct D102G0 {
    #[command(flatten)]
    g1024: D102G0G0,
}
#[derive(Args)]
struct D102AaG0G0 {
}
#[derive(Args)]
struct D102AaG0 {
    #[command(flatten)]
    g1026: D102AaG0G0,
}
#[derive(Args)]
struct D102AaBbAaG0G0 {
}
#[derive(Args)]
struct D102AaBbAaG0 {
    #[command(flatten)]
    g1028: D102AaBbAaG0G0,
}
#[derive(Subcommand)]
enum D102AaBbCmd {
    /// About {it}.
    Aa {
        #[command(flatten)]
        g1027: D102AaBbAaG0,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D102AaBb {
    /// First {of} f1021,
    ///
    /// 100% "more".
    #[arg(long = "x", short_alias = 'J', default_value_t = "dd".to_string(), short = 'v', conflicts_with = "f1014", conflicts_with = "f1018", requires = "f1022", alias = "iota")]
    f1021: Option<String>,
    /// Doc of f1020.
    #[arg(default_value = "dd", conflicts_with = "f1018", exclusive = true, require_equals = true, alias = "beta", value_name = "FOO {BAR}", short_alias = 'A', long = "\u{5c}", conflicts_with_all = ["f1019"], short = 'C')]
    f1020: Option<Option<OsString>>,
    /// Doc of f1018.
    #[arg(default_value_t = "dd".to_string(), global = true, short = '\u{ffff}', conflicts_with = "f1019", long = "phi+", requires = "f1014", value_name = "a-é", requires = "f1022", require_equals = true)]
    f1018: String,
    /// First {of} f1019,
    ///
    /// 100% "more".
    #[arg(value_delimiter = ',', short = '→', exclusive = true, conflicts_with_all = ["f1018"], conflicts_with_all = ["f1021"], long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", value_name = "FOO {BAR}")]
    f1019: Option<Vec<OsString>>,
    /// Doc of f1022.
    #[arg(global = true, default_value_t = "dd".to_string(), exclusive = true, short = 'ࠀ', hide = true, value_name = "FOO {BAR}", requires = "f1019", require_equals = true, long = "kappas")]
    f1022: Option<String>,
    /// First {of} f1014,
    ///
    /// 100% "more".
    #[arg(default_value = "dd", exclusive = true)]
    f1014: Option<OsString>,
    #[command(subcommand)]
    cmd: Option<D102AaBbCmd>,
}
#[derive(Subcommand)]
enum D102Cmd {
    Aa {
        #[command(flatten)]
        g1025: D102AaG0,
        #[arg(alias = "phi+", long = "beta", short_alias = 'A', require_equals = true, conflicts_with_all = "f1015")]
        #[arg(short = 'v', global = true)]
        f1017: Option<Option<OsString>>,
        /// First {of} f1015,
        ///
        /// 100% "more".
        #[arg(conflicts_with = "f1017", hide = true, default_value = "dd")]
        f1015: OsString,
    },
    AaBb(D102AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D102 {
    #[command(flatten)]
    g1023: D102G0,
    /// Doc of f1016.
    #[arg(required = true)]
    f1016: OsString,
    #[command(subcommand)]
    cmd: D102Cmd,
}
impl Told for D102 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
            Pos { rules: Rules { required: true, ..R }, shown: Shown { as_: "<F1016>", doc: &["Doc of f1016."], hide: false }, ..pos(false) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { global: true, rules: Rules { conflicts: &[1], ..R }, shown: Shown { as_: "-v, --beta[=<F1017>]", doc: &[], hide: false }, ..opt(&["-v", "--beta", "--phi+", "-A"], Kind::Maybe) },
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "[F1015]", doc: &["First {of} f1015,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1], requires: &[5, 4], ..R }, shown: Shown { as_: "-\u{ffff}, --phi+=<a-é>", doc: &["Doc of f1018.", "[default: dd]"], hide: false }, ..opt(&["-\u{ffff}", "--phi+"], Kind::One) },
                    Opt { rules: Rules { delimiter: Some(b','), conflicts: &[0, 3], exclusive: true, ..R }, shown: Shown { as_: "-→, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <FOO {BAR}>", doc: &["First {of} f1019,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-→", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::List) },
                    Opt { rules: Rules { default: Some("dd"), conflicts: &[0, 1], exclusive: true, ..R }, shown: Shown { as_: "-C, --\u{5c}[=<FOO {BAR}>]", doc: &["Doc of f1020.", "[default: dd]"], hide: false }, ..opt(&["-C", "--\u{5c}", "--beta", "-A"], Kind::Maybe) },
                    Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[5, 0], requires: &[4], ..R }, shown: Shown { as_: "-v, --x <F1021>", doc: &["First {of} f1021,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-v", "--x", "--iota", "-J"], Kind::One) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "-ࠀ, --kappas=<FOO {BAR}>", doc: &["Doc of f1022.", "[default: dd]"], hide: true }, ..opt(&["-ࠀ", "--kappas"], Kind::One) },
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("dd"), exclusive: true, ..R }, shown: Shown { as_: "[F1014]", doc: &["First {of} f1014,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..pos(false) },
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f1016)]];
        match &self.cmd {
            D102Cmd::Aa { f1017, g1025, f1015 } => {
                v.push(vec![maybe(f1017), just(f1015)]);
            }
            D102Cmd::AaBb(x) => {
                v.push(vec![just(&x.f1018), olist(&x.f1019), maybe(&x.f1020), one(&x.f1021), one(&x.f1022), one(&x.f1014)]);
                match &x.cmd {
                    Some(D102AaBbCmd::Aa { g1027 }) => {
                        v.push(vec![]);
                    }
                    Some(D102AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            D102Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D103
#[derive(Args)]
struct D103G0G0 {
}
#[derive(Args)]
struct D103G0 {
    #[arg(require_equals = true, short = 'r', default_value = "", long = "psi", hide = true, short_alias = '\u{10ffff}', alias = "pi")]
    f1037: Option<Option<OsString>>,
    #[command(flatten)]
    g1039: D103G0G0,
}
/// About {it}.
#[derive(Parser)]
struct D103 {
    /// Doc of f1032.
    #[arg(default_value = "dd")]
    #[arg(value_name = "a-é", requires = "f1031", requires = "f1029", global = true, long = "h", require_equals = true, short = 'D')]
    f1032: Option<OsString>,
    #[command(flatten)]
    g1038: D103G0,
    /// Doc of f1033.
    #[arg(value_name = "a-é", hide = true, conflicts_with_all = ["f1030"], conflicts_with_all = [], global = true)]
    #[arg(required = true, requires = "f1034", long = "beta", short = 'g')]
    f1033: bool,
    /// First {of} f1034,
    ///
    #[arg(conflicts_with = "f1031", default_value_t = "dd".to_string(), short = 'v', long = "x2", value_name = "a-é")]
    /// 100% "more".
    #[arg(global = true, conflicts_with = "f1030")]
    f1034: Option<String>,
    #[arg(long = "é-long", conflicts_with = "f1032", default_value = "dd", alias = "kappa")]
    #[arg(global = true, short = 'w', short_alias = 'x', requires = "f1034")]
    f1036: OsString,
    #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", conflicts_with = "f1030", value_name = "FOO {BAR}", conflicts_with_all = ["f1033"], requires = "f1031", required = true)]
    #[arg(short = 'G', require_equals = true, global = true)]
    f1035: Option<Option<OsString>>,
    /// First {of} f1029,
    ///
    /// 100% "more".
    #[arg(default_value = "dd", value_name = "a-é", conflicts_with = "f1030")]
    f1029: Option<OsString>,
    /// First {of} f1030,
    ///
    #[arg(conflicts_with = "f1034")]
    /// 100% "more".
    #[arg(trailing_var_arg = true, conflicts_with = "f1036", value_delimiter = ',', requires = "f1035", required = true, value_name = "FOO {BAR}")]
    f1030: Vec<OsString>,
    /// Doc of f1031.
    #[arg(required = true, last = true, value_delimiter = ',', hide = true)]
    f1031: Option<Vec<OsString>>,
}
impl Told for D103 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), requires: &[8, 6], ..R }, shown: Shown { as_: "-D, --h=<a-é>", doc: &["Doc of f1032.", "[default: dd]"], hide: false }, ..opt(&["-D", "--h"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[7], requires: &[2], ..R }, shown: Shown { as_: "-g, --beta", doc: &["Doc of f1033."], hide: true }, ..opt(&["-g", "--beta"], Kind::Flag) },
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[8, 7], ..R }, shown: Shown { as_: "-v, --x2 <a-é>", doc: &["First {of} f1034,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-v", "--x2"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[7, 1], requires: &[8], ..R }, shown: Shown { as_: "-G, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn[=<FOO {BAR}>]", doc: &[], hide: false }, ..opt(&["-G", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::Maybe) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[0], requires: &[2], ..R }, shown: Shown { as_: "-w, --é-long <F1036>", doc: &["[default: dd]"], hide: false }, ..opt(&["-w", "--é-long", "--kappa", "-x"], Kind::One) },
            Opt { rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "-r, --psi[=<F1037>]", doc: &["[default: ]"], hide: true }, ..opt(&["-r", "--psi", "--pi", "-\u{10ffff}"], Kind::Maybe) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), conflicts: &[7], ..R }, shown: Shown { as_: "[a-é]", doc: &["First {of} f1029,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..pos(false) },
            Pos { trailing: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[2, 4], requires: &[3], ..R }, shown: Shown { as_: "<FOO {BAR}>...", doc: &["First {of} f1030,", "100% \u{22}more\u{22}."], hide: false }, ..pos(true) },
            Pos { last: true, rules: Rules { required: true, delimiter: Some(b','), ..R }, shown: Shown { as_: "<F1031>...", doc: &["Doc of f1031."], hide: true }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f1032), flag(self.f1033), one(&self.f1034), maybe(&self.f1035), just(&self.f1036), maybe(&self.g1038.f1037), one(&self.f1029), list(&self.f1030), olist(&self.f1031)]];
        v
    }
}
// @@ D104
#[derive(Args)]
struct D104G0 {
    /// Doc of f1048.
    #[arg(short_alias = 'a', long = "omicron", default_value_t = "dd".to_string(), short = '\u{5c}', require_equals = true, alias = "nu")]
    f1048: Option<String>,
    /// First {of} f1046,
    ///
    /// 100% "more".
    #[arg(alias = "a b", value_name = "a-é", long = "kap", require_equals = true, short = 'k', default_value_t = "dd".to_string(), short_alias = '3')]
    f1046: String,
    /// First {of} f1047,
    ///
    #[arg(conflicts_with_all = ["f1046",])]
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", conflicts_with_all = "f1048", hide = true, short_alias = '\u{80}', short = 'q', default_value = "", requires = "f1044", requires = "f1045", global = true, alias = "é-long", require_equals = true, long = "kappas")]
    f1047: Option<Vec<OsString>>,
    #[arg(require_equals = true, conflicts_with_all = ["f1047"], conflicts_with_all = ["f1048"], short = 'm', long = "gamma", default_value = "dd", alias = "eps-i", requires = "f1045", global = true, requires = "f1046", short_alias = 'F')]
    f1044: Option<Option<OsString>>,
    /// First {of} f1045,
    ///
    /// 100% "more".
    #[arg(require_equals = true, conflicts_with_all = ["f1046",], short_alias = '{', long = "\u{5c}", default_value = "dd", alias = "phi+", short = 'o', conflicts_with_all = "f1044")]
    f1045: Vec<OsString>,
}
/// About {it}.
#[derive(Parser)]
struct D104 {
    #[command(flatten)]
    g1049: D104G0,
    #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", required = true)]
    #[arg(require_equals = true, short = 's')]
    f1043: Option<Option<OsString>>,
    /// First {of} f1042,
    ///
    #[arg(conflicts_with_all = ["f1040"], conflicts_with_all = ["f1043"], required = true)]
    /// 100% "more".
    #[arg(value_name = "a-é", requires = "f1041")]
    f1042: Option<OsString>,
    /// First {of} f1040,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = "f1043", requires = "f1041", requires = "f1042", trailing_var_arg = true, value_delimiter = ',', default_value = "dd,e", value_name = "a-é")]
    f1040: Vec<OsString>,
    /// First {of} f1041,
    ///
    /// 100% "more".
    #[arg(default_value = "dd,e", last = true, conflicts_with = "f1040", value_delimiter = ',', conflicts_with_all = ["f1043"], requires = "f1042")]
    f1041: Option<Vec<OsString>>,
}
impl Told for D104 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, ..R }, shown: Shown { as_: "-s, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn[=<F1043>]", doc: &[], hide: false }, ..opt(&["-s", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::Maybe) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[4, 5], requires: &[2, 3], ..R }, shown: Shown { as_: "-m, --gamma[=<F1044>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-m", "--gamma", "--eps-i", "-F"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("dd"), conflicts: &[3, 1], ..R }, shown: Shown { as_: "-o, --\u{5c}=<F1045>", doc: &["First {of} f1045,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-o", "--\u{5c}", "--phi+", "-{"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-k, --kap=<a-é>", doc: &["First {of} f1046,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-k", "--kap", "--a b", "-3"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some(""), conflicts: &[3, 5], requires: &[1, 2], ..R }, shown: Shown { as_: "-q, --kappas=<FOO {BAR}>", doc: &["First {of} f1047,", "100% \u{22}more\u{22}.", "[default: ]"], hide: true }, ..opt(&["-q", "--kappas", "--é-long", "-\u{80}"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{5c}, --omicron=<F1048>", doc: &["Doc of f1048.", "[default: dd]"], hide: false }, ..opt(&["-\u{5c}", "--omicron", "--nu", "-a"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, conflicts: &[7, 0], requires: &[8], ..R }, shown: Shown { as_: "<a-é>", doc: &["First {of} f1042,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
            Pos { trailing: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[0], requires: &[8, 6], ..R }, shown: Shown { as_: "[a-é]...", doc: &["First {of} f1040,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..pos(true) },
            Pos { last: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[7, 0], requires: &[6], ..R }, shown: Shown { as_: "[F1041]...", doc: &["First {of} f1041,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.f1043), maybe(&self.g1049.f1044), list(&self.g1049.f1045), just(&self.g1049.f1046), olist(&self.g1049.f1047), one(&self.g1049.f1048), one(&self.f1042), list(&self.f1040), olist(&self.f1041)]];
        v
    }
}
// @@ D105
#[derive(Args)]
struct D105AaBb {
    /// First {of} f1059,
    ///
    /// 100% "more".
    #[arg(hide = true, required = true, requires = "f1050", exclusive = true, short = '\u{ffff}', require_equals = true, value_name = "a-é", global = true, long = "omicron", alias = "kappa", short_alias = 'E')]
    f1059: Option<Option<OsString>>,
    /// Doc of f1050.
    #[arg(default_value = "dd", trailing_var_arg = true)]
    #[arg(value_name = "FOO {BAR}", conflicts_with_all = ["f1059"], conflicts_with_all = [])]
    f1050: Vec<OsString>,
}
#[derive(Subcommand)]
enum D105Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// First {of} f1058,
        ///
        /// 100% "more".
        #[arg(short = 't', exclusive = true, long = "psi", conflicts_with_all = ["f1057"], global = true, default_value_t = "dd".to_string(), conflicts_with_all = [], require_equals = true)]
        f1058: Option<String>,
        /// First {of} f1057,
        ///
        /// 100% "more".
        #[arg(default_value = "dd,e", short = '�', global = true, value_delimiter = ',', require_equals = true, long = "omicron", alias = "Mu", exclusive = true, short_alias = '3', value_name = "[X]")]
        f1057: Option<Vec<OsString>>,
        /// Doc of f1055.
        #[arg(hide = true, default_value_t = "dd".to_string(), long = "phi+", short = '߿', conflicts_with = "f1058", requires = "f1057")]
        f1055: String,
        #[arg(required = true, short = 'c')]
        #[arg(long = "helper", require_equals = true, exclusive = true, conflicts_with = "f1057", value_name = "[X]")]
        f1056: OsString,
        /// First {of} f1051,
        ///
        /// 100% "more".
        #[arg(value_name = "FOO {BAR}", conflicts_with = "f1056", required = true, exclusive = true)]
        f1051: OsString,
        /// Doc of f1052.
        #[arg(default_value = "dd", value_name = "[X]", conflicts_with = "f1057", conflicts_with = "f1058", requires = "f1056")]
        f1052: Option<OsString>,
    },
    AaBb(D105AaBb),
    /// About {it}.
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D105 {
    #[arg(short = 'c', long = "psi", value_name = "[X]", conflicts_with = "f1053", require_equals = true, default_value = "dd")]
    f1054: OsString,
    /// Doc of f1053.
    #[arg(default_value = "dd,e", value_delimiter = ',', requires = "f1054")]
    #[arg(hide = true)]
    f1053: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D105Cmd,
}
impl Told for D105 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { default: Some("dd"), conflicts: &[1], ..R }, shown: Shown { as_: "-c, --psi=<[X]>", doc: &["[default: dd]"], hide: false }, ..opt(&["-c", "--psi"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[0], ..R }, shown: Shown { as_: "[F1053]...", doc: &["Doc of f1053.", "[default: dd,e]"], hide: true }, ..pos(true) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[3], requires: &[2], ..R }, shown: Shown { as_: "-߿, --phi+ <F1055>", doc: &["Doc of f1055.", "[default: dd]"], hide: true }, ..opt(&["-߿", "--phi+"], Kind::One) },
                    Opt { eq: true, rules: Rules { required: true, conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "-c, --helper=<[X]>", doc: &[], hide: false }, ..opt(&["-c", "--helper"], Kind::One) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), exclusive: true, ..R }, shown: Shown { as_: "-�, --omicron=<[X]>", doc: &["First {of} f1057,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-�", "--omicron", "--Mu", "-3"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "-t, --psi=<F1058>", doc: &["First {of} f1058,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-t", "--psi"], Kind::One) },
                ],
                pos: &[
                    Pos { rules: Rules { required: true, conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "<FOO {BAR}>", doc: &["First {of} f1051,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
                    Pos { rules: Rules { default: Some("dd"), conflicts: &[2, 3], requires: &[1], ..R }, shown: Shown { as_: "[[X]]", doc: &["Doc of f1052.", "[default: dd]"], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { required: true, requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "-\u{ffff}, --omicron[=<a-é>]", doc: &["First {of} f1059,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-\u{ffff}", "--omicron", "--kappa", "-E"], Kind::Maybe) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["Doc of f1050.", "[default: dd]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f1054), olist(&self.f1053)]];
        match &self.cmd {
            D105Cmd::Aa { f1055, f1056, f1057, f1058, f1051, f1052 } => {
                v.push(vec![just(f1055), just(f1056), olist(f1057), one(f1058), just(f1051), one(f1052)]);
            }
            D105Cmd::AaBb(x) => {
                v.push(vec![maybe(&x.f1059), list(&x.f1050)]);
            }
            D105Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D106
#[derive(Args)]
struct D106G0G0 {
    /// First {of} f1064,
    ///
    /// 100% "more".
    #[arg(alias = "omicron", value_delimiter = ',', short_alias = '2', long = "kappa", required = true, short = '\u{80}', require_equals = true, value_name = "[X]")]
    f1064: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D106G0 {
    #[command(flatten)]
    g1070: D106G0G0,
}
#[derive(Args)]
struct D106AaBbG0 {
}
#[derive(Args)]
struct D106AaBbAaG0 {
}
#[derive(Subcommand)]
enum D106AaBbCmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g1072: D106AaBbAaG0,
    },
    /// About {it}.
    Zz,
}
#[derive(Args)]
struct D106AaBb {
    #[command(flatten)]
    g1071: D106AaBbG0,
    /// First {of} f1068,
    ///
    #[arg(require_equals = true, conflicts_with = "f1061", hide = true, value_delimiter = ',', short = '→')]
    /// 100% "more".
    #[arg(value_name = "[X]", long = "eta", default_value = "dd,e")]
    f1068: Option<Vec<OsString>>,
    /// First {of} f1061,
    ///
    /// 100% "more".
    #[arg(default_value = "dd", value_name = "FOO {BAR}", conflicts_with = "f1068")]
    f1061: OsString,
    #[command(subcommand)]
    cmd: Option<D106AaBbCmd>,
}
#[derive(Subcommand)]
enum D106Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// First {of} f1067,
        ///
        /// 100% "more".
        #[arg(global = true, conflicts_with_all = "f1063", exclusive = true, long = "psi", default_value_t = true, short = '\u{d7ff}')]
        f1067: bool,
        /// First {of} f1065,
        ///
        /// 100% "more".
        #[arg(short = 'é', requires = "f1060", long = "kappa", value_name = "FOO {BAR}", alias = "omicron", short_alias = 'y', exclusive = true)]
        f1065: Option<OsString>,
        /// Doc of f1066.
        #[arg(exclusive = true, required = true, require_equals = true, long = "rho_s", short_alias = 'z', alias = "iota", conflicts_with_all = ["f1065"], value_name = "a-é", short = 'ࠀ', conflicts_with_all = ["f1067"])]
        f1066: Option<OsString>,
        /// Doc of f1062.
        #[arg(value_name = "a-é", conflicts_with = "f1066")]
        #[arg(default_value = "dd", conflicts_with_all = ["f1067"])]
        f1062: OsString,
        #[arg(value_name = "FOO {BAR}", default_value = "")]
        f1063: OsString,
        /// Doc of f1060.
        #[arg(exclusive = true, requires = "f1065", hide = true, last = true)]
        f1060: Option<Vec<OsString>>,
    },
    AaBb(D106AaBb),
    /// About {it}.
    Uu,
}
#[derive(Parser)]
struct D106 {
    #[command(flatten)]
    g1069: D106G0,
    #[command(subcommand)]
    cmd: Option<D106Cmd>,
}
impl Told for D106 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), ..R }, shown: Shown { as_: "-\u{80}, --kappa=<[X]>", doc: &["First {of} f1064,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{80}", "--kappa", "--omicron", "-2"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { rules: Rules { requires: &[5], exclusive: true, ..R }, shown: Shown { as_: "-é, --kappa <FOO {BAR}>", doc: &["First {of} f1065,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-é", "--kappa", "--omicron", "-y"], Kind::One) },
                    Opt { eq: true, rules: Rules { required: true, conflicts: &[0, 2], exclusive: true, ..R }, shown: Shown { as_: "-ࠀ, --rho_s=<a-é>", doc: &["Doc of f1066."], hide: false }, ..opt(&["-ࠀ", "--rho_s", "--iota", "-z"], Kind::One) },
                    Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[4], exclusive: true, ..R }, shown: Shown { as_: "-\u{d7ff}, --psi", doc: &["First {of} f1067,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-\u{d7ff}", "--psi"], Kind::Flag) },
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("dd"), conflicts: &[1, 2], ..R }, shown: Shown { as_: "[a-é]", doc: &["Doc of f1062.", "[default: dd]"], hide: false }, ..pos(false) },
                    Pos { rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["[default: ]"], hide: false }, ..pos(false) },
                    Pos { last: true, rules: Rules { requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "[F1060]...", doc: &["Doc of f1060."], hide: true }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[1], ..R }, shown: Shown { as_: "-→, --eta=<[X]>", doc: &["First {of} f1068,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: true }, ..opt(&["-→", "--eta"], Kind::List) },
                ],
                pos: &[
                    Pos { rules: Rules { default: Some("dd"), conflicts: &[0], ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["First {of} f1061,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..pos(false) },
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.g1069.g1070.f1064)]];
        match &self.cmd {
            Some(D106Cmd::Aa { f1065, f1066, f1067, f1062, f1063, f1060 }) => {
                v.push(vec![one(f1065), one(f1066), flag(*f1067), just(f1062), just(f1063), olist(f1060)]);
            }
            Some(D106Cmd::AaBb(x)) => {
                v.push(vec![olist(&x.f1068), just(&x.f1061)]);
                match &x.cmd {
                    Some(D106AaBbCmd::Aa { g1072 }) => {
                        v.push(vec![]);
                    }
                    Some(D106AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            Some(D106Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D107
/// About {it}.
#[derive(Parser)]
struct D107 {
    /// Doc of f1076.
    #[arg(short = '\u{ffff}', requires = "f1079", long = "kap", require_equals = true, required = true, requires = "f1077")]
    f1076: Option<OsString>,
    /// First {of} f1078,
    ///
    #[arg(conflicts_with_all = ["f1077"])]
    /// 100% "more".
    #[arg(conflicts_with_all = ["f1080"], default_value_t = "dd".to_string(), alias = "a b", short_alias = 'q', global = true, long = "up.s", hide = true, requires = "f1074", short = '\u{5c}', requires = "f1073")]
    f1078: Option<String>,
    #[arg(hide = true, default_value = "dd", conflicts_with = "f1075", short = 'B', value_name = "FOO {BAR}", long = "iota", require_equals = true, requires = "f1077")]
    f1080: Option<OsString>,
    /// First {of} f1077,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = ["f1074"], required = true, global = true, alias = "psi", long = "pi", conflicts_with_all = [], value_name = "FOO {BAR}", exclusive = true, value_delimiter = ',', short = 'j', short_alias = 'u')]
    f1077: Vec<OsString>,
    /// First {of} f1079,
    ///
    /// 100% "more".
    #[arg(long = "q\u{22}q", global = true, required = true, requires = "f1075", alias = "eta", short_alias = 'A', short = 'm')]
    f1079: Option<OsString>,
    #[arg(exclusive = true, requires = "f1076")]
    #[arg(default_value = "dd", requires = "f1077")]
    f1074: OsString,
    /// Doc of f1075.
    #[arg(conflicts_with = "f1080", requires = "f1074")]
    f1075: Option<OsString>,
    #[arg(exclusive = true, value_delimiter = ',', requires = "f1076", requires = "f1080", default_value = "dd,e")]
    #[arg(last = true)]
    f1073: Option<Vec<OsString>>,
}
impl Told for D107 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { required: true, requires: &[3, 1], ..R }, shown: Shown { as_: "-\u{ffff}, --kap=<F1076>", doc: &["Doc of f1076."], hide: false }, ..opt(&["-\u{ffff}", "--kap"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[5], exclusive: true, ..R }, shown: Shown { as_: "-j, --pi <FOO {BAR}>", doc: &["First {of} f1077,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-j", "--pi", "--psi", "-u"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1, 4], requires: &[5, 7], ..R }, shown: Shown { as_: "-\u{5c}, --up.s <F1078>", doc: &["First {of} f1078,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-\u{5c}", "--up.s", "--a b", "-q"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, requires: &[6], ..R }, shown: Shown { as_: "-m, --q\u{22}q <F1079>", doc: &["First {of} f1079,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-m", "--q\u{22}q", "--eta", "-A"], Kind::One) },
            Opt { eq: true, rules: Rules { default: Some("dd"), conflicts: &[6], requires: &[1], ..R }, shown: Shown { as_: "-B, --iota=<FOO {BAR}>", doc: &["[default: dd]"], hide: true }, ..opt(&["-B", "--iota"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), requires: &[0, 1], exclusive: true, ..R }, shown: Shown { as_: "[F1074]", doc: &["[default: dd]"], hide: false }, ..pos(false) },
            Pos { rules: Rules { conflicts: &[4], requires: &[5], ..R }, shown: Shown { as_: "[F1075]", doc: &["Doc of f1075."], hide: false }, ..pos(false) },
            Pos { last: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[0, 4], exclusive: true, ..R }, shown: Shown { as_: "[F1073]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f1076), list(&self.f1077), one(&self.f1078), one(&self.f1079), one(&self.f1080), just(&self.f1074), one(&self.f1075), olist(&self.f1073)]];
        v
    }
}
// @@ D108
#[derive(Args)]
struct D108G0G0 {
    #[arg(require_equals = true, short_alias = '߿', short = 's', alias = "kap", long = "beta", default_value = "dd", value_name = "a-é")]
    f1084: Option<Option<OsString>>,
}
#[derive(Args)]
struct D108G0 {
    #[arg(short = '{', long = "tau", value_name = "FOO {BAR}", require_equals = true, global = true, conflicts_with = "f1083", default_value_t = "dd".to_string())]
    f1082: String,
    #[arg(long = "eta", short_alias = 'm', global = true, alias = "kappas")]
    #[arg(short = 'b', conflicts_with_all = "f1082", required = true)]
    f1083: bool,
    #[command(flatten)]
    g1086: D108G0G0,
}
/// About {it}.
#[derive(Parser)]
struct D108 {
    /// Doc of f1081.
    #[arg(global = true, alias = "zeta", short_alias = 'z', long = "x2", value_delimiter = ',', short = 'g', value_name = "[X]")]
    f1081: Option<Vec<OsString>>,
    #[command(flatten)]
    g1085: D108G0,
}
impl Told for D108 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-g, --x2 <[X]>", doc: &["Doc of f1081."], hide: false }, ..opt(&["-g", "--x2", "--zeta", "-z"], Kind::List) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[2], ..R }, shown: Shown { as_: "-{, --tau=<FOO {BAR}>", doc: &["[default: dd]"], hide: false }, ..opt(&["-{", "--tau"], Kind::One) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-b, --eta", doc: &[], hide: false }, ..opt(&["-b", "--eta", "--kappas", "-m"], Kind::Flag) },
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-s, --beta[=<a-é>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-s", "--beta", "--kap", "-߿"], Kind::Maybe) },
        ],
        pos: &[
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![olist(&self.f1081), just(&self.g1085.f1082), flag(self.g1085.f1083), maybe(&self.g1085.g1086.f1084)]];
        v
    }
}
// @@ D109
#[derive(Args)]
struct D109G0 {
    /// First {of} f1089,
    ///
    #[arg(required = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", hide = true, global = true, value_name = "[X]")]
    /// 100% "more".
    #[arg(short = 'p')]
    f1089: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D109G1G0 {
    #[arg(short = 'v', alias = "omicron", required = true, long = "zeta", short_alias = '𐀀', require_equals = true)]
    f1091: OsString,
}
#[derive(Args)]
struct D109G1 {
    #[arg(global = true, short = '0', required = true)]
    #[arg(hide = true, long = "é-long")]
    f1090: bool,
    #[command(flatten)]
    g1094: D109G1G0,
}
#[derive(Parser)]
struct D109 {
    #[command(flatten)]
    g1093: D109G1,
    /// First {of} f1088,
    ///
    /// 100% "more".
    #[arg(global = true, requires = "f1087", long = "a b", value_name = "[X]", required = true, short = 'i')]
    f1088: bool,
    #[command(flatten)]
    g1092: D109G0,
    #[arg(value_delimiter = ',')]
    #[arg(conflicts_with = "f1088", value_name = "a-é", required = true)]
    f1087: Vec<OsString>,
}
impl Told for D109 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { required: true, requires: &[4], ..R }, shown: Shown { as_: "-i, --a b", doc: &["First {of} f1088,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-i", "--a b"], Kind::Flag) },
            Opt { global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-p, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <[X]>", doc: &["First {of} f1089,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-p", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::List) },
            Opt { global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-0, --é-long", doc: &[], hide: true }, ..opt(&["-0", "--é-long"], Kind::Flag) },
            Opt { eq: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-v, --zeta=<F1091>", doc: &[], hide: false }, ..opt(&["-v", "--zeta", "--omicron", "-𐀀"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[0], ..R }, shown: Shown { as_: "<a-é>...", doc: &[], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![flag(self.f1088), olist(&self.g1092.f1089), flag(self.g1093.f1090), just(&self.g1093.g1094.f1091), list(&self.f1087)]];
        v
    }
}
// @@ D110
#[derive(Args)]
struct D110G0G0 {
}
#[derive(Args)]
struct D110G0 {
    #[command(flatten)]
    g1101: D110G0G0,
}
#[derive(Args)]
struct D110AaG0 {
    /// First {of} f1098,
    ///
    /// 100% "more".
    #[arg(short = 'k', value_name = "[X]", alias = "eps-i", default_value_t = true, short_alias = 'e', long = "chi")]
    f1098: bool,
}
#[derive(Args)]
struct D110AaBb {
    /// First {of} f1099,
    ///
    /// 100% "more".
    #[arg(exclusive = true, hide = true, long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", value_name = "FOO {BAR}", short = 'y', default_value_t = "dd".to_string(), requires = "f1095")]
    f1099: String,
    /// Doc of f1095.
    #[arg(default_value = "dd,e", trailing_var_arg = true, exclusive = true, value_name = "FOO {BAR}")]
    #[arg(value_delimiter = ',')]
    f1095: Option<Vec<OsString>>,
}
#[derive(Subcommand)]
enum D110Cmd {
    Aa {
        #[command(flatten)]
        g1102: D110AaG0,
        #[arg(global = true, conflicts_with = "f1096", short = ' ', alias = "omega")]
        #[arg(long = "gamma", short_alias = 'G', required = true)]
        f1097: OsString,
        /// First {of} f1096,
        ///
        /// 100% "more".
        #[arg(require_equals = true, short_alias = 'u', value_name = "[X]", long = "kappa", conflicts_with = "f1097", alias = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", default_value_t = "dd".to_string(), short = 'é', hide = true, global = true)]
        f1096: Option<String>,
    },
    AaBb(D110AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D110 {
    #[command(flatten)]
    g1100: D110G0,
    #[command(subcommand)]
    cmd: D110Cmd,
}
impl Told for D110 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1], ..R }, shown: Shown { as_: "-é, --kappa=<[X]>", doc: &["First {of} f1096,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-é", "--kappa", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "-u"], Kind::One) },
                    Opt { global: true, rules: Rules { required: true, conflicts: &[0], ..R }, shown: Shown { as_: "- , --gamma <F1097>", doc: &[], hide: false }, ..opt(&["- ", "--gamma", "--omega", "-G"], Kind::One) },
                    Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-k, --chi", doc: &["First {of} f1098,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-k", "--chi", "--eps-i", "-e"], Kind::Flag) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "-y, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn <FOO {BAR}>", doc: &["First {of} f1099,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-y", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::One) },
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), exclusive: true, ..R }, shown: Shown { as_: "[FOO {BAR}]...", doc: &["Doc of f1095.", "[default: dd,e]"], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            D110Cmd::Aa { f1096, f1097, g1102 } => {
                v.push(vec![one(f1096), just(f1097), flag(g1102.f1098)]);
            }
            D110Cmd::AaBb(x) => {
                v.push(vec![just(&x.f1099), olist(&x.f1095)]);
            }
            D110Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D111
#[derive(Args)]
struct D111G0 {
}
#[derive(Args)]
struct D111AaG0 {
    /// Doc of f1105.
    #[arg(long = "psi", alias = "x", short_alias = 't', value_delimiter = ',', value_name = "FOO {BAR}", short = 'r', require_equals = true)]
    f1105: Vec<OsString>,
}
#[derive(Subcommand)]
enum D111AaBbCmd {
    Aa {
        /// Doc of f1107.
        #[arg(exclusive = true, long = "eps-i", conflicts_with = "f1103", global = true, hide = true, value_name = "FOO {BAR}", short = '→', default_value_t = true)]
        f1107: bool,
        /// First {of} f1103,
        ///
        /// 100% "more".
        #[arg(hide = true, required = true, value_name = "[X]", requires = "f1107")]
        f1103: OsString,
    },
    /// About {it}.
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D111AaBb {
    /// First {of} f1106,
    ///
    /// 100% "more".
    #[arg(require_equals = true, value_name = "a-é", required = true, exclusive = true, short = 'r', long = "tau")]
    f1106: Option<OsString>,
    #[command(subcommand)]
    cmd: D111AaBbCmd,
}
#[derive(Subcommand)]
enum D111Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g1109: D111AaG0,
    },
    AaBb(D111AaBb),
    /// About {it}.
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D111 {
    /// Doc of f1104.
    #[arg(long = "\u{5c}", default_value = "dd", value_name = "a-é", short_alias = 'r', require_equals = true, alias = "psi", short = 't')]
    f1104: OsString,
    #[command(flatten)]
    g1108: D111G0,
    #[command(subcommand)]
    cmd: Option<D111Cmd>,
}
impl Told for D111 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-t, --\u{5c}=<a-é>", doc: &["Doc of f1104.", "[default: dd]"], hide: false }, ..opt(&["-t", "--\u{5c}", "--psi", "-r"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-r, --psi=<FOO {BAR}>", doc: &["Doc of f1105."], hide: false }, ..opt(&["-r", "--psi", "--x", "-t"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "-r, --tau=<a-é>", doc: &["First {of} f1106,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-r", "--tau"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "-→, --eps-i", doc: &["Doc of f1107.", "[default: true]"], hide: true }, ..opt(&["-→", "--eps-i"], Kind::Flag) },
                        ],
                        pos: &[
                            Pos { rules: Rules { required: true, requires: &[0], ..R }, shown: Shown { as_: "<[X]>", doc: &["First {of} f1103,", "100% \u{22}more\u{22}."], hide: true }, ..pos(false) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f1104)]];
        match &self.cmd {
            Some(D111Cmd::Aa { g1109 }) => {
                v.push(vec![list(&g1109.f1105)]);
            }
            Some(D111Cmd::AaBb(x)) => {
                v.push(vec![one(&x.f1106)]);
                match &x.cmd {
                    D111AaBbCmd::Aa { f1107, f1103 } => {
                        v.push(vec![flag(*f1107), just(f1103)]);
                    }
                    D111AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D111Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D112
/// About {it}.
#[derive(Parser)]
struct D112 {
    /// First {of} f1114,
    ///
    /// 100% "more".
    #[arg(default_value_t = true, short = 'ࠀ', long = "zeta")]
    f1114: bool,
    /// First {of} f1113,
    ///
    /// 100% "more".
    #[arg(value_name = "[X]", global = true, short = 'l', default_value = "", conflicts_with_all = ["f1110"], conflicts_with_all = ["f1111"], long = "chi", hide = true, requires = "f1114")]
    f1113: OsString,
    /// Doc of f1112.
    #[arg(short_alias = 'H', long = "psi", conflicts_with_all = ["f1113"], conflicts_with_all = [], alias = "beta", short = 'x', value_name = "[X]", requires = "f1110", requires = "f1111")]
    f1112: Vec<OsString>,
    /// First {of} f1111,
    ///
    /// 100% "more".
    #[arg(long = "rho_s", conflicts_with_all = ["f1110"], conflicts_with_all = ["f1113"], requires = "f1112", short = 'o', default_value_t = "dd".to_string(), requires = "f1114")]
    f1111: Option<String>,
    #[arg(exclusive = true, requires = "f1114", default_value = "dd", value_name = "FOO {BAR}")]
    f1110: Option<OsString>,
}
impl Told for D112 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[4, 2], requires: &[1, 3], ..R }, shown: Shown { as_: "-o, --rho_s <F1111>", doc: &["First {of} f1111,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-o", "--rho_s"], Kind::One) },
            Opt { rules: Rules { conflicts: &[2], requires: &[4, 0], ..R }, shown: Shown { as_: "-x, --psi <[X]>", doc: &["Doc of f1112."], hide: false }, ..opt(&["-x", "--psi", "--beta", "-H"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some(""), conflicts: &[4, 0], requires: &[3], ..R }, shown: Shown { as_: "-l, --chi <[X]>", doc: &["First {of} f1113,", "100% \u{22}more\u{22}.", "[default: ]"], hide: true }, ..opt(&["-l", "--chi"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-ࠀ, --zeta", doc: &["First {of} f1114,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-ࠀ", "--zeta"], Kind::Flag) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some("dd"), requires: &[3], exclusive: true, ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["[default: dd]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f1111), list(&self.f1112), just(&self.f1113), flag(self.f1114), one(&self.f1110)]];
        v
    }
}
// @@ D113
#[derive(Args)]
struct D113G0G0 {
    #[arg(default_value = "", long = "chi", short = '\u{22}', conflicts_with = "f1118")]
    f1117: OsString,
    /// First {of} f1118,
    ///
    /// 100% "more".
    #[arg(long = "tau", conflicts_with = "f1117", default_value = "dd", value_name = "a-é", short = '\u{e000}')]
    f1118: Option<OsString>,
}
#[derive(Args)]
struct D113G0 {
    #[command(flatten)]
    g1121: D113G0G0,
    #[arg(value_name = "FOO {BAR}", default_value_t = "dd".to_string(), alias = "gamma", long = "phi+", short = 'j', short_alias = 'f')]
    f1116: String,
}
#[derive(Args)]
struct D113G1 {
}
#[derive(Args)]
struct D113G2 {
    #[arg(require_equals = true)]
    #[arg(short = 'v', required = true, value_name = "[X]", long = "a b")]
    f1119: Option<Option<OsString>>,
}
/// About {it}.
#[derive(Parser)]
struct D113 {
    #[command(flatten)]
    g1120: D113G0,
    #[command(flatten)]
    g1123: D113G2,
    #[command(flatten)]
    g1122: D113G1,
    /// Doc of f1115.
    #[arg(default_value = "dd,e", value_name = "[X]", trailing_var_arg = true, hide = true, value_delimiter = ',')]
    f1115: Vec<OsString>,
}
impl Told for D113 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-j, --phi+ <FOO {BAR}>", doc: &["[default: dd]"], hide: false }, ..opt(&["-j", "--phi+", "--gamma", "-f"], Kind::One) },
            Opt { rules: Rules { default: Some(""), conflicts: &[2], ..R }, shown: Shown { as_: "-\u{22}, --chi <F1117>", doc: &["[default: ]"], hide: false }, ..opt(&["-\u{22}", "--chi"], Kind::One) },
            Opt { rules: Rules { default: Some("dd"), conflicts: &[1], ..R }, shown: Shown { as_: "-\u{e000}, --tau <a-é>", doc: &["First {of} f1118,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-\u{e000}", "--tau"], Kind::One) },
            Opt { rules: Rules { required: true, ..R }, shown: Shown { as_: "-v, --a b[=<[X]>]", doc: &[], hide: false }, ..opt(&["-v", "--a b"], Kind::Maybe) },
        ],
        pos: &[
            Pos { trailing: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "[[X]]...", doc: &["Doc of f1115.", "[default: dd,e]"], hide: true }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![just(&self.g1120.f1116), just(&self.g1120.g1121.f1117), one(&self.g1120.g1121.f1118), maybe(&self.g1123.f1119), list(&self.f1115)]];
        v
    }
}
// @@ D114
#[derive(Args)]
struct D114AaBbG0G0 {
    /// Doc of f1128.
    #[arg(default_value = "dd", alias = "iota", require_equals = true)]
    #[arg(short = 'r', short_alias = 't', global = true, long = "eps-i")]
    f1128: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D114AaBbG0 {
    #[command(flatten)]
    g1130: D114AaBbG0G0,
}
#[derive(Args)]
struct D114AaBb {
    #[command(flatten)]
    g1129: D114AaBbG0,
    /// First {of} f1127,
    ///
    /// 100% "more".
    #[arg(short_alias = 'F', require_equals = true, required = true, long = "h", alias = "zeta", short = 'I', global = true)]
    f1127: Vec<OsString>,
}
#[derive(Subcommand)]
enum D114Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f1126.
        #[arg(short = 'E', required = true, short_alias = 'r', long = "zeta", require_equals = true, alias = "eps-i", global = true, conflicts_with = "f1124", exclusive = true)]
        f1126: Vec<OsString>,
        /// First {of} f1124,
        ///
        /// 100% "more".
        #[arg(required = true, conflicts_with = "f1126")]
        f1124: Option<OsString>,
    },
    AaBb(D114AaBb),
    Uu,
}
#[derive(Parser)]
struct D114 {
    #[arg(short_alias = 'F', value_delimiter = ',', alias = "eps-i", long = "beta", exclusive = true, short = 'I')]
    f1125: Vec<OsString>,
    #[command(subcommand)]
    cmd: Option<D114Cmd>,
}
impl Told for D114 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { delimiter: Some(b','), exclusive: true, ..R }, shown: Shown { as_: "-I, --beta <F1125>", doc: &[], hide: false }, ..opt(&["-I", "--beta", "--eps-i", "-F"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "-E, --zeta=<F1126>", doc: &["Doc of f1126."], hide: false }, ..opt(&["-E", "--zeta", "--eps-i", "-r"], Kind::List) },
                ],
                pos: &[
                    Pos { rules: Rules { required: true, conflicts: &[0], ..R }, shown: Shown { as_: "<F1124>", doc: &["First {of} f1124,", "100% \u{22}more\u{22}."], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { eq: true, global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-I, --h=<F1127>", doc: &["First {of} f1127,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-I", "--h", "--zeta", "-F"], Kind::List) },
                    Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-r, --eps-i=<F1128>", doc: &["Doc of f1128.", "[default: dd]"], hide: false }, ..opt(&["-r", "--eps-i", "--iota", "-t"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f1125)]];
        match &self.cmd {
            Some(D114Cmd::Aa { f1126, f1124 }) => {
                v.push(vec![list(f1126), one(f1124)]);
            }
            Some(D114Cmd::AaBb(x)) => {
                v.push(vec![list(&x.f1127), olist(&x.g1129.g1130.f1128)]);
            }
            Some(D114Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D115
#[derive(Args)]
struct D115AaBbAaG0 {
    #[arg(require_equals = true, required = true, short = 'ࠀ', value_delimiter = ',', long = "\u{5c}", global = true, hide = true)]
    f1135: Vec<OsString>,
}
#[derive(Subcommand)]
enum D115AaBbCmd {
    /// About {it}.
    Aa {
        #[command(flatten)]
        g1136: D115AaBbAaG0,
    },
    Zz,
}
#[derive(Args)]
struct D115AaBb {
    #[arg(long = "x-y", short = 'u', require_equals = true, exclusive = true, required = true)]
    f1134: Option<Option<OsString>>,
    #[arg(alias = "delta", long = "kappas", conflicts_with = "f1134", short_alias = 'e', short = 'w', required = true)]
    f1133: bool,
    #[command(subcommand)]
    cmd: D115AaBbCmd,
}
#[derive(Subcommand)]
enum D115Cmd {
    Aa {
        #[arg(required = true, trailing_var_arg = true)]
        #[arg(value_delimiter = ',')]
        f1131: Vec<OsString>,
    },
    AaBb(D115AaBb),
    /// About {it}.
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D115 {
    #[arg(short = 'u', required = true, long = "x-y", require_equals = true, value_name = "[X]")]
    f1132: OsString,
    #[command(subcommand)]
    cmd: Option<D115Cmd>,
}
impl Told for D115 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-u, --x-y=<[X]>", doc: &[], hide: false }, ..opt(&["-u", "--x-y"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                    Pos { trailing: true, rules: Rules { required: true, delimiter: Some(b','), ..R }, shown: Shown { as_: "<F1131>...", doc: &[], hide: false }, ..pos(true) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { rules: Rules { required: true, conflicts: &[1], ..R }, shown: Shown { as_: "-w, --kappas", doc: &[], hide: false }, ..opt(&["-w", "--kappas", "--delta", "-e"], Kind::Flag) },
                    Opt { rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "-u, --x-y[=<F1134>]", doc: &[], hide: false }, ..opt(&["-u", "--x-y"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { eq: true, global: true, rules: Rules { required: true, delimiter: Some(b','), ..R }, shown: Shown { as_: "-ࠀ, --\u{5c}=<F1135>", doc: &[], hide: true }, ..opt(&["-ࠀ", "--\u{5c}"], Kind::List) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                ],
                sub_required: true,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![just(&self.f1132)]];
        match &self.cmd {
            Some(D115Cmd::Aa { f1131 }) => {
                v.push(vec![list(f1131)]);
            }
            Some(D115Cmd::AaBb(x)) => {
                v.push(vec![flag(x.f1133), maybe(&x.f1134)]);
                match &x.cmd {
                    D115AaBbCmd::Aa { g1136 } => {
                        v.push(vec![list(&g1136.f1135)]);
                    }
                    D115AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D115Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D116
/// About {it}.
#[derive(Parser)]
struct D116 {
    /// First {of} f1138,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = ["f1140"], exclusive = true, conflicts_with_all = ["f1141"], short = 'n', long = "omicron")]
    f1138: Option<Vec<OsString>>,
    /// Doc of f1141.
    #[arg(alias = "nu", default_value = "dd", short = 'b', exclusive = true, require_equals = true, requires = "f1138", long = "q\u{22}q", value_name = "a-é", short_alias = 'l')]
    f1141: Option<OsString>,
    /// First {of} f1140,
    ///
    /// 100% "more".
    #[arg(conflicts_with = "f1138", global = true, conflicts_with_all = ["f1137"], short = ' ', long = "é-long", exclusive = true, default_value = "dd,e", value_delimiter = ',')]
    f1140: Vec<OsString>,
    /// Doc of f1139.
    #[arg(value_name = "a-é", default_value = "dd")]
    #[arg(conflicts_with = "f1138", requires = "f1141", long = "kappa", global = true, alias = "kap", short_alias = 'g', short = 'j', requires = "f1140")]
    f1139: Option<OsString>,
    /// First {of} f1137,
    ///
    /// 100% "more".
    #[arg(value_name = "FOO {BAR}", default_value = "", conflicts_with = "f1140", exclusive = true)]
    f1137: OsString,
}
impl Told for D116 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { conflicts: &[2, 3], exclusive: true, ..R }, shown: Shown { as_: "-n, --omicron <F1138>", doc: &["First {of} f1138,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-n", "--omicron"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[0], requires: &[3, 2], ..R }, shown: Shown { as_: "-j, --kappa <a-é>", doc: &["Doc of f1139.", "[default: dd]"], hide: false }, ..opt(&["-j", "--kappa", "--kap", "-g"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[0, 4], exclusive: true, ..R }, shown: Shown { as_: "- , --é-long <F1140>", doc: &["First {of} f1140,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["- ", "--é-long"], Kind::List) },
            Opt { eq: true, rules: Rules { default: Some("dd"), requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "-b, --q\u{22}q=<a-é>", doc: &["Doc of f1141.", "[default: dd]"], hide: false }, ..opt(&["-b", "--q\u{22}q", "--nu", "-l"], Kind::One) },
        ],
        pos: &[
            Pos { rules: Rules { default: Some(""), conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "[FOO {BAR}]", doc: &["First {of} f1137,", "100% \u{22}more\u{22}.", "[default: ]"], hide: false }, ..pos(false) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![olist(&self.f1138), one(&self.f1139), list(&self.f1140), one(&self.f1141), just(&self.f1137)]];
        v
    }
}
// @@ D117
#[derive(Args)]
struct D117G0 {
    /// First {of} f1144,
    ///
    #[arg(long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", require_equals = true, value_name = "FOO {BAR}", conflicts_with_all = ["f1145"])]
    /// 100% "more".
    #[arg(default_value_t = "dd".to_string(), short = 'w', conflicts_with_all = [])]
    f1144: Option<String>,
    /// First {of} f1145,
    ///
    /// 100% "more".
    #[arg(value_name = "a-é", default_value_t = true, long = "tau", conflicts_with_all = "f1144", short = '\u{d7ff}', global = true)]
    f1145: bool,
}
/// About {it}.
#[derive(Parser)]
struct D117 {
    #[command(flatten)]
    g1146: D117G0,
    /// Doc of f1143.
    #[arg(require_equals = true, global = true, requires = "f1142", short = 'H', long = "chi", required = true)]
    f1143: Option<Option<OsString>>,
    #[arg(required = true, value_name = "[X]", short = 'k', short_alias = 'p', requires = "f1143", alias = "theta", long = "rho_s")]
    f1142: bool,
}
impl Told for D117 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { required: true, requires: &[1], ..R }, shown: Shown { as_: "-k, --rho_s", doc: &[], hide: false }, ..opt(&["-k", "--rho_s", "--theta", "-p"], Kind::Flag) },
            Opt { global: true, rules: Rules { required: true, requires: &[0], ..R }, shown: Shown { as_: "-H, --chi[=<F1143>]", doc: &["Doc of f1143."], hide: false }, ..opt(&["-H", "--chi"], Kind::Maybe) },
            Opt { eq: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[3], ..R }, shown: Shown { as_: "-w, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn=<FOO {BAR}>", doc: &["First {of} f1144,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-w", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"], Kind::One) },
            Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[2], ..R }, shown: Shown { as_: "-\u{d7ff}, --tau", doc: &["First {of} f1145,", "100% \u{22}more\u{22}.", "[default: true]"], hide: false }, ..opt(&["-\u{d7ff}", "--tau"], Kind::Flag) },
        ],
        pos: &[
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![flag(self.f1142), maybe(&self.f1143), one(&self.g1146.f1144), flag(self.g1146.f1145)]];
        v
    }
}
// @@ D118
#[derive(Args)]
struct D118G0G0 {
}
#[derive(Args)]
struct D118G0 {
    /// Doc of f1149.
    #[arg(short = '\u{5c}', default_value_t = true, short_alias = 'w', alias = "zeta", value_name = "a-é", global = true, long = "delta")]
    f1149: bool,
    #[command(flatten)]
    g1153: D118G0G0,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D118AaBb {
    /// Doc of f1147.
    #[arg(value_name = "[X]", default_value = "")]
    f1147: OsString,
}
#[derive(Subcommand)]
enum D118Cmd {
    /// About {it}.
    Aa {
        #[arg(require_equals = true, conflicts_with_all = "f1150", exclusive = true, long = "kappas", default_value = "dd", global = true, value_name = "a-é", short = 'I')]
        f1151: Option<Option<OsString>>,
        /// First {of} f1150,
        ///
        /// 100% "more".
        #[arg(require_equals = true, long = "delta", exclusive = true, default_value = "dd", short = 'w', value_name = "[X]", requires = "f1151")]
        f1150: OsString,
    },
    AaBb(D118AaBb),
    /// About {it}.
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D118 {
    #[arg(short = 'p', default_value = "dd", alias = "eps-i", long = "{}", short_alias = '\u{ffff}', value_name = "FOO {BAR}", global = true, hide = true)]
    f1148: Vec<OsString>,
    #[command(flatten)]
    g1152: D118G0,
    #[command(subcommand)]
    cmd: Option<D118Cmd>,
}
impl Told for D118 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-p, --{} <FOO {BAR}>", doc: &["[default: dd]"], hide: true }, ..opt(&["-p", "--{}", "--eps-i", "-\u{ffff}"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ..R }, shown: Shown { as_: "-\u{5c}, --delta", doc: &["Doc of f1149.", "[default: true]"], hide: false }, ..opt(&["-\u{5c}", "--delta", "--zeta", "-w"], Kind::Flag) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { default: Some("dd"), requires: &[1], exclusive: true, ..R }, shown: Shown { as_: "-w, --delta=<[X]>", doc: &["First {of} f1150,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-w", "--delta"], Kind::One) },
                    Opt { global: true, rules: Rules { default: Some("dd"), conflicts: &[0], exclusive: true, ..R }, shown: Shown { as_: "-I, --kappas[=<a-é>]", doc: &["[default: dd]"], hide: false }, ..opt(&["-I", "--kappas"], Kind::Maybe) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                    Pos { rules: Rules { default: Some(""), ..R }, shown: Shown { as_: "[[X]]", doc: &["Doc of f1147.", "[default: ]"], hide: false }, ..pos(false) },
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![list(&self.f1148), flag(self.g1152.f1149)]];
        match &self.cmd {
            Some(D118Cmd::Aa { f1150, f1151 }) => {
                v.push(vec![just(f1150), maybe(f1151)]);
            }
            Some(D118Cmd::AaBb(x)) => {
                v.push(vec![just(&x.f1147)]);
            }
            Some(D118Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D119
#[derive(Args)]
struct D119AaBbG0 {
}
#[derive(Subcommand)]
enum D119AaBbCmd {
    /// About {it}.
    Aa {
        #[arg(long = "theta", required = true, global = true, require_equals = true, hide = true, exclusive = true, short = 'E')]
        f1158: OsString,
        /// First {of} f1157,
        ///
        /// 100% "more".
        #[arg(alias = "h", default_value_t = "dd".to_string(), long = "omega", conflicts_with_all = "f1158", short_alias = '1', value_name = "a-é", short = 'q', global = true, exclusive = true)]
        f1157: String,
    },
    /// About {it}.
    Zz,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D119AaBb {
    #[command(flatten)]
    g1159: D119AaBbG0,
    #[command(subcommand)]
    cmd: D119AaBbCmd,
}
#[derive(Subcommand)]
enum D119Cmd {
    Aa {
        /// Doc of f1156.
        #[arg(alias = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", value_delimiter = ',', value_name = "a-é", require_equals = true, hide = true, short_alias = '3', short = 'n', long = "kappas")]
        f1156: Vec<OsString>,
    },
    AaBb(D119AaBb),
    /// About {it}.
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D119 {
    #[arg(conflicts_with = "f1154", value_name = "a-é", value_delimiter = ',', short_alias = 'n', alias = "h", default_value = "dd,e", short = 'd', long = "kappa")]
    f1155: Option<Vec<OsString>>,
    #[arg(value_delimiter = ',', conflicts_with_all = "f1155", default_value = "dd,e", last = true)]
    f1154: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: Option<D119Cmd>,
}
impl Told for D119 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[1], ..R }, shown: Shown { as_: "-d, --kappa <a-é>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-d", "--kappa", "--h", "-n"], Kind::List) },
        ],
        pos: &[
            Pos { last: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), conflicts: &[0], ..R }, shown: Shown { as_: "[F1154]...", doc: &["[default: dd,e]"], hide: false }, ..pos(true) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "-n, --kappas=<a-é>", doc: &["Doc of f1156."], hide: true }, ..opt(&["-n", "--kappas", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "-3"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, conflicts: &[1], exclusive: true, ..R }, shown: Shown { as_: "-q, --omega <a-é>", doc: &["First {of} f1157,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-q", "--omega", "--h", "-1"], Kind::One) },
                            Opt { eq: true, global: true, rules: Rules { required: true, exclusive: true, ..R }, shown: Shown { as_: "-E, --theta=<F1158>", doc: &[], hide: true }, ..opt(&["-E", "--theta"], Kind::One) },
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About {it}."],
                    },
                ],
                sub_required: true,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.f1155), olist(&self.f1154)]];
        match &self.cmd {
            Some(D119Cmd::Aa { f1156 }) => {
                v.push(vec![list(f1156)]);
            }
            Some(D119Cmd::AaBb(x)) => {
                v.push(vec![]);
                match &x.cmd {
                    D119AaBbCmd::Aa { f1157, f1158 } => {
                        v.push(vec![just(f1157), just(f1158)]);
                    }
                    D119AaBbCmd::Zz => v.push(vec![]),
                }
            }
            Some(D119Cmd::Uu) => v.push(vec![]),
            None => {}
        }
        v
    }
}
// @@ D120
#[derive(Args)]
struct D120G0G0 {
}
#[derive(Args)]
struct D120G0 {
    #[command(flatten)]
    g1165: D120G0G0,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D120 {
    #[arg(long = "q\u{22}q", default_value = "dd,e", require_equals = true, value_name = "[X]", global = true, short = 'e', value_delimiter = ',')]
    f1160: Vec<OsString>,
    #[command(flatten)]
    g1164: D120G0,
    /// Doc of f1163.
    #[arg(short = '߿', conflicts_with_all = ["f1161",], hide = true, long = "helper", conflicts_with_all = "f1160", required = true, global = true, requires = "f1162")]
    f1163: OsString,
    /// Doc of f1161.
    #[arg(long = "nu", short = 'B', require_equals = true, value_name = "[X]", required = true, conflicts_with = "f1162", global = true, conflicts_with_all = ["f1163"])]
    f1161: Option<Option<OsString>>,
    /// Doc of f1162.
    #[arg(long = "Mu", requires = "f1161", required = true, short = 'n', value_name = "a-é")]
    f1162: Vec<OsString>,
}
impl Told for D120 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-e, --q\u{22}q=<[X]>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-e", "--q\u{22}q"], Kind::List) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[2, 3], ..R }, shown: Shown { as_: "-B, --nu[=<[X]>]", doc: &["Doc of f1161."], hide: false }, ..opt(&["-B", "--nu"], Kind::Maybe) },
            Opt { rules: Rules { required: true, requires: &[1], ..R }, shown: Shown { as_: "-n, --Mu <a-é>", doc: &["Doc of f1162."], hide: false }, ..opt(&["-n", "--Mu"], Kind::List) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[1, 0], requires: &[2], ..R }, shown: Shown { as_: "-߿, --helper <F1163>", doc: &["Doc of f1163."], hide: true }, ..opt(&["-߿", "--helper"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![list(&self.f1160), maybe(&self.f1161), list(&self.f1162), just(&self.f1163)]];
        v
    }
}
// @@ D121
#[derive(Args)]
struct D121G0 {
    #[arg(value_delimiter = ',', short = 'p', conflicts_with = "f1167", required = true, value_name = "FOO {BAR}", long = "beta")]
    f1168: Option<Vec<OsString>>,
    /// First {of} f1167,
    ///
    #[arg(value_name = "[X]", required = true)]
    /// 100% "more".
    #[arg(value_delimiter = ',', short = '\u{5c}', global = true, requires = "f1168", short_alias = 'o', alias = "phi+", long = "kappas", require_equals = true, hide = true)]
    f1167: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D121G1 {
    /// First {of} f1169,
    ///
    /// 100% "more".
    #[arg(alias = "iota", global = true, default_value_t = "dd".to_string(), short = '\u{27}', long = "Mu", value_name = "FOO {BAR}", short_alias = 'b')]
    f1169: Option<String>,
}
/// About {it}.
#[derive(Parser)]
struct D121 {
    #[command(flatten)]
    g1171: D121G1,
    #[command(flatten)]
    g1170: D121G0,
    /// First {of} f1166,
    ///
    #[arg(global = true, value_name = "[X]", required = true, long = "helper")]
    /// 100% "more".
    #[arg(short = '\u{ffff}')]
    f1166: Option<OsString>,
}
impl Told for D121 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-\u{ffff}, --helper <[X]>", doc: &["First {of} f1166,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-\u{ffff}", "--helper"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { required: true, delimiter: Some(b','), requires: &[2], ..R }, shown: Shown { as_: "-\u{5c}, --kappas=<[X]>", doc: &["First {of} f1167,", "100% \u{22}more\u{22}."], hide: true }, ..opt(&["-\u{5c}", "--kappas", "--phi+", "-o"], Kind::List) },
            Opt { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1], ..R }, shown: Shown { as_: "-p, --beta <FOO {BAR}>", doc: &[], hide: false }, ..opt(&["-p", "--beta"], Kind::List) },
            Opt { global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-\u{27}, --Mu <FOO {BAR}>", doc: &["First {of} f1169,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-\u{27}", "--Mu", "--iota", "-b"], Kind::One) },
        ],
        pos: &[
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![one(&self.f1166), olist(&self.g1170.f1167), olist(&self.g1170.f1168), one(&self.g1171.f1169)]];
        v
    }
}
// @@ D122
#[derive(Args)]
struct D122AaG0 {
    #[arg(require_equals = true, required = true, short_alias = 'A', long = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", short = 'H')]
    #[arg(alias = "kap")]
    f1175: Option<OsString>,
}
#[derive(Args)]
struct D122AaBb {
    /// Doc of f1176.
    #[arg(global = true, exclusive = true, short = 'v', long = "q\u{22}q")]
    f1176: Option<OsString>,
}
#[derive(Subcommand)]
enum D122Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        #[command(flatten)]
        g1177: D122AaG0,
    },
    AaBb(D122AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
#[derive(Parser)]
struct D122 {
    #[arg(short_alias = 'E', require_equals = true, conflicts_with = "f1172", alias = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", long = "é-long", default_value = "", exclusive = true)]
    #[arg(value_name = "FOO {BAR}", short = 't')]
    f1173: Option<Vec<OsString>>,
    /// First {of} f1174,
    ///
    /// 100% "more".
    #[arg(conflicts_with_all = "f1172", short_alias = '3', requires = "f1173", require_equals = true, short = 'A', alias = "kappas", long = "chi", required = true, global = true)]
    f1174: Option<Option<OsString>>,
    /// Doc of f1172.
    #[arg(conflicts_with = "f1174", required = true, value_delimiter = ',', value_name = "FOO {BAR}", requires = "f1173")]
    f1172: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D122Cmd,
}
impl Told for D122 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { eq: true, rules: Rules { default: Some(""), conflicts: &[2], exclusive: true, ..R }, shown: Shown { as_: "-t, --é-long=<FOO {BAR}>", doc: &["[default: ]"], hide: false }, ..opt(&["-t", "--é-long", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "-E"], Kind::List) },
            Opt { global: true, rules: Rules { required: true, conflicts: &[2], requires: &[0], ..R }, shown: Shown { as_: "-A, --chi[=<F1174>]", doc: &["First {of} f1174,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-A", "--chi", "--kappas", "-3"], Kind::Maybe) },
        ],
        pos: &[
            Pos { rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1], requires: &[0], ..R }, shown: Shown { as_: "<FOO {BAR}>...", doc: &["Doc of f1172."], hide: false }, ..pos(true) },
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-H, --nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn=<F1175>", doc: &[], hide: false }, ..opt(&["-H", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "--kap", "-A"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { exclusive: true, ..R }, shown: Shown { as_: "-v, --q\u{22}q <F1176>", doc: &["Doc of f1176."], hide: false }, ..opt(&["-v", "--q\u{22}q"], Kind::One) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &[],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.f1173), maybe(&self.f1174), olist(&self.f1172)]];
        match &self.cmd {
            D122Cmd::Aa { g1177 } => {
                v.push(vec![one(&g1177.f1175)]);
            }
            D122Cmd::AaBb(x) => {
                v.push(vec![one(&x.f1176)]);
            }
            D122Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D123
#[derive(Args)]
struct D123AaBbG0 {
}
#[derive(Args)]
struct D123AaBbAaG0G0 {
}
#[derive(Args)]
struct D123AaBbAaG0 {
    #[command(flatten)]
    g1185: D123AaBbAaG0G0,
}
#[derive(Subcommand)]
enum D123AaBbCmd {
    Aa {
        #[command(flatten)]
        g1184: D123AaBbAaG0,
        /// Doc of f1178.
        #[arg(value_name = "[X]", required = true)]
        f1178: Option<OsString>,
    },
    /// About one.
    ///
    /// And "two".
    Zz,
}
/// About {it}.
#[derive(Args)]
struct D123AaBb {
    #[arg(default_value = "dd,e", value_delimiter = ',', short_alias = '\u{d7ff}', global = true, alias = "pi", long = "nu", short = 'q', value_name = "a-é")]
    f1182: Option<Vec<OsString>>,
    #[command(flatten)]
    g1183: D123AaBbG0,
    #[command(subcommand)]
    cmd: Option<D123AaBbCmd>,
}
#[derive(Subcommand)]
enum D123Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
    },
    AaBb(D123AaBb),
    /// About one.
    ///
    /// And "two".
    Uu,
}
/// About {it}.
#[derive(Parser)]
struct D123 {
    /// First {of} f1180,
    ///
    #[arg(default_value = "dd,e", value_delimiter = ',', long = "{}", short = '\u{22}', exclusive = true)]
    /// 100% "more".
    #[arg(requires = "f1181")]
    f1180: Option<Vec<OsString>>,
    /// First {of} f1181,
    ///
    #[arg(default_value = "dd")]
    /// 100% "more".
    #[arg(value_name = "[X]", require_equals = true, short_alias = 'f', requires = "f1179", long = "kap", exclusive = true, short = '\u{e000}', alias = "beta")]
    f1181: Option<Option<OsString>>,
    /// Doc of f1179.
    #[arg(conflicts_with = "f1181", global = true, value_name = "FOO {BAR}", short = 'q', long = "pi", conflicts_with_all = ["f1180"])]
    f1179: Option<Vec<OsString>>,
    #[command(subcommand)]
    cmd: D123Cmd,
}
impl Told for D123 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { global: true, rules: Rules { conflicts: &[2, 1], ..R }, shown: Shown { as_: "-q, --pi <FOO {BAR}>", doc: &["Doc of f1179."], hide: false }, ..opt(&["-q", "--pi"], Kind::List) },
            Opt { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[2], exclusive: true, ..R }, shown: Shown { as_: "-\u{22}, --{} <F1180>", doc: &["First {of} f1180,", "100% \u{22}more\u{22}.", "[default: dd,e]"], hide: false }, ..opt(&["-\u{22}", "--{}"], Kind::List) },
            Opt { rules: Rules { default: Some("dd"), requires: &[0], exclusive: true, ..R }, shown: Shown { as_: "-\u{e000}, --kap[=<[X]>]", doc: &["First {of} f1181,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: false }, ..opt(&["-\u{e000}", "--kap", "--beta", "-f"], Kind::Maybe) },
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                    Opt { global: true, rules: Rules { default: Some("dd,e"), delimiter: Some(b','), ..R }, shown: Shown { as_: "-q, --nu <a-é>", doc: &["[default: dd,e]"], hide: false }, ..opt(&["-q", "--nu", "--pi", "-\u{d7ff}"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                    Cmd {
                        name: "aa",
                        opts: &[
                        ],
                        pos: &[
                            Pos { rules: Rules { required: true, ..R }, shown: Shown { as_: "<[X]>", doc: &["Doc of f1178."], hide: false }, ..pos(false) },
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &[],
                    },
                    Cmd {
                        name: "zz",
                        opts: &[
                        ],
                        pos: &[
                        ],
                        subs: &[
                        ],
                        sub_required: false,
                        about: &["About one.", "And \u{22}two\u{22}."],
                    },
                ],
                sub_required: false,
                about: &["About {it}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
        ],
        sub_required: true,
        about: &["About {it}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![olist(&self.f1179), olist(&self.f1180), maybe(&self.f1181)]];
        match &self.cmd {
            D123Cmd::Aa {  } => {
                v.push(vec![]);
            }
            D123Cmd::AaBb(x) => {
                v.push(vec![olist(&x.f1182)]);
                match &x.cmd {
                    Some(D123AaBbCmd::Aa { g1184, f1178 }) => {
                        v.push(vec![one(f1178)]);
                    }
                    Some(D123AaBbCmd::Zz) => v.push(vec![]),
                    None => {}
                }
            }
            D123Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ D124
#[derive(Args)]
struct D124G0G0 {
    /// First {of} f1189,
    ///
    /// 100% "more".
    #[arg(short = 'F', default_value_t = "dd".to_string(), global = true, require_equals = true, hide = true, long = "omega", alias = "kappas", short_alias = 'v')]
    f1189: Option<String>,
}
#[derive(Args)]
struct D124G0 {
    /// First {of} f1188,
    ///
    /// 100% "more".
    #[arg(long = "iota", short = 'C', required = true, alias = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", value_name = "FOO {BAR}", short_alias = 'e', conflicts_with_all = "f1187", require_equals = true)]
    f1188: Option<Option<OsString>>,
    #[command(flatten)]
    g1191: D124G0G0,
    /// Doc of f1187.
    #[arg(conflicts_with = "f1188", value_name = "a-é", long = "eta", require_equals = true, short = 'z')]
    f1187: Option<Option<OsString>>,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D124 {
    #[command(flatten)]
    g1190: D124G0,
    #[arg(value_delimiter = ',', last = true)]
    f1186: Vec<OsString>,
}
impl Told for D124 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { conflicts: &[1], ..R }, shown: Shown { as_: "-z, --eta[=<a-é>]", doc: &["Doc of f1187."], hide: false }, ..opt(&["-z", "--eta"], Kind::Maybe) },
            Opt { rules: Rules { required: true, conflicts: &[0], ..R }, shown: Shown { as_: "-C, --iota[=<FOO {BAR}>]", doc: &["First {of} f1188,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-C", "--iota", "--nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", "-e"], Kind::Maybe) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-F, --omega=<F1189>", doc: &["First {of} f1189,", "100% \u{22}more\u{22}.", "[default: dd]"], hide: true }, ..opt(&["-F", "--omega", "--kappas", "-v"], Kind::One) },
        ],
        pos: &[
            Pos { last: true, rules: Rules { delimiter: Some(b','), ..R }, shown: Shown { as_: "[F1186]...", doc: &[], hide: false }, ..pos(true) },
        ],
        subs: &[
        ],
        sub_required: false,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![maybe(&self.g1190.f1187), maybe(&self.g1190.f1188), one(&self.g1190.g1191.f1189), list(&self.f1186)]];
        v
    }
}
// @@ D125
#[derive(Args)]
struct D125G0G0 {
    #[arg(conflicts_with = "f1193", requires = "f1194", short = 'd', long = "iota", value_name = "[X]")]
    f1192: bool,
    #[arg(long = "eps-i", default_value_t = "dd".to_string())]
    #[arg(short = 'b')]
    f1193: Option<String>,
    #[arg(default_value = "dd", require_equals = true, requires = "f1193", short = '{', requires = "f1192", value_name = "FOO {BAR}", long = "a b", global = true)]
    f1194: Option<Vec<OsString>>,
}
#[derive(Args)]
struct D125G0 {
    #[command(flatten)]
    g1196: D125G0G0,
}
#[derive(Parser)]
struct D125 {
    #[command(flatten)]
    g1195: D125G0,
}
impl Told for D125 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
            Opt { rules: Rules { conflicts: &[1], requires: &[2], ..R }, shown: Shown { as_: "-d, --iota", doc: &[], hide: false }, ..opt(&["-d", "--iota"], Kind::Flag) },
            Opt { rules: Rules { default: Some("dd"), ty: Ty::Text, ..R }, shown: Shown { as_: "-b, --eps-i <F1193>", doc: &["[default: dd]"], hide: false }, ..opt(&["-b", "--eps-i"], Kind::One) },
            Opt { eq: true, global: true, rules: Rules { default: Some("dd"), requires: &[1, 0], ..R }, shown: Shown { as_: "-{, --a b=<FOO {BAR}>", doc: &["[default: dd]"], hide: false }, ..opt(&["-{", "--a b"], Kind::List) },
        ],
        pos: &[
        ],
        subs: &[
        ],
        sub_required: false,
        about: &[],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let v = vec![vec![flag(self.g1195.g1196.f1192), one(&self.g1195.g1196.f1193), olist(&self.g1195.g1196.f1194)]];
        v
    }
}
// @@ D126
#[derive(Args)]
struct D126G0 {
}
#[derive(Args)]
struct D126AaBbG0G0 {
}
#[derive(Args)]
struct D126AaBbG0 {
    #[command(flatten)]
    g1202: D126AaBbG0G0,
}
/// About one.
///
/// And "two".
#[derive(Args)]
struct D126AaBb {
    #[command(flatten)]
    g1201: D126AaBbG0,
}
#[derive(Subcommand)]
enum D126Cmd {
    /// About one.
    ///
    /// And "two".
    Aa {
        /// Doc of f1199.
        #[arg(requires = "f1198", short = 'H', requires = "f1197", value_delimiter = ',', value_name = "[X]", long = "é-long")]
        #[arg(exclusive = true, default_value = "dd,e")]
        f1199: Vec<OsString>,
        /// First {of} f1197,
        ///
        /// 100% "more".
        #[arg(long = "a b", required = true, require_equals = true, value_name = "FOO {BAR}", conflicts_with_all = ["f1198",], short = 'ࠀ', value_delimiter = ',', conflicts_with_all = "f1199")]
        f1197: Option<Vec<OsString>>,
        /// First {of} f1198,
        ///
        #[arg(short_alias = 'm', require_equals = true, long = "beta", global = true, short = 'q', required = true)]
        /// 100% "more".
        #[arg(alias = "theta", value_name = "FOO {BAR}")]
        f1198: Option<Option<OsString>>,
    },
    AaBb(D126AaBb),
    /// About {it}.
    Uu,
}
/// About one.
///
/// And "two".
#[derive(Parser)]
struct D126 {
    #[command(flatten)]
    g1200: D126G0,
    #[command(subcommand)]
    cmd: D126Cmd,
}
impl Told for D126 {
    const TABLE: &'static Cmd = &Cmd {
        name: "",
        opts: &[
        ],
        pos: &[
        ],
        subs: &[
            Cmd {
                name: "aa",
                opts: &[
                    Opt { eq: true, rules: Rules { required: true, delimiter: Some(b','), conflicts: &[1, 2], ..R }, shown: Shown { as_: "-ࠀ, --a b=<FOO {BAR}>", doc: &["First {of} f1197,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-ࠀ", "--a b"], Kind::List) },
                    Opt { global: true, rules: Rules { required: true, ..R }, shown: Shown { as_: "-q, --beta[=<FOO {BAR}>]", doc: &["First {of} f1198,", "100% \u{22}more\u{22}."], hide: false }, ..opt(&["-q", "--beta", "--theta", "-m"], Kind::Maybe) },
                    Opt { rules: Rules { default: Some("dd,e"), delimiter: Some(b','), requires: &[1, 0], exclusive: true, ..R }, shown: Shown { as_: "-H, --é-long <[X]>", doc: &["Doc of f1199.", "[default: dd,e]"], hide: false }, ..opt(&["-H", "--é-long"], Kind::List) },
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "aa-bb",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About one.", "And \u{22}two\u{22}."],
            },
            Cmd {
                name: "uu",
                opts: &[
                ],
                pos: &[
                ],
                subs: &[
                ],
                sub_required: false,
                about: &["About {it}."],
            },
        ],
        sub_required: true,
        about: &["About one.", "And \u{22}two\u{22}."],
    };
    fn told(&self) -> Vec<Vec<Field>> {
        let mut v = vec![vec![]];
        match &self.cmd {
            D126Cmd::Aa { f1197, f1198, f1199 } => {
                v.push(vec![olist(f1197), maybe(f1198), list(f1199)]);
            }
            D126Cmd::AaBb(x) => {
                v.push(vec![]);
            }
            D126Cmd::Uu => v.push(vec![]),
        }
        v
    }
}
// @@ end
macro_rules! definitions {
    ($($plain:ident)*; $($ruled:ident)*) => {
        const N: usize = 0 $(+ { let _ = $plain::TABLE; 1 })*;
        /// Definitions without constraints, and with.
        pub const PLAIN: std::ops::Range<usize> = 0..N;
        pub const RULED: std::ops::Range<usize> = N..TABLES.len();
        pub const TABLES: &[&Cmd] = &[$($plain::TABLE,)* $($ruled::TABLE,)*];
        const AGREE: &[fn(Vec<OsString>) -> u64] = &[$(|l| agree::<$plain>(l, HELP),)* $(|l| agree::<$ruled>(l, HELP),)*];
        const RUN: &[fn(Vec<OsString>) -> (Option<crate::common::Class>, Option<Vec<Vec<Field>>>)] = &[$(run::<$plain>,)* $(run::<$ruled>,)*];
        const MESSAGE: &[fn(Vec<OsString>) -> Option<(crate::common::Class, String)>] = &[$(message::<$plain>,)* $(message::<$ruled>,)*];
    };
}
/// The kind of the error and its whole message.
pub fn message_on(d: usize, l: Vec<OsString>) -> Option<(crate::common::Class, String)> {
    MESSAGE[d](l)
}
pub fn agree_on(d: usize, l: Vec<OsString>) -> u64 {
    AGREE[d](l)
}
/// The class of the error, or the fields of the value.
pub fn run_on(d: usize, l: Vec<OsString>) -> (Option<crate::common::Class>, Option<Vec<Vec<Field>>>) {
    RUN[d](l)
}
definitions! {
    D0
    D1
    D2
    D3
    D4
    D5
    D6
    D7
    D8
    D9
    D10
    D11
    D12
    D13
    D14
    D15
    D16
    D17
    D18
    D19
    D20
    D21
    D22
    D23
    D24
    D25
    D26
    D27
    D28
    D29
    D30
    D31
    D32
    D33
    D34
    D35
    D36
    D37
    D38
    D39
    D40
    D41
    D42
    D43
    D44
    D45
    D46
    D47
    D48
    D49
    D50
    D51
    D52
    D53
    ;
    D54
    D55
    D56
    D57
    D58
    D59
    D60
    D61
    D62
    D63
    D64
    D65
    D66
    D67
    D68
    D69
    D70
    D71
    D72
    D73
    D74
    D75
    D76
    D77
    D78
    D79
    D80
    D81
    D82
    D83
    D84
    D85
    D86
    D87
    D88
    D89
    D90
    D91
    D92
    D93
    D94
    D95
    D96
    D97
    D98
    D99
    D100
    D101
    D102
    D103
    D104
    D105
    D106
    D107
    D108
    D109
    D110
    D111
    D112
    D113
    D114
    D115
    D116
    D117
    D118
    D119
    D120
    D121
    D122
    D123
    D124
    D125
    D126
}
