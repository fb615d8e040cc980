// Written by tools/gen_many.py.
//! Many groups, levels of commands, entries of a help, long names.
#[cfg(feature = "p20")]
pub mod groups {
    use crate::common::*;
    use palc::{Args, Parser, Subcommand};
    use std::ffi::OsString;
    #[derive(Args, PartialEq, Default)]
    pub struct W0 {
        #[arg(long, short = 'a')]
        pub fw0: bool,
        #[arg(long, conflicts_with = "fw0")]
        pub ow0: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw0: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W1 {
        #[arg(long, short = 'b')]
        pub fw1: bool,
        #[arg(long, conflicts_with = "fw1")]
        pub ow1: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw1: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W2 {
        #[arg(long, short = 'c')]
        pub fw2: bool,
        #[arg(long, conflicts_with = "fw2")]
        pub ow2: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw2: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W3 {
        #[arg(long, short = 'd')]
        pub fw3: bool,
        #[arg(long, conflicts_with = "fw3")]
        pub ow3: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw3: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W4 {
        #[arg(long, short = 'e')]
        pub fw4: bool,
        #[arg(long, conflicts_with = "fw4")]
        pub ow4: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw4: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W5 {
        #[arg(long, short = 'f')]
        pub fw5: bool,
        #[arg(long, conflicts_with = "fw5")]
        pub ow5: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw5: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W6 {
        #[arg(long, short = 'g')]
        pub fw6: bool,
        #[arg(long, conflicts_with = "fw6")]
        pub ow6: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw6: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W7 {
        #[arg(long, short = 'i')]
        pub fw7: bool,
        #[arg(long, conflicts_with = "fw7")]
        pub ow7: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw7: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W8 {
        #[arg(long, short = 'j')]
        pub fw8: bool,
        #[arg(long, conflicts_with = "fw8")]
        pub ow8: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw8: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W9 {
        #[arg(long, short = 'k')]
        pub fw9: bool,
        #[arg(long, conflicts_with = "fw9")]
        pub ow9: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw9: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W10 {
        #[arg(long, short = 'l')]
        pub fw10: bool,
        #[arg(long, conflicts_with = "fw10")]
        pub ow10: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw10: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W11 {
        #[arg(long, short = 'm')]
        pub fw11: bool,
        #[arg(long, conflicts_with = "fw11")]
        pub ow11: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw11: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W12 {
        #[arg(long, short = 'n')]
        pub fw12: bool,
        #[arg(long, conflicts_with = "fw12")]
        pub ow12: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw12: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct W13 {
        #[arg(long, short = 'o')]
        pub fw13: bool,
        #[arg(long, conflicts_with = "fw13")]
        pub ow13: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub lw13: Vec<OsString>,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D0 {
        #[arg(long, short = 'A')]
        pub fd0: bool,
        #[arg(long, conflicts_with = "fd0")]
        pub od0: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld0: Vec<OsString>,
        #[command(flatten)]
        pub inner: D1,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D1 {
        #[arg(long, short = 'B')]
        pub fd1: bool,
        #[arg(long, conflicts_with = "fd1")]
        pub od1: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld1: Vec<OsString>,
        #[command(flatten)]
        pub inner: D2,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D2 {
        #[arg(long, short = 'C')]
        pub fd2: bool,
        #[arg(long, conflicts_with = "fd2")]
        pub od2: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld2: Vec<OsString>,
        #[command(flatten)]
        pub inner: D3,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D3 {
        #[arg(long, short = 'D')]
        pub fd3: bool,
        #[arg(long, conflicts_with = "fd3")]
        pub od3: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld3: Vec<OsString>,
        #[command(flatten)]
        pub inner: D4,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D4 {
        #[arg(long, short = 'E')]
        pub fd4: bool,
        #[arg(long, conflicts_with = "fd4")]
        pub od4: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld4: Vec<OsString>,
        #[command(flatten)]
        pub inner: D5,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D5 {
        #[arg(long, short = 'F')]
        pub fd5: bool,
        #[arg(long, conflicts_with = "fd5")]
        pub od5: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld5: Vec<OsString>,
        #[command(flatten)]
        pub inner: D6,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D6 {
        #[arg(long, short = 'G')]
        pub fd6: bool,
        #[arg(long, conflicts_with = "fd6")]
        pub od6: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld6: Vec<OsString>,
        #[command(flatten)]
        pub inner: D7,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D7 {
        #[arg(long, short = 'I')]
        pub fd7: bool,
        #[arg(long, conflicts_with = "fd7")]
        pub od7: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld7: Vec<OsString>,
        #[command(flatten)]
        pub inner: D8,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D8 {
        #[arg(long, short = 'J')]
        pub fd8: bool,
        #[arg(long, conflicts_with = "fd8")]
        pub od8: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld8: Vec<OsString>,
        #[command(flatten)]
        pub inner: D9,
    }
    #[derive(Args, PartialEq, Default)]
    pub struct D9 {
        #[arg(long, short = 'K')]
        pub fd9: bool,
        #[arg(long, conflicts_with = "fd9")]
        pub od9: Option<OsString>,
        #[arg(long, use_value_delimiter = true)]
        pub ld9: Vec<OsString>,
    }
    #[derive(Parser, PartialEq)]
    pub struct Far {
        #[command(flatten)]
        pub g0: W0,
        #[command(flatten)]
        pub g1: W1,
        #[command(flatten)]
        pub g2: W2,
        #[command(flatten)]
        pub g3: W3,
        #[command(flatten)]
        pub g4: W4,
        #[command(flatten)]
        pub g5: W5,
        #[arg(long)]
        pub own: Option<OsString>,
        #[command(flatten)]
        pub g6: W6,
        #[command(flatten)]
        pub g7: W7,
        #[command(flatten)]
        pub g8: W8,
        #[command(flatten)]
        pub deep: D0,
        #[command(flatten)]
        pub g9: W9,
        #[command(flatten)]
        pub g10: W10,
        #[command(flatten)]
        pub g11: W11,
        #[command(flatten)]
        pub g12: W12,
        #[command(flatten)]
        pub g13: W13,
        pub pos: Option<OsString>,
    }
    /// (long name, short name, 0 flag 1 value 2 list)
    pub const FAR: [(&str, &str, u8); 73] = [("--fw0", "-a", 0), ("--ow0", "", 1), ("--lw0", "", 2), ("--fw1", "-b", 0), ("--ow1", "", 1), ("--lw1", "", 2), ("--fw2", "-c", 0), ("--ow2", "", 1), ("--lw2", "", 2), ("--fw3", "-d", 0), ("--ow3", "", 1), ("--lw3", "", 2), ("--fw4", "-e", 0), ("--ow4", "", 1), ("--lw4", "", 2), ("--fw5", "-f", 0), ("--ow5", "", 1), ("--lw5", "", 2), ("--fw6", "-g", 0), ("--ow6", "", 1), ("--lw6", "", 2), ("--fw7", "-i", 0), ("--ow7", "", 1), ("--lw7", "", 2), ("--fw8", "-j", 0), ("--ow8", "", 1), ("--lw8", "", 2), ("--fw9", "-k", 0), ("--ow9", "", 1), ("--lw9", "", 2), ("--fw10", "-l", 0), ("--ow10", "", 1), ("--lw10", "", 2), ("--fw11", "-m", 0), ("--ow11", "", 1), ("--lw11", "", 2), ("--fw12", "-n", 0), ("--ow12", "", 1), ("--lw12", "", 2), ("--fw13", "-o", 0), ("--ow13", "", 1), ("--lw13", "", 2), ("--fd0", "-A", 0), ("--od0", "", 1), ("--ld0", "", 2), ("--fd1", "-B", 0), ("--od1", "", 1), ("--ld1", "", 2), ("--fd2", "-C", 0), ("--od2", "", 1), ("--ld2", "", 2), ("--fd3", "-D", 0), ("--od3", "", 1), ("--ld3", "", 2), ("--fd4", "-E", 0), ("--od4", "", 1), ("--ld4", "", 2), ("--fd5", "-F", 0), ("--od5", "", 1), ("--ld5", "", 2), ("--fd6", "-G", 0), ("--od6", "", 1), ("--ld6", "", 2), ("--fd7", "-I", 0), ("--od7", "", 1), ("--ld7", "", 2), ("--fd8", "-J", 0), ("--od8", "", 1), ("--ld8", "", 2), ("--fd9", "-K", 0), ("--od9", "", 1), ("--ld9", "", 2), ("--own", "", 1)];
    impl Far {
        pub fn set(&self) -> Vec<(usize, Vec<&OsString>)> {
            let mut v = vec![];
            if self.g0.fw0 { v.push((0, vec![])) }
            if let Some(x) = &self.g0.ow0 { v.push((1, vec![x])) }
            if !self.g0.lw0.is_empty() { v.push((2, self.g0.lw0.iter().collect())) }
            if self.g1.fw1 { v.push((3, vec![])) }
            if let Some(x) = &self.g1.ow1 { v.push((4, vec![x])) }
            if !self.g1.lw1.is_empty() { v.push((5, self.g1.lw1.iter().collect())) }
            if self.g2.fw2 { v.push((6, vec![])) }
            if let Some(x) = &self.g2.ow2 { v.push((7, vec![x])) }
            if !self.g2.lw2.is_empty() { v.push((8, self.g2.lw2.iter().collect())) }
            if self.g3.fw3 { v.push((9, vec![])) }
            if let Some(x) = &self.g3.ow3 { v.push((10, vec![x])) }
            if !self.g3.lw3.is_empty() { v.push((11, self.g3.lw3.iter().collect())) }
            if self.g4.fw4 { v.push((12, vec![])) }
            if let Some(x) = &self.g4.ow4 { v.push((13, vec![x])) }
            if !self.g4.lw4.is_empty() { v.push((14, self.g4.lw4.iter().collect())) }
            if self.g5.fw5 { v.push((15, vec![])) }
            if let Some(x) = &self.g5.ow5 { v.push((16, vec![x])) }
            if !self.g5.lw5.is_empty() { v.push((17, self.g5.lw5.iter().collect())) }
            if self.g6.fw6 { v.push((18, vec![])) }
            if let Some(x) = &self.g6.ow6 { v.push((19, vec![x])) }
            if !self.g6.lw6.is_empty() { v.push((20, self.g6.lw6.iter().collect())) }
            if self.g7.fw7 { v.push((21, vec![])) }
            if let Some(x) = &self.g7.ow7 { v.push((22, vec![x])) }
            if !self.g7.lw7.is_empty() { v.push((23, self.g7.lw7.iter().collect())) }
            if self.g8.fw8 { v.push((24, vec![])) }
            if let Some(x) = &self.g8.ow8 { v.push((25, vec![x])) }
            if !self.g8.lw8.is_empty() { v.push((26, self.g8.lw8.iter().collect())) }
            if self.g9.fw9 { v.push((27, vec![])) }
            if let Some(x) = &self.g9.ow9 { v.push((28, vec![x])) }
            if !self.g9.lw9.is_empty() { v.push((29, self.g9.lw9.iter().collect())) }
            if self.g10.fw10 { v.push((30, vec![])) }
            if let Some(x) = &self.g10.ow10 { v.push((31, vec![x])) }
            if !self.g10.lw10.is_empty() { v.push((32, self.g10.lw10.iter().collect())) }
            if self.g11.fw11 { v.push((33, vec![])) }
            if let Some(x) = &self.g11.ow11 { v.push((34, vec![x])) }
            if !self.g11.lw11.is_empty() { v.push((35, self.g11.lw11.iter().collect())) }
            if self.g12.fw12 { v.push((36, vec![])) }
            if let Some(x) = &self.g12.ow12 { v.push((37, vec![x])) }
            if !self.g12.lw12.is_empty() { v.push((38, self.g12.lw12.iter().collect())) }
            if self.g13.fw13 { v.push((39, vec![])) }
            if let Some(x) = &self.g13.ow13 { v.push((40, vec![x])) }
            if !self.g13.lw13.is_empty() { v.push((41, self.g13.lw13.iter().collect())) }
            if self.deep.fd0 { v.push((42, vec![])) }
            if let Some(x) = &self.deep.od0 { v.push((43, vec![x])) }
            if !self.deep.ld0.is_empty() { v.push((44, self.deep.ld0.iter().collect())) }
            if self.deep.inner.fd1 { v.push((45, vec![])) }
            if let Some(x) = &self.deep.inner.od1 { v.push((46, vec![x])) }
            if !self.deep.inner.ld1.is_empty() { v.push((47, self.deep.inner.ld1.iter().collect())) }
            if self.deep.inner.inner.fd2 { v.push((48, vec![])) }
            if let Some(x) = &self.deep.inner.inner.od2 { v.push((49, vec![x])) }
            if !self.deep.inner.inner.ld2.is_empty() { v.push((50, self.deep.inner.inner.ld2.iter().collect())) }
            if self.deep.inner.inner.inner.fd3 { v.push((51, vec![])) }
            if let Some(x) = &self.deep.inner.inner.inner.od3 { v.push((52, vec![x])) }
            if !self.deep.inner.inner.inner.ld3.is_empty() { v.push((53, self.deep.inner.inner.inner.ld3.iter().collect())) }
            if self.deep.inner.inner.inner.inner.fd4 { v.push((54, vec![])) }
            if let Some(x) = &self.deep.inner.inner.inner.inner.od4 { v.push((55, vec![x])) }
            if !self.deep.inner.inner.inner.inner.ld4.is_empty() { v.push((56, self.deep.inner.inner.inner.inner.ld4.iter().collect())) }
            if self.deep.inner.inner.inner.inner.inner.fd5 { v.push((57, vec![])) }
            if let Some(x) = &self.deep.inner.inner.inner.inner.inner.od5 { v.push((58, vec![x])) }
            if !self.deep.inner.inner.inner.inner.inner.ld5.is_empty() { v.push((59, self.deep.inner.inner.inner.inner.inner.ld5.iter().collect())) }
            if self.deep.inner.inner.inner.inner.inner.inner.fd6 { v.push((60, vec![])) }
            if let Some(x) = &self.deep.inner.inner.inner.inner.inner.inner.od6 { v.push((61, vec![x])) }
            if !self.deep.inner.inner.inner.inner.inner.inner.ld6.is_empty() { v.push((62, self.deep.inner.inner.inner.inner.inner.inner.ld6.iter().collect())) }
            if self.deep.inner.inner.inner.inner.inner.inner.inner.fd7 { v.push((63, vec![])) }
            if let Some(x) = &self.deep.inner.inner.inner.inner.inner.inner.inner.od7 { v.push((64, vec![x])) }
            if !self.deep.inner.inner.inner.inner.inner.inner.inner.ld7.is_empty() { v.push((65, self.deep.inner.inner.inner.inner.inner.inner.inner.ld7.iter().collect())) }
            if self.deep.inner.inner.inner.inner.inner.inner.inner.inner.fd8 { v.push((66, vec![])) }
            if let Some(x) = &self.deep.inner.inner.inner.inner.inner.inner.inner.inner.od8 { v.push((67, vec![x])) }
            if !self.deep.inner.inner.inner.inner.inner.inner.inner.inner.ld8.is_empty() { v.push((68, self.deep.inner.inner.inner.inner.inner.inner.inner.inner.ld8.iter().collect())) }
            if self.deep.inner.inner.inner.inner.inner.inner.inner.inner.inner.fd9 { v.push((69, vec![])) }
            if let Some(x) = &self.deep.inner.inner.inner.inner.inner.inner.inner.inner.inner.od9 { v.push((70, vec![x])) }
            if !self.deep.inner.inner.inner.inner.inner.inner.inner.inner.inner.ld9.is_empty() { v.push((71, self.deep.inner.inner.inner.inner.inner.inner.inner.inner.inner.ld9.iter().collect())) }
            if let Some(x) = &self.own { v.push((72, vec![x])) }
            v
        }
    }
}
#[cfg(feature = "p19")]
pub mod levels {
    use crate::common::*;
    use palc::{Args, Parser, Subcommand};
    use std::ffi::OsString;
    #[derive(Parser, PartialEq)]
    pub struct L0 {
        #[arg(long, short = 'a', global = true)]
        pub g0: Option<OsString>,
        #[arg(long, global = true)]
        pub many0: Vec<OsString>,
        #[arg(long, short = 'A')]
        pub own0: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<C1>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum C1 {
        Down(L1),
        Unit,
    }
    #[derive(Args, PartialEq)]
    pub struct L1 {
        #[arg(long, short = 'b', global = true)]
        pub g1: Option<OsString>,
        #[arg(long, global = true)]
        pub many1: Vec<OsString>,
        #[arg(long, short = 'B')]
        pub own1: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<C2>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum C2 {
        Down(L2),
        Unit,
    }
    #[derive(Args, PartialEq)]
    pub struct L2 {
        #[arg(long, short = 'c', global = true)]
        pub g2: Option<OsString>,
        #[arg(long, global = true)]
        pub many2: Vec<OsString>,
        #[arg(long, short = 'C')]
        pub own2: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<C3>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum C3 {
        Down(L3),
        Unit,
    }
    #[derive(Args, PartialEq)]
    pub struct L3 {
        #[arg(long, short = 'd', global = true)]
        pub g3: Option<OsString>,
        #[arg(long, global = true)]
        pub many3: Vec<OsString>,
        #[arg(long, short = 'D')]
        pub own3: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<C4>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum C4 {
        Down(L4),
        Unit,
    }
    #[derive(Args, PartialEq)]
    pub struct L4 {
        #[arg(long, short = 'e', global = true)]
        pub g4: Option<OsString>,
        #[arg(long, global = true)]
        pub many4: Vec<OsString>,
        #[arg(long, short = 'E')]
        pub own4: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<C5>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum C5 {
        Down(L5),
        Unit,
    }
    #[derive(Args, PartialEq)]
    pub struct L5 {
        #[arg(long, short = 'f', global = true)]
        pub g5: Option<OsString>,
        #[arg(long, global = true)]
        pub many5: Vec<OsString>,
        #[arg(long, short = 'F')]
        pub own5: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<C6>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum C6 {
        Down(L6),
        Unit,
    }
    #[derive(Args, PartialEq)]
    pub struct L6 {
        #[arg(long, short = 'g', global = true)]
        pub g6: Option<OsString>,
        #[arg(long, global = true)]
        pub many6: Vec<OsString>,
        #[arg(long, short = 'G')]
        pub own6: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<C7>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum C7 {
        Down(L7),
        Unit,
    }
    #[derive(Args, PartialEq)]
    pub struct L7 {
        #[arg(long, short = 'i', global = true)]
        pub g7: Option<OsString>,
        #[arg(long, global = true)]
        pub many7: Vec<OsString>,
        #[arg(long, short = 'I')]
        pub own7: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<C8>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum C8 {
        Down(L8),
        Unit,
    }
    #[derive(Args, PartialEq)]
    pub struct L8 {
        #[arg(long, short = 'j', global = true)]
        pub g8: Option<OsString>,
        #[arg(long, global = true)]
        pub many8: Vec<OsString>,
        #[arg(long, short = 'J')]
        pub own8: Option<OsString>,
        #[arg(long, global = true)]
        pub same: Option<OsString>,
    }
    pub const LEVELS: usize = 9;
    /// The values of the options of a level: its global one, list, own one, and the one named as elsewhere.
    pub struct Seen {
        pub glob: Option<OsString>,
        pub many: Vec<OsString>,
        pub own: Option<OsString>,
        pub same: Option<OsString>,
    }
    pub fn seen(l: L0) -> Vec<Seen> {
        let mut v = vec![];
        v.push(Seen { glob: l.g0, many: l.many0, own: l.own0, same: l.same });
        if let Some(C1::Down(l)) = l.cmd {
            v.push(Seen { glob: l.g1, many: l.many1, own: l.own1, same: l.same });
            if let Some(C2::Down(l)) = l.cmd {
                v.push(Seen { glob: l.g2, many: l.many2, own: l.own2, same: l.same });
                if let Some(C3::Down(l)) = l.cmd {
                    v.push(Seen { glob: l.g3, many: l.many3, own: l.own3, same: l.same });
                    if let Some(C4::Down(l)) = l.cmd {
                        v.push(Seen { glob: l.g4, many: l.many4, own: l.own4, same: l.same });
                        if let Some(C5::Down(l)) = l.cmd {
                            v.push(Seen { glob: l.g5, many: l.many5, own: l.own5, same: l.same });
                            if let Some(C6::Down(l)) = l.cmd {
                                v.push(Seen { glob: l.g6, many: l.many6, own: l.own6, same: l.same });
                                if let Some(C7::Down(l)) = l.cmd {
                                    v.push(Seen { glob: l.g7, many: l.many7, own: l.own7, same: l.same });
                                    if let Some(C8::Down(l)) = l.cmd {
                                        v.push(Seen { glob: l.g8, many: l.many8, own: l.own8, same: l.same });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        v
    }
}
#[cfg(feature = "p33")]
pub mod help {
    use crate::common::*;
    use palc::{Args, Parser, Subcommand};
    use std::ffi::OsString;
    #[derive(Parser)]
    pub struct Tall {
        /// word1 p0
        #[arg(long = "op0")]
        pub o0: bool,
        /// word2 word4 word6 word8 word10 word12 word14 word16 p0
        #[arg(long = "opt1", default_value = "d1")]
        pub o1: OsString,
        /// word3 word6 word9 word12 word15 word18 word21 word24 word27 word30 word33 word36 word39 word42 word45 p0
        #[arg(long = "opti2", short = 'Ă')]
        pub o2: Vec<OsString>,
        /// word4 word8 word12 word16 word20 word24 word28 word32 word36 word40 word44 word48 word52 word56 word60 word64 word68 word72 word76 word80 word84 word88 p0
        #[arg(long = "optio3")]
        pub o3: bool,
        /// word5 word10 word15 word20 word25 word30 word35 word40 word45 word50 word55 word60 word65 word70 word75 word80 word85 word90 word95 word100 word105 word110 word115 word120 word125 word130 word135 word140 word145 p0
        #[arg(long = "option4")]
        pub o4: Option<OsString>,
        /// word6 word12 word18 word24 word30 word36 word42 word48 word54 word60 word66 word72 word78 word84 word90 word96 word102 word108 word114 word120 word126 word132 word138 word144 word150 word156 word162 word168 word174 word180 word186 word192 word198 word204 word210 word216 p0
        ///
        /// word6 word12 word18 word24 word30 word36 word42 word48 word54 word60 word66 word72 word78 word84 word90 word96 word102 word108 word114 word120 word126 word132 word138 word144 word150 word156 word162 word168 word174 word180 word186 word192 word198 word204 word210 word216 p1
        ///
        /// word6 word12 word18 word24 word30 word36 word42 word48 word54 word60 word66 word72 word78 word84 word90 word96 word102 word108 word114 word120 word126 word132 word138 word144 word150 word156 word162 word168 word174 word180 word186 word192 word198 word204 word210 word216 p2
        #[arg(long = "option-5")]
        pub o5: Vec<OsString>,
        /// word7 word14 word21 word28 word35 word42 word49 word56 word63 word70 word77 word84 word91 word98 word105 word112 word119 word126 word133 word140 word147 word154 word161 word168 word175 word182 word189 word196 word203 word210 word217 word224 word231 word238 word245 word252 word259 word266 word273 word280 word287 word294 word301 p0
        #[arg(long = "option-a6", short = 'Ć')]
        pub o6: bool,
        /// word8 word16 word24 word32 word40 word48 word56 word64 word72 word80 word88 word96 word104 word112 word120 word128 word136 word144 word152 word160 word168 word176 word184 word192 word200 word208 word216 word224 word232 word240 word248 word256 word264 word272 word280 word288 word296 word304 word312 word320 word328 word336 word344 word352 word360 word368 word376 word384 word392 word400 p0
        #[arg(long = "option-ab7", default_value = "d7", hide = true)]
        pub o7: OsString,
        /// word9 word18 word27 word36 word45 word54 word63 word72 word81 word90 word99 word108 word117 word126 word135 word144 word153 word162 word171 word180 word189 word198 word207 word216 word225 word234 word243 word252 word261 word270 word279 word288 word297 word306 word315 word324 word333 word342 word351 word360 word369 word378 word387 word396 word405 word414 word423 word432 word441 word450 word459 word468 word477 word486 word495 word504 word513 p0
        #[arg(long = "option-abc8")]
        pub o8: Vec<OsString>,
        /// word10 word20 word30 word40 word50 word60 word70 word80 word90 word100 word110 word120 word130 word140 word150 word160 word170 word180 word190 word200 word210 word220 word230 word240 word250 word260 word270 word280 word290 word300 word310 word320 word330 word340 word350 word360 word370 word380 word390 word400 word410 word420 word430 word440 word450 word460 word470 word480 word490 word500 word510 word520 word530 word540 word550 word560 word570 word580 word590 word600 word610 word620 word630 word640 p0
        #[arg(long = "option-abcd9")]
        pub o9: bool,
        /// word11 word22 word33 word44 word55 word66 word77 word88 word99 word110 word121 word132 word143 word154 word165 word176 word187 word198 word209 word220 word231 word242 word253 word264 word275 word286 word297 word308 word319 word330 word341 word352 word363 word374 word385 word396 word407 word418 word429 word440 word451 word462 word473 word484 word495 word506 word517 word528 word539 word550 word561 word572 word583 word594 word605 word616 word627 word638 word649 word660 word671 word682 word693 word704 word715 word726 word737 word748 word759 word770 word781 p0
        ///
        /// word11 word22 word33 word44 word55 word66 word77 word88 word99 word110 word121 word132 word143 word154 word165 word176 word187 word198 word209 word220 word231 word242 word253 word264 word275 word286 word297 word308 word319 word330 word341 word352 word363 word374 word385 word396 word407 word418 word429 word440 word451 word462 word473 word484 word495 word506 word517 word528 word539 word550 word561 word572 word583 word594 word605 word616 word627 word638 word649 word660 word671 word682 word693 word704 word715 word726 word737 word748 word759 word770 word781 p1
        #[arg(long = "option-abcde10", short = 'Ċ')]
        pub o10: Option<OsString>,
        /// word12 word24 word36 word48 word60 word72 word84 word96 word108 word120 word132 word144 word156 word168 word180 word192 word204 word216 word228 word240 word252 word264 word276 word288 word300 word312 word324 word336 word348 word360 word372 word384 word396 word408 word420 word432 word444 word456 word468 word480 word492 word504 word516 word528 word540 word552 word564 word576 word588 word600 word612 word624 word636 word648 word660 word672 word684 word696 word708 word720 word732 word744 word756 word768 word780 word792 word804 word816 word828 word840 word852 word864 word876 word888 word900 word912 word924 word936 p0
        #[arg(long = "option-abcdef11")]
        pub o11: Vec<OsString>,
        /// word13 word26 word39 word52 word65 word78 word91 word104 word117 word130 word143 word156 word169 word182 word195 word208 word221 word234 word247 word260 word273 word286 word299 word312 word325 word338 word351 word364 word377 word390 word403 word416 word429 word442 word455 word468 word481 word494 word507 word520 word533 word546 word559 word572 word585 word598 word611 word624 word637 word650 word663 word676 word689 word702 word715 word728 word741 word754 word767 word780 word793 word806 word819 word832 word845 word858 word871 word884 word897 word910 word923 word936 word949 word962 word975 word988 word1001 word1014 word1027 word1040 word1053 word1066 word1079 word1092 word1105 p0
        #[arg(long = "option-abcdefg12")]
        pub o12: bool,
        /// word14 word28 p0
        #[arg(long = "option-abcdefgh13", default_value = "d13")]
        pub o13: OsString,
        /// word15 word30 word45 word60 word75 word90 word105 word120 word135 p0
        #[arg(long = "option-abcdefghi14", short = 'Ď')]
        pub o14: Vec<OsString>,
        /// word16 word32 word48 word64 word80 word96 word112 word128 word144 word160 word176 word192 word208 word224 word240 word256 p0
        #[arg(long = "option-abcdefghij15")]
        pub o15: bool,
        /// word17 word34 word51 word68 word85 word102 word119 word136 word153 word170 word187 word204 word221 word238 word255 word272 word289 word306 word323 word340 word357 word374 word391 p0
        #[arg(long = "option-abcdefghija16")]
        pub o16: Option<OsString>,
        /// word18 word36 word54 word72 word90 word108 word126 word144 word162 word180 word198 word216 word234 word252 word270 word288 word306 word324 word342 word360 word378 word396 word414 word432 word450 word468 word486 word504 word522 word540 p0
        #[arg(long = "option-abcdefghijab17")]
        pub o17: Vec<OsString>,
        /// word19 word38 word57 word76 word95 word114 word133 word152 word171 word190 word209 word228 word247 word266 word285 word304 word323 word342 word361 word380 word399 word418 word437 word456 word475 word494 word513 word532 word551 word570 word589 word608 word627 word646 word665 word684 word703 p0
        #[arg(long = "option-abcdefghijabc18", short = 'Ē', hide = true)]
        pub o18: bool,
        /// word20 word40 word60 word80 word100 word120 word140 word160 word180 word200 word220 word240 word260 word280 word300 word320 word340 word360 word380 word400 word420 word440 word460 word480 word500 word520 word540 word560 word580 word600 word620 word640 word660 word680 word700 word720 word740 word760 word780 word800 word820 word840 word860 word880 p0
        #[arg(long = "option-abcdefghijabcd19", default_value = "d19")]
        pub o19: OsString,
        /// word21 word42 word63 word84 word105 word126 word147 word168 word189 word210 word231 word252 word273 word294 word315 word336 word357 word378 word399 word420 word441 word462 word483 word504 word525 word546 word567 word588 word609 word630 word651 word672 word693 word714 word735 word756 word777 word798 word819 word840 word861 word882 word903 word924 word945 word966 word987 word1008 word1029 word1050 word1071 p0
        ///
        /// word21 word42 word63 word84 word105 word126 word147 word168 word189 word210 word231 word252 word273 word294 word315 word336 word357 word378 word399 word420 word441 word462 word483 word504 word525 word546 word567 word588 word609 word630 word651 word672 word693 word714 word735 word756 word777 word798 word819 word840 word861 word882 word903 word924 word945 word966 word987 word1008 word1029 word1050 word1071 p1
        ///
        /// word21 word42 word63 word84 word105 word126 word147 word168 word189 word210 word231 word252 word273 word294 word315 word336 word357 word378 word399 word420 word441 word462 word483 word504 word525 word546 word567 word588 word609 word630 word651 word672 word693 word714 word735 word756 word777 word798 word819 word840 word861 word882 word903 word924 word945 word966 word987 word1008 word1029 word1050 word1071 p2
        #[arg(long = "option-abcdefghijabcde20")]
        pub o20: Vec<OsString>,
        /// word22 word44 word66 word88 word110 word132 word154 word176 word198 word220 word242 word264 word286 word308 word330 word352 word374 word396 word418 word440 word462 word484 word506 word528 word550 word572 word594 word616 word638 word660 word682 word704 word726 word748 word770 word792 word814 word836 word858 word880 word902 word924 word946 word968 word990 word1012 word1034 word1056 word1078 word1100 word1122 word1144 word1166 word1188 word1210 word1232 word1254 word1276 p0
        #[arg(long = "option-abcdefghijabcdef21")]
        pub o21: bool,
        /// word23 word46 word69 word92 word115 word138 word161 word184 word207 word230 word253 word276 word299 word322 word345 word368 word391 word414 word437 word460 word483 word506 word529 word552 word575 word598 word621 word644 word667 word690 word713 word736 word759 word782 word805 word828 word851 word874 word897 word920 word943 word966 word989 word1012 word1035 word1058 word1081 word1104 word1127 word1150 word1173 word1196 word1219 word1242 word1265 word1288 word1311 word1334 word1357 word1380 word1403 word1426 word1449 word1472 word1495 p0
        #[arg(long = "option-abcdefghijabcdefg22", short = 'Ė')]
        pub o22: Option<OsString>,
        /// word24 word48 word72 word96 word120 word144 word168 word192 word216 word240 word264 word288 word312 word336 word360 word384 word408 word432 word456 word480 word504 word528 word552 word576 word600 word624 word648 word672 word696 word720 word744 word768 word792 word816 word840 word864 word888 word912 word936 word960 word984 word1008 word1032 word1056 word1080 word1104 word1128 word1152 word1176 word1200 word1224 word1248 word1272 word1296 word1320 word1344 word1368 word1392 word1416 word1440 word1464 word1488 word1512 word1536 word1560 word1584 word1608 word1632 word1656 word1680 word1704 word1728 p0
        #[arg(long = "option-abcdefghijabcdefgh23")]
        pub o23: Vec<OsString>,
        /// word25 word50 word75 word100 word125 word150 word175 word200 word225 word250 word275 word300 word325 word350 word375 word400 word425 word450 word475 word500 word525 word550 word575 word600 word625 word650 word675 word700 word725 word750 word775 word800 word825 word850 word875 word900 word925 word950 word975 word1000 word1025 word1050 word1075 word1100 word1125 word1150 word1175 word1200 word1225 word1250 word1275 word1300 word1325 word1350 word1375 word1400 word1425 word1450 word1475 word1500 word1525 word1550 word1575 word1600 word1625 word1650 word1675 word1700 word1725 word1750 word1775 word1800 word1825 word1850 word1875 word1900 word1925 word1950 word1975 p0
        #[arg(long = "option-abcdefghijabcdefghi24")]
        pub o24: bool,
        /// word26 word52 word78 word104 word130 word156 word182 word208 word234 word260 word286 word312 word338 word364 word390 word416 word442 word468 word494 word520 word546 word572 word598 word624 word650 word676 word702 word728 word754 word780 word806 word832 word858 word884 word910 word936 word962 word988 word1014 word1040 word1066 word1092 word1118 word1144 word1170 word1196 word1222 word1248 word1274 word1300 word1326 word1352 word1378 word1404 word1430 word1456 word1482 word1508 word1534 word1560 word1586 word1612 word1638 word1664 word1690 word1716 word1742 word1768 word1794 word1820 word1846 word1872 word1898 word1924 word1950 word1976 word2002 word2028 word2054 word2080 word2106 word2132 word2158 word2184 word2210 word2236 p0
        ///
        /// word26 word52 word78 word104 word130 word156 word182 word208 word234 word260 word286 word312 word338 word364 word390 word416 word442 word468 word494 word520 word546 word572 word598 word624 word650 word676 word702 word728 word754 word780 word806 word832 word858 word884 word910 word936 word962 word988 word1014 word1040 word1066 word1092 word1118 word1144 word1170 word1196 word1222 word1248 word1274 word1300 word1326 word1352 word1378 word1404 word1430 word1456 word1482 word1508 word1534 word1560 word1586 word1612 word1638 word1664 word1690 word1716 word1742 word1768 word1794 word1820 word1846 word1872 word1898 word1924 word1950 word1976 word2002 word2028 word2054 word2080 word2106 word2132 word2158 word2184 word2210 word2236 p1
        #[arg(long = "option-abcdefghijabcdefghij25", default_value = "d25")]
        pub o25: OsString,
        /// word27 word54 word81 p0
        #[arg(long = "option-abcdefghijabcdefghija26", short = 'Ě')]
        pub o26: Vec<OsString>,
        /// word28 word56 word84 word112 word140 word168 word196 word224 word252 word280 p0
        #[arg(long = "option-abcdefghijabcdefghijab27")]
        pub o27: bool,
        /// word29 word58 word87 word116 word145 word174 word203 word232 word261 word290 word319 word348 word377 word406 word435 word464 word493 p0
        #[arg(long = "option-abcdefghijabcdefghijabc28")]
        pub o28: Option<OsString>,
        /// word30 word60 word90 word120 word150 word180 word210 word240 word270 word300 word330 word360 word390 word420 word450 word480 word510 word540 word570 word600 word630 word660 word690 word720 p0
        #[arg(long = "option-abcdefghijabcdefghijabcd29", hide = true)]
        pub o29: Vec<OsString>,
        /// word31 word62 word93 word124 word155 word186 word217 word248 word279 word310 word341 word372 word403 word434 word465 word496 word527 word558 word589 word620 word651 word682 word713 word744 word775 word806 word837 word868 word899 word930 word961 p0
        #[arg(long = "option-abcdefghijabcdefghijabcde30", short = 'Ğ')]
        pub o30: bool,
        /// word32 word64 word96 word128 word160 word192 word224 word256 word288 word320 word352 word384 word416 word448 word480 word512 word544 word576 word608 word640 word672 word704 word736 word768 word800 word832 word864 word896 word928 word960 word992 word1024 word1056 word1088 word1120 word1152 word1184 word1216 p0
        #[arg(long = "option-abcdefghijabcdefghijabcdef31", default_value = "d31")]
        pub o31: OsString,
        /// word33 word66 word99 word132 word165 word198 word231 word264 word297 word330 word363 word396 word429 word462 word495 word528 word561 word594 word627 word660 word693 word726 word759 word792 word825 word858 word891 word924 word957 word990 word1023 word1056 word1089 word1122 word1155 word1188 word1221 word1254 word1287 word1320 word1353 word1386 word1419 word1452 word1485 p0
        #[arg(long = "option-abcdefghijabcdefghijabcdefg32")]
        pub o32: Vec<OsString>,
        /// word34 word68 word102 word136 word170 word204 word238 word272 word306 word340 word374 word408 word442 word476 word510 word544 word578 word612 word646 word680 word714 word748 word782 word816 word850 word884 word918 word952 word986 word1020 word1054 word1088 word1122 word1156 word1190 word1224 word1258 word1292 word1326 word1360 word1394 word1428 word1462 word1496 word1530 word1564 word1598 word1632 word1666 word1700 word1734 word1768 p0
        #[arg(long = "option-abcdefghijabcdefghijabcdefgh33")]
        pub o33: bool,
        /// word35 word70 word105 word140 word175 word210 word245 word280 word315 word350 word385 word420 word455 word490 word525 word560 word595 word630 word665 word700 word735 word770 word805 word840 word875 word910 word945 word980 word1015 word1050 word1085 word1120 word1155 word1190 word1225 word1260 word1295 word1330 word1365 word1400 word1435 word1470 word1505 word1540 word1575 word1610 word1645 word1680 word1715 word1750 word1785 word1820 word1855 word1890 word1925 word1960 word1995 word2030 word2065 p0
        #[arg(long = "option-abcdefghijabcdefghijabcdefghi34", short = 'Ģ')]
        pub o34: Option<OsString>,
        /// word36 word72 word108 word144 word180 word216 word252 word288 word324 word360 word396 word432 word468 word504 word540 word576 word612 word648 word684 word720 word756 word792 word828 word864 word900 word936 word972 word1008 word1044 word1080 word1116 word1152 word1188 word1224 word1260 word1296 word1332 word1368 word1404 word1440 word1476 word1512 word1548 word1584 word1620 word1656 word1692 word1728 word1764 word1800 word1836 word1872 word1908 word1944 word1980 word2016 word2052 word2088 word2124 word2160 word2196 word2232 word2268 word2304 word2340 word2376 p0
        ///
        /// word36 word72 word108 word144 word180 word216 word252 word288 word324 word360 word396 word432 word468 word504 word540 word576 word612 word648 word684 word720 word756 word792 word828 word864 word900 word936 word972 word1008 word1044 word1080 word1116 word1152 word1188 word1224 word1260 word1296 word1332 word1368 word1404 word1440 word1476 word1512 word1548 word1584 word1620 word1656 word1692 word1728 word1764 word1800 word1836 word1872 word1908 word1944 word1980 word2016 word2052 word2088 word2124 word2160 word2196 word2232 word2268 word2304 word2340 word2376 p1
        ///
        /// word36 word72 word108 word144 word180 word216 word252 word288 word324 word360 word396 word432 word468 word504 word540 word576 word612 word648 word684 word720 word756 word792 word828 word864 word900 word936 word972 word1008 word1044 word1080 word1116 word1152 word1188 word1224 word1260 word1296 word1332 word1368 word1404 word1440 word1476 word1512 word1548 word1584 word1620 word1656 word1692 word1728 word1764 word1800 word1836 word1872 word1908 word1944 word1980 word2016 word2052 word2088 word2124 word2160 word2196 word2232 word2268 word2304 word2340 word2376 p2
        #[arg(long = "option-abcdefghijabcdefghijabcdefghij35")]
        pub o35: Vec<OsString>,
        /// word37 word74 word111 word148 word185 word222 word259 word296 word333 word370 word407 word444 word481 word518 word555 word592 word629 word666 word703 word740 word777 word814 word851 word888 word925 word962 word999 word1036 word1073 word1110 word1147 word1184 word1221 word1258 word1295 word1332 word1369 word1406 word1443 word1480 word1517 word1554 word1591 word1628 word1665 word1702 word1739 word1776 word1813 word1850 word1887 word1924 word1961 word1998 word2035 word2072 word2109 word2146 word2183 word2220 word2257 word2294 word2331 word2368 word2405 word2442 word2479 word2516 word2553 word2590 word2627 word2664 word2701 p0
        #[arg(long = "op36")]
        pub o36: bool,
        /// word38 word76 word114 word152 word190 word228 word266 word304 word342 word380 word418 word456 word494 word532 word570 word608 word646 word684 word722 word760 word798 word836 word874 word912 word950 word988 word1026 word1064 word1102 word1140 word1178 word1216 word1254 word1292 word1330 word1368 word1406 word1444 word1482 word1520 word1558 word1596 word1634 word1672 word1710 word1748 word1786 word1824 word1862 word1900 word1938 word1976 word2014 word2052 word2090 word2128 word2166 word2204 word2242 word2280 word2318 word2356 word2394 word2432 word2470 word2508 word2546 word2584 word2622 word2660 word2698 word2736 word2774 word2812 word2850 word2888 word2926 word2964 word3002 word3040 p0
        #[arg(long = "opt37", default_value = "d37")]
        pub o37: OsString,
        /// word39 word78 word117 word156 word195 word234 word273 word312 word351 word390 word429 word468 word507 word546 word585 word624 word663 word702 word741 word780 word819 word858 word897 word936 word975 word1014 word1053 word1092 word1131 word1170 word1209 word1248 word1287 word1326 word1365 word1404 word1443 word1482 word1521 word1560 word1599 word1638 word1677 word1716 word1755 word1794 word1833 word1872 word1911 word1950 word1989 word2028 word2067 word2106 word2145 word2184 word2223 word2262 word2301 word2340 word2379 word2418 word2457 word2496 word2535 word2574 word2613 word2652 word2691 word2730 word2769 word2808 word2847 word2886 word2925 word2964 word3003 word3042 word3081 word3120 word3159 word3198 word3237 word3276 word3315 word3354 word3393 p0
        #[arg(long = "opti38", short = 'Ħ')]
        pub o38: Vec<OsString>,
        /// word40 word80 word120 word160 p0
        #[arg(long = "optio39")]
        pub o39: bool,
        /// word41 word82 word123 word164 word205 word246 word287 word328 word369 word410 word451 p0
        ///
        /// word41 word82 word123 word164 word205 word246 word287 word328 word369 word410 word451 p1
        #[arg(long = "option40", hide = true)]
        pub o40: Option<OsString>,
        /// word42 word84 word126 word168 word210 word252 word294 word336 word378 word420 word462 word504 word546 word588 word630 word672 word714 word756 p0
        #[arg(long = "option-41")]
        pub o41: Vec<OsString>,
        /// word43 word86 word129 word172 word215 word258 word301 word344 word387 word430 word473 word516 word559 word602 word645 word688 word731 word774 word817 word860 word903 word946 word989 word1032 word1075 p0
        #[arg(long = "option-a42", short = 'Ī')]
        pub o42: bool,
        /// word44 word88 word132 word176 word220 word264 word308 word352 word396 word440 word484 word528 word572 word616 word660 word704 word748 word792 word836 word880 word924 word968 word1012 word1056 word1100 word1144 word1188 word1232 word1276 word1320 word1364 word1408 p0
        #[arg(long = "option-ab43", default_value = "d43")]
        pub o43: OsString,
        /// word45 word90 word135 word180 word225 word270 word315 word360 word405 word450 word495 word540 word585 word630 word675 word720 word765 word810 word855 word900 word945 word990 word1035 word1080 word1125 word1170 word1215 word1260 word1305 word1350 word1395 word1440 word1485 word1530 word1575 word1620 word1665 word1710 word1755 p0
        #[arg(long = "option-abc44")]
        pub o44: Vec<OsString>,
        /// word46 word92 word138 word184 word230 word276 word322 word368 word414 word460 word506 word552 word598 word644 word690 word736 word782 word828 word874 word920 word966 word1012 word1058 word1104 word1150 word1196 word1242 word1288 word1334 word1380 word1426 word1472 word1518 word1564 word1610 word1656 word1702 word1748 word1794 word1840 word1886 word1932 word1978 word2024 word2070 word2116 p0
        #[arg(long = "option-abcd45")]
        pub o45: bool,
        /// word47 word94 word141 word188 word235 word282 word329 word376 word423 word470 word517 word564 word611 word658 word705 word752 word799 word846 word893 word940 word987 word1034 word1081 word1128 word1175 word1222 word1269 word1316 word1363 word1410 word1457 word1504 word1551 word1598 word1645 word1692 word1739 word1786 word1833 word1880 word1927 word1974 word2021 word2068 word2115 word2162 word2209 word2256 word2303 word2350 word2397 word2444 word2491 p0
        #[arg(long = "option-abcde46", short = 'Į')]
        pub o46: Option<OsString>,
        /// word48 word96 word144 word192 word240 word288 word336 word384 word432 word480 word528 word576 word624 word672 word720 word768 word816 word864 word912 word960 word1008 word1056 word1104 word1152 word1200 word1248 word1296 word1344 word1392 word1440 word1488 word1536 word1584 word1632 word1680 word1728 word1776 word1824 word1872 word1920 word1968 word2016 word2064 word2112 word2160 word2208 word2256 word2304 word2352 word2400 word2448 word2496 word2544 word2592 word2640 word2688 word2736 word2784 word2832 word2880 p0
        #[arg(long = "option-abcdef47")]
        pub o47: Vec<OsString>,
        /// word49 word98 word147 word196 word245 word294 word343 word392 word441 word490 word539 word588 word637 word686 word735 word784 word833 word882 word931 word980 word1029 word1078 word1127 word1176 word1225 word1274 word1323 word1372 word1421 word1470 word1519 word1568 word1617 word1666 word1715 word1764 word1813 word1862 word1911 word1960 word2009 word2058 word2107 word2156 word2205 word2254 word2303 word2352 word2401 word2450 word2499 word2548 word2597 word2646 word2695 word2744 word2793 word2842 word2891 word2940 word2989 word3038 word3087 word3136 word3185 word3234 word3283 p0
        #[arg(long = "option-abcdefg48")]
        pub o48: bool,
        /// word50 word100 word150 word200 word250 word300 word350 word400 word450 word500 word550 word600 word650 word700 word750 word800 word850 word900 word950 word1000 word1050 word1100 word1150 word1200 word1250 word1300 word1350 word1400 word1450 word1500 word1550 word1600 word1650 word1700 word1750 word1800 word1850 word1900 word1950 word2000 word2050 word2100 word2150 word2200 word2250 word2300 word2350 word2400 word2450 word2500 word2550 word2600 word2650 word2700 word2750 word2800 word2850 word2900 word2950 word3000 word3050 word3100 word3150 word3200 word3250 word3300 word3350 word3400 word3450 word3500 word3550 word3600 word3650 word3700 p0
        #[arg(long = "option-abcdefgh49", default_value = "d49")]
        pub o49: OsString,
        /// word51 word102 word153 word204 word255 word306 word357 word408 word459 word510 word561 word612 word663 word714 word765 word816 word867 word918 word969 word1020 word1071 word1122 word1173 word1224 word1275 word1326 word1377 word1428 word1479 word1530 word1581 word1632 word1683 word1734 word1785 word1836 word1887 word1938 word1989 word2040 word2091 word2142 word2193 word2244 word2295 word2346 word2397 word2448 word2499 word2550 word2601 word2652 word2703 word2754 word2805 word2856 word2907 word2958 word3009 word3060 word3111 word3162 word3213 word3264 word3315 word3366 word3417 word3468 word3519 word3570 word3621 word3672 word3723 word3774 word3825 word3876 word3927 word3978 word4029 word4080 word4131 p0
        ///
        /// word51 word102 word153 word204 word255 word306 word357 word408 word459 word510 word561 word612 word663 word714 word765 word816 word867 word918 word969 word1020 word1071 word1122 word1173 word1224 word1275 word1326 word1377 word1428 word1479 word1530 word1581 word1632 word1683 word1734 word1785 word1836 word1887 word1938 word1989 word2040 word2091 word2142 word2193 word2244 word2295 word2346 word2397 word2448 word2499 word2550 word2601 word2652 word2703 word2754 word2805 word2856 word2907 word2958 word3009 word3060 word3111 word3162 word3213 word3264 word3315 word3366 word3417 word3468 word3519 word3570 word3621 word3672 word3723 word3774 word3825 word3876 word3927 word3978 word4029 word4080 word4131 p1
        ///
        /// word51 word102 word153 word204 word255 word306 word357 word408 word459 word510 word561 word612 word663 word714 word765 word816 word867 word918 word969 word1020 word1071 word1122 word1173 word1224 word1275 word1326 word1377 word1428 word1479 word1530 word1581 word1632 word1683 word1734 word1785 word1836 word1887 word1938 word1989 word2040 word2091 word2142 word2193 word2244 word2295 word2346 word2397 word2448 word2499 word2550 word2601 word2652 word2703 word2754 word2805 word2856 word2907 word2958 word3009 word3060 word3111 word3162 word3213 word3264 word3315 word3366 word3417 word3468 word3519 word3570 word3621 word3672 word3723 word3774 word3825 word3876 word3927 word3978 word4029 word4080 word4131 p2
        #[arg(long = "option-abcdefghi50", short = 'Ĳ')]
        pub o50: Vec<OsString>,
        /// word52 word104 word156 word208 word260 word312 word364 word416 word468 word520 word572 word624 word676 word728 word780 word832 word884 word936 word988 word1040 word1092 word1144 word1196 word1248 word1300 word1352 word1404 word1456 word1508 word1560 word1612 word1664 word1716 word1768 word1820 word1872 word1924 word1976 word2028 word2080 word2132 word2184 word2236 word2288 word2340 word2392 word2444 word2496 word2548 word2600 word2652 word2704 word2756 word2808 word2860 word2912 word2964 word3016 word3068 word3120 word3172 word3224 word3276 word3328 word3380 word3432 word3484 word3536 word3588 word3640 word3692 word3744 word3796 word3848 word3900 word3952 word4004 word4056 word4108 word4160 word4212 word4264 word4316 word4368 word4420 word4472 word4524 word4576 p0
        #[arg(long = "option-abcdefghij51", hide = true)]
        pub o51: bool,
        /// word53 word106 word159 word212 word265 p0
        #[arg(long = "option-abcdefghija52")]
        pub o52: Option<OsString>,
        /// word54 word108 word162 word216 word270 word324 word378 word432 word486 word540 word594 word648 p0
        #[arg(long = "option-abcdefghijab53")]
        pub o53: Vec<OsString>,
        /// word55 word110 word165 word220 word275 word330 word385 word440 word495 word550 word605 word660 word715 word770 word825 word880 word935 word990 word1045 p0
        #[arg(long = "option-abcdefghijabc54", short = 'Ķ')]
        pub o54: bool,
        /// word56 word112 word168 word224 word280 word336 word392 word448 word504 word560 word616 word672 word728 word784 word840 word896 word952 word1008 word1064 word1120 word1176 word1232 word1288 word1344 word1400 word1456 p0
        ///
        /// word56 word112 word168 word224 word280 word336 word392 word448 word504 word560 word616 word672 word728 word784 word840 word896 word952 word1008 word1064 word1120 word1176 word1232 word1288 word1344 word1400 word1456 p1
        #[arg(long = "option-abcdefghijabcd55", default_value = "d55")]
        pub o55: OsString,
        /// word57 word114 word171 word228 word285 word342 word399 word456 word513 word570 word627 word684 word741 word798 word855 word912 word969 word1026 word1083 word1140 word1197 word1254 word1311 word1368 word1425 word1482 word1539 word1596 word1653 word1710 word1767 word1824 word1881 p0
        #[arg(long = "option-abcdefghijabcde56")]
        pub o56: Vec<OsString>,
        /// word58 word116 word174 word232 word290 word348 word406 word464 word522 word580 word638 word696 word754 word812 word870 word928 word986 word1044 word1102 word1160 word1218 word1276 word1334 word1392 word1450 word1508 word1566 word1624 word1682 word1740 word1798 word1856 word1914 word1972 word2030 word2088 word2146 word2204 word2262 word2320 p0
        #[arg(long = "option-abcdefghijabcdef57")]
        pub o57: bool,
        /// word59 word118 word177 word236 word295 word354 word413 word472 word531 word590 word649 word708 word767 word826 word885 word944 word1003 word1062 word1121 word1180 word1239 word1298 word1357 word1416 word1475 word1534 word1593 word1652 word1711 word1770 word1829 word1888 word1947 word2006 word2065 word2124 word2183 word2242 word2301 word2360 word2419 word2478 word2537 word2596 word2655 word2714 word2773 p0
        #[arg(long = "option-abcdefghijabcdefg58", short = 'ĺ')]
        pub o58: Option<OsString>,
        /// word60 word120 word180 word240 word300 word360 word420 word480 word540 word600 word660 word720 word780 word840 word900 word960 word1020 word1080 word1140 word1200 word1260 word1320 word1380 word1440 word1500 word1560 word1620 word1680 word1740 word1800 word1860 word1920 word1980 word2040 word2100 word2160 word2220 word2280 word2340 word2400 word2460 word2520 word2580 word2640 word2700 word2760 word2820 word2880 word2940 word3000 word3060 word3120 word3180 word3240 p0
        #[arg(long = "option-abcdefghijabcdefgh59")]
        pub o59: Vec<OsString>,
        /// word61 word122 word183 word244 word305 word366 word427 word488 word549 word610 word671 word732 word793 word854 word915 word976 word1037 word1098 word1159 word1220 word1281 word1342 word1403 word1464 word1525 word1586 word1647 word1708 word1769 word1830 word1891 word1952 word2013 word2074 word2135 word2196 word2257 word2318 word2379 word2440 word2501 word2562 word2623 word2684 word2745 word2806 word2867 word2928 word2989 word3050 word3111 word3172 word3233 word3294 word3355 word3416 word3477 word3538 word3599 word3660 word3721 p0
        #[arg(long = "option-abcdefghijabcdefghi60")]
        pub o60: bool,
        /// word62 word124 word186 word248 word310 word372 word434 word496 word558 word620 word682 word744 word806 word868 word930 word992 word1054 word1116 word1178 word1240 word1302 word1364 word1426 word1488 word1550 word1612 word1674 word1736 word1798 word1860 word1922 word1984 word2046 word2108 word2170 word2232 word2294 word2356 word2418 word2480 word2542 word2604 word2666 word2728 word2790 word2852 word2914 word2976 word3038 word3100 word3162 word3224 word3286 word3348 word3410 word3472 word3534 word3596 word3658 word3720 word3782 word3844 word3906 word3968 word4030 word4092 word4154 word4216 p0
        #[arg(long = "option-abcdefghijabcdefghij61", default_value = "d61")]
        pub o61: OsString,
        /// word63 word126 word189 word252 word315 word378 word441 word504 word567 word630 word693 word756 word819 word882 word945 word1008 word1071 word1134 word1197 word1260 word1323 word1386 word1449 word1512 word1575 word1638 word1701 word1764 word1827 word1890 word1953 word2016 word2079 word2142 word2205 word2268 word2331 word2394 word2457 word2520 word2583 word2646 word2709 word2772 word2835 word2898 word2961 word3024 word3087 word3150 word3213 word3276 word3339 word3402 word3465 word3528 word3591 word3654 word3717 word3780 word3843 word3906 word3969 word4032 word4095 word4158 word4221 word4284 word4347 word4410 word4473 word4536 word4599 word4662 word4725 p0
        #[arg(long = "option-abcdefghijabcdefghija62", short = 'ľ', hide = true)]
        pub o62: Vec<OsString>,
        /// word64 word128 word192 word256 word320 word384 word448 word512 word576 word640 word704 word768 word832 word896 word960 word1024 word1088 word1152 word1216 word1280 word1344 word1408 word1472 word1536 word1600 word1664 word1728 word1792 word1856 word1920 word1984 word2048 word2112 word2176 word2240 word2304 word2368 word2432 word2496 word2560 word2624 word2688 word2752 word2816 word2880 word2944 word3008 word3072 word3136 word3200 word3264 word3328 word3392 word3456 word3520 word3584 word3648 word3712 word3776 word3840 word3904 word3968 word4032 word4096 word4160 word4224 word4288 word4352 word4416 word4480 word4544 word4608 word4672 word4736 word4800 word4864 word4928 word4992 word5056 word5120 word5184 word5248 p0
        #[arg(long = "option-abcdefghijabcdefghijab63")]
        pub o63: bool,
        /// word65 word130 word195 word260 word325 word390 word455 word520 word585 word650 word715 word780 word845 word910 word975 word1040 word1105 word1170 word1235 word1300 word1365 word1430 word1495 word1560 word1625 word1690 word1755 word1820 word1885 word1950 word2015 word2080 word2145 word2210 word2275 word2340 word2405 word2470 word2535 word2600 word2665 word2730 word2795 word2860 word2925 word2990 word3055 word3120 word3185 word3250 word3315 word3380 word3445 word3510 word3575 word3640 word3705 word3770 word3835 word3900 word3965 word4030 word4095 word4160 word4225 word4290 word4355 word4420 word4485 word4550 word4615 word4680 word4745 word4810 word4875 word4940 word5005 word5070 word5135 word5200 word5265 word5330 word5395 word5460 word5525 word5590 word5655 word5720 word5785 p0
        #[arg(long = "option-abcdefghijabcdefghijabc64")]
        pub o64: Option<OsString>,
        /// word66 word132 word198 word264 word330 word396 p0
        ///
        /// word66 word132 word198 word264 word330 word396 p1
        ///
        /// word66 word132 word198 word264 word330 word396 p2
        #[arg(long = "option-abcdefghijabcdefghijabcd65")]
        pub o65: Vec<OsString>,
        /// word67 word134 word201 word268 word335 word402 word469 word536 word603 word670 word737 word804 word871 p0
        #[arg(long = "option-abcdefghijabcdefghijabcde66", short = 'ł')]
        pub o66: bool,
        /// word68 word136 word204 word272 word340 word408 word476 word544 word612 word680 word748 word816 word884 word952 word1020 word1088 word1156 word1224 word1292 word1360 p0
        #[arg(long = "option-abcdefghijabcdefghijabcdef67", default_value = "d67")]
        pub o67: OsString,
        /// word69 word138 word207 word276 word345 word414 word483 word552 word621 word690 word759 word828 word897 word966 word1035 word1104 word1173 word1242 word1311 word1380 word1449 word1518 word1587 word1656 word1725 word1794 word1863 p0
        #[arg(long = "option-abcdefghijabcdefghijabcdefg68")]
        pub o68: Vec<OsString>,
        /// word70 word140 word210 word280 word350 word420 word490 word560 word630 word700 word770 word840 word910 word980 word1050 word1120 word1190 word1260 word1330 word1400 word1470 word1540 word1610 word1680 word1750 word1820 word1890 word1960 word2030 word2100 word2170 word2240 word2310 word2380 p0
        #[arg(long = "option-abcdefghijabcdefghijabcdefgh69")]
        pub o69: bool,
        pub p0: Option<OsString>,
        /// pos1
        pub p1: Option<OsString>,
        /// pos2 pos2
        pub p2: Option<OsString>,
        /// pos3 pos3 pos3
        pub p3: Option<OsString>,
        /// pos4 pos4 pos4 pos4
        pub p4: Option<OsString>,
        pub p5: Option<OsString>,
        /// pos6
        pub p6: Option<OsString>,
        /// pos7 pos7
        pub p7: Option<OsString>,
        /// pos8 pos8 pos8
        pub p8: Option<OsString>,
        /// pos9 pos9 pos9 pos9
        pub p9: Option<OsString>,
        pub p10: Option<OsString>,
        /// pos11
        pub p11: Option<OsString>,
        /// pos12 pos12
        pub p12: Option<OsString>,
        /// pos13 pos13 pos13
        pub p13: Option<OsString>,
        /// pos14 pos14 pos14 pos14
        pub p14: Option<OsString>,
        pub p15: Option<OsString>,
        /// pos16
        pub p16: Option<OsString>,
        /// pos17 pos17
        pub p17: Option<OsString>,
        /// pos18 pos18 pos18
        pub p18: Option<OsString>,
        /// pos19 pos19 pos19 pos19
        pub p19: Option<OsString>,
        pub p20: Option<OsString>,
        /// pos21
        pub p21: Option<OsString>,
        /// pos22 pos22
        pub p22: Option<OsString>,
        /// pos23 pos23 pos23
        pub p23: Option<OsString>,
        /// pos24 pos24 pos24 pos24
        pub p24: Option<OsString>,
        pub p25: Option<OsString>,
        /// pos26
        pub p26: Option<OsString>,
        /// pos27 pos27
        pub p27: Option<OsString>,
        /// pos28 pos28 pos28
        pub p28: Option<OsString>,
        /// pos29 pos29 pos29 pos29
        pub p29: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<Cmds>,
    }
    #[derive(Subcommand)]
    pub enum Cmds {
        Sub0,
        /// about1
        Suba1,
        /// about2 about3
        Subab2,
        /// about3 about4 about5
        Subabc3,
        /// about4 about5 about6 about7
        Subabcd4,
        /// about5 about6 about7 about8 about9
        Subabcde5,
        /// about6 about7 about8 about9 about10 about11
        Subabcdef6,
        /// about7 about8 about9 about10 about11 about12 about13
        Subabcdefg7,
        /// about8 about9 about10 about11 about12 about13 about14 about15
        Subabcdefgh8,
        /// about9 about10 about11 about12 about13 about14 about15 about16 about17
        Subabcdefghi9,
        /// about10 about11 about12 about13 about14 about15 about16 about17 about18 about19
        Subabcdefghij10,
        /// about11 about12 about13 about14 about15 about16 about17 about18 about19 about20 about21
        Subabcdefghijk11,
        /// about12 about13 about14 about15 about16 about17 about18 about19 about20 about21 about22 about23
        Subabcdefghijkl12,
        /// about13 about14 about15 about16 about17 about18 about19 about20 about21 about22 about23 about24 about25
        Subabcdefghijklm13,
        /// about14 about15 about16 about17 about18 about19 about20 about21 about22 about23 about24 about25 about26 about27
        Subabcdefghijklmn14,
        /// about15 about16 about17 about18 about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29
        Subabcdefghijklmno15,
        /// about16 about17 about18 about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31
        Subabcdefghijklmnop16,
        /// about17 about18 about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33
        Subabcdefghijklmnopq17,
        /// about18 about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35
        Subabcdefghijklmnopqr18,
        /// about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37
        Subabcdefghijklmnopqrs19,
        /// about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39
        Subabcdefghijklmnopqrst20,
        /// about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41
        Subabcdefghijklmnopqrstu21,
        /// about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43
        Subabcdefghijklmnopqrstuv22,
        /// about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45
        Subabcdefghijklmnopqrstuvw23,
        /// about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47
        Subabcdefghijklmnopqrstuvwx24,
        /// about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49
        Subabcdefghijklmnopqrstuvwxy25,
        /// about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51
        Subabcdefghijklmnopqrstuvwxyz26,
        /// about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53
        Sub27,
        /// about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55
        Suba28,
        /// about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57
        Subab29,
        Subabc30,
        /// about31
        Subabcd31,
        /// about32 about33
        Subabcde32,
        /// about33 about34 about35
        Subabcdef33,
        /// about34 about35 about36 about37
        Subabcdefg34,
        /// about35 about36 about37 about38 about39
        Subabcdefgh35,
        /// about36 about37 about38 about39 about40 about41
        Subabcdefghi36,
        /// about37 about38 about39 about40 about41 about42 about43
        Subabcdefghij37,
        /// about38 about39 about40 about41 about42 about43 about44 about45
        Subabcdefghijk38,
        /// about39 about40 about41 about42 about43 about44 about45 about46 about47
        Subabcdefghijkl39,
        /// about40 about41 about42 about43 about44 about45 about46 about47 about48 about49
        Subabcdefghijklm40,
        /// about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51
        Subabcdefghijklmn41,
        /// about42 about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53
        Subabcdefghijklmno42,
        /// about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55
        Subabcdefghijklmnop43,
        /// about44 about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57
        Subabcdefghijklmnopq44,
        /// about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59
        Subabcdefghijklmnopqr45,
        /// about46 about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61
        Subabcdefghijklmnopqrs46,
        /// about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63
        Subabcdefghijklmnopqrst47,
        /// about48 about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65
        Subabcdefghijklmnopqrstu48,
        /// about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67
        Subabcdefghijklmnopqrstuv49,
        /// about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69
        Subabcdefghijklmnopqrstuvw50,
        /// about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71
        Subabcdefghijklmnopqrstuvwx51,
        /// about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73
        Subabcdefghijklmnopqrstuvwxy52,
        /// about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75
        Subabcdefghijklmnopqrstuvwxyz53,
        /// about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77
        Sub54,
        /// about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79
        Suba55,
        /// about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79 about80 about81
        Subab56,
        /// about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79 about80 about81 about82 about83
        Subabc57,
        /// about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79 about80 about81 about82 about83 about84 about85
        Subabcd58,
        /// about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79 about80 about81 about82 about83 about84 about85 about86 about87
        Subabcde59,
    }
    pub const OPTIONS: &[(&str, &[&str])] = &[("--op0", &["word1 p0"]), ("--opt1 <O1>", &["word2 word4 word6 word8 word10 word12 word14 word16 p0", "[default: d1]"]), ("-Ă, --opti2 <O2>", &["word3 word6 word9 word12 word15 word18 word21 word24 word27 word30 word33 word36 word39 word42 word45 p0"]), ("--optio3", &["word4 word8 word12 word16 word20 word24 word28 word32 word36 word40 word44 word48 word52 word56 word60 word64 word68 word72 word76 word80 word84 word88 p0"]), ("--option4 <O4>", &["word5 word10 word15 word20 word25 word30 word35 word40 word45 word50 word55 word60 word65 word70 word75 word80 word85 word90 word95 word100 word105 word110 word115 word120 word125 word130 word135 word140 word145 p0"]), ("--option-5 <O5>", &["word6 word12 word18 word24 word30 word36 word42 word48 word54 word60 word66 word72 word78 word84 word90 word96 word102 word108 word114 word120 word126 word132 word138 word144 word150 word156 word162 word168 word174 word180 word186 word192 word198 word204 word210 word216 p0", "word6 word12 word18 word24 word30 word36 word42 word48 word54 word60 word66 word72 word78 word84 word90 word96 word102 word108 word114 word120 word126 word132 word138 word144 word150 word156 word162 word168 word174 word180 word186 word192 word198 word204 word210 word216 p1", "word6 word12 word18 word24 word30 word36 word42 word48 word54 word60 word66 word72 word78 word84 word90 word96 word102 word108 word114 word120 word126 word132 word138 word144 word150 word156 word162 word168 word174 word180 word186 word192 word198 word204 word210 word216 p2"]), ("-Ć, --option-a6", &["word7 word14 word21 word28 word35 word42 word49 word56 word63 word70 word77 word84 word91 word98 word105 word112 word119 word126 word133 word140 word147 word154 word161 word168 word175 word182 word189 word196 word203 word210 word217 word224 word231 word238 word245 word252 word259 word266 word273 word280 word287 word294 word301 p0"]), ("--option-abc8 <O8>", &["word9 word18 word27 word36 word45 word54 word63 word72 word81 word90 word99 word108 word117 word126 word135 word144 word153 word162 word171 word180 word189 word198 word207 word216 word225 word234 word243 word252 word261 word270 word279 word288 word297 word306 word315 word324 word333 word342 word351 word360 word369 word378 word387 word396 word405 word414 word423 word432 word441 word450 word459 word468 word477 word486 word495 word504 word513 p0"]), ("--option-abcd9", &["word10 word20 word30 word40 word50 word60 word70 word80 word90 word100 word110 word120 word130 word140 word150 word160 word170 word180 word190 word200 word210 word220 word230 word240 word250 word260 word270 word280 word290 word300 word310 word320 word330 word340 word350 word360 word370 word380 word390 word400 word410 word420 word430 word440 word450 word460 word470 word480 word490 word500 word510 word520 word530 word540 word550 word560 word570 word580 word590 word600 word610 word620 word630 word640 p0"]), ("-Ċ, --option-abcde10 <O10>", &["word11 word22 word33 word44 word55 word66 word77 word88 word99 word110 word121 word132 word143 word154 word165 word176 word187 word198 word209 word220 word231 word242 word253 word264 word275 word286 word297 word308 word319 word330 word341 word352 word363 word374 word385 word396 word407 word418 word429 word440 word451 word462 word473 word484 word495 word506 word517 word528 word539 word550 word561 word572 word583 word594 word605 word616 word627 word638 word649 word660 word671 word682 word693 word704 word715 word726 word737 word748 word759 word770 word781 p0", "word11 word22 word33 word44 word55 word66 word77 word88 word99 word110 word121 word132 word143 word154 word165 word176 word187 word198 word209 word220 word231 word242 word253 word264 word275 word286 word297 word308 word319 word330 word341 word352 word363 word374 word385 word396 word407 word418 word429 word440 word451 word462 word473 word484 word495 word506 word517 word528 word539 word550 word561 word572 word583 word594 word605 word616 word627 word638 word649 word660 word671 word682 word693 word704 word715 word726 word737 word748 word759 word770 word781 p1"]), ("--option-abcdef11 <O11>", &["word12 word24 word36 word48 word60 word72 word84 word96 word108 word120 word132 word144 word156 word168 word180 word192 word204 word216 word228 word240 word252 word264 word276 word288 word300 word312 word324 word336 word348 word360 word372 word384 word396 word408 word420 word432 word444 word456 word468 word480 word492 word504 word516 word528 word540 word552 word564 word576 word588 word600 word612 word624 word636 word648 word660 word672 word684 word696 word708 word720 word732 word744 word756 word768 word780 word792 word804 word816 word828 word840 word852 word864 word876 word888 word900 word912 word924 word936 p0"]), ("--option-abcdefg12", &["word13 word26 word39 word52 word65 word78 word91 word104 word117 word130 word143 word156 word169 word182 word195 word208 word221 word234 word247 word260 word273 word286 word299 word312 word325 word338 word351 word364 word377 word390 word403 word416 word429 word442 word455 word468 word481 word494 word507 word520 word533 word546 word559 word572 word585 word598 word611 word624 word637 word650 word663 word676 word689 word702 word715 word728 word741 word754 word767 word780 word793 word806 word819 word832 word845 word858 word871 word884 word897 word910 word923 word936 word949 word962 word975 word988 word1001 word1014 word1027 word1040 word1053 word1066 word1079 word1092 word1105 p0"]), ("--option-abcdefgh13 <O13>", &["word14 word28 p0", "[default: d13]"]), ("-Ď, --option-abcdefghi14 <O14>", &["word15 word30 word45 word60 word75 word90 word105 word120 word135 p0"]), ("--option-abcdefghij15", &["word16 word32 word48 word64 word80 word96 word112 word128 word144 word160 word176 word192 word208 word224 word240 word256 p0"]), ("--option-abcdefghija16 <O16>", &["word17 word34 word51 word68 word85 word102 word119 word136 word153 word170 word187 word204 word221 word238 word255 word272 word289 word306 word323 word340 word357 word374 word391 p0"]), ("--option-abcdefghijab17 <O17>", &["word18 word36 word54 word72 word90 word108 word126 word144 word162 word180 word198 word216 word234 word252 word270 word288 word306 word324 word342 word360 word378 word396 word414 word432 word450 word468 word486 word504 word522 word540 p0"]), ("--option-abcdefghijabcd19 <O19>", &["word20 word40 word60 word80 word100 word120 word140 word160 word180 word200 word220 word240 word260 word280 word300 word320 word340 word360 word380 word400 word420 word440 word460 word480 word500 word520 word540 word560 word580 word600 word620 word640 word660 word680 word700 word720 word740 word760 word780 word800 word820 word840 word860 word880 p0", "[default: d19]"]), ("--option-abcdefghijabcde20 <O20>", &["word21 word42 word63 word84 word105 word126 word147 word168 word189 word210 word231 word252 word273 word294 word315 word336 word357 word378 word399 word420 word441 word462 word483 word504 word525 word546 word567 word588 word609 word630 word651 word672 word693 word714 word735 word756 word777 word798 word819 word840 word861 word882 word903 word924 word945 word966 word987 word1008 word1029 word1050 word1071 p0", "word21 word42 word63 word84 word105 word126 word147 word168 word189 word210 word231 word252 word273 word294 word315 word336 word357 word378 word399 word420 word441 word462 word483 word504 word525 word546 word567 word588 word609 word630 word651 word672 word693 word714 word735 word756 word777 word798 word819 word840 word861 word882 word903 word924 word945 word966 word987 word1008 word1029 word1050 word1071 p1", "word21 word42 word63 word84 word105 word126 word147 word168 word189 word210 word231 word252 word273 word294 word315 word336 word357 word378 word399 word420 word441 word462 word483 word504 word525 word546 word567 word588 word609 word630 word651 word672 word693 word714 word735 word756 word777 word798 word819 word840 word861 word882 word903 word924 word945 word966 word987 word1008 word1029 word1050 word1071 p2"]), ("--option-abcdefghijabcdef21", &["word22 word44 word66 word88 word110 word132 word154 word176 word198 word220 word242 word264 word286 word308 word330 word352 word374 word396 word418 word440 word462 word484 word506 word528 word550 word572 word594 word616 word638 word660 word682 word704 word726 word748 word770 word792 word814 word836 word858 word880 word902 word924 word946 word968 word990 word1012 word1034 word1056 word1078 word1100 word1122 word1144 word1166 word1188 word1210 word1232 word1254 word1276 p0"]), ("-Ė, --option-abcdefghijabcdefg22 <O22>", &["word23 word46 word69 word92 word115 word138 word161 word184 word207 word230 word253 word276 word299 word322 word345 word368 word391 word414 word437 word460 word483 word506 word529 word552 word575 word598 word621 word644 word667 word690 word713 word736 word759 word782 word805 word828 word851 word874 word897 word920 word943 word966 word989 word1012 word1035 word1058 word1081 word1104 word1127 word1150 word1173 word1196 word1219 word1242 word1265 word1288 word1311 word1334 word1357 word1380 word1403 word1426 word1449 word1472 word1495 p0"]), ("--option-abcdefghijabcdefgh23 <O23>", &["word24 word48 word72 word96 word120 word144 word168 word192 word216 word240 word264 word288 word312 word336 word360 word384 word408 word432 word456 word480 word504 word528 word552 word576 word600 word624 word648 word672 word696 word720 word744 word768 word792 word816 word840 word864 word888 word912 word936 word960 word984 word1008 word1032 word1056 word1080 word1104 word1128 word1152 word1176 word1200 word1224 word1248 word1272 word1296 word1320 word1344 word1368 word1392 word1416 word1440 word1464 word1488 word1512 word1536 word1560 word1584 word1608 word1632 word1656 word1680 word1704 word1728 p0"]), ("--option-abcdefghijabcdefghi24", &["word25 word50 word75 word100 word125 word150 word175 word200 word225 word250 word275 word300 word325 word350 word375 word400 word425 word450 word475 word500 word525 word550 word575 word600 word625 word650 word675 word700 word725 word750 word775 word800 word825 word850 word875 word900 word925 word950 word975 word1000 word1025 word1050 word1075 word1100 word1125 word1150 word1175 word1200 word1225 word1250 word1275 word1300 word1325 word1350 word1375 word1400 word1425 word1450 word1475 word1500 word1525 word1550 word1575 word1600 word1625 word1650 word1675 word1700 word1725 word1750 word1775 word1800 word1825 word1850 word1875 word1900 word1925 word1950 word1975 p0"]), ("--option-abcdefghijabcdefghij25 <O25>", &["word26 word52 word78 word104 word130 word156 word182 word208 word234 word260 word286 word312 word338 word364 word390 word416 word442 word468 word494 word520 word546 word572 word598 word624 word650 word676 word702 word728 word754 word780 word806 word832 word858 word884 word910 word936 word962 word988 word1014 word1040 word1066 word1092 word1118 word1144 word1170 word1196 word1222 word1248 word1274 word1300 word1326 word1352 word1378 word1404 word1430 word1456 word1482 word1508 word1534 word1560 word1586 word1612 word1638 word1664 word1690 word1716 word1742 word1768 word1794 word1820 word1846 word1872 word1898 word1924 word1950 word1976 word2002 word2028 word2054 word2080 word2106 word2132 word2158 word2184 word2210 word2236 p0", "word26 word52 word78 word104 word130 word156 word182 word208 word234 word260 word286 word312 word338 word364 word390 word416 word442 word468 word494 word520 word546 word572 word598 word624 word650 word676 word702 word728 word754 word780 word806 word832 word858 word884 word910 word936 word962 word988 word1014 word1040 word1066 word1092 word1118 word1144 word1170 word1196 word1222 word1248 word1274 word1300 word1326 word1352 word1378 word1404 word1430 word1456 word1482 word1508 word1534 word1560 word1586 word1612 word1638 word1664 word1690 word1716 word1742 word1768 word1794 word1820 word1846 word1872 word1898 word1924 word1950 word1976 word2002 word2028 word2054 word2080 word2106 word2132 word2158 word2184 word2210 word2236 p1", "[default: d25]"]), ("-Ě, --option-abcdefghijabcdefghija26 <O26>", &["word27 word54 word81 p0"]), ("--option-abcdefghijabcdefghijab27", &["word28 word56 word84 word112 word140 word168 word196 word224 word252 word280 p0"]), ("--option-abcdefghijabcdefghijabc28 <O28>", &["word29 word58 word87 word116 word145 word174 word203 word232 word261 word290 word319 word348 word377 word406 word435 word464 word493 p0"]), ("-Ğ, --option-abcdefghijabcdefghijabcde30", &["word31 word62 word93 word124 word155 word186 word217 word248 word279 word310 word341 word372 word403 word434 word465 word496 word527 word558 word589 word620 word651 word682 word713 word744 word775 word806 word837 word868 word899 word930 word961 p0"]), ("--option-abcdefghijabcdefghijabcdef31 <O31>", &["word32 word64 word96 word128 word160 word192 word224 word256 word288 word320 word352 word384 word416 word448 word480 word512 word544 word576 word608 word640 word672 word704 word736 word768 word800 word832 word864 word896 word928 word960 word992 word1024 word1056 word1088 word1120 word1152 word1184 word1216 p0", "[default: d31]"]), ("--option-abcdefghijabcdefghijabcdefg32 <O32>", &["word33 word66 word99 word132 word165 word198 word231 word264 word297 word330 word363 word396 word429 word462 word495 word528 word561 word594 word627 word660 word693 word726 word759 word792 word825 word858 word891 word924 word957 word990 word1023 word1056 word1089 word1122 word1155 word1188 word1221 word1254 word1287 word1320 word1353 word1386 word1419 word1452 word1485 p0"]), ("--option-abcdefghijabcdefghijabcdefgh33", &["word34 word68 word102 word136 word170 word204 word238 word272 word306 word340 word374 word408 word442 word476 word510 word544 word578 word612 word646 word680 word714 word748 word782 word816 word850 word884 word918 word952 word986 word1020 word1054 word1088 word1122 word1156 word1190 word1224 word1258 word1292 word1326 word1360 word1394 word1428 word1462 word1496 word1530 word1564 word1598 word1632 word1666 word1700 word1734 word1768 p0"]), ("-Ģ, --option-abcdefghijabcdefghijabcdefghi34 <O34>", &["word35 word70 word105 word140 word175 word210 word245 word280 word315 word350 word385 word420 word455 word490 word525 word560 word595 word630 word665 word700 word735 word770 word805 word840 word875 word910 word945 word980 word1015 word1050 word1085 word1120 word1155 word1190 word1225 word1260 word1295 word1330 word1365 word1400 word1435 word1470 word1505 word1540 word1575 word1610 word1645 word1680 word1715 word1750 word1785 word1820 word1855 word1890 word1925 word1960 word1995 word2030 word2065 p0"]), ("--option-abcdefghijabcdefghijabcdefghij35 <O35>", &["word36 word72 word108 word144 word180 word216 word252 word288 word324 word360 word396 word432 word468 word504 word540 word576 word612 word648 word684 word720 word756 word792 word828 word864 word900 word936 word972 word1008 word1044 word1080 word1116 word1152 word1188 word1224 word1260 word1296 word1332 word1368 word1404 word1440 word1476 word1512 word1548 word1584 word1620 word1656 word1692 word1728 word1764 word1800 word1836 word1872 word1908 word1944 word1980 word2016 word2052 word2088 word2124 word2160 word2196 word2232 word2268 word2304 word2340 word2376 p0", "word36 word72 word108 word144 word180 word216 word252 word288 word324 word360 word396 word432 word468 word504 word540 word576 word612 word648 word684 word720 word756 word792 word828 word864 word900 word936 word972 word1008 word1044 word1080 word1116 word1152 word1188 word1224 word1260 word1296 word1332 word1368 word1404 word1440 word1476 word1512 word1548 word1584 word1620 word1656 word1692 word1728 word1764 word1800 word1836 word1872 word1908 word1944 word1980 word2016 word2052 word2088 word2124 word2160 word2196 word2232 word2268 word2304 word2340 word2376 p1", "word36 word72 word108 word144 word180 word216 word252 word288 word324 word360 word396 word432 word468 word504 word540 word576 word612 word648 word684 word720 word756 word792 word828 word864 word900 word936 word972 word1008 word1044 word1080 word1116 word1152 word1188 word1224 word1260 word1296 word1332 word1368 word1404 word1440 word1476 word1512 word1548 word1584 word1620 word1656 word1692 word1728 word1764 word1800 word1836 word1872 word1908 word1944 word1980 word2016 word2052 word2088 word2124 word2160 word2196 word2232 word2268 word2304 word2340 word2376 p2"]), ("--op36", &["word37 word74 word111 word148 word185 word222 word259 word296 word333 word370 word407 word444 word481 word518 word555 word592 word629 word666 word703 word740 word777 word814 word851 word888 word925 word962 word999 word1036 word1073 word1110 word1147 word1184 word1221 word1258 word1295 word1332 word1369 word1406 word1443 word1480 word1517 word1554 word1591 word1628 word1665 word1702 word1739 word1776 word1813 word1850 word1887 word1924 word1961 word1998 word2035 word2072 word2109 word2146 word2183 word2220 word2257 word2294 word2331 word2368 word2405 word2442 word2479 word2516 word2553 word2590 word2627 word2664 word2701 p0"]), ("--opt37 <O37>", &["word38 word76 word114 word152 word190 word228 word266 word304 word342 word380 word418 word456 word494 word532 word570 word608 word646 word684 word722 word760 word798 word836 word874 word912 word950 word988 word1026 word1064 word1102 word1140 word1178 word1216 word1254 word1292 word1330 word1368 word1406 word1444 word1482 word1520 word1558 word1596 word1634 word1672 word1710 word1748 word1786 word1824 word1862 word1900 word1938 word1976 word2014 word2052 word2090 word2128 word2166 word2204 word2242 word2280 word2318 word2356 word2394 word2432 word2470 word2508 word2546 word2584 word2622 word2660 word2698 word2736 word2774 word2812 word2850 word2888 word2926 word2964 word3002 word3040 p0", "[default: d37]"]), ("-Ħ, --opti38 <O38>", &["word39 word78 word117 word156 word195 word234 word273 word312 word351 word390 word429 word468 word507 word546 word585 word624 word663 word702 word741 word780 word819 word858 word897 word936 word975 word1014 word1053 word1092 word1131 word1170 word1209 word1248 word1287 word1326 word1365 word1404 word1443 word1482 word1521 word1560 word1599 word1638 word1677 word1716 word1755 word1794 word1833 word1872 word1911 word1950 word1989 word2028 word2067 word2106 word2145 word2184 word2223 word2262 word2301 word2340 word2379 word2418 word2457 word2496 word2535 word2574 word2613 word2652 word2691 word2730 word2769 word2808 word2847 word2886 word2925 word2964 word3003 word3042 word3081 word3120 word3159 word3198 word3237 word3276 word3315 word3354 word3393 p0"]), ("--optio39", &["word40 word80 word120 word160 p0"]), ("--option-41 <O41>", &["word42 word84 word126 word168 word210 word252 word294 word336 word378 word420 word462 word504 word546 word588 word630 word672 word714 word756 p0"]), ("-Ī, --option-a42", &["word43 word86 word129 word172 word215 word258 word301 word344 word387 word430 word473 word516 word559 word602 word645 word688 word731 word774 word817 word860 word903 word946 word989 word1032 word1075 p0"]), ("--option-ab43 <O43>", &["word44 word88 word132 word176 word220 word264 word308 word352 word396 word440 word484 word528 word572 word616 word660 word704 word748 word792 word836 word880 word924 word968 word1012 word1056 word1100 word1144 word1188 word1232 word1276 word1320 word1364 word1408 p0", "[default: d43]"]), ("--option-abc44 <O44>", &["word45 word90 word135 word180 word225 word270 word315 word360 word405 word450 word495 word540 word585 word630 word675 word720 word765 word810 word855 word900 word945 word990 word1035 word1080 word1125 word1170 word1215 word1260 word1305 word1350 word1395 word1440 word1485 word1530 word1575 word1620 word1665 word1710 word1755 p0"]), ("--option-abcd45", &["word46 word92 word138 word184 word230 word276 word322 word368 word414 word460 word506 word552 word598 word644 word690 word736 word782 word828 word874 word920 word966 word1012 word1058 word1104 word1150 word1196 word1242 word1288 word1334 word1380 word1426 word1472 word1518 word1564 word1610 word1656 word1702 word1748 word1794 word1840 word1886 word1932 word1978 word2024 word2070 word2116 p0"]), ("-Į, --option-abcde46 <O46>", &["word47 word94 word141 word188 word235 word282 word329 word376 word423 word470 word517 word564 word611 word658 word705 word752 word799 word846 word893 word940 word987 word1034 word1081 word1128 word1175 word1222 word1269 word1316 word1363 word1410 word1457 word1504 word1551 word1598 word1645 word1692 word1739 word1786 word1833 word1880 word1927 word1974 word2021 word2068 word2115 word2162 word2209 word2256 word2303 word2350 word2397 word2444 word2491 p0"]), ("--option-abcdef47 <O47>", &["word48 word96 word144 word192 word240 word288 word336 word384 word432 word480 word528 word576 word624 word672 word720 word768 word816 word864 word912 word960 word1008 word1056 word1104 word1152 word1200 word1248 word1296 word1344 word1392 word1440 word1488 word1536 word1584 word1632 word1680 word1728 word1776 word1824 word1872 word1920 word1968 word2016 word2064 word2112 word2160 word2208 word2256 word2304 word2352 word2400 word2448 word2496 word2544 word2592 word2640 word2688 word2736 word2784 word2832 word2880 p0"]), ("--option-abcdefg48", &["word49 word98 word147 word196 word245 word294 word343 word392 word441 word490 word539 word588 word637 word686 word735 word784 word833 word882 word931 word980 word1029 word1078 word1127 word1176 word1225 word1274 word1323 word1372 word1421 word1470 word1519 word1568 word1617 word1666 word1715 word1764 word1813 word1862 word1911 word1960 word2009 word2058 word2107 word2156 word2205 word2254 word2303 word2352 word2401 word2450 word2499 word2548 word2597 word2646 word2695 word2744 word2793 word2842 word2891 word2940 word2989 word3038 word3087 word3136 word3185 word3234 word3283 p0"]), ("--option-abcdefgh49 <O49>", &["word50 word100 word150 word200 word250 word300 word350 word400 word450 word500 word550 word600 word650 word700 word750 word800 word850 word900 word950 word1000 word1050 word1100 word1150 word1200 word1250 word1300 word1350 word1400 word1450 word1500 word1550 word1600 word1650 word1700 word1750 word1800 word1850 word1900 word1950 word2000 word2050 word2100 word2150 word2200 word2250 word2300 word2350 word2400 word2450 word2500 word2550 word2600 word2650 word2700 word2750 word2800 word2850 word2900 word2950 word3000 word3050 word3100 word3150 word3200 word3250 word3300 word3350 word3400 word3450 word3500 word3550 word3600 word3650 word3700 p0", "[default: d49]"]), ("-Ĳ, --option-abcdefghi50 <O50>", &["word51 word102 word153 word204 word255 word306 word357 word408 word459 word510 word561 word612 word663 word714 word765 word816 word867 word918 word969 word1020 word1071 word1122 word1173 word1224 word1275 word1326 word1377 word1428 word1479 word1530 word1581 word1632 word1683 word1734 word1785 word1836 word1887 word1938 word1989 word2040 word2091 word2142 word2193 word2244 word2295 word2346 word2397 word2448 word2499 word2550 word2601 word2652 word2703 word2754 word2805 word2856 word2907 word2958 word3009 word3060 word3111 word3162 word3213 word3264 word3315 word3366 word3417 word3468 word3519 word3570 word3621 word3672 word3723 word3774 word3825 word3876 word3927 word3978 word4029 word4080 word4131 p0", "word51 word102 word153 word204 word255 word306 word357 word408 word459 word510 word561 word612 word663 word714 word765 word816 word867 word918 word969 word1020 word1071 word1122 word1173 word1224 word1275 word1326 word1377 word1428 word1479 word1530 word1581 word1632 word1683 word1734 word1785 word1836 word1887 word1938 word1989 word2040 word2091 word2142 word2193 word2244 word2295 word2346 word2397 word2448 word2499 word2550 word2601 word2652 word2703 word2754 word2805 word2856 word2907 word2958 word3009 word3060 word3111 word3162 word3213 word3264 word3315 word3366 word3417 word3468 word3519 word3570 word3621 word3672 word3723 word3774 word3825 word3876 word3927 word3978 word4029 word4080 word4131 p1", "word51 word102 word153 word204 word255 word306 word357 word408 word459 word510 word561 word612 word663 word714 word765 word816 word867 word918 word969 word1020 word1071 word1122 word1173 word1224 word1275 word1326 word1377 word1428 word1479 word1530 word1581 word1632 word1683 word1734 word1785 word1836 word1887 word1938 word1989 word2040 word2091 word2142 word2193 word2244 word2295 word2346 word2397 word2448 word2499 word2550 word2601 word2652 word2703 word2754 word2805 word2856 word2907 word2958 word3009 word3060 word3111 word3162 word3213 word3264 word3315 word3366 word3417 word3468 word3519 word3570 word3621 word3672 word3723 word3774 word3825 word3876 word3927 word3978 word4029 word4080 word4131 p2"]), ("--option-abcdefghija52 <O52>", &["word53 word106 word159 word212 word265 p0"]), ("--option-abcdefghijab53 <O53>", &["word54 word108 word162 word216 word270 word324 word378 word432 word486 word540 word594 word648 p0"]), ("-Ķ, --option-abcdefghijabc54", &["word55 word110 word165 word220 word275 word330 word385 word440 word495 word550 word605 word660 word715 word770 word825 word880 word935 word990 word1045 p0"]), ("--option-abcdefghijabcd55 <O55>", &["word56 word112 word168 word224 word280 word336 word392 word448 word504 word560 word616 word672 word728 word784 word840 word896 word952 word1008 word1064 word1120 word1176 word1232 word1288 word1344 word1400 word1456 p0", "word56 word112 word168 word224 word280 word336 word392 word448 word504 word560 word616 word672 word728 word784 word840 word896 word952 word1008 word1064 word1120 word1176 word1232 word1288 word1344 word1400 word1456 p1", "[default: d55]"]), ("--option-abcdefghijabcde56 <O56>", &["word57 word114 word171 word228 word285 word342 word399 word456 word513 word570 word627 word684 word741 word798 word855 word912 word969 word1026 word1083 word1140 word1197 word1254 word1311 word1368 word1425 word1482 word1539 word1596 word1653 word1710 word1767 word1824 word1881 p0"]), ("--option-abcdefghijabcdef57", &["word58 word116 word174 word232 word290 word348 word406 word464 word522 word580 word638 word696 word754 word812 word870 word928 word986 word1044 word1102 word1160 word1218 word1276 word1334 word1392 word1450 word1508 word1566 word1624 word1682 word1740 word1798 word1856 word1914 word1972 word2030 word2088 word2146 word2204 word2262 word2320 p0"]), ("-ĺ, --option-abcdefghijabcdefg58 <O58>", &["word59 word118 word177 word236 word295 word354 word413 word472 word531 word590 word649 word708 word767 word826 word885 word944 word1003 word1062 word1121 word1180 word1239 word1298 word1357 word1416 word1475 word1534 word1593 word1652 word1711 word1770 word1829 word1888 word1947 word2006 word2065 word2124 word2183 word2242 word2301 word2360 word2419 word2478 word2537 word2596 word2655 word2714 word2773 p0"]), ("--option-abcdefghijabcdefgh59 <O59>", &["word60 word120 word180 word240 word300 word360 word420 word480 word540 word600 word660 word720 word780 word840 word900 word960 word1020 word1080 word1140 word1200 word1260 word1320 word1380 word1440 word1500 word1560 word1620 word1680 word1740 word1800 word1860 word1920 word1980 word2040 word2100 word2160 word2220 word2280 word2340 word2400 word2460 word2520 word2580 word2640 word2700 word2760 word2820 word2880 word2940 word3000 word3060 word3120 word3180 word3240 p0"]), ("--option-abcdefghijabcdefghi60", &["word61 word122 word183 word244 word305 word366 word427 word488 word549 word610 word671 word732 word793 word854 word915 word976 word1037 word1098 word1159 word1220 word1281 word1342 word1403 word1464 word1525 word1586 word1647 word1708 word1769 word1830 word1891 word1952 word2013 word2074 word2135 word2196 word2257 word2318 word2379 word2440 word2501 word2562 word2623 word2684 word2745 word2806 word2867 word2928 word2989 word3050 word3111 word3172 word3233 word3294 word3355 word3416 word3477 word3538 word3599 word3660 word3721 p0"]), ("--option-abcdefghijabcdefghij61 <O61>", &["word62 word124 word186 word248 word310 word372 word434 word496 word558 word620 word682 word744 word806 word868 word930 word992 word1054 word1116 word1178 word1240 word1302 word1364 word1426 word1488 word1550 word1612 word1674 word1736 word1798 word1860 word1922 word1984 word2046 word2108 word2170 word2232 word2294 word2356 word2418 word2480 word2542 word2604 word2666 word2728 word2790 word2852 word2914 word2976 word3038 word3100 word3162 word3224 word3286 word3348 word3410 word3472 word3534 word3596 word3658 word3720 word3782 word3844 word3906 word3968 word4030 word4092 word4154 word4216 p0", "[default: d61]"]), ("--option-abcdefghijabcdefghijab63", &["word64 word128 word192 word256 word320 word384 word448 word512 word576 word640 word704 word768 word832 word896 word960 word1024 word1088 word1152 word1216 word1280 word1344 word1408 word1472 word1536 word1600 word1664 word1728 word1792 word1856 word1920 word1984 word2048 word2112 word2176 word2240 word2304 word2368 word2432 word2496 word2560 word2624 word2688 word2752 word2816 word2880 word2944 word3008 word3072 word3136 word3200 word3264 word3328 word3392 word3456 word3520 word3584 word3648 word3712 word3776 word3840 word3904 word3968 word4032 word4096 word4160 word4224 word4288 word4352 word4416 word4480 word4544 word4608 word4672 word4736 word4800 word4864 word4928 word4992 word5056 word5120 word5184 word5248 p0"]), ("--option-abcdefghijabcdefghijabc64 <O64>", &["word65 word130 word195 word260 word325 word390 word455 word520 word585 word650 word715 word780 word845 word910 word975 word1040 word1105 word1170 word1235 word1300 word1365 word1430 word1495 word1560 word1625 word1690 word1755 word1820 word1885 word1950 word2015 word2080 word2145 word2210 word2275 word2340 word2405 word2470 word2535 word2600 word2665 word2730 word2795 word2860 word2925 word2990 word3055 word3120 word3185 word3250 word3315 word3380 word3445 word3510 word3575 word3640 word3705 word3770 word3835 word3900 word3965 word4030 word4095 word4160 word4225 word4290 word4355 word4420 word4485 word4550 word4615 word4680 word4745 word4810 word4875 word4940 word5005 word5070 word5135 word5200 word5265 word5330 word5395 word5460 word5525 word5590 word5655 word5720 word5785 p0"]), ("--option-abcdefghijabcdefghijabcd65 <O65>", &["word66 word132 word198 word264 word330 word396 p0", "word66 word132 word198 word264 word330 word396 p1", "word66 word132 word198 word264 word330 word396 p2"]), ("-ł, --option-abcdefghijabcdefghijabcde66", &["word67 word134 word201 word268 word335 word402 word469 word536 word603 word670 word737 word804 word871 p0"]), ("--option-abcdefghijabcdefghijabcdef67 <O67>", &["word68 word136 word204 word272 word340 word408 word476 word544 word612 word680 word748 word816 word884 word952 word1020 word1088 word1156 word1224 word1292 word1360 p0", "[default: d67]"]), ("--option-abcdefghijabcdefghijabcdefg68 <O68>", &["word69 word138 word207 word276 word345 word414 word483 word552 word621 word690 word759 word828 word897 word966 word1035 word1104 word1173 word1242 word1311 word1380 word1449 word1518 word1587 word1656 word1725 word1794 word1863 p0"]), ("--option-abcdefghijabcdefghijabcdefgh69", &["word70 word140 word210 word280 word350 word420 word490 word560 word630 word700 word770 word840 word910 word980 word1050 word1120 word1190 word1260 word1330 word1400 word1470 word1540 word1610 word1680 word1750 word1820 word1890 word1960 word2030 word2100 word2170 word2240 word2310 word2380 p0"])];
    pub const ARGUMENTS: &[(&str, &[&str])] = &[("[P0]", &[]), ("[P1]", &["pos1"]), ("[P2]", &["pos2 pos2"]), ("[P3]", &["pos3 pos3 pos3"]), ("[P4]", &["pos4 pos4 pos4 pos4"]), ("[P5]", &[]), ("[P6]", &["pos6"]), ("[P7]", &["pos7 pos7"]), ("[P8]", &["pos8 pos8 pos8"]), ("[P9]", &["pos9 pos9 pos9 pos9"]), ("[P10]", &[]), ("[P11]", &["pos11"]), ("[P12]", &["pos12 pos12"]), ("[P13]", &["pos13 pos13 pos13"]), ("[P14]", &["pos14 pos14 pos14 pos14"]), ("[P15]", &[]), ("[P16]", &["pos16"]), ("[P17]", &["pos17 pos17"]), ("[P18]", &["pos18 pos18 pos18"]), ("[P19]", &["pos19 pos19 pos19 pos19"]), ("[P20]", &[]), ("[P21]", &["pos21"]), ("[P22]", &["pos22 pos22"]), ("[P23]", &["pos23 pos23 pos23"]), ("[P24]", &["pos24 pos24 pos24 pos24"]), ("[P25]", &[]), ("[P26]", &["pos26"]), ("[P27]", &["pos27 pos27"]), ("[P28]", &["pos28 pos28 pos28"]), ("[P29]", &["pos29 pos29 pos29 pos29"])];
    pub const COMMANDS: &[(&str, &[&str])] = &[("sub0", &[]), ("suba1", &["about1"]), ("subab2", &["about2 about3"]), ("subabc3", &["about3 about4 about5"]), ("subabcd4", &["about4 about5 about6 about7"]), ("subabcde5", &["about5 about6 about7 about8 about9"]), ("subabcdef6", &["about6 about7 about8 about9 about10 about11"]), ("subabcdefg7", &["about7 about8 about9 about10 about11 about12 about13"]), ("subabcdefgh8", &["about8 about9 about10 about11 about12 about13 about14 about15"]), ("subabcdefghi9", &["about9 about10 about11 about12 about13 about14 about15 about16 about17"]), ("subabcdefghij10", &["about10 about11 about12 about13 about14 about15 about16 about17 about18 about19"]), ("subabcdefghijk11", &["about11 about12 about13 about14 about15 about16 about17 about18 about19 about20 about21"]), ("subabcdefghijkl12", &["about12 about13 about14 about15 about16 about17 about18 about19 about20 about21 about22 about23"]), ("subabcdefghijklm13", &["about13 about14 about15 about16 about17 about18 about19 about20 about21 about22 about23 about24 about25"]), ("subabcdefghijklmn14", &["about14 about15 about16 about17 about18 about19 about20 about21 about22 about23 about24 about25 about26 about27"]), ("subabcdefghijklmno15", &["about15 about16 about17 about18 about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29"]), ("subabcdefghijklmnop16", &["about16 about17 about18 about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31"]), ("subabcdefghijklmnopq17", &["about17 about18 about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33"]), ("subabcdefghijklmnopqr18", &["about18 about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35"]), ("subabcdefghijklmnopqrs19", &["about19 about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37"]), ("subabcdefghijklmnopqrst20", &["about20 about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39"]), ("subabcdefghijklmnopqrstu21", &["about21 about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41"]), ("subabcdefghijklmnopqrstuv22", &["about22 about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43"]), ("subabcdefghijklmnopqrstuvw23", &["about23 about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45"]), ("subabcdefghijklmnopqrstuvwx24", &["about24 about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47"]), ("subabcdefghijklmnopqrstuvwxy25", &["about25 about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49"]), ("subabcdefghijklmnopqrstuvwxyz26", &["about26 about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51"]), ("sub27", &["about27 about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53"]), ("suba28", &["about28 about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55"]), ("subab29", &["about29 about30 about31 about32 about33 about34 about35 about36 about37 about38 about39 about40 about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57"]), ("subabc30", &[]), ("subabcd31", &["about31"]), ("subabcde32", &["about32 about33"]), ("subabcdef33", &["about33 about34 about35"]), ("subabcdefg34", &["about34 about35 about36 about37"]), ("subabcdefgh35", &["about35 about36 about37 about38 about39"]), ("subabcdefghi36", &["about36 about37 about38 about39 about40 about41"]), ("subabcdefghij37", &["about37 about38 about39 about40 about41 about42 about43"]), ("subabcdefghijk38", &["about38 about39 about40 about41 about42 about43 about44 about45"]), ("subabcdefghijkl39", &["about39 about40 about41 about42 about43 about44 about45 about46 about47"]), ("subabcdefghijklm40", &["about40 about41 about42 about43 about44 about45 about46 about47 about48 about49"]), ("subabcdefghijklmn41", &["about41 about42 about43 about44 about45 about46 about47 about48 about49 about50 about51"]), ("subabcdefghijklmno42", &["about42 about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53"]), ("subabcdefghijklmnop43", &["about43 about44 about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55"]), ("subabcdefghijklmnopq44", &["about44 about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57"]), ("subabcdefghijklmnopqr45", &["about45 about46 about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59"]), ("subabcdefghijklmnopqrs46", &["about46 about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61"]), ("subabcdefghijklmnopqrst47", &["about47 about48 about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63"]), ("subabcdefghijklmnopqrstu48", &["about48 about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65"]), ("subabcdefghijklmnopqrstuv49", &["about49 about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67"]), ("subabcdefghijklmnopqrstuvw50", &["about50 about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69"]), ("subabcdefghijklmnopqrstuvwx51", &["about51 about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71"]), ("subabcdefghijklmnopqrstuvwxy52", &["about52 about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73"]), ("subabcdefghijklmnopqrstuvwxyz53", &["about53 about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75"]), ("sub54", &["about54 about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77"]), ("suba55", &["about55 about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79"]), ("subab56", &["about56 about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79 about80 about81"]), ("subabc57", &["about57 about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79 about80 about81 about82 about83"]), ("subabcd58", &["about58 about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79 about80 about81 about82 about83 about84 about85"]), ("subabcde59", &["about59 about60 about61 about62 about63 about64 about65 about66 about67 about68 about69 about70 about71 about72 about73 about74 about75 about76 about77 about78 about79 about80 about81 about82 about83 about84 about85 about86 about87"])];
}
#[cfg(feature = "p09")]
pub mod names {
    use crate::common::*;
    use palc::{Args, Parser, Subcommand};
    use std::ffi::OsString;
    #[derive(Parser, PartialEq)]
    pub struct Names {
        #[arg(long = "x0", alias = "abcdefghijklmnopqrstuvwxyzabc")]
        pub n0: Option<OsString>,
        #[arg(long = "bbcdefghijklmnopqrstuvwxyzabcd", global = true)]
        pub n1: Option<OsString>,
        #[arg(long = "cbcdefghijklmnopqrstuvwxyzabcde")]
        pub n2: Option<OsString>,
        #[arg(long = "x3", alias = "dbcdefghijklmnopqrstuvwxyzabcdef")]
        pub n3: Option<OsString>,
        #[arg(long = "ebcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghi")]
        pub n4: Option<OsString>,
        #[arg(long = "fbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghij", global = true)]
        pub n5: Option<OsString>,
        #[arg(long = "x6", alias = "gbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijk")]
        pub n6: Option<OsString>,
        #[arg(long = "hbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl")]
        pub n7: Option<OsString>,
        #[arg(long = "ibcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm")]
        pub n8: Option<OsString>,
        #[arg(long = "x9", alias = "jbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuv", global = true)]
        pub n9: Option<OsString>,
        #[arg(long = "kbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw")]
        pub n10: Option<OsString>,
        #[arg(long = "lbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwx")]
        pub n11: Option<OsString>,
        #[arg(long = "x12", alias = "mbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrs")]
        pub n12: Option<OsString>,
        #[arg(long = "nbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrst", global = true)]
        pub n13: Option<OsString>,
        #[arg(long = "obcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstu")]
        pub n14: Option<OsString>,
        #[arg(long = "x15", alias = "pbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuv")]
        pub n15: Option<OsString>,
        #[arg(long = "qbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw")]
        pub n16: Option<OsString>,
        #[arg(long = "rbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn", global = true)]
        pub n17: Option<OsString>,
        #[arg(long = "x18", alias = "sbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstux")]
        pub n18: Option<OsString>,
        #[arg(long = "tbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm-")]
        pub n19: Option<OsString>,
        #[arg(long = "ubcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmé")]
        pub n20: Option<OsString>,
        #[arg(long = "x21", alias = "vbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgh-abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgh", global = true)]
        pub n21: Option<OsString>,
        #[command(subcommand)]
        pub cmd: Option<Cmd>,
    }
    #[derive(Subcommand, PartialEq)]
    pub enum Cmd {
        C,
    }
    pub const NAMES: [&str; 22] = ["abcdefghijklmnopqrstuvwxyzabc", "bbcdefghijklmnopqrstuvwxyzabcd", "cbcdefghijklmnopqrstuvwxyzabcde", "dbcdefghijklmnopqrstuvwxyzabcdef", "ebcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghi", "fbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghij", "gbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijk", "hbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl", "ibcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm", "jbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuv", "kbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw", "lbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwx", "mbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrs", "nbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrst", "obcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstu", "pbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuv", "qbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvw", "rbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn", "sbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstux", "tbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm-", "ubcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmé", "vbcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgh-abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgh"];
    pub const GLOBAL: usize = 4;
    impl Names {
        pub fn all(&self) -> Vec<&Option<OsString>> {
            vec![&self.n0, &self.n1, &self.n2, &self.n3, &self.n4, &self.n5, &self.n6, &self.n7, &self.n8, &self.n9, &self.n10, &self.n11, &self.n12, &self.n13, &self.n14, &self.n15, &self.n16, &self.n17, &self.n18, &self.n19, &self.n20, &self.n21]
        }
    }
}
