// Written by tools/gen_p31.py.
use palc::{Args, Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
pub struct Big {
    #[arg(long = "ab5", alias = "z000")]
    pub n0: Option<OsString>,
    #[arg(long = "k114", short = 'A')]
    pub n1: Option<OsString>,
    #[arg(long = "k187")]
    pub n2: Option<OsString>,
    #[arg(long = "abcdefg8")]
    pub n3: bool,
    #[arg(long = "k143")]
    pub n4: Option<OsString>,
    #[arg(long = "abc3", alias = "z155", short = 'B')]
    pub n5: Vec<OsString>,
    #[arg(long = "k099")]
    pub n6: Option<OsString>,
    #[arg(long = "k172")]
    pub n7: Option<OsString>,
    #[arg(long = "abcdefgh6")]
    pub n8: Option<OsString>,
    #[arg(long = "k128", short = 'C')]
    pub n9: Option<OsString>,
    #[arg(long = "abcd1", alias = "z120")]
    pub n10: bool,
    #[arg(long = "abcde10")]
    pub n11: Option<OsString>,
    #[arg(long = "k157")]
    pub n12: Option<OsString>,
    #[arg(long = "a5", short = 'D')]
    pub n13: Option<OsString>,
    #[arg(long = "k113")]
    pub n14: Option<OsString>,
    #[arg(long = "k186", alias = "z085")]
    pub n15: Option<OsString>,
    #[arg(long = "abcdef8")]
    pub n16: Vec<OsString>,
    #[arg(long = "k142", short = 'E')]
    pub n17: bool,
    #[arg(long = "ab3")]
    pub n18: Option<OsString>,
    #[arg(long = "k098")]
    pub n19: Option<OsString>,
    #[arg(long = "k171", alias = "z050")]
    pub n20: Option<OsString>,
    #[arg(long = "abcdefg6", short = 'F')]
    pub n21: Option<OsString>,
    #[arg(long = "k127")]
    pub n22: Option<OsString>,
    #[arg(long = "a-bc1")]
    pub n23: Option<OsString>,
    #[arg(long = "abcd10")]
    pub n24: bool,
    #[arg(long = "k156", alias = "z015", short = 'G')]
    pub n25: Option<OsString>,
    #[arg(long = "abcdefgh4")]
    pub n26: Option<OsString>,
    #[arg(long = "k112")]
    pub n27: Vec<OsString>,
    #[arg(long = "k185")]
    pub n28: Option<OsString>,
    #[arg(long = "abcde8", short = 'H')]
    pub n29: Option<OsString>,
    #[arg(long = "k141", alias = "z170")]
    pub n30: Option<OsString>,
    #[arg(long = "a~3")]
    pub n31: bool,
    #[arg(long = "k097")]
    pub n32: Option<OsString>,
    #[arg(long = "k170", short = 'I')]
    pub n33: Option<OsString>,
    #[arg(long = "abcdef6")]
    pub n34: Option<OsString>,
    #[arg(long = "k126", alias = "z135")]
    pub n35: Option<OsString>,
    #[arg(long = "ab1")]
    pub n36: Option<OsString>,
    #[arg(long = "ABC10", short = 'J')]
    pub n37: Option<OsString>,
    #[arg(long = "k155")]
    pub n38: bool,
    #[arg(long = "a+bcdefg4")]
    pub n39: Option<OsString>,
    #[arg(long = "k111", alias = "z100")]
    pub n40: Option<OsString>,
    #[arg(long = "k184", short = '丈')]
    pub n41: Option<OsString>,
    #[arg(long = "ABCD8")]
    pub n42: Option<OsString>,
    #[arg(long = "k140")]
    pub n43: Option<OsString>,
    #[arg(long = "abcdefgh2")]
    pub n44: Option<OsString>,
    #[arg(long = "k096", alias = "z065", short = '亠')]
    pub n45: bool,
    #[arg(long = "k169")]
    pub n46: Option<OsString>,
    #[arg(long = "A.BCDE6")]
    pub n47: Option<OsString>,
    #[arg(long = "k125")]
    pub n48: Option<OsString>,
    #[arg(long = "a1", short = '丸')]
    pub n49: Vec<OsString>,
    #[arg(long = "ab10", alias = "z030")]
    pub n50: Option<OsString>,
    #[arg(long = "k154")]
    pub n51: Option<OsString>,
    #[arg(long = "ABCDEF4")]
    pub n52: bool,
    #[arg(long = "k110", short = '丂')]
    pub n53: Option<OsString>,
    #[arg(long = "k183")]
    pub n54: Option<OsString>,
    #[arg(long = "a_bc8", alias = "z185")]
    pub n55: Option<OsString>,
    #[arg(long = "k139")]
    pub n56: Option<OsString>,
    #[arg(long = "ABCDEFG2", short = '亚')]
    pub n57: Option<OsString>,
    #[arg(long = "abcdefgh11")]
    pub n58: Option<OsString>,
    #[arg(long = "k168")]
    pub n59: bool,
    #[arg(long = "abcd6", alias = "z150")]
    pub n60: Vec<OsString>,
    #[arg(long = "k124", short = '乤')]
    pub n61: Option<OsString>,
    #[arg(long = "ABCDEFGH0")]
    pub n62: Option<OsString>,
    #[arg(long = "a-10")]
    pub n63: Option<OsString>,
    #[arg(long = "k153")]
    pub n64: Option<OsString>,
    #[arg(long = "abcde4", alias = "z115", short = '仼')]
    pub n65: Option<OsString>,
    #[arg(long = "k109")]
    pub n66: bool,
    #[arg(long = "k182")]
    pub n67: Option<OsString>,
    #[arg(long = "ab8")]
    pub n68: Option<OsString>,
    #[arg(long = "k138", short = '仆')]
    pub n69: Option<OsString>,
    #[arg(long = "abcdef2", alias = "z080")]
    pub n70: Option<OsString>,
    #[arg(long = "a~bcdefg11")]
    pub n71: Vec<OsString>,
    #[arg(long = "k167")]
    pub n72: Option<OsString>,
    #[arg(long = "abc6", short = '乞')]
    pub n73: bool,
    #[arg(long = "k123")]
    pub n74: Option<OsString>,
    #[arg(long = "abcdefg0", alias = "z045")]
    pub n75: Option<OsString>,
    #[arg(long = "abcdefgh9")]
    pub n76: Option<OsString>,
    #[arg(long = "k152", short = '丨')]
    pub n77: Option<OsString>,
    #[arg(long = "abcd4")]
    pub n78: Option<OsString>,
    #[arg(long = "k108")]
    pub n79: Option<OsString>,
    #[arg(long = "k181", alias = "z010")]
    pub n80: bool,
    #[arg(long = "a8", short = '什')]
    pub n81: Option<OsString>,
    #[arg(long = "k137")]
    pub n82: Vec<OsString>,
    #[arg(long = "abcde2")]
    pub n83: Option<OsString>,
    #[arg(long = "abcdef11")]
    pub n84: Option<OsString>,
    #[arg(long = "k166", alias = "z165", short = '亊')]
    pub n85: Option<OsString>,
    #[arg(long = "ab6")]
    pub n86: Option<OsString>,
    #[arg(long = "k122")]
    pub n87: bool,
    #[arg(long = "abcdef0")]
    pub n88: Option<OsString>,
    #[arg(long = "abcdefg9", short = '丢')]
    pub n89: Option<OsString>,
    #[arg(long = "k151", alias = "z130")]
    pub n90: Option<OsString>,
    #[arg(long = "abc4")]
    pub n91: Option<OsString>,
    #[arg(long = "k107")]
    pub n92: Option<OsString>,
    #[arg(long = "k180", short = '们')]
    pub n93: Vec<OsString>,
    #[arg(long = "abcdefgh7")]
    pub n94: bool,
    #[arg(long = "k136", alias = "z095")]
    pub n95: Option<OsString>,
    #[arg(long = "abcd2")]
    pub n96: Option<OsString>,
    #[arg(long = "ABCDE11", short = '亄')]
    pub n97: Option<OsString>,
    #[arg(long = "k165")]
    pub n98: Option<OsString>,
    #[arg(long = "a6")]
    pub n99: Option<OsString>,
    #[arg(long = "k121", alias = "z060")]
    pub n100: Option<OsString>,
    #[arg(long = "abcde0", short = '东')]
    pub n101: bool,
    #[arg(long = "ABCDEF9")]
    pub n102: Option<OsString>,
    #[arg(long = "k150")]
    pub n103: Option<OsString>,
    #[arg(long = "ab4")]
    pub n104: Vec<OsString>,
    #[arg(long = "k106", alias = "z025", short = '仦')]
    pub n105: Option<OsString>,
    #[arg(long = "k179")]
    pub n106: Option<OsString>,
    #[arg(long = "ABCDEFG7")]
    pub n107: Option<OsString>,
    #[arg(long = "k135")]
    pub n108: bool,
    #[arg(long = "abc2", short = '乾')]
    pub n109: Option<OsString>,
    #[arg(long = "abcd11", alias = "z180")]
    pub n110: Option<OsString>,
    #[arg(long = "k164")]
    pub n111: Option<OsString>,
    #[arg(long = "ABCDEFGH5")]
    pub n112: Option<OsString>,
    #[arg(long = "k120", short = '么')]
    pub n113: Option<OsString>,
    #[arg(long = "a+bcd0")]
    pub n114: Option<OsString>,
    #[arg(long = "abcde9", alias = "z145")]
    pub n115: bool,
    #[arg(long = "k149")]
    pub n116: Option<OsString>,
    #[arg(long = "A4", short = '仠')]
    pub n117: Option<OsString>,
    #[arg(long = "k105")]
    pub n118: Option<OsString>,
    #[arg(long = "k178")]
    pub n119: Option<OsString>,
    #[arg(long = "abcdef7", alias = "z110")]
    pub n120: Option<OsString>,
    #[arg(long = "k134", short = '亪')]
    pub n121: Option<OsString>,
    #[arg(long = "A.B2")]
    pub n122: bool,
    #[arg(long = "abc11")]
    pub n123: Option<OsString>,
    #[arg(long = "k163")]
    pub n124: Option<OsString>,
    #[arg(long = "abcdefg5", alias = "z075", short = '乂')]
    pub n125: Option<OsString>,
    #[arg(long = "k119")]
    pub n126: Vec<OsString>,
    #[arg(long = "ABC0")]
    pub n127: Option<OsString>,
    #[arg(long = "abcd9")]
    pub n128: Option<OsString>,
    #[arg(long = "k148", short = '丌')]
    pub n129: bool,
    #[arg(long = "a_bcdefgh3", alias = "z040")]
    pub n130: Option<OsString>,
    #[arg(long = "k104")]
    pub n131: Option<OsString>,
    #[arg(long = "k177")]
    pub n132: Option<OsString>,
    #[arg(long = "abcde7", short = '交')]
    pub n133: Option<OsString>,
    #[arg(long = "k133")]
    pub n134: Option<OsString>,
    #[arg(long = "a2", alias = "z005")]
    pub n135: Option<OsString>,
    #[arg(long = "ab11")]
    pub n136: bool,
    #[arg(long = "k162", short = '乮')]
    pub n137: Vec<OsString>,
    #[arg(long = "a-bcdef5")]
    pub n138: Option<OsString>,
    #[arg(long = "k118")]
    pub n139: Option<OsString>,
    #[arg(long = "ab0", alias = "z160")]
    pub n140: Option<OsString>,
    #[arg(long = "abc9", short = '丆')]
    pub n141: Option<OsString>,
    #[arg(long = "k147")]
    pub n142: Option<OsString>,
    #[arg(long = "abcdefg3")]
    pub n143: bool,
    #[arg(long = "k103")]
    pub n144: Option<OsString>,
    #[arg(long = "k176", alias = "z125", short = '仐')]
    pub n145: Option<OsString>,
    #[arg(long = "a~bcd7")]
    pub n146: Option<OsString>,
    #[arg(long = "k132")]
    pub n147: Option<OsString>,
    #[arg(long = "abcdefgh1")]
    pub n148: Vec<OsString>,
    #[arg(long = "a11", short = '乨')]
    pub n149: Option<OsString>,
    #[arg(long = "k161", alias = "z090")]
    pub n150: bool,
    #[arg(long = "abcde5")]
    pub n151: Option<OsString>,
    #[arg(long = "k117")]
    pub n152: Option<OsString>,
    #[arg(long = "a0", short = '一')]
    pub n153: Option<OsString>,
    #[arg(long = "a+b9")]
    pub n154: Option<OsString>,
    #[arg(long = "k146", alias = "z055")]
    pub n155: Option<OsString>,
    #[arg(long = "abcdef3")]
    pub n156: Option<OsString>,
    #[arg(long = "k102", short = '今')]
    pub n157: bool,
    #[arg(long = "k175")]
    pub n158: Option<OsString>,
    #[arg(long = "abc7")]
    pub n159: Vec<OsString>,
    #[arg(long = "k131", alias = "z020")]
    pub n160: Option<OsString>,
    #[arg(long = "abcdefg1", short = '乢')]
    pub n161: Option<OsString>,
    #[arg(long = "A.BCDEFGH10")]
    pub n162: Option<OsString>,
    #[arg(long = "k160")]
    pub n163: Option<OsString>,
    #[arg(long = "abcd5")]
    pub n164: bool,
    #[arg(long = "k116", alias = "z175", short = '丬')]
    pub n165: Option<OsString>,
    #[arg(long = "k189")]
    pub n166: Option<OsString>,
    #[arg(long = "A9")]
    pub n167: Option<OsString>,
    #[arg(long = "k145")]
    pub n168: Option<OsString>,
    #[arg(long = "abcde3", short = '仄')]
    pub n169: Option<OsString>,
    #[arg(long = "k101", alias = "z140")]
    pub n170: Vec<OsString>,
    #[arg(long = "k174")]
    pub n171: bool,
    #[arg(long = "AB7")]
    pub n172: Option<OsString>,
    #[arg(long = "k130", short = '于')]
    pub n173: Option<OsString>,
    #[arg(long = "abcdef1")]
    pub n174: Option<OsString>,
    #[arg(long = "abcdefg10", alias = "z105")]
    pub n175: Option<OsString>,
    #[arg(long = "k159")]
    pub n176: Option<OsString>,
    #[arg(long = "ABC5", short = '並')]
    pub n177: Option<OsString>,
    #[arg(long = "k115")]
    pub n178: bool,
    #[arg(long = "k188")]
    pub n179: Option<OsString>,
    #[arg(long = "abcdefgh8", alias = "z070")]
    pub n180: Option<OsString>,
    #[arg(long = "k144", short = '仰')]
    pub n181: Vec<OsString>,
    #[arg(long = "ABCD3")]
    pub n182: Option<OsString>,
    #[arg(long = "k100")]
    pub n183: Option<OsString>,
    #[arg(long = "k173")]
    pub n184: Option<OsString>,
    #[arg(long = "a7", alias = "z035", short = '予')]
    pub n185: bool,
    #[arg(long = "k129")]
    pub n186: Option<OsString>,
    #[arg(long = "ABCDE1")]
    pub n187: Option<OsString>,
    #[arg(long = "abcdef10")]
    pub n188: Option<OsString>,
    #[arg(long = "k158", short = '乒')]
    pub n189: Option<OsString>,
    pub p0: Option<OsString>,
    pub p1: Option<OsString>,
    pub p2: Option<OsString>,
    pub p3: Option<OsString>,
    pub p4: Option<OsString>,
    pub p5: Option<OsString>,
    pub p6: Option<OsString>,
    pub p7: Option<OsString>,
    pub p8: Option<OsString>,
    pub p9: Option<OsString>,
    pub p10: Option<OsString>,
    pub p11: Option<OsString>,
    pub p12: Option<OsString>,
    pub p13: Option<OsString>,
    pub p14: Option<OsString>,
    pub p15: Option<OsString>,
    pub p16: Option<OsString>,
    pub p17: Option<OsString>,
    pub p18: Option<OsString>,
    pub p19: Option<OsString>,
    pub p20: Option<OsString>,
    pub p21: Option<OsString>,
    pub p22: Option<OsString>,
    pub p23: Option<OsString>,
    pub p24: Option<OsString>,
    pub p25: Option<OsString>,
    pub p26: Option<OsString>,
    pub p27: Option<OsString>,
    pub p28: Option<OsString>,
    pub p29: Option<OsString>,
    pub p30: Option<OsString>,
    pub p31: Option<OsString>,
    pub p32: Option<OsString>,
    pub p33: Option<OsString>,
    pub p34: Option<OsString>,
    pub p35: Option<OsString>,
    pub p36: Option<OsString>,
    pub p37: Option<OsString>,
    pub p38: Option<OsString>,
    pub p39: Option<OsString>,
    pub p40: Option<OsString>,
    pub p41: Option<OsString>,
    pub p42: Option<OsString>,
    pub p43: Option<OsString>,
    pub p44: Option<OsString>,
    pub p45: Option<OsString>,
    pub p46: Option<OsString>,
    pub p47: Option<OsString>,
    pub p48: Option<OsString>,
    pub p49: Option<OsString>,
    pub p50: Option<OsString>,
    pub p51: Option<OsString>,
    pub p52: Option<OsString>,
    pub p53: Option<OsString>,
    pub p54: Option<OsString>,
    pub p55: Option<OsString>,
    pub p56: Option<OsString>,
    pub p57: Option<OsString>,
    pub p58: Option<OsString>,
    pub p59: Option<OsString>,
    pub p60: Option<OsString>,
    pub p61: Option<OsString>,
    pub many: Vec<OsString>,
    #[arg(last = true)]
    pub end: Vec<OsString>,
}
/// (long name, alias, short name, takes a value, collects, description)
pub const NAMED: [(&str, &str, &str, bool, bool, &str); 190] = [
    ("--ab5", "--z000", "", true, false, "--ab5 <N0>"),
    ("--k114", "", "-A", true, false, "-A, --k114 <N1>"),
    ("--k187", "", "", true, false, "--k187 <N2>"),
    ("--abcdefg8", "", "", false, false, "--abcdefg8"),
    ("--k143", "", "", true, false, "--k143 <N4>"),
    ("--abc3", "--z155", "-B", true, true, "-B, --abc3 <N5>"),
    ("--k099", "", "", true, false, "--k099 <N6>"),
    ("--k172", "", "", true, false, "--k172 <N7>"),
    ("--abcdefgh6", "", "", true, false, "--abcdefgh6 <N8>"),
    ("--k128", "", "-C", true, false, "-C, --k128 <N9>"),
    ("--abcd1", "--z120", "", false, false, "--abcd1"),
    ("--abcde10", "", "", true, false, "--abcde10 <N11>"),
    ("--k157", "", "", true, false, "--k157 <N12>"),
    ("--a5", "", "-D", true, false, "-D, --a5 <N13>"),
    ("--k113", "", "", true, false, "--k113 <N14>"),
    ("--k186", "--z085", "", true, false, "--k186 <N15>"),
    ("--abcdef8", "", "", true, true, "--abcdef8 <N16>"),
    ("--k142", "", "-E", false, false, "-E, --k142"),
    ("--ab3", "", "", true, false, "--ab3 <N18>"),
    ("--k098", "", "", true, false, "--k098 <N19>"),
    ("--k171", "--z050", "", true, false, "--k171 <N20>"),
    ("--abcdefg6", "", "-F", true, false, "-F, --abcdefg6 <N21>"),
    ("--k127", "", "", true, false, "--k127 <N22>"),
    ("--a-bc1", "", "", true, false, "--a-bc1 <N23>"),
    ("--abcd10", "", "", false, false, "--abcd10"),
    ("--k156", "--z015", "-G", true, false, "-G, --k156 <N25>"),
    ("--abcdefgh4", "", "", true, false, "--abcdefgh4 <N26>"),
    ("--k112", "", "", true, true, "--k112 <N27>"),
    ("--k185", "", "", true, false, "--k185 <N28>"),
    ("--abcde8", "", "-H", true, false, "-H, --abcde8 <N29>"),
    ("--k141", "--z170", "", true, false, "--k141 <N30>"),
    ("--a~3", "", "", false, false, "--a~3"),
    ("--k097", "", "", true, false, "--k097 <N32>"),
    ("--k170", "", "-I", true, false, "-I, --k170 <N33>"),
    ("--abcdef6", "", "", true, false, "--abcdef6 <N34>"),
    ("--k126", "--z135", "", true, false, "--k126 <N35>"),
    ("--ab1", "", "", true, false, "--ab1 <N36>"),
    ("--ABC10", "", "-J", true, false, "-J, --ABC10 <N37>"),
    ("--k155", "", "", false, false, "--k155"),
    ("--a+bcdefg4", "", "", true, false, "--a+bcdefg4 <N39>"),
    ("--k111", "--z100", "", true, false, "--k111 <N40>"),
    ("--k184", "", "-丈", true, false, "-丈, --k184 <N41>"),
    ("--ABCD8", "", "", true, false, "--ABCD8 <N42>"),
    ("--k140", "", "", true, false, "--k140 <N43>"),
    ("--abcdefgh2", "", "", true, false, "--abcdefgh2 <N44>"),
    ("--k096", "--z065", "-亠", false, false, "-亠, --k096"),
    ("--k169", "", "", true, false, "--k169 <N46>"),
    ("--A.BCDE6", "", "", true, false, "--A.BCDE6 <N47>"),
    ("--k125", "", "", true, false, "--k125 <N48>"),
    ("--a1", "", "-丸", true, true, "-丸, --a1 <N49>"),
    ("--ab10", "--z030", "", true, false, "--ab10 <N50>"),
    ("--k154", "", "", true, false, "--k154 <N51>"),
    ("--ABCDEF4", "", "", false, false, "--ABCDEF4"),
    ("--k110", "", "-丂", true, false, "-丂, --k110 <N53>"),
    ("--k183", "", "", true, false, "--k183 <N54>"),
    ("--a_bc8", "--z185", "", true, false, "--a_bc8 <N55>"),
    ("--k139", "", "", true, false, "--k139 <N56>"),
    ("--ABCDEFG2", "", "-亚", true, false, "-亚, --ABCDEFG2 <N57>"),
    ("--abcdefgh11", "", "", true, false, "--abcdefgh11 <N58>"),
    ("--k168", "", "", false, false, "--k168"),
    ("--abcd6", "--z150", "", true, true, "--abcd6 <N60>"),
    ("--k124", "", "-乤", true, false, "-乤, --k124 <N61>"),
    ("--ABCDEFGH0", "", "", true, false, "--ABCDEFGH0 <N62>"),
    ("--a-10", "", "", true, false, "--a-10 <N63>"),
    ("--k153", "", "", true, false, "--k153 <N64>"),
    ("--abcde4", "--z115", "-仼", true, false, "-仼, --abcde4 <N65>"),
    ("--k109", "", "", false, false, "--k109"),
    ("--k182", "", "", true, false, "--k182 <N67>"),
    ("--ab8", "", "", true, false, "--ab8 <N68>"),
    ("--k138", "", "-仆", true, false, "-仆, --k138 <N69>"),
    ("--abcdef2", "--z080", "", true, false, "--abcdef2 <N70>"),
    ("--a~bcdefg11", "", "", true, true, "--a~bcdefg11 <N71>"),
    ("--k167", "", "", true, false, "--k167 <N72>"),
    ("--abc6", "", "-乞", false, false, "-乞, --abc6"),
    ("--k123", "", "", true, false, "--k123 <N74>"),
    ("--abcdefg0", "--z045", "", true, false, "--abcdefg0 <N75>"),
    ("--abcdefgh9", "", "", true, false, "--abcdefgh9 <N76>"),
    ("--k152", "", "-丨", true, false, "-丨, --k152 <N77>"),
    ("--abcd4", "", "", true, false, "--abcd4 <N78>"),
    ("--k108", "", "", true, false, "--k108 <N79>"),
    ("--k181", "--z010", "", false, false, "--k181"),
    ("--a8", "", "-什", true, false, "-什, --a8 <N81>"),
    ("--k137", "", "", true, true, "--k137 <N82>"),
    ("--abcde2", "", "", true, false, "--abcde2 <N83>"),
    ("--abcdef11", "", "", true, false, "--abcdef11 <N84>"),
    ("--k166", "--z165", "-亊", true, false, "-亊, --k166 <N85>"),
    ("--ab6", "", "", true, false, "--ab6 <N86>"),
    ("--k122", "", "", false, false, "--k122"),
    ("--abcdef0", "", "", true, false, "--abcdef0 <N88>"),
    ("--abcdefg9", "", "-丢", true, false, "-丢, --abcdefg9 <N89>"),
    ("--k151", "--z130", "", true, false, "--k151 <N90>"),
    ("--abc4", "", "", true, false, "--abc4 <N91>"),
    ("--k107", "", "", true, false, "--k107 <N92>"),
    ("--k180", "", "-们", true, true, "-们, --k180 <N93>"),
    ("--abcdefgh7", "", "", false, false, "--abcdefgh7"),
    ("--k136", "--z095", "", true, false, "--k136 <N95>"),
    ("--abcd2", "", "", true, false, "--abcd2 <N96>"),
    ("--ABCDE11", "", "-亄", true, false, "-亄, --ABCDE11 <N97>"),
    ("--k165", "", "", true, false, "--k165 <N98>"),
    ("--a6", "", "", true, false, "--a6 <N99>"),
    ("--k121", "--z060", "", true, false, "--k121 <N100>"),
    ("--abcde0", "", "-东", false, false, "-东, --abcde0"),
    ("--ABCDEF9", "", "", true, false, "--ABCDEF9 <N102>"),
    ("--k150", "", "", true, false, "--k150 <N103>"),
    ("--ab4", "", "", true, true, "--ab4 <N104>"),
    ("--k106", "--z025", "-仦", true, false, "-仦, --k106 <N105>"),
    ("--k179", "", "", true, false, "--k179 <N106>"),
    ("--ABCDEFG7", "", "", true, false, "--ABCDEFG7 <N107>"),
    ("--k135", "", "", false, false, "--k135"),
    ("--abc2", "", "-乾", true, false, "-乾, --abc2 <N109>"),
    ("--abcd11", "--z180", "", true, false, "--abcd11 <N110>"),
    ("--k164", "", "", true, false, "--k164 <N111>"),
    ("--ABCDEFGH5", "", "", true, false, "--ABCDEFGH5 <N112>"),
    ("--k120", "", "-么", true, false, "-么, --k120 <N113>"),
    ("--a+bcd0", "", "", true, false, "--a+bcd0 <N114>"),
    ("--abcde9", "--z145", "", false, false, "--abcde9"),
    ("--k149", "", "", true, false, "--k149 <N116>"),
    ("--A4", "", "-仠", true, false, "-仠, --A4 <N117>"),
    ("--k105", "", "", true, false, "--k105 <N118>"),
    ("--k178", "", "", true, false, "--k178 <N119>"),
    ("--abcdef7", "--z110", "", true, false, "--abcdef7 <N120>"),
    ("--k134", "", "-亪", true, false, "-亪, --k134 <N121>"),
    ("--A.B2", "", "", false, false, "--A.B2"),
    ("--abc11", "", "", true, false, "--abc11 <N123>"),
    ("--k163", "", "", true, false, "--k163 <N124>"),
    ("--abcdefg5", "--z075", "-乂", true, false, "-乂, --abcdefg5 <N125>"),
    ("--k119", "", "", true, true, "--k119 <N126>"),
    ("--ABC0", "", "", true, false, "--ABC0 <N127>"),
    ("--abcd9", "", "", true, false, "--abcd9 <N128>"),
    ("--k148", "", "-丌", false, false, "-丌, --k148"),
    ("--a_bcdefgh3", "--z040", "", true, false, "--a_bcdefgh3 <N130>"),
    ("--k104", "", "", true, false, "--k104 <N131>"),
    ("--k177", "", "", true, false, "--k177 <N132>"),
    ("--abcde7", "", "-交", true, false, "-交, --abcde7 <N133>"),
    ("--k133", "", "", true, false, "--k133 <N134>"),
    ("--a2", "--z005", "", true, false, "--a2 <N135>"),
    ("--ab11", "", "", false, false, "--ab11"),
    ("--k162", "", "-乮", true, true, "-乮, --k162 <N137>"),
    ("--a-bcdef5", "", "", true, false, "--a-bcdef5 <N138>"),
    ("--k118", "", "", true, false, "--k118 <N139>"),
    ("--ab0", "--z160", "", true, false, "--ab0 <N140>"),
    ("--abc9", "", "-丆", true, false, "-丆, --abc9 <N141>"),
    ("--k147", "", "", true, false, "--k147 <N142>"),
    ("--abcdefg3", "", "", false, false, "--abcdefg3"),
    ("--k103", "", "", true, false, "--k103 <N144>"),
    ("--k176", "--z125", "-仐", true, false, "-仐, --k176 <N145>"),
    ("--a~bcd7", "", "", true, false, "--a~bcd7 <N146>"),
    ("--k132", "", "", true, false, "--k132 <N147>"),
    ("--abcdefgh1", "", "", true, true, "--abcdefgh1 <N148>"),
    ("--a11", "", "-乨", true, false, "-乨, --a11 <N149>"),
    ("--k161", "--z090", "", false, false, "--k161"),
    ("--abcde5", "", "", true, false, "--abcde5 <N151>"),
    ("--k117", "", "", true, false, "--k117 <N152>"),
    ("--a0", "", "-一", true, false, "-一, --a0 <N153>"),
    ("--a+b9", "", "", true, false, "--a+b9 <N154>"),
    ("--k146", "--z055", "", true, false, "--k146 <N155>"),
    ("--abcdef3", "", "", true, false, "--abcdef3 <N156>"),
    ("--k102", "", "-今", false, false, "-今, --k102"),
    ("--k175", "", "", true, false, "--k175 <N158>"),
    ("--abc7", "", "", true, true, "--abc7 <N159>"),
    ("--k131", "--z020", "", true, false, "--k131 <N160>"),
    ("--abcdefg1", "", "-乢", true, false, "-乢, --abcdefg1 <N161>"),
    ("--A.BCDEFGH10", "", "", true, false, "--A.BCDEFGH10 <N162>"),
    ("--k160", "", "", true, false, "--k160 <N163>"),
    ("--abcd5", "", "", false, false, "--abcd5"),
    ("--k116", "--z175", "-丬", true, false, "-丬, --k116 <N165>"),
    ("--k189", "", "", true, false, "--k189 <N166>"),
    ("--A9", "", "", true, false, "--A9 <N167>"),
    ("--k145", "", "", true, false, "--k145 <N168>"),
    ("--abcde3", "", "-仄", true, false, "-仄, --abcde3 <N169>"),
    ("--k101", "--z140", "", true, true, "--k101 <N170>"),
    ("--k174", "", "", false, false, "--k174"),
    ("--AB7", "", "", true, false, "--AB7 <N172>"),
    ("--k130", "", "-于", true, false, "-于, --k130 <N173>"),
    ("--abcdef1", "", "", true, false, "--abcdef1 <N174>"),
    ("--abcdefg10", "--z105", "", true, false, "--abcdefg10 <N175>"),
    ("--k159", "", "", true, false, "--k159 <N176>"),
    ("--ABC5", "", "-並", true, false, "-並, --ABC5 <N177>"),
    ("--k115", "", "", false, false, "--k115"),
    ("--k188", "", "", true, false, "--k188 <N179>"),
    ("--abcdefgh8", "--z070", "", true, false, "--abcdefgh8 <N180>"),
    ("--k144", "", "-仰", true, true, "-仰, --k144 <N181>"),
    ("--ABCD3", "", "", true, false, "--ABCD3 <N182>"),
    ("--k100", "", "", true, false, "--k100 <N183>"),
    ("--k173", "", "", true, false, "--k173 <N184>"),
    ("--a7", "--z035", "-予", false, false, "-予, --a7"),
    ("--k129", "", "", true, false, "--k129 <N186>"),
    ("--ABCDE1", "", "", true, false, "--ABCDE1 <N187>"),
    ("--abcdef10", "", "", true, false, "--abcdef10 <N188>"),
    ("--k158", "", "-乒", true, false, "-乒, --k158 <N189>"),
];
impl Big {
    /// Every field that is set, with its values.
    pub fn set(&self) -> Vec<(usize, Vec<&OsString>)> {
        let mut v = Vec::new();
        if let Some(x) = &self.n0 { v.push((0, vec![x])) }
        if let Some(x) = &self.n1 { v.push((1, vec![x])) }
        if let Some(x) = &self.n2 { v.push((2, vec![x])) }
        if self.n3 { v.push((3, vec![])) }
        if let Some(x) = &self.n4 { v.push((4, vec![x])) }
        if !self.n5.is_empty() { v.push((5, self.n5.iter().collect())) }
        if let Some(x) = &self.n6 { v.push((6, vec![x])) }
        if let Some(x) = &self.n7 { v.push((7, vec![x])) }
        if let Some(x) = &self.n8 { v.push((8, vec![x])) }
        if let Some(x) = &self.n9 { v.push((9, vec![x])) }
        if self.n10 { v.push((10, vec![])) }
        if let Some(x) = &self.n11 { v.push((11, vec![x])) }
        if let Some(x) = &self.n12 { v.push((12, vec![x])) }
        if let Some(x) = &self.n13 { v.push((13, vec![x])) }
        if let Some(x) = &self.n14 { v.push((14, vec![x])) }
        if let Some(x) = &self.n15 { v.push((15, vec![x])) }
        if !self.n16.is_empty() { v.push((16, self.n16.iter().collect())) }
        if self.n17 { v.push((17, vec![])) }
        if let Some(x) = &self.n18 { v.push((18, vec![x])) }
        if let Some(x) = &self.n19 { v.push((19, vec![x])) }
        if let Some(x) = &self.n20 { v.push((20, vec![x])) }
        if let Some(x) = &self.n21 { v.push((21, vec![x])) }
        if let Some(x) = &self.n22 { v.push((22, vec![x])) }
        if let Some(x) = &self.n23 { v.push((23, vec![x])) }
        if self.n24 { v.push((24, vec![])) }
        if let Some(x) = &self.n25 { v.push((25, vec![x])) }
        if let Some(x) = &self.n26 { v.push((26, vec![x])) }
        if !self.n27.is_empty() { v.push((27, self.n27.iter().collect())) }
        if let Some(x) = &self.n28 { v.push((28, vec![x])) }
        if let Some(x) = &self.n29 { v.push((29, vec![x])) }
        if let Some(x) = &self.n30 { v.push((30, vec![x])) }
        if self.n31 { v.push((31, vec![])) }
        if let Some(x) = &self.n32 { v.push((32, vec![x])) }
        if let Some(x) = &self.n33 { v.push((33, vec![x])) }
        if let Some(x) = &self.n34 { v.push((34, vec![x])) }
        if let Some(x) = &self.n35 { v.push((35, vec![x])) }
        if let Some(x) = &self.n36 { v.push((36, vec![x])) }
        if let Some(x) = &self.n37 { v.push((37, vec![x])) }
        if self.n38 { v.push((38, vec![])) }
        if let Some(x) = &self.n39 { v.push((39, vec![x])) }
        if let Some(x) = &self.n40 { v.push((40, vec![x])) }
        if let Some(x) = &self.n41 { v.push((41, vec![x])) }
        if let Some(x) = &self.n42 { v.push((42, vec![x])) }
        if let Some(x) = &self.n43 { v.push((43, vec![x])) }
        if let Some(x) = &self.n44 { v.push((44, vec![x])) }
        if self.n45 { v.push((45, vec![])) }
        if let Some(x) = &self.n46 { v.push((46, vec![x])) }
        if let Some(x) = &self.n47 { v.push((47, vec![x])) }
        if let Some(x) = &self.n48 { v.push((48, vec![x])) }
        if !self.n49.is_empty() { v.push((49, self.n49.iter().collect())) }
        if let Some(x) = &self.n50 { v.push((50, vec![x])) }
        if let Some(x) = &self.n51 { v.push((51, vec![x])) }
        if self.n52 { v.push((52, vec![])) }
        if let Some(x) = &self.n53 { v.push((53, vec![x])) }
        if let Some(x) = &self.n54 { v.push((54, vec![x])) }
        if let Some(x) = &self.n55 { v.push((55, vec![x])) }
        if let Some(x) = &self.n56 { v.push((56, vec![x])) }
        if let Some(x) = &self.n57 { v.push((57, vec![x])) }
        if let Some(x) = &self.n58 { v.push((58, vec![x])) }
        if self.n59 { v.push((59, vec![])) }
        if !self.n60.is_empty() { v.push((60, self.n60.iter().collect())) }
        if let Some(x) = &self.n61 { v.push((61, vec![x])) }
        if let Some(x) = &self.n62 { v.push((62, vec![x])) }
        if let Some(x) = &self.n63 { v.push((63, vec![x])) }
        if let Some(x) = &self.n64 { v.push((64, vec![x])) }
        if let Some(x) = &self.n65 { v.push((65, vec![x])) }
        if self.n66 { v.push((66, vec![])) }
        if let Some(x) = &self.n67 { v.push((67, vec![x])) }
        if let Some(x) = &self.n68 { v.push((68, vec![x])) }
        if let Some(x) = &self.n69 { v.push((69, vec![x])) }
        if let Some(x) = &self.n70 { v.push((70, vec![x])) }
        if !self.n71.is_empty() { v.push((71, self.n71.iter().collect())) }
        if let Some(x) = &self.n72 { v.push((72, vec![x])) }
        if self.n73 { v.push((73, vec![])) }
        if let Some(x) = &self.n74 { v.push((74, vec![x])) }
        if let Some(x) = &self.n75 { v.push((75, vec![x])) }
        if let Some(x) = &self.n76 { v.push((76, vec![x])) }
        if let Some(x) = &self.n77 { v.push((77, vec![x])) }
        if let Some(x) = &self.n78 { v.push((78, vec![x])) }
        if let Some(x) = &self.n79 { v.push((79, vec![x])) }
        if self.n80 { v.push((80, vec![])) }
        if let Some(x) = &self.n81 { v.push((81, vec![x])) }
        if !self.n82.is_empty() { v.push((82, self.n82.iter().collect())) }
        if let Some(x) = &self.n83 { v.push((83, vec![x])) }
        if let Some(x) = &self.n84 { v.push((84, vec![x])) }
        if let Some(x) = &self.n85 { v.push((85, vec![x])) }
        if let Some(x) = &self.n86 { v.push((86, vec![x])) }
        if self.n87 { v.push((87, vec![])) }
        if let Some(x) = &self.n88 { v.push((88, vec![x])) }
        if let Some(x) = &self.n89 { v.push((89, vec![x])) }
        if let Some(x) = &self.n90 { v.push((90, vec![x])) }
        if let Some(x) = &self.n91 { v.push((91, vec![x])) }
        if let Some(x) = &self.n92 { v.push((92, vec![x])) }
        if !self.n93.is_empty() { v.push((93, self.n93.iter().collect())) }
        if self.n94 { v.push((94, vec![])) }
        if let Some(x) = &self.n95 { v.push((95, vec![x])) }
        if let Some(x) = &self.n96 { v.push((96, vec![x])) }
        if let Some(x) = &self.n97 { v.push((97, vec![x])) }
        if let Some(x) = &self.n98 { v.push((98, vec![x])) }
        if let Some(x) = &self.n99 { v.push((99, vec![x])) }
        if let Some(x) = &self.n100 { v.push((100, vec![x])) }
        if self.n101 { v.push((101, vec![])) }
        if let Some(x) = &self.n102 { v.push((102, vec![x])) }
        if let Some(x) = &self.n103 { v.push((103, vec![x])) }
        if !self.n104.is_empty() { v.push((104, self.n104.iter().collect())) }
        if let Some(x) = &self.n105 { v.push((105, vec![x])) }
        if let Some(x) = &self.n106 { v.push((106, vec![x])) }
        if let Some(x) = &self.n107 { v.push((107, vec![x])) }
        if self.n108 { v.push((108, vec![])) }
        if let Some(x) = &self.n109 { v.push((109, vec![x])) }
        if let Some(x) = &self.n110 { v.push((110, vec![x])) }
        if let Some(x) = &self.n111 { v.push((111, vec![x])) }
        if let Some(x) = &self.n112 { v.push((112, vec![x])) }
        if let Some(x) = &self.n113 { v.push((113, vec![x])) }
        if let Some(x) = &self.n114 { v.push((114, vec![x])) }
        if self.n115 { v.push((115, vec![])) }
        if let Some(x) = &self.n116 { v.push((116, vec![x])) }
        if let Some(x) = &self.n117 { v.push((117, vec![x])) }
        if let Some(x) = &self.n118 { v.push((118, vec![x])) }
        if let Some(x) = &self.n119 { v.push((119, vec![x])) }
        if let Some(x) = &self.n120 { v.push((120, vec![x])) }
        if let Some(x) = &self.n121 { v.push((121, vec![x])) }
        if self.n122 { v.push((122, vec![])) }
        if let Some(x) = &self.n123 { v.push((123, vec![x])) }
        if let Some(x) = &self.n124 { v.push((124, vec![x])) }
        if let Some(x) = &self.n125 { v.push((125, vec![x])) }
        if !self.n126.is_empty() { v.push((126, self.n126.iter().collect())) }
        if let Some(x) = &self.n127 { v.push((127, vec![x])) }
        if let Some(x) = &self.n128 { v.push((128, vec![x])) }
        if self.n129 { v.push((129, vec![])) }
        if let Some(x) = &self.n130 { v.push((130, vec![x])) }
        if let Some(x) = &self.n131 { v.push((131, vec![x])) }
        if let Some(x) = &self.n132 { v.push((132, vec![x])) }
        if let Some(x) = &self.n133 { v.push((133, vec![x])) }
        if let Some(x) = &self.n134 { v.push((134, vec![x])) }
        if let Some(x) = &self.n135 { v.push((135, vec![x])) }
        if self.n136 { v.push((136, vec![])) }
        if !self.n137.is_empty() { v.push((137, self.n137.iter().collect())) }
        if let Some(x) = &self.n138 { v.push((138, vec![x])) }
        if let Some(x) = &self.n139 { v.push((139, vec![x])) }
        if let Some(x) = &self.n140 { v.push((140, vec![x])) }
        if let Some(x) = &self.n141 { v.push((141, vec![x])) }
        if let Some(x) = &self.n142 { v.push((142, vec![x])) }
        if self.n143 { v.push((143, vec![])) }
        if let Some(x) = &self.n144 { v.push((144, vec![x])) }
        if let Some(x) = &self.n145 { v.push((145, vec![x])) }
        if let Some(x) = &self.n146 { v.push((146, vec![x])) }
        if let Some(x) = &self.n147 { v.push((147, vec![x])) }
        if !self.n148.is_empty() { v.push((148, self.n148.iter().collect())) }
        if let Some(x) = &self.n149 { v.push((149, vec![x])) }
        if self.n150 { v.push((150, vec![])) }
        if let Some(x) = &self.n151 { v.push((151, vec![x])) }
        if let Some(x) = &self.n152 { v.push((152, vec![x])) }
        if let Some(x) = &self.n153 { v.push((153, vec![x])) }
        if let Some(x) = &self.n154 { v.push((154, vec![x])) }
        if let Some(x) = &self.n155 { v.push((155, vec![x])) }
        if let Some(x) = &self.n156 { v.push((156, vec![x])) }
        if self.n157 { v.push((157, vec![])) }
        if let Some(x) = &self.n158 { v.push((158, vec![x])) }
        if !self.n159.is_empty() { v.push((159, self.n159.iter().collect())) }
        if let Some(x) = &self.n160 { v.push((160, vec![x])) }
        if let Some(x) = &self.n161 { v.push((161, vec![x])) }
        if let Some(x) = &self.n162 { v.push((162, vec![x])) }
        if let Some(x) = &self.n163 { v.push((163, vec![x])) }
        if self.n164 { v.push((164, vec![])) }
        if let Some(x) = &self.n165 { v.push((165, vec![x])) }
        if let Some(x) = &self.n166 { v.push((166, vec![x])) }
        if let Some(x) = &self.n167 { v.push((167, vec![x])) }
        if let Some(x) = &self.n168 { v.push((168, vec![x])) }
        if let Some(x) = &self.n169 { v.push((169, vec![x])) }
        if !self.n170.is_empty() { v.push((170, self.n170.iter().collect())) }
        if self.n171 { v.push((171, vec![])) }
        if let Some(x) = &self.n172 { v.push((172, vec![x])) }
        if let Some(x) = &self.n173 { v.push((173, vec![x])) }
        if let Some(x) = &self.n174 { v.push((174, vec![x])) }
        if let Some(x) = &self.n175 { v.push((175, vec![x])) }
        if let Some(x) = &self.n176 { v.push((176, vec![x])) }
        if let Some(x) = &self.n177 { v.push((177, vec![x])) }
        if self.n178 { v.push((178, vec![])) }
        if let Some(x) = &self.n179 { v.push((179, vec![x])) }
        if let Some(x) = &self.n180 { v.push((180, vec![x])) }
        if !self.n181.is_empty() { v.push((181, self.n181.iter().collect())) }
        if let Some(x) = &self.n182 { v.push((182, vec![x])) }
        if let Some(x) = &self.n183 { v.push((183, vec![x])) }
        if let Some(x) = &self.n184 { v.push((184, vec![x])) }
        if self.n185 { v.push((185, vec![])) }
        if let Some(x) = &self.n186 { v.push((186, vec![x])) }
        if let Some(x) = &self.n187 { v.push((187, vec![x])) }
        if let Some(x) = &self.n188 { v.push((188, vec![x])) }
        if let Some(x) = &self.n189 { v.push((189, vec![x])) }
        if let Some(x) = &self.p0 { v.push((190, vec![x])) }
        if let Some(x) = &self.p1 { v.push((191, vec![x])) }
        if let Some(x) = &self.p2 { v.push((192, vec![x])) }
        if let Some(x) = &self.p3 { v.push((193, vec![x])) }
        if let Some(x) = &self.p4 { v.push((194, vec![x])) }
        if let Some(x) = &self.p5 { v.push((195, vec![x])) }
        if let Some(x) = &self.p6 { v.push((196, vec![x])) }
        if let Some(x) = &self.p7 { v.push((197, vec![x])) }
        if let Some(x) = &self.p8 { v.push((198, vec![x])) }
        if let Some(x) = &self.p9 { v.push((199, vec![x])) }
        if let Some(x) = &self.p10 { v.push((200, vec![x])) }
        if let Some(x) = &self.p11 { v.push((201, vec![x])) }
        if let Some(x) = &self.p12 { v.push((202, vec![x])) }
        if let Some(x) = &self.p13 { v.push((203, vec![x])) }
        if let Some(x) = &self.p14 { v.push((204, vec![x])) }
        if let Some(x) = &self.p15 { v.push((205, vec![x])) }
        if let Some(x) = &self.p16 { v.push((206, vec![x])) }
        if let Some(x) = &self.p17 { v.push((207, vec![x])) }
        if let Some(x) = &self.p18 { v.push((208, vec![x])) }
        if let Some(x) = &self.p19 { v.push((209, vec![x])) }
        if let Some(x) = &self.p20 { v.push((210, vec![x])) }
        if let Some(x) = &self.p21 { v.push((211, vec![x])) }
        if let Some(x) = &self.p22 { v.push((212, vec![x])) }
        if let Some(x) = &self.p23 { v.push((213, vec![x])) }
        if let Some(x) = &self.p24 { v.push((214, vec![x])) }
        if let Some(x) = &self.p25 { v.push((215, vec![x])) }
        if let Some(x) = &self.p26 { v.push((216, vec![x])) }
        if let Some(x) = &self.p27 { v.push((217, vec![x])) }
        if let Some(x) = &self.p28 { v.push((218, vec![x])) }
        if let Some(x) = &self.p29 { v.push((219, vec![x])) }
        if let Some(x) = &self.p30 { v.push((220, vec![x])) }
        if let Some(x) = &self.p31 { v.push((221, vec![x])) }
        if let Some(x) = &self.p32 { v.push((222, vec![x])) }
        if let Some(x) = &self.p33 { v.push((223, vec![x])) }
        if let Some(x) = &self.p34 { v.push((224, vec![x])) }
        if let Some(x) = &self.p35 { v.push((225, vec![x])) }
        if let Some(x) = &self.p36 { v.push((226, vec![x])) }
        if let Some(x) = &self.p37 { v.push((227, vec![x])) }
        if let Some(x) = &self.p38 { v.push((228, vec![x])) }
        if let Some(x) = &self.p39 { v.push((229, vec![x])) }
        if let Some(x) = &self.p40 { v.push((230, vec![x])) }
        if let Some(x) = &self.p41 { v.push((231, vec![x])) }
        if let Some(x) = &self.p42 { v.push((232, vec![x])) }
        if let Some(x) = &self.p43 { v.push((233, vec![x])) }
        if let Some(x) = &self.p44 { v.push((234, vec![x])) }
        if let Some(x) = &self.p45 { v.push((235, vec![x])) }
        if let Some(x) = &self.p46 { v.push((236, vec![x])) }
        if let Some(x) = &self.p47 { v.push((237, vec![x])) }
        if let Some(x) = &self.p48 { v.push((238, vec![x])) }
        if let Some(x) = &self.p49 { v.push((239, vec![x])) }
        if let Some(x) = &self.p50 { v.push((240, vec![x])) }
        if let Some(x) = &self.p51 { v.push((241, vec![x])) }
        if let Some(x) = &self.p52 { v.push((242, vec![x])) }
        if let Some(x) = &self.p53 { v.push((243, vec![x])) }
        if let Some(x) = &self.p54 { v.push((244, vec![x])) }
        if let Some(x) = &self.p55 { v.push((245, vec![x])) }
        if let Some(x) = &self.p56 { v.push((246, vec![x])) }
        if let Some(x) = &self.p57 { v.push((247, vec![x])) }
        if let Some(x) = &self.p58 { v.push((248, vec![x])) }
        if let Some(x) = &self.p59 { v.push((249, vec![x])) }
        if let Some(x) = &self.p60 { v.push((250, vec![x])) }
        if let Some(x) = &self.p61 { v.push((251, vec![x])) }
        if !self.many.is_empty() { v.push((252, self.many.iter().collect())) }
        if !self.end.is_empty() { v.push((253, self.end.iter().collect())) }
        v
    }
}
#[derive(Parser, PartialEq)]
pub struct Words {
    pub w0: Option<OsString>,
    pub w1: Option<OsString>,
    pub w2: Option<OsString>,
    pub w3: Option<OsString>,
    pub w4: Option<OsString>,
    pub w5: Option<OsString>,
    pub w6: Option<OsString>,
    pub w7: Option<OsString>,
    pub w8: Option<OsString>,
    pub w9: Option<OsString>,
    pub w10: Option<OsString>,
    pub w11: Option<OsString>,
    pub w12: Option<OsString>,
    pub w13: Option<OsString>,
    pub w14: Option<OsString>,
    pub w15: Option<OsString>,
    pub w16: Option<OsString>,
    pub w17: Option<OsString>,
    pub w18: Option<OsString>,
    pub w19: Option<OsString>,
    pub w20: Option<OsString>,
    pub w21: Option<OsString>,
    pub w22: Option<OsString>,
    pub w23: Option<OsString>,
    pub w24: Option<OsString>,
    pub w25: Option<OsString>,
    pub w26: Option<OsString>,
    pub w27: Option<OsString>,
    pub w28: Option<OsString>,
    pub w29: Option<OsString>,
    pub w30: Option<OsString>,
    pub w31: Option<OsString>,
    pub w32: Option<OsString>,
    pub w33: Option<OsString>,
    pub w34: Option<OsString>,
    pub w35: Option<OsString>,
    pub w36: Option<OsString>,
    pub w37: Option<OsString>,
    pub w38: Option<OsString>,
    pub w39: Option<OsString>,
    pub w40: Option<OsString>,
    pub w41: Option<OsString>,
    pub w42: Option<OsString>,
    pub w43: Option<OsString>,
    pub w44: Option<OsString>,
    pub w45: Option<OsString>,
    pub w46: Option<OsString>,
    pub w47: Option<OsString>,
    pub w48: Option<OsString>,
    pub w49: Option<OsString>,
    pub w50: Option<OsString>,
    pub w51: Option<OsString>,
    pub w52: Option<OsString>,
    pub w53: Option<OsString>,
    pub w54: Option<OsString>,
    pub w55: Option<OsString>,
    pub w56: Option<OsString>,
    pub w57: Option<OsString>,
    pub w58: Option<OsString>,
    pub w59: Option<OsString>,
    pub w60: Option<OsString>,
    pub w61: Option<OsString>,
    pub w62: Option<OsString>,
    pub w63: Option<OsString>,
    pub w64: Option<OsString>,
    pub w65: Option<OsString>,
    pub w66: Option<OsString>,
    pub w67: Option<OsString>,
    pub w68: Option<OsString>,
    pub w69: Option<OsString>,
    pub w70: Option<OsString>,
    pub w71: Option<OsString>,
    pub w72: Option<OsString>,
    pub w73: Option<OsString>,
    pub w74: Option<OsString>,
    pub w75: Option<OsString>,
    pub w76: Option<OsString>,
    pub w77: Option<OsString>,
    pub w78: Option<OsString>,
    pub w79: Option<OsString>,
    pub w80: Option<OsString>,
    pub w81: Option<OsString>,
    pub w82: Option<OsString>,
    pub w83: Option<OsString>,
    pub w84: Option<OsString>,
    pub w85: Option<OsString>,
    pub w86: Option<OsString>,
    pub w87: Option<OsString>,
    pub w88: Option<OsString>,
    pub w89: Option<OsString>,
    pub w90: Option<OsString>,
    pub w91: Option<OsString>,
    pub w92: Option<OsString>,
    pub w93: Option<OsString>,
    pub w94: Option<OsString>,
    pub w95: Option<OsString>,
    pub w96: Option<OsString>,
    pub w97: Option<OsString>,
    pub w98: Option<OsString>,
    pub w99: Option<OsString>,
    pub w100: Option<OsString>,
    pub w101: Option<OsString>,
    pub w102: Option<OsString>,
    pub w103: Option<OsString>,
    pub w104: Option<OsString>,
    pub w105: Option<OsString>,
    pub w106: Option<OsString>,
    pub w107: Option<OsString>,
    pub w108: Option<OsString>,
    pub w109: Option<OsString>,
    pub w110: Option<OsString>,
    pub w111: Option<OsString>,
    pub w112: Option<OsString>,
    pub w113: Option<OsString>,
    pub w114: Option<OsString>,
    pub w115: Option<OsString>,
    pub w116: Option<OsString>,
    pub w117: Option<OsString>,
    pub w118: Option<OsString>,
    pub w119: Option<OsString>,
    pub w120: Option<OsString>,
    pub w121: Option<OsString>,
    pub w122: Option<OsString>,
    pub w123: Option<OsString>,
    pub w124: Option<OsString>,
    pub w125: Option<OsString>,
    pub w126: Option<OsString>,
    pub w127: Option<OsString>,
    pub w128: Option<OsString>,
    pub w129: Option<OsString>,
    pub w130: Option<OsString>,
    pub w131: Option<OsString>,
    pub w132: Option<OsString>,
    pub w133: Option<OsString>,
    pub w134: Option<OsString>,
    pub w135: Option<OsString>,
    pub w136: Option<OsString>,
    pub w137: Option<OsString>,
    pub w138: Option<OsString>,
    pub w139: Option<OsString>,
    pub w140: Option<OsString>,
    pub w141: Option<OsString>,
    pub w142: Option<OsString>,
    pub w143: Option<OsString>,
    pub w144: Option<OsString>,
    pub w145: Option<OsString>,
    pub w146: Option<OsString>,
    pub w147: Option<OsString>,
    pub w148: Option<OsString>,
    pub w149: Option<OsString>,
    pub w150: Option<OsString>,
    pub w151: Option<OsString>,
    pub w152: Option<OsString>,
    pub w153: Option<OsString>,
    pub w154: Option<OsString>,
    pub w155: Option<OsString>,
    pub w156: Option<OsString>,
    pub w157: Option<OsString>,
    pub w158: Option<OsString>,
    pub w159: Option<OsString>,
    pub w160: Option<OsString>,
    pub w161: Option<OsString>,
    pub w162: Option<OsString>,
    pub w163: Option<OsString>,
    pub w164: Option<OsString>,
    pub w165: Option<OsString>,
    pub w166: Option<OsString>,
    pub w167: Option<OsString>,
    pub w168: Option<OsString>,
    pub w169: Option<OsString>,
    pub w170: Option<OsString>,
    pub w171: Option<OsString>,
    pub w172: Option<OsString>,
    pub w173: Option<OsString>,
    pub w174: Option<OsString>,
    pub w175: Option<OsString>,
    pub w176: Option<OsString>,
    pub w177: Option<OsString>,
    pub w178: Option<OsString>,
    pub w179: Option<OsString>,
    pub w180: Option<OsString>,
    pub w181: Option<OsString>,
    pub w182: Option<OsString>,
    pub w183: Option<OsString>,
    pub w184: Option<OsString>,
    pub w185: Option<OsString>,
    pub w186: Option<OsString>,
    pub w187: Option<OsString>,
    pub w188: Option<OsString>,
    pub w189: Option<OsString>,
    pub w190: Option<OsString>,
    pub w191: Option<OsString>,
    pub w192: Option<OsString>,
    pub w193: Option<OsString>,
    pub w194: Option<OsString>,
    pub w195: Option<OsString>,
    pub w196: Option<OsString>,
    pub w197: Option<OsString>,
    pub w198: Option<OsString>,
    pub w199: Option<OsString>,
    pub w200: Option<OsString>,
    pub w201: Option<OsString>,
    pub w202: Option<OsString>,
    pub w203: Option<OsString>,
    pub w204: Option<OsString>,
    pub w205: Option<OsString>,
    pub w206: Option<OsString>,
    pub w207: Option<OsString>,
    pub w208: Option<OsString>,
    pub w209: Option<OsString>,
    pub w210: Option<OsString>,
    pub w211: Option<OsString>,
    pub w212: Option<OsString>,
    pub w213: Option<OsString>,
    pub w214: Option<OsString>,
    pub w215: Option<OsString>,
    pub w216: Option<OsString>,
    pub w217: Option<OsString>,
    pub w218: Option<OsString>,
    pub w219: Option<OsString>,
    pub w220: Option<OsString>,
    pub w221: Option<OsString>,
    pub w222: Option<OsString>,
    pub w223: Option<OsString>,
    pub w224: Option<OsString>,
    pub w225: Option<OsString>,
    pub w226: Option<OsString>,
    pub w227: Option<OsString>,
    pub w228: Option<OsString>,
    pub w229: Option<OsString>,
    pub w230: Option<OsString>,
    pub w231: Option<OsString>,
    pub w232: Option<OsString>,
    pub w233: Option<OsString>,
    pub w234: Option<OsString>,
    pub w235: Option<OsString>,
    pub w236: Option<OsString>,
    pub w237: Option<OsString>,
    pub w238: Option<OsString>,
    pub w239: Option<OsString>,
    pub w240: Option<OsString>,
    pub w241: Option<OsString>,
    pub w242: Option<OsString>,
    pub w243: Option<OsString>,
    pub w244: Option<OsString>,
    pub w245: Option<OsString>,
    pub w246: Option<OsString>,
    pub w247: Option<OsString>,
    pub w248: Option<OsString>,
    pub w249: Option<OsString>,
    pub w250: Option<OsString>,
    pub w251: Option<OsString>,
    pub w252: Option<OsString>,
    pub rest: Vec<OsString>,
}
impl Words {
    pub fn all(&self) -> Vec<Option<&OsString>> {
        vec![
            self.w0.as_ref(),
            self.w1.as_ref(),
            self.w2.as_ref(),
            self.w3.as_ref(),
            self.w4.as_ref(),
            self.w5.as_ref(),
            self.w6.as_ref(),
            self.w7.as_ref(),
            self.w8.as_ref(),
            self.w9.as_ref(),
            self.w10.as_ref(),
            self.w11.as_ref(),
            self.w12.as_ref(),
            self.w13.as_ref(),
            self.w14.as_ref(),
            self.w15.as_ref(),
            self.w16.as_ref(),
            self.w17.as_ref(),
            self.w18.as_ref(),
            self.w19.as_ref(),
            self.w20.as_ref(),
            self.w21.as_ref(),
            self.w22.as_ref(),
            self.w23.as_ref(),
            self.w24.as_ref(),
            self.w25.as_ref(),
            self.w26.as_ref(),
            self.w27.as_ref(),
            self.w28.as_ref(),
            self.w29.as_ref(),
            self.w30.as_ref(),
            self.w31.as_ref(),
            self.w32.as_ref(),
            self.w33.as_ref(),
            self.w34.as_ref(),
            self.w35.as_ref(),
            self.w36.as_ref(),
            self.w37.as_ref(),
            self.w38.as_ref(),
            self.w39.as_ref(),
            self.w40.as_ref(),
            self.w41.as_ref(),
            self.w42.as_ref(),
            self.w43.as_ref(),
            self.w44.as_ref(),
            self.w45.as_ref(),
            self.w46.as_ref(),
            self.w47.as_ref(),
            self.w48.as_ref(),
            self.w49.as_ref(),
            self.w50.as_ref(),
            self.w51.as_ref(),
            self.w52.as_ref(),
            self.w53.as_ref(),
            self.w54.as_ref(),
            self.w55.as_ref(),
            self.w56.as_ref(),
            self.w57.as_ref(),
            self.w58.as_ref(),
            self.w59.as_ref(),
            self.w60.as_ref(),
            self.w61.as_ref(),
            self.w62.as_ref(),
            self.w63.as_ref(),
            self.w64.as_ref(),
            self.w65.as_ref(),
            self.w66.as_ref(),
            self.w67.as_ref(),
            self.w68.as_ref(),
            self.w69.as_ref(),
            self.w70.as_ref(),
            self.w71.as_ref(),
            self.w72.as_ref(),
            self.w73.as_ref(),
            self.w74.as_ref(),
            self.w75.as_ref(),
            self.w76.as_ref(),
            self.w77.as_ref(),
            self.w78.as_ref(),
            self.w79.as_ref(),
            self.w80.as_ref(),
            self.w81.as_ref(),
            self.w82.as_ref(),
            self.w83.as_ref(),
            self.w84.as_ref(),
            self.w85.as_ref(),
            self.w86.as_ref(),
            self.w87.as_ref(),
            self.w88.as_ref(),
            self.w89.as_ref(),
            self.w90.as_ref(),
            self.w91.as_ref(),
            self.w92.as_ref(),
            self.w93.as_ref(),
            self.w94.as_ref(),
            self.w95.as_ref(),
            self.w96.as_ref(),
            self.w97.as_ref(),
            self.w98.as_ref(),
            self.w99.as_ref(),
            self.w100.as_ref(),
            self.w101.as_ref(),
            self.w102.as_ref(),
            self.w103.as_ref(),
            self.w104.as_ref(),
            self.w105.as_ref(),
            self.w106.as_ref(),
            self.w107.as_ref(),
            self.w108.as_ref(),
            self.w109.as_ref(),
            self.w110.as_ref(),
            self.w111.as_ref(),
            self.w112.as_ref(),
            self.w113.as_ref(),
            self.w114.as_ref(),
            self.w115.as_ref(),
            self.w116.as_ref(),
            self.w117.as_ref(),
            self.w118.as_ref(),
            self.w119.as_ref(),
            self.w120.as_ref(),
            self.w121.as_ref(),
            self.w122.as_ref(),
            self.w123.as_ref(),
            self.w124.as_ref(),
            self.w125.as_ref(),
            self.w126.as_ref(),
            self.w127.as_ref(),
            self.w128.as_ref(),
            self.w129.as_ref(),
            self.w130.as_ref(),
            self.w131.as_ref(),
            self.w132.as_ref(),
            self.w133.as_ref(),
            self.w134.as_ref(),
            self.w135.as_ref(),
            self.w136.as_ref(),
            self.w137.as_ref(),
            self.w138.as_ref(),
            self.w139.as_ref(),
            self.w140.as_ref(),
            self.w141.as_ref(),
            self.w142.as_ref(),
            self.w143.as_ref(),
            self.w144.as_ref(),
            self.w145.as_ref(),
            self.w146.as_ref(),
            self.w147.as_ref(),
            self.w148.as_ref(),
            self.w149.as_ref(),
            self.w150.as_ref(),
            self.w151.as_ref(),
            self.w152.as_ref(),
            self.w153.as_ref(),
            self.w154.as_ref(),
            self.w155.as_ref(),
            self.w156.as_ref(),
            self.w157.as_ref(),
            self.w158.as_ref(),
            self.w159.as_ref(),
            self.w160.as_ref(),
            self.w161.as_ref(),
            self.w162.as_ref(),
            self.w163.as_ref(),
            self.w164.as_ref(),
            self.w165.as_ref(),
            self.w166.as_ref(),
            self.w167.as_ref(),
            self.w168.as_ref(),
            self.w169.as_ref(),
            self.w170.as_ref(),
            self.w171.as_ref(),
            self.w172.as_ref(),
            self.w173.as_ref(),
            self.w174.as_ref(),
            self.w175.as_ref(),
            self.w176.as_ref(),
            self.w177.as_ref(),
            self.w178.as_ref(),
            self.w179.as_ref(),
            self.w180.as_ref(),
            self.w181.as_ref(),
            self.w182.as_ref(),
            self.w183.as_ref(),
            self.w184.as_ref(),
            self.w185.as_ref(),
            self.w186.as_ref(),
            self.w187.as_ref(),
            self.w188.as_ref(),
            self.w189.as_ref(),
            self.w190.as_ref(),
            self.w191.as_ref(),
            self.w192.as_ref(),
            self.w193.as_ref(),
            self.w194.as_ref(),
            self.w195.as_ref(),
            self.w196.as_ref(),
            self.w197.as_ref(),
            self.w198.as_ref(),
            self.w199.as_ref(),
            self.w200.as_ref(),
            self.w201.as_ref(),
            self.w202.as_ref(),
            self.w203.as_ref(),
            self.w204.as_ref(),
            self.w205.as_ref(),
            self.w206.as_ref(),
            self.w207.as_ref(),
            self.w208.as_ref(),
            self.w209.as_ref(),
            self.w210.as_ref(),
            self.w211.as_ref(),
            self.w212.as_ref(),
            self.w213.as_ref(),
            self.w214.as_ref(),
            self.w215.as_ref(),
            self.w216.as_ref(),
            self.w217.as_ref(),
            self.w218.as_ref(),
            self.w219.as_ref(),
            self.w220.as_ref(),
            self.w221.as_ref(),
            self.w222.as_ref(),
            self.w223.as_ref(),
            self.w224.as_ref(),
            self.w225.as_ref(),
            self.w226.as_ref(),
            self.w227.as_ref(),
            self.w228.as_ref(),
            self.w229.as_ref(),
            self.w230.as_ref(),
            self.w231.as_ref(),
            self.w232.as_ref(),
            self.w233.as_ref(),
            self.w234.as_ref(),
            self.w235.as_ref(),
            self.w236.as_ref(),
            self.w237.as_ref(),
            self.w238.as_ref(),
            self.w239.as_ref(),
            self.w240.as_ref(),
            self.w241.as_ref(),
            self.w242.as_ref(),
            self.w243.as_ref(),
            self.w244.as_ref(),
            self.w245.as_ref(),
            self.w246.as_ref(),
            self.w247.as_ref(),
            self.w248.as_ref(),
            self.w249.as_ref(),
            self.w250.as_ref(),
            self.w251.as_ref(),
            self.w252.as_ref(),
        ]
    }
}
#[derive(Parser, PartialEq)]
pub struct Needs {
    #[arg(long = "r0")]
    pub r0: OsString,
    #[arg(long = "r37")]
    pub r1: OsString,
    #[arg(long = "r74")]
    pub r2: OsString,
    #[arg(long = "r111")]
    pub r3: OsString,
    #[arg(long = "r148")]
    pub r4: OsString,
    #[arg(long = "r185")]
    pub r5: OsString,
    #[arg(long = "r222")]
    pub r6: OsString,
    #[arg(long = "r9")]
    pub r7: OsString,
    #[arg(long = "r46")]
    pub r8: OsString,
    #[arg(long = "r83")]
    pub r9: OsString,
    #[arg(long = "r120")]
    pub r10: OsString,
    #[arg(long = "r157")]
    pub r11: OsString,
    #[arg(long = "r194")]
    pub r12: OsString,
    #[arg(long = "r231")]
    pub r13: OsString,
    #[arg(long = "r18")]
    pub r14: OsString,
    #[arg(long = "r55")]
    pub r15: OsString,
    #[arg(long = "r92")]
    pub r16: OsString,
    #[arg(long = "r129")]
    pub r17: OsString,
    #[arg(long = "r166")]
    pub r18: OsString,
    #[arg(long = "r203")]
    pub r19: OsString,
    #[arg(long = "r240")]
    pub r20: OsString,
    #[arg(long = "r27")]
    pub r21: OsString,
    #[arg(long = "r64")]
    pub r22: OsString,
    #[arg(long = "r101")]
    pub r23: OsString,
    #[arg(long = "r138")]
    pub r24: OsString,
    #[arg(long = "r175")]
    pub r25: OsString,
    #[arg(long = "r212")]
    pub r26: OsString,
    #[arg(long = "r249")]
    pub r27: OsString,
    #[arg(long = "r36")]
    pub r28: OsString,
    #[arg(long = "r73")]
    pub r29: OsString,
    #[arg(long = "r110")]
    pub r30: OsString,
    #[arg(long = "r147")]
    pub r31: OsString,
    #[arg(long = "r184")]
    pub r32: OsString,
    #[arg(long = "r221")]
    pub r33: OsString,
    #[arg(long = "r8")]
    pub r34: OsString,
    #[arg(long = "r45")]
    pub r35: OsString,
    #[arg(long = "r82")]
    pub r36: OsString,
    #[arg(long = "r119")]
    pub r37: OsString,
    #[arg(long = "r156")]
    pub r38: OsString,
    #[arg(long = "r193")]
    pub r39: OsString,
    #[arg(long = "r230")]
    pub r40: OsString,
    #[arg(long = "r17")]
    pub r41: OsString,
    #[arg(long = "r54")]
    pub r42: OsString,
    #[arg(long = "r91")]
    pub r43: OsString,
    #[arg(long = "r128")]
    pub r44: OsString,
    #[arg(long = "r165")]
    pub r45: OsString,
    #[arg(long = "r202")]
    pub r46: OsString,
    #[arg(long = "r239")]
    pub r47: OsString,
    #[arg(long = "r26")]
    pub r48: OsString,
    #[arg(long = "r63")]
    pub r49: OsString,
    #[arg(long = "r100")]
    pub r50: OsString,
    #[arg(long = "r137")]
    pub r51: OsString,
    #[arg(long = "r174")]
    pub r52: OsString,
    #[arg(long = "r211")]
    pub r53: OsString,
    #[arg(long = "r248")]
    pub r54: OsString,
    #[arg(long = "r35")]
    pub r55: OsString,
    #[arg(long = "r72")]
    pub r56: OsString,
    #[arg(long = "r109")]
    pub r57: OsString,
    #[arg(long = "r146")]
    pub r58: OsString,
    #[arg(long = "r183")]
    pub r59: OsString,
    #[arg(long = "r220")]
    pub r60: OsString,
    #[arg(long = "r7")]
    pub r61: OsString,
    #[arg(long = "r44")]
    pub r62: OsString,
    #[arg(long = "r81")]
    pub r63: OsString,
    #[arg(long = "r118")]
    pub r64: OsString,
    #[arg(long = "r155")]
    pub r65: OsString,
    #[arg(long = "r192")]
    pub r66: OsString,
    #[arg(long = "r229")]
    pub r67: OsString,
    #[arg(long = "r16")]
    pub r68: OsString,
    #[arg(long = "r53")]
    pub r69: OsString,
    #[arg(long = "r90")]
    pub r70: OsString,
    #[arg(long = "r127")]
    pub r71: OsString,
    #[arg(long = "r164")]
    pub r72: OsString,
    #[arg(long = "r201")]
    pub r73: OsString,
    #[arg(long = "r238")]
    pub r74: OsString,
    #[arg(long = "r25")]
    pub r75: OsString,
    #[arg(long = "r62")]
    pub r76: OsString,
    #[arg(long = "r99")]
    pub r77: OsString,
    #[arg(long = "r136")]
    pub r78: OsString,
    #[arg(long = "r173")]
    pub r79: OsString,
    #[arg(long = "r210")]
    pub r80: OsString,
    #[arg(long = "r247")]
    pub r81: OsString,
    #[arg(long = "r34")]
    pub r82: OsString,
    #[arg(long = "r71")]
    pub r83: OsString,
    #[arg(long = "r108")]
    pub r84: OsString,
    #[arg(long = "r145")]
    pub r85: OsString,
    #[arg(long = "r182")]
    pub r86: OsString,
    #[arg(long = "r219")]
    pub r87: OsString,
    #[arg(long = "r6")]
    pub r88: OsString,
    #[arg(long = "r43")]
    pub r89: OsString,
    #[arg(long = "r80")]
    pub r90: OsString,
    #[arg(long = "r117")]
    pub r91: OsString,
    #[arg(long = "r154")]
    pub r92: OsString,
    #[arg(long = "r191")]
    pub r93: OsString,
    #[arg(long = "r228")]
    pub r94: OsString,
    #[arg(long = "r15")]
    pub r95: OsString,
    #[arg(long = "r52")]
    pub r96: OsString,
    #[arg(long = "r89")]
    pub r97: OsString,
    #[arg(long = "r126")]
    pub r98: OsString,
    #[arg(long = "r163")]
    pub r99: OsString,
    #[arg(long = "r200")]
    pub r100: OsString,
    #[arg(long = "r237")]
    pub r101: OsString,
    #[arg(long = "r24")]
    pub r102: OsString,
    #[arg(long = "r61")]
    pub r103: OsString,
    #[arg(long = "r98")]
    pub r104: OsString,
    #[arg(long = "r135")]
    pub r105: OsString,
    #[arg(long = "r172")]
    pub r106: OsString,
    #[arg(long = "r209")]
    pub r107: OsString,
    #[arg(long = "r246")]
    pub r108: OsString,
    #[arg(long = "r33")]
    pub r109: OsString,
    #[arg(long = "r70")]
    pub r110: OsString,
    #[arg(long = "r107")]
    pub r111: OsString,
    #[arg(long = "r144")]
    pub r112: OsString,
    #[arg(long = "r181")]
    pub r113: OsString,
    #[arg(long = "r218")]
    pub r114: OsString,
    #[arg(long = "r5")]
    pub r115: OsString,
    #[arg(long = "r42")]
    pub r116: OsString,
    #[arg(long = "r79")]
    pub r117: OsString,
    #[arg(long = "r116")]
    pub r118: OsString,
    #[arg(long = "r153")]
    pub r119: OsString,
    #[arg(long = "r190")]
    pub r120: OsString,
    #[arg(long = "r227")]
    pub r121: OsString,
    #[arg(long = "r14")]
    pub r122: OsString,
    #[arg(long = "r51")]
    pub r123: OsString,
    #[arg(long = "r88")]
    pub r124: OsString,
    #[arg(long = "r125")]
    pub r125: OsString,
    #[arg(long = "r162")]
    pub r126: OsString,
    #[arg(long = "r199")]
    pub r127: OsString,
    #[arg(long = "r236")]
    pub r128: OsString,
    #[arg(long = "r23")]
    pub r129: OsString,
    #[arg(long = "r60")]
    pub r130: OsString,
    #[arg(long = "r97")]
    pub r131: OsString,
    #[arg(long = "r134")]
    pub r132: OsString,
    #[arg(long = "r171")]
    pub r133: OsString,
    #[arg(long = "r208")]
    pub r134: OsString,
    #[arg(long = "r245")]
    pub r135: OsString,
    #[arg(long = "r32")]
    pub r136: OsString,
    #[arg(long = "r69")]
    pub r137: OsString,
    #[arg(long = "r106")]
    pub r138: OsString,
    #[arg(long = "r143")]
    pub r139: OsString,
    #[arg(long = "r180")]
    pub r140: OsString,
    #[arg(long = "r217")]
    pub r141: OsString,
    #[arg(long = "r4")]
    pub r142: OsString,
    #[arg(long = "r41")]
    pub r143: OsString,
    #[arg(long = "r78")]
    pub r144: OsString,
    #[arg(long = "r115")]
    pub r145: OsString,
    #[arg(long = "r152")]
    pub r146: OsString,
    #[arg(long = "r189")]
    pub r147: OsString,
    #[arg(long = "r226")]
    pub r148: OsString,
    #[arg(long = "r13")]
    pub r149: OsString,
    #[arg(long = "r50")]
    pub r150: OsString,
    #[arg(long = "r87")]
    pub r151: OsString,
    #[arg(long = "r124")]
    pub r152: OsString,
    #[arg(long = "r161")]
    pub r153: OsString,
    #[arg(long = "r198")]
    pub r154: OsString,
    #[arg(long = "r235")]
    pub r155: OsString,
    #[arg(long = "r22")]
    pub r156: OsString,
    #[arg(long = "r59")]
    pub r157: OsString,
    #[arg(long = "r96")]
    pub r158: OsString,
    #[arg(long = "r133")]
    pub r159: OsString,
    #[arg(long = "r170")]
    pub r160: OsString,
    #[arg(long = "r207")]
    pub r161: OsString,
    #[arg(long = "r244")]
    pub r162: OsString,
    #[arg(long = "r31")]
    pub r163: OsString,
    #[arg(long = "r68")]
    pub r164: OsString,
    #[arg(long = "r105")]
    pub r165: OsString,
    #[arg(long = "r142")]
    pub r166: OsString,
    #[arg(long = "r179")]
    pub r167: OsString,
    #[arg(long = "r216")]
    pub r168: OsString,
    #[arg(long = "r3")]
    pub r169: OsString,
    #[arg(long = "r40")]
    pub r170: OsString,
    #[arg(long = "r77")]
    pub r171: OsString,
    #[arg(long = "r114")]
    pub r172: OsString,
    #[arg(long = "r151")]
    pub r173: OsString,
    #[arg(long = "r188")]
    pub r174: OsString,
    #[arg(long = "r225")]
    pub r175: OsString,
    #[arg(long = "r12")]
    pub r176: OsString,
    #[arg(long = "r49")]
    pub r177: OsString,
    #[arg(long = "r86")]
    pub r178: OsString,
    #[arg(long = "r123")]
    pub r179: OsString,
    #[arg(long = "r160")]
    pub r180: OsString,
    #[arg(long = "r197")]
    pub r181: OsString,
    #[arg(long = "r234")]
    pub r182: OsString,
    #[arg(long = "r21")]
    pub r183: OsString,
    #[arg(long = "r58")]
    pub r184: OsString,
    #[arg(long = "r95")]
    pub r185: OsString,
    #[arg(long = "r132")]
    pub r186: OsString,
    #[arg(long = "r169")]
    pub r187: OsString,
    #[arg(long = "r206")]
    pub r188: OsString,
    #[arg(long = "r243")]
    pub r189: OsString,
    #[arg(long = "r30")]
    pub r190: OsString,
    #[arg(long = "r67")]
    pub r191: OsString,
    #[arg(long = "r104")]
    pub r192: OsString,
    #[arg(long = "r141")]
    pub r193: OsString,
    #[arg(long = "r178")]
    pub r194: OsString,
    #[arg(long = "r215")]
    pub r195: OsString,
    #[arg(long = "r2")]
    pub r196: OsString,
    #[arg(long = "r39")]
    pub r197: OsString,
    #[arg(long = "r76")]
    pub r198: OsString,
    #[arg(long = "r113")]
    pub r199: OsString,
    #[arg(long = "r150")]
    pub r200: OsString,
    #[arg(long = "r187")]
    pub r201: OsString,
    #[arg(long = "r224")]
    pub r202: OsString,
    #[arg(long = "r11")]
    pub r203: OsString,
    #[arg(long = "r48")]
    pub r204: OsString,
    #[arg(long = "r85")]
    pub r205: OsString,
    #[arg(long = "r122")]
    pub r206: OsString,
    #[arg(long = "r159")]
    pub r207: OsString,
    #[arg(long = "r196")]
    pub r208: OsString,
    #[arg(long = "r233")]
    pub r209: OsString,
    #[arg(long = "r20")]
    pub r210: OsString,
    #[arg(long = "r57")]
    pub r211: OsString,
    #[arg(long = "r94")]
    pub r212: OsString,
    #[arg(long = "r131")]
    pub r213: OsString,
    #[arg(long = "r168")]
    pub r214: OsString,
    #[arg(long = "r205")]
    pub r215: OsString,
    #[arg(long = "r242")]
    pub r216: OsString,
    #[arg(long = "r29")]
    pub r217: OsString,
    #[arg(long = "r66")]
    pub r218: OsString,
    #[arg(long = "r103")]
    pub r219: OsString,
    #[arg(long = "r140")]
    pub r220: OsString,
    #[arg(long = "r177")]
    pub r221: OsString,
    #[arg(long = "r214")]
    pub r222: OsString,
    #[arg(long = "r1")]
    pub r223: OsString,
    #[arg(long = "r38")]
    pub r224: OsString,
    #[arg(long = "r75")]
    pub r225: OsString,
    #[arg(long = "r112")]
    pub r226: OsString,
    #[arg(long = "r149")]
    pub r227: OsString,
    #[arg(long = "r186")]
    pub r228: OsString,
    #[arg(long = "r223")]
    pub r229: OsString,
    #[arg(long = "r10")]
    pub r230: OsString,
    #[arg(long = "r47")]
    pub r231: OsString,
    #[arg(long = "r84")]
    pub r232: OsString,
    #[arg(long = "r121")]
    pub r233: OsString,
    #[arg(long = "r158")]
    pub r234: OsString,
    #[arg(long = "r195")]
    pub r235: OsString,
    #[arg(long = "r232")]
    pub r236: OsString,
    #[arg(long = "r19")]
    pub r237: OsString,
    #[arg(long = "r56")]
    pub r238: OsString,
    #[arg(long = "r93")]
    pub r239: OsString,
    #[arg(long = "r130")]
    pub r240: OsString,
    #[arg(long = "r167")]
    pub r241: OsString,
    #[arg(long = "r204")]
    pub r242: OsString,
    #[arg(long = "r241")]
    pub r243: OsString,
    #[arg(long = "r28")]
    pub r244: OsString,
    #[arg(long = "r65")]
    pub r245: OsString,
    #[arg(long = "r102")]
    pub r246: OsString,
    #[arg(long = "r139")]
    pub r247: OsString,
    #[arg(long = "r176")]
    pub r248: OsString,
    #[arg(long = "r213")]
    pub r249: OsString,
}
#[derive(Parser, PartialEq)]
pub struct Subs {
    #[command(subcommand)]
    pub cmd: SubsCmd,
}
#[derive(Subcommand, PartialEq, Clone, Copy)]
pub enum SubsCmd {
    CaB3,
    Ca15,
    Cabcd26,
    CaBc38,
    Cab50,
    Ca62,
    CaBcd73,
    Cabc10,
    Cab22,
    Ca34,
    Cabcd45,
    Cabc57,
    CaB69,
    Ca6,
    Cabcd17,
    CaBc29,
    Cab41,
    Ca53,
    CaBcd64,
    Cabc1,
    Cab13,
    Ca25,
    Cabcd36,
    Cabc48,
    CaB60,
    Ca72,
    Cabcd8,
    CaBc20,
    Cab32,
    Ca44,
    CaBcd55,
    Cabc67,
    Cab4,
    Ca16,
    Cabcd27,
    Cabc39,
    CaB51,
    Ca63,
    Cabcd74,
    CaBc11,
    Cab23,
    Ca35,
    CaBcd46,
    Cabc58,
    Cab70,
    Ca7,
    Cabcd18,
    Cabc30,
    CaB42,
    Ca54,
    Cabcd65,
    CaBc2,
    Cab14,
    Ca26,
    CaBcd37,
    Cabc49,
    Cab61,
    Ca73,
    Cabcd9,
    Cabc21,
    CaB33,
    Ca45,
    Cabcd56,
    CaBc68,
    Cab5,
    Ca17,
    CaBcd28,
    Cabc40,
    Cab52,
    Ca64,
    Cabcd0,
    Cabc12,
    CaB24,
    Ca36,
    Cabcd47,
    CaBc59,
    Cab71,
    Ca8,
    CaBcd19,
    Cabc31,
    Cab43,
    Ca55,
    Cabcd66,
    Cabc3,
    CaB15,
    Ca27,
    Cabcd38,
    CaBc50,
    Cab62,
    Ca74,
    CaBcd10,
    Cabc22,
    Cab34,
    Ca46,
    Cabcd57,
    Cabc69,
    CaB6,
    Ca18,
    Cabcd29,
    CaBc41,
    Cab53,
    Ca65,
    CaBcd1,
    Cabc13,
    Cab25,
    Ca37,
    Cabcd48,
    Cabc60,
    CaB72,
    Ca9,
    Cabcd20,
    CaBc32,
    Cab44,
    Ca56,
    CaBcd67,
    Cabc4,
    Cab16,
    Ca28,
    Cabcd39,
    Cabc51,
    CaB63,
    Ca0,
    Cabcd11,
    CaBc23,
    Cab35,
    Ca47,
    CaBcd58,
    Cabc70,
    Cab7,
    Ca19,
    Cabcd30,
    Cabc42,
    CaB54,
    Ca66,
    Cabcd2,
    CaBc14,
    Cab26,
    Ca38,
    CaBcd49,
    Cabc61,
    Cab73,
    Ca10,
    Cabcd21,
    Cabc33,
    CaB45,
    Ca57,
    Cabcd68,
    CaBc5,
    Cab17,
    Ca29,
    CaBcd40,
    Cabc52,
    Cab64,
    Ca1,
    Cabcd12,
    Cabc24,
    CaB36,
    Ca48,
    Cabcd59,
    CaBc71,
    Cab8,
    Ca20,
    CaBcd31,
    Cabc43,
    Cab55,
    Ca67,
    Cabcd3,
    Cabc15,
    CaB27,
    Ca39,
    Cabcd50,
    CaBc62,
    Cab74,
    Ca11,
    CaBcd22,
    Cabc34,
    Cab46,
    Ca58,
    Cabcd69,
    Cabc6,
    CaB18,
    Ca30,
    Cabcd41,
    CaBc53,
    Cab65,
    Ca2,
    CaBcd13,
    Cabc25,
    Cab37,
    Ca49,
    Cabcd60,
    Cabc72,
    CaB9,
    Ca21,
    Cabcd32,
    CaBc44,
    Cab56,
    Ca68,
    CaBcd4,
    Cabc16,
    Cab28,
    Ca40,
    Cabcd51,
    Cabc63,
    CaB0,
    Ca12,
    Cabcd23,
    CaBc35,
    Cab47,
    Ca59,
    CaBcd70,
    Cabc7,
    Cab19,
    Ca31,
    Cabcd42,
    Cabc54,
    CaB66,
    Ca3,
    Cabcd14,
    CaBc26,
    Cab38,
    Ca50,
    CaBcd61,
    Cabc73,
    Cab10,
    Ca22,
    Cabcd33,
    Cabc45,
    CaB57,
    Ca69,
    Cabcd5,
    CaBc17,
    Cab29,
    Ca41,
    CaBcd52,
    Cabc64,
    Cab1,
    Ca13,
    Cabcd24,
    Cabc36,
    CaB48,
    Ca60,
    Cabcd71,
    CaBc8,
    Cab20,
    Ca32,
    CaBcd43,
    Cabc55,
    Cab67,
    Ca4,
    Cabcd15,
    Cabc27,
    CaB39,
    Ca51,
    Cabcd62,
    CaBc74,
    Cab11,
    Ca23,
    CaBcd34,
    Cabc46,
    Cab58,
    Ca70,
    Cabcd6,
    Cabc18,
    CaB30,
    Ca42,
    Cabcd53,
    CaBc65,
    Cab2,
    Ca14,
    CaBcd25,
    Cabc37,
    Cab49,
    Ca61,
    Cabcd72,
    Cabc9,
    CaB21,
    Ca33,
    Cabcd44,
    CaBc56,
    Cab68,
    Ca5,
    CaBcd16,
    Cabc28,
    Cab40,
    Ca52,
    Cabcd63,
    Cabc0,
    CaB12,
    Ca24,
    Cabcd35,
    CaBc47,
    Cab59,
    Ca71,
    CaBcd7,
    Cabc19,
    Cab31,
    Ca43,
    Cabcd54,
    Cabc66,
}
pub const SUBS: [(&str, SubsCmd); 300] = [
    ("ca-b3", SubsCmd::CaB3),
    ("ca15", SubsCmd::Ca15),
    ("cabcd26", SubsCmd::Cabcd26),
    ("ca-bc38", SubsCmd::CaBc38),
    ("cab50", SubsCmd::Cab50),
    ("ca62", SubsCmd::Ca62),
    ("ca-bcd73", SubsCmd::CaBcd73),
    ("cabc10", SubsCmd::Cabc10),
    ("cab22", SubsCmd::Cab22),
    ("ca34", SubsCmd::Ca34),
    ("cabcd45", SubsCmd::Cabcd45),
    ("cabc57", SubsCmd::Cabc57),
    ("ca-b69", SubsCmd::CaB69),
    ("ca6", SubsCmd::Ca6),
    ("cabcd17", SubsCmd::Cabcd17),
    ("ca-bc29", SubsCmd::CaBc29),
    ("cab41", SubsCmd::Cab41),
    ("ca53", SubsCmd::Ca53),
    ("ca-bcd64", SubsCmd::CaBcd64),
    ("cabc1", SubsCmd::Cabc1),
    ("cab13", SubsCmd::Cab13),
    ("ca25", SubsCmd::Ca25),
    ("cabcd36", SubsCmd::Cabcd36),
    ("cabc48", SubsCmd::Cabc48),
    ("ca-b60", SubsCmd::CaB60),
    ("ca72", SubsCmd::Ca72),
    ("cabcd8", SubsCmd::Cabcd8),
    ("ca-bc20", SubsCmd::CaBc20),
    ("cab32", SubsCmd::Cab32),
    ("ca44", SubsCmd::Ca44),
    ("ca-bcd55", SubsCmd::CaBcd55),
    ("cabc67", SubsCmd::Cabc67),
    ("cab4", SubsCmd::Cab4),
    ("ca16", SubsCmd::Ca16),
    ("cabcd27", SubsCmd::Cabcd27),
    ("cabc39", SubsCmd::Cabc39),
    ("ca-b51", SubsCmd::CaB51),
    ("ca63", SubsCmd::Ca63),
    ("cabcd74", SubsCmd::Cabcd74),
    ("ca-bc11", SubsCmd::CaBc11),
    ("cab23", SubsCmd::Cab23),
    ("ca35", SubsCmd::Ca35),
    ("ca-bcd46", SubsCmd::CaBcd46),
    ("cabc58", SubsCmd::Cabc58),
    ("cab70", SubsCmd::Cab70),
    ("ca7", SubsCmd::Ca7),
    ("cabcd18", SubsCmd::Cabcd18),
    ("cabc30", SubsCmd::Cabc30),
    ("ca-b42", SubsCmd::CaB42),
    ("ca54", SubsCmd::Ca54),
    ("cabcd65", SubsCmd::Cabcd65),
    ("ca-bc2", SubsCmd::CaBc2),
    ("cab14", SubsCmd::Cab14),
    ("ca26", SubsCmd::Ca26),
    ("ca-bcd37", SubsCmd::CaBcd37),
    ("cabc49", SubsCmd::Cabc49),
    ("cab61", SubsCmd::Cab61),
    ("ca73", SubsCmd::Ca73),
    ("cabcd9", SubsCmd::Cabcd9),
    ("cabc21", SubsCmd::Cabc21),
    ("ca-b33", SubsCmd::CaB33),
    ("ca45", SubsCmd::Ca45),
    ("cabcd56", SubsCmd::Cabcd56),
    ("ca-bc68", SubsCmd::CaBc68),
    ("cab5", SubsCmd::Cab5),
    ("ca17", SubsCmd::Ca17),
    ("ca-bcd28", SubsCmd::CaBcd28),
    ("cabc40", SubsCmd::Cabc40),
    ("cab52", SubsCmd::Cab52),
    ("ca64", SubsCmd::Ca64),
    ("cabcd0", SubsCmd::Cabcd0),
    ("cabc12", SubsCmd::Cabc12),
    ("ca-b24", SubsCmd::CaB24),
    ("ca36", SubsCmd::Ca36),
    ("cabcd47", SubsCmd::Cabcd47),
    ("ca-bc59", SubsCmd::CaBc59),
    ("cab71", SubsCmd::Cab71),
    ("ca8", SubsCmd::Ca8),
    ("ca-bcd19", SubsCmd::CaBcd19),
    ("cabc31", SubsCmd::Cabc31),
    ("cab43", SubsCmd::Cab43),
    ("ca55", SubsCmd::Ca55),
    ("cabcd66", SubsCmd::Cabcd66),
    ("cabc3", SubsCmd::Cabc3),
    ("ca-b15", SubsCmd::CaB15),
    ("ca27", SubsCmd::Ca27),
    ("cabcd38", SubsCmd::Cabcd38),
    ("ca-bc50", SubsCmd::CaBc50),
    ("cab62", SubsCmd::Cab62),
    ("ca74", SubsCmd::Ca74),
    ("ca-bcd10", SubsCmd::CaBcd10),
    ("cabc22", SubsCmd::Cabc22),
    ("cab34", SubsCmd::Cab34),
    ("ca46", SubsCmd::Ca46),
    ("cabcd57", SubsCmd::Cabcd57),
    ("cabc69", SubsCmd::Cabc69),
    ("ca-b6", SubsCmd::CaB6),
    ("ca18", SubsCmd::Ca18),
    ("cabcd29", SubsCmd::Cabcd29),
    ("ca-bc41", SubsCmd::CaBc41),
    ("cab53", SubsCmd::Cab53),
    ("ca65", SubsCmd::Ca65),
    ("ca-bcd1", SubsCmd::CaBcd1),
    ("cabc13", SubsCmd::Cabc13),
    ("cab25", SubsCmd::Cab25),
    ("ca37", SubsCmd::Ca37),
    ("cabcd48", SubsCmd::Cabcd48),
    ("cabc60", SubsCmd::Cabc60),
    ("ca-b72", SubsCmd::CaB72),
    ("ca9", SubsCmd::Ca9),
    ("cabcd20", SubsCmd::Cabcd20),
    ("ca-bc32", SubsCmd::CaBc32),
    ("cab44", SubsCmd::Cab44),
    ("ca56", SubsCmd::Ca56),
    ("ca-bcd67", SubsCmd::CaBcd67),
    ("cabc4", SubsCmd::Cabc4),
    ("cab16", SubsCmd::Cab16),
    ("ca28", SubsCmd::Ca28),
    ("cabcd39", SubsCmd::Cabcd39),
    ("cabc51", SubsCmd::Cabc51),
    ("ca-b63", SubsCmd::CaB63),
    ("ca0", SubsCmd::Ca0),
    ("cabcd11", SubsCmd::Cabcd11),
    ("ca-bc23", SubsCmd::CaBc23),
    ("cab35", SubsCmd::Cab35),
    ("ca47", SubsCmd::Ca47),
    ("ca-bcd58", SubsCmd::CaBcd58),
    ("cabc70", SubsCmd::Cabc70),
    ("cab7", SubsCmd::Cab7),
    ("ca19", SubsCmd::Ca19),
    ("cabcd30", SubsCmd::Cabcd30),
    ("cabc42", SubsCmd::Cabc42),
    ("ca-b54", SubsCmd::CaB54),
    ("ca66", SubsCmd::Ca66),
    ("cabcd2", SubsCmd::Cabcd2),
    ("ca-bc14", SubsCmd::CaBc14),
    ("cab26", SubsCmd::Cab26),
    ("ca38", SubsCmd::Ca38),
    ("ca-bcd49", SubsCmd::CaBcd49),
    ("cabc61", SubsCmd::Cabc61),
    ("cab73", SubsCmd::Cab73),
    ("ca10", SubsCmd::Ca10),
    ("cabcd21", SubsCmd::Cabcd21),
    ("cabc33", SubsCmd::Cabc33),
    ("ca-b45", SubsCmd::CaB45),
    ("ca57", SubsCmd::Ca57),
    ("cabcd68", SubsCmd::Cabcd68),
    ("ca-bc5", SubsCmd::CaBc5),
    ("cab17", SubsCmd::Cab17),
    ("ca29", SubsCmd::Ca29),
    ("ca-bcd40", SubsCmd::CaBcd40),
    ("cabc52", SubsCmd::Cabc52),
    ("cab64", SubsCmd::Cab64),
    ("ca1", SubsCmd::Ca1),
    ("cabcd12", SubsCmd::Cabcd12),
    ("cabc24", SubsCmd::Cabc24),
    ("ca-b36", SubsCmd::CaB36),
    ("ca48", SubsCmd::Ca48),
    ("cabcd59", SubsCmd::Cabcd59),
    ("ca-bc71", SubsCmd::CaBc71),
    ("cab8", SubsCmd::Cab8),
    ("ca20", SubsCmd::Ca20),
    ("ca-bcd31", SubsCmd::CaBcd31),
    ("cabc43", SubsCmd::Cabc43),
    ("cab55", SubsCmd::Cab55),
    ("ca67", SubsCmd::Ca67),
    ("cabcd3", SubsCmd::Cabcd3),
    ("cabc15", SubsCmd::Cabc15),
    ("ca-b27", SubsCmd::CaB27),
    ("ca39", SubsCmd::Ca39),
    ("cabcd50", SubsCmd::Cabcd50),
    ("ca-bc62", SubsCmd::CaBc62),
    ("cab74", SubsCmd::Cab74),
    ("ca11", SubsCmd::Ca11),
    ("ca-bcd22", SubsCmd::CaBcd22),
    ("cabc34", SubsCmd::Cabc34),
    ("cab46", SubsCmd::Cab46),
    ("ca58", SubsCmd::Ca58),
    ("cabcd69", SubsCmd::Cabcd69),
    ("cabc6", SubsCmd::Cabc6),
    ("ca-b18", SubsCmd::CaB18),
    ("ca30", SubsCmd::Ca30),
    ("cabcd41", SubsCmd::Cabcd41),
    ("ca-bc53", SubsCmd::CaBc53),
    ("cab65", SubsCmd::Cab65),
    ("ca2", SubsCmd::Ca2),
    ("ca-bcd13", SubsCmd::CaBcd13),
    ("cabc25", SubsCmd::Cabc25),
    ("cab37", SubsCmd::Cab37),
    ("ca49", SubsCmd::Ca49),
    ("cabcd60", SubsCmd::Cabcd60),
    ("cabc72", SubsCmd::Cabc72),
    ("ca-b9", SubsCmd::CaB9),
    ("ca21", SubsCmd::Ca21),
    ("cabcd32", SubsCmd::Cabcd32),
    ("ca-bc44", SubsCmd::CaBc44),
    ("cab56", SubsCmd::Cab56),
    ("ca68", SubsCmd::Ca68),
    ("ca-bcd4", SubsCmd::CaBcd4),
    ("cabc16", SubsCmd::Cabc16),
    ("cab28", SubsCmd::Cab28),
    ("ca40", SubsCmd::Ca40),
    ("cabcd51", SubsCmd::Cabcd51),
    ("cabc63", SubsCmd::Cabc63),
    ("ca-b0", SubsCmd::CaB0),
    ("ca12", SubsCmd::Ca12),
    ("cabcd23", SubsCmd::Cabcd23),
    ("ca-bc35", SubsCmd::CaBc35),
    ("cab47", SubsCmd::Cab47),
    ("ca59", SubsCmd::Ca59),
    ("ca-bcd70", SubsCmd::CaBcd70),
    ("cabc7", SubsCmd::Cabc7),
    ("cab19", SubsCmd::Cab19),
    ("ca31", SubsCmd::Ca31),
    ("cabcd42", SubsCmd::Cabcd42),
    ("cabc54", SubsCmd::Cabc54),
    ("ca-b66", SubsCmd::CaB66),
    ("ca3", SubsCmd::Ca3),
    ("cabcd14", SubsCmd::Cabcd14),
    ("ca-bc26", SubsCmd::CaBc26),
    ("cab38", SubsCmd::Cab38),
    ("ca50", SubsCmd::Ca50),
    ("ca-bcd61", SubsCmd::CaBcd61),
    ("cabc73", SubsCmd::Cabc73),
    ("cab10", SubsCmd::Cab10),
    ("ca22", SubsCmd::Ca22),
    ("cabcd33", SubsCmd::Cabcd33),
    ("cabc45", SubsCmd::Cabc45),
    ("ca-b57", SubsCmd::CaB57),
    ("ca69", SubsCmd::Ca69),
    ("cabcd5", SubsCmd::Cabcd5),
    ("ca-bc17", SubsCmd::CaBc17),
    ("cab29", SubsCmd::Cab29),
    ("ca41", SubsCmd::Ca41),
    ("ca-bcd52", SubsCmd::CaBcd52),
    ("cabc64", SubsCmd::Cabc64),
    ("cab1", SubsCmd::Cab1),
    ("ca13", SubsCmd::Ca13),
    ("cabcd24", SubsCmd::Cabcd24),
    ("cabc36", SubsCmd::Cabc36),
    ("ca-b48", SubsCmd::CaB48),
    ("ca60", SubsCmd::Ca60),
    ("cabcd71", SubsCmd::Cabcd71),
    ("ca-bc8", SubsCmd::CaBc8),
    ("cab20", SubsCmd::Cab20),
    ("ca32", SubsCmd::Ca32),
    ("ca-bcd43", SubsCmd::CaBcd43),
    ("cabc55", SubsCmd::Cabc55),
    ("cab67", SubsCmd::Cab67),
    ("ca4", SubsCmd::Ca4),
    ("cabcd15", SubsCmd::Cabcd15),
    ("cabc27", SubsCmd::Cabc27),
    ("ca-b39", SubsCmd::CaB39),
    ("ca51", SubsCmd::Ca51),
    ("cabcd62", SubsCmd::Cabcd62),
    ("ca-bc74", SubsCmd::CaBc74),
    ("cab11", SubsCmd::Cab11),
    ("ca23", SubsCmd::Ca23),
    ("ca-bcd34", SubsCmd::CaBcd34),
    ("cabc46", SubsCmd::Cabc46),
    ("cab58", SubsCmd::Cab58),
    ("ca70", SubsCmd::Ca70),
    ("cabcd6", SubsCmd::Cabcd6),
    ("cabc18", SubsCmd::Cabc18),
    ("ca-b30", SubsCmd::CaB30),
    ("ca42", SubsCmd::Ca42),
    ("cabcd53", SubsCmd::Cabcd53),
    ("ca-bc65", SubsCmd::CaBc65),
    ("cab2", SubsCmd::Cab2),
    ("ca14", SubsCmd::Ca14),
    ("ca-bcd25", SubsCmd::CaBcd25),
    ("cabc37", SubsCmd::Cabc37),
    ("cab49", SubsCmd::Cab49),
    ("ca61", SubsCmd::Ca61),
    ("cabcd72", SubsCmd::Cabcd72),
    ("cabc9", SubsCmd::Cabc9),
    ("ca-b21", SubsCmd::CaB21),
    ("ca33", SubsCmd::Ca33),
    ("cabcd44", SubsCmd::Cabcd44),
    ("ca-bc56", SubsCmd::CaBc56),
    ("cab68", SubsCmd::Cab68),
    ("ca5", SubsCmd::Ca5),
    ("ca-bcd16", SubsCmd::CaBcd16),
    ("cabc28", SubsCmd::Cabc28),
    ("cab40", SubsCmd::Cab40),
    ("ca52", SubsCmd::Ca52),
    ("cabcd63", SubsCmd::Cabcd63),
    ("cabc0", SubsCmd::Cabc0),
    ("ca-b12", SubsCmd::CaB12),
    ("ca24", SubsCmd::Ca24),
    ("cabcd35", SubsCmd::Cabcd35),
    ("ca-bc47", SubsCmd::CaBc47),
    ("cab59", SubsCmd::Cab59),
    ("ca71", SubsCmd::Ca71),
    ("ca-bcd7", SubsCmd::CaBcd7),
    ("cabc19", SubsCmd::Cabc19),
    ("cab31", SubsCmd::Cab31),
    ("ca43", SubsCmd::Ca43),
    ("cabcd54", SubsCmd::Cabcd54),
    ("cabc66", SubsCmd::Cabc66),
];
