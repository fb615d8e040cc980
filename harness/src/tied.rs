// Written by tools/gen_tied.py.
//! Constraints among as many arguments as a definition can have.
use crate::common::*;
use palc::{Parser, Subcommand};
use std::ffi::OsString;

#[derive(Parser, PartialEq)]
pub struct Tied {
    #[arg(long = "t041", requires = "q0")]
    pub t0: bool,
    #[arg(long = "t114", conflicts_with = "q1")]
    pub t1: Option<OsString>,
    #[arg(long = "t007", requires = "t163")]
    pub t2: Option<OsString>,
    #[arg(long = "t080")]
    pub t3: bool,
    #[arg(long = "t153", requires = "t99")]
    pub t4: Option<OsString>,
    #[arg(long = "t046", conflicts_with = "t67")]
    pub t5: Option<OsString>,
    #[arg(long = "t119", requires = "t35")]
    pub t6: bool,
    #[arg(long = "t012")]
    pub t7: Option<OsString>,
    #[arg(long = "t085", requires = "t151")]
    pub t8: Option<OsString>,
    #[arg(long = "t158", conflicts_with = "t119")]
    pub t9: bool,
    #[arg(long = "t051", requires = "t87")]
    pub t10: Option<OsString>,
    #[arg(long = "t124")]
    pub t11: Option<OsString>,
    #[arg(long = "t017", requires = "q0")]
    pub t12: bool,
    #[arg(long = "t090", conflicts_with = "q1")]
    pub t13: Option<OsString>,
    #[arg(long = "t163", requires = "t139")]
    pub t14: Option<OsString>,
    #[arg(long = "t056")]
    pub t15: bool,
    #[arg(long = "t129", requires = "t75")]
    pub t16: Option<OsString>,
    #[arg(long = "t022", conflicts_with = "t43")]
    pub t17: Option<OsString>,
    #[arg(long = "t095", requires = "t11")]
    pub t18: bool,
    #[arg(long = "t168")]
    pub t19: Option<OsString>,
    #[arg(long = "t061", requires = "t127")]
    pub t20: Option<OsString>,
    #[arg(long = "t134", conflicts_with = "t95")]
    pub t21: bool,
    #[arg(long = "t027", requires = "t63")]
    pub t22: Option<OsString>,
    #[arg(long = "t100")]
    pub t23: Option<OsString>,
    #[arg(long = "t173", requires = "q0")]
    pub t24: bool,
    #[arg(long = "t066", conflicts_with = "q1")]
    pub t25: Option<OsString>,
    #[arg(long = "t139", requires = "t115")]
    pub t26: Option<OsString>,
    #[arg(long = "t032")]
    pub t27: bool,
    #[arg(long = "t105", requires = "t51")]
    pub t28: Option<OsString>,
    #[arg(long = "t178", conflicts_with = "t19")]
    pub t29: Option<OsString>,
    #[arg(long = "t071", requires = "q0")]
    pub t30: bool,
    #[arg(long = "t144")]
    pub t31: Option<OsString>,
    #[arg(long = "t037", requires = "t103")]
    pub t32: Option<OsString>,
    #[arg(long = "t110", conflicts_with = "t71")]
    pub t33: bool,
    #[arg(long = "t003", requires = "t39")]
    pub t34: Option<OsString>,
    #[arg(long = "t076")]
    pub t35: Option<OsString>,
    #[arg(long = "t149", requires = "q0")]
    pub t36: bool,
    #[arg(long = "t042", conflicts_with = "q1")]
    pub t37: Option<OsString>,
    #[arg(long = "t115", requires = "t91")]
    pub t38: Option<OsString>,
    #[arg(long = "t008")]
    pub t39: bool,
    #[arg(long = "t081", requires = "t27")]
    pub t40: Option<OsString>,
    #[arg(long = "t154", conflicts_with = "t175")]
    pub t41: Option<OsString>,
    #[arg(long = "t047", requires = "t143")]
    pub t42: bool,
    #[arg(long = "t120")]
    pub t43: Option<OsString>,
    #[arg(long = "t013", requires = "t79")]
    pub t44: Option<OsString>,
    #[arg(long = "t086", conflicts_with = "t47")]
    pub t45: bool,
    #[arg(long = "t159", requires = "t15")]
    pub t46: Option<OsString>,
    #[arg(long = "t052")]
    pub t47: Option<OsString>,
    #[arg(long = "t125", requires = "q0")]
    pub t48: bool,
    #[arg(long = "t018", conflicts_with = "q1")]
    pub t49: Option<OsString>,
    #[arg(long = "t091", requires = "t67")]
    pub t50: Option<OsString>,
    #[arg(long = "t164")]
    pub t51: bool,
    #[arg(long = "t057", requires = "t3")]
    pub t52: Option<OsString>,
    #[arg(long = "t130", conflicts_with = "t151")]
    pub t53: Option<OsString>,
    #[arg(long = "t023", requires = "t119")]
    pub t54: bool,
    #[arg(long = "t096")]
    pub t55: Option<OsString>,
    #[arg(long = "t169", requires = "t55")]
    pub t56: Option<OsString>,
    #[arg(long = "t062", conflicts_with = "t23")]
    pub t57: bool,
    #[arg(long = "t135", requires = "t171")]
    pub t58: Option<OsString>,
    #[arg(long = "t028")]
    pub t59: Option<OsString>,
    #[arg(long = "t101", requires = "q0")]
    pub t60: bool,
    #[arg(long = "t174", conflicts_with = "q1")]
    pub t61: Option<OsString>,
    #[arg(long = "t067", requires = "t43")]
    pub t62: Option<OsString>,
    #[arg(long = "t140")]
    pub t63: bool,
    #[arg(long = "t033", requires = "t159")]
    pub t64: Option<OsString>,
    #[arg(long = "t106", conflicts_with = "t127")]
    pub t65: Option<OsString>,
    #[arg(long = "t179", requires = "t95")]
    pub t66: bool,
    #[arg(long = "t072")]
    pub t67: Option<OsString>,
    #[arg(long = "t145", requires = "t31")]
    pub t68: Option<OsString>,
    #[arg(long = "t038", conflicts_with = "t179")]
    pub t69: bool,
    #[arg(long = "t111", requires = "t147")]
    pub t70: Option<OsString>,
    #[arg(long = "t004")]
    pub t71: Option<OsString>,
    #[arg(long = "t077", requires = "q0")]
    pub t72: bool,
    #[arg(long = "t150", conflicts_with = "q1")]
    pub t73: Option<OsString>,
    #[arg(long = "t043", requires = "t19")]
    pub t74: Option<OsString>,
    #[arg(long = "t116")]
    pub t75: bool,
    #[arg(long = "t009", requires = "t135")]
    pub t76: Option<OsString>,
    #[arg(long = "t082", conflicts_with = "t103")]
    pub t77: Option<OsString>,
    #[arg(long = "t155", requires = "t71")]
    pub t78: bool,
    #[arg(long = "t048")]
    pub t79: Option<OsString>,
    #[arg(long = "t121", requires = "t7")]
    pub t80: Option<OsString>,
    #[arg(long = "t014", conflicts_with = "t155")]
    pub t81: bool,
    #[arg(long = "t087", requires = "t123")]
    pub t82: Option<OsString>,
    #[arg(long = "t160")]
    pub t83: Option<OsString>,
    #[arg(long = "t053", requires = "q0")]
    pub t84: bool,
    #[arg(long = "t126", conflicts_with = "q1")]
    pub t85: Option<OsString>,
    #[arg(long = "t019", requires = "t175")]
    pub t86: Option<OsString>,
    #[arg(long = "t092")]
    pub t87: bool,
    #[arg(long = "t165", requires = "t111")]
    pub t88: Option<OsString>,
    #[arg(long = "t058", conflicts_with = "t79")]
    pub t89: Option<OsString>,
    #[arg(long = "t131", requires = "q0")]
    pub t90: bool,
    #[arg(long = "t024")]
    pub t91: Option<OsString>,
    #[arg(long = "t097", requires = "t163")]
    pub t92: Option<OsString>,
    #[arg(long = "t170", conflicts_with = "t131")]
    pub t93: bool,
    #[arg(long = "t063", requires = "t99")]
    pub t94: Option<OsString>,
    #[arg(long = "t136")]
    pub t95: Option<OsString>,
    #[arg(long = "t029", requires = "q0")]
    pub t96: bool,
    #[arg(long = "t102", conflicts_with = "q1")]
    pub t97: Option<OsString>,
    #[arg(long = "t175", requires = "t151")]
    pub t98: Option<OsString>,
    #[arg(long = "t068")]
    pub t99: bool,
    #[arg(long = "t141", requires = "t87")]
    pub t100: Option<OsString>,
    #[arg(long = "t034", conflicts_with = "t55")]
    pub t101: Option<OsString>,
    #[arg(long = "t107", requires = "t23")]
    pub t102: bool,
    #[arg(long = "t000")]
    pub t103: Option<OsString>,
    #[arg(long = "t073", requires = "t139")]
    pub t104: Option<OsString>,
    #[arg(long = "t146", conflicts_with = "t107")]
    pub t105: bool,
    #[arg(long = "t039", requires = "t75")]
    pub t106: Option<OsString>,
    #[arg(long = "t112")]
    pub t107: Option<OsString>,
    #[arg(long = "t005", requires = "q0")]
    pub t108: bool,
    #[arg(long = "t078", conflicts_with = "q1")]
    pub t109: Option<OsString>,
    #[arg(long = "t151", requires = "t127")]
    pub t110: Option<OsString>,
    #[arg(long = "t044")]
    pub t111: bool,
    #[arg(long = "t117", requires = "t63")]
    pub t112: Option<OsString>,
    #[arg(long = "t010", conflicts_with = "t31")]
    pub t113: Option<OsString>,
    #[arg(long = "t083", requires = "t179")]
    pub t114: bool,
    #[arg(long = "t156")]
    pub t115: Option<OsString>,
    #[arg(long = "t049", requires = "t115")]
    pub t116: Option<OsString>,
    #[arg(long = "t122", conflicts_with = "t83")]
    pub t117: bool,
    #[arg(long = "t015", requires = "t51")]
    pub t118: Option<OsString>,
    #[arg(long = "t088")]
    pub t119: Option<OsString>,
    #[arg(long = "t161", requires = "q0")]
    pub t120: bool,
    #[arg(long = "t054", conflicts_with = "q1")]
    pub t121: Option<OsString>,
    #[arg(long = "t127", requires = "t103")]
    pub t122: Option<OsString>,
    #[arg(long = "t020")]
    pub t123: bool,
    #[arg(long = "t093", requires = "t39")]
    pub t124: Option<OsString>,
    #[arg(long = "t166", conflicts_with = "t7")]
    pub t125: Option<OsString>,
    #[arg(long = "t059", requires = "t155")]
    pub t126: bool,
    #[arg(long = "t132")]
    pub t127: Option<OsString>,
    #[arg(long = "t025", requires = "t91")]
    pub t128: Option<OsString>,
    #[arg(long = "t098", conflicts_with = "t59")]
    pub t129: bool,
    #[arg(long = "t171", requires = "t27")]
    pub t130: Option<OsString>,
    #[arg(long = "t064")]
    pub t131: Option<OsString>,
    #[arg(long = "t137", requires = "q0")]
    pub t132: bool,
    #[arg(long = "t030", conflicts_with = "q1")]
    pub t133: Option<OsString>,
    #[arg(long = "t103", requires = "t79")]
    pub t134: Option<OsString>,
    #[arg(long = "t176")]
    pub t135: bool,
    #[arg(long = "t069", requires = "t15")]
    pub t136: Option<OsString>,
    #[arg(long = "t142", conflicts_with = "t163")]
    pub t137: Option<OsString>,
    #[arg(long = "t035", requires = "t131")]
    pub t138: bool,
    #[arg(long = "t108")]
    pub t139: Option<OsString>,
    #[arg(long = "t001", requires = "t67")]
    pub t140: Option<OsString>,
    #[arg(long = "t074", conflicts_with = "t35")]
    pub t141: bool,
    #[arg(long = "t147", requires = "t3")]
    pub t142: Option<OsString>,
    #[arg(long = "t040")]
    pub t143: Option<OsString>,
    #[arg(long = "t113", requires = "q0")]
    pub t144: bool,
    #[arg(long = "t006", conflicts_with = "q1")]
    pub t145: Option<OsString>,
    #[arg(long = "t079", requires = "t55")]
    pub t146: Option<OsString>,
    #[arg(long = "t152")]
    pub t147: bool,
    #[arg(long = "t045", requires = "t171")]
    pub t148: Option<OsString>,
    #[arg(long = "t118", conflicts_with = "t139")]
    pub t149: Option<OsString>,
    #[arg(long = "t011", required = true)]
    pub t150: Vec<OsString>,
    #[arg(long = "t084")]
    pub t151: Option<OsString>,
    #[arg(long = "t157", requires = "t43")]
    pub t152: Option<OsString>,
    #[arg(long = "t050", conflicts_with = "t11")]
    pub t153: bool,
    #[arg(long = "t123", requires = "t159")]
    pub t154: Option<OsString>,
    #[arg(long = "t016")]
    pub t155: Option<OsString>,
    #[arg(long = "t089", requires = "q0")]
    pub t156: bool,
    #[arg(long = "t162", conflicts_with = "q1")]
    pub t157: Option<OsString>,
    #[arg(long = "t055", requires = "t31")]
    pub t158: Option<OsString>,
    #[arg(long = "t128")]
    pub t159: bool,
    #[arg(long = "t021", requires = "t147")]
    pub t160: Option<OsString>,
    #[arg(long = "t094", conflicts_with = "t115")]
    pub t161: Option<OsString>,
    #[arg(long = "t167", requires = "t83")]
    pub t162: bool,
    #[arg(long = "t060")]
    pub t163: Option<OsString>,
    #[arg(long = "t133", requires = "t19")]
    pub t164: Option<OsString>,
    #[arg(long = "t026", conflicts_with = "t167")]
    pub t165: bool,
    #[arg(long = "t099", requires = "t135")]
    pub t166: Option<OsString>,
    #[arg(long = "t172")]
    pub t167: Option<OsString>,
    #[arg(long = "t065", requires = "q0")]
    pub t168: bool,
    #[arg(long = "t138", conflicts_with = "q1")]
    pub t169: Option<OsString>,
    #[arg(long = "t031", requires = "t7")]
    pub t170: Option<OsString>,
    #[arg(long = "t104")]
    pub t171: bool,
    #[arg(long = "t177", requires = "t123")]
    pub t172: Option<OsString>,
    #[arg(long = "t070", conflicts_with = "t91")]
    pub t173: Option<OsString>,
    #[arg(long = "t143", requires = "t59")]
    pub t174: bool,
    #[arg(long = "t036")]
    pub t175: Option<OsString>,
    #[arg(long = "t109", requires = "t175")]
    pub t176: Option<OsString>,
    #[arg(long = "t002", conflicts_with = "t143")]
    pub t177: bool,
    #[arg(long = "t075", requires = "t111")]
    pub t178: Option<OsString>,
    #[arg(long = "t148")]
    pub t179: Option<OsString>,
    pub q0: Option<OsString>,
    pub q1: Option<OsString>,
    #[arg(last = true)]
    pub q2: Vec<OsString>,
}
/// (word, 1 requires 2 conflicts with 4 required, partner, description)
const TIED: [(&str, u8, usize, &str); 180] = [
    ("--t041", 1, 180, "--t041"),
    ("--t114=v", 2, 181, "--t114 <T1>"),
    ("--t007=v", 1, 163, "--t007 <T2>"),
    ("--t080", 0, 180, "--t080"),
    ("--t153=v", 1, 99, "--t153 <T4>"),
    ("--t046=v", 2, 67, "--t046 <T5>"),
    ("--t119", 1, 35, "--t119"),
    ("--t012=v", 0, 180, "--t012 <T7>"),
    ("--t085=v", 1, 151, "--t085 <T8>"),
    ("--t158", 2, 119, "--t158"),
    ("--t051=v", 1, 87, "--t051 <T10>"),
    ("--t124=v", 0, 180, "--t124 <T11>"),
    ("--t017", 1, 180, "--t017"),
    ("--t090=v", 2, 181, "--t090 <T13>"),
    ("--t163=v", 1, 139, "--t163 <T14>"),
    ("--t056", 0, 180, "--t056"),
    ("--t129=v", 1, 75, "--t129 <T16>"),
    ("--t022=v", 2, 43, "--t022 <T17>"),
    ("--t095", 1, 11, "--t095"),
    ("--t168=v", 0, 180, "--t168 <T19>"),
    ("--t061=v", 1, 127, "--t061 <T20>"),
    ("--t134", 2, 95, "--t134"),
    ("--t027=v", 1, 63, "--t027 <T22>"),
    ("--t100=v", 0, 180, "--t100 <T23>"),
    ("--t173", 1, 180, "--t173"),
    ("--t066=v", 2, 181, "--t066 <T25>"),
    ("--t139=v", 1, 115, "--t139 <T26>"),
    ("--t032", 0, 180, "--t032"),
    ("--t105=v", 1, 51, "--t105 <T28>"),
    ("--t178=v", 2, 19, "--t178 <T29>"),
    ("--t071", 1, 180, "--t071"),
    ("--t144=v", 0, 180, "--t144 <T31>"),
    ("--t037=v", 1, 103, "--t037 <T32>"),
    ("--t110", 2, 71, "--t110"),
    ("--t003=v", 1, 39, "--t003 <T34>"),
    ("--t076=v", 0, 180, "--t076 <T35>"),
    ("--t149", 1, 180, "--t149"),
    ("--t042=v", 2, 181, "--t042 <T37>"),
    ("--t115=v", 1, 91, "--t115 <T38>"),
    ("--t008", 0, 180, "--t008"),
    ("--t081=v", 1, 27, "--t081 <T40>"),
    ("--t154=v", 2, 175, "--t154 <T41>"),
    ("--t047", 1, 143, "--t047"),
    ("--t120=v", 0, 180, "--t120 <T43>"),
    ("--t013=v", 1, 79, "--t013 <T44>"),
    ("--t086", 2, 47, "--t086"),
    ("--t159=v", 1, 15, "--t159 <T46>"),
    ("--t052=v", 0, 180, "--t052 <T47>"),
    ("--t125", 1, 180, "--t125"),
    ("--t018=v", 2, 181, "--t018 <T49>"),
    ("--t091=v", 1, 67, "--t091 <T50>"),
    ("--t164", 0, 180, "--t164"),
    ("--t057=v", 1, 3, "--t057 <T52>"),
    ("--t130=v", 2, 151, "--t130 <T53>"),
    ("--t023", 1, 119, "--t023"),
    ("--t096=v", 0, 180, "--t096 <T55>"),
    ("--t169=v", 1, 55, "--t169 <T56>"),
    ("--t062", 2, 23, "--t062"),
    ("--t135=v", 1, 171, "--t135 <T58>"),
    ("--t028=v", 0, 180, "--t028 <T59>"),
    ("--t101", 1, 180, "--t101"),
    ("--t174=v", 2, 181, "--t174 <T61>"),
    ("--t067=v", 1, 43, "--t067 <T62>"),
    ("--t140", 0, 180, "--t140"),
    ("--t033=v", 1, 159, "--t033 <T64>"),
    ("--t106=v", 2, 127, "--t106 <T65>"),
    ("--t179", 1, 95, "--t179"),
    ("--t072=v", 0, 180, "--t072 <T67>"),
    ("--t145=v", 1, 31, "--t145 <T68>"),
    ("--t038", 2, 179, "--t038"),
    ("--t111=v", 1, 147, "--t111 <T70>"),
    ("--t004=v", 0, 180, "--t004 <T71>"),
    ("--t077", 1, 180, "--t077"),
    ("--t150=v", 2, 181, "--t150 <T73>"),
    ("--t043=v", 1, 19, "--t043 <T74>"),
    ("--t116", 0, 180, "--t116"),
    ("--t009=v", 1, 135, "--t009 <T76>"),
    ("--t082=v", 2, 103, "--t082 <T77>"),
    ("--t155", 1, 71, "--t155"),
    ("--t048=v", 0, 180, "--t048 <T79>"),
    ("--t121=v", 1, 7, "--t121 <T80>"),
    ("--t014", 2, 155, "--t014"),
    ("--t087=v", 1, 123, "--t087 <T82>"),
    ("--t160=v", 0, 180, "--t160 <T83>"),
    ("--t053", 1, 180, "--t053"),
    ("--t126=v", 2, 181, "--t126 <T85>"),
    ("--t019=v", 1, 175, "--t019 <T86>"),
    ("--t092", 0, 180, "--t092"),
    ("--t165=v", 1, 111, "--t165 <T88>"),
    ("--t058=v", 2, 79, "--t058 <T89>"),
    ("--t131", 1, 180, "--t131"),
    ("--t024=v", 0, 180, "--t024 <T91>"),
    ("--t097=v", 1, 163, "--t097 <T92>"),
    ("--t170", 2, 131, "--t170"),
    ("--t063=v", 1, 99, "--t063 <T94>"),
    ("--t136=v", 0, 180, "--t136 <T95>"),
    ("--t029", 1, 180, "--t029"),
    ("--t102=v", 2, 181, "--t102 <T97>"),
    ("--t175=v", 1, 151, "--t175 <T98>"),
    ("--t068", 0, 180, "--t068"),
    ("--t141=v", 1, 87, "--t141 <T100>"),
    ("--t034=v", 2, 55, "--t034 <T101>"),
    ("--t107", 1, 23, "--t107"),
    ("--t000=v", 0, 180, "--t000 <T103>"),
    ("--t073=v", 1, 139, "--t073 <T104>"),
    ("--t146", 2, 107, "--t146"),
    ("--t039=v", 1, 75, "--t039 <T106>"),
    ("--t112=v", 0, 180, "--t112 <T107>"),
    ("--t005", 1, 180, "--t005"),
    ("--t078=v", 2, 181, "--t078 <T109>"),
    ("--t151=v", 1, 127, "--t151 <T110>"),
    ("--t044", 0, 180, "--t044"),
    ("--t117=v", 1, 63, "--t117 <T112>"),
    ("--t010=v", 2, 31, "--t010 <T113>"),
    ("--t083", 1, 179, "--t083"),
    ("--t156=v", 0, 180, "--t156 <T115>"),
    ("--t049=v", 1, 115, "--t049 <T116>"),
    ("--t122", 2, 83, "--t122"),
    ("--t015=v", 1, 51, "--t015 <T118>"),
    ("--t088=v", 0, 180, "--t088 <T119>"),
    ("--t161", 1, 180, "--t161"),
    ("--t054=v", 2, 181, "--t054 <T121>"),
    ("--t127=v", 1, 103, "--t127 <T122>"),
    ("--t020", 0, 180, "--t020"),
    ("--t093=v", 1, 39, "--t093 <T124>"),
    ("--t166=v", 2, 7, "--t166 <T125>"),
    ("--t059", 1, 155, "--t059"),
    ("--t132=v", 0, 180, "--t132 <T127>"),
    ("--t025=v", 1, 91, "--t025 <T128>"),
    ("--t098", 2, 59, "--t098"),
    ("--t171=v", 1, 27, "--t171 <T130>"),
    ("--t064=v", 0, 180, "--t064 <T131>"),
    ("--t137", 1, 180, "--t137"),
    ("--t030=v", 2, 181, "--t030 <T133>"),
    ("--t103=v", 1, 79, "--t103 <T134>"),
    ("--t176", 0, 180, "--t176"),
    ("--t069=v", 1, 15, "--t069 <T136>"),
    ("--t142=v", 2, 163, "--t142 <T137>"),
    ("--t035", 1, 131, "--t035"),
    ("--t108=v", 0, 180, "--t108 <T139>"),
    ("--t001=v", 1, 67, "--t001 <T140>"),
    ("--t074", 2, 35, "--t074"),
    ("--t147=v", 1, 3, "--t147 <T142>"),
    ("--t040=v", 0, 180, "--t040 <T143>"),
    ("--t113", 1, 180, "--t113"),
    ("--t006=v", 2, 181, "--t006 <T145>"),
    ("--t079=v", 1, 55, "--t079 <T146>"),
    ("--t152", 0, 180, "--t152"),
    ("--t045=v", 1, 171, "--t045 <T148>"),
    ("--t118=v", 2, 139, "--t118 <T149>"),
    ("--t011=v", 4, 180, "--t011 <T150>"),
    ("--t084=v", 0, 180, "--t084 <T151>"),
    ("--t157=v", 1, 43, "--t157 <T152>"),
    ("--t050", 2, 11, "--t050"),
    ("--t123=v", 1, 159, "--t123 <T154>"),
    ("--t016=v", 0, 180, "--t016 <T155>"),
    ("--t089", 1, 180, "--t089"),
    ("--t162=v", 2, 181, "--t162 <T157>"),
    ("--t055=v", 1, 31, "--t055 <T158>"),
    ("--t128", 0, 180, "--t128"),
    ("--t021=v", 1, 147, "--t021 <T160>"),
    ("--t094=v", 2, 115, "--t094 <T161>"),
    ("--t167", 1, 83, "--t167"),
    ("--t060=v", 0, 180, "--t060 <T163>"),
    ("--t133=v", 1, 19, "--t133 <T164>"),
    ("--t026", 2, 167, "--t026"),
    ("--t099=v", 1, 135, "--t099 <T166>"),
    ("--t172=v", 0, 180, "--t172 <T167>"),
    ("--t065", 1, 180, "--t065"),
    ("--t138=v", 2, 181, "--t138 <T169>"),
    ("--t031=v", 1, 7, "--t031 <T170>"),
    ("--t104", 0, 180, "--t104"),
    ("--t177=v", 1, 123, "--t177 <T172>"),
    ("--t070=v", 2, 91, "--t070 <T173>"),
    ("--t143", 1, 59, "--t143"),
    ("--t036=v", 0, 180, "--t036 <T175>"),
    ("--t109=v", 1, 175, "--t109 <T176>"),
    ("--t002", 2, 143, "--t002"),
    ("--t075=v", 1, 111, "--t075 <T178>"),
    ("--t148=v", 0, 180, "--t148 <T179>"),
];
#[derive(Parser, PartialEq)]
pub struct Multi {
    #[arg(long, requires = "m0", requires = "m1", requires = "m2", requires = "m3", requires = "m4", requires = "m5", requires = "m6", requires = "m7", requires = "m8", requires = "m9", requires = "m10", requires = "m11", requires = "m12", requires = "m13", requires = "m14", requires = "m15", requires = "m16", requires = "m17", requires = "m18", requires = "m19")]
    pub r0: bool,
    #[arg(long, conflicts_with = "m0", conflicts_with = "m1", conflicts_with = "m2", conflicts_with = "m3", conflicts_with = "m4", conflicts_with = "m5", conflicts_with = "m6", conflicts_with = "m7", conflicts_with = "m8", conflicts_with = "m9", conflicts_with = "m10", conflicts_with = "m11", conflicts_with = "m12", conflicts_with = "m13", conflicts_with = "m14", conflicts_with = "m15", conflicts_with = "m16", conflicts_with = "m17", conflicts_with = "m18", conflicts_with = "m19")]
    pub r1: bool,
    #[arg(long)]
    pub m0: bool,
    #[arg(long)]
    pub m1: Option<OsString>,
    #[arg(long)]
    pub m2: Vec<OsString>,
    #[arg(long)]
    pub m3: bool,
    #[arg(long)]
    pub m4: Option<OsString>,
    #[arg(long)]
    pub m5: Vec<OsString>,
    #[arg(long)]
    pub m6: bool,
    #[arg(long)]
    pub m7: Option<OsString>,
    #[arg(long)]
    pub m8: Vec<OsString>,
    #[arg(long)]
    pub m9: bool,
    #[arg(long)]
    pub m10: Option<OsString>,
    #[arg(long)]
    pub m11: Vec<OsString>,
    #[arg(long)]
    pub m12: bool,
    #[arg(long)]
    pub m13: Option<OsString>,
    #[arg(long)]
    pub m14: Vec<OsString>,
    #[arg(long)]
    pub m15: bool,
    #[arg(long)]
    pub m16: Option<OsString>,
    #[arg(long)]
    pub m17: Vec<OsString>,
    #[arg(long)]
    pub m18: bool,
    #[arg(long)]
    pub m19: Option<OsString>,
}
const K: usize = 20;
/// One that requires 20 others or one that conflicts with them, and all of them or a few: the class of what is violated.
pub fn multi() -> (Vec<OsString>, Option<Class>, String) {
    let word = |i: usize| if i % 3 == 0 { s(&format!("--m{i}")) } else { cat(&[format!("--m{i}=").as_bytes(), &bytes(1)]) };
    let (i, more) = (choice(K), flip());
    let requires = flip();
    // all but one, or all; one, or none
    let mut l: Vec<OsString> = if requires { (0..K).filter(|k| more || *k != i).map(|k| word(k)).collect() } else if more { vec![word(i)] } else { vec![] };
    let at = if flip() { 0 } else { l.len() };
    l.insert(at, s(if requires { "--r0" } else { "--r1" }));
    let desc = if i % 3 == 0 { format!("--m{i}") } else { format!("--m{i} <M{i}>") };
    match (requires, more) {
        (true, false) => (l, Some(Class::Requires), format!("the argument '{desc}' is required because some dependency arguments are provided")),
        (false, true) => (l, Some(Class::Conflict), "the argument '--r1' cannot be used with some other arguments".to_string()),
        _ => (l, None, String::new()),
    }
}
#[derive(Parser, PartialEq)]
pub struct Alone {
    #[arg(long = "a000", exclusive = true)]
    pub a0: bool,
    #[arg(long = "a059")]
    pub a1: bool,
    #[arg(long = "a118")]
    pub a2: bool,
    #[arg(long = "a177")]
    pub a3: bool,
    #[arg(long = "a236")]
    pub a4: bool,
    #[arg(long = "a045")]
    pub a5: bool,
    #[arg(long = "a104")]
    pub a6: bool,
    #[arg(long = "a163", exclusive = true)]
    pub a7: bool,
    #[arg(long = "a222", exclusive = true)]
    pub a8: bool,
    #[arg(long = "a031")]
    pub a9: bool,
    #[arg(long = "a090")]
    pub a10: bool,
    #[arg(long = "a149")]
    pub a11: bool,
    #[arg(long = "a208")]
    pub a12: bool,
    #[arg(long = "a017")]
    pub a13: bool,
    #[arg(long = "a076")]
    pub a14: bool,
    #[arg(long = "a135")]
    pub a15: bool,
    #[arg(long = "a194")]
    pub a16: bool,
    #[arg(long = "a003")]
    pub a17: bool,
    #[arg(long = "a062")]
    pub a18: bool,
    #[arg(long = "a121")]
    pub a19: bool,
    #[arg(long = "a180")]
    pub a20: bool,
    #[arg(long = "a239")]
    pub a21: bool,
    #[arg(long = "a048")]
    pub a22: bool,
    #[arg(long = "a107")]
    pub a23: bool,
    #[arg(long = "a166")]
    pub a24: bool,
    #[arg(long = "a225")]
    pub a25: bool,
    #[arg(long = "a034")]
    pub a26: bool,
    #[arg(long = "a093")]
    pub a27: bool,
    #[arg(long = "a152")]
    pub a28: bool,
    #[arg(long = "a211")]
    pub a29: bool,
    #[arg(long = "a020")]
    pub a30: bool,
    #[arg(long = "a079")]
    pub a31: bool,
    #[arg(long = "a138")]
    pub a32: bool,
    #[arg(long = "a197")]
    pub a33: bool,
    #[arg(long = "a006")]
    pub a34: bool,
    #[arg(long = "a065")]
    pub a35: bool,
    #[arg(long = "a124")]
    pub a36: bool,
    #[arg(long = "a183")]
    pub a37: bool,
    #[arg(long = "a242")]
    pub a38: bool,
    #[arg(long = "a051")]
    pub a39: bool,
    #[arg(long = "a110")]
    pub a40: bool,
    #[arg(long = "a169")]
    pub a41: bool,
    #[arg(long = "a228")]
    pub a42: bool,
    #[arg(long = "a037")]
    pub a43: bool,
    #[arg(long = "a096")]
    pub a44: bool,
    #[arg(long = "a155")]
    pub a45: bool,
    #[arg(long = "a214")]
    pub a46: bool,
    #[arg(long = "a023")]
    pub a47: bool,
    #[arg(long = "a082")]
    pub a48: bool,
    #[arg(long = "a141")]
    pub a49: bool,
    #[arg(long = "a200")]
    pub a50: bool,
    #[arg(long = "a009")]
    pub a51: bool,
    #[arg(long = "a068")]
    pub a52: bool,
    #[arg(long = "a127")]
    pub a53: bool,
    #[arg(long = "a186")]
    pub a54: bool,
    #[arg(long = "a245")]
    pub a55: bool,
    #[arg(long = "a054")]
    pub a56: bool,
    #[arg(long = "a113")]
    pub a57: bool,
    #[arg(long = "a172")]
    pub a58: bool,
    #[arg(long = "a231")]
    pub a59: bool,
    #[arg(long = "a040")]
    pub a60: bool,
    #[arg(long = "a099")]
    pub a61: bool,
    #[arg(long = "a158")]
    pub a62: bool,
    #[arg(long = "a217", exclusive = true)]
    pub a63: bool,
    #[arg(long = "a026", exclusive = true)]
    pub a64: bool,
    #[arg(long = "a085")]
    pub a65: bool,
    #[arg(long = "a144")]
    pub a66: bool,
    #[arg(long = "a203")]
    pub a67: bool,
    #[arg(long = "a012")]
    pub a68: bool,
    #[arg(long = "a071")]
    pub a69: bool,
    #[arg(long = "a130")]
    pub a70: bool,
    #[arg(long = "a189")]
    pub a71: bool,
    #[arg(long = "a248")]
    pub a72: bool,
    #[arg(long = "a057")]
    pub a73: bool,
    #[arg(long = "a116")]
    pub a74: bool,
    #[arg(long = "a175")]
    pub a75: bool,
    #[arg(long = "a234")]
    pub a76: bool,
    #[arg(long = "a043")]
    pub a77: bool,
    #[arg(long = "a102")]
    pub a78: bool,
    #[arg(long = "a161")]
    pub a79: bool,
    #[arg(long = "a220")]
    pub a80: bool,
    #[arg(long = "a029")]
    pub a81: bool,
    #[arg(long = "a088")]
    pub a82: bool,
    #[arg(long = "a147")]
    pub a83: bool,
    #[arg(long = "a206")]
    pub a84: bool,
    #[arg(long = "a015")]
    pub a85: bool,
    #[arg(long = "a074")]
    pub a86: bool,
    #[arg(long = "a133")]
    pub a87: bool,
    #[arg(long = "a192")]
    pub a88: bool,
    #[arg(long = "a001")]
    pub a89: bool,
    #[arg(long = "a060")]
    pub a90: bool,
    #[arg(long = "a119")]
    pub a91: bool,
    #[arg(long = "a178")]
    pub a92: bool,
    #[arg(long = "a237")]
    pub a93: bool,
    #[arg(long = "a046")]
    pub a94: bool,
    #[arg(long = "a105")]
    pub a95: bool,
    #[arg(long = "a164")]
    pub a96: bool,
    #[arg(long = "a223")]
    pub a97: bool,
    #[arg(long = "a032")]
    pub a98: bool,
    #[arg(long = "a091")]
    pub a99: bool,
    #[arg(long = "a150")]
    pub a100: bool,
    #[arg(long = "a209")]
    pub a101: bool,
    #[arg(long = "a018")]
    pub a102: bool,
    #[arg(long = "a077")]
    pub a103: bool,
    #[arg(long = "a136")]
    pub a104: bool,
    #[arg(long = "a195")]
    pub a105: bool,
    #[arg(long = "a004")]
    pub a106: bool,
    #[arg(long = "a063")]
    pub a107: bool,
    #[arg(long = "a122")]
    pub a108: bool,
    #[arg(long = "a181")]
    pub a109: bool,
    #[arg(long = "a240")]
    pub a110: bool,
    #[arg(long = "a049")]
    pub a111: bool,
    #[arg(long = "a108")]
    pub a112: bool,
    #[arg(long = "a167")]
    pub a113: bool,
    #[arg(long = "a226")]
    pub a114: bool,
    #[arg(long = "a035")]
    pub a115: bool,
    #[arg(long = "a094")]
    pub a116: bool,
    #[arg(long = "a153")]
    pub a117: bool,
    #[arg(long = "a212")]
    pub a118: bool,
    #[arg(long = "a021")]
    pub a119: bool,
    #[arg(long = "a080")]
    pub a120: bool,
    #[arg(long = "a139")]
    pub a121: bool,
    #[arg(long = "a198")]
    pub a122: bool,
    #[arg(long = "a007")]
    pub a123: bool,
    #[arg(long = "a066")]
    pub a124: bool,
    #[arg(long = "a125")]
    pub a125: bool,
    #[arg(long = "a184")]
    pub a126: bool,
    #[arg(long = "a243", exclusive = true)]
    pub a127: bool,
    #[arg(long = "a052", exclusive = true)]
    pub a128: bool,
    #[arg(long = "a111", exclusive = true)]
    pub a129: bool,
    #[arg(long = "a170")]
    pub a130: bool,
    #[arg(long = "a229")]
    pub a131: bool,
    #[arg(long = "a038")]
    pub a132: bool,
    #[arg(long = "a097")]
    pub a133: bool,
    #[arg(long = "a156")]
    pub a134: bool,
    #[arg(long = "a215")]
    pub a135: bool,
    #[arg(long = "a024")]
    pub a136: bool,
    #[arg(long = "a083")]
    pub a137: bool,
    #[arg(long = "a142")]
    pub a138: bool,
    #[arg(long = "a201")]
    pub a139: bool,
    #[arg(long = "a010")]
    pub a140: bool,
    #[arg(long = "a069")]
    pub a141: bool,
    #[arg(long = "a128")]
    pub a142: bool,
    #[arg(long = "a187")]
    pub a143: bool,
    #[arg(long = "a246")]
    pub a144: bool,
    #[arg(long = "a055")]
    pub a145: bool,
    #[arg(long = "a114")]
    pub a146: bool,
    #[arg(long = "a173")]
    pub a147: bool,
    #[arg(long = "a232")]
    pub a148: bool,
    #[arg(long = "a041")]
    pub a149: bool,
    #[arg(long = "a100")]
    pub a150: bool,
    #[arg(long = "a159")]
    pub a151: bool,
    #[arg(long = "a218")]
    pub a152: bool,
    #[arg(long = "a027")]
    pub a153: bool,
    #[arg(long = "a086")]
    pub a154: bool,
    #[arg(long = "a145")]
    pub a155: bool,
    #[arg(long = "a204")]
    pub a156: bool,
    #[arg(long = "a013")]
    pub a157: bool,
    #[arg(long = "a072")]
    pub a158: bool,
    #[arg(long = "a131")]
    pub a159: bool,
    #[arg(long = "a190")]
    pub a160: bool,
    #[arg(long = "a249")]
    pub a161: bool,
    #[arg(long = "a058")]
    pub a162: bool,
    #[arg(long = "a117")]
    pub a163: bool,
    #[arg(long = "a176")]
    pub a164: bool,
    #[arg(long = "a235")]
    pub a165: bool,
    #[arg(long = "a044")]
    pub a166: bool,
    #[arg(long = "a103")]
    pub a167: bool,
    #[arg(long = "a162")]
    pub a168: bool,
    #[arg(long = "a221")]
    pub a169: bool,
    #[arg(long = "a030")]
    pub a170: bool,
    #[arg(long = "a089")]
    pub a171: bool,
    #[arg(long = "a148")]
    pub a172: bool,
    #[arg(long = "a207")]
    pub a173: bool,
    #[arg(long = "a016")]
    pub a174: bool,
    #[arg(long = "a075")]
    pub a175: bool,
    #[arg(long = "a134")]
    pub a176: bool,
    #[arg(long = "a193")]
    pub a177: bool,
    #[arg(long = "a002")]
    pub a178: bool,
    #[arg(long = "a061")]
    pub a179: bool,
    #[arg(long = "a120")]
    pub a180: bool,
    #[arg(long = "a179")]
    pub a181: bool,
    #[arg(long = "a238")]
    pub a182: bool,
    #[arg(long = "a047")]
    pub a183: bool,
    #[arg(long = "a106")]
    pub a184: bool,
    #[arg(long = "a165")]
    pub a185: bool,
    #[arg(long = "a224")]
    pub a186: bool,
    #[arg(long = "a033")]
    pub a187: bool,
    #[arg(long = "a092")]
    pub a188: bool,
    #[arg(long = "a151")]
    pub a189: bool,
    #[arg(long = "a210")]
    pub a190: bool,
    #[arg(long = "a019", exclusive = true)]
    pub a191: bool,
    #[arg(long = "a078", exclusive = true)]
    pub a192: bool,
    #[arg(long = "a137")]
    pub a193: bool,
    #[arg(long = "a196")]
    pub a194: bool,
    #[arg(long = "a005")]
    pub a195: bool,
    #[arg(long = "a064")]
    pub a196: bool,
    #[arg(long = "a123")]
    pub a197: bool,
    #[arg(long = "a182")]
    pub a198: bool,
    #[arg(long = "a241")]
    pub a199: bool,
    #[arg(long = "a050")]
    pub a200: bool,
    #[arg(long = "a109")]
    pub a201: bool,
    #[arg(long = "a168")]
    pub a202: bool,
    #[arg(long = "a227")]
    pub a203: bool,
    #[arg(long = "a036")]
    pub a204: bool,
    #[arg(long = "a095")]
    pub a205: bool,
    #[arg(long = "a154")]
    pub a206: bool,
    #[arg(long = "a213")]
    pub a207: bool,
    #[arg(long = "a022")]
    pub a208: bool,
    #[arg(long = "a081")]
    pub a209: bool,
    #[arg(long = "a140")]
    pub a210: bool,
    #[arg(long = "a199")]
    pub a211: bool,
    #[arg(long = "a008")]
    pub a212: bool,
    #[arg(long = "a067")]
    pub a213: bool,
    #[arg(long = "a126")]
    pub a214: bool,
    #[arg(long = "a185")]
    pub a215: bool,
    #[arg(long = "a244")]
    pub a216: bool,
    #[arg(long = "a053")]
    pub a217: bool,
    #[arg(long = "a112")]
    pub a218: bool,
    #[arg(long = "a171")]
    pub a219: bool,
    #[arg(long = "a230")]
    pub a220: bool,
    #[arg(long = "a039")]
    pub a221: bool,
    #[arg(long = "a098")]
    pub a222: bool,
    #[arg(long = "a157")]
    pub a223: bool,
    #[arg(long = "a216")]
    pub a224: bool,
    #[arg(long = "a025")]
    pub a225: bool,
    #[arg(long = "a084")]
    pub a226: bool,
    #[arg(long = "a143")]
    pub a227: bool,
    #[arg(long = "a202")]
    pub a228: bool,
    #[arg(long = "a011")]
    pub a229: bool,
    #[arg(long = "a070")]
    pub a230: bool,
    #[arg(long = "a129")]
    pub a231: bool,
    #[arg(long = "a188")]
    pub a232: bool,
    #[arg(long = "a247")]
    pub a233: bool,
    #[arg(long = "a056")]
    pub a234: bool,
    #[arg(long = "a115")]
    pub a235: bool,
    #[arg(long = "a174")]
    pub a236: bool,
    #[arg(long = "a233")]
    pub a237: bool,
    #[arg(long = "a042")]
    pub a238: bool,
    #[arg(long = "a101")]
    pub a239: bool,
    #[arg(long = "a160")]
    pub a240: bool,
    #[arg(long = "a219")]
    pub a241: bool,
    #[arg(long = "a028")]
    pub a242: bool,
    #[arg(long = "a087")]
    pub a243: bool,
    #[arg(long = "a146")]
    pub a244: bool,
    #[arg(long = "a205")]
    pub a245: bool,
    #[arg(long = "a014")]
    pub a246: bool,
    #[arg(long = "a073")]
    pub a247: bool,
    #[arg(long = "a132", exclusive = true)]
    pub a248: bool,
    #[arg(long = "a191", exclusive = true)]
    pub a249: bool,
    #[command(subcommand)]
    pub sub: Option<AloneSub>,
}
#[derive(Subcommand, PartialEq)]
pub enum AloneSub {
    Sub,
}
const ALONE: [usize; 12] = [0, 7, 8, 63, 64, 127, 128, 129, 191, 192, 248, 249];
const M: usize = 250;

/// A line with an argument and its partner or without, the required one there or not: what it violates, and the arguments told for it.
pub fn tied() -> (Vec<OsString>, Vec<(Class, String)>) {
    let i = choice(TIED.len());
    let (w, kind, k, desc) = TIED[i];
    let (own, partner, must) = (kind != 4 && flip(), flip(), flip());
    let mut l = vec![];
    let mut bad = vec![];
    let v = bytes(1);
    let mut tail = vec![];
    if partner {
        match k {
            _ if k < TIED.len() => l.push(s(TIED[k].0)),
            180 => l.push(s("w")),
            181 => l.extend([s("w"), s("w")]),
            _ => tail.extend([s("--"), os(v.clone())]),
        }
    }
    if own {
        let at = if flip() { 0 } else { l.len() };
        l.insert(at, s(w));
    }
    if must {
        l.push(cat(&[TIED[150].0[..7].as_bytes(), &v]));
    } else {
        bad.push((Class::Required, format!("the argument '{}' is required but not provided", TIED[150].3)));
    }
    l.extend(tail);
    let told = |k: usize| if k < TIED.len() { TIED[k].3 } else { ["[Q0]", "[Q1]", "[Q2]..."][k - 180] };
    if own && kind == 1 && !partner {
        bad.push((Class::Requires, format!("the argument '{}' is required because some dependency arguments are provided", told(k))));
    }
    if own && kind == 2 && partner {
        bad.push((Class::Conflict, format!("the argument '{desc}' cannot be used with some other arguments")));
    }
    (l, bad)
}
/// Given exclusive arguments and others, how many, and the arguments that may be told.
pub fn alone() -> (Vec<OsString>, bool) {
    let e = pick(&ALONE);
    let word = |i: usize| s(&format!("--a{:03}", i * 59 % M));
    let own = flip();
    let others: Vec<usize> = match choice(6) {
        0 => vec![],
        1 => vec![choice(M)],
        2 => (0..M).collect(),
        3 => (0..8).map(|i| i * 31 + 2).collect(),
        4 => (0..128).collect(),
        _ => vec![pick(&ALONE), 3],
    };
    let sub = flip();
    let mut l: Vec<OsString> = others.iter().filter(|i| **i != e).map(|i| word(*i)).collect();
    if own {
        let at = if flip() { 0 } else { l.len() };
        l.insert(at, word(e));
    }
    let n = l.len() + usize::from(sub);
    let bad = n > 1 && (own || others.iter().any(|i| *i != e && ALONE.contains(i)));
    if sub {
        l.push(s("sub"));
    }
    (l, bad)
}
/// Whether every argument that is given, and no other, is set.
pub fn held(a: &Alone, l: &[OsString]) -> bool {
    a.set().iter().enumerate().all(|(i, b)| *b == l.iter().any(|w| raw(w) == format!("--a{:03}", i * 59 % M).as_bytes()))
}
impl Alone {
    fn set(&self) -> [bool; M] {
        [self.a0, self.a1, self.a2, self.a3, self.a4, self.a5, self.a6, self.a7, self.a8, self.a9, self.a10, self.a11, self.a12, self.a13, self.a14, self.a15, self.a16, self.a17, self.a18, self.a19, self.a20, self.a21, self.a22, self.a23, self.a24, self.a25, self.a26, self.a27, self.a28, self.a29, self.a30, self.a31, self.a32, self.a33, self.a34, self.a35, self.a36, self.a37, self.a38, self.a39, self.a40, self.a41, self.a42, self.a43, self.a44, self.a45, self.a46, self.a47, self.a48, self.a49, self.a50, self.a51, self.a52, self.a53, self.a54, self.a55, self.a56, self.a57, self.a58, self.a59, self.a60, self.a61, self.a62, self.a63, self.a64, self.a65, self.a66, self.a67, self.a68, self.a69, self.a70, self.a71, self.a72, self.a73, self.a74, self.a75, self.a76, self.a77, self.a78, self.a79, self.a80, self.a81, self.a82, self.a83, self.a84, self.a85, self.a86, self.a87, self.a88, self.a89, self.a90, self.a91, self.a92, self.a93, self.a94, self.a95, self.a96, self.a97, self.a98, self.a99, self.a100, self.a101, self.a102, self.a103, self.a104, self.a105, self.a106, self.a107, self.a108, self.a109, self.a110, self.a111, self.a112, self.a113, self.a114, self.a115, self.a116, self.a117, self.a118, self.a119, self.a120, self.a121, self.a122, self.a123, self.a124, self.a125, self.a126, self.a127, self.a128, self.a129, self.a130, self.a131, self.a132, self.a133, self.a134, self.a135, self.a136, self.a137, self.a138, self.a139, self.a140, self.a141, self.a142, self.a143, self.a144, self.a145, self.a146, self.a147, self.a148, self.a149, self.a150, self.a151, self.a152, self.a153, self.a154, self.a155, self.a156, self.a157, self.a158, self.a159, self.a160, self.a161, self.a162, self.a163, self.a164, self.a165, self.a166, self.a167, self.a168, self.a169, self.a170, self.a171, self.a172, self.a173, self.a174, self.a175, self.a176, self.a177, self.a178, self.a179, self.a180, self.a181, self.a182, self.a183, self.a184, self.a185, self.a186, self.a187, self.a188, self.a189, self.a190, self.a191, self.a192, self.a193, self.a194, self.a195, self.a196, self.a197, self.a198, self.a199, self.a200, self.a201, self.a202, self.a203, self.a204, self.a205, self.a206, self.a207, self.a208, self.a209, self.a210, self.a211, self.a212, self.a213, self.a214, self.a215, self.a216, self.a217, self.a218, self.a219, self.a220, self.a221, self.a222, self.a223, self.a224, self.a225, self.a226, self.a227, self.a228, self.a229, self.a230, self.a231, self.a232, self.a233, self.a234, self.a235, self.a236, self.a237, self.a238, self.a239, self.a240, self.a241, self.a242, self.a243, self.a244, self.a245, self.a246, self.a247, self.a248, self.a249]
    }
}
