#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the texts is here)."""
import json, os
R = "src/runtime.rs"; D = "derive/src/derive_args.rs"; VAL = "src/values.rs"; ER = "src/error.rs"; RE = "src/refl.rs"
SU = "derive/src/derive_subcommand.rs"; EN = "derive/src/derive_value_enum.rs"; HE = "src/help.rs"; LI = "src/lib.rs"; CO = "derive/src/common.rs"
P = []
def p(i, title, st, q, why, files, mech, over=("inputs",), observe=("Parser::try_parse_from",)):
    assert len(title) <= 80, title
    P.append({"id": i, "title": title, "statement": st,
      "quantifier": {"over": list(over), "text": q}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})

p("P01", "Any command line gives a value or an error, never a crash",
  "For every sequence of arbitrary byte strings, parsing ends with either a parsed value or an error. It never panics, aborts, hangs or touches memory it should not. The error it returns can always be displayed without failing.",
  "all argument vectors of arbitrary bytes, for definitions combining every kind of argument",
  "Tests feed a few dozen well-formed UTF-8 lines; the slicing at character and '=' boundaries, the unwraps and the 'cannot happen' branches are reachable only with unusual bytes.",
  [R, RE, VAL, ER], [("token classification and slicing", R+" run_parser"), ("unwrap after validation", D+" ArgsParse::to_tokens")])
p("P02", "Argument values are delivered byte for byte",
  "The value the user attaches to an option or gives as a positional reaches the corresponding field unchanged, byte for byte, whatever it contains: empty, further '=' or '-' signs, spaces, newlines, non-UTF-8 bytes, any length. No other field changes.",
  "all values in all spellings for OsString, PathBuf and String fields, in the top level, flattened groups and subcommands",
  "Tests use a handful of short ASCII values and one lone 0xFF byte; a value cut at a second '=' or at an invalid byte is invisible to them.",
  [R, VAL], [("inline value split", R+" run_parser"), ("value lookup", R+" visit_named"), ("TryFromOsStrParser", VAL)])
p("P03", "All spellings and aliases of an option mean the same",
  "'--long=v', '--long v', '-s=v', '-sv', '-s v' and the same with any alias give the same outcome for every value each spelling can carry. This holds whatever stands before or after them on the line.",
  "all values, pairs of spellings and aliases, and neighbouring words",
  "Tests check single examples of each spelling; equality of two whole parses for every value is not sampled.",
  [R, D], [("names table", RE+" RawArgsInfo::get_named"), ("RawInlineValue", R+" visit_named"), ("alias handling", D+" expand_args_parse")])
p("P04", "Bundled short options mean the same as separate ones",
  "A word '-abc' of several short options has the same outcome as '-a -b -c', with the first option that takes a value swallowing the remainder of the word (after an optional '='). Multi-byte option letters, non-UTF-8 remainders and unknown letters are covered as well.",
  "all bundles of declared letters followed by an arbitrary remainder",
  "Three bundles are tested; letter boundaries, '=' inside a bundle and bad bytes after good letters depend on the exact bytes.",
  [R], [("bundle loop", R+" run_parser"), ("ControlFlow of visit_named", R)])
p("P05", "Options may stand anywhere among positional arguments",
  "Moving options (with their values) to other places before, between or after the positional arguments changes nothing in the outcome, as long as the order of the positionals and of the occurrences of each option is kept and no '--', greedy argument or subcommand is crossed.",
  "all interleavings of up to four options and three positionals, arbitrary values",
  "Tests try two orders of one definition; state kept across words (next positional, pending value) is exercised only by the other orders.",
  [R], [("next_positional", R+" visit_positional"), ("ArgsFrame", R)], over=("inputs", "histories"))
p("P06", "After '--' every word is a positional, verbatim",
  "Once a bare '--' has been read as a word of its own, all later words are positional values taken verbatim, even if they look like options, subcommands, help or another '--'. The '--' itself is not delivered.",
  "all words following '--', all definitions with positionals, subcommands and options",
  "Tests follow '--' by two or three chosen words.",
  [R], [("separator branch", R+" run_parser")])
p("P07", "Positionals fill their fields in order, none lost or invented",
  "Positional words go one by one to the positional fields in declaration order, a list field taking all the rest. Words beyond the last field are rejected, and no word is dropped, duplicated or reordered.",
  "all sequences of positional words, with options in between",
  "Tests use at most three fixed words.",
  [R, D], [("visit_positional", R), ("field order", D+" expand_args_parse")], over=("inputs", "histories"))
p("P08", "Single options may occur once; lists collect every occurrence in order",
  "A second occurrence of a flag or single-valued option is rejected, in whatever spelling, alias and place and with whatever value. An option of list type collects the values of all its occurrences in command-line order, and an optional list is absent exactly when the option never occurs.",
  "all combinations of spellings, values and words between the occurrences",
  "Tests repeat one spelling or two; occurrences via aliases, from a subcommand or with an empty or invalid value are not tried.",
  [R, D], [("places", R+" FlagPlace, SetValuePlace, SetOptionalValuePlace, VecPlace")], over=("inputs", "histories"))
p("P09", "Only declared option names are accepted, and each sets its own field",
  "A word starting with '-' is accepted as an option only if its name is exactly a declared name or alias (same case, no prefix, no extra characters), and it then acts on that option's field only. Any other name is rejected as unexpected.",
  "all option names of arbitrary bytes, for definitions with many similar names",
  "Tests try about five unknown names; that a table lookup rejects everything else, and finds every entry, is a statement over all strings.",
  [RE, R, D], [("binary search", RE+" get_named"), ("sorted table", D+" RawArgsInfo")])
p("P10", "A word that looks like an option is not taken as a value unless allowed",
  "An option given without inline value takes the next word as its value if and only if that word does not start with '-' or is '-', or the option allows hyphen values, or it allows negative numbers and the word is '-' followed by ASCII digits only. Otherwise, as at the end of the line, it fails for want of a value; a word taken as value has no other effect.",
  "all following words, for every policy and spelling",
  "Tests try '-1' and '-f' only; '--', '-1x', '-', '' and non-ASCII digits decide the policy.",
  [R], [("value filter", R+" visit_named")])
p("P11", "require_equals options take values only after '='",
  "An option requiring '=' accepts a value in '--name=v' and '-n=v' only, including an empty one. '--name v', '-n v', '-nv' and a missing value are rejected, and the following word is never consumed.",
  "all values and spellings, single, list and required options",
  "Tests use two literals; remainder handling and lookahead depend on the value.",
  [R], [("REQUIRE_EQ", R+" visit_named")])
p("P12", "Options with an optional value tell absent, bare and valued apart",
  "For an option with an optional value: not given is absent, '--name' or '-n' is present without value, '--name=v' or '-n=v' is present with exactly v (also when v is empty). It never consumes the next word, and works the same in a bundle, under an alias, in a flattened group and as a global option.",
  "all values, long and short spellings, positions",
  "Tests cover the long spelling with two values and no short spelling at all.",
  [R, D], [("SetOptionalValuePlace", R), ("bundle loop", R+" run_parser")])
p("P13", "Parsing succeeds only if everything required was given",
  "A well-formed line is accepted if and only if every required option, positional, list and subcommand was explicitly given, at every level entered; otherwise an error says that something required is missing. Being empty or equal to a default does not make a given value count as missing.",
  "all subsets of given arguments and all their values, over nesting and flattening",
  "Tests leave out one argument at a time in one definition; the subsets and the interaction with values are not enumerated.",
  [D, R], [("ValidateFinish", D), ("error_missing_arg / error_missing_subcmd", R)], over=("inputs", "configurations"))
p("P14", "Conflicting arguments are never accepted together",
  "If an argument declares a conflict with others, a line giving it together with any of them is rejected, and a line giving it with none of them is not rejected on that account. Only explicitly given arguments count, regardless of order, spelling and value.",
  "all subsets and orders of the arguments of definitions with one-way, mutual and multiple conflicts",
  "Tests try a few pairs of one definition.",
  [D], [("'__conflict", D+" ValidateFinish")], over=("inputs", "configurations"))
p("P15", "An argument is accepted only with everything it requires",
  "If an argument declares that it requires others, a line giving it is rejected unless all of them are explicitly given, and the requirement has no effect when it is not given. Default values do not satisfy it.",
  "all subsets and orders of the arguments of definitions with chained and multiple requirements",
  "Tests try a few subsets of one definition.",
  [D], [("'__dependency", D+" ValidateFinish")], over=("inputs", "configurations"))
p("P16", "An exclusive argument is accepted only alone",
  "An exclusive argument is rejected if any other argument, positional or subcommand of the same command is explicitly given, and accepted when it is alone even if others have defaults. Without it nothing is rejected on that account.",
  "all subsets of the arguments, with lists, defaults, positionals and subcommands",
  "Tests try six lines; the count over every kind of field is not enumerated.",
  [D], [("__total_args", D+" ValidateFinish")], over=("inputs", "configurations"))
p("P17", "Defaults apply exactly to what was not given",
  "A field with a default holds the default if and only if its argument was not given; a given value always wins, also when it is empty or the same as the default. Defaults never trigger or satisfy conflicts, requirements or exclusivity.",
  "all subsets of given arguments and all their values; string, expression and type defaults; named, positional, list; subcommands and flattened groups",
  "Tests look at two options.",
  [D, R], [("set_default / set_default_parse", R), ("ValidateFinish order", D)], over=("inputs", "configurations"))
p("P18", "Subcommands are chosen by exact name and own the rest of the line",
  "A word in positional place selects a subcommand if and only if it equals one of the subcommand names, with priority over positionals; all later words are parsed by that subcommand's definition alone, apart from global options. A word that is an option's value, or stands after '--', never selects one.",
  "all words in positional place, several nesting levels",
  "Tests name existing subcommands and one unknown word.",
  [R, RE, SU], [("subcommand search", RE+" RawSubcommandInfo::search"), ("CommandFrame", R)])
p("P19", "Global options work after subcommands, other outer options do not",
  "After entering a subcommand, an option that the subcommand does not define itself is accepted if and only if an enclosing command declares it global, and it then sets the enclosing command's field as if given before the subcommand name; the innermost definition wins. Non-global outer options are rejected there.",
  "all placements of options over up to three command levels, arbitrary values",
  "Tests use one level and four placements.",
  [R], [("Frame::search_named chain", R), ("GLOBAL", "src/shared.rs")])
p("P20", "Flattened groups behave as if written inline",
  "A definition with flattened argument groups accepts the same lines with the same values, constraints and errors as the definition with their arguments written inline. Where a name collides, the argument outside the group gets the option, and only this one.",
  "all lines over definitions with one, two and nested groups, also inside subcommands",
  "Tests parse four lines of one definition.",
  [R, D], [("frame chain of flattened parsers", D+" ArgsParse::to_tokens"), ("ArgsFrame::search_named", R)])
p("P21", "Value enums accept exactly their declared names",
  "A field of a value-enum type accepts a value if and only if it equals the declared or case-converted name of a variant, and yields that variant; everything else, including other casings, prefixes and non-UTF-8 bytes, is rejected. The name shown for a default parses back to the same variant.",
  "all values, for every supported case conversion and explicit names",
  "Tests parse a list of literals per conversion; rejection of everything else is a statement over all strings.",
  [EN, VAL, CO], [("parse_value / display_value", EN), ("ValueEnumParser", VAL), ("Rename", CO)])
p("P22", "ignore_case accepts every ASCII casing of the names and nothing else",
  "With ignore_case a value is accepted if and only if its ASCII-lowercased form is one of the enum's names, in every spelling of the option, in lists and with a delimiter. Other options of the same command keep their case.",
  "all values and spellings",
  "Tests try three casings.",
  [R, EN], [("MAKE_LOWERCASE", R+" visit_named"), ("NO_UPPER_CASE", EN)])
p("P23", "A value delimiter splits every occurrence into all its parts",
  "A list option or positional with a delimiter delivers for every occurrence exactly the parts between delimiters in order, empty parts included, and nothing is split elsewhere. Joining the parts with the delimiter gives the original value back.",
  "all values of arbitrary bytes, ASCII and multi-byte delimiters, several occurrences and spellings",
  "One list of literals is tested.",
  [R], [("VecDelimitedPlace", R)])
p("P24", "A trailing variable argument takes the rest of the line verbatim",
  "From the first word that goes to a trailing_var_arg list, all remaining words are collected verbatim and in order, even if they are options, '--', subcommand names or help requests. Before that word options are parsed normally.",
  "all words after the first trailing one",
  "Two literal lines are tested.",
  [R], [("GREEDY", R+" visit_positional")])
p("P25", "Last arguments are reachable only after '--'",
  "Words before '--' never go to a last=true list, and all words after '--' go to it in order and verbatim, whichever other positionals are still unfilled. Without '--' the list stays empty or absent.",
  "all words before and after '--'",
  "A few literal lines are tested.",
  [R], [("LAST", R+" run_parser, visit_positional")])
p("P26", "Typed values are exactly what the type's own conversion says",
  "A value is accepted for a typed field if and only if it is valid UTF-8 (for text-based types) and the type's own string conversion accepts it, and the field then holds exactly the converted value. Non-UTF-8 input is rejected for text types and preserved for OS-string types, never replaced or cut.",
  "all byte strings up to the bound, for integers, chars, bools, strings, paths and user types of each conversion trait",
  "Tests parse a few numbers and one invalid byte.",
  [VAL], [("FromStrParser, TryFromOsStrParser", VAL), ("InferValueParser", VAL)])
p("P27", "Errors name the argument concerned and quote the offending input",
  "The error for an unknown option, excess positional, bad, missing or surplus value, duplicate or violated constraint is of the matching kind, names the declared argument it is about (if there is one) and quotes exactly the offending input, escaped. The cause of a failed conversion is kept as the error's source and shown.",
  "all offending inputs, at top level, in flattened groups and in subcommands",
  "Tests compare literal messages of about thirty lines; that the right descriptor is picked for every field and level is not covered.",
  [ER, RE, R], [("get_description", RE), ("with_arg_desc", R+" visit_named, visit_positional"), ("Display for Error", ER)])
p("P28", "A help request yields the help of the command in force, nothing else does",
  "'--help' or '-h' read as an option (also inside a bundle, and after any accepted words) ends parsing with the help of the command whose arguments are being read, whatever follows and whatever is still missing. A help word taken as a value or after '--' does not, a user-defined option of that name wins, and no other line ever yields help.",
  "all lines with a help word at any place, and all without",
  "Tests render help of a few fixed lines.",
  [R, HE, ER], [("help branch", R+" visit_named"), ("try_into_help", ER)])
p("P29", "The program name is never parsed",
  "The first item of the argument vector has no influence on the parsed value or on which error is returned, whatever it contains. An empty vector is reported as a missing program name.",
  "all program names of arbitrary bytes",
  "Tests always pass \"\" or a plain name.",
  [LI, R], [("arg0", LI+" try_parse_from"), ("StructParserFlavor", R)])
p("P30", "Whole command lines mean what the documented grammar says",
  "For every line, the parsed value or kind of error is the one given by the documented grammar: a left-to-right reading with options, inline and following values, bundles, '--', positionals, subcommands and globals, followed by the constraint checks. No combination of features changes the meaning of another.",
  "all lines of up to four words over definitions mixing all features",
  "Feature interactions grow with the square of the features; the tests mostly look at one feature at a time.",
  [R, D, RE], [("run_parser", R), ("ArgsParse", D)], over=("inputs", "histories"))
p("P31", "Every argument reaches its own field however many there are",
  "In definitions with up to the maximum number of fields, each option, alias and positional is found by its name or place and sets exactly its own field, and errors about it name it. This does not depend on its index, name order or neighbours.",
  "all arguments of definitions with up to 254 fields, symbolic choice of the argument",
  "Tests have at most ten fields; packing indexes into attribute bits and searching large tables is not exercised.",
  [D, RE, "src/shared.rs"], [("ArgAttrs::index", "src/shared.rs"), ("get_named", RE), ("get_description", RE)], over=("inputs", "configurations"))
p("P32", "Disabling the help feature changes nothing but help",
  "Without the 'help' feature every line is parsed to the same value or kind of error as with it, except that '--help' and '-h' are unknown options. The grammar of the other properties holds unchanged.",
  "all lines of up to three words over mixed definitions, feature off",
  "The tests run with default features only.",
  [R, RE, ER, "src/util.rs"], [("cfg(feature = \"help\")", R), ("__gate_help", "src/util.rs")], over=("inputs", "configurations"))
p("P33", "Help shows every visible argument, subcommand and default",
  "The help of a command lists its usage, each subcommand, and each of its own and flattened options and positionals with its documentation and default, and none that is hidden. It depends on the command only, not on the words before the request, and shows the path of subcommands entered.",
  "all commands of a tree and all words before the request",
  "Expect tests render fixed definitions on empty lines.",
  [HE, D, RE], [("render_help_into", HE), ("HelpDisplay", D)])
p("P34", "The first bad word decides the error",
  "If a line fails because of one of its words, then every longer line starting with it fails with the same error: later words neither repair nor mask it. Only what is missing at the end of the line can be repaired by more words.",
  "all lines and all continuations",
  "Tests contain one bad word each, at the end.",
  [R], [("early return", R+" run_parser")], over=("inputs", "histories"))
p("P35", "Invalid definitions are rejected at compile time",
  "Definitions with duplicate names, unknown or contradictory attributes, bad names, unsupported flattening or unresolvable references fail to compile with an error, and are never accepted with another meaning; definitions that keep to the documented rules are accepted. In no case does a derive macro panic.",
  "all definitions", "The ui tests contain a fixed list of definitions.",
  [D, CO, SU, EN], [("emit_error!", "derive/src/error.rs")], over=("programs",), observe=("rustc",))
p("P36", "parse() prints the error and exits with status 1",
  "Run as a program, a failing parse prints its error (or the help) to standard error and exits with status 1, a successful one returns the value without output.",
  "all process argument vectors", "No test runs a process.",
  [LI], [("Parser::parse", LI)], observe=("process exit status and stderr",))
p("P37", "Names come from the identifiers by the documented rules",
  "What a definition does not name is named by its identifier: the long option, subcommands and enum values in kebab-case or as rename_all says, the short option by its first character, the name of a value in SCREAMING_SNAKE_CASE, without the 'r#' of a raw identifier; explicit names are taken as they are. Each item is reached by exactly this name.",
  "all identifiers and all casings", "Tests contain a handful of identifiers.",
  [D, CO, SU, EN], [("Rename, ident_to_*", "derive/src/common.rs")], over=("programs",), observe=("rustc",))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False)+"\n" for x in P))
