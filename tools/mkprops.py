import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe or ["Parser::try_parse_from"],hook_needed=None)))
RT="src/runtime.rs"
p("C01","Every word is classified by its shape and handled exactly once, in order",
"Words after the program name are read left to right, and each word that is not taken as the value of an earlier option is interpreted exactly once by its shape: the first `--` ends option processing (it is not data itself), any other word starting with `--` is a long option, a word starting with `-` followed by something is a bundle of short options, and every other word, including a lone `-` and the empty word, is a subcommand name or a positional argument. After `--` every later word is positional data, whatever it looks like. No word is skipped, reordered or interpreted twice, and a successful parse has used all of them.",
["inputs","programs"],"every command definition and every finite sequence of words (arbitrary OS strings, UTF-8 or not)",
"The tests sample a few dozen argv vectors on a handful of commands; the classification must hold for every byte string in every position of every argv.",
[RT,"src/lib.rs"],[("run_parser main loop and its --, --x, -x, word branches",RT),("try_parse_from takes off argv[0]","src/lib.rs")])
p("C02","Options get exactly the value the syntax gives them",
"An option that requires a value takes the text after the first `=` if there is one (it may be empty or contain more `=`), otherwise the rest of the word for a short option, otherwise the whole next word; the next word is refused when it starts with `-` and is not just `-`, unless the option allows hyphen values, or allows negative numbers and the word is `-` followed only by ASCII digits. An option declared to require equals never accepts a glued or detached value. A flag takes no value and refuses one given with `=`; an optional-value option takes a value only through `=` and is otherwise present without a value.",
["inputs","programs"],"every option kind and attribute combination, every value text, every following word",
"The tests cover a few combinations of option kind, attribute and spelling with benign values; the rule ranges over all combinations, all values (empty, containing `=`, starting with `-`, not UTF-8) and all following words.",
[RT,"src/shared.rs"],[("visit_named value selection and hyphen filter",RT),("ArgAttrs bits REQUIRE_VALUE, REQUIRE_EQ, ACCEPT_HYPHEN_*","src/shared.rs"),("attribute bits set by the derive","derive/src/derive_args.rs")])
p("C03","A bundle of short options means the same as the options given one by one",
"`-abc` is interpreted character by character (Unicode characters, not bytes): leading options that take no value are handled as if written separately, and the first option that takes a value ends the bundle and takes the rest, minus one leading `=`, as its value. An `=value` following an option inside a bundle belongs to that option and is never read as further options. Every character is accounted for: an unknown character or bytes that are not UTF-8 in option position are an error naming the offending part, never ignored.",
["inputs","programs"],"every bundle word over every set of short options, including multi-byte characters and non-UTF-8 tails",
"Tests exercise a few two- or three-letter ASCII bundles; bundles are arbitrary byte strings mixed with any assignment of option kinds to characters.",
[RT],[("short bundle loop over utf8_chunks / char_indices",RT),("RawInlineValue Ambiguous/Eq handling in visit_named",RT)])
p("C04","Positional arguments are filled in declaration order without loss",
"Positional words are assigned to the declared positional fields in declaration order: each single-valued one takes exactly one word, a variable-length one takes all the remaining positional words in order, and a word with no field left to take it is an error. A trailing-variable-argument field takes, from its first word on, every remaining word verbatim, even option-looking words and `--`. A field declared `last` receives exactly the words after `--` and never a word before it.",
["inputs","programs"],"every declaration of positional fields (single, optional, variable, trailing, last), every sequence of words",
"Tests use short positional lists; order, count and interleaving with options, `--` and subcommands are unbounded.",
[RT,"src/refl.rs"],[("visit_positional, next_positional",RT),("positional_attrs order","src/refl.rs"),("direct_fields ordering","derive/src/derive_args.rs")])
p("C05","Option names resolve exactly, to the right field, in the right scope",
"An option word selects a field only if it spells one of that field's declared names exactly (long name, short character, aliases; byte for byte, case-sensitive, no abbreviations), and every declared name of every field of the command and its flattened groups is recognised, however many there are. Inside a subcommand the innermost command is searched first and then each enclosing command from the inside out, where only options declared global are visible. Any other name is an unknown-argument error (or a help request) and changes nothing.",
["inputs","programs"],"every option table (any number of names, any characters), nesting depth, flatten structure and every option word",
"Lookup correctness depends on the sortedness and completeness of tables of arbitrary size and on frame chains of arbitrary depth; tests use small tables and depth two.",
["src/refl.rs",RT,"derive/src/derive_args.rs"],[("RawArgsInfo::get_named binary search","src/refl.rs"),("Frame::search_named chain (ArgsFrame, CommandFrame, root)",RT),("named_map sorting and names","derive/src/derive_args.rs")])
p("C06","The first matching plain word enters exactly the named subcommand",
"Where a command has subcommands, the first plain word (before `--`) that equals a subcommand's name byte for byte enters exactly that subcommand, in preference to being a positional argument, and all following words are then interpreted in the subcommand; any other plain word is a positional argument, or an unrecognized-subcommand error when no positional field can take it. The resulting value is the variant of that name with exactly the arguments parsed there. A required subcommand that is not given is an error, an optional one is `None`.",
["inputs","programs"],"every set of subcommand names and nesting, every argv",
"Dispatch must be right for every name table and for every word (prefixes, near-misses, non-UTF-8), at every depth; tests try a few words.",
["src/refl.rs",RT,"derive/src/derive_subcommand.rs"],[("RawSubcommandInfo::search","src/refl.rs"),("subcommand branch of run_parser",RT),("generated Subcommand::__parse match","derive/src/derive_subcommand.rs")])
p("C07","Single-valued arguments occur at most once; multi-valued ones keep every value",
"Giving a flag or single-valued option a second time is a duplicate-argument error, whichever of its names is used and however it was given, and never overwrites the first value. A multi-valued argument collects every given value in command-line order across all its occurrences, and with a delimiter each given value is split at every occurrence of the delimiter into pieces kept in order (empty pieces included). An argument not given is observably not set (false, `None` or an empty list).",
["inputs","histories"],"every sequence of occurrences of every argument",
"Tests repeat an option twice at most; the rule is over histories of occurrences of arbitrary length with arbitrary values.",
[RT],[("FlagPlace/SetValuePlace/SetOptionalValuePlace/VecPlace/VecDelimitedPlace::parse_from",RT),("generated extractors","derive/src/derive_args.rs")])
p("C08","Declared constraints are enforced exactly",
"A parse that is otherwise well-formed succeeds only if every required argument and required subcommand was given, no exclusive argument was given together with any other argument or subcommand of its command, every argument that a given argument requires was given too, and no given argument appears together with one it conflicts with. Conversely no constraint error is ever reported when none of these is violated. Only values actually given on the command line count for these checks, whichever order they are given in.",
["inputs","programs"],"every combination of given / not-given arguments and every set of declared constraints",
"2^n presence combinations for each constraint graph; tests try a few.",
["derive/src/derive_args.rs",RT],[("ValidateFinish code generation","derive/src/derive_args.rs"),("error_exclusive/dependency/conflict/missing_*",RT)])
p("C09","Defaults fill exactly the arguments that were not given",
"An argument with a default that is not given takes exactly its default (a textual default is parsed like a value given by the user), and one that is given keeps exactly the given values. A default never counts as the argument being given: it does not trigger or satisfy requires, conflicts or exclusive constraints and never causes a duplicate error.",
["inputs","programs"],"every definition with defaults and every subset of arguments given",
"Interaction of defaults with occurrence counting and constraints must hold for all subsets of given arguments.",
[RT,"derive/src/derive_args.rs"],[("Parsable::set_default / set_default_parse",RT),("on-not-set part of ValidateFinish","derive/src/derive_args.rs")])
p("C10","Values reach the fields unaltered or are rejected",
"The field's value is the conversion of exactly the text supplied: types built from OS strings (`OsString`, `PathBuf`) receive the bytes unchanged even when not UTF-8, types parsed from strings get exactly that string, and text that is not UTF-8 or does not convert is an invalid-value error and never a wrong, truncated or lossily converted value. An enum value accepts exactly its declared names, each mapping to its own variant, and rejects all else; only with ignore-case is ASCII case disregarded. The name shown for a variant parses back to that variant.",
["inputs","programs"],"every value text (any OS string) and every value type",
"The value space is all byte strings; tests try a handful, one of them not UTF-8.",
["src/values.rs",RT,"derive/src/derive_value_enum.rs"],[("FromStrParser/TryFromOsStrParser/ValueEnumParser::parse","src/values.rs"),("MAKE_LOWERCASE in visit_named",RT),("generated parse_value/display_value","derive/src/derive_value_enum.rs")])
p("C11","Errors blame the right argument and show the right input",
"Every error about a particular argument names that argument's own description, wherever it is declared (this command, a flattened group, an enclosing command) and whether it is named or positional. Errors about a word or value show exactly that word or value, with a `-` prefix for a short option (an ignore-case value may be shown in lower case). The kind of the reported problem is the actual one for the first offending word, or, when all words are fine, for a violated constraint.",
["inputs","programs"],"every failing argv on every definition",
"Attribution goes through index arithmetic into description tables of arbitrary size and frame chains; tests check a few messages.",
["src/error.rs","src/refl.rs",RT],[("RawArgsInfo::get_description","src/refl.rs"),("ErrorKind::with_input/with_arg_idx, Error::with_arg_desc, Display","src/error.rs"),("visit_named / visit_positional error paths",RT)])
p("C12","Parsing any input terminates with a result, without panicking",
"For every valid command definition and every finite argv, including an empty one and words that are empty, huge or not UTF-8, parsing returns either a value or an error: it never panics, aborts, overflows or loops, and reads the argument iterator only forward. The result is a function of the definition and the words alone (the program name matters only for help text).",
["inputs","programs"],"every finite sequence of OS strings, every valid definition",
"Absence of panics (indexing, unwrap, integer overflow, unreachable) and of non-termination is a statement about all inputs; a panic inside these functions aborts the process.",
[RT,"src/refl.rs","src/util.rs","src/lib.rs"],[("index and slice operations, unwraps in run_parser/visit_*/search_named",RT),("next_positional u8 arithmetic",RT),("get_description index loop","src/refl.rs")])
p("C13","A help request yields help for the current command, and nothing else does",
"With help enabled, an `-h` or `--help` in option position that no visible argument declares ends parsing with a help outcome for the innermost command entered so far, taking precedence over anything later on the line and over unmet constraints; an error is convertible to help text exactly in that case. Its text contains the usage line with the full path of command names entered and is the same whatever other arguments were given before. If the application declares the name itself, that declaration wins; with help disabled the names are ordinary unknown arguments.",
["inputs","programs","configurations"],"every argv containing a help request at any position and nesting depth, with the help feature on and off",
"Tests ask for help at a few positions; the guarantee is over all prefixes, bundles, nesting depths and both feature configurations.",
[RT,"src/error.rs","src/help.rs"],[("help branch of visit_named",RT),("Error::maybe_render_help / try_into_help","src/error.rs"),("render_help_into, collect_command_prefix","src/help.rs")])
p("C14","The order of different options does not matter",
"For any command line that parses successfully, exchanging two adjacent complete occurrences of options that select different arguments (each option together with the value it takes) gives a command line that parses successfully to the same value. The same holds for exchanging an option occurrence with an adjacent positional word, other than one taken by a trailing-variable-argument field, as long as both stay before any `--`.",
["inputs","programs","histories"],"all successful argvs, all adjacent pairs of complete occurrences at one command level",
"A relational property over all pairs of argvs; no unit test compares permutations.",
[RT],[("per-field independence of places, frame search and next_positional",RT)])
p("C15","Ambiguous or unsupported definitions are rejected at compile time",
"A definition in which two arguments of one struct, two subcommands or two enum values have the same name, that has more than one subcommand field or variable-length positional, refers to an unknown field in a constraint, flattens positionals or a subcommand, or uses an unsupported attribute combination, does not compile.",
["programs"],"every definition accepted by the derive macros",
"Definitions are programs; UI tests sample a few dozen of them.",
["derive/src/derive_args.rs","derive/src/derive_subcommand.rs","derive/src/derive_value_enum.rs","derive/src/common.rs"],[("emit_error! checks in expand_args_parse / expand_for_enum","derive/src/derive_args.rs")],observe=["rustc diagnostics"])
p("C16","Help text lists exactly the visible interface",
"The help text of a command shows, in declaration order, an entry for each non-hidden argument of the command and of its flattened groups with its names, value placeholder, documentation and default, an entry for every subcommand, and in the usage line every required or variable argument; hidden arguments do not appear. Nothing but these, the about text and the after-help text is shown.",
["programs"],"every command definition",
"Snapshot tests cover a few definitions.",
["src/help.rs","derive/src/derive_args.rs","src/refl.rs"],[("render_help_into","src/help.rs"),("HelpDisplay / FormatArgsBuilder code generation","derive/src/derive_args.rs"),("subcommands_with_help, split_terminator","src/refl.rs")],observe=["Parser::render_long_help"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
