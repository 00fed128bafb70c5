#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
INC = "include/boost/program_options/"

prop("C01", "Long-option tokens split at the first '='",
 "With long options enabled, a command-line token '--NAME=VALUE' with non-empty NAME and VALUE is parsed as option NAME with VALUE (everything after the first '=') as its own value, '--NAME' as option NAME with no own value, and '--NAME=' is rejected with an empty-adjacent-parameter syntax error; a token shorter than three characters or not starting with '--' is not a long option. "
 "With disguised long options enabled, '-NAME' or '-NAME=VALUE' (also '/NAME...' when slash options are enabled) is parsed exactly like the corresponding '--' token if NAME resolves to a declared option, and is left to the other syntaxes if it does not. "
 "In every case the option records the token exactly as it was given.",
 ["inputs", "configurations"], "every token string (any bytes), every set of declared options, every combination of parsing styles",
 "The tests try about a dozen literal tokens; values containing further '=' signs, one-character names, names and values of arbitrary length and all style combinations are never enumerated.",
 ["src/cmdline.cpp"], [("parse_long_option", "src/cmdline.cpp"), ("parse_disguised_long_option", "src/cmdline.cpp")],
 observe=["parsed_options returned by the command line parser"])

prop("C02", "Short-option tokens: grouping and adjacent values",
 "With dash short options enabled, a token '-cREST' (c not '-') is option '-c' with own value REST (no own value if REST is empty); if grouping is enabled, '-c' is declared as taking no value and REST is non-empty, then '-c' is emitted without value and '-' followed by REST is processed the same way, so a group yields its options in order and only the last one can carry a value. "
 "With slash short options enabled a token '/cREST' is option '-c' with own value REST and is never a group. "
 "The whole token is consumed by exactly one of these readings, it is recorded on the last option it yields, and no character of it is lost, duplicated or reordered.",
 ["inputs", "configurations"], "every token string of any length, every set of declared options, every combination of parsing styles",
 "Grouping is an unbounded loop over the token driven by the declared options; the tests use four groups of at most three letters.",
 ["src/cmdline.cpp"], [("parse_short_option", "src/cmdline.cpp"), ("parse_dos_option", "src/cmdline.cpp")],
 observe=["parsed_options returned by the command line parser"])

prop("C03", "Everything after '--' is positional",
 "A '--' token that is not taken as the mandatory value of the preceding option ends option recognition: every later token, whatever it looks like (including further '--' tokens), becomes in order one positional option whose only value is that token, unchanged, and the '--' itself yields nothing. "
 "No token after '--' is ever attached as a value to a named option, even to an option that accepts further values.",
 ["inputs", "configurations"], "every argument list of any length, every position of '--', every set of declared options and styles",
 "Two test command lines contain '--'; the claim is about every tail and every multi-value option standing before it.",
 ["src/cmdline.cpp"], [("parse_terminator", "src/cmdline.cpp"), ("value absorption in run()", "src/cmdline.cpp")],
 state=[("position_key", "INT_MAX marks tokens after the terminator until positions are numbered", INC + "option.hpp")],
 observe=["parsed_options returned by the command line parser"])

prop("C04", "No command-line token is lost, duplicated or reordered",
 "When a command line is parsed without user-supplied parsers, parsing either throws a library error or terminates with a list of options whose recorded original tokens, concatenated in order, are exactly the input tokens minus at most one terminating '--'. "
 "Every token that no enabled syntax recognises becomes a positional option holding that token unchanged.",
 ["inputs", "configurations"], "every argument list of any length, every set of declared options (any value arity), every style, with and without unregistered options allowed",
 "Conservation is a statement about the interaction of all syntaxes, mandatory values, multi-token absorption and the terminator over unbounded lists; tests compare a few fixed outputs and hardly look at original tokens.",
 ["src/cmdline.cpp"], [("main parsing loop", "src/cmdline.cpp run()"), ("finish_option", "src/cmdline.cpp"), ("style parsers", "src/cmdline.cpp")],
 state=[("original_tokens", "tokens an option was created from", INC + "option.hpp")],
 observe=["option::original_tokens of the parse result"])

prop("C05", "Option-name resolution: exact match, abbreviation, wildcard, ambiguity",
 "Looking up a non-empty name among declared options returns the unique option declared with exactly that long or short name; only if there is none does it return the unique option that matches approximately, that is by a declared long name ending in '*' whose stem is a prefix of the name, or, when abbreviation is enabled, by a declared long name of which the given name is a prefix. "
 "Two or more options matching exactly, or (with no exact match) two or more matching approximately, raise an ambiguity error listing the keys of all of them; no match is reported as not found (an unknown-option error from the throwing lookup). "
 "Letter case is ignored when comparing long names if and only if long case-insensitivity is requested, and when comparing short names if and only if short case-insensitivity is requested.",
 ["inputs", "configurations"], "every name string, every list of declared options with any number of long names, both case switches independently, abbreviation on and off",
 "The tests always set both case switches together and use at most four options; prefix, wildcard and ambiguity interact over arbitrary option sets.",
 ["src/options_description.cpp"], [("option_description::match", "src/options_description.cpp"), ("find_nothrow / find", "src/options_description.cpp")],
 observe=["options_description::find, find_nothrow, option_description::match"])

prop("C06", "Names of a declared option: long, short, key, display form",
 "Declaring an option with the comma-separated text N1,...,Nk gives it the short name '-c' if k > 1 and the last name is the single character c, and all other names, in order, as long names (none at all if the only other name is empty). "
 "The key of the option is its first long name, except that it is the name used in the source when the first long name contains '*', and the short name when there is no long name. "
 "The display name is '--' or '-' plus the first long name for the long and disguised styles, the dash or slash short form for the short styles when a short name exists, and otherwise the bare first long name or short name; the help form is '-c [ --long ]', '-c' or '--long'.",
 ["inputs"], "every declaration string (any number of names, any characters), every prefix style",
 "Tests declare a handful of literal name strings with at most three names.",
 ["src/options_description.cpp"], [("set_names", "src/options_description.cpp"), ("key, canonical_display_name, format_name, long_names", "src/options_description.cpp")],
 observe=["option_description accessors"])

prop("C07", "Number of values per option respects the declared arity",
 "In a parse result every registered named option occurrence holds at least its minimum and at most its maximum number of values, its own adjacent value first; otherwise parsing throws: an own value given to an option that takes none is an extra-parameter error, and too few available tokens is a missing-parameter error. "
 "Mandatory values missing from the option's own token are the next tokens in order, whatever they look like, except that a token spelled like a declared short option makes parsing fail with missing-parameter. "
 "Optional further values are exactly the directly following positional tokens (not beyond '--'), taken in order up to the maximum.",
 ["inputs", "configurations"], "every argument list, every set of declared options with 0 <= min <= max arity, every style; no user-supplied parsers",
 "Arity interacts with look-ahead over an unbounded token list; tests use arities 0, 1 and multitoken on lists of at most ten tokens.",
 ["src/cmdline.cpp"], [("finish_option", "src/cmdline.cpp"), ("value absorption in run()", "src/cmdline.cpp")],
 observe=["option::value of the parse result, thrown invalid_command_line_syntax kind"])

prop("C08", "Positional options are numbered and named by position",
 "In a parse result the unnamed options are numbered 0,1,2,... in order of appearance, whatever named options stand between them, and no other option has a number. "
 "If a positional description is given, the i-th positional option gets the i-th name of that description (each add(name,n) contributes n consecutive positions, add(name,-1) all remaining ones), and parsing throws the too-many-positionals error exactly when there are more positional options than described positions; without a description they stay unnamed.",
 ["inputs", "configurations"], "every argument list, every sequence of add() calls with counts >= 0 possibly ended by -1, every interleaving with named options",
 "Tests use three positional descriptions and at most five positionals.",
 ["src/positional_options.cpp", "src/cmdline.cpp"], [("positional_options_description", "src/positional_options.cpp"), ("position numbering in run()", "src/cmdline.cpp")],
 observe=["position_key and string_key of the parse result", "name_for_position, max_total_count"])

prop("C09", "Priority between sources: first source wins, composing options merge",
 "Storing parse results into a variables map never changes a value that an earlier store call obtained explicitly, unless the option is composing, in which case the new tokens are merged onto the earlier value; a value that was only a default is replaced as a whole by an explicit one. "
 "Within one store call all occurrences of an option are applied in order to its value; unnamed and unregistered options are ignored; a name not in the description is an unknown-option error. "
 "Options not mentioned in the source keep their entries unchanged.",
 ["histories", "inputs"], "every sequence of store calls, every parse result, every set of declared options (composing or not, defaulted or not)",
 "The outcome depends on the whole history of store calls; tests try a few two-call sequences.",
 ["src/variables_map.cpp"], [("store()", "src/variables_map.cpp")],
 state=[("m_final", "names whose value may no longer change", INC + "variables_map.hpp")],
 observe=["variables_map contents after store"])

prop("C10", "Defaults fill exactly the gaps; missing required options are reported",
 "After a store call every declared option (other than wildcard-only ones) without an entry gets its declared default value, marked as defaulted, and no other option gains or loses a value by this; an option with neither value nor default stays absent. "
 "Notification throws a required-option error naming the first missing option in key order (in the longest of its display forms among the sources stored) if and only if some option declared required in any stored description has no value, and then runs no notifier at all; otherwise it passes the final value of every entry once, in key order, to that option's notification. "
 "Clearing a map removes all entries, all finality marks and all required marks.",
 ["histories", "inputs"], "every sequence of store/clear/notify calls, every set of declared options",
 "Needs all histories of store calls with different descriptions; the tests run notify after one or two stores.",
 ["src/variables_map.cpp"], [("store() second phase", "src/variables_map.cpp"), ("variables_map::notify, clear", "src/variables_map.cpp")],
 state=[("m_required", "required names and their display form", INC + "variables_map.hpp")],
 observe=["variables_map contents, exceptions and notifier calls"])

prop("C11", "Chained variable maps: explicit beats default, nearest wins",
 "Reading a name from a variables map that is linked to a next map returns the map's own explicit value if there is one; otherwise the value obtained by the same rule from the next map if that is explicit; otherwise the map's own default; otherwise whatever the next map yields; and an empty value if no map has one. "
 "Reading never adds or changes entries.",
 ["inputs", "histories"], "every chain of maps of any length, every name, every combination of absent, default and explicit entries",
 "One test chains two maps; the rule is recursive over chains of any length.",
 ["src/variables_map.cpp"], [("abstract_variables_map::operator[]", "src/variables_map.cpp"), ("variables_map::get", "src/variables_map.cpp")],
 observe=["variables_map::operator[]"])

prop("C12", "Configuration file syntax",
 "A configuration file is read line by line: text from '#' on and surrounding whitespace are dropped, blank remainders are skipped, '[section]' sets the prefix for the following names to the section text with a '.' appended if not already there, and 'NAME=VALUE' (split at the first '=', both sides trimmed) yields exactly one option named prefix+NAME with the single value VALUE. "
 "Any other non-blank line raises an invalid-line error carrying that line, and options come out in file order with nothing skipped or repeated, until end of file.",
 ["inputs"], "every file content (any number of lines, any characters)",
 "The tests parse about thirty fixed lines; comment, section, trimming and '=' handling interact on arbitrary lines.",
 ["src/config_file.cpp", INC + "detail/config_file.hpp"], [("common_config_file_iterator::get", "src/config_file.cpp"), ("trim_ws", "src/config_file.cpp")],
 state=[("m_prefix", "current section prefix", INC + "detail/config_file.hpp")],
 observe=["options returned by parse_config_file"])

prop("C13", "Configuration file names: registered, wildcard, unregistered",
 "A configuration file name is accepted as registered exactly when it equals the first long name of a declared option or starts with the text before the final '*' of a declared first long name ending in '*'; any other name is an unknown-option error, or, if unregistered options are allowed, yields an option marked unregistered. "
 "Declaring two different wildcard names where the stem of one is a prefix of the stem of the other is rejected with an error before anything is read, and so is a description containing an option without a long name.",
 ["inputs", "configurations"], "every set of declared names (with and without '*'), every name occurring in the file",
 "The lookup relies on an ordering invariant of the set of wildcard stems that no test varies: the tests use one or two wildcards.",
 ["src/config_file.cpp", "src/parsers.cpp"], [("add_option, allowed_option", "src/config_file.cpp"), ("parse_config_file", "src/parsers.cpp")],
 state=[("allowed_prefixes", "no element is a prefix of another", INC + "detail/config_file.hpp")],
 observe=["parse_config_file results and exceptions"])

prop("C14", "Environment variables map to options by prefix or mapper",
 "Parsing the environment yields, in environment order, exactly one option for each variable whose mapped name is non-empty, with the mapped name as key and the text after the first '=' as its single value. "
 "With a prefix, the mapped name of a variable is its name with the prefix removed and lower-cased if the name starts with the prefix, and empty (variable ignored) otherwise.",
 ["inputs"], "every environment (any number of entries NAME=VALUE), every prefix, every mapper function",
 "The test sets two variables and one prefix.",
 ["src/parsers.cpp", INC + "environment_iterator.hpp", INC + "eof_iterator.hpp"], [("parse_environment, prefix_name_mapper", "src/parsers.cpp"), ("environment_iterator::get", INC + "environment_iterator.hpp")],
 observe=["options returned by parse_environment"])

prop("C15", "Unix-style splitting of a command line string",
 "Splitting a command line string returns, in order, exactly the non-empty fields delimited by unquoted, unescaped separator characters, with quote characters removed, separators inside quotes kept, and each escape sequence (escape before a quote, a separator or an escape, or 'n' for newline) replaced by the character it denotes; any other escape sequence is an error. "
 "Narrow and wide strings are treated alike, for every choice of separator, quote and escape sets.",
 ["inputs", "configurations"], "every input string, every separator, quote and escape character set, narrow and wide",
 "The tests split eight literal strings.",
 ["src/split.cpp"], [("split_unix", "src/split.cpp"), ("boost::escaped_list_separator", "boost/token_functions.hpp (dependency)")],
 observe=["split_unix result"])

prop("C16", "Character conversion is complete, exact and length-independent",
 "Converting a string between narrow and wide form gives the concatenation of the converted characters of the whole input, independent of its length, for any conversion facet that makes progress, and throws if the input is invalid or ends inside a character; no prefix of a failed conversion is returned. "
 "Converting a wide string of valid code points to UTF-8 and back returns the same string. "
 "A wide parse result carries, option by option, the same keys, positions and flags as the narrow result it wraps, with every value and original token converted from UTF-8.",
 ["inputs"], "every string length and content, every conversion facet obeying the codecvt contract",
 "Conversion works in fixed-size chunks; the unit test converts strings of a few characters, so chunk boundaries and split multi-byte sequences are hardly exercised.",
 ["src/convert.cpp", "src/parsers.cpp", INC + "detail/convert.hpp"], [("detail::convert loop", "src/convert.cpp"), ("woption_from_option, wide parsed options", "src/parsers.cpp")],
 observe=["from_8_bit, to_8_bit, from_utf8, to_utf8, wparsed_options"])

prop("C17", "Validation of option values",
 "A boolean option accepts, ignoring case, exactly 'on', 'yes', '1', 'true' and the empty text (or no token) as true and 'off', 'no', '0', 'false' as false; any other text is an invalid-value error. "
 "String, plain, optional and untyped options take exactly one value (boolean and untyped may take none), and report a second value in one occurrence, a missing value, or a repeated occurrence with the corresponding distinct error, leaving the value already held; a vector option appends every value of every occurrence in order. "
 "An option declared with an implicit value takes that value, in place of anything held, exactly when an occurrence has no token, and a plain option converts its token or reports it as an invalid value.",
 ["inputs"], "every token list and previously held value, narrow and wide, every value type category",
 "Tests validate a few literals per type.",
 ["src/value_semantic.cpp", INC + "detail/value_semantic.hpp"], [("validate overloads, check_first_occurrence, get_single_string", "src/value_semantic.cpp, " + INC + "detail/value_semantic.hpp"), ("typed_value::xparse, untyped_value::xparse", "src/value_semantic.cpp, " + INC + "detail/value_semantic.hpp")],
 observe=["variable_value contents, validation_error kinds"])

prop("C18", "Unregistered options are flagged and collected completely",
 "When unregistered options are allowed, an option-like token whose name is not declared yields an option marked unregistered, keeping its syntactic name and own value, taking no further tokens, and recording the token; without that permission the same token is an unknown-option error naming that token. "
 "Collecting unrecognised tokens returns, in order, exactly the original tokens of all options marked unregistered plus, if requested, of all positional options, and nothing else.",
 ["inputs", "configurations"], "every argument list, every set of declared options, both collection modes, narrow and wide",
 "Tests use six fixed command lines.",
 ["src/cmdline.cpp", INC + "detail/parsers.hpp"], [("finish_option", "src/cmdline.cpp"), ("collect_unrecognized", INC + "detail/parsers.hpp")],
 observe=["option::unregistered, collect_unrecognized result"])

prop("C19", "Error messages terminate, name the option and leave no placeholder",
 "Producing the text of any library error always terminates, whatever text the user supplied, and is repeatable: asking again gives the same text. "
 "The text shows the option in canonical form: the prefix of the style in use plus the option name for long styles, prefix plus first letter of the token for short styles, the bare name without a style, or the original token when no option name applies; a placeholder of the message template whose value is missing is replaced by its default wording and one whose value is present by that value. "
 "An ambiguity message lists every distinct alternative once.",
 ["inputs"], "every option name, original token, value and style, including text that itself looks like a placeholder",
 "Tests compare about thirty fixed messages; user text containing '%' is never tried.",
 ["src/value_semantic.cpp", INC + "errors.hpp"], [("replace_token, substitute_placeholders, get_canonical_option_name", "src/value_semantic.cpp"), ("ambiguous_option::substitute_placeholders", "src/value_semantic.cpp")],
 observe=["what() of every thrown error"])

prop("C20", "Help output: every option once, aligned and wrapped without losing text",
 "Printing a description outputs its caption, then each own option exactly once in declaration order and then each added group in order (options of a group only inside it), with all descriptions starting in one common column that fits the widest option name unless limited by the reserved description width. "
 "The column is one more than the widest option text of the description and its groups (at least 24, at most the line length minus the reserved width); an option text too wide for it is followed by a line break. Option texts show the names, the parameter name and the implicit and default values as text. "
 "Each paragraph of a description is wrapped so that no line exceeds the line length minus one: a line takes as many characters as fit, except that where it would end inside a word it ends after its last blank if that blank is in its second half; later lines are indented to the description column plus the position of a tab, if one is given, and drop one single leading blank. Apart from those blanks and the tab no character of the description is lost, added or reordered. "
 "More than one tab in a paragraph is an error.",
 ["inputs", "configurations"], "every set of options and groups, every description text, every line length and description width satisfying the documented preconditions",
 "Wrapping is a loop over arbitrary text; the tests compare a dozen fixed outputs.",
 ["src/options_description.cpp"], [("print, get_option_column_width", "src/options_description.cpp"), ("format_one, format_description, format_paragraph", "src/options_description.cpp")],
 observe=["text written by operator<< and print"])

prop("C21", "Style flags: defaults, rejected combinations, enabled syntaxes",
 "Setting style 0 selects the default style; a style enabling long or disguised options without any way to give long values, or short options without any way to give short values, or short options without dash or slash, is rejected with an invalid-style error and leaves the previous style in place; every other combination is accepted unchanged. "
 "A syntax is applied to tokens only if its flags are set, in the order extra style parser, extra parser, long, disguised long, dash short, slash short, terminator, and the prefix used in messages is the first enabled among long, disguised, dash and slash.",
 ["configurations", "inputs"], "all 2^13 style values, every argument list",
 "Tests use about ten of the 8192 combinations.",
 ["src/cmdline.cpp"], [("style, check_style, is_style_active, get_canonical_option_prefix", "src/cmdline.cpp"), ("list of style parsers in run()", "src/cmdline.cpp")],
 observe=["exceptions of style(), parse results"])

prop("C22", "Value declarations: token counts, defaults, notification",
 "A typed value asks for no mandatory token if it was declared with zero tokens or an implicit value and for one otherwise, and accepts any number of tokens if multitoken, none if zero-token, one otherwise; an untyped value asks for and accepts one token, or none if so declared; composing and required are reported exactly as declared. "
 "Applying the default stores the declared default and reports success, or changes nothing and reports failure when none was declared. "
 "Notification assigns the final value to the bound variable if there is one and calls the notifier with that value exactly once if there is one, in this order; a switch is a boolean with default false taking no tokens.",
 ["inputs", "histories"], "every sequence of declaration calls on a typed value, every stored value",
 "Tests exercise single declarations, not the combinations of declaration calls.",
 [INC + "value_semantic.hpp", INC + "detail/value_semantic.hpp", "src/value_semantic.cpp"], [("typed_value", INC + "value_semantic.hpp"), ("untyped_value, bool_switch", "src/value_semantic.cpp")],
 observe=["value_semantic virtual functions"])

prop("C23", "Windows command line splitting",
 "Splitting a Windows command line skips leading whitespace and separates arguments at unquoted whitespace; 2n backslashes before a double quote give n backslashes and toggle quoting, 2n+1 give n backslashes and a literal quote, and backslashes not before a quote are kept unchanged. "
 "Whitespace inside quotes is kept, every character not consumed by these rules appears in exactly one argument in order, and an argument that is empty but quoted at the end of the line is kept.",
 ["inputs"], "every command line string",
 "The code is compiled on Windows only, so on this platform no test reaches it at all.",
 ["src/winmain.cpp"], [("split_winmain", "src/winmain.cpp")],
 observe=["split_winmain result"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
