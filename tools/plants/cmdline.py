LO = '''    options_description d; d.add_options()("foo,f", value<std::string>(), "")("a", value<std::string>(), "")("bar,b", "")("v,v", "");
'''
PLANTS = [
 dict(id='c01-disguised-last-eq', property='C01', file='src/cmdline.cpp',
  old="if (m_desc->find_nothrow(tok.substr(1, tok.find('=')-1), ", new="if (m_desc->find_nothrow(tok.substr(1, tok.rfind('=')-1), ",
  demo=LO + '''    parsed_options p = command_line_parser(VS{"-foo=x=y"}).options(d).style(command_line_style::allow_long_disguise | command_line_style::long_allow_adjacent | command_line_style::long_allow_next).run();
    CHECK(p.options.size() == 1 && p.options[0].string_key == "foo" && p.options[0].value == VS{"x=y"});''',
  needs='a disguised long option whose value contains another =', breaks='the name is cut at the last = so the option is not recognised as a long one'),
 dict(id='c01-long-min-size', property='C01', file='src/cmdline.cpp',
  old="if (tok.size() >= 3 && tok[0] == '-' && tok[1] == '-')", new="if (tok.size() > 3 && tok[0] == '-' && tok[1] == '-')",
  demo=LO + '''    parsed_options p = command_line_parser(VS{"--a", "x"}).options(d).run();
    CHECK(p.options.size() == 1 && p.options[0].string_key == "a" && p.options[0].value == VS{"x"});''',
  needs='a one-letter long option without adjacent value', breaks='--a is not recognised as a long option'),
 dict(id='c01-last-eq', property='C01', file='src/cmdline.cpp',
  old="std::string name, adjacent;" if False else "string::size_type p = tok.find('=');", new="string::size_type p = tok.find_last_of('=');",
  demo=LO + '''    parsed_options p = command_line_parser(VS{"--foo=k=v"}).options(d).run();
    CHECK(p.options.size() == 1 && p.options[0].string_key == "foo" && p.options[0].value == VS{"k=v"});''',
  needs='a value containing =', breaks='the token is split at the last = instead of the first'),

 # ---- C02
 dict(id='c02-group-last', property='C02', file='src/cmdline.cpp',
  old="d->semantic()->max_tokens() == 0 && !adjacent.empty()) {", new="d->semantic()->max_tokens() == 0 && adjacent.find('=') == adjacent.npos && !adjacent.empty()) {",
  demo="""    options_description d; d.add_options()("aa,a", "")("bb,b", value<std::string>(), "");
    parsed_options p = command_line_parser(VS{"-ab=x"}).options(d).run();
    CHECK(p.options.size() == 2 && p.options[1].string_key == "bb" && p.options[1].value == VS{"=x"});""",
  needs='a group whose last member has a value containing =', breaks='the group is taken as a value of its first member'),
 dict(id='c02-dos-slash', property='C02', file='src/cmdline.cpp',
  old="if (tok.size() >= 2 && tok[0] == '/')\n        {   \n            string name", new="if (tok.size() >= 2 && tok[0] == '/' && tok.find('/', 2) == tok.npos)\n        {   \n            string name",
  demo="""    options_description d; d.add_options()("aa,a", value<std::string>(), "");
    parsed_options p = command_line_parser(VS{"/ausr/bin"}).options(d).style(command_line_style::allow_short | command_line_style::allow_slash_for_short | command_line_style::short_allow_adjacent).run();
    CHECK(p.options.size() == 1 && p.options[0].string_key == "aa" && p.options[0].value == VS{"usr/bin"});""",
  needs='a slash option whose value contains a slash', breaks='the token is not recognised'),
 dict(id='c02-group-case', property='C02', file='src/cmdline.cpp',
  old="d = m_desc->find_nothrow(name, false, false,\n                                                is_style_active(short_case_insensitive));", new="d = m_desc->find_nothrow(name, false, false, false);",
  demo="""    options_description d; d.add_options()("aa,a", "")("bb,b", "");
    parsed_options p = command_line_parser(VS{"-AB"}).options(d).style(command_line_style::unix_style | command_line_style::case_insensitive).run();
    CHECK(p.options.size() == 2 && p.options[0].string_key == "aa" && p.options[1].string_key == "bb");""",
  needs='grouped short options in another case with case-insensitive short options', breaks='the group is not split'),
 # ---- C03
 dict(id='c03-second-terminator', property='C03', file='src/cmdline.cpp',
  old="for(unsigned i = 1; i < args.size(); ++i)\n            {", new="for(unsigned i = 1; i < args.size(); ++i)\n            {\n                if (args[i] == tok && i + 1 < args.size()) continue;",
  demo="""    options_description d; d.add_options()("aa,a", "");
    parsed_options p = command_line_parser(VS{"--", "x", "--", "y"}).options(d).run();
    CHECK(p.options.size() == 3 && p.options[1].value == VS{"--"});""",
  needs='a second -- after the first, not last', breaks='the second -- is dropped'),
 dict(id='c03-absorb', property='C03', file='src/cmdline.cpp',
  old="if (opt2.position_key == INT_MAX)", new="if (opt2.position_key == INT_MAX && can_take_more < 0)",
  demo="""    options_description d; d.add_options()("foo", value<VS>()->multitoken(), "");
    parsed_options p = command_line_parser(VS{"--foo", "x", "--", "y"}).options(d).run();
    CHECK(p.options.size() == 2 && p.options[0].value == VS{"x"} && p.options[1].value == VS{"y"});""",
  needs='an option taking a bounded number of further values before --: with a single-valued implicit option', breaks='tokens after -- become values of the option') if False else
 dict(id='c03-absorb', property='C03', file='src/cmdline.cpp',
  old="if (opt2.position_key == INT_MAX)", new="if (opt2.position_key == INT_MAX && max_tokens > 1)",
  demo="""    options_description d; d.add_options()("foo", value<std::string>()->implicit_value("i"), "");
    parsed_options p = command_line_parser(VS{"--foo", "--", "y"}).options(d).run();
    CHECK(p.options.size() == 2 && p.options[0].value.empty() && p.options[1].value == VS{"y"});""",
  needs='an option with an implicit value directly before --', breaks='the token after -- becomes the value of the option'),
 # ---- C04
 dict(id='c04-erase-group', property='C04', file='src/cmdline.cpp',
  old="                if (args.size() != current_size) {\n                    ok = true;", new="                if (args.size() < current_size && (args.empty() || next.size() < 17)) {\n                    ok = true;",
  demo="""    options_description d; d.add_options()("a,a", "")("b,b", "")("foo", value<std::string>(), "");
    parsed_options p = command_line_parser(VS{"-aaaaaaaaaaaaaaaaa", "/b", "--foo=1"}).options(d).style(command_line_style::unix_style).run();
    std::string all; for (auto& o : p.options) for (auto& t : o.original_tokens) all += t + " ";
    CHECK(all == "-aaaaaaaaaaaaaaaaa /b --foo=1 ");
    parsed_options q = command_line_parser(VS{"-aaaaaaaaaaaaaaaaa", "/b", "/b"}).options(d).style(command_line_style::unix_style | command_line_style::allow_slash_for_short).run();
    VS v; for (auto& o : q.options) v.push_back(o.string_key);
    CHECK(q.options.size() == 19);
    parsed_options r = command_line_parser(VS{"-aaaaaaaaaaaaaaaaa", "--", "x"}).options(d).style(command_line_style::unix_style).run();
    CHECK(r.options.size() == 18 && r.options.back().value == VS{"x"});
    parsed_options s = command_line_parser(VS{"-aaaaaaaaaaaaaaaaa", "-x y"}).options(d).style(command_line_style::unix_style).allow_unregistered().run();
    CHECK(s.options.size() == 18);
    parsed_options t = command_line_parser(VS{"-aaaaaaaaaaaaaaaaa", "p", "q"}).options(d).style(command_line_style::unix_style).run();
    CHECK(t.options.size() == 19);""",
  needs='a group of at least 17 short options', breaks='the next token is consumed as positional without being parsed') if False else
 dict(id='c04-last-of-many', property='C04', file='src/cmdline.cpp',
  old="                    finish_option(next.back(), args, style_parsers);\n                    for (unsigned j = 0; j < next.size(); ++j)", new="                    finish_option(next.back(), args, style_parsers);\n                    for (unsigned char j = 0; j < (unsigned char)next.size(); ++j)",
  demo="""    options_description d; d.add_options()("foo", value<std::string>(), "");
    VS a{"--"}; for (int i = 0; i < 300; ++i) a.push_back("x");
    parsed_options p = command_line_parser(a).options(d).run();
    CHECK(p.options.size() == 300);""",
  needs='at least 256 tokens after --', breaks='most of them are lost'),
 dict(id='c04-value-not-recorded', property='C04', file='src/cmdline.cpp',
  old="                    opt.original_tokens.push_back(opt2.original_tokens[0]);", new="                    if (!opt2.value[0].empty()) opt.original_tokens.push_back(opt2.original_tokens[0]);",
  demo="""    options_description d; d.add_options()("foo", value<VS>()->multitoken(), "");
    parsed_options p = command_line_parser(VS{"--foo", "x", "", "y"}).options(d).run();
    CHECK(p.options.size() == 1 && p.options[0].value.size() == 3 && p.options[0].original_tokens.size() == 4);""",
  needs='an empty token absorbed by a multitoken option', breaks='the token is not recorded'),
 # ---- C07
 dict(id='c07-own-value', property='C07', file='src/cmdline.cpp',
  old="if (opt.value.size() <= min_tokens) ", new="if (opt.value.size() < min_tokens) ",
  demo="""    return 0;""", needs='', breaks='') if False else
 dict(id='c07-present', property='C07', file='src/cmdline.cpp',
  old="if (present_tokens >= min_tokens)", new="if (present_tokens >= min_tokens || (max_tokens > 1 && present_tokens))",
  demo="""    struct two : value_semantic { std::string name() const { return ""; } unsigned min_tokens() const { return 2; } unsigned max_tokens() const { return 2; } bool is_composing() const { return false; } bool is_required() const { return false; }
      void parse(boost::any&, const VS&, bool) const {} bool apply_default(boost::any&) const { return false; } void notify(const boost::any&) const {} };
    options_description d; d.add_options()("foo", new two, "");
    try { command_line_parser(VS{"--foo", "x"}).options(d).run(); } catch (invalid_command_line_syntax& e) { return e.kind() != invalid_syntax::missing_parameter; }
    CHECK(!"accepted");""",
  needs='an option needing two values with only one available', breaks='too few values are accepted'),
 dict(id='c07-max', property='C07', file='src/cmdline.cpp',
  old="int can_take_more = max_tokens - static_cast<int>(opt.value.size());", new="int can_take_more = max_tokens - static_cast<int>(min_tokens);",
  demo="""    struct v03 : value_semantic { std::string name() const { return ""; } unsigned min_tokens() const { return 0; } unsigned max_tokens() const { return 2; } bool is_composing() const { return false; } bool is_required() const { return false; }
      void parse(boost::any&, const VS&, bool) const {} bool apply_default(boost::any&) const { return false; } void notify(const boost::any&) const {} };
    options_description d; d.add_options()("foo", new v03, "");
    parsed_options p = command_line_parser(VS{"--foo=a", "x", "y"}).options(d).run();
    CHECK(p.options.size() == 2 && p.options[0].value.size() == 2);""",
  needs='an option with own adjacent value, minimum 0 and maximum 2 followed by two positional tokens', breaks='it gets one value too many'),
 # ---- C08
 dict(id='c08-number', property='C08', file='src/cmdline.cpp',
  old="                result[i].position_key = position_key++;", new="                result[i].position_key = result[i].position_key == INT_MAX ? static_cast<int>(i) : position_key++;",
  demo="""    options_description d; d.add_options()("foo", "");
    parsed_options p = command_line_parser(VS{"--foo", "a", "--", "b", "c"}).options(d).run();
    CHECK(p.options.size() == 4 && p.options[1].position_key == 0 && p.options[2].position_key == 1 && p.options[3].position_key == 2);""",
  needs='positional tokens after -- when named options come before', breaks='they are numbered by their index among all options'),
 dict(id='c08-trailing', property='C08', file='src/positional_options.cpp',
  old="        if (max_count == -1)", new="        if (max_count == -1 || max_count > 31)",
  demo="""    options_description d; d.add_options()("in", value<VS>(), "");
    positional_options_description q; q.add("in", 32);
    try { command_line_parser(VS(33, "x")).options(d).positional(q).run(); } catch (too_many_positional_options_error&) { return 0; }
    CHECK(!"accepted");""",
  needs='a name described for at least 32 positions', breaks='it is taken for all remaining positions'),
 # ---- C18
 dict(id='c18-token', property='C18', file='src/cmdline.cpp',
  old="        if (opt.original_tokens.size())\n            original_token_for_exceptions = opt.original_tokens[0];", new="        if (opt.original_tokens.size() && opt.value.empty())\n            original_token_for_exceptions = opt.original_tokens[0];",
  demo="""    options_description d; d.add_options()("foo", "");
    try { command_line_parser(VS{"--zoo=1"}).options(d).run(); } catch (unknown_option& e) { return std::string(e.what()).find("--zoo=1") == std::string::npos; }
    CHECK(!"accepted");""",
  needs='an unknown long option with a value', breaks='the error names the option name, not the token'),
 dict(id='c18-positional', property='C18', file='include/boost/program_options/detail/parsers.hpp',
  old="(mode == include_positional && options[i].position_key != -1))", new="(mode == include_positional && options[i].position_key != -1 && options[i].string_key.empty()))",
  demo="""    options_description d; d.add_options()("in", value<VS>(), "");
    positional_options_description q; q.add("in", -1);
    parsed_options p = command_line_parser(VS{"a", "--zoo", "b"}).options(d).positional(q).allow_unregistered().run();
    CHECK((collect_unrecognized(p.options, include_positional) == VS{"a", "--zoo", "b"}));""",
  needs='positional options that got a name from a positional description', breaks='they are not collected'),
 # ---- C21
 dict(id='c21-style-zero', property='C21', file='src/cmdline.cpp',
  old="!(style & short_allow_adjacent) && !(style & short_allow_next))", new="!(style & short_allow_adjacent) && !(style & (short_allow_next | long_allow_next)))",
  demo="""    command_line_parser p(VS{});
    try { p.style(command_line_style::allow_short | command_line_style::allow_dash_for_short | command_line_style::allow_long | command_line_style::long_allow_next); } catch (invalid_command_line_style&) { return 0; }
    CHECK(!"accepted");""",
  needs='a style allowing short options without any way to give them values, while long values may follow', breaks='it is accepted'),
 dict(id='c21-order', property='C21', file='src/cmdline.cpp',
  old="        if (m_style & allow_long)\n            return allow_long;", new="        if ((m_style & allow_long) && !(m_style & allow_long_disguise))\n            return allow_long;",
  demo="""    options_description d; d.add_options()("foo", "");
    try { command_line_parser(VS{"--foo=1"}).options(d).style(command_line_style::unix_style | command_line_style::allow_long_disguise).run(); } catch (error& e) { return std::string(e.what()).find("--foo") == std::string::npos; }
    CHECK(!"accepted");""",
  needs='long and disguised options both enabled', breaks='messages use the prefix of disguised options'),

 # ---- second round: the phases of run()
 dict(id='c03-empty', property='C03', file='src/cmdline.cpp',
  old="for(unsigned i = 1; i < args.size(); ++i)\n            {", new="for(unsigned i = 1; i < args.size(); ++i)\n            {\n                if (args[i].empty()) continue;",
  demo="""    options_description d; d.add_options()("aa,a", "");
    parsed_options p = command_line_parser(VS{"--", "x", "", "y"}).options(d).run();
    CHECK(p.options.size() == 3 && p.options[1].value == VS{""});""",
  needs='an empty argument after --', breaks='it is dropped'),
 dict(id='c04-min-token', property='C04', file='src/cmdline.cpp',
  old="                    opt.original_tokens.push_back(other_tokens[0]);", new="                    if (min_tokens || followed_option.empty()) opt.original_tokens.push_back(other_tokens[0]);",
  demo="""    options_description d; d.add_options()("foo", value<std::string>(), "");
    parsed_options p = command_line_parser(VS{"--foo", "-x"}).options(d).run();
    CHECK(p.options.size() == 1 && p.options[0].value == VS{"-x"} && p.options[0].original_tokens.size() == 2);""",
  needs='a value that looks like an undeclared option', breaks='the token is not recorded'),
 dict(id='c07-own-value', property='C07', file='src/cmdline.cpp',
  old="                if (opt.value.size() <= min_tokens) ", new="                if (opt.value.empty()) ",
  demo="""    struct two : value_semantic { std::string name() const { return ""; } unsigned min_tokens() const { return 2; } unsigned max_tokens() const { return 2; } bool is_composing() const { return false; } bool is_required() const { return false; }
      void parse(boost::any&, const VS&, bool) const {} bool apply_default(boost::any&) const { return false; } void notify(const boost::any&) const {} };
    options_description d; d.add_options()("foo", new two, "")("bar", "");
    parsed_options p = command_line_parser(VS{"--foo=x", "y", "--bar"}).options(d).run();
    CHECK(p.options.size() == 2 && p.options[0].value == (VS{"x", "y"}));
    parsed_options q = command_line_parser(VS{"--foo=x", "--y", "--bar"}).options(d).allow_unregistered().run();
    CHECK(q.options.size() == 2 && q.options[0].value == (VS{"x", "--y"}));""",
  needs='an option that needs at least two values, one of them adjacent, the next looking like an option', breaks='only its own value is taken as mandatory'),
 dict(id='c07-many', property='C07', file='src/cmdline.cpp',
  old="int can_take_more = max_tokens - static_cast<int>(opt.value.size());", new="unsigned char can_take_more = static_cast<unsigned char>(max_tokens - static_cast<int>(opt.value.size()));",
  demo="""    options_description d; d.add_options()("foo", value<VS>()->multitoken(), "");
    parsed_options p = command_line_parser([]{ VS a{"--foo"}; a.insert(a.end(), 400, "x"); return a; }()).options(d).run();
    CHECK(p.options.size() == 1 && p.options[0].value.size() == 400);""",
  needs='a multitoken option followed by more than 256 values', breaks='the later ones stay positional'),
 dict(id='c08-empty-token', property='C08', file='src/cmdline.cpp',
  old="            if (result[i].string_key.empty())\n                result[i].position_key", new="            if (result[i].string_key.empty() && !(result[i].value.empty() || result[i].value[0].empty()))\n                result[i].position_key",
  demo="""    options_description d; d.add_options()("in", value<VS>(), ""); positional_options_description q; q.add("in", 2);
    parsed_options p = command_line_parser(VS{"a", "", "b"}).options(d).run();
    CHECK(p.options.size() == 3 && p.options[1].position_key == 1 && p.options[2].position_key == 2);
    try { command_line_parser(VS{"a", "", "b"}).options(d).positional(q).run(); } catch (too_many_positional_options_error&) { return 0; }
    CHECK(!"accepted");""",
  needs='an empty positional argument', breaks='it is not numbered'),
 dict(id='c18-twice', property='C18', file='src/cmdline.cpp',
  old="        this->m_allow_unregistered = true;", new="        this->m_allow_unregistered = !this->m_allow_unregistered;",
  demo="""    options_description d; d.add_options()("aa,a", "");
    parsed_options p = command_line_parser(VS{"--zoo"}).options(d).allow_unregistered().allow_unregistered().run();
    CHECK(p.options.size() == 1 && p.options[0].unregistered);""",
  needs='allow_unregistered() called twice on one parser', breaks='unregistered options are errors again'),
 dict(id='c18-min-look', property='C18', file='src/cmdline.cpp',
  old="                    opt.unregistered = true;\n                    return;", new="                    opt.unregistered = opt.value.empty() || opt.original_tokens.size() == 1;\n                    return;",
  demo="""    options_description d; d.add_options()("aa,a", "");
    parsed_options p = command_line_parser(VS{"@zoo=1"}).options(d).allow_unregistered().extra_parser([](const std::string& s) { return s[0] == '@' ? std::make_pair(s.substr(1, s.find('=') - 1), s.substr(s.find('=') + 1)) : std::pair<std::string, std::string>(); }).run();
    CHECK(p.options.size() == 1 && p.options[0].unregistered);""",
  needs='an unregistered option with a value made by an extra parser, which records no token', breaks='it is not marked unregistered'),
 dict(id='c21-extra-order', property='C21', file='src/cmdline.cpp',
  old="        if (m_style_parser)\n            style_parsers.push_back(m_style_parser);\n\n        if (m_additional_parser)\n            style_parsers.push_back(\n                boost::bind(&cmdline::handle_additional_parser, this, _1));\n",
  new="        if (m_additional_parser)\n            style_parsers.push_back(\n                boost::bind(&cmdline::handle_additional_parser, this, _1));\n\n        if (m_style_parser)\n            style_parsers.push_back(m_style_parser);\n",
  demo="""    options_description d; d.add_options()("one", "")("two", "");
    parsed_options p = command_line_parser(VS{"@"}).options(d).extra_parser([](const std::string& s) { return s == "@" ? std::make_pair(std::string("one"), std::string()) : std::pair<std::string, std::string>(); })
      .extra_style_parser([](VS& a) { std::vector<option> r; if (a[0] == "@") { option o; o.string_key = "two"; o.original_tokens.push_back(a[0]); r.push_back(o); a.erase(a.begin()); } return r; }).run();
    CHECK(p.options.size() == 1 && p.options[0].string_key == "two");""",
  needs='an extra parser and an extra style parser that both take the same token', breaks='the extra parser comes first'),
]
