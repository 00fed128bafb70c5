CF = 'src/config_file.cpp'; PA = 'src/parsers.cpp'; EI = 'include/boost/program_options/environment_iterator.hpp'
RD = '''static parsed_options rd(options_description& d, const char* t, bool u = false) { std::istringstream s(t); return parse_config_file(s, d, u); }
'''
PLANTS = [
 dict(id='c12-last-hash', property='C12', file=CF, old="(n = s.find('#'))", new="(n = s.rfind('#'))", pre=RD,
  demo='''    options_description d; d.add_options()("a", value<std::string>(), ""); parsed_options p = rd(d, "a = 1 # one # two\\n");
    CHECK(p.options.size() == 1 && p.options[0].value[0] == "1");''',
  needs='a line with two #', breaks='the comment between the two is part of the value'),
 dict(id='c12-trim-tab', property='C12', file=CF, old='find_last_not_of(" \\t\\r\\n")', new='find_last_not_of(" \\r\\n")', pre=RD,
  demo='''    options_description d; d.add_options()("a", value<std::string>(), ""); parsed_options p = rd(d, "a\\t=\\t1\\t\\n");
    CHECK(p.options.size() == 1 && p.options[0].value[0] == "1" && p.options[0].string_key == "a");''',
  needs='a tab at the end of a name or value', breaks='trailing tabs are kept'),
 dict(id='c12-section-bracket', property='C12', file=CF, old="m_prefix = s.substr(1, s.size()-2);", new="m_prefix = s.substr(1, s.find(']')-1);", pre=RD,
  demo='''    options_description d; d.add_options()("a]b.c", value<std::string>(), "")("a.c", value<std::string>(), ""); parsed_options p = rd(d, "[a]b]\\nc=1\\n");
    CHECK(p.options.size() == 1 && p.options[0].string_key == "a]b.c");''',
  needs='a section name with an inner bracket', breaks='the section name ends there'),
 dict(id='c12-empty-value', property='C12', file=CF, old="this->value().value.push_back(value);", new="if (!value.empty() || m_prefix.empty()) this->value().value.push_back(value);", pre=RD,
  demo='''    options_description d; d.add_options()("s.a", value<std::string>(), ""); parsed_options p = rd(d, "s.a=\\n"); CHECK(p.options[0].value.size() == 1);
    p = rd(d, "[s]\\na=\\n"); CHECK(p.options[0].value.size() == 1 && p.options[0].value[0] == "");''',
  needs='an empty value inside a section', breaks='the option has no value'),
 dict(id='c13-stem-itself', property='C13', file=CF, old="s.find(*--i) == 0)", new="s.find(*--i) == 0 && s.size() > i->size())", pre=RD,
  demo='''    options_description d; d.add_options()("foo*", value<std::string>(), ""); parsed_options p = rd(d, "foo1=1\\n"); CHECK(p.options.size() == 1);
    p = rd(d, "foo=1\\n", true); CHECK(p.options.size() == 1 && !p.options[0].unregistered);''',
  needs='a name equal to the text before the *', breaks='it is not recognised'),
 dict(id='c13-conflict-below', property='C13', file=CF, old="if (s.find(*i) == 0)", new="if (s.find(*i) == 0 && s.size() == i->size() + 1)", pre=RD,
  demo='''    options_description d; d.add_options()("foo*", value<std::string>(), "")("foobar*", value<std::string>(), "");
    bool t = false; try { rd(d, "foo1=1\\n"); } catch (error&) { t = true; } CHECK(t);''',
  needs='two wildcard names whose stems differ by more than one character', breaks='they are not rejected'),
 dict(id='c13-nameless', property='C13', file=PA, old="if (d.long_name().empty())", new="if (d.long_name().empty() && !allow_unregistered)", pre=RD,
  demo='''    options_description d; d.add_options()("foo", "")(",f", ""); bool t = false; try { rd(d, "foo=1\\n"); } catch (error&) { t = true; } CHECK(t);
    t = false; try { options_description e; e.add_options()("foo", "")(",f", ""); std::istringstream s("foo=1\\n"); parse_config_file(s, e, true); } catch (error&) { t = true; } CHECK(t);''',
  needs='a short-only option and allowed unregistered options', breaks='the description is accepted'),
 dict(id='c14-prefix-middle', property='C14', file=PA, old="if (s.find(prefix) == 0) {", new="if (s.find(prefix) != string::npos) {", pre='#include <unistd.h>\n',
  demo='''    char a[] = "XPO_LEVEL_OF_X=1", b[] = "PO_LEVEL=2"; char* e[] = {a, b, 0}; environ = e; options_description d; parsed_options p = parse_environment(d, std::string("PO_"));
    CHECK(p.options.size() == 1 && p.options[0].string_key == "level");''',
  needs='a variable containing the prefix elsewhere', breaks='it becomes an option'),
 dict(id='c14-empty-value', property='C14', file=PA, old="if (!option_name.empty()) {", new="if (!option_name.empty() && !i->second.empty()) {", pre='#include <unistd.h>\n',
  demo='''    char a[] = "PO_X=", b[] = "PO_LEVEL=2"; char* e[] = {a, b, 0}; environ = e; options_description d; parsed_options p = parse_environment(d, std::string("PO_"));
    CHECK(p.options.size() == 2 && p.options[0].string_key == "x" && p.options[0].value.size() == 1);''',
  needs='a variable with an empty value', breaks='it is dropped'),
 dict(id='c14-last-eq', property='C14', file=EI, old="s.find('=')", new="s.find_last_of('=')", pre='#include <unistd.h>\n',
  demo='''    char a[] = "PO_X=a=b", b[] = "PO_LEVEL=2"; char* e[] = {a, b, 0}; environ = e; options_description d; parsed_options p = parse_environment(d, std::string("PO_"));
    CHECK(p.options.size() == 2 && p.options[0].string_key == "x" && p.options[0].value[0] == "a=b");''',
  needs='a value containing =', breaks='it is split in the wrong place'),
]
