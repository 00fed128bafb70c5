CV = 'src/convert.cpp'; PA = 'src/parsers.cpp'
U = '''#include <boost/program_options/detail/convert.hpp>
'''
PLANTS = [
 dict(id='c16-late-truncation', property='C16', file=CV, old="            if (to_next == buffer)\n                boost", new="            if (to_next == buffer && !result.empty()) break;\n            if (to_next == buffer)\n                boost", pre=U,
  demo='''    bool t = false; std::string s(32, 'a'); s += "\\xe2\\x82"; try { boost::from_utf8(s); } catch (std::logic_error&) { t = true; } CHECK(t);''',
  needs='a text which ends inside a character after at least 32 characters', breaks='the complete characters before it are returned without an error'),
 dict(id='c16-nul', property='C16', file=CV, old="result.append(buffer, to_next);", new="result.append(buffer, *buffer ? to_next : buffer + 1);", pre=U,
  demo='''    std::wstring w(L"a"); w += wchar_t(0); w += L"b"; CHECK(boost::from_utf8(boost::to_utf8(w)) == w); w = std::wstring(1, wchar_t(0)) + L"bc"; CHECK(boost::from_utf8(boost::to_utf8(w)) == w);''',
  needs='a text with a NUL as the first character of a chunk of 32', breaks='the rest of the chunk is lost'),
 dict(id='c16-wide-flag', property='C16', file=PA, old="            result.unregistered = opt.unregistered;", new="            result.unregistered = opt.unregistered && opt.value.empty();",
  demo='''    options_description d; d.add_options()("a", value<std::string>(), ""); std::vector<std::wstring> v; v.push_back(L"--b=1");
    wparsed_options p = wcommand_line_parser(v).options(d).allow_unregistered().run(); CHECK(p.options.size() == 1 && p.options[0].unregistered);''',
  needs='an unregistered option with its own value in a wide command line', breaks='the wide option is not marked unregistered'),
]
