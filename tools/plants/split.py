SX = 'src/split.cpp'; WM = 'src/winmain.cpp'
WP = '''#include <cctype>
using std::size_t;
using namespace std;
#define _WIN32
#include "src/winmain.cpp"
#undef _WIN32
'''
PLANTS = [
 dict(id='c15-empty-first', property='C15', file=SX, old="if (!cur_token->empty())", new="if (!cur_token->empty() || cmdline.size() == quote.size())",
  demo='''    VS r = split_unix("''"); CHECK(r.empty()); r = split_unix("a "); CHECK(r.size() == 1); r = split_unix(" a b"); CHECK(r.size() == 2);''',
  needs='a command line with as many characters as there are quote characters, with an empty field', breaks='an empty argument is returned'),
 dict(id='c15-separators', property='C15', file=SX, old="boost::escaped_list_separator< charT >(escape, seperator, quote)", new="boost::escaped_list_separator< charT >(escape, seperator.substr(0, 4), quote)",
  demo='''    VS r = split_unix("a b\\tc;d:e,f", " \\t;:,"); CHECK(r.size() == 6); r = split_unix("a b"); CHECK(r.size() == 2);''',
  needs='more than four separator characters', breaks='only the first four separate'),
 dict(id='c15-dup', property='C15', file=SX, old="            result.push_back(*cur_token);", new="            { if (result.empty() || result.back() != *cur_token || cur_token->size() < 2) result.push_back(*cur_token); }",
  demo='''    VS r = split_unix("-Iab -Iab x x"); CHECK(r.size() == 4);''',
  needs='the same argument twice in a row', breaks='it is returned once'),
 dict(id='c15-wide-escape', property='C15', file=SX, old="return detail::split_unix< wchar_t >(cmdline, seperator, quote, escape);", new="return detail::split_unix< wchar_t >(cmdline, seperator, quote, escape.substr(0, 1));",
  demo='''    std::vector<std::wstring> r = split_unix(std::wstring(L"a^ b c"), L" ", L"'", L"\\\\^"); CHECK(r.size() == 2 && r[0] == L"a b");''',
  needs='a wide command line and two escape characters', breaks='only the first escapes'),
 dict(id='c23-empty-quote', property='C23', file=WM, old="                        empty_quote = false; \n                        for(", new="                        for(", pre=WP,
  demo='''    VS r = split_winmain("\\"\\" a"); CHECK(r.size() == 2); r = split_winmain("a \\"\\" "); CHECK(r.size() == 2 && r[1] == ""); r = split_winmain("a \\"\\""); CHECK(r.size() == 2);''',
  needs='a quoted empty argument before white space at the end of the line', breaks='an extra empty argument appears'),
 dict(id='c23-odd-quote', property='C23', file=WM, old="current.append(backslash_count / 2, '\\\\');                \n", new="current.append((backslash_count + 1) / 3, '\\\\');\n", pre=WP,
  demo='''    VS r = split_winmain("a\\\\\\\\\\\\\\"b"); CHECK(r.size() == 1 && r[0] == "a\\\\\\"b"); r = split_winmain("a\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\"b"); CHECK(r.size() == 1 && r[0] == "a\\\\\\\\\\\\\\"b");''',
  needs='seven backslashes before a double quote', breaks='one backslash is lost'),
 dict(id='c23-trailing', property='C23', file=WM, old="            if (backslash_count)\n                current", new="            if (backslash_count && !inside_quoted)\n                current", pre=WP,
  demo='''    VS r = split_winmain("\\"a b\\\\"); CHECK(r.size() == 1 && r[0] == "a b\\\\");''',
  needs='backslashes at the end of an unclosed quotation', breaks='they are lost'),
]
