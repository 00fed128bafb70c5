VS = 'src/value_semantic.cpp'; DH = 'include/boost/program_options/detail/value_semantic.hpp'; VH = 'include/boost/program_options/value_semantic.hpp'
PLANTS = [
 dict(id='c17-empty-token-implicit', property='C17', file=DH, old="        if (new_tokens.empty() && !m_implicit_value.empty())", new="        if ((new_tokens.empty() || new_tokens.front().empty()) && !m_implicit_value.empty())",
  demo='''    options_description d; d.add_options()("foo", value<std::string>()->implicit_value("imp"), ""); const char* a[] = {"p", "--bar=1"}; (void)a;
    std::unique_ptr<value_semantic> s(value<std::string>()->implicit_value("imp")); boost::any v; s->parse(v, std::vector<std::string>(1, ""), false); CHECK(boost::any_cast<std::string>(v) == "");
    boost::any w; s->parse(w, std::vector<std::string>(), false); CHECK(boost::any_cast<std::string>(w) == "imp");''', pre='#include <memory>\n',
  needs='an option with an implicit value, given an explicit empty value (a configuration file line `foo=`)', breaks='the explicit empty value is replaced by the implicit one'),
 dict(id='c17-vector-reset', property='C17', file=DH, old="        if (v.empty()) {\n            v = boost::any(std::vector<T>());", new="        if (v.empty() || s.empty()) {\n            v = boost::any(std::vector<T>());",
  demo='''    std::unique_ptr<value_semantic> s(value<std::vector<int> >()->zero_tokens()->multitoken()); boost::any v; s->parse(v, std::vector<std::string>(1, "4"), false); s->parse(v, std::vector<std::string>(), false);
    CHECK(boost::any_cast<std::vector<int> >(v).size() == 1);''', pre='#include <memory>\n',
  needs='a vector option which occurs with values and then again without any', breaks='the values of the earlier occurrences are lost'),
 dict(id='c17-wide-case', property='C17', file=VS, old="            s[i] = wchar_t(tolower(s[i]));", new="            if (s[i] < L'Y') s[i] = wchar_t(tolower(s[i]));",
  demo='''    std::unique_ptr<value_semantic> s(wvalue<bool>()); boost::any v; s->parse(v, std::vector<std::string>(1, "Yes"), true); CHECK(boost::any_cast<bool>(v));''', pre='#include <memory>\n',
  needs='a wide boolean option with a value that has a capital Y', breaks='the value is rejected'),
 dict(id='c22-multitoken-zero', property='C22', file=VH, old="            if (m_multitoken) {", new="            if (m_multitoken && !m_zero_tokens) {",
  demo='''    std::unique_ptr<value_semantic> s(value<std::vector<int> >()->zero_tokens()->multitoken()); CHECK(s->min_tokens() == 0); CHECK(s->max_tokens() > 1);''', pre='#include <memory>\n',
  needs='a value declared both with zero tokens and as multitoken', breaks='it accepts no tokens'),
 dict(id='c22-implicit-no-text', property='C22', file=VH, old="            if (m_zero_tokens || !m_implicit_value.empty()) {", new="            if (m_zero_tokens || !m_implicit_value_as_text.empty()) {",
  demo='''    std::unique_ptr<value_semantic> s(value<std::string>()->implicit_value("")); CHECK(s->min_tokens() == 0);
    options_description d; d.add_options()("foo", value<std::string>()->implicit_value("", ""), ""); std::vector<std::string> a(1, "--foo"); variables_map m; store(command_line_parser(a).options(d).run(), m); CHECK(m.count("foo"));''', pre='#include <memory>\n',
  needs='an implicit value whose text is empty', breaks='the option demands a token'),
 dict(id='c22-notify-order', property='C22', file=DH, old="        if (m_store_to) {\n            *m_store_to = *value;\n        }\n        if (m_notifier) {\n            m_notifier(*value);\n        }", new="        if (m_notifier) {\n            m_notifier(*value);\n        }\n        if (m_store_to) {\n            *m_store_to = *value;\n        }",
  demo='''    int x = 0, y = 0; std::unique_ptr<value_semantic> s(value<int>(&x)->notifier([&](int) { y = x; })); s->notify(boost::any(5)); CHECK(x == 5); CHECK(y == 5);''', pre='#include <memory>\n',
  needs='an option with a bound variable and a notifier that reads it', breaks='the notifier sees the old value of the variable'),
]
