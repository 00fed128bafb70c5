EH = 'include/boost/program_options/errors.hpp'; VS_ = 'src/value_semantic.cpp'
PLANTS = [
 dict(id='c19-once', property='C19', file=VS_, old="        substitute_placeholders(m_error_template);", new="        if (m_message.empty()) substitute_placeholders(m_error_template);",
  demo='''    invalid_option_value e(std::string("x")); CHECK(e.what() == std::string("the argument ('x') for option is invalid")); e.add_context("foo", "--foo", command_line_style::allow_long); CHECK(e.what() == std::string("the argument ('x') for option '--foo' is invalid"));''',
  needs='the message is asked for before the context is added', breaks='the old message is kept'),
 dict(id='c19-disguised', property='C19', file=VS_, old="        if (m_option_style == command_line_style::allow_long        || \n             m_option_style == command_line_style::allow_long_disguise)", new="        if (m_option_style == command_line_style::allow_long        || \n             (m_option_style == command_line_style::allow_long_disguise && original_token.length() != option_name.length()))",
  demo='''    error_with_option_name e("'%canonical_option%'", "foo", "-fxx", command_line_style::allow_long_disguise); CHECK(e.what() == std::string("'-foo'"));''',
  needs='the disguised style and a token as long as the option name', breaks='only the first letter is shown'),
 dict(id='c19-versions', property='C19', file=VS_, old="        if (m_alternatives.size() > 1 && alternatives_vec.size() == 1)", new="        if (m_alternatives.size() == 2 && alternatives_vec.size() == 1)",
  demo='''    ambiguous_option e(VS(3, "foo")); e.add_context("", "--f", command_line_style::allow_long); CHECK(e.what() == std::string("option '--f' is ambiguous and matches different versions of '--foo'"));''',
  needs='three options with the same name', breaks='the message does not say that they are different versions'),
]
