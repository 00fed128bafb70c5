PLANTS = [
 dict(id='c05-short-case', property='C05', file='src/options_description.cpp',
  old="local_short_name(short_ignore_case ? tolower_", new="local_short_name(short_ignore_case && long_ignore_case ? tolower_",
  demo='''    options_description d; d.add_options()("foo,F", "");
    CHECK(d.find_nothrow("-f", false, false, true) != 0);
    CHECK(d.find_nothrow("-f", false, true, true) != 0);''',
  needs='short names compared ignoring case while long names are not', breaks='short options declared in upper case are not found'),
 dict(id='c05-wild-middle', property='C05', file='src/options_description.cpp',
  old='''local_long_name.length()-1))
                        == 0)''', new='''local_long_name.length()-1))
                        != std::string::npos)''',
  demo='''    options_description d; d.add_options()("opt*", value<int>(), "");
    CHECK(d.find_nothrow("optx", false) != 0); CHECK(d.find_nothrow("myoptx", false) == 0);''',
  needs='a name that contains a wildcard stem, but not at its start', breaks='it matches the wildcard option'),
 dict(id='c05-approx-shadow', property='C05', file='src/options_description.cpp',
  old='''                if (!had_full_match)
                    found = m_options[i];''', new='''                if (!had_full_match || approximate_matches.size() > 1)
                    found = m_options[i];''',
  demo='''    options_description d; d.add_options()("all-chroots", "")("all", "")("all-sessions", "");
    const option_description* p = d.find_nothrow("all", true); CHECK(p && p->long_name() == "all");''',
  needs='an exact match between two options it abbreviates', breaks='the later approximate match is returned'),
 dict(id='c06-only-short', property='C06', file='src/options_description.cpp',
  old="if (m_long_names.size() == 1 && (*m_long_names.begin()).empty()) {", new="if ((*m_long_names.begin()).empty()) {",
  demo='''    option_description o(",foo,f", value<int>());
    CHECK(o.long_names().second == 2 && o.long_names().first[1] == "foo"); option_description q(",f", value<int>()); CHECK(q.long_names().second == 0);''',
  needs='an empty first name followed by another long name and a short one', breaks='the long names are dropped'),
 dict(id='c06-key-star', property='C06', file='src/options_description.cpp',
  old="if (first_long_name.find('*') != string::npos)", new="if (!first_long_name.empty() && *first_long_name.rbegin() == '*')",
  demo='''    option_description o("a*b", value<int>()); CHECK(o.key("axb") == "axb"); option_description q("a*", value<int>()); CHECK(q.key("axb") == "axb"); CHECK(option_description("ab", value<int>()).key("a") == "ab");''',
  needs='a first long name with * in the middle', breaks='the key is the pattern instead of the name used'),
 dict(id='c06-display', property='C06', file='src/options_description.cpp',
  old='return "-" + *m_long_names.begin();', new='return "-" + m_long_names.back();',
  demo='''    option_description o("foo,bar,f", value<int>()); CHECK(o.canonical_display_name(command_line_style::allow_long_disguise) == "-foo"); CHECK(o.canonical_display_name(command_line_style::allow_long) == "--foo");''',
  needs='several long names and the disguised style', breaks='the last long name is displayed'),
]
