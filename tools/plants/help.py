OD_ = 'src/options_description.cpp'
PLANTS = [
 dict(id='c20-tail-blank', property='C20', file=OD_, old="                            ((line_begin + 1 < par_end) &&\n                             (*(line_begin + 1) != ' ')))", new="                            ((line_begin + 1 < par_end) &&\n                             (line_begin + 2 < par_end) &&\n                             (*(line_begin + 1) != ' ')))",
  demo='''    options_description d("", 50, 25); std::string w(25, 'x'); d.add_options()("foo", value<int>(), (w + " y").c_str());
    std::ostringstream s; s << d; CHECK(s.str() == "  --foo arg             " + w + "\\n" + std::string(24, ' ') + "y\\n");''',
  needs='a continuation line that consists of a blank and one last character', breaks='the leading blank is kept there'),
 dict(id='c20-tab-width', property='C20', file=OD_, old="                        line_length -= static_cast<unsigned>(par_indent); // there's less to work with now\n                        first_line = false;", new="                        if (par_indent > 1) line_length -= static_cast<unsigned>(par_indent); // there's less to work with now\n                        first_line = false;",
  demo='''    options_description d("", 50, 25); d.add_options()("foo", value<int>(), ("a\\tb" + std::string(70, 'x')).c_str());
    std::ostringstream s; s << d; std::istringstream i(s.str()); std::string l; while (std::getline(i, l)) CHECK(l.size() <= 49);''',
  needs='a tab at the second position of a paragraph that needs more than one line', breaks='continuation lines are one character too long'),
 dict(id='c20-half', property='C20', file=OD_, old="                            if (static_cast<unsigned>(std::distance(last_space, line_end)) < \n                                (line_length / 2))", new="                            if (static_cast<unsigned>(std::distance(last_space, line_end)) < \n                                (line_length + 1) / 2)",
  demo='''    options_description d("", 60, 25); d.add_options()("foo", value<int>(), (std::string(17, 'a') + " " + std::string(40, 'x')).c_str());
    std::ostringstream s; s << d; CHECK(s.str().find("a " + std::string(17, 'x') + "\\n") != std::string::npos);''',
  needs='an odd width and a last blank exactly in the middle', breaks='the line is broken at a blank in its first half'),
]
