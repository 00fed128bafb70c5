VM = 'src/variables_map.cpp'
PRE = '''static parsed_options po1(const options_description& d, std::vector<std::pair<std::string, std::string> > v) {
  parsed_options p(&d); for (auto& x : v) { po::option o; o.string_key = x.first; o.value.push_back(x.second); o.original_tokens.push_back("--" + x.first); p.options.push_back(o); } return p; }
'''
PLANTS = [
 dict(id='c09-default-merge', property='C09', file=VM, old="                if (v.defaulted()) {", new="                if (v.defaulted() && !d.semantic()->is_composing()) {", pre=PRE,
  demo='''    options_description d; d.add_options()("foo", value<VS>()->default_value(VS(1, "dflt"), "dflt")->composing());
    options_description e; e.add_options()("bar", value<int>()); variables_map vm; store(parsed_options(&d), vm); store(po1(d, {{"foo", "a"}}), vm);
    VS v = vm["foo"].as<VS>(); CHECK(v.size() == 1 && v[0] == "a"); CHECK(!vm["foo"].defaulted());''',
  needs='a composing option with a default, stored in two steps', breaks='an explicit value of a composing option is merged onto its default'),
 dict(id='c09-final-early', property='C09', file=VM, old="                if (!d.semantic()->is_composing())\n                    new_final.insert(option_name);",
  new="                if (!d.semantic()->is_composing()) {\n                    new_final.insert(option_name);\n                    if (i > 1 && options.options[i - 1].string_key != option_name && options.options[i - 2].string_key == option_name)\n                        xm.m_final.insert(option_name);\n                }", pre=PRE,
  demo='''    options_description d; d.add_options()("foo", value<VS>())("bar", value<VS>()); variables_map vm;
    store(po1(d, {{"foo", "1"}, {"bar", "x"}, {"foo", "2"}, {"bar", "y"}, {"foo", "3"}}), vm); CHECK(vm["foo"].as<VS>().size() == 3); CHECK(vm["bar"].as<VS>().size() == 2);''',
  needs='occurrences of two options that alternate within one source', breaks='the occurrences after the second are dropped'),
 dict(id='c10-required-empty', property='C10', file=VM, old="            if (iter == end() || iter->second.empty())", new="            if (iter == end() || (iter->second.empty() && !iter->second.m_value_semantic))", pre=PRE,
  demo='''    options_description d; d.add_options()("foo", value<int>()->required());
    variables_map w; store(po1(d, {{"foo", "1"}}), w); static_cast<std::map<std::string, variable_value>&>(w)["foo"].value() = boost::any();
    try { notify(w); CHECK(0); } catch (required_option&) {}''',
  needs='a required option whose entry has lost its value', breaks='notification does not report it'),
 dict(id='c10-clear-required', property='C10', file=VM, old="        m_required.clear();", new="        if (m_required.size() == 1 || m_final.size()) m_required.clear();", pre=PRE,
  demo='''    options_description d; d.add_options()("foo", value<int>()->required())("bar", value<int>()->required()); variables_map vm; store(po1(d, {{"foo", "1"}}), vm); vm.clear();
    try { notify(vm); } catch (required_option&) { CHECK(0); }''',
  needs='clearing a map that has several required options', breaks='their required marks stay'),
 dict(id='c10-redefault', property='C10', file=VM, old="            if (m.count(key) == 0) {\n", new="            if (m.count(key) == 0 || (m[key].defaulted() && m[key].m_value_semantic != d.semantic())) {\n", pre=PRE,
  demo='''    options_description d, e; d.add_options()("foo", value<int>()->default_value(1)); e.add_options()("foo", value<int>()->default_value(2)); variables_map vm;
    store(parsed_options(&d), vm); store(parsed_options(&e), vm); CHECK(vm["foo"].as<int>() == 1);''',
  needs='one option declared in two descriptions with different defaults', breaks='the default of the later description replaces the entry'),
 dict(id='c10-notify-order', property='C10', file=VM, old="            if (k->second.m_value_semantic)\n", new="            if (k->second.m_value_semantic && !(k->second.defaulted() && m_final.count(k->first)))\n", pre=PRE,
  demo='''    options_description d; int n = 0; d.add_options()("foo", value<int>()->default_value(7)->notifier([&](int) { ++n; })); variables_map vm;
    store(po1(d, {{"foo", "1"}}), vm); vm.erase("foo"); store(parsed_options(&d), vm); CHECK(vm["foo"].defaulted()); notify(vm); CHECK(n == 1);''',
  needs='an entry erased after a first source and then filled from its default', breaks='its notifier is not called'),
 dict(id='c11-next-get', property='C11', file=VM, old="            const variable_value& v2 = (*m_next)[name];", new="            const variable_value& v2 = m_next->get(name);", pre=PRE,
  demo='''    options_description d, x; d.add_options()("foo", value<int>()->default_value(1)); variables_map a, b, c; store(parsed_options(&d), a); store(po1(d, {{"foo", "5"}}), c); a.next(&b); b.next(&c);
    const variables_map& ca = a; CHECK(ca["foo"].as<int>() == 5);''',
  needs='a default in the first map, no entry in the second and an explicit value in the third', breaks='the explicit value further down is not found'),
 dict(id='c11-default-chain', property='C11', file=VM, old="            if (!v2.empty() && !v2.defaulted())\n                return v2;\n            else return v;", new="            if (!v2.empty() && (!v2.defaulted() || m_next->m_next))\n                return v2;\n            else return v;", pre=PRE,
  demo='''    options_description d, e; d.add_options()("foo", value<int>()->default_value(1)); e.add_options()("foo", value<int>()->default_value(2)); variables_map a, b, c; store(parsed_options(&d), a); store(parsed_options(&e), b); a.next(&b); b.next(&c);
    const variables_map& ca = a; CHECK(ca["foo"].as<int>() == 1);''',
  needs='a chain of three maps with defaults in the first two', breaks='the default of a farther map wins'),
 dict(id='c11-default-lost', property='C11', file=VM, old="            if (!v2.empty() && !v2.defaulted())\n                return v2;\n            else return v;", new="            if (!v2.defaulted())\n                return v2;\n            else return v;", pre=PRE,
  demo="""    options_description d, x; d.add_options()("foo", value<int>()->default_value(1)); variables_map a, b; store(parsed_options(&d), a); a.next(&b);
    const variables_map& ca = a; CHECK(!ca["foo"].empty() && ca["foo"].as<int>() == 1);""",
  needs='a default in the first map and no entry in the linked one', breaks='the default is not seen'),
]
