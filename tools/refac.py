"""Behaviour-preserving rewrites: every check named must stay quiet on them.
usage: refac.py [prefix] [--all]   builds a scratch copy of /repo per rewrite, runs the checks on it (PO_REPO), reports alarms and lost proofs"""
import os, re, subprocess, sys, shutil, json
R = []
def r(id, checks, *edits): R.append((id, checks.split(), edits))
CL, OD, CF, VM, VS, PA, CV, SP, WM, PO = ['src/%s.cpp' % x for x in ('cmdline', 'options_description', 'config_file', 'variables_map', 'value_semantic', 'parsers', 'convert', 'split', 'winmain', 'positional_options')]
CFH = 'include/boost/program_options/detail/config_file.hpp'; VSH = 'include/boost/program_options/detail/value_semantic.hpp'

r('long-early', 'C01 C03 C04', (CL, """        vector<option> result;
        const string& tok = args[0];
        if (tok.size() >= 3 && tok[0] == '-' && tok[1] == '-')
        {   
            string name, adjacent;
""", """        vector<option> result;
        const string tok = args.front();
        if (tok.size() < 3 || tok.compare(0, 2, "--") != 0)
            return result;
        {   
            string name, adjacent;
"""), (CL, """            option opt;
            opt.string_key = name;
            if (!adjacent.empty())
                opt.value.push_back(adjacent);
            opt.original_tokens.push_back(tok);
            result.push_back(opt);
            args.erase(args.begin());
        }
        return result;
    }


    vector<option> 
    cmdline::parse_short""", """            args.erase(args.begin());
            option opt;
            opt.original_tokens.push_back(tok);
            if (adjacent.size() > 0)
                opt.value.push_back(adjacent);
            opt.string_key = name;
            result.push_back(opt);
        }
        return result;
    }


    vector<option> 
    cmdline::parse_short"""))
r('dash-helper', 'C01 C02 C03 C04', (CL, """    vector<option>
    cmdline::run()
    {
""", """    namespace {
        bool single_dash(const string& tok)
        {
            return tok.size() >= 2 && tok[0] == '-' && tok[1] != '-';
        }
    }

    vector<option>
    cmdline::run()
    {
"""), (CL, """        if (tok.size() >= 2 && tok[0] == '-' && tok[1] != '-')
        {   
            vector<option> result;
""", """        if (single_dash(tok))
        {   
            vector<option> result;
"""), (CL, """            ((tok[0] == '-' && tok[1] != '-') ||
""", """            (single_dash(tok) ||
"""))
r('short-loop', 'C02 C03 C04', (CL, """                // FIXME: check for 'allow_sticky'.
                if (d && (m_style & allow_sticky) &&
                    d->semantic()->max_tokens() == 0 && !adjacent.empty()) {
""", """                const bool grouped = d && (m_style & allow_sticky) && !adjacent.empty()
                    && d->semantic()->max_tokens() == 0;
                if (grouped) {
"""), (CL, """                    if (adjacent.empty())
                    {
                        args.erase(args.begin());
                        break;
                    }

                    name = string("-") + adjacent[0];
                    adjacent.erase(adjacent.begin());
                } else {
""", """                    name = "-" + adjacent.substr(0, 1);
                    adjacent = adjacent.substr(1);
                } else {
"""))
r('short-while', 'C02 C04', (CL, """            for(;;) {
                const option_description* d;""", """            bool done = false;
            while (!done) {
                const option_description* d;"""), (CL, """                    result.push_back(opt);
                    args.erase(args.begin());                    
                    break;
                }
            }
            return result;""", """                    result.push_back(opt);
                    args.erase(args.begin());                    
                    done = true;
                }
            }
            return result;"""), (CL, """                    if (adjacent.empty())
                    {
                        args.erase(args.begin());
                        break;
                    }
""", ""))
r('term-range', 'C03 C04', (CL, """        if (tok == "--")
        {
            for(unsigned i = 1; i < args.size(); ++i)
            {
                option opt;
                opt.value.push_back(args[i]);
                opt.original_tokens.push_back(args[i]);
                opt.position_key = INT_MAX;
                result.push_back(opt);
            }
            args.clear();
        }
        return result;""", """        if (tok != "--")
            return result;
        for (vector<string>::const_iterator it = args.begin() + 1; it != args.end(); ++it)
        {
            option opt;
            opt.position_key = INT_MAX;
            opt.value.push_back(*it);
            opt.original_tokens.push_back(*it);
            result.push_back(opt);
        }
        args.clear();
        return result;"""))
r('finish-helper', 'C04 C07 C18', (CL, """    void
    cmdline::finish_option(option& opt,
                           vector<string>& other_tokens,
                           const vector<style_parser>& style_parsers)
    {          
""", """    namespace {
        void fail(invalid_command_line_syntax::kind_t kind)
        {
            boost::throw_exception(invalid_command_line_syntax(kind));
        }
    }

    void
    cmdline::finish_option(option& opt,
                           vector<string>& other_tokens,
                           const vector<style_parser>& style_parsers)
    {          
"""), (CL, """                    boost::throw_exception(
                        invalid_command_line_syntax(invalid_command_line_syntax::extra_parameter));
                }
""", """                    fail(invalid_command_line_syntax::extra_parameter);
                }
"""), (CL, """            else
            {
                boost::throw_exception(
                            invalid_command_line_syntax(invalid_command_line_syntax::missing_parameter)); 

            }
""", """            else
                fail(invalid_command_line_syntax::missing_parameter);
"""))
r('finish-early', 'C04 C07 C18', (CL, """            if (present_tokens >= min_tokens)
            {
                if (!opt.value.empty() && max_tokens == 0) 
""", """            if (present_tokens < min_tokens)
                boost::throw_exception(
                            invalid_command_line_syntax(invalid_command_line_syntax::missing_parameter)); 
            {
                if (max_tokens == 0 && !opt.value.empty())
"""), (CL, """            else
            {
                boost::throw_exception(
                            invalid_command_line_syntax(invalid_command_line_syntax::missing_parameter)); 

            }
        } 
""", """        } 
"""), (CL, """                if (opt.value.size() <= min_tokens) 
                {
                    min_tokens -= static_cast<unsigned>(opt.value.size());
                }
                else
                {
                    min_tokens = 0;
                }
""", """                const unsigned have = static_cast<unsigned>(opt.value.size());
                min_tokens = have < min_tokens ? min_tokens - have : 0;
"""))
r('finish-while', 'C04 C07 C18', (CL, """                for(;!other_tokens.empty() && min_tokens--; ) 
                {
""", """                while (min_tokens > 0 && !other_tokens.empty())
                {
                    --min_tokens;
"""))
r('run-range', 'C03 C04 C07 C08 C21', (CL, """                    for (unsigned j = 0; j < next.size(); ++j)
                        result.push_back(next[j]);                    
""", """                    result.insert(result.end(), next.begin(), next.end());
"""), (CL, """        for(unsigned i = 0; i < result.size(); ++i) {
            if (result[i].string_key.empty())
                result[i].position_key = position_key++;
        }
""", """        for (vector<option>::iterator it = result.begin(); it != result.end(); ++it) {
            if (it->string_key.empty()) {
                it->position_key = position_key;
                ++position_key;
            }
        }
"""))
r('run-case', 'C08 C21 C04', (CL, """            if (result[i].string_key.size() > 2 ||
                        (result[i].string_key.size() > 1 && result[i].string_key[0] != '-'))
            {
                // it is a long option
                result[i].case_insensitive = is_style_active(long_case_insensitive);
            }
            else
            {
                // it is a short option
                result[i].case_insensitive = is_style_active(short_case_insensitive);
            }
""", """            const string& key = result[i].string_key;
            const bool is_long = key.size() > 2 || (key.size() == 2 && key[0] != '-');
            result[i].case_insensitive = is_style_active(is_long ? long_case_insensitive : short_case_insensitive);
"""))
r('run-number', 'C08 C04', (CL, """        if (m_positional)
        {
            unsigned position = 0;
            for (unsigned i = 0; i < result.size(); ++i) {
                option& opt = result[i];
                if (opt.position_key != -1) {
                    if (position >= m_positional->max_total_count())
                    {
                        boost::throw_exception(too_many_positional_options_error());
                    }
                    opt.string_key = m_positional->name_for_position(position);
                    ++position;
                }
            }
        }
""", """        if (m_positional)
        {
            const unsigned most = m_positional->max_total_count();
            unsigned position = 0;
            for (unsigned i = 0; i < result.size(); ++i) {
                if (result[i].position_key == -1)
                    continue;
                if (position >= most)
                    boost::throw_exception(too_many_positional_options_error());
                result[i].string_key = m_positional->name_for_position(position++);
            }
        }
"""))
r('run-absorb', 'C03 C04 C07 C08', (CL, """                int can_take_more = max_tokens - static_cast<int>(opt.value.size());
                unsigned j = i+1;
                for (; can_take_more && j < result.size(); --can_take_more, ++j)
                {
                    option& opt2 = result[j];
                    if (!opt2.string_key.empty())
                        break;

                    if (opt2.position_key == INT_MAX)
                    {
                        // We use INT_MAX to mark positional options that
                        // were found after the '--' terminator and therefore
                        // should stay positional forever.
                        break;
                    }
""", """                int can_take_more = max_tokens - static_cast<int>(opt.value.size());
                unsigned j = i+1;
                for (; can_take_more && j < result.size(); --can_take_more, ++j)
                {
                    const option& opt2 = result[j];
                    // INT_MAX marks positional options found after '--': they stay positional.
                    if (!opt2.string_key.empty() || opt2.position_key == INT_MAX)
                        break;
"""))
r('run-helper', 'C03 C04 C07 C18 C21', (CL, """            if (!ok) {
                option opt;
                opt.value.push_back(args[0]);
                opt.original_tokens.push_back(args[0]);
                result.push_back(opt);
                args.erase(args.begin());
            }
""", """            if (!ok) {
                result.push_back(positional_from(args.front()));
                args.erase(args.begin());
            }
"""), (CL, """    vector<option>
    cmdline::run()
    {
""", """    namespace {
        option positional_from(const string& tok)
        {
            option opt;
            opt.value.push_back(tok);
            opt.original_tokens.push_back(tok);
            return opt;
        }
    }

    vector<option>
    cmdline::run()
    {
"""))
r('style-table', 'C21', (CL, """        if (m_style & allow_long)
            return allow_long;
""", """        const bool long_on = (m_style & allow_long) != 0;
        if (long_on)
            return allow_long;
"""))
r('pos-range', 'C08', (PO, """        if (max_count == -1)
            m_trailing = name;
        else {
            m_names.resize(m_names.size() + max_count, name);
        }
        return *this;""", """        if (max_count != -1)
            m_names.insert(m_names.end(), max_count, name);
        else
            m_trailing = name;
        return *this;"""), (PO, """        if (position < m_names.size())
            return m_names[position];
        else
            return m_trailing;
""", """        return position < m_names.size() ? m_names[position] : m_trailing;
"""))
r('match-swap', 'C05', (OD, """                if ((result == no_match) && (*local_long_name.rbegin() == '*'))
                {
                    // The name ends with '*'. Any specified name with the given
                    // prefix is OK.
                    if (local_option.find(local_long_name.substr(0, local_long_name.length()-1))
                        == 0)
                        result = approximate_match;
                }

                if (local_long_name == local_option)
                {
                    result = full_match;
                    break;
                }
                else if (approx)
                {
                    if (local_long_name.find(local_option) == 0)
                    {
                        result = approximate_match;
                    }
                }
""", """                if (local_option == local_long_name)
                {
                    result = full_match;
                    break;
                }

                const std::string::size_type stem = local_long_name.length() - 1;
                if (local_long_name[stem] == '*' && local_option.compare(0, stem, local_long_name, 0, stem) == 0)
                    result = approximate_match;
                if (approx && local_long_name.compare(0, local_option.size(), local_option) == 0)
                    result = approximate_match;
"""))
r('match-range', 'C05', (OD, """        for(std::vector<std::string>::const_iterator it(m_long_names.begin()); it != m_long_names.end(); it++)
        {
            std::string local_long_name((long_ignore_case ? tolower_(*it) : *it));

            if (!local_long_name.empty()) {
""", """        for (std::size_t n = 0; n < m_long_names.size(); ++n)
        {
            const std::string local_long_name(long_ignore_case ? tolower_(m_long_names[n]) : m_long_names[n]);

            if (!local_long_name.empty()) {
"""))
r('lower-transform', 'C05', (OD, """           std::basic_string< charT > result;
           for (typename std::basic_string< charT >::size_type i = 0; i < str.size(); ++i)
           {
               result.append(1, static_cast< charT >(std::tolower(str[i])));
           }   
           return result;""", """           std::basic_string< charT > result(str);
           for (typename std::basic_string< charT >::size_type i = 0; i < result.size(); ++i)
               result[i] = static_cast< charT >(std::tolower(result[i]));
           return result;"""))
r('find-range', 'C05', (OD, """            option_description::match_result r = 
                m_options[i]->match(name, approx, long_ignore_case, short_ignore_case);

            if (r == option_description::no_match)
                continue;

            if (r == option_description::full_match)
            {                
                full_matches.push_back(m_options[i]->key(name));
                found = m_options[i];
                had_full_match = true;
            } 
            else 
            {                        
                // FIXME: the use of 'key' here might not
                // be the best approach.
                approximate_matches.push_back(m_options[i]->key(name));
                if (!had_full_match)
                    found = m_options[i];
            }
""", """            const shared_ptr<option_description>& candidate = m_options[i];
            switch (candidate->match(name, approx, long_ignore_case, short_ignore_case))
            {
            case option_description::full_match:
                full_matches.push_back(candidate->key(name));
                found = candidate;
                had_full_match = true;
                break;
            case option_description::approximate_match:
                approximate_matches.push_back(candidate->key(name));
                if (!had_full_match)
                    found = candidate;
                break;
            case option_description::no_match:
                break;
            }
"""))
r('names-order', 'C06', (OD, """        bool try_interpreting_last_name_as_a_switch = m_long_names.size() > 1;
        if (try_interpreting_last_name_as_a_switch) {
            const std::string& last_name = *m_long_names.rbegin();
            if (last_name.length() == 1) {
                m_short_name = '-' + last_name;
                m_long_names.pop_back();
                // The following caters to the (valid) input of ",c" for some
                // character c, where the caller only wants this option to have
                // a short name.
                if (m_long_names.size() == 1 && (*m_long_names.begin()).empty()) {
                    m_long_names.clear();
                }
            }
        }
""", """        if (m_long_names.size() > 1 && m_long_names.back().length() == 1) {
            m_short_name = "-" + m_long_names.back();
            m_long_names.pop_back();
            // ",c": only a short name is wanted
            if (m_long_names.size() == 1 && m_long_names.front().empty())
                m_long_names.clear();
        }
"""))
r('key-flat', 'C06 C05', (OD, """        if (!m_long_names.empty()) {
            const std::string& first_long_name = *m_long_names.begin();
            if (first_long_name.find('*') != string::npos)
                // The '*' character means we're long_name
                // matches only part of the input. So, returning
                // long name will remove some of the information,
                // and we have to return the option as specified
                // in the source.
                return option;
            else
                return first_long_name;
        }
        else
            return m_short_name;
""", """        if (m_long_names.empty())
            return m_short_name;
        const std::string& first_long_name = m_long_names[0];
        return first_long_name.find('*') == string::npos ? first_long_name : option;
"""))
r('display-switch', 'C06 C10', (OD, """        if (!m_long_names.empty())
        {
            if (prefix_style == command_line_style::allow_long)
                return "--" + *m_long_names.begin();
            if (prefix_style == command_line_style::allow_long_disguise)
                return "-" + *m_long_names.begin();
        }
""", """        if (!m_long_names.empty() && prefix_style == command_line_style::allow_long)
            return "--" + m_long_names.front();
        if (!m_long_names.empty() && prefix_style == command_line_style::allow_long_disguise)
            return "-" + m_long_names.front();
"""))
r('conf-strip', 'C12 C14', (CF, """            // strip '#' comments and whitespace
            if ((n = s.find('#')) != string::npos)
                s = s.substr(0, n);
            s = trim_ws(s);
""", """            s = strip(s);
"""), (CF, """    void common_config_file_iterator::get()
    {
""", """    namespace {
        // removes a '#' comment and the whitespace around
        string strip(const string& line)
        {
            return trim_ws(line.substr(0, line.find('#')));
        }
    }

    void common_config_file_iterator::get()
    {
"""))
r('conf-continue', 'C12', (CF, """            if (!s.empty()) {
                // Handle section name
                if (*s.begin() == '[' && *s.rbegin() == ']') {
""", """            if (s.empty())
                continue;
            {
                // Handle section name
                if (s[0] == '[' && s[s.size()-1] == ']') {
"""), (CF, """                    this->value().string_key = name;
                    this->value().value.clear();
                    this->value().value.push_back(value);
                    this->value().unregistered = !registered;
                    this->value().original_tokens.clear();
                    this->value().original_tokens.push_back(name);
                    this->value().original_tokens.push_back(value);
""", """                    option& o = this->value();
                    o.unregistered = !registered;
                    o.string_key = name;
                    o.value.assign(1, value);
                    o.original_tokens.assign(1, name);
                    o.original_tokens.push_back(value);
"""))
r('conf-trim', 'C12', (CF, """            string::size_type n, n2;
            n = s.find_first_not_of(" \\t\\r\\n");
            if (n == string::npos)
                return string();
            else {
                n2 = s.find_last_not_of(" \\t\\r\\n");
                return s.substr(n, n2-n+1);
            }
""", """            const char* const blanks = " \\t\\r\\n";
            const string::size_type first = s.find_first_not_of(blanks);
            if (first == string::npos)
                return "";
            const string::size_type last = s.find_last_not_of(blanks);
            return string(s, first, last + 1 - first);
"""))
r('conf-allowed', 'C13', (CF, """        set<string>::const_iterator i = allowed_options.find(s);
        if (i != allowed_options.end())
            return true;        
""", """        if (allowed_options.count(s) != 0)
            return true;
        set<string>::const_iterator i;
"""), (CF, """        if (i != allowed_prefixes.begin() && s.find(*--i) == 0)
            return true;
        return false;
""", """        if (i == allowed_prefixes.begin())
            return false;
        --i;
        return s.compare(0, i->size(), *i) == 0;
"""))
r('conf-bad', 'C13', (CF, """            if (i != allowed_prefixes.end()) {
                if (i->find(s) == 0)
                    bad_prefixes = true;                    
            }
""", """            if (i != allowed_prefixes.end() && i->compare(0, s.size(), s) == 0)
                bad_prefixes = true;
"""))
r('env-early', 'C14', (PA, """            if (!option_name.empty()) {
                option n;
                n.string_key = option_name;
                n.value.push_back(i->second);
                result.options.push_back(n);
            }                
""", """            if (option_name.empty())
                continue;
            option n;
            n.value.push_back(i->second);
            n.string_key = option_name;
            result.options.push_back(n);
"""), (PA, """                string result;
                if (s.find(prefix) == 0) {
                    for(string::size_type n = prefix.size(); n < s.size(); ++n) 
""", """                string result;
                if (s.compare(0, prefix.size(), prefix) == 0) {
                    for(string::size_type n = prefix.size(); n < s.size(); ++n) 
"""))
r('split-for', 'C15', (SP, """      for (typename tokenizerT::iterator cur_token(tok.begin()), end_token(tok.end()); cur_token != end_token; ++cur_token) {
         if (!cur_token->empty())
            result.push_back(*cur_token);
      }
""", """      typename tokenizerT::iterator cur_token(tok.begin());
      const typename tokenizerT::iterator end_token(tok.end());
      while (cur_token != end_token) {
         const std::basic_string<charT>& field = *cur_token;
         if (field.size() != 0)
            result.push_back(field);
         ++cur_token;
      }
"""))
r('winm-flag', 'C23', (WM, """                    if (backslash_count) {
                        current.append(backslash_count, '\\\\');
                        backslash_count = 0;
                    }
                    if (isspace((unsigned char)*i) && !inside_quoted) {
""", """                    current.append(backslash_count, '\\\\');
                    backslash_count = 0;
                    if (!inside_quoted && isspace((unsigned char)*i)) {
"""), (WM, """                    if (backslash_count % 2 == 0) {
                        current.append(backslash_count / 2, '\\\\');
                        empty_quote""", """                    const bool delimiter = backslash_count % 2 == 0;
                    if (delimiter) {
                        current.append(backslash_count / 2, '\\\\');
                        empty_quote"""))
r('winm-skip', 'C23', (WM, """        for(;i != e; ++i)
            if (!isspace((unsigned char)*i))
                break;
""", """        while (i != e && isspace((unsigned char)*i))
            ++i;
"""))
r('conv-order', 'C16', (CV, """        while(from != from_end) {
            
""", """        while(from_end - from > 0) {
            
"""), (CV, """            result.append(buffer, to_next);
        }
        
        return result;        """, """            result += std::basic_string<ToChar>(buffer, to_next);
        }
        
        return result;        """))
r('woption-loop', 'C16', (PA, """            std::transform(opt.value.begin(), opt.value.end(),
                           back_inserter(result.value),
                           boost::bind(from_utf8, _1));
""", """            for (unsigned i = 0; i < opt.value.size(); ++i)
                result.value.push_back(from_utf8(opt.value[i]));
"""))
r('bool-helper', 'C17 C22', (VS, """    /* Validates bool value.
""", """    namespace {
        bool one_of(const std::string& s, const char* a, const char* b, const char* c, const char* d)
        {
            return s == a || s == b || s == c || s == d;
        }
    }

    /* Validates bool value.
"""), (VS, """        if (s.empty() || s == "on" || s == "yes" || s == "1" || s == "true")
            v = any(true);
        else if (s == "off" || s == "no" || s == "0" || s == "false")
            v = any(false);
        else
            boost::throw_exception(invalid_bool_value(s));
""", """        const bool yes = s.empty() || one_of(s, "on", "yes", "1", "true");
        if (!yes && !one_of(s, "off", "no", "0", "false"))
            boost::throw_exception(invalid_bool_value(s));
        v = any(yes);
"""))
r('parse-utf8', 'C16 C17', (VS, """            for (unsigned i = 0; i < new_tokens.size(); ++i) {
                std::wstring w = from_utf8(new_tokens[i]);
                local_tokens.push_back(to_local_8_bit(w));
            }
""", """            for (std::vector<std::string>::const_iterator i = new_tokens.begin(); i != new_tokens.end(); ++i)
                local_tokens.push_back(to_local_8_bit(from_utf8(*i)));
"""))
r('untyped', 'C17 C22', (VS, """        if (!value_store.empty()) 
            boost::throw_exception(
                multiple_occurrences());
        if (new_tokens.size() > 1)
            boost::throw_exception(multiple_values());
        value_store = new_tokens.empty() ? std::string("") : new_tokens.front();
""", """        validators::check_first_occurrence(value_store);
        if (new_tokens.size() > 1)
            boost::throw_exception(multiple_values());
        std::string text;
        if (!new_tokens.empty())
            text = new_tokens[0];
        value_store = text;
"""))
r('single', 'C17', (VSH, """            if (v.size() > 1)
                boost::throw_exception(validation_error(validation_error::multiple_values_not_allowed));
            else if (v.size() == 1)
                return v.front();
            else if (!allow_empty)
                boost::throw_exception(validation_error(validation_error::at_least_one_value_required));
            return empty;
""", """            if (v.empty()) {
                if (!allow_empty)
                    boost::throw_exception(validation_error(validation_error::at_least_one_value_required));
                return empty;
            }
            if (v.size() != 1)
                boost::throw_exception(validation_error(validation_error::multiple_values_not_allowed));
            return v[0];
"""))
r('store-range', 'C09 C10', (VM, """            for (i = 0; i < options.options.size(); ++i) {

                option_name = options.options[i].string_key;
                // Skip positional options without name
                if (option_name.empty())
                    continue;

                // Ignore unregistered option. The 'unregistered'
                // field can be true only if user has explicitly asked
                // to allow unregistered options. We can't store them
                // to variables map (lacking any information about paring),
                // so just ignore them.
                if (options.options[i].unregistered)
                    continue;
""", """            for (i = 0; i < options.options.size(); ++i) {
                const option& given = options.options[i];

                option_name = given.string_key;
                // no positional options without name, no unregistered options
                if (given.unregistered || option_name.empty())
                    continue;
"""), (VM, """                variable_value& v = m[option_name];
                if (v.defaulted()) {
                    // Explicit assignment here erases defaulted value
                    v = variable_value();
                }

                d.semantic()->parse(v.value(), options.options[i].value, utf8);

                v.m_value_semantic = d.semantic();
""", """                variable_value& v = m[option_name];
                // Explicit assignment here erases defaulted value
                if (v.defaulted())
                    v = variable_value();

                const shared_ptr<const value_semantic> sem = d.semantic();
                sem->parse(v.value(), options.options[i].value, utf8);
                v.m_value_semantic = sem;
"""))
r('store-default', 'C09 C10', (VM, """            if (m.count(key) == 0) {

                boost::any def;
                if (d.semantic()->apply_default(def)) {
                    m[key] = variable_value(def, true);
                    m[key].m_value_semantic = d.semantic();
                }
            }
""", """            if (m.find(key) == m.end()) {

                boost::any def;
                if (d.semantic()->apply_default(def)) {
                    variable_value& v = m[key];
                    v = variable_value(def, true);
                    v.m_value_semantic = d.semantic();
                }
            }
"""))
r('store-helper', 'C10 C09', (VM, """                string canonical_name = d.canonical_display_name(options.m_options_prefix);
                if (canonical_name.length() > xm.m_required[key].length())
                    xm.m_required[key] = canonical_name;
""", """                const string canonical_name = d.canonical_display_name(options.m_options_prefix);
                string& seen = xm.m_required[key];
                if (seen.length() < canonical_name.length())
                    seen = canonical_name;
"""))
r('vm-index', 'C11', (VM, """        const variable_value& v = get(name);
        if (v.empty() && m_next)
            return (*m_next)[name];
        else if (v.defaulted() && m_next) {
            const variable_value& v2 = (*m_next)[name];
            if (!v2.empty() && !v2.defaulted())
                return v2;
            else return v;
        } else {
            return v;
        }
""", """        const variable_value& v = get(name);
        if (!m_next)
            return v;
        if (v.empty())
            return (*m_next)[name];
        if (!v.defaulted())
            return v;
        const variable_value& v2 = (*m_next)[name];
        return v2.empty() || v2.defaulted() ? v : v2;
"""))
r('vm-get', 'C11 C10', (VM, """        const_iterator i = this->find(name);
        if (i == this->end())
            return empty;
        else
            return i->second;
""", """        const const_iterator i = this->find(name);
        return i != this->end() ? i->second : empty;
"""), (VM, """            const string& opt = r->first;
            const string& display_opt = r->second;
            map<string, variable_value>::const_iterator iter = find(opt);
            if (iter == end() || iter->second.empty())
            {
                boost::throw_exception(required_option(display_opt));

            }
""", """            map<string, variable_value>::const_iterator iter = find(r->first);
            const bool given = iter != end() && !iter->second.empty();
            if (!given)
                boost::throw_exception(required_option(r->second));
"""))
r('err-token', 'C19', (VS, """            pos = m_message.find(from.c_str(), pos, from.length());
            // not found: all replaced
            if (pos == std::string::npos)
                return;
            m_message.replace(pos, from.length(), to);
""", """            pos = m_message.find(from, pos);
            // not found: all replaced
            if (pos == std::string::npos)
                return;
            m_message.erase(pos, from.length()).insert(pos, to);
"""))
r('err-name', 'C19', (VS, """        if (m_option_style == command_line_style::allow_long        || 
             m_option_style == command_line_style::allow_long_disguise)
            return get_canonical_option_prefix() + option_name;

        //  For short options use first letter of original_token
        if (m_option_style && original_token.length())
            return get_canonical_option_prefix() + original_token[0];
""", """        const string prefix = get_canonical_option_prefix();
        switch (m_option_style)
        {
        case command_line_style::allow_long:
        case command_line_style::allow_long_disguise:
            return prefix + option_name;
        default:
            break;
        }

        //  For short options use first letter of original_token
        if (m_option_style != 0 && !original_token.empty())
            return prefix + original_token.substr(0, 1);
"""))
r('err-alts', 'C19', (VS, """        if (alternatives_vec.size() > 1)
        {
            for (unsigned i = 0; i < alternatives_vec.size() - 1; ++i)
                m_message += "'" + prefix + alternatives_vec[i] + "', ";
            m_message += "and ";
        }
""", """        const std::size_t last = alternatives_vec.size() - 1;
        for (std::size_t i = 0; i < last; ++i)
            m_message += "'" + prefix + alternatives_vec[i] + "', ";
        if (last > 0)
            m_message += "and ";
"""))
r('help-pad', 'C20', (OD, """                        for(unsigned pad = indent; pad > 0; --pad)
                        {
                            os.put(' ');
                        }                                                        
""", """                        for (unsigned pad = 0; pad < indent; ++pad)
                            os.put(' ');
"""), (OD, """                if (ss.str().size() >= first_column_width)
                {
                   os.put('\\n'); // first column is too long, lets put description in new line
                   for (unsigned pad = first_column_width; pad > 0; --pad)
                   {
                      os.put(' ');
                   }
                } else {
                   for(unsigned pad = first_column_width - static_cast<unsigned>(ss.str().size()); pad > 0; --pad)
                   {
                      os.put(' ');
                   }
                }
""", """                unsigned used = static_cast<unsigned>(ss.str().size());
                if (used >= first_column_width)
                {
                   os.put('\\n'); // first column is too long, lets put description in new line
                   used = 0;
                }
                for (; used < first_column_width; ++used)
                   os.put(' ');
"""))
r('help-string', 'C20', (OD, """                        for(unsigned pad = indent; pad > 0; --pad)
                        {
                            os.put(' ');
                        }                                                        
""", """                        os << string(indent, ' ');
"""))
r('help-width', 'C20', (OD, """        const unsigned start_of_description_column = m_line_length - m_min_description_length;

        width = (min)(width, start_of_description_column-1);
        
        /* add an additional space to improve readability */
        ++width;
        return width;""", """        const unsigned start_of_description_column = m_line_length - m_min_description_length;

        if (width >= start_of_description_column)
            width = start_of_description_column - 1;
        
        /* add an additional space to improve readability */
        return width + 1;"""))
r('help-print', 'C20', (OD, """        for (unsigned i = 0; i < m_options.size(); ++i)
        {
            if (belong_to_group[i])
                continue;

            const option_description& opt = *m_options[i];

            format_one(os, opt, width, m_line_length);

            os << "\\n";
        }
""", """        for (unsigned i = 0; i < m_options.size(); ++i)
        {
            if (!belong_to_group[i])
            {
                format_one(os, *m_options[i], width, m_line_length);
                os << '\\n';
            }
        }
"""))
r('help-chop', 'C20', (OD, """                        if (last_space != line_begin)
                        {                 
                            // is last_space within the second half ot the 
                            // current line
                            if (static_cast<unsigned>(std::distance(last_space, line_end)) < 
                                (line_length / 2))
                            {
                                line_end = last_space;
                            }
                        }                                                
""", """                        const unsigned tail = static_cast<unsigned>(line_end - last_space);
                        if (last_space != line_begin && tail < line_length / 2)
                            line_end = last_space;
"""))

# ---- second set: x-… ----------------------------------------------------------------------------------
r('x-check-style', 'C21', (CL, """        if (!error && (style & allow_short) &&
            !(style & allow_dash_for_short) && !(style & allow_slash_for_short))
            error =""", """        const bool some_prefix = (style & (allow_dash_for_short | allow_slash_for_short)) != 0;
        if (error == 0 && (style & allow_short) && !some_prefix)
            error ="""), (CL, """        bool allow_some_long = 
            (style & allow_long) || (style & allow_long_disguise);
""", """        const bool allow_some_long = (style & (allow_long | allow_long_disguise)) != 0;
"""))
r('x-prefix', 'C21 C01', (CL, """        if ((m_style & allow_short) && (m_style & allow_dash_for_short))
            return allow_dash_for_short;

        if ((m_style & allow_short) && (m_style & allow_slash_for_short))
            return allow_slash_for_short;

        return 0;
""", """        if (!(m_style & allow_short))
            return 0;
        if (m_style & allow_dash_for_short)
            return allow_dash_for_short;
        return (m_style & allow_slash_for_short) ? int(allow_slash_for_short) : 0;
"""))
r('x-run-iter', 'C04 C21 C18', (CL, """            for(unsigned i = 0; i < style_parsers.size(); ++i)
            {
                unsigned current_size = static_cast<unsigned>(args.size());
                vector<option> next = style_parsers[i](args);
""", """            for(vector<style_parser>::iterator p = style_parsers.begin(); p != style_parsers.end(); ++p)
            {
                const size_t current_size = args.size();
                vector<option> next = (*p)(args);
"""))
r('x-run-cond', 'C04 C21', (CL, """            for(unsigned i = 0; i < style_parsers.size(); ++i)
            {
                unsigned""", """            for(unsigned i = 0; !ok && i < style_parsers.size(); ++i)
            {
                unsigned"""), (CL, """                if (args.size() != current_size) {
                    ok = true;
                    break;                
                } 
""", """                ok = args.size() != current_size;
"""))
r('x-run-pos', 'C04 C08', (CL, """    vector<option>
    cmdline::run()
    {
""", """    namespace {
        option positional_option(const string& token)
        {
            option opt;
            opt.original_tokens.push_back(token);
            opt.value.push_back(token);
            return opt;
        }
    }

    vector<option>
    cmdline::run()
    {
"""), (CL, """                option opt;
                opt.value.push_back(args[0]);
                opt.original_tokens.push_back(args[0]);
                result.push_back(opt);
                args.erase(args.begin());
            }
        }

        /* If an""", """                result.push_back(positional_option(args.front()));
                args.erase(args.begin());
            }
        }

        /* If an"""))
r('x-run-absorb2', 'C03 C07 C08', (CL, """                for (; can_take_more && j < result.size(); --can_take_more, ++j)
                {
                    option& opt2 = result[j];
                    if (!opt2.string_key.empty())
                        break;

                    if (opt2.position_key == INT_MAX)
                    {
                        // We use INT_MAX to mark positional options that
                        // were found after the '--' terminator and therefore
                        // should stay positional forever.
                        break;
                    }
""", """                for (; can_take_more > 0 && j != result.size(); ++j)
                {
                    const option& opt2 = result[j];
                    // named options, and positional options that were found
                    // after the '--' terminator, stay what they are
                    if (!opt2.string_key.empty() || opt2.position_key == INT_MAX)
                        break;
                    --can_take_more;
"""))
r('x-long-order', 'C01 C04', (CL, """            string name, adjacent;

            string::size_type p = tok.find('=');
            if (p != tok.npos)
            {
                name = tok.substr(2, p-2);
                adjacent = tok.substr(p+1);
                if (adjacent.empty())
""", """            string name(tok, 2), adjacent;

            string::size_type p = tok.find('=');
            const bool has_value = p != string::npos;
            if (has_value)
            {
                name = string(tok.begin() + 2, tok.begin() + p);
                adjacent.assign(tok, p + 1, string::npos);
                if (adjacent.size() == 0)
"""), (CL, """            else
            {
                name = tok.substr(2);
            }
            option opt;
            opt.string_key = name;
            if (!adjacent""", """            option opt;
            opt.string_key = name;
            if (!adjacent"""))
r('x-finish-order', 'C07 C18', (CL, """                if (opt.value.size() <= min_tokens) 
                {
                    min_tokens -= static_cast<unsigned>(opt.value.size());
                }
                else
                {
                    min_tokens = 0;
                }
""", """                const unsigned own = static_cast<unsigned>(opt.value.size());
                min_tokens = own < min_tokens ? min_tokens - own : 0;
"""))
r('x-finish-throw', 'C07 C18 C04', (CL, """            if (present_tokens >= min_tokens)
            {
                if (!opt.value.empty() && max_tokens == 0) 
                {
                    boost::throw_exception(
                        invalid_command_line_syntax(invalid_command_line_syntax::extra_parameter));
                }
                
""", """            if (present_tokens >= min_tokens && max_tokens == 0 && opt.value.size() > 0)
            {
                boost::throw_exception(
                    invalid_command_line_syntax(invalid_command_line_syntax::extra_parameter));
            }
            if (present_tokens >= min_tokens)
            {
"""))
r('x-finish-local', 'C07 C18 C04', (CL, """                    opt.value.push_back(other_tokens[0]);
                    opt.original_tokens.push_back(other_tokens[0]);
                    other_tokens.erase(other_tokens.begin());
""", """                    const string token = other_tokens.front();
                    other_tokens.erase(other_tokens.begin());
                    opt.original_tokens.push_back(token);
                    opt.value.push_back(token);
"""))
r('x-pos-loop', 'C08', (PO, """            m_names.resize(m_names.size() + max_count, name);
""", """            m_names.insert(m_names.end(), max_count, name);
"""), (PO, """        return m_trailing.empty() ? 
          static_cast<unsigned>(m_names.size()) : (std::numeric_limits<unsigned>::max)();
""", """        if (!m_trailing.empty())
            return (std::numeric_limits<unsigned>::max)();
        return static_cast<unsigned>(m_names.size());
"""))
r('x-match-compare', 'C05', (OD, """                    if (local_option.find(local_long_name.substr(0, local_long_name.length()-1))
                        == 0)
                        result""", """                    const std::string stem(local_long_name, 0, local_long_name.size() - 1);
                    if (local_option.compare(0, stem.size(), stem) == 0)
                        result"""), (OD, """        if (result != full_match)
        {
            std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
            std::string local_short_option(short_ignore_case ? tolower_(option) : option);

            if (local_short_name == local_short_option)
            {
                result = full_match;
            }
        }

        return result;        
""", """        if (result == full_match)
            return full_match;

        const bool same = short_ignore_case
            ? tolower_(m_short_name) == tolower_(option)
            : m_short_name == option;
        return same ? full_match : result;
"""))
r('x-find-count', 'C05', (OD, """        shared_ptr<option_description> found;
        bool had_full_match = false;
""", """        const option_description* found = 0;
"""), (OD, """                found = m_options[i];
                had_full_match = true;
""", """                found = m_options[i].get();
"""), (OD, """                if (!had_full_match)
                    found = m_options[i];
""", """                if (full_matches.empty())
                    found = m_options[i].get();
"""), (OD, "        return found.get();\n", "        return found;\n"))
r('x-display', 'C06 C10', (OD, """        // We prefer the first long name over any others
        if (!m_long_names.empty())
        {
            if (prefix_style == command_line_style::allow_long)
                return "--" + *m_long_names.begin();
            if (prefix_style == command_line_style::allow_long_disguise)
                return "-" + *m_long_names.begin();
        }
""", """        // We prefer the first long name over any others
        const bool has_long = !m_long_names.empty();
        if (has_long && prefix_style == command_line_style::allow_long)
            return string("--").append(m_long_names.front());
        if (has_long && prefix_style == command_line_style::allow_long_disguise)
            return string(1, '-').append(m_long_names.front());
"""), (OD, """        if (!m_long_names.empty())
            return *m_long_names.begin();
        else
            return m_short_name;
    }


    const std::string&
    option_description::long_name""", """        return has_long ? m_long_names.front() : m_short_name;
    }


    const std::string&
    option_description::long_name"""))
r('x-format-name', 'C06 C20', (OD, """        if (!m_short_name.empty())
        {
            return m_long_names.empty()
                ? m_short_name 
                : string(m_short_name).append(" [ --").
                  append(*m_long_names.begin()).append(" ]");
        }
        return string("--").append(*m_long_names.begin());
""", """        if (m_short_name.empty())
            return "--" + m_long_names.front();
        if (m_long_names.empty())
            return m_short_name;
        return m_short_name + " [ --" + m_long_names.front() + " ]";
"""))
r('x-conf-section', 'C12', (CF, """                if (*s.begin() == '[' && *s.rbegin() == ']') {
                    m_prefix = s.substr(1, s.size()-2);
                    if (m_prefix.empty() || *m_prefix.rbegin() != '.')
                        m_prefix += '.';
                }
""", """                if (s[0] == '[' && s[s.size() - 1] == ']') {
                    string section(s, 1, s.size() - 2);
                    if (section.empty() || section[section.size() - 1] != '.')
                        section.push_back('.');
                    m_prefix.swap(section);
                }
"""))
r('x-conf-value', 'C12 C13', (CF, """                    this->value().string_key = name;
                    this->value().value.clear();
                    this->value().value.push_back(value);
                    this->value().unregistered = !registered;
                    this->value().original_tokens.clear();
                    this->value().original_tokens.push_back(name);
                    this->value().original_tokens.push_back(value);
                    break;
""", """                    option& opt = this->value();
                    opt.unregistered = !registered;
                    opt.string_key = name;
                    opt.value.assign(1, value);
                    opt.original_tokens.clear();
                    opt.original_tokens.push_back(name);
                    opt.original_tokens.push_back(value);
                    break;
"""))
r('x-conf-return', 'C12 C13', (CF, """                    this->value().original_tokens.push_back(value);
                    break;
""", """                    this->value().original_tokens.push_back(value);
                    return;
"""), (CF, """        if (!found)
            found_eof();
""", """        found_eof();
"""), (CF, "                    found = true;\n", ""), (CF, "        bool found = false;\n", ""))
r('x-conf-eof', 'C12 C13', (CF, "        while(this->getline(s)) {\n", "        while(!found && this->getline(s)) {\n"), (CF, """                    this->value().original_tokens.push_back(value);
                    break;
""", """                    this->value().original_tokens.push_back(value);
"""))
r('x-conf-add', 'C13', (CF, """            bool bad_prefixes(false);
            // If 's'""", """            // If 's'"""), (CF, """            if (i != allowed_prefixes.end()) {
                if (i->find(s) == 0)
                    bad_prefixes = true;                    
            }
            if (i""", """            bool bad_prefixes = i != allowed_prefixes.end() && i->compare(0, s.size(), s) == 0;
            if (i"""))
r('x-env-while', 'C14', (PA, """        for(environment_iterator i(environ), e; i != e; ++i) {
            string option_name = name_mapper(i->first);
""", """        environment_iterator i(environ), e;
        for(; i != e; ++i) {
            const std::string& variable = i->first;
            string option_name = name_mapper(variable);
"""), (PA, """                if (s.find(prefix) == 0) {
                    for(string::size_type n = prefix.size(); n < s.size(); ++n) 
                    {   
                        // Intel-Win-7.1 does not understand
            // push_back on string.         
                        result += static_cast<char>(tolower(s[n]));
                    }
                }
                return result;
""", """                if (s.compare(0, prefix.size(), prefix) != 0)
                    return result;
                result = s.substr(prefix.size());
                for(string::size_type n = 0; n < result.size(); ++n)
                    result[n] = static_cast<char>(tolower(result[n]));
                return result;
"""))
r('x-conf-desc', 'C13 C12', (PA, """        for (unsigned i = 0; i < options.size(); ++i)
        {
            const option_description& d = *options[i];

            if (d.long_name().empty())
                boost::throw_exception(
                    error("abbreviated option names are not permitted in options configuration files"));

            allowed_options.insert(d.long_name());
        }
""", """        for (vector<shared_ptr<option_description> >::const_iterator i = options.begin(); i != options.end(); ++i)
        {
            const string& name = (*i)->long_name();
            if (name.empty())
                boost::throw_exception(
                    error("abbreviated option names are not permitted in options configuration files"));
            allowed_options.insert(name);
        }
"""))
r('x-conf-file', 'C12', (PA, """        basic_parsed_options<charT> result
                = parse_config_file(strm, desc, allow_unregistered);

        if (strm.bad())""", """        const basic_parsed_options<charT> result(
            parse_config_file(strm, desc, allow_unregistered));

        const bool failed = strm.bad();
        if (failed)"""))
r('x-wopt-range', 'C16', (PA, """            std::transform(opt.original_tokens.begin(), 
                           opt.original_tokens.end(),
                           back_inserter(result.original_tokens),
                           boost::bind(from_utf8, _1));
""", """            for (size_t i = 0; i < opt.original_tokens.size(); ++i)
                result.original_tokens.push_back(from_utf8(opt.original_tokens[i]));
"""), (PA, """        for (unsigned i = 0; i < po.options.size(); ++i)
            options.push_back(woption_from_option(po.options[i]));
""", """        for (vector<option>::const_iterator i = po.options.begin(); i != po.options.end(); ++i)
            options.push_back(woption_from_option(*i));
"""))
r('x-split-while', 'C15', (SP, """      for (typename tokenizerT::iterator cur_token(tok.begin()), end_token(tok.end()); cur_token != end_token; ++cur_token) {
         if (!cur_token->empty())
            result.push_back(*cur_token);
      }
""", """      typename tokenizerT::iterator cur_token = tok.begin();
      const typename tokenizerT::iterator end_token = tok.end();
      while (cur_token != end_token) {
         const std::basic_string<charT>& token = *cur_token;
         if (token.size() != 0)
            result.push_back(token);
         ++cur_token;
      }
"""))
r('x-winm-half', 'C23', (WM, """                    if (backslash_count % 2 == 0) {
                        current.append(backslash_count / 2, '\\\\');
                        empty_quote = inside_quoted && current.empty();
                        inside_quoted = !inside_quoted;
                        // '"' preceded by odd number (n) of backslashes generates
                        // (n-1)/2 backslashes and is literal quote.
                    } else {
                        current.append(backslash_count / 2, '\\\\');                
                        current += '"';                
                    }
""", """                    current.append(backslash_count / 2, '\\\\');
                    if (backslash_count % 2 != 0) {
                        current.push_back('"');
                    } else {
                        empty_quote = inside_quoted && current.empty();
                        inside_quoted = !inside_quoted;
                    }
"""))
r('x-winm-early', 'C23', (WM, """                    if (isspace((unsigned char)*i) && !inside_quoted) {
                        // Space""", """                    if (!inside_quoted && isspace((unsigned char)*i)) {
                        // Space"""), (WM, """                        result.push_back(current);
                        current.resize(0);
                        empty_quote = false; 
""", """                        result.push_back(current);
                        current.clear();
                        empty_quote = false; 
"""))
r('x-winm-wide', 'C23', (WM, """        std::vector<std::string> aux = split_winmain(to_internal(cmdline));
        for (size_t i = 0, e = aux.size(); i < e; ++i)
            result.push_back(from_utf8(aux[i]));
        return result;        
""", """        const std::vector<std::string> aux = split_winmain(to_internal(cmdline));
        for (std::vector<std::string>::const_iterator i = aux.begin(); i != aux.end(); ++i)
            result.push_back(from_utf8(*i));
        return result;
"""))
r('x-conv-size', 'C16', (CV, """            if (r == std::codecvt_base::error)
                boost::throw_exception(
                    std::logic_error("character conversion failed"));
""", ""), (CV, """            if (to_next == buffer)
                boost::throw_exception(""", """            if (r == std::codecvt_base::error || to_next == buffer)
                boost::throw_exception("""))
r('x-bool-set', 'C17', (VS, """        if (s.empty() || s == "on" || s == "yes" || s == "1" || s == "true")
            v = any(true);
        else if (s == "off" || s == "no" || s == "0" || s == "false")
            v = any(false);
        else
            boost::throw_exception(invalid_bool_value(s));
    }

    // This is""", """        const bool yes = s.empty() || s == "1" || s == "on" || s == "yes" || s == "true";
        const bool no = s == "0" || s == "no" || s == "off" || s == "false";
        if (!yes && !no)
            boost::throw_exception(invalid_bool_value(s));
        v = any(yes);
    }

    // This is"""))
r('x-vector-range', 'C17', (VSH, """        for (unsigned i = 0; i < s.size(); ++i)
        {
            try {
                /* We""", """        for (size_t i = 0, e = s.size(); i != e; ++i)
        {
            try {
                /* We"""), (VSH, """                std::vector<std::basic_string<charT> > cv;
                cv.push_back(s[i]);
                validate""", """                const std::vector<std::basic_string<charT> > cv(1, s[i]);
                validate"""))
r('x-xparse', 'C17', (VSH, """        if (new_tokens.empty() && !m_implicit_value.empty())
            value_store = m_implicit_value;
        else
            validate(value_store, new_tokens, (T*)0, 0);
""", """        const bool take_implicit = !m_implicit_value.empty() && new_tokens.empty();
        if (!take_implicit) {
            validate(value_store, new_tokens, (T*)0, 0);
            return;
        }
        value_store = m_implicit_value;
"""))
r('x-name', 'C20', (VSH, """        if (!m_implicit_value.empty() && !m_implicit_value_as_text.empty()) {
            std::string msg = "[=" + var + "(=" + m_implicit_value_as_text + ")]";
            if (!m_default_value.empty() && !m_default_value_as_text.empty())
                msg += " (=" + m_default_value_as_text + ")";
            return msg;
        }
        else if (!m_default_value.empty() && !m_default_value_as_text.empty()) {
            return var + " (=" + m_default_value_as_text + ")";
        } else {
            return var;
        }
""", """        std::string msg = var;
        if (!m_implicit_value.empty() && !m_implicit_value_as_text.empty())
            msg = "[=" + var + "(=" + m_implicit_value_as_text + ")]";
        if (!m_default_value.empty() && !m_default_value_as_text.empty())
            msg += " (=" + m_default_value_as_text + ")";
        return msg;
"""))
VSP = 'include/boost/program_options/value_semantic.hpp'
r('x-tokens', 'C22', (VSP, """            if (m_zero_tokens || !m_implicit_value.empty()) {
                return 0;
            } else {
                return 1;
            }
""", """            return (!m_implicit_value.empty() || m_zero_tokens) ? 0 : 1;
"""), (VSP, """            } else if (m_zero_tokens) {
                return 0;
            } else {
                return 1;
            }
        }

        bool is_required() const { return m_required; }
""", """            }
            return m_zero_tokens ? 0 : 1;
        }

        bool is_required() const { return m_required; }
"""))
r('x-notify', 'C22', (VSH, """        if (m_store_to) {
            *m_store_to = *value;
        }
        if (m_notifier) {
            m_notifier(*value);
        }
""", """        const T& held = *value;
        if (m_store_to != 0)
            *m_store_to = held;
        if (!m_notifier.empty())
            m_notifier(held);
"""))
r('x-codecvt', 'C16 C17', (VS, """        std::vector<wstring> tokens;
        if (utf8) {
            // Convert from utf8
            for (unsigned i = 0; i < new_tokens.size(); ++i) {
                tokens.push_back(from_utf8(new_tokens[i]));
            }
               
        } else {
            // Convert from local encoding
            for (unsigned i = 0; i < new_tokens.size(); ++i) {
                tokens.push_back(from_local_8_bit(new_tokens[i]));
            }
        }      
""", """        std::vector<wstring> tokens;
        for (size_t i = 0; i < new_tokens.size(); ++i)
            tokens.push_back(utf8 ? from_utf8(new_tokens[i]) : from_local_8_bit(new_tokens[i]));
"""))
r('x-collect', 'C18', ('include/boost/program_options/detail/parsers.hpp', """            if (options[i].unregistered ||
                (mode == include_positional && options[i].position_key != -1))
            {
                copy(options[i].original_tokens.begin(),
                     options[i].original_tokens.end(),
                     back_inserter(result));
            }
""", """            const basic_option<charT>& opt = options[i];
            const bool wanted_position = mode == include_positional && opt.position_key != -1;
            if (!opt.unregistered && !wanted_position)
                continue;
            result.insert(result.end(), opt.original_tokens.begin(), opt.original_tokens.end());
"""))
r('x-store-final', 'C09', (VM, """                // If option has final value, skip this assignment
                if (xm.m_final.count(option_name))
                    continue;
""", """                // If option has final value, skip this assignment
                if (xm.m_final.find(option_name) != xm.m_final.end())
                    continue;
"""), (VM, """                original_token = options.options[i].original_tokens.size() ?
                                        options.options[i].original_tokens[0]     : "";
""", """                const std::vector<std::string>& tokens = options.options[i].original_tokens;
                if (tokens.empty())
                    original_token.clear();
                else
                    original_token = tokens.front();
"""))
r('x-store-skip', 'C09 C10', (VM, """                if (option_name.empty())
                    continue;

                // Ignore""", """                // Ignore"""), (VM, """                if (options.options[i].unregistered)
                    continue;
""", """                if (option_name.empty() || options.options[i].unregistered)
                    continue;
"""))
r('x-store-required', 'C10', (VM, """                string canonical_name = d.canonical_display_name(options.m_options_prefix);
                if (canonical_name.length() > xm.m_required[key].length())
                    xm.m_required[key] = canonical_name;
""", """                const string canonical_name = d.canonical_display_name(options.m_options_prefix);
                string& shown = xm.m_required[key];
                if (shown.length() < canonical_name.length())
                    shown = canonical_name;
"""))
r('x-store-insert', 'C09 C10', (VM, """                    m[key] = variable_value(def, true);
                    m[key].m_value_semantic = d.semantic();
""", """                    variable_value& stored = m[key];
                    stored = variable_value(def, true);
                    stored.m_value_semantic = d.semantic();
"""))
r('x-notify-range', 'C10', (VM, """            const string& opt = r->first;
            const string& display_opt = r->second;
            map<string, variable_value>::const_iterator iter = find(opt);
            if (iter == end() || iter->second.empty())
            {
                boost::throw_exception(required_option(display_opt));

            }
""", """            map<string, variable_value>::const_iterator iter = find(r->first);
            const bool present = iter != end() && !iter->second.empty();
            if (!present)
                boost::throw_exception(required_option(r->second));
"""), (VM, """            if (k->second.m_value_semantic)
                k->second.m_value_semantic->notify(k->second.value());
""", """            variable_value& entry = k->second;
            if (!entry.m_value_semantic)
                continue;
            entry.m_value_semantic->notify(entry.value());
"""))
r('x-vm-op', 'C11', (VM, """        const variable_value& v = get(name);
        if (v.empty() && m_next)
            return (*m_next)[name];
        else if (v.defaulted() && m_next) {
            const variable_value& v2 = (*m_next)[name];
            if (!v2.empty() && !v2.defaulted())
                return v2;
            else return v;
        } else {
            return v;
        }
""", """        const variable_value& v = get(name);
        if (!m_next || (!v.empty() && !v.defaulted()))
            return v;
        const variable_value& v2 = (*m_next)[name];
        if (v.empty())
            return v2;
        const bool explicit_value = !v2.empty() && !v2.defaulted();
        return explicit_value ? v2 : v;
"""))
r('x-err-repl', 'C19', (VS, """        for (;;)
        {
            pos = m_message.find(from.c_str(), pos, from.length());
            // not found: all replaced
            if (pos == std::string::npos)
                return;
            m_message.replace(pos, from.length(), to);
            // go on after the inserted text: it may itself contain 'from'
            pos += to.length();
        }
""", """        while ((pos = m_message.find(from, pos)) != std::string::npos)
        {
            m_message.replace(pos, from.size(), to);
            pos += to.size();
        }
"""))
r('x-err-defaults', 'C19', (VS, """            // missing parameter: use default
            if (substitutions.count(iter->first) == 0 ||
                substitutions[iter->first].length() == 0)
                replace_token(iter->second.first, iter->second.second);
""", """            map<string, string>::const_iterator given = substitutions.find(iter->first);
            const bool missing = given == substitutions.end() || given->second.empty();
            if (missing)
                replace_token(iter->second.first, iter->second.second);
"""))
r('x-err-order', 'C19', (VS, """        string original_token   = strip_prefixes(m_substitutions.find("original_token")->second);
        string option_name      = strip_prefixes(m_substitutions.find("option")->second);
""", """        const string option_name      = strip_prefixes(m_substitutions.find("option")->second);
        const string original_token   = strip_prefixes(m_substitutions.find("original_token")->second);
"""), (VS, """        if (m_option_style && original_token.length())
            return get_canonical_option_prefix() + original_token[0];

        // no prefix
        return option_name;
""", """        if (m_option_style == 0 || original_token.empty())
            return option_name;     // no prefix
        return get_canonical_option_prefix() + original_token[0];
"""))
r('x-err-prefix', 'C19', (VS, """        switch (m_option_style)
        {
        case command_line_style::allow_dash_for_short:
            return "-";
        case command_line_style::allow_slash_for_short:
            return "/";
        case command_line_style::allow_long_disguise:
            return "-";
        case command_line_style::allow_long:
            return "--";
        case 0:
            return "";
        }
""", """        if (m_option_style == 0)
            return string();
        if (m_option_style == command_line_style::allow_long)
            return "--";
        if (m_option_style == command_line_style::allow_slash_for_short)
            return "/";
        if (m_option_style == command_line_style::allow_dash_for_short ||
            m_option_style == command_line_style::allow_long_disguise)
            return "-";
"""))
r('x-group', 'C20', (OD, """        for (size_t i = 0; i < desc.m_options.size(); ++i) {
            add(desc.m_options[i]);
            belong_to_group.back() = true;
        }
""", """        const vector<shared_ptr<option_description> >& added = desc.m_options;
        for (size_t i = 0; i != added.size(); ++i) {
            m_options.push_back(added[i]);
            belong_to_group.push_back(true);
        }
"""))

def main():
    pre = sys.argv[1] if len(sys.argv) > 1 else ''
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for id, checks, edits in R:
        if not id.startswith(pre) or id < os.environ.get('FROM', ''): continue
        if os.environ.get('FIRST'): checks = checks[:1]
        d = '/tmp/rf.' + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
        for f, a, b in edits:
            s = open(d + '/' + f).read()
            if s.count(a) != 1: print('%s: %d times in %s: %r' % (id, s.count(a), f, a[:60])); break
            open(d + '/' + f, 'w').write(s.replace(a, b))
        else:
            for c in ([] if os.environ.get('DRY') else checks):
                import time; t = time.time()
                o = subprocess.run(['python3-vt', V + '/vc/check.py', c], env=dict(os.environ, PO_REPO=d), capture_output=True, text=True)
                bad = [l for l in o.stdout.split('\n') if 'NOT PROVED' in l or 'VIOLATION' in l or 'FAILED' in l]
                print('%-16s %s exit %d %3ds %s' % (id, c, o.returncode, time.time() - t, 'quiet' if not bad and not o.returncode else (o.stderr[-300:] if not bad else ' | '.join(x.strip()[:220] for x in bad))), flush=True)
        if not os.environ.get('KEEP'): shutil.rmtree(d, ignore_errors=True)
main()
