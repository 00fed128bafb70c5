From 9df7d18571f5801356f68cd3d2ca200123529cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 01/11] fix: error message substitution never terminates when a
 value contains its own placeholder

---
 src/value_semantic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index de7b2ac..e45a9e3 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -270,13 +270,16 @@ namespace boost { namespace program_options {
 
     void error_with_option_name::replace_token(const string& from, const string& to) const
     {
+        std::size_t pos = 0;
         for (;;)
         {
-            std::size_t pos = m_message.find(from.c_str(), 0, from.length());
+            pos = m_message.find(from.c_str(), pos, from.length());
             // not found: all replaced
             if (pos == std::string::npos)
                 return;
             m_message.replace(pos, from.length(), to);
+            // go on after the inserted text: it may itself contain 'from'
+            pos += to.length();
         }
     }
 
-- 
2.43.0


From 36b81d7868783bd7fecb03c143734f454eb784f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 02/11] fix: short option case sensitivity depended on the long
 option setting

---
 src/options_description.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 0efdc33..516cd57 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -115,8 +115,9 @@ namespace boost { namespace program_options {
         if (result != full_match)
         {
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
+            std::string local_short_option(short_ignore_case ? tolower_(option) : option);
 
-            if (local_short_name == local_option)
+            if (local_short_name == local_short_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From e58de8d8fc304daa392ca96444d0a5864a5b0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 03/11] fix: empty section header in a config file read before
 the start of a string

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index d586523..a3c01cd 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -97,7 +97,7 @@ namespace boost { namespace program_options { namespace detail {
                 // Handle section name
                 if (*s.begin() == '[' && *s.rbegin() == ']') {
                     m_prefix = s.substr(1, s.size()-2);
-                    if (*m_prefix.rbegin() != '.')
+                    if (m_prefix.empty() || *m_prefix.rbegin() != '.')
                         m_prefix += '.';
                 }
                 else if ((n = s.find('=')) != string::npos) {
-- 
2.43.0


From 776470fdbbe60af3c40b7df13614f623ccced6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 04/11] fix: config file name equal to the stem of a wildcard
 option was rejected

---
 src/config_file.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index a3c01cd..159d6df 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -135,10 +135,10 @@ namespace boost { namespace program_options { namespace detail {
         set<string>::const_iterator i = allowed_options.find(s);
         if (i != allowed_options.end())
             return true;        
-        // If s is "pa" where "p" is allowed prefix then
-        // lower_bound should find the element after "p". 
+        // If s is "p" or "pa" where "p" is allowed prefix then
+        // upper_bound should find the element after "p". 
         // This depends on 'allowed_prefixes' invariant.
-        i = allowed_prefixes.lower_bound(s);
+        i = allowed_prefixes.upper_bound(s);
         if (i != allowed_prefixes.begin() && s.find(*--i) == 0)
             return true;
         return false;
-- 
2.43.0


From 188088efab5a531ade523862336f21e3a36d588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 05/11] fix: out of bounds read for an ambiguous option without
 original tokens

---
 src/cmdline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 8f4ae64..b6bed39 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -311,7 +311,9 @@ namespace boost { namespace program_options { namespace detail {
             catch(error_with_option_name& e)
             {
                 // add context and rethrow
-                e.add_context(opt.string_key, opt.original_tokens[0], get_canonical_option_prefix());
+                e.add_context(opt.string_key,
+                              opt.original_tokens.empty() ? opt.string_key : opt.original_tokens[0],
+                              get_canonical_option_prefix());
                 throw;
             }
 
-- 
2.43.0


From 3d1d37c3b06b48404d81e883dda89e7d2e33b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 06/11] fix: disguised long options recorded a rewritten token
 instead of the original one

---
 src/cmdline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index b6bed39..71e6766 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -650,10 +650,15 @@ namespace boost { namespace program_options { namespace detail {
                                          is_style_active(long_case_insensitive),
                                          is_style_active(short_case_insensitive)))
                 {
+                    const string original_token = tok;
                     args[0].insert(0, "-");
                     if (args[0][1] == '/')
                         args[0][1] = '-';
-                    return parse_long_option(args);
+                    vector<option> result = parse_long_option(args);
+                    // record the token as given, not the rewritten one
+                    for (unsigned i = 0; i < result.size(); ++i)
+                        result[i].original_tokens.assign(1, original_token);
+                    return result;
                 }
             } 
             catch(error_with_option_name& e)
-- 
2.43.0


From fb27706c57a99a6a39c59eaa0eafc405141f90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 07/11] fix: wide options lost the case_insensitive flag

---
 src/parsers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 4dac608..675643a 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -75,6 +75,7 @@ namespace boost { namespace program_options {
             result.string_key = opt.string_key;
             result.position_key = opt.position_key;
             result.unregistered = opt.unregistered;
+            result.case_insensitive = opt.case_insensitive;
             
             std::transform(opt.value.begin(), opt.value.end(),
                            back_inserter(result.value),
-- 
2.43.0


From c1da4b936638c9261949d6aa1f183a492740c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 08/11] fix: narrow to wide conversion dropped an incomplete
 trailing character

A codecvt facet such as libstdc++'s for a UTF-8 locale consumes the start of
an incomplete trailing character into the conversion state and reports ok, so
from_8_bit and from_local_8_bit returned the text before it instead of
throwing.
---
 src/convert.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/convert.cpp b/src/convert.cpp
index fbe2758..ecd9cbd 100644
--- a/src/convert.cpp
+++ b/src/convert.cpp
@@ -41,12 +41,10 @@ namespace boost { namespace detail {
     */
     template<class ToChar, class FromChar, class Fun>
     std::basic_string<ToChar>
-    convert(const std::basic_string<FromChar>& s, Fun fun)
+    convert(const std::basic_string<FromChar>& s, Fun fun, std::mbstate_t& state)
         
     {
         std::basic_string<ToChar> result;
-        
-        std::mbstate_t state = std::mbstate_t();
 
         const FromChar* from = s.data();
         const FromChar* from_end = s.data() + s.size();
@@ -92,22 +90,32 @@ namespace boost {
     from_8_bit(const std::string& s, 
                const std::codecvt<wchar_t, char, std::mbstate_t>& cvt)
     {
-        return detail::convert<wchar_t>(
+        std::mbstate_t state = std::mbstate_t();
+        std::wstring result = detail::convert<wchar_t>(
             s,                 
             boost::bind(&std::codecvt<wchar_t, char, mbstate_t>::in,
                         &cvt,
-                        _1, _2, _3, _4, _5, _6, _7));
+                        _1, _2, _3, _4, _5, _6, _7),
+            state);
+        // A facet may consume the start of an incomplete trailing character
+        // into 'state', without reporting an error.
+        if (!std::mbsinit(&state))
+            boost::throw_exception(
+                std::logic_error("character conversion failed"));
+        return result;
     }
 
     BOOST_PROGRAM_OPTIONS_DECL std::string 
     to_8_bit(const std::wstring& s, 
              const std::codecvt<wchar_t, char, std::mbstate_t>& cvt)
     {
+        std::mbstate_t state = std::mbstate_t();
         return detail::convert<char>(
             s,                 
             boost::bind(&codecvt<wchar_t, char, mbstate_t>::out,
                         &cvt,
-                        _1, _2, _3, _4, _5, _6, _7));
+                        _1, _2, _3, _4, _5, _6, _7),
+            state);
     }
 
 
-- 
2.43.0


From aeebe9a40a4d336afc70f257546cce7af2760dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 09/11] fix: store a wide token for a string option as a string

validate(any&, const vector<wstring>&, string*, int) stored a wstring, so
that as<string>(), notify() and a bound string failed for options parsed
from wide input.
---
 src/value_semantic.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index e45a9e3..2fd0556 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -196,7 +196,16 @@ namespace boost { namespace program_options {
     void validate(any& v, const vector<wstring>& xs, std::string*, int)
     {
         check_first_occurrence(v);
-        v = any(get_single_string(xs));
+        const wstring& s = get_single_string(xs);
+        // The option's type is std::string, so that is what must be stored.
+        string local;
+        try {
+            local = to_local_8_bit(s);
+        }
+        catch(const std::exception&) {
+            boost::throw_exception(invalid_option_value(s));
+        }
+        v = any(local);
     }
 #endif
 
-- 
2.43.0


From 09d02b50e75737aeff9d1767126244b9fc1fd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 10/11] fix: do not search substituted text for placeholders in
 error messages

An option name, token or value containing e.g. %prefix% or %value% was
itself taken for a placeholder, so that the message did not show what the
user wrote. The values are now substituted in one pass over the template,
and the alternatives of an ambiguity are appended after it.
---
 src/value_semantic.cpp | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 2fd0556..2d7bff8 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -359,10 +359,24 @@ namespace boost { namespace program_options {
         //
         //  replace placeholder with values
         //  placeholder are denoted by surrounding '%'
+        //  inserted values are not searched for placeholders
         // 
-        for (map<string, string>::iterator iter = substitutions.begin();
-              iter != substitutions.end(); ++iter)
-            replace_token('%' + iter->first + '%', iter->second);
+        std::size_t pos = 0;
+        while ((pos = m_message.find('%', pos)) != std::string::npos)
+        {
+            std::size_t end = m_message.find('%', pos + 1);
+            if (end == std::string::npos)
+                break;
+            map<string, string>::const_iterator iter =
+                substitutions.find(m_message.substr(pos + 1, end - pos - 1));
+            if (iter == substitutions.end())
+            {
+                ++pos;
+                continue;
+            }
+            m_message.replace(pos, end - pos + 1, iter->second);
+            pos += iter->second.length();
+        }
     }
 
 
@@ -379,29 +393,30 @@ namespace boost { namespace program_options {
         }
 
 
-        string error_template  = original_error_template;
         // remove duplicates using std::set
         std::set<std::string>   alternatives_set (m_alternatives.begin(), m_alternatives.end());
         std::vector<std::string> alternatives_vec (alternatives_set.begin(), alternatives_set.end());
 
-        error_template += " and matches ";
+        // use inherited logic
+        error_with_option_name::substitute_placeholders(original_error_template);
+
+        // the alternatives are appended afterwards: they are no part of the template
+        const std::string prefix = get_canonical_option_prefix();
+
+        m_message += " and matches ";
         // Being very cautious: should be > 1 alternative!
         if (alternatives_vec.size() > 1)
         {
             for (unsigned i = 0; i < alternatives_vec.size() - 1; ++i)
-                error_template += "'%prefix%" + alternatives_vec[i] + "', ";
-            error_template += "and ";
+                m_message += "'" + prefix + alternatives_vec[i] + "', ";
+            m_message += "and ";
         }
 
         // there is a programming error if multiple options have the same name...
         if (m_alternatives.size() > 1 && alternatives_vec.size() == 1)
-            error_template += "different versions of ";
-
-        error_template += "'%prefix%" + alternatives_vec.back() + "'";
+            m_message += "different versions of ";
 
-
-        // use inherited logic
-        error_with_option_name::substitute_placeholders(error_template);
+        m_message += "'" + prefix + alternatives_vec.back() + "'";
     }
 
 
-- 
2.43.0


From 8aae65bdc46e9d6012686e0a7a03ad3abf819a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:43 +0000
Subject: [PATCH 11/11] fix: initialise the unregistered flag of an end config
 file iterator

Copying a default-constructed iterator read an indeterminate bool.
---
 include/boost/program_options/detail/config_file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/program_options/detail/config_file.hpp b/include/boost/program_options/detail/config_file.hpp
index 808bec7..e34c4d1 100644
--- a/include/boost/program_options/detail/config_file.hpp
+++ b/include/boost/program_options/detail/config_file.hpp
@@ -71,7 +71,7 @@ namespace boost { namespace program_options { namespace detail {
         : public eof_iterator<common_config_file_iterator, option>
     {
     public:
-        common_config_file_iterator() { found_eof(); }
+        common_config_file_iterator() : m_allow_unregistered(false) { found_eof(); }
         common_config_file_iterator(
             const std::set<std::string>& allowed_options,
             bool allow_unregistered = false);
-- 
2.43.0

