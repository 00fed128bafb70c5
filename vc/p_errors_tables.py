"""Message templates and defaults of the library's errors, and substitution as the property describes it (C19)."""
DEFAULTS = {'canonical_option': ("option '%canonical_option%'", 'option'), 'value': ("argument ('%value%')", 'argument'), 'prefix': ('%prefix%', '')}
SYNTAX = {30: "the unabbreviated option '%canonical_option%' is not valid", 31: "the unabbreviated option '%canonical_option%' does not take any arguments",
          32: "the abbreviated option '%canonical_option%' does not take any arguments", 33: "the argument for option '%canonical_option%' should follow immediately after the equal sign",
          34: "the required argument for option '%canonical_option%' is missing", 35: "option '%canonical_option%' does not take any arguments",
          36: "the options configuration file contains an invalid line '%invalid_line%'"}
VALID = {30: "option '%canonical_option%' only takes a single argument", 31: "option '%canonical_option%' requires at least one argument",
         32: "the argument ('%value%') for option '%canonical_option%' is invalid. Valid choices are 'on|off', 'yes|no', '1|0' and 'true|false'",
         33: "the argument ('%value%') for option '%canonical_option%' is invalid", 34: "option '%canonical_option%' is not valid"}

def py_subst(s, d, one=lambda x: x, cat=''.join):
    out = []; pos = 0
    while True:
        p = s.find('%', pos)
        e = s.find('%', p + 1) if p >= 0 else -1
        if p < 0 or e < 0: out.append(one(s[pos:])); return cat(out)
        k = s[p + 1:e]
        if k in d: out += [one(s[pos:p]), d[k]]; pos = e + 1
        else: out.append(one(s[pos:p + 1])); pos = p + 1
