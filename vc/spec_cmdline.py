"""Specification of the command line parser, function by function (runs on concrete values and on symbolic terms)."""
import sp
from model import *
from sp import *

def cprefix(st):
    """canonical option prefix: the first enabled among long, disguised, dash, slash"""
    return ite(st.allow_long, BIT['allow_long'], ite(st.allow_long_disguise, BIT['allow_long_disguise'],
           ite(And(st.allow_short, st.allow_dash_for_short), BIT['allow_dash_for_short'],
           ite(And(st.allow_short, st.allow_slash_for_short), BIT['allow_slash_for_short'], 0))))

def some(x): return x
def mkopt(sym, **kw): return mk_opt(sym=sym, **kw)
def oseq(sym, *xs): return sp.seq(('D', 'option'), *xs) if sym else tuple(xs)
def strs(sym, *xs): return V(sp.to_T(tuple(xs), QS)) if sym else tuple(xs)

def long_option(st, args, name_token=None):
    """parse_long_option(args) -> (options, remaining args)"""
    sm = sym(args)
    tok = args[0]
    if not (ln(tok) >= 3 and starts(tok, '--')): return oseq(sm), args
    rec = tok if name_token is None else name_token
    if has(tok, '='):
        k = idx(tok, '=')
        name, adj = slc(tok, 2, k - 2), drop(tok, k + 1)
        if empty(adj):
            raise SpecThrow('invalid_command_line_syntax', kind=KIND['empty_adjacent_parameter'], option_name=name,
                            original_token=name, option_style=cprefix(st))
        o = mkopt(sm, key=name, value=strs(sm, adj), toks=strs(sm, rec))
    else:
        o = mkopt(sm, key=drop(tok, 2), value=strs(sm), toks=strs(sm, rec))
    return oseq(sm, o), drop(args, 1)

KIND = {'long_not_allowed': 30, 'long_adjacent_not_allowed': 31, 'short_adjacent_not_allowed': 32, 'empty_adjacent_parameter': 33,
        'missing_parameter': 34, 'extra_parameter': 35, 'unrecognized_line': 36}

def with_ctx(e, name, token, style):
    """error_with_option_name::add_context"""
    kw = dict(e.kw); kw.update(option_name=name, original_token=token, option_style=style)
    return SpecThrow(e.cls, **kw)

def disguised(st, desc, args):
    """parse_disguised_long_option(args) -> (options, remaining args)"""
    sm = sym(args)
    tok = args[0]
    if not (ln(tok) >= 2 and (starts(tok, '-') and Not(eq(tok[1], '-')) or st.allow_slash_for_short and starts(tok, '/'))):
        return oseq(sm), args
    if has(tok, '='): k = idx(tok, '='); name, adj = slc(tok, 1, k - 1), drop(tok, k + 1)
    else: name, adj = drop(tok, 1), None
    try: p = o_find(desc, name, st.allow_guessing, st.long_case_insensitive, st.short_case_insensitive)
    except SpecThrow as e: raise SpecThrow(e.cls, alternatives=e.kw['alternatives'], option_style=cprefix(st))
    if o_null(p): return oseq(sm), args
    if adj is not None and empty(adj):
        raise SpecThrow('invalid_command_line_syntax', kind=KIND['empty_adjacent_parameter'], option_style=cprefix(st))
    o = mkopt(sm, key=name, value=strs(sm) if adj is None else strs(sm, adj), toks=strs(sm, tok))
    return oseq(sm, o), drop(args, 1)

# ---- the rest on concrete values (oracle of the bounded replay); the contracts of these functions are in p_cmdline ----
def short_group(st, desc, tok):
    """list of options a '-c...' token yields"""
    out = []; name, rest = tok[:2], tok[2:]
    while True:
        p = desc.find_nothrow(name, False, False, st.short_case_insensitive)
        if p is not None and st.allow_sticky and p.max_tokens() == 0 and rest:
            out.append(mk_opt(key=name)); name, rest = '-' + rest[0], rest[1:]
        else:
            out.append(mk_opt(key=name, value=(rest,) if rest else (), toks=(tok,))); return tuple(out)
def short_option(st, desc, args):
    tok = args[0]
    if not (len(tok) >= 2 and tok[0] == '-' and tok[1] != '-'): return (), args
    return short_group(st, desc, tok), args[1:]
def dos_option(st, desc, args):
    tok = args[0]
    if not (len(tok) >= 2 and tok[0] == '/'): return (), args
    return (mk_opt(key='-' + tok[1], value=(tok[2:],) if tok[2:] else (), toks=(tok,)),), args[1:]
INTMAX = 2**31 - 1
def terminator(st, desc, args):
    if args[0] != '--': return (), args
    return tuple(mk_opt(value=(t,), toks=(t,), pos=INTMAX) for t in args[1:]), ()
def ext_at(st, desc, args):           # the extra parser of the driver
    s = args[0]
    if len(s) > 1 and s[0] == '@':
        k, _, v = s[1:].partition(':')
        if k: return (mk_opt(key=k, value=(v,) if v else ()),), args[1:]
    return (), args
def ext_plus(st, desc, args):         # another, for the tokens the extra style parser takes
    s = args[0]
    if len(s) > 1 and s[0] == '+': return (mk_opt(key=s[1:]),), args[1:]
    return (), args
def sty_plus(st, desc, args):         # the extra style parser of the driver
    s = args[0]
    if len(s) > 1 and s[0] == '+': return (mk_opt(key=s[1:], toks=(s,)),), args[1:]
    return (), args
def parsers(st, flags=()):
    ps = []
    if 'sty' in flags: ps.append(sty_plus)
    if 'ext' in flags: ps.append(ext_at)
    if 'extp' in flags: ps.append(ext_plus)
    if st.allow_long: ps.append(lambda s, d, a: long_option(s, a))
    if st.allow_long_disguise: ps.append(disguised)
    if st.allow_short and st.allow_dash_for_short: ps.append(short_option)
    if st.allow_short and st.allow_slash_for_short: ps.append(dos_option)
    ps.append(terminator)
    return ps
def find(st, desc, name): return desc.find_nothrow(name, st.allow_guessing, st.long_case_insensitive, st.short_case_insensitive)
def finish(st, desc, allow_unreg, o, others, ps):
    """finish_option -> (option, remaining tokens)"""
    if o.string_key == '': return o, others
    tok = o.original_tokens[0] if o.original_tokens else o.string_key
    try:
        p = find(st, desc, o.string_key)
        if p is None:
            if allow_unreg: return o.with_(unregistered=True), others
            raise SpecThrow('unknown_option')
        o = o.with_(string_key=p.key(o.string_key))
        mn, mx = p.min_tokens(), p.max_tokens()
        if len(o.value) + len(others) < mn: raise SpecThrow('invalid_command_line_syntax', kind=KIND['missing_parameter'])
        if o.value and mx == 0: raise SpecThrow('invalid_command_line_syntax', kind=KIND['extra_parameter'])
        need = max(0, mn - len(o.value))
        while others and need:
            f = ()
            for q in ps:
                f, _ = q(st, desc, (others[0],))
                if f: break
            if f:
                tok = others[0]
                if find(st, desc, others[0]) is not None: raise SpecThrow('invalid_command_line_syntax', kind=KIND['missing_parameter'])
            o = o.with_(value=o.value + (others[0],), original_tokens=o.original_tokens + (others[0],)); others = others[1:]; need -= 1
        return o, others
    except SpecThrow as e: raise with_ctx(e, o.string_key, tok, cprefix(st))
def run(st, desc, args, allow_unreg=False, pos=None, flags=()):
    """cmdline::run() -> options; pos: list of (name, count) or None"""
    ps = parsers(st, flags)
    res = []; run.term = None
    args = tuple(args)
    while args:
        ok = False
        for q in ps:
            n = len(args)
            nx, args = q(st, desc, args)
            if q is terminator and len(args) != n: run.term = n
            nx = list(nx)
            for i in range(len(nx) - 1): nx[i], _ = finish(st, desc, allow_unreg, nx[i], (), ps)
            if nx: nx[-1], args = finish(st, desc, allow_unreg, nx[-1], args, ps)
            res += nx
            if len(args) != n: ok = True; break
        if not ok: res.append(mk_opt(value=(args[0],), toks=(args[0],))); args = args[1:]
    out = []; i = 0
    while i < len(res):
        o = res[i]; i += 1
        if o.string_key == '': out.append(o); continue
        try: p = find(st, desc, o.string_key)
        except SpecThrow as e: raise with_ctx(e, o.string_key, o.original_tokens[0] if o.original_tokens else o.string_key, cprefix(st))
        if p is not None and p.min_tokens() < p.max_tokens():
            while len(o.value) < p.max_tokens() and i < len(res) and res[i].string_key == '' and res[i].position_key != INTMAX:
                o = o.with_(value=o.value + res[i].value, original_tokens=o.original_tokens + res[i].original_tokens); i += 1
        out.append(o)
    k = 0
    for i, o in enumerate(out):
        if o.string_key == '': out[i] = o.with_(position_key=k); k += 1
    if pos is not None:
        names = []; rest = None
        for nm, c in pos:
            if c == -1: rest = nm
            else: names += [nm] * c
        for i, o in enumerate(out):
            if o.position_key != -1:
                if o.position_key < len(names): out[i] = o.with_(string_key=names[o.position_key])
                elif rest is not None: out[i] = o.with_(string_key=rest)
                else: raise SpecThrow('too_many_positional_options_error')
    for i, o in enumerate(out):
        s = o.string_key
        out[i] = o.with_(case_insensitive=st.long_case_insensitive if len(s) > 2 or len(s) > 1 and s[0] != '-' else st.short_case_insensitive)
    return tuple(out)
