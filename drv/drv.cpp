#include <sys/mman.h>
#include <unistd.h>
// Replay driver: runs cases against the real library, built from /repo's current sources.
#include "sx.hpp"
#include <boost/program_options.hpp>
#include <boost/program_options/detail/utf8_codecvt_facet.hpp>
#include <boost/program_options/detail/config_file.hpp>
#include <boost/program_options/environment_iterator.hpp>
#include <boost/optional.hpp>
#include <boost/optional/optional_io.hpp>
#include <optional>
#include <functional>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <sstream>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
using namespace boost::program_options;
namespace po = boost::program_options;
namespace winm { std::vector<std::string> split(const std::string&); std::vector<std::wstring> split(const std::wstring&); }

static std::vector<std::string> notes;      // what notifiers saw
static std::string wtxt(const std::wstring& w) { std::string r; for (size_t i = 0; i < w.size(); ++i) { if (i) r += ','; r += std::to_string((long)w[i]); } return r; }
static std::wstring wof(const N& n) { std::wstring r; for (auto& x : n.k) r += (wchar_t)x.num(); return r; }
namespace own {     // a type with its own validator: counts how often and with how many tokens it is called
  struct thing { std::string s; };
  void validate(boost::any& v, const std::vector<std::string>& xs, thing*, int) {
    if (xs.size() != 1 || xs[0] == "BAD") boost::throw_exception(validation_error(validation_error::invalid_option_value));
    v = thing{"[" + xs[0] + "]"}; }
}
static std::string show(const boost::any& v) {
  if (v.empty()) return "-";
  if (auto p = boost::any_cast<std::string>(&v)) return "s:" + *p;
  if (auto p = boost::any_cast<std::wstring>(&v)) return "w:" + wtxt(*p);
  if (auto p = boost::any_cast<bool>(&v)) return *p ? "b:1" : "b:0";
  if (auto p = boost::any_cast<int>(&v)) return "i:" + std::to_string(*p);
  if (auto p = boost::any_cast<std::vector<std::string> >(&v)) { std::string r = "v:"; for (auto& x : *p) { r += enc(x); r += ' '; } return r; }
  if (auto p = boost::any_cast<std::vector<int> >(&v)) { std::string r = "V:"; for (auto& x : *p) { r += std::to_string(x); r += ' '; } return r; }
  if (auto p = boost::any_cast<boost::optional<int> >(&v)) return *p ? "o:" + std::to_string(**p) : "o:none";
  if (auto p = boost::any_cast<boost::optional<std::string> >(&v)) return *p ? "o:" + enc(**p) : "o:none";
  if (auto p = boost::any_cast<std::optional<int> >(&v)) return *p ? "o:" + std::to_string(**p) : "o:none";
  if (auto p = boost::any_cast<std::vector<std::wstring> >(&v)) { std::string r = "W:"; for (auto& x : *p) { r += wtxt(x); r += ' '; } return r; }
  if (auto p = boost::any_cast<own::thing>(&v)) return "t:" + p->s;
  if (auto p = boost::any_cast<std::vector<own::thing> >(&v)) { std::string r = "T:"; for (auto& x : *p) { r += enc(x.s); r += ' '; } return r; }
  return std::string("?") + v.type().name();
}
// a value with arbitrary arity
struct cust : value_semantic {
  unsigned mn, mx; bool comp = false, req = false; std::string def; bool has_def = false; std::string nm = "arg"; int note = -1;
  cust(unsigned a, unsigned b) : mn(a), mx(b) {}
  std::string name() const { return nm; }
  unsigned min_tokens() const { return mn; }
  unsigned max_tokens() const { return mx; }
  bool is_composing() const { return comp; }
  bool is_required() const { return req; }
  void parse(boost::any& s, const std::vector<std::string>& t, bool) const {
    for (auto& x : t) if (x == "BAD") boost::throw_exception(invalid_option_value(x));
    std::vector<std::string> v; if (auto p = boost::any_cast<std::vector<std::string> >(&s)) v = *p;
    v.push_back("<"); v.insert(v.end(), t.begin(), t.end()); v.push_back(">"); s = v; }
  bool apply_default(boost::any& s) const { if (!has_def) return false; s = std::vector<std::string>(1, def); return true; }
  void notify(const boost::any& v) const { if (note >= 0) notes.push_back(std::to_string(note) + "=" + show(v)); }
};
template <class T> static T lit(const std::string& s) { return boost::lexical_cast<T>(s); }
template <> std::vector<std::string> lit(const std::string& s) { return std::vector<std::string>(1, s); }
template <> std::vector<int> lit(const std::string& s) { return std::vector<int>(1, atoi(s.c_str())); }
template <> bool lit(const std::string& s) { return s == "1"; }
template <> boost::optional<int> lit(const std::string& s) { return boost::optional<int>(atoi(s.c_str())); }
template <> std::wstring lit(const std::string& s) { return std::wstring(s.begin(), s.end()); }
struct Stores { std::map<int, boost::any> bind; std::list<std::function<void()> > show; std::vector<std::string> out; };
static Stores* cur = 0;
static std::function<std::string()> bound;   // reads the variable bound to the value being declared
template <> own::thing lit(const std::string& s) { return own::thing{s}; }
template <> std::vector<own::thing> lit(const std::string& s) { return std::vector<own::thing>(1, own::thing{s}); }
template <> std::vector<std::wstring> lit(const std::string& s) { return std::vector<std::wstring>(1, std::wstring(s.begin(), s.end())); }
template <> boost::optional<std::string> lit(const std::string& s) { return s; }
template <> std::optional<int> lit(const std::string& s) { return atoi(s.c_str()); }
template <class T, class C> static const value_semantic* attrs(typed_value<T, C>* v, const N& a) {
  for (auto& x : a.k) {
    if (x[0].is("def")) v->default_value(lit<T>(x[1].a), x[1].a);
    else if (x[0].is("imp")) v->implicit_value(lit<T>(x[1].a), x[1].a);
    else if (x[0].is("req")) v->required();
    else if (x[0].is("comp")) v->composing();
    else if (x[0].is("multi")) v->multitoken();
    else if (x[0].is("zero")) v->zero_tokens();
    else if (x[0].is("name")) v->value_name(x[1].a);
    else if (x[0].is("note")) { int id = x[1].num(); auto b = bound; v->notifier([id, b](const T& t) { notes.push_back(std::to_string(id) + "=" + show(boost::any(t)) + (b ? "@" + b() : std::string())); }); }
  }
  return v;
}
template <class T> static T* binding(const N& a) {
  bound = nullptr;
  for (auto& x : a.k) if (x[0].is("bind")) { auto p = std::make_shared<T>(); int id = x[1].num(); bound = [p] { return show(boost::any(*p)); };
    cur->show.push_back([p, id] { cur->out.push_back(std::to_string(id) + "=" + show(boost::any(*p))); }); return p.get(); }
  return 0;
}
template <class T> static typed_value<T>* mkv(const N& a) { T* p = binding<T>(a); return p ? po::value<T>(p) : po::value<T>(); }
template <class T> static typed_value<T, wchar_t>* mkw(const N& a) { T* p = binding<T>(a); return p ? po::wvalue<T>(p) : po::wvalue<T>(); }
static const value_semantic* sem(const N& k, const N& a) {
  if (k.list && k[0].is("cust")) { auto c = new cust((unsigned)k[1].num(), (unsigned)strtoul(k[2].a.c_str(), 0, 10));
    for (auto& x : a.k) { if (x[0].is("def")) c->has_def = true, c->def = x[1].a; else if (x[0].is("req")) c->req = true; else if (x[0].is("comp")) c->comp = true;
      else if (x[0].is("name")) c->nm = x[1].a; else if (x[0].is("note")) c->note = x[1].num(); } return c; }
  if (k.is("untyped")) return new untyped_value();
  if (k.is("untyped0")) return new untyped_value(true);
  if (k.is("string")) return attrs(mkv<std::string>(a), a);
  if (k.is("wstring")) return attrs(mkw<std::wstring>(a), a);
  if (k.is("int")) return attrs(mkv<int>(a), a);
  if (k.is("bool")) return attrs(mkv<bool>(a), a);
  if (k.is("wbool")) return attrs(mkw<bool>(a), a);
  if (k.is("vstring")) return attrs(mkv<std::vector<std::string> >(a), a);
  if (k.is("vint")) return attrs(mkv<std::vector<int> >(a), a);
  if (k.is("oint")) return attrs(mkv<boost::optional<int> >(a), a);
  if (k.is("switch")) { bool* p = binding<bool>(a); return attrs(p ? bool_switch(p) : bool_switch(), a); }
  if (k.is("wnstring")) return attrs(mkw<std::string>(a), a);
  if (k.is("wint")) return attrs(mkw<int>(a), a);
  if (k.is("wvint")) return attrs(mkw<std::vector<int> >(a), a);
  if (k.is("wvstring")) return attrs(mkw<std::vector<std::wstring> >(a), a);
  if (k.is("wvnstring")) return attrs(mkw<std::vector<std::string> >(a), a);
  if (k.is("ostring")) return attrs(mkv<boost::optional<std::string> >(a), a);
  if (k.is("soint")) return attrs(mkv<std::optional<int> >(a), a);
  if (k.is("woint")) return attrs(mkw<boost::optional<int> >(a), a);
  if (k.is("own")) return attrs(mkv<own::thing>(a), a);
  if (k.is("vown")) return attrs(mkv<std::vector<own::thing> >(a), a);
  abort();
}
// (desc caption line_len min_desc ( (names kind descr (attrs)) ... ) ( desc ... ))
static std::list<std::unique_ptr<options_description> > keep;
static options_description* mkdesc(const N& n) {
  auto d = new options_description(n[1].a, (unsigned)n[2].num(), (unsigned)n[3].num());
  keep.emplace_back(d);
  for (auto& o : n[4].k) {
    if (o[1].is("none")) d->add_options()(o[0].a.c_str(), o[2].a.c_str());
    else d->add_options()(o[0].a.c_str(), sem(o[1], o[3]), o[2].a.c_str());
  }
  for (auto& g : n[5].k) d->add(*mkdesc(g));
  return d;
}
struct acc : error_with_option_name { 
  static const std::map<std::string, std::string>& subs(const error_with_option_name& e) { return e.*(&acc::m_substitutions); }
  static int style(const error_with_option_name& e) { return e.*(&acc::m_option_style); } };
static std::string sub(const error_with_option_name& e, const char* k) { auto& m = acc::subs(e); auto i = m.find(k); return i == m.end() ? "" : i->second; }
static std::string cls(const std::exception& e) { std::string s = typeid(e).name(); // strip boost::wrapexcept
  const char* known[] = {"ambiguous_option", "unknown_option", "invalid_command_line_syntax", "invalid_config_file_syntax", "invalid_command_line_style", "multiple_values",
    "multiple_occurrences", "required_option", "invalid_option_value", "invalid_bool_value", "validation_error", "reading_file", "invalid_syntax", "too_many_positional_options_error",
    "duplicate_option_error", "error_with_no_option_name", "error_with_option_name", "bad_any_cast", "logic_error", "out_of_range", "escaped_list_error"};
  for (auto k : known) if (s.find(std::to_string(strlen(k)) + k) != std::string::npos) return k;
  if (s.find("program_options") != std::string::npos && s.find("5error") != std::string::npos) return "error";
  return s; }
static void ex_out(Out& o, const std::exception& e) {
  o.o().a("exc").a(cls(e));
  std::string w1 = e.what(), w2 = e.what();
  o.a(w1).n(w1 == w2);
  if (auto p = dynamic_cast<const error_with_option_name*>(&e)) {
    long kind = 0;
    if (auto q = dynamic_cast<const invalid_syntax*>(&e)) kind = q->kind();
    if (auto q = dynamic_cast<const validation_error*>(&e)) kind = q->kind();
    o.n(kind).a(sub(*p, "option")).a(sub(*p, "original_token")).n(acc::style(*p)).a(p->get_option_name());
    o.o(); if (auto q = dynamic_cast<const ambiguous_option*>(&e)) for (auto& x : q->alternatives()) o.a(x); o.c();
    o.a(sub(*p, "invalid_line")).a(sub(*p, "value"));
  }
  o.c();
}
template <class C> static std::string nar(const std::basic_string<C>& s);
template <> std::string nar(const std::string& s) { return s; }
template <> std::string nar(const std::wstring& s) { return wtxt(s); }
template <class C> static void opts_out(Out& o, const std::vector<basic_option<C> >& v) {
  o.o(); for (auto& x : v) { o.o().a(x.string_key).n(x.position_key); o.o(); for (auto& y : x.value) o.a(nar(y)); o.c(); o.o(); for (auto& y : x.original_tokens) o.a(nar(y)); o.c();
    o.n(x.unregistered).n(x.case_insensitive).c(); } o.c();
}
// (parse desc style allow_unreg pos args flags)   pos: "no" or ((name n) ...)
static positional_options_description* mkpos(const N& n) { static std::list<positional_options_description> ps; ps.emplace_back(); auto& p = ps.back();
  for (auto& x : n.k) p.add(x[0].a.c_str(), (int)x[1].num()); return &p; }
template <class C> static std::vector<std::basic_string<C> > argv_of(const N& n);
template <> std::vector<std::string> argv_of(const N& n) { return n.strs(); }
template <> std::vector<std::wstring> argv_of(const N& n) { std::vector<std::wstring> r; for (auto& x : n.k) r.push_back(wof(x)); return r; }
static std::pair<std::string, std::string> ext_at(const std::string& s) { if (s.size() > 1 && s[0] == '@') { size_t p = s.find(':'); if (p == std::string::npos) return std::make_pair(s.substr(1), std::string()); return std::make_pair(s.substr(1, p - 1), s.substr(p + 1)); } return std::pair<std::string, std::string>(); }
static std::pair<std::string, std::string> ext_plus(const std::string& s) { if (s.size() > 1 && s[0] == '+') return std::make_pair(s.substr(1), std::string()); return std::pair<std::string, std::string>(); }
static std::vector<po::option> sty_plus(std::vector<std::string>& args) { std::vector<po::option> r; if (!args.empty() && args[0].size() > 1 && args[0][0] == '+') { po::option q; q.string_key = args[0].substr(1); q.original_tokens.push_back(args[0]); r.push_back(q); args.erase(args.begin()); } return r; }
template <class C> static basic_parsed_options<C> do_parse(const N& n) {
  options_description* d = mkdesc(n[1]);
  basic_command_line_parser<C> p(argv_of<C>(n[5]));
  p.options(*d);
  if (!n[2].is("none")) p.style((int)n[2].num());
  if (n[3].num()) { p.allow_unregistered(); for (auto& f : n[6].k) if (f.is("unreg2")) p.allow_unregistered(); }
  if (n[4].list) p.positional(*mkpos(n[4]));
  for (auto& f : n[6].k) { if (f.is("ext")) p.extra_parser(ext_at); if (f.is("extp")) p.extra_parser(ext_plus); if (f.is("sty")) p.extra_style_parser(sty_plus); }
  return p.run();
}
static void vm_out(Out& o, const variables_map& m) { o.o(); for (auto& x : m) o.o().a(x.first).a(show(x.second.value())).n(x.second.defaulted()).n(x.second.empty()).c(); o.c(); }

// facets for C16
struct slow_utf8 : boost::program_options::detail::utf8_codecvt_facet {   // at most k source elements per call
  int k; slow_utf8(int k_) : k(k_) {}
  typedef boost::program_options::detail::utf8_codecvt_facet B;
  std::codecvt_base::result do_in(std::mbstate_t& s, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const {
    wchar_t* te2 = te - t > k ? t + k : te;
    auto r = B::do_in(s, f, fe, fn, t, te2, tn); if (r == std::codecvt_base::ok && fn != fe) r = std::codecvt_base::partial; return r; }
  std::codecvt_base::result do_out(std::mbstate_t& s, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const {
    const wchar_t* fe2 = fe - f > k ? f + k : fe;
    auto r = B::do_out(s, f, fe2, fn, t, te, tn); if (r == std::codecvt_base::ok && fn != fe) r = std::codecvt_base::partial; return r; }
};
struct shift_facet : std::codecvt<wchar_t, char, std::mbstate_t> {   // 0x0e: the following characters + 0x100, 0x0f: back; the shift is kept in the state
  int k; shift_facet(int k_) : std::codecvt<wchar_t, char, std::mbstate_t>(1), k(k_) {}
  std::codecvt_base::result do_in(std::mbstate_t& s, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const {
    int left = k;
    while (f != fe && t != te && left) {
      const char* g = f; int sh = s.__count;
      while (g != fe && (*g == 0x0e || *g == 0x0f)) sh = (*g++ == 0x0e);
      if (g == fe) { if (!sh) break; s.__count = 2; f = g; break; }            // shift sequences only: kept
      if ((unsigned char)*g >= 0x80) { fn = f; tn = t; return error; }
      s.__count = sh; *t++ = (unsigned char)*g + (sh ? 0x100 : 0); f = g + 1; --left;
      while (f != fe && (*f == 0x0e || *f == 0x0f)) s.__count = (*f++ == 0x0e);
    }
    fn = f; tn = t; return f == fe ? ok : partial; }
};
extern char** environ;
static void run(const N& n, Out& o) {
  const std::string& op = n[0].a;
  if (op == "parse") { parsed_options r = do_parse<char>(n); o.o().a("ok"); opts_out(o, r.options); o.n(r.m_options_prefix).c(); }
  else if (op == "wparse") { wparsed_options r = do_parse<wchar_t>(n); o.o().a("ok"); opts_out(o, r.options); o.n(r.m_options_prefix); opts_out(o, r.utf8_encoded_options.options); o.n(r.utf8_encoded_options.m_options_prefix).c(); }
  else if (op == "pcl") { // (pcl desc style args): parse_command_line with program name
    auto d = mkdesc(n[1]); std::vector<std::string> a = n[3].strs(); a.insert(a.begin(), "prog"); std::vector<const char*> p; for (auto& x : a) p.push_back(x.c_str()); p.push_back(0);
    parsed_options r = parse_command_line((int)a.size(), &p[0], *d, (int)n[2].num()); o.o().a("ok"); opts_out(o, r.options); o.n(r.m_options_prefix).c(); }
  else if (op == "style") { // (style n1 n2 ...): successive style() calls on one parser, then the prefix
    struct pp : po::detail::cmdline { pp() : cmdline(std::vector<std::string>()) {} using cmdline::style; using cmdline::get_canonical_option_prefix; } p;
    o.o().a("ok"); for (size_t i = 1; i < n.k.size(); ++i) { try { p.style((int)n[i].num()); o.a("ok"); } catch (const std::exception& e) { o.a(cls(e)); } o.n(p.get_canonical_option_prefix()); } o.c(); }
  else if (op == "find") { // (find desc name approx lic sic) 
    auto d = mkdesc(n[1]); o.o().a("ok");
    try { auto* p = d->find_nothrow(n[2].a, n[3].num(), n[4].num(), n[5].num()); if (p) { o.a("found"); long ix = -1, k = 0; for (auto& x : d->options()) { if (x.get() == p) ix = k; ++k; } o.n(ix).a(p->key(n[2].a)); } else o.a("none"); }
    catch (const std::exception& e) { ex_out(o, e); }
    try { auto& p = d->find(n[2].a, n[3].num(), n[4].num(), n[5].num()); o.a("found"); long ix = -1, k = 0; for (auto& x : d->options()) { if (x.get() == &p) ix = k; ++k; } o.n(ix); }
    catch (const std::exception& e) { ex_out(o, e); }
    o.c(); }
  else if (op == "od") { // (od names src prefix lic sic approx)
    option_description d(n[1].a.c_str(), new untyped_value(), "txt"); o.o().a("ok");
    o.a(d.key(n[2].a)).a(d.long_name()); o.o(); { auto p = d.long_names(); for (size_t i = 0; i < p.second; ++i) o.a(p.first[i]); } o.c();
    o.a(d.canonical_display_name((int)n[3].num())).a(d.format_name());
    o.n((int)d.match(n[2].a, n[6].num(), n[4].num(), n[5].num())); o.a(d.description()).c(); }
  else if (op == "helpd") { auto d = mkdesc(n[1]); std::ostringstream s; if (n[2].num() == 0) s << *d; else d->print(s, (unsigned)n[2].num()); o.o().a("ok").a(s.str()).n(d->get_option_column_width()).c(); }
  else if (op == "cfg") { // (cfg desc allow text [wide])
    auto d = mkdesc(n[1]); std::istringstream s(n[3].a); parsed_options r = parse_config_file(s, *d, n[2].num()); o.o().a("ok"); opts_out(o, r.options); o.n(r.m_options_prefix).c(); }
  else if (op == "cfgf") { // (cfgf desc allow text | cfgf desc allow): by file name, an anonymous file; without text a file that is not there
    auto d = mkdesc(n[1]); std::string path = "/proc/self/fd/1048576"; int fd = -1;
    if (n.k.size() > 3) { fd = memfd_create("cfg", 0); size_t k = 0; while (k < n[3].a.size()) k += write(fd, n[3].a.data() + k, n[3].a.size() - k); path = "/proc/self/fd/" + std::to_string(fd); }
    struct cl { int f; ~cl() { if (f >= 0) close(f); } } cl_ = {fd};
    parsed_options r = parse_config_file(path.c_str(), *d, n[2].num()); o.o().a("ok"); opts_out(o, r.options); o.n(r.m_options_prefix).c(); }
  else if (op == "wcfg") { auto d = mkdesc(n[1]); std::wistringstream s(wof(n[3])); wparsed_options r = parse_config_file(s, *d, n[2].num()); o.o().a("ok"); opts_out(o, r.options); o.n(r.m_options_prefix).c(); }
  else if (op == "cfgi") { // (cfgi (names) allow text): the iterator with a bare set of names
    std::set<std::string> al; for (auto& x : n[1].k) al.insert(x.a); std::istringstream s(n[3].a);
    std::vector<po::option> v; po::detail::config_file_iterator i(s, al, n[2].num()), e; for (; i != e; ++i) v.push_back(*i); o.o().a("ok"); opts_out(o, v); o.c(); }
  else if (op == "env") { // (env mode prefix (VAR=VAL...)) : private environ
    std::vector<std::string> a = n[3].strs(); std::vector<char*> p; for (auto& x : a) p.push_back(const_cast<char*>(x.c_str())); p.push_back(0);
    char** old = environ; environ = &p[0]; options_description d; parsed_options r(0);
    std::map<std::string, std::string> mp; for (auto& x : n[4].k) mp[x[0].a] = x[1].a;
    try { if (n[1].is("prefix")) r = parse_environment(d, n[2].a); else if (n[1].is("cprefix")) r = parse_environment(d, n[2].a.c_str());
      else r = parse_environment(d, boost::function1<std::string, std::string>([&mp](const std::string& s) { auto i = mp.find(s); return i == mp.end() ? std::string() : i->second; })); }
    catch (...) { environ = old; throw; }
    environ = old; o.o().a("ok"); opts_out(o, r.options); o.c(); }
  else if (op == "split") { std::vector<std::string> r = n.k.size() > 2 ? split_unix(n[1].a, n[2].a, n[3].a, n[4].a) : split_unix(n[1].a); o.o().a("ok").v(r).c(); }
  else if (op == "wsplit") { std::vector<std::wstring> r = n.k.size() > 2 ? split_unix(wof(n[1]), wof(n[2]), wof(n[3]), wof(n[4])) : split_unix(wof(n[1])); o.o().a("ok"); o.o(); for (auto& x : r) o.a(wtxt(x)); o.c().c(); }
  else if (op == "winm") { o.o().a("ok").v(winm::split(n[1].a)).c(); }
  else if (op == "wwinm") { auto r = winm::split(wof(n[1])); o.o().a("ok").o(); for (auto& x : r) o.a(wtxt(x)); o.c().c(); }
  else if (op == "conv") { // (conv what arg k)
    std::string w = n[1].a; boost::program_options::detail::utf8_codecvt_facet f; slow_utf8 g(n[3].num() > 0 ? n[3].num() : 1); shift_facet h(n[3].num() < -1 ? -n[3].num() - 1 : 1);
    typedef std::codecvt<wchar_t, char, std::mbstate_t> FT; static const std::locale cu("C.utf8");
    const FT& F = n[3].num() > 0 ? (const FT&)g : n[3].num() == -1 ? std::use_facet<FT>(cu) : n[3].num() < 0 ? (const FT&)h : f;
    o.o().a("ok");
    if (w == "from8") o.a(wtxt(boost::from_8_bit(n[2].a, F)));
    else if (w == "to8") o.a(boost::to_8_bit(wof(n[2]), F));
    else if (w == "fromutf8") o.a(wtxt(boost::from_utf8(n[2].a)));
    else if (w == "toutf8") o.a(boost::to_utf8(wof(n[2])));
    else if (w == "fromlocal") o.a(wtxt(boost::from_local_8_bit(n[2].a)));
    else if (w == "tolocal") o.a(boost::to_local_8_bit(wof(n[2])));
    else if (w == "int8") o.a(po::to_internal(n[2].a));
    else if (w == "intw") o.a(po::to_internal(wof(n[2])));
    o.c(); }
  else if (op == "wopt") { // (wopt (key pos (value) (toks) unreg ci)...)
    parsed_options p(0, 7); for (size_t i = 1; i < n.k.size(); ++i) { po::option x; x.string_key = n[i][0].a; x.position_key = n[i][1].num(); x.value = n[i][2].strs(); x.original_tokens = n[i][3].strs(); x.unregistered = n[i][4].num(); x.case_insensitive = n[i][5].num(); p.options.push_back(x); }
    wparsed_options w(p); o.o().a("ok"); opts_out(o, w.options); o.n(w.m_options_prefix); opts_out(o, w.utf8_encoded_options.options); o.c(); }
  else if (op == "collect") { std::vector<po::option> v; for (size_t i = 2; i < n.k.size(); ++i) { po::option x; x.string_key = n[i][0].a; x.position_key = n[i][1].num(); x.value = n[i][2].strs(); x.original_tokens = n[i][3].strs(); x.unregistered = n[i][4].num(); v.push_back(x); }
    o.o().a("ok").v(collect_unrecognized(v, n[1].num() ? include_positional : exclude_positional)).c(); }
  else if (op == "occ") { // (occ kind attrs utf8 (tokens)...): successive parse() calls on one value; then default, notify
    std::unique_ptr<const value_semantic> s(sem(n[1], n[2])); boost::any v; o.o().a("ok").n(s->min_tokens()).a(std::to_string(s->max_tokens())).n(s->is_composing()).n(s->is_required()).a(s->name());
    { boost::any d; bool r = s->apply_default(d); o.n(r).a(show(d)); boost::any d2 = std::string("keep"); r = s->apply_default(d2); o.a(show(d2)); }
    for (size_t i = 4; i < n.k.size(); ++i) { try { s->parse(v, n[i].strs(), n[3].num()); o.a(show(v)); } catch (const std::exception& e) { ex_out(o, e); o.a(show(v)); } }
    notes.clear(); if (!v.empty()) { s->notify(v); } for (auto& f : cur->show) f(); o.v(notes).v(cur->out).c(); }
  else if (op == "vm") { // (vm step...) steps: (store i cmdargs|opts...) 
    // (vm ((desc..)...) nmaps (step)...)
    std::vector<options_description*> ds; for (auto& d : n[1].k) ds.push_back(mkdesc(d));
    std::vector<std::unique_ptr<variables_map> > ms; for (long i = 0; i < n[2].num(); ++i) ms.emplace_back(new variables_map());
    notes.clear(); o.o().a("ok");
    for (size_t i = 3; i < n.k.size(); ++i) { const N& s = n[i]; notes.clear(); cur->out.clear(); o.o();
      try {
        if (s[0].is("store")) { // (store map desc prefix utf8 (opt)...)
          parsed_options p(s[2].num() < 0 ? 0 : ds[s[2].num()], (int)s[3].num());
          for (size_t j = 5; j < s.k.size(); ++j) { po::option x; x.string_key = s[j][0].a; x.position_key = s[j][1].num(); x.value = s[j][2].strs(); x.original_tokens = s[j][3].strs(); x.unregistered = s[j][4].num(); x.case_insensitive = s[j][5].num(); p.options.push_back(x); }
          store(p, *ms[s[1].num()], s[4].num()); }
        else if (s[0].is("cmd")) { // (cmd map desc style args)
          store(command_line_parser(s[4].strs()).options(*ds[s[2].num()]).style((int)s[3].num()).run(), *ms[s[1].num()]); }
        else if (s[0].is("notify")) notify(*ms[s[1].num()]);
        else if (s[0].is("clear")) ms[s[1].num()]->clear();
        else if (s[0].is("next")) ms[s[1].num()]->next(s[2].num() < 0 ? 0 : ms[s[2].num()].get());
        else if (s[0].is("get")) { const variables_map& cm = *ms[s[1].num()]; const variable_value& v = cm[s[2].a]; o.a(show(v.value())).n(v.defaulted()).n(v.empty()).n(cm.count(s[2].a)); }
        else if (s[0].is("put")) { ms[s[1].num()]->insert(std::make_pair(s[2].a, variable_value(boost::any(s[3].a), s[4].num()))); }
        else if (s[0].is("erase")) { ms[s[1].num()]->erase(s[2].a); }
        o.a("done");
      } catch (const std::exception& e) { ex_out(o, e); }
      for (auto& f : cur->show) f();
      o.v(notes).v(cur->out); o.o(); for (auto& m : ms) vm_out(o, *m); o.c(); o.c(); }
    o.c(); }
  else if (op == "err") { // (err class (ctor args) (mutations...)): every library error
    std::unique_ptr<error_with_option_name> e; const std::string& c = n[1].a; const N& a = n[2];
    if (c == "base") e.reset(new error_with_option_name(a[0].a, a[1].a, a[2].a, (int)a[3].num()));
    else if (c == "noname") e.reset(new error_with_no_option_name(a[0].a, a[1].a));
    else if (c == "unknown") e.reset(new unknown_option(a[0].a));
    else if (c == "ambig") e.reset(new ambiguous_option(a.strs()));
    else if (c == "syntax") e.reset(new invalid_command_line_syntax((invalid_syntax::kind_t)a[0].num(), a[1].a, a[2].a, (int)a[3].num()));
    else if (c == "cfgsyntax") e.reset(new invalid_config_file_syntax(a[0].a, (invalid_syntax::kind_t)a[1].num()));
    else if (c == "validation") e.reset(new validation_error((validation_error::kind_t)a[0].num(), a[1].a, a[2].a, (int)a[3].num()));
    else if (c == "value") e.reset(new invalid_option_value(a[0].a));
    else if (c == "wvalue") e.reset(new invalid_option_value(wof(a[0])));
    else if (c == "bool") e.reset(new invalid_bool_value(a[0].a));
    else if (c == "required") e.reset(new required_option(a[0].a));
    else if (c == "multval") e.reset(new multiple_values());
    else if (c == "multocc") e.reset(new multiple_occurrences());
    else abort();
    o.o().a("ok");
    for (size_t i = 3; i < n.k.size(); ++i) { const N& s = n[i];
      if (s[0].is("sub")) e->set_substitute(s[1].a, s[2].a); else if (s[0].is("def")) e->set_substitute_default(s[1].a, s[2].a, s[3].a);
      else if (s[0].is("ctx")) e->add_context(s[1].a, s[2].a, (int)s[3].num()); else if (s[0].is("opt")) e->set_option_name(s[1].a); else if (s[0].is("tok")) e->set_original_token(s[1].a);
      else if (s[0].is("pre")) e->set_prefix((int)s[1].num()); else if (s[0].is("what")) o.a(e->what()); }
    o.a(e->what()).a(e->what()).a(e->get_option_name()).a(e->m_error_template).c(); }
  else if (op == "posd") { auto p = mkpos(n[1]); o.o().a("ok").a(std::to_string(p->max_total_count())); for (size_t i = 2; i < n.k.size(); ++i) o.a(p->name_for_position((unsigned)n[i].num())); o.c(); }
  else if (op == "ping") o.o().a("ok").c();
  else { o.o().a("badop").c(); }
}
int main() {
  std::string line;
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  while (std::getline(std::cin, line)) {
    size_t i = 0; N n = parse_sx(line, i); Out o; Stores st; cur = &st;
    struct itimerval tv = {{0, 0}, {4, 0}}; setitimer(ITIMER_REAL, &tv, 0);      // SIGALRM ends a case that does not terminate
    try { run(n, o); } catch (const std::exception& e) { o.s.clear(); ex_out(o, e); } catch (...) { o.s.clear(); o.o().a("exc").a("unknown").c(); }
    cur = 0; keep.clear();
    fputs(o.s.c_str(), stdout); fputc('\n', stdout); fflush(stdout);
  }
}
