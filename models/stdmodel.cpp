// Stand-ins for the parts of libstdc++ / libc that live in shared libraries rather than in headers.
// Compiled to LLVM IR with -fno-access-control and executed symbolically next to the code under test.
#include <ios>
#include <istream>
#include <ostream>
#include <iostream>
#include <fstream>
#include <sstream>
#include <locale>
#include <string>
#include <stdexcept>
#include <system_error>
#include <regex>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <random>
#include <chrono>
#include <typeinfo>
#include <new>
#include <cstdarg>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cctype>
#include <cwchar>
#include <limits.h>
#include <optional>
#include <variant>
#include <any>
#include <sys/stat.h>
#include <termios.h>
#include "sx.h"
#include "sxfs.hpp"

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char *sx_dup(const char *s, size_t n) { char *p = (char *)malloc(n + 1); if (n) memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string &s) { _M_p = sx_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = sx_dup(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SX_EXC(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
SX_EXC(domain_error, logic_error) SX_EXC(invalid_argument, logic_error) SX_EXC(length_error, logic_error) SX_EXC(out_of_range, logic_error)
SX_EXC(range_error, runtime_error) SX_EXC(overflow_error, runtime_error) SX_EXC(underflow_error, runtime_error)
regex_error::regex_error(regex_constants::error_type c) : runtime_error("regex_error"), _M_code(c) {}
regex_error::~regex_error() noexcept {}
inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
struct sx_category final : error_category { const char *nm; sx_category(const char *n) : nm(n) {} const char *name() const noexcept override { return nm; } string message(int) const override { return "error"; } };
static sx_category *sxGen, *sxSys;
const error_category &generic_category() noexcept { if (!sxGen) sxGen = new sx_category("generic"); return *sxGen; }
const error_category &system_category() noexcept { if (!sxSys) sxSys = new sx_category("system"); return *sxSys; }
}
static sx_category *sxIo;
const error_category &iostream_category() noexcept { if (!sxIo) sxIo = new sx_category("iostream"); return *sxIo; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}
ios_base::failure::failure(const string &s) : system_error(error_code((int)io_errc::stream, iostream_category()), s) {}
ios_base::failure::failure(const string &s, const error_code &e) : system_error(e, s) {}
ios_base::failure::failure(const char *s, const error_code &e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char *ios_base::failure::what() const noexcept { return runtime_error::what(); }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_ios_failure(const char *s) { throw ios_base::failure(string(s)); }
void __throw_ios_failure(const char *s, int) { throw ios_base::failure(string(s)); }
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_regex_error(regex_constants::error_type e) { throw regex_error(e); }
bad_variant_access *sx_force_bva() { return new bad_variant_access(); }
}
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }

// ------------------------------------------------------------------ ctype, locale
namespace std {
static long sxFacDummy;
ctype_base::mask sx_ctab[256];
static void sx_init_ctab() {
  for (int c = 0; c < 128; ++c) {
    unsigned m = 0; bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
    if (up) m |= ctype_base::upper; if (lo) m |= ctype_base::lower; if (up || lo) m |= ctype_base::alpha; if (dg) m |= ctype_base::digit;
    if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
    if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space;
    if (c >= 32 && c < 127) m |= ctype_base::print; if (c > 32 && c < 127) m |= _ISgraph;
    if (c < 32 || c == 127) m |= ctype_base::cntrl; if (c > 32 && c < 127 && !(up || lo || dg)) m |= ctype_base::punct; if (up || lo || dg) m |= _ISalnum;
    if (c == ' ' || c == '\t') m |= ctype_base::blank;
    sx_ctab[c] = (ctype_base::mask)m;
  }
}
locale::id ctype<char>::id;
locale::id codecvt<char, char, mbstate_t>::id;
const size_t ctype<char>::table_size;
ctype<char>::ctype(const mask *t, bool d, size_t r) : facet(r), _M_del(d), _M_table(t ? t : sx_ctab) { memset(_M_widen, 0, sizeof _M_widen); _M_widen_ok = 0; memset(_M_narrow, 0, sizeof _M_narrow); _M_narrow_ok = 0; }
ctype<char>::~ctype() {}
const ctype_base::mask *ctype<char>::classic_table() throw() { return sx_ctab; }
static inline char sx_up(char c) { return (unsigned char)(c - 'a') < 26 ? c - 32 : c; }
static inline char sx_lo(char c) { return (unsigned char)(c - 'A') < 26 ? c + 32 : c; }
char ctype<char>::do_toupper(char c) const { return sx_up(c); }
const char *ctype<char>::do_toupper(char *l, const char *h) const { for (; l < h; ++l) *l = sx_up(*l); return h; }
char ctype<char>::do_tolower(char c) const { return sx_lo(c); }
const char *ctype<char>::do_tolower(char *l, const char *h) const { for (; l < h; ++l) *l = sx_lo(*l); return h; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; ++i) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; ++i) _M_widen[i] = (char)i; _M_widen_ok = 1; }

locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return (__c_locale)&sxFacDummy; }
__c_locale locale::facet::_S_clone_c_locale(__c_locale &l) throw() { return l; }
void locale::facet::_S_destroy_c_locale(__c_locale &) {}
void locale::facet::_S_create_c_locale(__c_locale &l, const char *, __c_locale) { l = (__c_locale)&sxFacDummy; }
size_t sx_nextId;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++sx_nextId; return _M_index - 1; }
static locale::_Impl *sxImpl; static const locale::facet *sxFac[64], *sxCache[64];
void locale::_Impl::_M_install_cache(const facet *f, size_t i) { _M_caches[i] = f; }
locale::locale() throw() { _M_impl = sxImpl; }
locale::locale(const locale &o) throw() { _M_impl = o._M_impl; }
locale::locale(const char *) { _M_impl = sxImpl; }
locale::~locale() throw() {}
const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale &o) const throw() { return _M_impl == o._M_impl; }
string locale::name() const { return "C"; }
static locale *sxClassic;
const locale &locale::classic() { return *sxClassic; }
locale locale::global(const locale &o) { return o; }

codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r), _M_c_locale_codecvt(nullptr) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type &, const intern_type *f, const intern_type *, const intern_type *&fn, extern_type *t, extern_type *, extern_type *&tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type &, extern_type *t, extern_type *, extern_type *&tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type &, const extern_type *f, const extern_type *, const extern_type *&fn, intern_type *t, intern_type *, intern_type *&tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type &, const extern_type *f, const extern_type *e, size_t m) const { size_t d = e - f; return (int)(m < d ? m : d); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }

const char *__num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char *__num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base &io, char *f, char mod) throw() {
  ios_base::fmtflags fl = io.flags(); *f++ = '%';
  if (fl & ios_base::showpos) *f++ = '+'; if (fl & ios_base::showpoint) *f++ = '#';
  ios_base::fmtflags ff = fl & ios_base::floatfield;
  if (ff != (ios_base::fixed | ios_base::scientific)) { *f++ = '.'; *f++ = '*'; }
  if (mod) *f++ = mod;
  if (ff == ios_base::fixed) *f++ = 'f'; else if (ff == ios_base::scientific) *f++ = (fl & ios_base::uppercase) ? 'E' : 'e'; else if (ff == (ios_base::fixed | ios_base::scientific)) *f++ = 'a'; else *f++ = (fl & ios_base::uppercase) ? 'G' : 'g';
  *f = 0;
}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
  if (!_M_data) _M_data = new __numpunct_cache<char>;
  _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
  for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
  for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
  _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() {}
template <> int collate<char>::_M_compare(const char *a, const char *b) const throw() { int r = strcmp(a, b); return r < 0 ? -1 : r > 0; }
template <> size_t collate<char>::_M_transform(char *d, const char *s, size_t n) const throw() { size_t l = strlen(s); for (size_t i = 0; i < n && i <= l; ++i) d[i] = s[i]; return l; }
double sx_strtod(const char *s, char **e);
void __convert_to_v_impl(const char *s, double &v, ios_base::iostate &err) {
  char *e; v = sx_strtod(s, &e); if (e == s || *e) { v = 0; err = ios_base::failbit; }
}
template <> void __convert_to_v(const char *s, double &v, ios_base::iostate &err, const __c_locale &) throw() { __convert_to_v_impl(s, v, err); }
template <> void __convert_to_v(const char *s, float &v, ios_base::iostate &err, const __c_locale &) throw() { double d; __convert_to_v_impl(s, d, err); v = (float)d; }
template <> void __convert_to_v(const char *, long double &, ios_base::iostate &, const __c_locale &) throw() { sx_unsupported("long double input"); }
bool __verify_grouping(const char *, size_t, const string &) throw() { return true; }

template <class Fac> static void sx_install(Fac *f) { sxFac[Fac::id._M_id()] = f; }
static void sx_init_locale() {
  sx_init_ctab();
  sxImpl = (locale::_Impl *)calloc(1, sizeof(locale::_Impl));
  sxImpl->_M_refcount = 1; sxImpl->_M_facets = sxFac; sxImpl->_M_facets_size = 64; sxImpl->_M_caches = sxCache;
  sxClassic = new locale();
  sx_install(new ctype<char>(nullptr, false, 1));
  sx_install(new codecvt<char, char, mbstate_t>(1));
  sx_install(new numpunct<char>(1));
  sx_install(new num_get<char>(1));
  sx_install(new num_put<char>(1));
  sx_install(new collate<char>(1));
}

// ------------------------------------------------------------------ ios_base
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(badbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale &l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks(void) throw() {}
bool ios_base::sync_with_stdio(bool b) { return b; }
int ios_base::xalloc() throw() { static int n = 4; return n++; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base_library_init() {}
bool uncaught_exception_();

// specialisations that libstdc++ defines in istream.cc
template <> istream &getline(istream &in, string &s, char d) {
  ios_base::iostate err = ios_base::goodbit; size_t n = 0; istream::sentry ok(in, true);
  if (ok) {
    s.erase();
    try {
      streambuf *sb = in.rdbuf(); int c = sb->sgetc();
      while (c != EOF && (char)c != d) { s.push_back((char)c); ++n; c = sb->snextc(); }
      if (c == EOF) err |= ios_base::eofbit; else { ++n; sb->sbumpc(); }
    } catch (...) { err |= ios_base::badbit; }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream &operator>>(istream &in, string &s) {
  ios_base::iostate err = ios_base::goodbit; size_t n = 0; istream::sentry ok(in, false);
  if (ok) {
    s.erase(); size_t w = (size_t)in.width(); if (!w) w = s.max_size();
    try {
    streambuf *sb = in.rdbuf(); int c = sb->sgetc();
    while (n < w && c != EOF && !(((unsigned char)c <= 32) & ((c == 32) | ((c >= 9) & (c <= 13))))) { s.push_back((char)c); ++n; c = sb->snextc(); }
    if (c == EOF) err |= ios_base::eofbit;
    in.width(0);
    } catch (...) { err |= ios_base::badbit; }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream &istream::ignore(streamsize n) {
  _M_gcount = 0; sentry ok(*this, true);
  if (ok && n > 0) { ios_base::iostate err = ios_base::goodbit; streambuf *sb = rdbuf(); while (n == numeric_limits<streamsize>::max() || _M_gcount < n) { int c = sb->sbumpc(); if (c == EOF) { err |= ios_base::eofbit; break; } ++_M_gcount; } if (err) setstate(err); }
  return *this;
}
template <> istream &istream::ignore(streamsize n, int_type d) {
  _M_gcount = 0; sentry ok(*this, true);
  if (ok && n > 0) { ios_base::iostate err = ios_base::goodbit; streambuf *sb = rdbuf(); while (n == numeric_limits<streamsize>::max() || _M_gcount < n) { int c = sb->sbumpc(); if (c == EOF) { err |= ios_base::eofbit; break; } ++_M_gcount; if (c == d) break; } if (err) setstate(err); }
  return *this;
}
template <> istream &istream::getline(char *s, streamsize n, char d) {
  _M_gcount = 0; ios_base::iostate err = ios_base::goodbit; sentry ok(*this, true);
  if (ok) {
    try {
    streambuf *sb = rdbuf(); int c = sb->sgetc();
    while (_M_gcount + 1 < n && c != EOF && (char)c != d) { *s++ = (char)c; ++_M_gcount; c = sb->snextc(); }
    if (c == EOF) err |= ios_base::eofbit; else if ((char)c == d) { ++_M_gcount; sb->sbumpc(); } else err |= ios_base::failbit;
    } catch (...) { err |= ios_base::badbit; }
  }
  if (n > 0) *s = 0;
  if (!_M_gcount) err |= ios_base::failbit;
  if (err) setstate(err);
  return *this;
}
streamsize __copy_streambufs_impl(streambuf *in, streambuf *out, bool &eof) { streamsize n = 0; eof = true; int c = in->sgetc(); while (c != EOF) { if (out->sputc((char)c) == EOF) { eof = false; break; } ++n; c = in->snextc(); } return n; }
template <> streamsize __copy_streambufs_eof(streambuf *in, streambuf *out, bool &eof) { return __copy_streambufs_impl(in, out, eof); }

// ------------------------------------------------------------------ trees, lists, hash tables
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void sx_rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void sx_rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  auto *&root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto *g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { auto *y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; sx_rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; sx_rotr(g, root); } }
    else { auto *y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; sx_rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; sx_rotl(g, root); } }
  }
  root->_M_color = _S_black;
}
// removal without rebalancing: the tree stays a correct search tree (depth is irrelevant here)
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto *&root = h._M_parent; _Rb_tree_node_base *&lm = h._M_left, *&rm = h._M_right;
  auto *next = z == rm ? nullptr : _Rb_tree_increment(z); auto *prev = z == lm ? nullptr : _Rb_tree_decrement(z);
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (o == root) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { auto *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color; }
  if (z == lm) lm = next ? next : &h; if (z == rm) rm = prev ? prev : &h;
  if (root) root->_M_color = _S_black;
  return z;
}
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
// one bucket: equality of keys alone decides, whatever the hash of a symbolic key would be
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}
size_t _Hash_bytes(const void *, size_t, size_t) { return 0; }
size_t _Fnv_hash_bytes(const void *, size_t, size_t) { return 0; }

// ------------------------------------------------------------------ misc library
void random_device::_M_init(const string &) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { if (!sx_kv_get(900)) return 42; /* before the harness starts */ unsigned v; sx_make(&v, 4, "random_device"); return v; }
}
namespace std { namespace chrono { inline namespace _V2 {
static long sx_clock;
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { sx_clock += 1000000; return time_point(duration(sx_clock)); }
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { sx_clock += 1000000; return time_point(duration(sx_clock)); }
} } }

// ------------------------------------------------------------------ libc
extern "C" {
int *__errno_location() { static int e; return &e; }
int strcmp(const char *a, const char *b) { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { for (;; ++a, ++b) { unsigned char x = std::sx_lo(*a), y = std::sx_lo(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = std::sx_lo(*a), y = std::sx_lo(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
char *sx_strchr(const char *s, int c) asm("strchr");
char *sx_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *sx_strrchr(const char *s, int c) asm("strrchr");
char *sx_strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *sx_strstr(const char *h, const char *n) asm("strstr");
char *sx_strstr(const char *h, const char *n) { for (;; ++h) { const char *a = h, *b = n; while (*b && *a == *b) { ++a; ++b; } if (!*b) return (char *)h; if (!*h) return nullptr; } }
size_t strcspn(const char *s, const char *r) { size_t n = 0; for (; s[n] && !strchr(r, s[n]); ++n) {} return n; }
size_t strspn(const char *s, const char *r) { size_t n = 0; for (; s[n] && strchr(r, s[n]); ++n) {} return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { ++d; ++s; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); memcpy(p, s, n + 1); return p; }
char *strerror(int) { return (char *)"error"; }
char *strerror_r(int, char *b, size_t n) { if (n) strncpy(b, "error", n); return b; }
char *ctime_r(const time_t *, char *b) { return strcpy(b, "Thu Jan  1 00:00:00 1970\n"); }
struct tm *gmtime_r(const time_t *t, struct tm *r) { memset(r, 0, sizeof *r); r->tm_year = 70; r->tm_mday = 1; r->tm_wday = 4; return r; }
struct tm *localtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) ++n; return n; }
void *sx_memrchr(const void *p, int c, size_t n) asm("memrchr");
void *sx_memrchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return nullptr; }
#define SX_CT(nm, m) int nm(int c) { return (unsigned)c < 256 ? (std::sx_ctab[c] & (m)) != 0 : 0; }
SX_CT(isupper, std::ctype_base::upper) SX_CT(islower, std::ctype_base::lower) SX_CT(isalpha, std::ctype_base::alpha) SX_CT(isdigit, std::ctype_base::digit) SX_CT(isxdigit, std::ctype_base::xdigit) SX_CT(isspace, std::ctype_base::space) SX_CT(isprint, std::ctype_base::print) SX_CT(isgraph, std::ctype_base::graph) SX_CT(iscntrl, std::ctype_base::cntrl) SX_CT(ispunct, std::ctype_base::punct) SX_CT(isalnum, std::ctype_base::alnum) SX_CT(isblank, std::ctype_base::blank)
int toupper(int c) { return (unsigned)(c - 'a') < 26 ? c - 32 : c; }
int tolower(int c) { return (unsigned)(c - 'A') < 26 ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long llabs_(long x) { return x < 0 ? -x : x; }
static unsigned long sx_strto(const char *s, char **e, int base, int sg, unsigned long lim, unsigned long nlim) {
  const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
  bool neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, ov = false; unsigned long L = neg && sg ? nlim : lim;
  for (;; ++p) {
    int d; unsigned char c = (unsigned char)*p;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    any = true; if (!ov) { if (v > (L - d) / base) ov = true; else v = v * base + d; }
  }
  if (e) *e = (char *)(any ? p : s);
  if (ov) { *__errno_location() = 34; return neg && sg ? 0 - nlim : lim; }
  return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { return (long)sx_strto(s, e, b, 1, LONG_MAX, 1ul + LONG_MAX); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return sx_strto(s, e, b, 0, ULONG_MAX, 0); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int sx_atoi(const char *s) asm("atoi");
int sx_atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long sx_atol(const char *s) asm("atol");
long sx_atol(const char *s) { return strtol(s, nullptr, 10); }
int sx_host_strtod(const char *s, double *v);       // length consumed (concrete text only)
int sx_host_fmtd(char *buf, const char *spec, double v); // formats a concrete double
double strtod(const char *s, char **e) { double v = 0; int n = sx_host_strtod(s, &v); if (e) *e = (char *)s + n; return v; }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
char *getenv(const char *) { return nullptr; }
long time(long *t) { if (t) *t = 1000; return 1000; }
int clock_gettime(int, struct timespec *t) { static long c; c += 1000000; long *p = (long *)t; p[0] = c / 1000000000; p[1] = c % 1000000000; return 0; }
void *sx___uselocale(void *) asm("__uselocale");
void *sx___uselocale(void *) { return nullptr; }
void *sx_uselocale(void *) asm("uselocale");
void *sx_uselocale(void *) { return nullptr; }
void *sx_newlocale(int, const char *, void *) asm("__newlocale");
void *sx_newlocale(int, const char *, void *) { return nullptr; }
void sx_freelocale(void *) asm("__freelocale");
void sx_freelocale(void *) {}
void *sx_duplocale(void *) asm("__duplocale");
void *sx_duplocale(void *) { return nullptr; }
char __libc_single_threaded = 0;
int sx_emit_double(char *buf, size_t cap, double v, char conv, int prec);

struct SxOut { char *b; size_t n, cap; };
static inline void sx_oc(SxOut &o, char c) { if (o.n + 1 < o.cap) o.b[o.n] = c; ++o.n; }
static void sx_pad(SxOut &o, char c, long k) { for (; k > 0; --k) sx_oc(o, c); }
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) {
  SxOut o{buf, 0, cap};
  for (; *f; ++f) {
    if (*f != '%') { sx_oc(o, *f); continue; }
    ++f;
    bool left = false, plus = false, zero = false, alt = false, space = false; long width = 0, prec = -1;
    for (;; ++f) { if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '0') zero = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } ++f; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0; for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') ++lng; else if (*f == 'q') lng = 2; else if (*f == 'h') --lng; else if (*f == 'L') lng = 10; else break; }
    char c = *f;
    if (c == '%') { sx_oc(o, '%'); continue; }
    if (c == 'c') { char x = (char)va_arg(ap, int); if (!left) sx_pad(o, ' ', width - 1); sx_oc(o, x); if (left) sx_pad(o, ' ', width - 1); continue; }
    if (c == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t l = prec >= 0 ? strnlen(s, prec) : strlen(s); if (!left) sx_pad(o, ' ', width - (long)l); for (size_t i = 0; i < l; ++i) sx_oc(o, s[i]); if (left) sx_pad(o, ' ', width - (long)l); continue; }
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      unsigned long v; bool neg = false; unsigned base = (c == 'x' || c == 'X' || c == 'p') ? 16 : c == 'o' ? 8 : 10;
      if (c == 'p') { v = (unsigned long)va_arg(ap, void *); alt = true; }
      else if (c == 'd' || c == 'i') { long s = lng >= 1 ? va_arg(ap, long) : (long)va_arg(ap, int); if (lng == -1) s = (short)s; if (lng <= -2) s = (signed char)s; neg = s < 0; v = neg ? 0ul - (unsigned long)s : (unsigned long)s; }
      else { v = lng >= 1 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng <= -2) v = (unsigned char)v; }
      char t[32]; int k = 0; const char *dg = c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; bool nz = v != 0;
      if (v == 0) { if (prec != 0) t[k++] = '0'; } else while (v) { t[k++] = dg[v % base]; v /= base; }
      long zeros = prec > k ? prec - k : 0; char sign = neg ? '-' : (c == 'd' || c == 'i') ? (plus ? '+' : space ? ' ' : 0) : 0; int pre = (alt && base == 16 && nz) ? 2 : 0; long tot = k + zeros + (sign ? 1 : 0) + pre;
      if (zero && !left && prec < 0 && width > tot) { zeros += width - tot; tot = width; }
      if (!left) sx_pad(o, ' ', width - tot);
      if (sign) sx_oc(o, sign); if (pre) { sx_oc(o, '0'); sx_oc(o, c == 'X' ? 'X' : 'x'); }
      sx_pad(o, '0', zeros); while (k) sx_oc(o, t[--k]); if (left) sx_pad(o, ' ', width - tot); continue;
    }
    if (c == 'f' || c == 'e' || c == 'g' || c == 'E' || c == 'G' || c == 'F' || c == 'a') {
      if (lng == 10) sx_unsupported("printf of long double");
      double v = va_arg(ap, double); char t[512]; 
      char spec[16]; int q = 0; spec[q++] = '%'; if (plus) spec[q++] = '+'; if (alt) spec[q++] = '#'; if (space) spec[q++] = ' '; long pp = prec < 0 ? 6 : prec; if (pp > 400) sx_unsupported("printf precision"); if (c != 'a' || prec >= 0) { spec[q++] = '.'; if (pp >= 100) spec[q++] = '0' + pp / 100; if (pp >= 10) spec[q++] = '0' + pp / 10 % 10; spec[q++] = '0' + pp % 10; } spec[q++] = c; spec[q] = 0;
      int k = sx_host_fmtd(t, spec, v);
      long fill = width - k; if (!left && !zero) sx_pad(o, ' ', fill); int i0 = 0; if (!left && zero) { if (t[0] == '-' || t[0] == '+') { sx_oc(o, t[0]); i0 = 1; } sx_pad(o, '0', fill); }
      for (int i = i0; i < k; ++i) sx_oc(o, t[i]); if (left) sx_pad(o, ' ', fill); continue;
    }
    sx_unsupported("printf conversion");
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1u << 30, f, ap); }
int printf(const char *f, ...) { char t[4096]; va_list ap; va_start(ap, f); int r = vsnprintf(t, 4096, f, ap); va_end(ap); std::cout.write(t, r); return r; }
int puts(const char *s) { std::cout << s << '\n'; return 1; }
int sx_putchar(int c) asm("putchar");
int sx_putchar(int c) { std::cout.put((char)c); return c; }
static int md5Real = 0;
void sx_md5_real(int on) { md5Real = on; }
void sx_create_point(void); static int md5Yield; void sx_md5_yield(int on) { md5Yield = on; }
static void realMD5(const unsigned char *d, size_t n, unsigned char *md) {
  static const unsigned K[64] = {0xd76aa478u, 0xe8c7b756u, 0x242070dbu, 0xc1bdceeeu, 0xf57c0fafu, 0x4787c62au, 0xa8304613u, 0xfd469501u, 0x698098d8u, 0x8b44f7afu, 0xffff5bb1u, 0x895cd7beu, 0x6b901122u, 0xfd987193u, 0xa679438eu, 0x49b40821u, 0xf61e2562u, 0xc040b340u, 0x265e5a51u, 0xe9b6c7aau, 0xd62f105du, 0x02441453u, 0xd8a1e681u, 0xe7d3fbc8u, 0x21e1cde6u, 0xc33707d6u, 0xf4d50d87u, 0x455a14edu, 0xa9e3e905u, 0xfcefa3f8u, 0x676f02d9u, 0x8d2a4c8au, 0xfffa3942u, 0x8771f681u, 0x6d9d6122u, 0xfde5380cu, 0xa4beea44u, 0x4bdecfa9u, 0xf6bb4b60u, 0xbebfbc70u, 0x289b7ec6u, 0xeaa127fau, 0xd4ef3085u, 0x04881d05u, 0xd9d4d039u, 0xe6db99e5u, 0x1fa27cf8u, 0xc4ac5665u, 0xf4292244u, 0x432aff97u, 0xab9423a7u, 0xfc93a039u, 0x655b59c3u, 0x8f0ccc92u, 0xffeff47du, 0x85845dd1u, 0x6fa87e4fu, 0xfe2ce6e0u, 0xa3014314u, 0x4e0811a1u, 0xf7537e82u, 0xbd3af235u, 0x2ad7d2bbu, 0xeb86d391u}, R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  unsigned h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u}; const size_t total = (n + 8) / 64 * 64 + 64; unsigned char b[64];
  for (size_t o = 0; o < total; o += 64) {
    for (size_t i = 0; i < 64; ++i) { const size_t p = o + i; b[i] = p < n ? d[p] : p == n ? 0x80 : p >= total - 8 ? (unsigned char)((unsigned long)n * 8 >> 8 * (p - (total - 8))) : 0; }
    unsigned A = h[0], B = h[1], C = h[2], D = h[3];
    for (unsigned i = 0; i < 64; ++i) { unsigned f, g; if (i < 16) { f = (B & C) | (~B & D); g = i; } else if (i < 32) { f = (D & B) | (~D & C); g = (5 * i + 1) & 15; } else if (i < 48) { f = B ^ C ^ D; g = (3 * i + 5) & 15; } else { f = C ^ (B | ~D); g = (7 * i) & 15; } unsigned m = b[4 * g] | b[4 * g + 1] << 8 | b[4 * g + 2] << 16 | (unsigned)b[4 * g + 3] << 24; f += A + K[i] + m; A = D; D = C; C = B; const unsigned r = R[i / 16][i & 3]; B += f << r | f >> (32 - r); }
    h[0] += A; h[1] += B; h[2] += C; h[3] += D;
  }
  for (int i = 0; i < 16; ++i) md[i] = (unsigned char)(h[i / 4] >> 8 * (i & 3));
}
unsigned char *MD5(const unsigned char *d, size_t n, unsigned char *md) { static unsigned char st[16]; if (!md) md = st; if (md5Yield) sx_create_point(); bool plain = md5Real; for (size_t i = 0; plain && i < n; ++i) plain = !sx_is_symbolic(d[i]); if (plain) realMD5(d, n, md); else sx_md5(d, n, md); return md; }
}
double std::sx_strtod(const char *s, char **e) { return strtod(s, e); }

// ------------------------------------------------------------------ standard streams
struct SxOutBuf : std::streambuf {
  std::string *data;
  SxOutBuf() : data(new std::string()) {}
  int overflow(int c) override { if (c != EOF) data->push_back((char)c); return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *s, std::streamsize n) override { data->append(s, n); return n; }
};
struct SxInBuf : std::streambuf {
  void set(const char *p, size_t n) { char *b = (char *)malloc(n + 1); if (n) memcpy(b, p, n); setg(b, b, b + n); }
  int underflow() override { return gptr() < egptr() ? (unsigned char)*gptr() : EOF; }
};
alignas(16) char sx_cout[sizeof(std::ostream)] asm("_ZSt4cout");
alignas(16) char sx_cerr[sizeof(std::ostream)] asm("_ZSt4cerr");
alignas(16) char sx_clog[sizeof(std::ostream)] asm("_ZSt4clog");
alignas(16) char sx_cin[sizeof(std::istream)] asm("_ZSt3cin");
static SxOutBuf *sxOutB, *sxErrB; static SxInBuf *sxInB;
extern "C" void sx_stdin(const void *p, size_t n) { sxInB->set((const char *)p, n); }
extern "C" size_t sx_stdout_size() { return sxOutB->data->size(); }
extern "C" size_t sx_stdout_get(char *p, size_t cap) { size_t n = sxOutB->data->size(); if (n > cap) n = cap; memcpy(p, sxOutB->data->data(), n); return sxOutB->data->size(); }
extern "C" FILE *stdin, *stdout, *stderr;
__attribute__((constructor(101))) static void sx_init_std() {
  std::sx_init_locale();
  sxOutB = new SxOutBuf(); sxErrB = new SxOutBuf(); sxInB = new SxInBuf();
  new (sx_cout) std::ostream(sxOutB); new (sx_cerr) std::ostream(sxErrB); new (sx_clog) std::ostream(sxErrB); new (sx_cin) std::istream(sxInB);
  ((std::istream *)sx_cin)->tie((std::ostream *)sx_cout);
}
// type_info objects of the fundamental types (they live in libsupc++); only their names are ever looked at
struct SxTI { const void *vt; const char *name; };
#define SX_TI(x) extern "C" const SxTI sxti_##x __asm__("_ZTI" #x) __attribute__((used)); const SxTI sxti_##x = {nullptr, #x};
SX_TI(i) SX_TI(j) SX_TI(l) SX_TI(m) SX_TI(x) SX_TI(y) SX_TI(b) SX_TI(c) SX_TI(h) SX_TI(a) SX_TI(s) SX_TI(t) SX_TI(f) SX_TI(d) SX_TI(v) SX_TI(e) SX_TI(w)

// standard input is no terminal unless a harness says otherwise
extern "C" __attribute__((weak)) int tcgetattr(int, struct termios *) noexcept { return -1; }
extern "C" __attribute__((weak)) int tcsetattr(int, int, const struct termios *) noexcept { return -1; }
// Zero-padded hexadecimal output that fits its width needs no case distinction on the number of digits.
typedef std::ostreambuf_iterator<char> SxOIt; typedef std::num_put<char, SxOIt> SxNP;
SxOIt sx_insert_ul(const SxNP *np, SxOIt o, std::ios_base &io, char fill, unsigned long v) asm("sxo$_ZNKSt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE13_M_insert_intImEES3_S3_RSt8ios_basecT_");
SxOIt sx_insert_ul(const SxNP *np, SxOIt o, std::ios_base &io, char fill, unsigned long v)
{
  const std::ios_base::fmtflags f = io.flags(); const std::streamsize w = io.width();
  if ((f & std::ios_base::basefield) == std::ios_base::hex && fill == '0' && (f & std::ios_base::adjustfield) != std::ios_base::left && !(f & std::ios_base::showbase) && w > 0 && w <= 32 && (w >= 16 || !(v >> (4 * w)))) {
    char b[32]; const unsigned long a = f & std::ios_base::uppercase ? 'A' - 10 : 'a' - 10;
    for (long i = 0; i < w; ++i) { const long s = 4 * (w - 1 - i); const unsigned long d = s >= 64 ? 0 : (v >> s) & 15; b[i] = (char)(d + (d < 10 ? (unsigned long)'0' : a)); }
    io.width(0); return std::__write(o, b, (int)w);
  }
  return np->_M_insert_int<unsigned long long>(o, io, fill, v);
}

// bzip2: what is compressed leaves the program when the stream is closed (its blocks are larger than anything written here)
struct SxBz { FILE *f; char *d; size_t n, cap; };
extern "C" {
void *BZ2_bzWriteOpen(int *e, FILE *f, int, int, int) { if (!f || ferror(f)) { *e = f ? -6 : -2; return nullptr; } SxBz *b = (SxBz *)malloc(sizeof(SxBz)); b->f = f; b->d = nullptr; b->n = b->cap = 0; *e = 0; return b; }
void BZ2_bzWrite(int *e, void *h, void *p, int n) { SxBz *b = (SxBz *)h; if (!b || !p || n < 0) { *e = -2; return; } if (ferror(b->f)) { *e = -6; return; } if (b->n + n > b->cap) { b->cap = 2 * (b->n + n) + 64; char *d = (char *)malloc(b->cap); if (b->n) memcpy(d, b->d, b->n); free(b->d); b->d = d; } memcpy(b->d + b->n, p, n); b->n += n; *e = 0; }
void BZ2_bzWriteClose(int *e, void *h, int abandon, unsigned *in, unsigned *out) {
  SxBz *b = (SxBz *)h; if (in) *in = 0; if (out) *out = 0; if (!b) { if (e) *e = 0; return; } if (ferror(b->f)) { if (e) *e = -6; free(b->d); free(b); return; }
  if (!abandon) { bool bad = fwrite("BZh8", 1, 4, b->f) != 4; bad |= b->n && fwrite(b->d, 1, b->n, b->f) != b->n; bad |= fwrite("!end", 1, 4, b->f) != 4; if (bad || ferror(b->f)) { if (e) *e = -6; return; } if (fflush(b->f) != 0) { if (e) *e = -6; return; } }
  if (e) *e = 0; free(b->d); free(b);
}
int BZ2_bzBuffToBuffDecompress(char *d, unsigned *n, char *s, unsigned k, int, int) { if (k < 8 || memcmp(s, "BZh8", 4) || memcmp(s + k - 4, "!end", 4)) return -5; if (*n < k - 8) return -8; memcpy(d, s + 4, k - 8); *n = k - 8; return 0; }
}
