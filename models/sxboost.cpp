// boost::filesystem and boost::program_options (the parts that live in their shared libraries) over the in-memory file system.
#include <boost/filesystem.hpp>
#include <boost/program_options.hpp>
#include <cstring>
#include "sx.h"
#include "sxfs.hpp"
namespace bs = boost::system;
namespace boost { namespace filesystem {
// ---- errors
filesystem_error::filesystem_error(const char *w, bs::error_code ec) : bs::system_error(ec, w) {}
filesystem_error::filesystem_error(std::string const &w, bs::error_code ec) : bs::system_error(ec, w) {}
filesystem_error::filesystem_error(const char *w, path const &, bs::error_code ec) : bs::system_error(ec, w) {}
filesystem_error::filesystem_error(std::string const &w, path const &, bs::error_code ec) : bs::system_error(ec, w) {}
filesystem_error::filesystem_error(filesystem_error const &o) : bs::system_error(o) {}
filesystem_error::~filesystem_error() BOOST_NOEXCEPT_OR_NOTHROW {}
const char *filesystem_error::what() const BOOST_NOEXCEPT_OR_NOTHROW { return "filesystem error"; }
static bs::error_code sxErr(int e) { return bs::error_code(e, bs::system_category()); }
static void fail(const char *w, const path &p, int e, bs::error_code *ec) { if (ec) { *ec = sxErr(e); return; } throw filesystem_error(w, p, sxErr(e)); }
// ---- paths (POSIX)
namespace detail {
void path_algorithms::append_v3(path &p, const char *b, const char *e) {
  if (b == e) return;
  if (*b != '/' && !p.m_pathname.empty() && p.m_pathname.back() != '/') p.m_pathname += '/';
  p.m_pathname.append(b, e);
}
path path_algorithms::filename_v3(path const &p) { const std::string &s = p.m_pathname; size_t k = s.rfind('/'); if (k == std::string::npos) return path(s); if (k + 1 == s.size()) return s.size() == 1 ? path("/") : path("."); return path(s.substr(k + 1)); }
path path_algorithms::stem_v3(path const &p) { path f = filename_v3(p); const std::string &s = f.m_pathname; if (s == "." || s == "..") return f; size_t k = s.rfind('.'); return k == std::string::npos ? f : path(s.substr(0, k)); }
path path_algorithms::extension_v3(path const &p) { path f = filename_v3(p); const std::string &s = f.m_pathname; if (s == "." || s == "..") return path(); size_t k = s.rfind('.'); return k == std::string::npos ? path() : path(s.substr(k)); }
uintmax_t file_size(path const &p, bs::error_code *ec) { SxFile *f = sxfs_find(p.c_str()); if (ec) ec->clear(); if (!f || f->isDir) { fail("boost::filesystem::file_size", p, f ? 21 : 2, ec); return (uintmax_t)-1; } return f->virt ? f->vsize : f->size; }
std::time_t last_write_time(path const &p, bs::error_code *ec) { SxFile *f = sxfs_find(p.c_str()); if (ec) ec->clear(); if (!f) { fail("boost::filesystem::last_write_time", p, 2, ec); return (std::time_t)-1; } return 1000; }
static bool isDirPath(const char *n) { if (!*n) return false; if (strcmp(n, "/") == 0 || strcmp(n, ".") == 0 || strcmp(n, "./") == 0 || strcmp(n, "/tmp") == 0) return true; SxFile *f = sxfs_find(n); return f && f->isDir; }
file_status status(path const &p, bs::error_code *ec) { if (ec) ec->clear(); SxFile *f = sxfs_find(p.c_str()); if (isDirPath(p.c_str())) return file_status(directory_file, (perms)0755); if (!f) return file_status(file_not_found, no_perms); return file_status(regular_file, (perms)0644); }
file_status symlink_status(path const &p, bs::error_code *ec) { return status(p, ec); }
bool equivalent(path const &a, path const &b, bs::error_code *ec) { if (ec) ec->clear(); SxFile *f = sxfs_find(a.c_str()), *g = sxfs_find(b.c_str()); if (!f && !g) fail("boost::filesystem::equivalent", a, 2, ec); return f && f == g; }
bool remove(path const &p, bs::error_code *ec) { if (ec) ec->clear(); return sxfs_remove(p.c_str()); }
bool create_directory(path const &p, path const *, bs::error_code *ec) { if (ec) ec->clear(); if (isDirPath(p.c_str())) return false; SxFile *f = sxfs_create(p.c_str()); if (!f) { fail("create_directory", p, 2, ec); return false; } f->isDir = true; return true; }
bool create_directories(path const &p, bs::error_code *ec) { if (ec) ec->clear(); std::string s = p.string(); for (size_t i = 1; i <= s.size(); ++i) if (i == s.size() || s[i] == '/') create_directory(path(s.substr(0, i)), nullptr, ec); return true; }
void rename(path const &a, path const &b, bs::error_code *ec) { if (ec) ec->clear(); if (::rename(a.c_str(), b.c_str())) fail("rename", a, 2, ec); }
path temp_directory_path(bs::error_code *ec) { if (ec) ec->clear(); return path(sx_tmpdir()); }
path unique_path(path const &m, bs::error_code *ec) { static int n; if (ec) ec->clear(); std::string s = m.string(); int k = ++n; for (size_t i = s.size(); i--;) if (s[i] == '%') { s[i] = "0123456789abcdef"[k & 15]; k >>= 4; } return path(s); }
path current_path(bs::error_code *ec) { if (ec) ec->clear(); return path("/"); }
// ---- directory iteration: every file of the directory tree in creation order
dir_itr_imp::~dir_itr_imp() BOOST_NOEXCEPT {}
void *dir_itr_imp::operator new(std::size_t n, std::size_t x) BOOST_NOEXCEPT { return malloc(n + x); }
void dir_itr_imp::operator delete(void *p, std::size_t) BOOST_NOEXCEPT { free(p); }
void dir_itr_imp::operator delete(void *p) BOOST_NOEXCEPT { free(p); }
static bool below(const char *n, const std::string &d, bool rec) { size_t k = d.size(); if (strncmp(n, d.c_str(), k) != 0 || n[k] != '/' || !n[k + 1]) return false; return rec || !strchr(n + k + 1, '/'); }
// handle: the directory and position, packed
struct SxDir { std::string dir; int at; bool rec; };
static bool step(dir_itr_imp *im, SxDir *d) { for (; d->at < SX_MAXF; ++d->at) if (sxFiles[d->at].exists && below(sxFiles[d->at].name, d->dir, d->rec)) { im->dir_entry.assign(path(sxFiles[d->at].name), file_status(), file_status()); ++d->at; return true; } return false; }
void recursive_directory_iterator_construct(recursive_directory_iterator &it, path const &p, unsigned opts, bs::error_code *ec) {
  if (ec) ec->clear(); it.m_imp.reset();
  if (!isDirPath(p.c_str())) { fail("recursive_directory_iterator", p, 2, ec); return; }
  boost::intrusive_ptr<recur_dir_itr_imp> im(new recur_dir_itr_imp(opts));
  SxDir *d = new SxDir{p.string(), 0, true}; while (d->dir.size() > 1 && d->dir.back() == '/') d->dir.pop_back();
  directory_iterator di; di.m_imp.reset(new (std::size_t(0)) dir_itr_imp()); di.m_imp->handle = d;
  if (!step(di.m_imp.get(), d)) return;
  im->m_stack.push_back(di); it.m_imp = im;
}
void recursive_directory_iterator_increment(recursive_directory_iterator &it, bs::error_code *ec) { if (ec) ec->clear(); dir_itr_imp *im = it.m_imp->m_stack.back().m_imp.get(); if (!step(im, (SxDir *)im->handle)) it.m_imp.reset(); }
void directory_iterator_construct(directory_iterator &it, path const &p, unsigned, directory_iterator_params *, bs::error_code *ec) {
  if (ec) ec->clear(); it.m_imp.reset(); if (!isDirPath(p.c_str())) { fail("directory_iterator", p, 2, ec); return; }
  SxDir *d = new SxDir{p.string(), 0, false}; boost::intrusive_ptr<dir_itr_imp> im(new (std::size_t(0)) dir_itr_imp()); im->handle = d; if (step(im.get(), d)) it.m_imp = im;
}
void directory_iterator_increment(directory_iterator &it, bs::error_code *ec) { if (ec) ec->clear(); if (!step(it.m_imp.get(), (SxDir *)it.m_imp->handle)) it.m_imp.reset(); }
}
void directory_entry::refresh_impl(bs::error_code *ec) const { const_cast<directory_entry *>(this)->m_status = detail::status(m_path, ec); const_cast<directory_entry *>(this)->m_symlink_status = m_status; }
}
// ---- program options: the default style of parse_command_line (--name value, --name=value, -x value, -xvalue)
namespace program_options {
const unsigned options_description::m_default_line_length = 80;
std::string arg("arg");
error_with_option_name::error_with_option_name(const std::string &t, const std::string &, const std::string &, int) : error(t) {}
const char *error_with_option_name::what() const throw() { return std::logic_error::what(); }
void error_with_option_name::substitute_placeholders(const std::string &) const {}
std::string validation_error::get_template(kind_t) { return "invalid option"; }
std::string invalid_syntax::get_template(kind_t) { return "invalid syntax"; }
invalid_option_value::invalid_option_value(const std::string &v) : validation_error(validation_error::invalid_option_value) {}
invalid_bool_value::invalid_bool_value(const std::string &v) : validation_error(validation_error::invalid_bool_value) {}
option_description::option_description() {}
option_description::option_description(const char *n, const value_semantic *s) : m_value_semantic(s) { set_names(n); }
option_description::option_description(const char *n, const value_semantic *s, const char *d) : m_description(d), m_value_semantic(s) { set_names(n); }
option_description::~option_description() {}
option_description &option_description::set_names(const char *n) { std::string s(n); size_t k = s.find(','); if (k == std::string::npos) m_long_names.push_back(s); else { if (k) m_long_names.push_back(s.substr(0, k)); m_short_name = "-" + s.substr(k + 1, 1); } return *this; }
const std::string &option_description::key(const std::string &) const { return m_long_names.empty() ? m_short_name : m_long_names[0]; }
shared_ptr<const value_semantic> option_description::semantic() const { return m_value_semantic; }
options_description::options_description(unsigned l, unsigned m) : m_line_length(l), m_min_description_length(m) {}
options_description::options_description(const std::string &c, unsigned l, unsigned m) : m_caption(c), m_line_length(l), m_min_description_length(m) {}
void options_description::add(shared_ptr<option_description> d) { m_options.push_back(d); }
options_description_easy_init options_description::add_options() { return options_description_easy_init(this); }
const std::vector<shared_ptr<option_description>> &options_description::options() const { return m_options; }
options_description_easy_init::options_description_easy_init(options_description *o) : owner(o) {}
options_description_easy_init &options_description_easy_init::operator()(const char *n, const char *d) { owner->add(shared_ptr<option_description>(new option_description(n, new untyped_value(true), d))); return *this; }
options_description_easy_init &options_description_easy_init::operator()(const char *n, const value_semantic *s) { owner->add(shared_ptr<option_description>(new option_description(n, s))); return *this; }
options_description_easy_init &options_description_easy_init::operator()(const char *n, const value_semantic *s, const char *d) { owner->add(shared_ptr<option_description>(new option_description(n, s, d))); return *this; }
std::ostream &operator<<(std::ostream &os, const options_description &d) { return os << d.m_caption << ":\n"; }
std::string untyped_value::name() const { return arg; }
unsigned untyped_value::min_tokens() const { return m_zero_tokens ? 0 : 1; }
unsigned untyped_value::max_tokens() const { return m_zero_tokens ? 0 : 1; }
void untyped_value::xparse(boost::any &v, const std::vector<std::string> &t) const { v = t.empty() ? std::string() : t.front(); }
typed_value<bool> *bool_switch(bool *v) { typed_value<bool> *r = new typed_value<bool>(v); r->default_value(false); r->zero_tokens(); return r; }
typed_value<bool> *bool_switch() { return bool_switch(nullptr); }
void value_semantic_codecvt_helper<char>::parse(boost::any &s, const std::vector<std::string> &t, bool) const { xparse(s, t); }
void validate(any &v, const std::vector<std::string> &xs, std::string *, int) { validators::check_first_occurrence(v); v = any(validators::get_single_string(xs)); }
void validate(any &v, const std::vector<std::string> &xs, bool *, int) { validators::check_first_occurrence(v); std::string s(validators::get_single_string(xs, true)); if (s.empty() || s == "on" || s == "yes" || s == "1" || s == "true") v = any(true); else if (s == "off" || s == "no" || s == "0" || s == "false") v = any(false); else throw invalid_bool_value(s); }
namespace validators { void check_first_occurrence(const any &v) { if (!v.empty()) throw multiple_occurrences(); } }
std::string to_internal(const std::string &s) { return s; }
variables_map::variables_map() {}
abstract_variables_map::abstract_variables_map() : m_next(0) {}
const variable_value &abstract_variables_map::operator[](const std::string &n) const { return get(n); }
const variable_value &variables_map::get(const std::string &n) const { static variable_value none; const_iterator i = find(n); return i == end() ? none : i->second; }
void variables_map::notify() { for (auto &k : *this) if (k.second.m_value_semantic) k.second.m_value_semantic->notify(k.second.v); }
void notify(variables_map &m) { m.notify(); }
namespace detail {
cmdline::cmdline(const std::vector<std::string> &a) : m_args(a), m_style((style_t)0), m_allow_unregistered(false), m_desc(0), m_positional(0) {}
void cmdline::style(int) {}
int cmdline::get_canonical_option_prefix() { return 0; }
void cmdline::set_options_description(const options_description &d) { m_desc = &d; }
void cmdline::set_positional_options(const positional_options_description &) { sx_unsupported("positional options"); }
void cmdline::set_additional_parser(additional_parser) {}
void cmdline::allow_unregistered() { m_allow_unregistered = true; }
std::vector<option> cmdline::run() {
  std::vector<option> out;
  for (size_t i = 0; i < m_args.size(); ++i) {
    const std::string &a = m_args[i]; std::string name, val; bool hasVal = false, shrt = false;
    if (a.size() > 2 && a[0] == '-' && a[1] == '-') { size_t k = a.find('='); name = a.substr(2, k == std::string::npos ? k : k - 2); if (k != std::string::npos) { val = a.substr(k + 1); hasVal = true; } }
    else if (a.size() > 1 && a[0] == '-' && a[1] != '-') { shrt = true; name = a.substr(0, 2); if (a.size() > 2) { val = a.substr(2); hasVal = true; } }
    else throw too_many_positional_options_error();
    const option_description *d = nullptr, *ap = nullptr; int nap = 0;
    for (auto &o : m_desc->options()) { if (shrt) { if (o->m_short_name == name) d = o.get(); } else for (auto &l : o->m_long_names) { if (l == name) d = o.get(); else if (l.compare(0, name.size(), name) == 0) { ap = o.get(); ++nap; } } }
    if (!d && nap == 1) d = ap;
    if (!d) throw unknown_option(a);
    option o; o.string_key = d->key(name); o.original_tokens.push_back(a);
    if (d->semantic()->max_tokens() > 0) { if (!hasVal) { if (i + 1 >= m_args.size()) throw invalid_command_line_syntax(invalid_syntax::missing_parameter); val = m_args[++i]; o.original_tokens.push_back(val); } o.value.push_back(val); }
    else if (hasVal) throw invalid_command_line_syntax(invalid_syntax::extra_parameter);
    out.push_back(o);
  }
  return out;
}
}
void store(const parsed_options &opts, variables_map &m, bool utf8) {
  const options_description &desc = *opts.description; std::vector<std::string> nw;
  for (auto &o : opts.options) {
    const option_description *d = nullptr; for (auto &x : desc.options()) if (x->key("") == o.string_key) d = x.get();
    if (!d || m.m_final.count(o.string_key)) continue;
    variable_value &v = m[o.string_key].m_defaulted ? (m.std::map<std::string, variable_value>::operator[](o.string_key) = variable_value()) : m.std::map<std::string, variable_value>::operator[](o.string_key);
    d->semantic()->parse(v.v, o.value, utf8); v.m_value_semantic = d->semantic();
    nw.push_back(o.string_key);
  }
  for (auto &k : nw) m.m_final.insert(k);
  for (auto &x : desc.options()) { const std::string &k = x->key(""); if (m.count(k) == 0) { boost::any def; if (x->semantic()->apply_default(def)) { variable_value &v = m.std::map<std::string, variable_value>::operator[](k) = variable_value(def, true); v.m_value_semantic = x->semantic(); } } }
}
}}
