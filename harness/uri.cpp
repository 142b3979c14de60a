// S01 taking URIs apart, S02 taking request targets apart
#include <sx.h>
#include <map>
#include <vector>
#include <pwned-server/uri.hpp>
typedef std::map<std::string, std::string> Map;
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static bool alnum(char c) { return digit(c) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static bool one(char c, const char *of) { bool r = false; for (; *of; ++of) r = r | (c == *of); return r; }
static bool hex(char c) { return digit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static bool plain(char c) { return alnum(c) | one(c, "-._~!$&'()*+,;="); }
static char lower(char c) { return (c >= 'A') & (c <= 'Z') ? (char)(c + 32) : c; }
static std::vector<std::string> split(const std::string &s, char by) { std::vector<std::string> r(1); for (char c : s) if (c == by) r.push_back(""); else r.back().push_back(c); return r; }
struct Parts { bool valid = false, known = true; std::string scheme, user, pass, host, path, fragment; unsigned port = 0; Map query; };
static bool run(const std::string &s, size_t &i, const char *extra, std::string &out) { // characters and escapes of a part
  for (;;) { if (i < s.size() && s[i] == '%') { if (i + 2 < s.size() && hex(s[i + 1]) && hex(s[i + 2])) { out += s.substr(i, 3); i += 3; continue; } return false; }
    if (i < s.size() && (plain(s[i]) | one(s[i], extra))) { out.push_back(s[i++]); continue; } return true; }
}
// scheme://[user[:password]@]host[:port][/path][?key=value&...][#fragment]
static Parts parse(const std::string &s) {
  Parts p; size_t i = 0; while (i < s.size() && (alnum(s[i]) | one(s[i], "+.-"))) p.scheme.push_back(lower(s[i++]));
  if (p.scheme.empty() || i >= s.size() || s[i] != ':') return p; ++i;
  if (i + 1 >= s.size() || s[i] != '/' || s[i + 1] != '/') { p.known = false; return p; } i += 2;
  size_t k = i; std::string cred; if (run(s, k, ":", cred) && k < s.size() && s[k] == '@') { size_t c = cred.find(':'); p.user = cred.substr(0, c); if (c != std::string::npos) p.pass = cred.substr(c + 1); i = k + 1; }
  if (!run(s, i, "", p.host)) return p;
  bool port = false, big = false; if (i < s.size() && s[i] == ':') { ++i; while (i < s.size() && digit(s[i])) { port = true; p.port = big ? 0 : p.port * 10 + (s[i] - '0'); big = big | (p.port > 65535); ++i; } }
  if (!port) p.port = p.scheme == "http" ? 80 : p.scheme == "https" ? 443 : 0;
  if (i < s.size() && s[i] == '/') { p.path = "/"; ++i; if (!run(s, i, ":@/", p.path)) return p; }
  std::string q; if (i < s.size() && s[i] == '?') { ++i; if (!run(s, i, ":/?@", q)) return p; }
  if (i < s.size() && s[i] == '#') { ++i; if (!run(s, i, ":/?@", p.fragment)) return p; }
  if (i != s.size()) return p;
  p.valid = !big; if (big) p.port = 0;
  if (!q.empty()) for (const std::string &kv : split(q, '&')) { std::vector<std::string> f = split(kv, '='); if (f.size() == 2) p.query[f[0]] = f[1]; else p.valid = p.known = false; }
  return p;
}
static bool same(const std::string &a, const std::string &b) { bool r = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); ++i) r = r & (a[i] == b[i]); return r; }
static bool same(const Map &a, const Map &b) { bool r = a.size() == b.size(); for (auto x = a.begin(), y = b.begin(); x != a.end() && y != b.end(); ++x, ++y) r = r & same(x->first, y->first) & same(x->second, y->second); return r; }
static void check(URI &u, const std::string &s) {
  const Parts p = parse(s);
  if (p.valid) {
    sx_assert(u.isValid(), "a well-formed URI is valid");
    sx_assert(same(u.scheme(), p.scheme), "the scheme"); sx_assert(same(u.username(), p.user), "the user name"); sx_assert(same(u.password(), p.pass), "the password"); sx_assert(same(u.host(), p.host), "the host");
    sx_assert(u.port() == p.port, "the port"); sx_assert(same(u.path(), p.path), "the path"); sx_assert(same(u.query(), p.query), "the query"); sx_assert(same(u.fragment(), p.fragment), "the fragment"); sx_reach("valid");
  } else if (p.known) { sx_assert(!u.isValid(), "anything else is not valid"); sx_reach("invalid"); }
  bool v = u.isValid(); uint16_t q = u.port(); sx_obs(v, "valid"); sx_obs(q, "port"); sx_obs_str(u.path(), "path"); sx_reach("done");
}
static const char *const FORM[] = {"http://u:p@h:8/a?k=v#f", "https://h/a/b?k=v&l=w", "ftp://u:p@h", "http://h:80"};
SX_HARNESS(s01_replace) {   // one character of a URI is any other
  std::string s = FORM[sx_pick("form", 0, sx_bound("forms", 3))]; const size_t at = sx_pick("at", 0, s.size() - 1); s[at] = sx_any<char>("c"); sx_assume(s[at] != 0); URI u(s); check(u, s);
}
SX_HARNESS(s01_again) {   // nothing of a former URI remains
  URI u(std::string("https://u:p@h:8/a?k=v#f")); std::string s = FORM[3]; s[sx_pick("at", 4, s.size() - 1)] = sx_any<char>("c"); u.parse(s); check(u, s);
}
SX_HARNESS(s01_short) { std::string s = sx_string("uri", sx_pick("len", 0, sx_bound("len", 2))); URI u(s); check(u, s); }
SX_HARNESS(s01_port) { const size_t n = sx_pick("digits", 0, 6); std::string d = sx_string("d", n); for (char c : d) sx_assume(digit(c)); std::string s = (sx_pick("tls", 0, 1) ? "https://h:" : "http://h:") + d + "/x"; URI u(s); check(u, s); }
static void target(URI &u, const std::string &s);
SX_HARNESS(s02_replace) {   // longer targets, one character is another one
  static const char *const T[] = {"/v1/lookup?hash=0123456789abcdef0123456789ABCDEF", "/p?k1=v1&k2=v2&k3=v3#f", "?a=b&a=c&d=&=e&f", "/no/query/at/all"}; std::string s = T[sx_pick("form", 0, 3)]; s[sx_pick("at", 0, s.size() - 1)] = "?&=#/x%;+:@ \xff\0"[sx_pick("c", 0, 13)]; URI u; target(u, s);
}
SX_HARNESS(s02_target) {   // as the server gets it: path?key=value&...
  const size_t n = sx_pick("len", 0, sx_bound("len", 4)); std::string s = sx_string("target", n); for (char c : s) sx_assume(one(c, "/?&=#;") | (c == 'x') | (c == '%'));
  URI u; if (sx_pick("used", 0, 1)) u.parseTarget("/old?a=b#c"); target(u, s);
}
static void target(URI &u, const std::string &s) {
  u.parseTarget(s);
  const size_t h = s.find('#'); const std::string frag = h == std::string::npos ? "" : s.substr(h + 1), head = s.substr(0, h); const size_t q = head.find('?'); const std::string path = head.substr(0, q), rest = q == std::string::npos ? "" : head.substr(q + 1);
  Map m; for (const std::string &kv : split(rest, '&')) { std::vector<std::string> f = split(kv, '='); if (f.size() == 2) m[f[0]] = f[1]; }
  sx_assert(same(u.path(), path), "the path"); sx_assert(same(u.query(), m), "the query"); sx_assert(same(u.fragment(), frag), "the fragment"); sx_obs_str(u.path(), "path"); if (!m.empty()) sx_reach("query"); sx_reach("done");
}
