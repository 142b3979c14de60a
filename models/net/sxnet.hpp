// Stand-in for the parts of Boost.Asio and Boost.Beast the server's worker uses: no sockets, the harness plays the network.
// Operations are recorded; the harness completes them one at a time, as an io_context with one thread would.
#pragma once
#include <chrono>
#include <functional>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <boost/optional.hpp>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include <sx.h>
namespace boost { namespace asio { namespace error { enum basic_errors { operation_aborted = 125, eof = 2 }; } } namespace system { template <> struct is_error_code_enum<asio::error::basic_errors> { static const bool value = true; }; } }
namespace sxnet {
typedef boost::system::error_code ec_t;
struct Socket; struct Timer; struct Request; struct Response;
struct Op { std::function<void(ec_t)> h; explicit operator bool() const { return (bool)h; } };
// One worker, one connection at a time
struct Net {
  Op accept, read; std::function<void(ec_t, std::size_t)> readh, writeh; Socket *acceptSock = nullptr, *readSock = nullptr, *writeSock = nullptr; Request *into = nullptr; const Response *out = nullptr;
  std::vector<std::function<void()>> posted; Timer *timer = nullptr; int connections = 0;
  // the whole server: many workers on one acceptor
  struct Waiting { Socket *s; std::function<void(ec_t)> h; }; bool many = false, inUse = false; std::vector<Waiting> waiting; std::vector<std::string> listening; std::vector<unsigned> ports; std::function<void()> run;
};
extern Net net;
inline ec_t notConnected() { return ec_t(boost::system::errc::not_connected, boost::system::generic_category()); }
inline ec_t aborted() { return ec_t(boost::system::errc::operation_canceled, boost::system::generic_category()); }
struct sv : std::string_view { using std::string_view::string_view; sv(std::string_view v) : std::string_view(v) {} std::string to_string() const { return std::string(*this); } operator std::string() const { return to_string(); } };
struct Executor {};
struct Address { std::string s; std::string to_string() const { return s; } };
struct Endpoint { Address a; unsigned short p = 40000; Address address() const { return a; } unsigned short port() const { return p; } };
struct Context { explicit Context(int = 1) {} Executor get_executor() { return {}; } std::size_t run() { if (net.run) net.run(); return 0; } void stop() {} };
struct Socket {
  enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
  bool open = false, sent = false;
  Socket() {} explicit Socket(Executor) {}
  Socket(const Socket &) = delete; Socket &operator=(const Socket &) = delete;
  bool is_open() const { return open; }
  void close() { ec_t e; close(e); }
  void close(ec_t &e) {
    e.clear(); if (!open) return; open = false;
    if (net.readSock == this && net.readh) { auto h = net.readh; net.readh = nullptr; net.readSock = nullptr; net.posted.push_back([h] { h(aborted(), 0); }); }
    if (net.writeSock == this && net.writeh) { auto h = net.writeh; net.writeh = nullptr; net.writeSock = nullptr; net.posted.push_back([h] { h(aborted(), 0); }); }
  }
  // of a connection the other side has broken
  bool gone = false; void shutdown(shutdown_type) { sent = true; if (gone) throw boost::system::system_error(notConnected()); } void shutdown(shutdown_type, ec_t &e) { e.clear(); sent = true; if (gone) e = notConnected(); }
  Endpoint remote_endpoint() const { if (!open) sx_fail("a connection that is closed has no remote end"); if (gone) throw boost::system::system_error(notConnected()); return Endpoint{{"10.0.0.1"}}; } Endpoint remote_endpoint(ec_t &e) const { e.clear(); if (gone || !open) { e = notConnected(); return Endpoint{{"0.0.0.0"}}; } return Endpoint{{"10.0.0.1"}}; }
};
struct Acceptor {
  Acceptor() {} Acceptor(Context &, const Endpoint &e, bool = true) { if (net.inUse) throw boost::system::system_error(ec_t(boost::system::errc::address_in_use, boost::system::generic_category())); net.listening.push_back(e.a.s); net.ports.push_back(e.p); }
  Executor get_executor() { return {}; }
  template <class H> void async_accept(Socket &s, H h) { if (s.open) sx_fail("the former connection is closed before the next one is taken"); if (net.many) { net.waiting.push_back({&s, h}); return; } if (net.accept) sx_fail("only one connection is waited for at a time"); net.acceptSock = &s; net.accept.h = h; }
};
struct Timer {
  typedef std::chrono::steady_clock::time_point time_point; typedef std::chrono::steady_clock::duration duration;
  time_point at; std::vector<std::function<void(ec_t)>> waiting;
  Timer(Executor, time_point t) : at(t) { net.timer = this; } explicit Timer(Executor) { net.timer = this; } ~Timer() { if (net.timer == this) net.timer = nullptr; }
  time_point expiry() const { return at; }
  std::size_t cancel() { std::size_t n = waiting.size(); for (auto &h : waiting) net.posted.push_back([h] { h(aborted()); }); waiting.clear(); return n; }
  std::size_t expires_at(time_point t) { at = t; return cancel(); }
  std::size_t expires_after(duration d) { return expires_at(std::chrono::steady_clock::now() + d); }
  template <class H> void async_wait(H h) { waiting.push_back(h); }
};
enum class Verb { unknown, delete_, get, head, post, put, connect, options };
enum class Status : unsigned { unknown = 0, ok = 200, bad_request = 400, forbidden = 403, not_found = 404, method_not_allowed = 405, payload_too_large = 413, uri_too_long = 414, internal_server_error = 500 };
enum class Field { server, content_type, access_control_allow_origin, connection, cache_control, allow };
struct Request {
  Verb v = Verb::get; std::string m = "GET", t, b;
  Verb method() const { return v; } sv method_string() const { return sv(std::string_view(m)); } sv target() const { return sv(std::string_view(t)); } const std::string &body() const { return b; } bool keep_alive() const { return false; } unsigned version() const { return 11; }
};
struct Response {
  Status s = Status::ok; std::map<int, std::string> f; std::map<std::string, std::string> g; std::string b; bool prepared = false;
  Response() {} Response(Status st, unsigned) : s(st) {}
  void result(Status x) { s = x; } void result(unsigned x) { s = (Status)x; } Status result() const { return s; }
  void set(Field k, std::string_view v) { f[(int)k] = std::string(v); } void set(std::string_view k, std::string_view v) { g[std::string(k)] = std::string(v); }
  std::string &body() { return b; } void prepare_payload() { prepared = true; } void keep_alive(bool) {} void version(unsigned) {}
};
struct Parser { Request r; const Request &get() const { return r; } Request &get() { return r; } Request release() { return r; } template <class T> void body_limit(T) {} template <class T> void header_limit(T) {} };
struct Serializer { const Response *r; explicit Serializer(const Response &x) : r(&x) {} };
struct Buffer { std::size_t n = 0; void consume(std::size_t k) { n = k < n ? n - k : 0; } std::size_t size() const { return n; } void clear() { n = 0; } };
template <class H> void async_read(Socket &s, Buffer &b, Parser &p, H h) {
  if (net.readh) sx_fail("only one request is read at a time"); if (b.size()) sx_fail("nothing is left of the former request");
  net.readSock = &s; net.into = &p.r; net.readh = h; b.n = 100; if (!s.open) { auto x = net.readh; net.readh = nullptr; net.posted.push_back([x] { x(aborted(), 0); }); }
}
template <class H> void async_write(Socket &s, Serializer &z, H h) {
  if (net.writeh) sx_fail("only one response is sent at a time"); if (!z.r->prepared) sx_fail("a response has its length");
  net.writeSock = &s; net.out = z.r; net.writeh = h; if (!s.open) { auto x = net.writeh; net.writeh = nullptr; net.posted.push_back([x] { x(aborted(), 0); }); }
}
struct string_body {};
}
namespace boost { namespace asio {
using sxnet::Executor; typedef sxnet::Context io_context;
template <class C> struct basic_waitable_timer : sxnet::Timer { using sxnet::Timer::Timer; }; typedef basic_waitable_timer<std::chrono::steady_clock> steady_timer;
namespace ip { typedef sxnet::Address address; inline address make_address(const std::string &s, boost::system::error_code &e) { unsigned n = 0, d = 0, v = 0; bool ok = true; for (std::size_t i = 0; i <= s.size(); ++i) { if (i == s.size() || s[i] == '.') { ok = ok && d > 0 && v < 256; ++n; d = v = 0; } else if (s[i] >= '0' && s[i] <= '9' && d < 3) { v = v * 10 + (s[i] - '0'); ++d; } else ok = false; } e = ok && n == 4 ? boost::system::error_code() : boost::system::error_code(boost::system::errc::invalid_argument, boost::system::generic_category()); return address{s}; }
  inline address make_address(const std::string &s) { boost::system::error_code e; address a = make_address(s, e); if (e) throw boost::system::system_error(e); return a; }
  struct tcp { typedef sxnet::Acceptor acceptor; typedef sxnet::Socket socket; typedef sxnet::Endpoint endpoint; }; }
namespace error { inline boost::system::error_code make_error_code(basic_errors e) { return boost::system::error_code(e, boost::system::generic_category()); } }
} namespace beast {
typedef boost::system::error_code error_code; typedef sxnet::Buffer flat_buffer; typedef sxnet::sv string_view;
namespace http {
using verb = sxnet::Verb; using status = sxnet::Status; using field = sxnet::Field; using sxnet::string_body; using sxnet::async_read; using sxnet::async_write;
template <class B> using request = sxnet::Request; template <class B> using response = sxnet::Response; template <class B> using request_parser = sxnet::Parser; template <class B> using response_serializer = sxnet::Serializer;
} } }
