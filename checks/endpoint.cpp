// endpoints, addresses and protocols against those of asio & the system
#include "cob.hpp"
#include <boost/cobalt/io/endpoint.hpp>
#include <boost/asio/ip/tcp.hpp>
#include <boost/asio/ip/udp.hpp>
#include <boost/asio/local/stream_protocol.hpp>
#include <boost/asio/local/datagram_protocol.hpp>
#include <boost/asio/local/seq_packet_protocol.hpp>
#include <sys/un.h>

using namespace cob;
namespace io = cobalt::io;
namespace ip = asio::ip;

namespace
{
// an endpoint constructed in memory that is not zero, in the heap (i.e. with redzones)
struct dirty
{
  struct del {void operator()(void * p) const {static_cast<io::endpoint*>(p)->~endpoint(); ::operator delete(p);}};
  std::unique_ptr<io::endpoint, del> p;
  template<typename ... Args>
  explicit dirty(Args && ... args)
  {
    void * m = ::operator new(sizeof(io::endpoint));
    std::memset(m, 0xA5, sizeof(io::endpoint));
    try {p.reset(new (m) io::endpoint(std::forward<Args>(args)...));}
    catch (...) {::operator delete(m); throw;}
  }
  io::endpoint & operator*() {return *p;}
  io::endpoint * operator->() {return p.get();}
};

bool same(const io::endpoint & a, const void * d, std::size_t n)
{
  return a.size() == n && std::memcmp(a.data(), d, n) == 0;
}
std::string hex(const io::endpoint & e)
{
  std::string s;
  for (std::size_t i = 0; i < e.size(); i++)
  {
    char b[4];
    std::snprintf(b, sizeof(b), "%02x", static_cast<const unsigned char*>(e.data())[i]);
    s += b;
  }
  return s;
}

// all the ways to copy it yield the same
void copies(io::endpoint & e)
{
  auto check = [&](const io::endpoint & c, const char * how)
  {
    MC_CHECK(same(c, e.data(), e.size()), "%s differs: %s instead of %s", how, hex(c).c_str(), hex(e).c_str());
    MC_CHECK(c.protocol() == e.protocol(), "%s has another protocol", how);
  };
  switch (mc::choose(5, "copy"))
  {
    case 0: {dirty c(std::as_const(e)); check(*c, "copy"); break;}
    case 1: {dirty c(e); check(*c, "copy"); break;}
    case 2: {io::endpoint t(e); dirty c(std::move(t)); check(*c, "moved"); break;}
    case 3: {dirty c; *c = e; check(*c, "assigned"); break;}
    case 4:    // as the sockets do
    {
      dirty c;
      MC_CHECK(c->capacity() >= e.size() && c->capacity() == sizeof(sockaddr_storage), "capacity");
      std::memcpy(c->data(), e.data(), e.size());
      c->resize(e.size());
      MC_CHECK(same(*c, e.data(), e.size()), "resize & data");
      MC_CHECK(c->protocol().family() == e.protocol().family(), "family");
      break;
    }
  }
}

template<io::static_protocol P>
void getter(const io::endpoint & e, bool fam)
{
  const auto a = e.protocol();
  bool ok = fam && (P.type() == 0 || a.type() == 0 || P.type() == a.type())
                && (P.protocol() == 0 || a.protocol() == 0 || P.protocol() == a.protocol());
  auto p = get_if<P>(&e);
  MC_CHECK((p != nullptr) == ok, "get_if: %s", ok ? "null, although the protocol matches" : "not null, although the protocol does not match");
  bool thrown = false;
  try
  {
    auto v = io::get<P>(e);
    MC_CHECK(ok, "get doesn't throw");
  }
  catch (io::bad_endpoint_access &) {thrown = true;}
  MC_CHECK(thrown != ok, "get throws iff the protocol does not match");
}
void getters(const io::endpoint & e)
{
  int f = e.protocol().family();
  bool v4 = f == AF_INET, v6 = f == AF_INET6, un = f == AF_UNIX;
  getter<io::ip>(e, v4 || v6);
  getter<io::ip_v4>(e, v4);
  getter<io::ip_v6>(e, v6);
  getter<io::tcp>(e, v4 || v6);
  getter<io::tcp_v4>(e, v4);
  getter<io::tcp_v6>(e, v6);
  getter<io::udp>(e, v4 || v6);
  getter<io::udp_v4>(e, v4);
  getter<io::udp_v6>(e, v6);
  getter<io::local_stream>(e, un);
  getter<io::local_datagram>(e, un);
  getter<io::local_seqpacket>(e, un);
  getter<io::local_protocol>(e, un);
}

// ------------------------------------------------------------------ local
template<typename P>
void local_path(std::size_t n, int style)
{
  std::string path(n, 'x');
  for (std::size_t i = 0; i < n; i++)
    path[i] = char('a' + i % 26);
  if (style == 1 && n) path[0] = 0;             // abstract
  if (style == 2 && n > 2) path[n / 2] = '/';
  typename P::endpoint ref;
  bool ok = n < sizeof(sockaddr_un::sun_path);
  try
  {
    if (ok)
      ref = typename P::endpoint(path);
    dirty e(io::local_protocol, path);
    MC_CHECK(ok, "a path of %zu is accepted", n);
    if (!ok) return;
    MC_CHECK(e->protocol().family() == AF_UNIX && e->protocol().type() == 0 && e->protocol().protocol() == 0, "protocol");
    // the length the system needs: up to the end of the path, incl. its null or not
    std::size_t m = offsetof(sockaddr_un, sun_path) + n;
    bool abstract = n && !path[0];
    MC_CHECK(e->size() == m || (!abstract && e->size() == m + 1), "the size is %zu for a path of %zu", e->size(), n);
    MC_CHECK(std::memcmp(e->data(), ref.data(), m) == 0, "differs from that of asio: %s", hex(*e).c_str());
    if (e->size() > m)
      MC_CHECK(static_cast<char*>(e->data())[m] == 0, "not null terminated");
    if (!abstract)
    {
      MC_CHECK(get_if<io::local_protocol>(&*e)->path() == path, "path() differs");
      dirty c(ref);
      MC_CHECK(c->protocol() == io::protocol_type(typename P::endpoint().protocol()), "protocol");
      MC_CHECK(get_if<io::local_protocol>(&*c)->path() == path, "path() of a converted one is '%s' instead of '%s'", std::string(get_if<io::local_protocol>(&*c)->path()).c_str(), path.c_str());
    }
    dirty c(ref);
    MC_CHECK(same(*c, ref.data(), ref.size()), "conversion");
    getters(*c);
    getters(*e);
    copies(*c);
    copies(*e);
  }
  catch (std::length_error &) {MC_CHECK(!ok, "a path of %zu is rejected", n);}
  mc::state(n * 4 + style);
}

// ------------------------------------------------------------------ ip
constexpr unsigned short ports[] = {0, 1, 80, 255, 256, 0x1234, 0x8000, 65535};

template<io::static_protocol P, typename Endpoint, typename Make>
bool from_string(std::string_view s, unsigned short port, Make make)
{
  error_code ec;
  std::string z(s);
  auto ref = make(z.c_str(), ec);
  try
  {
    dirty e(P, s, port);
    MC_CHECK(!ec, "'%s' is accepted", z.c_str());
    if (ec) return false;
    Endpoint r(ref, port);
    MC_CHECK(e->size() == r.size(), "'%s': the size is %zu instead of %zu", z.c_str(), e->size(), r.size());
    MC_CHECK(same(*e, r.data(), r.size()), "'%s': %s instead of %s", z.c_str(), hex(*e).c_str(), hex(io::endpoint(r)).c_str());
    MC_CHECK(e->protocol().type() == P.type() && e->protocol().protocol() == P.protocol(), "protocol");
    auto a = get_if<P>(&*e);
    MC_CHECK(a, "cannot be accessed");
    MC_CHECK(a->port() == port, "port");
    // the string yields the same address
    error_code e2;
    auto s2 = a->addr_str();
    auto again = make(std::string(s2.begin(), s2.end()).c_str(), e2);
    if constexpr (requires {again.scope_id();})
      again.scope_id(ref.scope_id());
    else if constexpr (requires {again.is_v6();})
      if (again.is_v6())
      {
        auto v6 = again.to_v6();
        v6.scope_id(ref.to_v6().scope_id());
        again = v6;
      }
    MC_CHECK(!e2 && again == ref, "'%s': addr_str is '%s'", z.c_str(), std::string(s2.begin(), s2.end()).c_str());
    return true;
  }
  catch (std::length_error &) {MC_CHECK(ec, "'%s' is rejected by its length", z.c_str());}
  catch (boost::system::system_error & se)
  {
    MC_CHECK(ec, "'%s' is rejected", z.c_str());
    MC_CHECK(se.code() == ec, "the wrong error");
  }
  return false;
}
auto v4 = [](const char * c, error_code & ec) {return ip::make_address_v4(c, ec);};
auto v6 = [](const char * c, error_code & ec) {return ip::make_address_v6(c, ec);};
auto any = [](const char * c, error_code & ec) {return ip::make_address(c, ec);};

void all_strings(const std::string & s)
{
  auto p = ports[s.size() % std::size(ports)];
  bool a = from_string<io::tcp_v4, ip::tcp::endpoint>(s, p, v4);
  bool b = from_string<io::tcp_v6, ip::tcp::endpoint>(s, p, v6);
  bool c = from_string<io::ip, ip::tcp::endpoint>(s, p, any);
  mc::outcome(a ? "v4" : b ? "v6" : c ? "?" : "rejected");
}

void octets()
{
  // every octet at every position, others at a border
  static constexpr int border[] = {0, 1, 9, 10, 99, 100, 127, 128, 199, 255};
  int pos = mc::choose(4, "position");
  int o = border[mc::choose(10, "others")];
  for (int v = 0; v < 256 && !mc::failed(); v++)
  {
    mc::step();
    unsigned b[4] = {unsigned(o), unsigned(o), unsigned(o), unsigned(o)};
    b[pos] = v;
    std::string s = std::to_string(b[0]) + "." + std::to_string(b[1]) + "." + std::to_string(b[2]) + "." + std::to_string(b[3]);
    std::uint16_t port = v * 257 + o;
    bool r = from_string<io::udp_v4, ip::udp::endpoint>(s, port, v4);
    r = r && from_string<io::udp, ip::udp::endpoint>(s, port, any);
    MC_CHECK(r, "'%s' is rejected", s.c_str());
    // in network order
    unsigned char raw[4] = {(unsigned char)b[0], (unsigned char)b[1], (unsigned char)b[2], (unsigned char)b[3]};
    std::uint32_t u;
    std::memcpy(&u, raw, 4);
    dirty e(io::tcp_v4, u, port);
    ip::tcp::endpoint ref(ip::make_address_v4(s), port);
    MC_CHECK(same(*e, ref.data(), ref.size()), "address %s", s.c_str());
    auto a = get_if<io::tcp_v4>(&*e);
    MC_CHECK(a->addr() == u && a->port() == port, "addr");
    auto st = a->addr_str();
    MC_CHECK(std::string_view(st.data(), st.size()) == s, "addr_str");
    auto g = get_if<io::ip>(&*e);
    MC_CHECK(g->is_ipv4() && !g->is_ipv6() && g->port() == port, "ip_address");
    auto bytes = g->addr();
    MC_CHECK(std::memcmp(bytes.data() + 12, raw, 4) == 0, "ip_address::addr");
    auto gs = g->addr_str();
    MC_CHECK(std::string_view(gs.data(), gs.size()) == s, "ip_address::addr_str");
    mc::state(mc::mix(u, port));
  }
}

void groups()
{
  // all addresses of groups 0, 1 (and 0xfedc), i.e. every way to compress them
  static constexpr unsigned vals[] = {0, 1, 0xfedc};
  int k = mc::thorough() ? 3 : 2;
  unsigned g[8];
  for (int i = 0; i < 4; i++)
    g[i] = vals[mc::choose(3, "group")];
  auto p = ports[mc::choose(8, "port")];
  int n = 1;
  for (int i = 4; i < 8; i++) n *= k;
  for (int m = 0; m < n && !mc::failed(); m++)
  {
    mc::step();
    int x = m;
    for (int i = 4; i < 8; i++, x /= k) g[i] = vals[x % k];
    std::array<std::uint8_t, 16> b;
    for (int i = 0; i < 8; i++) {b[2 * i] = g[i] >> 8; b[2 * i + 1] = g[i];}
    ip::address_v6::bytes_type rb;
    std::copy(b.begin(), b.end(), rb.begin());
    ip::address_v6 ref(rb);
    ip::tcp::endpoint re(ref, p);
    dirty e(io::tcp_v6, std::span<std::uint8_t, 16>(b), p);
    MC_CHECK(same(*e, re.data(), re.size()), "from bytes: %s", hex(*e).c_str());
    auto a = get_if<io::tcp_v6>(&*e);
    auto q = get_if<io::tcp>(&*e);
    MC_CHECK(a->addr() == b && a->port() == p, "addr");
    MC_CHECK(q->is_ipv6() && !q->is_ipv4() && q->addr() == b && q->port() == p, "ip_address");
    auto s1 = a->addr_str(), s2 = q->addr_str();
    MC_CHECK(s1 == s2 && std::string_view(s1.data(), s1.size()) == ref.to_string(), "addr_str");
    std::string full;
    for (int i = 0; i < 8; i++)
    {
      char buf[8];
      std::snprintf(buf, sizeof(buf), i ? ":%04x" : "%04x", g[i]);
      full += buf;
    }
    for (auto s : {ref.to_string(), full})
    {
      bool r = from_string<io::tcp_v6, ip::tcp::endpoint>(s, p, v6) && from_string<io::udp, ip::udp::endpoint>(s, p, any)
            && from_string<io::ip_v6, ip::tcp::endpoint>(s, p, v6);
      MC_CHECK(r, "'%s' is rejected", s.c_str());
    }
    std::string dotted = full.substr(0, 30) + "255.255.255.255";
    MC_CHECK((from_string<io::tcp_v6, ip::tcp::endpoint>(dotted, p, v6)), "'%s' is rejected", dotted.c_str());
    // link local, with a scope
    for (auto sc : {"%1", "%lo", "%4294967295"})
    {
      auto s = "fe80::" + std::to_string(g[7]) + sc;
      bool r = from_string<io::tcp_v6, ip::tcp::endpoint>(s, p, v6) && from_string<io::tcp, ip::tcp::endpoint>(s, p, any);
      MC_CHECK(r, "'%s' is rejected", s.c_str());
    }
    std::uint64_t h = p;
    for (auto v : g) h = mc::mix(h, v);
    mc::state(h);
  }
}

void strings(int len)
{
  static constexpr char alphabet[] = "012.:af%";
  std::string s;
  for (int i = 0; i < 2; i++)
    s += alphabet[mc::choose(8, "character")];
  int tails = 1;
  for (int i = 2; i < len; i++) tails *= 8;
  for (int m = 0; m < tails && !mc::failed(); m++)
  {
    mc::step();
    std::string t = s;
    for (int i = 2, x = m; i < len; i++, x /= 8)
      t += alphabet[x % 8];
    all_strings(t);
  }
}
void lengths()
{
  // strings of any length
  int n = mc::choose(64, "length");
  switch (mc::choose(5, "kind"))
  {
    case 0: all_strings(std::string(n, '1')); break;
    case 1: all_strings(std::string(n, '0') + "1.2.3.4"); break;
    case 2: {std::string s = "255.255.255.255"; s.resize(std::min<std::size_t>(n, s.size())); all_strings(s); break;}
    case 3: {std::string s = "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255"; s.resize(std::min<std::size_t>(n, s.size())); all_strings(s); break;}
    case 4: {std::string s = "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255"; if (n > 45) s += std::string(n - 45, '5'); all_strings(s); break;}
  }
}

template<typename P>
void from_asio(P prot)
{
  ip::address a;
  if (prot.family() == AF_INET)
    a = ip::address_v4(0x01020304u << mc::choose(3, "shift"));
  else
  {
    ip::address_v6::bytes_type b{};
    b[mc::choose(16, "byte")] = 0xAB;
    a = ip::address_v6(b, mc::choose(2, "scope"));
  }
  typename P::endpoint r(a, ports[mc::choose(8, "port")]);
  dirty e(r);
  MC_CHECK(same(*e, r.data(), r.size()), "differs from that of asio");
  MC_CHECK(e->protocol() == io::protocol_type(prot), "protocol");
  getters(*e);
  copies(*e);
  // other protocols for the same
  static constexpr int types[] = {0, SOCK_STREAM, SOCK_DGRAM, SOCK_RAW};
  static constexpr int protos[] = {0, IPPROTO_TCP, IPPROTO_UDP};
  int t = types[mc::choose(4, "type")], pr = protos[mc::choose(3, "protocol")];
  e->set_type(static_cast<io::protocol_type::type_t>(t));
  e->set_protocol(static_cast<io::protocol_type::protocol_t>(pr));
  MC_CHECK(e->protocol().type() == t && e->protocol().protocol() == pr && e->protocol().family() == prot.family(), "set_type & set_protocol");
  getters(*e);
  mc::state(mc::mix(t * 8 + pr, std::hash<std::string>{}(hex(*e))));
}

template<typename A, typename B>
void same_protocol(const char * name, A a, B b)
{
  io::protocol_type x(a), y(b);
  MC_CHECK(x.family() == b.family(), "%s: family", name);
  MC_CHECK(x.type() == b.type(), "%s: type", name);
  MC_CHECK(x.protocol() == b.protocol(), "%s: protocol", name);
  MC_CHECK(x == y && !(x != y) && !(x < y), "%s: comparison", name);
}
void protocols()
{
  switch (mc::choose(8, "protocol"))
  {
    case 0: same_protocol("tcp_v4", io::tcp_v4, ip::tcp::v4()); break;
    case 1: same_protocol("tcp_v6", io::tcp_v6, ip::tcp::v6()); break;
    case 2: same_protocol("udp_v4", io::udp_v4, ip::udp::v4()); break;
    case 3: same_protocol("udp_v6", io::udp_v6, ip::udp::v6()); break;
    case 4: same_protocol("local_stream", io::local_stream, asio::local::stream_protocol()); break;
    case 5: same_protocol("local_datagram", io::local_datagram, asio::local::datagram_protocol()); break;
    case 6: same_protocol("local_seqpacket", io::local_seqpacket, asio::local::seq_packet_protocol()); break;
    case 7:
      MC_CHECK(io::tcp.family() == AF_UNSPEC && io::tcp.type() == SOCK_STREAM && io::tcp.protocol() == IPPROTO_TCP, "tcp");
      MC_CHECK(io::udp.family() == AF_UNSPEC && io::udp.type() == SOCK_DGRAM && io::udp.protocol() == IPPROTO_UDP, "udp");
      MC_CHECK(io::ip.family() == AF_UNSPEC && io::ip.type() == 0 && io::ip.protocol() == 0, "ip");
      MC_CHECK(io::ip_v4.family() == AF_INET && io::ip_v4.type() == 0, "ip_v4");
      MC_CHECK(io::ip_v6.family() == AF_INET6 && io::ip_v6.type() == 0, "ip_v6");
      break;
  }
}
void order()
{
  auto mk = []
  {
    int a = mc::choose(3, "family"), b = mc::choose(3, "type"), c = mc::choose(3, "protocol");
    return std::make_tuple(a, b, c);
  };
  auto x = mk(), y = mk();
  auto p = [](auto t)
  {
    return io::protocol_type(static_cast<io::protocol_type::family_t>(std::get<0>(t)), static_cast<io::protocol_type::type_t>(std::get<1>(t)), static_cast<io::protocol_type::protocol_t>(std::get<2>(t)));
  };
  MC_CHECK((p(x) == p(y)) == (x == y) && (p(x) < p(y)) == (x < y) && (p(x) >= p(y)) == (x >= y), "comparison of protocols");
}
void empty()
{
  dirty e;
  MC_CHECK(e->protocol() == io::protocol_type(), "the protocol of an empty endpoint");
  getters(*e);
  copies(*e);
  for (std::size_t n = 0; n <= e->capacity(); n++)
  {
    e->resize(n);
    MC_CHECK(e->size() == n, "resize");
  }
  copies(*e);
}
}

MC_MAIN()
{
  mc::add("local", []
  {
    std::size_t n = mc::choose(120, "length");
    switch (mc::choose(3, "protocol"))
    {
      case 0: local_path<asio::local::stream_protocol>(n, mc::choose(3, "style")); break;
      case 1: local_path<asio::local::datagram_protocol>(n, 0); break;
      case 2: local_path<asio::local::seq_packet_protocol>(n, 0); break;
    }
  });
  mc::add("v4", [] {octets();});
  mc::add("v6", [] {groups();});
  mc::add("strings", [] {strings(mc::thorough() ? 7 : 5);});
  mc::add("lengths", [] {lengths();});
  mc::add("asio/tcp", [] {if (mc::choose(2, "v4, v6") == 0) from_asio(ip::tcp::v4()); else from_asio(ip::tcp::v6());});
  mc::add("asio/udp", [] {if (mc::choose(2, "v4, v6") == 0) from_asio(ip::udp::v4()); else from_asio(ip::udp::v6());});
  mc::add("protocols", [] {protocols();});
  mc::add("order", [] {order();});
  mc::add("empty", [] {empty();});
}
