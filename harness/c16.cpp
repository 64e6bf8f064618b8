// C16: version-agnostic objects answer like the typed object they hold.
#include "lib.hpp"
#include <sstream>

static const format kinds[3] = { format::full, format::compact, format::compressed };
template <typename Ch> static std::string fold(const std::basic_string<Ch>& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { r += ref::dec(u128((unsigned long) s[i])); r += ' '; } return r; }

// every text an object can turn into
template <typename X> static std::string texts(const X& x) {
    std::string r;
    for (int k = 0; k < 3; ++k) {
        r += x.to_string(kinds[k]) + "\n" + fold(x.to_wstring(kinds[k])) + fold(x.to_u16string(kinds[k])) + fold(x.to_u32string(kinds[k]));
#if __cpp_char8_t >= 201811L
        r += fold(x.to_u8string(kinds[k]));
#endif
    }
    r += x.to_string() + (std::string) x + fold((std::wstring) x) + fold((std::u16string) x) + fold((std::u32string) x) + std::to_string(x) + fold(std::to_wstring(x));
    return r;
}
template <typename X> static std::string streamed(const X& x) {
    std::ostringstream a; a << x << ' ' << ip::full << x << ' ' << ip::compact << x << ' ' << x << ' ' << std::uppercase << x << ' ';
    a.width(60); a.fill('*'); a << x; a << '|'; a.width(60); a << std::left << x;
    std::wostringstream w; w << std::uppercase << ip::full << x << L' ' << x;
    return a.str() + fold(w.str());
}
template <typename X> static unsigned predicates(const X& a) { return unsigned(a.is_multicast()) | unsigned(a.is_private()) << 1 | unsigned(a.is_global()) << 2 | unsigned(a.is_reserved()) << 3 | unsigned(a.is_loopback()) << 4 | unsigned(a.is_link_local()) << 5 | unsigned(a.is_unspecified()) << 6; }

static bool site(const ipv4_address&) { return false; }
static bool site(const ipv6_address& a) { return a.is_site_local(); }
static bool site(const ipv4_network&) { return false; }
static bool site(const ipv6_network& a) { return a.is_site_local(); }
static std::string opt4(const ip::optional<ipv4_address>& o) { return o.has_value() ? S(o.value()) : "none"; }
static std::string teredo(const ip::optional<std::pair<ipv4_address, ipv4_address> >& o) { return o.has_value() ? S(o.value().first) + "," + S(o.value().second) : "none"; }
static std::string embedded(const ipv4_address&) { return "none none none"; }
static std::string embedded(const ipv6_address& a) { return opt4(a.ipv4_mapped()) + " " + opt4(a.sixtofour()) + " " + teredo(a.teredo()); }
static std::string embedded(const ip_address& a) { return opt4(a.ipv4_mapped()) + " " + opt4(a.sixtofour()) + " " + teredo(a.teredo()); }
static std::string scope_of(const ipv4_address&) { return ""; }
static std::string scope_of(const ipv6_address& a) { return a.get_scope_id().get_string() + (a.get_scope_id().has_uint32() ? " " + mc::num(a.get_scope_id().get_uint32()) : ""); }
static std::string scope_of(const ip_address& a) { return a.get_scope_id().get_string() + (a.get_scope_id().has_uint32() ? " " + mc::num(a.get_scope_id().get_uint32()) : ""); }

template <int V> static void held(mc::Ctx& c, const ip_address& x, const typename T<V>::address& t) {
    const std::string n = t.to_string();
    MC_CHECK(x.version() == (V == 4 ? ip_version::V4 : ip_version::V6) && x.is_v4() == (V == 4) && x.is_v6() == (V == 6), n + " version");
    MC_CHECK(x.size() == t.size() && x.size() == size_t(V == 4 ? 4 : 16), n + " size");
    MC_CHECK(std::memcmp(x.data(), t.data(), t.size()) == 0, n + " data");
    MC_CHECK(R(x.to_uint128()) == value_of(t) && R(uint128_t(x)) == value_of(t), n + " to_uint128");
    MC_CHECK(x.to_uint32() == uint32_t(value_of(t)) && uint32_t(x) == uint32_t(value_of(t)), n + " to_uint32");
    MC_CHECK(x.v4().has_value() == (V == 4) && x.v6().has_value() == (V == 6), n + " v4() or v6()");
    MC_CHECK(texts(x) == texts(t), n + " texts");
    MC_CHECK(streamed(x) == streamed(t), n + " streams: " + Q(streamed(x)) + " " + Q(streamed(t)));
    MC_CHECK(x.reverse_pointer() == t.reverse_pointer(), n + " reverse_pointer");
    MC_CHECK(predicates(x) == predicates(t) && x.is_site_local() == site(t), n + " predicates");
    MC_CHECK(embedded(x) == embedded(t), n + " embedded addresses: " + embedded(x) + " / " + embedded(t));
    MC_CHECK(scope_of(x) == scope_of(t), n + " scope id");
    MC_CHECK(x == ip_address(t) && x.hash() == ip_address(t).hash(), n + " conversion from the typed address");
    ip_address y;
    y = t;
    MC_CHECK(y == x && !(y != x), n + " assignment from the typed address");
    const ip_address b = ip_address::from_bytes(t.bytes());
    MC_CHECK(R(b.to_uint128()) == value_of(t) && b.version() == x.version(), n + " from_bytes");
    const ip_address d = ip_address::from_bytes(t.data(), t.size(), x.version()), e(t.bytes());
    MC_CHECK(d == b && e == b, n + " from_bytes with version or constructor");
    MC_CHECK(ip_address::from_uint(t.to_uint()) == b, n + " from_uint");
}
static void check4(mc::Ctx& c, uint32_t v) {
    const ipv4_address t = lib4(v);
    const ip_address x = t;
    held<4>(c, x, t);
    if (!x.v4().has_value()) return;
    MC_CHECK(x.v4().value() == t, S(t) + " v4()");
    ip_address w = x;
    error_code e = error_code::empty_address;
    w.set_scope_id("eth0", e);
    MC_CHECK(e == error_code::no_error && w == x && !w.get_scope_id(), S(t) + " acquires a scope id");
    if (c.wants_sample()) c.sample(S(t));
}
static void check6(mc::Ctx& c, u128 v, const std::string& scope) {
    const ipv6_address t = lib6(v, scope);
    const ip_address x = t;
    held<6>(c, x, t);
    if (!x.v6().has_value()) return;
    MC_CHECK(x.v6().value() == t, S(t) + " v6()");
    static const char* const sc[] = { "eth0", "", "12", "a b", "0123456789abcdefg" };
    for (int k = 0; k < 5; ++k) {
        ip_address w = x; ipv6_address u = t;
        error_code e = error_code::empty_address, f = error_code::no_error;
        w.set_scope_id(std::string(sc[k]), e); u.set_scope_id(std::string(sc[k]), f);
        MC_CHECK(e == f && w == ip_address(u), S(t) + " set_scope_id " + Q(sc[k]) + " " + S(e) + " / " + S(f));
    }
    if (c.wants_sample()) c.sample(S(t));
}
MC_SPACE(addresses4, "every operation on version-agnostic IPv4 addresses of the pool") { const std::vector<uint32_t> p = en::pool4(c.thorough()); c.range(p.size(), 4, [&](uint64_t i) { c.fresh(); check4(c, p[i]); }); }
MC_SPACE(addresses6, "every operation on version-agnostic IPv6 addresses of the pool, with and without scope ids") {
    const std::vector<u128> p = en::pool6(c.thorough());
    const std::vector<std::string> s = en::scopes();
    c.range(p.size() * 2, 4, [&](uint64_t i) { c.fresh(); check6(c, p[i / 2], i % 2 ? s[(i / 2) % s.size()] : std::string()); });
    static const uint64_t hi[] = { 0x2002000000000000ull, 0x2001000000000000ull, 0x20010000FFFFFFFFull, 0xfe80000000000000ull, 0xfec0000000000000ull, 0xff00000000000000ull, 0 };
    static const uint64_t lo[] = { 0, 1, 0x0000FFFF0A000001ull, 0x0000FFFFFFFFFFFFull, ~0ull };
    for (int i = 0; i < 35; ++i) for (size_t k = 0; k < s.size(); ++k) if (c.take()) { c.fresh(); check6(c, ref::mk(hi[i % 7], lo[i / 7]), s[k]); }
}

// parsing
template <typename Any, typename T4, typename T6, typename F> static void parsing(mc::Ctx& c, const std::string& s, const F& parse, const std::string& tag) {
    error_code e4 = error_code::no_error, e6 = error_code::no_error, ea = error_code::no_error;
    const T4 a = parse(s, e4, T4());
    const T6 b = parse(s, e6, T6());
    const Any x = parse(s, ea, Any());
    const bool ok4 = e4 == error_code::no_error, ok6 = e6 == error_code::no_error;
    MC_CHECK((ea == error_code::no_error) == (ok4 || ok6), tag + Q(s) + " " + S(ea) + " but typed " + S(e4) + ", " + S(e6));
    MC_CHECK(!(ok4 && ok6), tag + Q(s) + " is valid in both versions");
    if (ea == error_code::no_error) {
        MC_CHECK(x.version() == (ok4 ? ip_version::V4 : ip_version::V6), tag + Q(s) + " has the wrong version");
        MC_CHECK(ok4 ? x == Any(a) : x == Any(b), tag + Q(s) + " gives " + Q(x.to_string()));
    } else MC_CHECK(ea == e4 || ea == e6, tag + Q(s) + " reports " + S(ea) + ", typed " + S(e4) + ", " + S(e6));
}
struct PA { template <typename X> X operator()(const std::string& s, error_code& e, const X&) const { return parse_code<X>(s, e); } };
struct PN { bool strict; template <typename X> X operator()(const std::string& s, error_code& e, const X&) const { return parse_net_code<X>(s, strict, e); } };
#if MC_EXC
// the exceptions agree as well
struct EA { template <typename X> X operator()(const std::string& s, error_code& e, const X&) const { try { e = error_code::no_error; return X::parse(s); } catch (const ip::parse_error& x) { e = x.code(); } return X(); } };
struct EN { bool strict; template <typename X> X operator()(const std::string& s, error_code& e, const X&) const { try { e = error_code::no_error; return X::parse(s, strict); } catch (const ip::parse_error& x) { e = x.code(); } return X(); } };
#endif
static void text(mc::Ctx& c, const std::string& s) {
    parsing<ip_address, ipv4_address, ipv6_address>(c, s, PA(), "");
    const PN st = { true }, ns = { false };
    parsing<ip_network, ipv4_network, ipv6_network>(c, s, st, "strict network ");
    parsing<ip_network, ipv4_network, ipv6_network>(c, s, ns, "network ");
#if MC_EXC
    parsing<ip_address, ipv4_address, ipv6_address>(c, s, EA(), "throwing ");
    const EN et = { true };
    parsing<ip_network, ipv4_network, ipv6_network>(c, s, et, "throwing network ");
#endif
    if (c.wants_sample()) c.sample(s);
}
MC_SPACE(short_texts, "all texts over a significant alphabet up to length 5 (thorough 6)") { en::strings(c, std::string("01.:/%a"), 0, int(c.bound(5, 7, 3)), [&](const std::string& s) { text(c, s); }); }
MC_SPACE(edited_texts, "all texts one edit away from valid addresses and networks of both versions") {
    static const char* const v[] = { "1.2.3.4", "255.255.255.255", "::", "1::", "::1.2.3.4", "1:2:3:4:5:6:7:8", "fe80::1%eth0", "10.0.0.0/8", "10.0.0.0/255.0.0.0", "2001:db8::/32", "::/0", "0.0.0.0/0.0.0.0", "::ffff:1.2.3.4/128", "1.2.3.4/32", "1::%1/16" };
    const std::string al("09af.:/% x");
    for (size_t k = 0; k < sizeof v / sizeof *v; ++k) {
        if (c.take()) { c.fresh(); text(c, v[k]); }
        en::edits(std::string(v[k]), al, [&](const std::string& t) { if (c.take()) { c.state(mc::hash(t)); text(c, t); } });
    }
}

// networks
template <int V> static typename T<V>::network mk(u128 a, int prefix) { error_code e = error_code::no_error; return T<V>::network::from_address(T<V>::make(a), e, size_t(prefix), false); }
template <typename Seq> static std::string list(const Seq& s, unsigned max) { std::string r; unsigned k = 0; for (auto it = s.begin(); it != s.end() && k < max; ++it, ++k) r += (*it).to_string() + " "; return r + (k == max ? "..." : ""); }
template <int V> static void network(mc::Ctx& c, const typename T<V>::network& t) {
    const ip_network x(t);
    const std::string n = t.to_string();
    MC_CHECK(x.version() == (V == 4 ? ip_version::V4 : ip_version::V6) && x.is_v4() == (V == 4) && x.is_v6() == (V == 6) && x.v4().has_value() == (V == 4) && x.v6().has_value() == (V == 6), n + " version");
    MC_CHECK(texts(x) == texts(t), n + " texts");
    MC_CHECK(streamed(x) == streamed(t), n + " streams: " + Q(streamed(x)) + " " + Q(streamed(t)));
    MC_CHECK(x.network_address() == ip_address(t.network_address()) && x.broadcast_address() == ip_address(t.broadcast_address()) && x.netmask() == ip_address(t.netmask()) && x.hostmask() == ip_address(t.hostmask()) && x.prefixlen() == t.prefixlen(), n + " addresses");
    MC_CHECK(R(x.addresses_count()) == U(t.broadcast_address().to_uint()) - U(t.network_address().to_uint()) + 1, n + " addresses_count"); // also where the IPv4 count needs 33 bits
    MC_CHECK(predicates(x) == predicates(t) && x.is_site_local() == site(t), n + " predicates");
    MC_CHECK(x == ip_network(t) && x.hash() == ip_network(t).hash(), n + " equality");
    ip_network y;
    y = t;
    MC_CHECK(y == x, n + " assignment from the typed network");
    static const size_t diffs[] = { 0, 1, 2, 3, 8, 33, 129, ~size_t(0) };
    for (int k = 0; k < 8; ++k) for (int w = 0; w < 9; ++w) {
        static const size_t pre[] = { 0, 1, 8, 24, 31, 32, 64, 128 };
        if (w == 8 ? false : k > 2) continue;
        error_code e = error_code::no_error, f = error_code::no_error;
        const ip::optional<size_t> np = w == 8 ? ip::optional<size_t>() : ip::optional<size_t>(pre[w]);
        const ip_network sa = x.supernet(e, diffs[k], np);
        const typename T<V>::network st = t.supernet(f, diffs[k], np);
        MC_CHECK(e == f && (e != error_code::no_error || sa == ip_network(st)), n + " supernet " + mc::num(diffs[k]) + " " + mc::num(w));
        const auto qa = x.subnets(e, diffs[k], np);
        const auto qt = t.subnets(f, diffs[k], np);
        MC_CHECK(e == f && qa.empty() == qt.empty() && (R(qa.size()) & ref::ones(int(sizeof(qt.size())) * 8)) == U(qt.size()) && list(qa, 9) == list(qt, 9), n + " subnets " + mc::num(diffs[k]) + " " + mc::num(w));
        if (e == error_code::no_error && !qt.empty()) MC_CHECK(qa.front() == ip_network(qt.front()) && qa.back() == ip_network(qt.back()), n + " subnets front or back");
    }
    const auto ha = x.hosts();
    const auto ht = t.hosts();
    MC_CHECK(ha.empty() == ht.empty() && R(ha.size()) == U(ht.size()) && list(ha, 17) == list(ht, 17) && ha.front() == ip_address(ht.front()) && ha.back() == ip_address(ht.back()), n + " hosts");
    if (c.wants_sample()) c.sample(n);
}
static std::vector<ipv4_network> nets4(long step) { const uint32_t b[] = { 0, 0x0A010203, 0xC0A80101, 0xFFFFFFFF, 0x7F000001, 0xE0000001 }; std::vector<ipv4_network> r; for (int i = 0; i < 6; ++i) for (int p = 0; p <= 32; p += p < 30 ? int(step) : 1) r.push_back(mk<4>(b[i], p)); return r; }
static std::vector<ipv6_network> nets6(long step) {
    const u128 b[] = { 0, ~u128(0), ref::mk(0x20010db800000000ull, 1), ref::mk(0xfe80000000000000ull, 0), u128(0xFFFF0A000001ull), ref::mk(0xfec0000000000000ull, 0) };
    std::vector<ipv6_network> r;
    for (int i = 0; i < 6; ++i) for (int p = 0; p <= 128; p += p < 126 ? int(step) : 1) r.push_back(mk<6>(b[i], p));
    for (int p = 64; p <= 128; p += 16) { error_code e = error_code::no_error; r.push_back(ipv6_network::from_address(lib6(b[3], "eth0"), e, size_t(p))); }
    return r;
}
MC_SPACE(networks4, "every operation on version-agnostic IPv4 networks: every prefix length over several addresses") { const std::vector<ipv4_network> p = nets4(1); c.range(p.size(), 2, [&](uint64_t i) { c.fresh(); network<4>(c, p[i]); }); }
MC_SPACE(networks6, "every operation on version-agnostic IPv6 networks: every prefix length over several addresses, with scope ids") { const std::vector<ipv6_network> p = nets6(c.reduced() ? 8 : 1); c.range(p.size(), 2, [&](uint64_t i) { c.fresh(); network<6>(c, p[i]); }); }

template <typename N> static void related(mc::Ctx& c, const N& s, const N& t) {
    const ip_network x(s), y(t);
    const std::string n = s.to_string() + " and " + t.to_string();
    MC_CHECK(x.overlaps(y) == s.overlaps(t) && x.subnet_of(y) == s.subnet_of(t) && x.supernet_of(y) == s.supernet_of(t) && x.contains(y.network_address()) == s.contains(t.network_address()) && x.contains(y.broadcast_address()) == s.contains(t.broadcast_address()), n + " relations");
    MC_CHECK((x == y) == (s == t) && (x != y) == (s != t) && (x < y) == (s < t) && (x <= y) == (s <= t) && (x > y) == (s > t) && (x >= y) == (s >= t), n + " comparison");
    error_code e = error_code::no_error, f = error_code::no_error;
    const auto a = x.address_exclude(y, e);
    const auto b = s.address_exclude(t, f);
    MC_CHECK(e == f && a.empty() == b.empty() && list(a, 130) == list(b, 130), n + " address_exclude " + S(e) + " / " + S(f));
}
MC_SPACE(pairs4, "all ordered pairs of IPv4 networks: relations, comparison, exclusion") { const std::vector<ipv4_network> p = nets4(c.bound(2, 1, 8)); const uint64_t n = p.size(); c.range(n * n, 64, [&](uint64_t i) { c.fresh(); related(c, p[i / n], p[i % n]); }); }
MC_SPACE(pairs6, "all ordered pairs of IPv6 networks: relations, comparison, exclusion") { const std::vector<ipv6_network> p = nets6(c.bound(7, 2, 40)); const uint64_t n = p.size(); c.range(n * n, 64, [&](uint64_t i) { c.fresh(); related(c, p[i / n], p[i % n]); }); }
MC_SPACE(across, "all pairs of networks across versions: unrelated, ordered by version, exclusion is a version error; addresses across versions") {
    const std::vector<ipv4_network> p = nets4(3); const std::vector<ipv6_network> q = nets6(9);
    c.range(uint64_t(p.size()) * q.size(), 64, [&](uint64_t i) {
        const ip_network x(p[i / q.size()]), y(q[i % q.size()]);
        const std::string n = x.to_string() + " and " + y.to_string();
        c.fresh();
        MC_CHECK(!x.overlaps(y) && !y.overlaps(x) && !x.subnet_of(y) && !y.subnet_of(x) && !x.supernet_of(y) && !y.supernet_of(x) && !x.contains(y.network_address()) && !y.contains(x.network_address()), n + " are related");
        MC_CHECK(x < y && x <= y && y > x && y >= x && x != y && !(x == y) && !(y < x) && !(y <= x) && !(x > y) && !(x >= y), n + " are not ordered by version");
        error_code e = error_code::no_error, f = error_code::no_error;
        const auto a = x.address_exclude(y, e), b = y.address_exclude(x, f);
        MC_CHECK(e == error_code::invalid_version && f == error_code::invalid_version && a.empty() && b.empty(), n + " address_exclude");
        const ip_address s = x.network_address(), t = y.network_address();
        MC_CHECK(s < t && s <= t && t > s && t >= s && s != t && !(s == t) && !(t < s) && !(t <= s) && !(s > t) && !(s >= t), n + ": addresses are not ordered by version");
    });
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
