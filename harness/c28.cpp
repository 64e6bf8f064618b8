// C28: a transcript of every operation on enumerated inputs, the same cases in every configuration.
// Digests per block of cases are compared between the configurations by tools/c28.py.
#include "mc.hpp"
#include "lib.hpp"
#include <algorithm>
#include <iomanip>
#include <map>
#include <sstream>

enum { BLOCK = 64, BLOCKS = 1 << 20 };
struct Slot { uint64_t key, count, digest; };
static Slot* slots; // open addressing by space and block

// MC_NO_SCOPE: the configuration without scope ids
class Tr {
    std::string t_;
public:
    Tr& operator<<(const std::string& s) { t_ += s; t_ += '\n'; return *this; }
    Tr& operator<<(const char* s) { return *this << std::string(s); }
    Tr& operator<<(bool b) { t_ += b ? 'T' : 'F'; return *this; }
    Tr& operator<<(unsigned long long v) { char b[24]; std::snprintf(b, sizeof b, "%llx,", v); t_ += b; return *this; }
    Tr& operator<<(unsigned long v) { return *this << (unsigned long long) v; }
    Tr& operator<<(unsigned v) { return *this << (unsigned long long) v; }
    Tr& operator<<(int v) { return *this << (unsigned long long) (long long) v; }
    Tr& operator<<(long v) { return *this << (unsigned long long) v; }
    Tr& operator<<(error_code e) { return *this << unsigned(e); }
    Tr& operator<<(const uint128_t& v) { return *this << v.upper() << v.lower(); }
    Tr& operator<<(const ipv4_address& a) { return *this << a.to_uint(); }
    Tr& operator<<(const ipv6_address& a) { *this << a.to_uint(); const std::string s = a.get_scope_id().get_string(); if (!s.empty()) *this << s; return *this; }
    Tr& operator<<(const ip_address& a) { *this << int(a.version()); if (a.version() == ip_version::V4) return *this << a.v4().value(); return *this << a.v6().value(); }
    Tr& operator<<(const ipv4_network& n) { return *this << n.network_address() << unsigned(n.prefixlen()) << n.netmask(); }
    Tr& operator<<(const ipv6_network& n) { return *this << n.network_address() << unsigned(n.prefixlen()) << n.netmask(); }
    Tr& operator<<(const ip_network& n) { *this << int(n.version()); if (n.version() == ip_version::V4) return *this << n.v4().value(); return *this << n.v6().value(); }
    const std::string& text() const { return t_; }
};
static const char* block_wanted;
static void put(mc::Ctx& c, int space, const Tr& t) {
    const uint64_t block = c.index() / BLOCK, key = (uint64_t(space + 1) << 40 | block) + 1;
    c.step(t.text().size());
    c.fresh();
    if (c.wants_sample()) c.sample(t.text().substr(0, 150));
    if (block_wanted) {
        char want[64]; std::snprintf(want, sizeof want, "%d:%llu", space, (unsigned long long) block);
        if (!std::strcmp(want, block_wanted)) { const std::string l = mc::num(c.index()) + " " + mc::esc(t.text()) + "\n"; (void) !write(1, l.data(), l.size()); }
    }
    const uint64_t h = mc::comb(mc::hash(t.text()), c.index());
    for (uint64_t p = mc::mix(key) % BLOCKS;; p = (p + 1) % BLOCKS) {
        uint64_t z = __atomic_load_n(&slots[p].key, __ATOMIC_RELAXED);
        if (!z) { __atomic_compare_exchange_n(&slots[p].key, &z, key, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); if (!z) z = key; }
        if (z == key) { __atomic_fetch_add(&slots[p].count, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&slots[p].digest, h, __ATOMIC_RELAXED); return; }
    }
}
#define SPACE(id, name, what) static const int id_##name = id; MC_SPACE(name, what)

template <typename Ch> static std::basic_string<Ch> wide(const std::string& s) { std::basic_string<Ch> r; for (size_t i = 0; i < s.size(); ++i) r += Ch((unsigned char) s[i]); return r; }
template <typename X, typename S> static void parse_one(Tr& t, const S& s) { error_code e = error_code::no_error; const X x = X::parse(s, e); t << e; if (e == error_code::no_error) t << x; }
template <typename S> static void parse_all(Tr& t, const S& s) {
    parse_one<ipv4_address>(t, s); parse_one<ipv6_address>(t, s); parse_one<ip_address>(t, s); parse_one<ipv4_network>(t, s); parse_one<ipv6_network>(t, s); parse_one<ip_network>(t, s);
    for (int k = 0; k < 3; ++k) {
        error_code e = error_code::no_error;
        if (k == 0) { const auto n = ipv4_network::parse(s, e, false); t << e; if (e == error_code::no_error) t << n; }
        if (k == 1) { const auto n = ipv6_network::parse(s, e, false); t << e; if (e == error_code::no_error) t << n; }
        if (k == 2) { const auto n = ip_network::parse(s, e, false); t << e; if (e == error_code::no_error) t << n; }
    }
}
SPACE(0, texts, "every text to length 5 (thorough 6) over nine characters, parsed as everything, strict and not") {
    const std::string al("1f.:/50xG");
    en::strings(c, al, 0, int(c.bound(5, 6, 3)), [&](const std::string& s) { Tr t; parse_all(t, s); put(c, id_texts, t); });
}
static const char* const seeds[] = { "1.2.3.4", "192.168.255.0/24", "10.0.0.0/255.0.0.0", "255.255.255.255", "2001:db8::8:800:200c:417a", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "fe80::/10", "::", "1:2:3:4:5:6:1.2.3.4/128" };
SPACE(1, edits, "every text one edit from ten seeds, 128 characters, in four encodings") {
    const std::string all = mc::num(0).substr(0, 0) + en::bytes_upto(128);
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k) en::edits(std::string(seeds[k]), all, [&](const std::string& s) {
        if (s.find('%') != std::string::npos || !c.take()) return;
        Tr t; parse_all(t, s); parse_all(t, wide<wchar_t>(s)); parse_all(t, wide<char16_t>(s)); parse_all(t, wide<char32_t>(s));
        const auto u = uint128_t::from_string(s); t << bool(u); if (u) t << u.value();
        put(c, id_edits, t);
    });
}
SPACE(2, units, "UTF-16, UTF-32 and wide texts with every boundary unit or pair of units at four places of four texts") {
    static const uint32_t us[] = { 0, 0x2f, 0x30, 0x39, 0x3a, 0x7f, 0x80, 0xff, 0x131, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdc30, 0xdfff, 0xe000, 0xff11, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x80000031u, 0xffffffffu };
    const size_t n = sizeof us / sizeof *us;
    for (size_t k = 0; k < 4; ++k) for (size_t p = 0; p < 4; ++p) for (size_t a = 0; a < n; ++a) for (size_t b = 0; b <= n; ++b) {
        if (!c.take()) continue;
        const std::string s = k == 0 ? "1.2.3.4" : k == 1 ? "::1:2/64" : k == 2 ? "10.0.0.0/8" : "2001::";
        const size_t at = p * s.size() / 3;
        std::u32string q = wide<char32_t>(s); std::u16string u = wide<char16_t>(s); std::wstring w = wide<wchar_t>(s);
        q.insert(at, 1, char32_t(us[a])); w.insert(at, 1, wchar_t(us[a])); u.insert(at, 1, char16_t(us[a]));
        if (b < n) { q.insert(at + 1, 1, char32_t(us[b])); w.insert(at + 1, 1, wchar_t(us[b])); u.insert(at + 1, 1, char16_t(us[b])); }
        Tr t; parse_all(t, q); parse_all(t, w); parse_all(t, u);
        put(c, id_units, t);
    }
}
template <typename A> static void facts(Tr& t, const A& a) {
    t << a.is_multicast() << a.is_private() << a.is_global() << a.is_reserved() << a.is_loopback() << a.is_link_local() << a.is_unspecified();
    for (int f = 0; f < 3; ++f) { const format m = f == 0 ? format::full : f == 1 ? format::compact : format::compressed; t << a.to_string(m); const std::wstring w = a.to_wstring(m); const std::u16string u = a.to_u16string(m); const std::u32string q = a.to_u32string(m); t << std::string(w.begin(), w.end()) << std::string(u.begin(), u.end()) << std::string(q.begin(), q.end()); }
    t << std::string(a);
}
template <typename A> static void address_facts(Tr& t, const A& a) {
    facts(t, a); t << a.reverse_pointer();
    const auto b = a.bytes();
    for (size_t i = 0; i < b.size(); ++i) t << unsigned(b[i]);
    t << A::from_bytes(b) << A::from_bytes(b.data(), b.size()) << A::from_bytes(b.data(), b.size() / 2) << A::from_uint(a.to_uint());
}
#ifndef IPADDRESS_NO_OVERLOAD_STD
template <typename X> static void streamed(Tr& t, const X& x) {
    for (int k = 0; k < 3; ++k) {
        std::ostringstream o; std::wostringstream w;
        if (k == 1) { o << ip::full << std::uppercase; w << ip::compact; }
        if (k == 2) { o << std::setw(44) << std::left << std::setfill('*'); w << std::setw(50) << std::right; }
        o << x << x; w << x;
        const std::wstring q = w.str();
        t << o.str() << std::string(q.begin(), q.end());
    }
    t << std::to_string(x);
    std::stringstream s; X y, z; s << x << ' ' << x << " junk"; s >> y; t << s.fail() << y; s >> z; t << z; s >> z; t << s.fail();
}
#else
template <typename X> static void streamed(Tr&, const X&) {}
#endif
SPACE(3, values4, "boundary and bit-pattern IPv4 values (thorough: every /20): texts, bytes, predicates, formats") {
    std::vector<uint32_t> p = en::pool4(!c.reduced());
    if (c.thorough()) for (uint32_t i = 0; i < 1u << 20; ++i) p.push_back(i << 12 | (i & 0xfff));
    c.range(p.size(), 16, [&](uint64_t i) {
        const ipv4_address a = lib4(p[i]); Tr t; address_facts(t, a);
        const ip_address x(a); facts(t, x); t << x.reverse_pointer() << x.to_uint32() << x.to_uint128() << x.is_v4() << bool(x.v6());
        put(c, id_values4, t);
    });
}
SPACE(4, values6, "boundary and bit-pattern IPv6 values, and every sequence of eight groups over three values: texts, bytes, predicates, embedded addresses") {
    std::vector<u128> p = en::pool6(true);
    for (unsigned k = 0; k < 6561; ++k) { u128 v = 0; unsigned q = k; for (int g = 0; g < 8; ++g) { static const unsigned vals[] = { 0, 0x1, 0xabcd }; v = v << 16 | vals[q % 3]; q /= 3; } p.push_back(v); }
    c.range(p.size(), 16, [&](uint64_t i) {
        const ipv6_address a = lib6(p[i]); Tr t; address_facts(t, a);
        t << a.is_site_local();
        const auto m = a.ipv4_mapped(); t << bool(m); if (m) t << m.value();
        const auto s = a.sixtofour(); t << bool(s); if (s) t << s.value();
        const auto d = a.teredo(); t << bool(d); if (d) t << d.value().first << d.value().second;
        const ip_address x(a); facts(t, x); t << x.is_site_local() << x.to_uint128() << bool(x.ipv4_mapped());
        put(c, id_values6, t);
    });
}
SPACE(5, streams, "insertion, manipulators and extraction of boundary values and networks (where the standard overloads are enabled)") {
    const std::vector<uint32_t> p4 = en::pool4(false); const std::vector<u128> p6 = en::pool6(false);
    for (size_t i = 0; i < p4.size() + p6.size(); ++i) {
        if (!c.take()) continue;
#ifndef IPADDRESS_NO_OVERLOAD_STD
        Tr t; error_code e = error_code::no_error;
        if (i < p4.size()) { const ipv4_address a = lib4(p4[i]); streamed(t, a); streamed(t, ip_address(a)); const auto n = ipv4_network::from_address(a, e, i % 33, false); streamed(t, n); streamed(t, ip_network(n)); }
        else { const ipv6_address a = lib6(p6[i - p4.size()]); streamed(t, a); streamed(t, ip_address(a)); const auto n = ipv6_network::from_address(a, e, i % 129, false); streamed(t, n); streamed(t, ip_network(n)); const uint128_t u = L(p6[i - p4.size()]); streamed(t, u); std::ostringstream o; o << std::hex << std::showbase << std::setw(40) << u << std::oct << u; t << o.str(); }
        put(c, id_streams, t);
#endif
    }
}
template <typename X> static void compare(Tr& t, const X& a, const X& b) { t << (a == b) << (a != b) << (a < b) << (a > b) << (a <= b) << (a >= b); }
SPACE(6, order, "all ordered pairs of boundary values of both versions, as addresses, networks, version-agnostic objects and integers") {
    const std::vector<uint32_t> p4 = en::pool4(false); const std::vector<u128> p6 = en::pool6(false);
    std::vector<uint32_t> q4; std::vector<u128> q6;
    for (size_t i = 0; i < p4.size(); i += 2) q4.push_back(p4[i]);
    for (size_t i = 0; i < p6.size(); i += 3) q6.push_back(p6[i]);
    const size_t n = q4.size() + q6.size();
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (!c.take()) continue;
        Tr t; error_code e = error_code::no_error;
        const ip_address x = i < q4.size() ? ip_address(lib4(q4[i])) : ip_address(lib6(q6[i - q4.size()])), y = j < q4.size() ? ip_address(lib4(q4[j])) : ip_address(lib6(q6[j - q4.size()]));
        compare(t, x, y);
        const ip_network k = ip_network::from_address(x, e, i % 33, false), l = ip_network::from_address(y, e, j % 33, false);
        compare(t, k, l); t << k.contains(y) << k.overlaps(l) << k.subnet_of(l) << k.supernet_of(l);
        if (i < q4.size() && j < q4.size()) { compare(t, x.v4().value(), y.v4().value()); compare(t, k.v4().value(), l.v4().value()); }
        if (i >= q4.size() && j >= q4.size()) { compare(t, x.v6().value(), y.v6().value()); compare(t, k.v6().value(), l.v6().value()); compare(t, x.v6().value().to_uint(), y.v6().value().to_uint()); }
        put(c, id_order, t);
    }
}
template <typename Seq> static void walk(Tr& t, const Seq& s) {
    t << s.empty() << s.size();
    if (s.empty()) return;
    t << s.front() << s.back() << *s.begin() << *s.rbegin() << s[0] << s[1];
    unsigned k = 0;
    for (auto i = s.begin(); i != s.end() && k < 20; ++i, ++k) t << *i;
    auto i = s.end(); auto b = s.begin();
    for (k = 0; k < 6 && i != b; ++k) { --i; t << *i << (i - b); }
    auto j = b; j += 3u; t << *j << (j > b) << (j - b) << (b - j); j -= 2u; t << *j << (j == b) << (j <= i);
    auto r = s.rbegin(); r++; t << *r << *r.base();
}
template <typename N> static void network_facts(Tr& t, const N& n, size_t w) {
    facts(t, n);
    t << n << n.broadcast_address() << n.hostmask() << n.addresses_count();
    for (unsigned f = 0; f < 2; ++f) { t << n.to_string(f ? format::full : format::compact); }
    error_code e = error_code::no_error;
    t << n.supernet(e) << e << n.supernet(e, 3) << e << n.supernet(e, 0, n.prefixlen() / 2) << e << n.supernet(e, 200) << e;
    static const size_t d[] = { 1, 2, 7, 31, 32, 64, 127, 200 };
    for (size_t k = 0; k < 8; ++k) { const auto s = n.subnets(e, d[k]); t << e; if (e == error_code::no_error) walk(t, s); }
    { const auto s = n.subnets(e, 0, w); t << e; if (e == error_code::no_error) walk(t, s); }
    walk(t, n.hosts());
}
SPACE(7, networks4, "every prefix length over IPv4 values: all network operations and sequences, typed and version-agnostic") {
    const std::vector<uint32_t> p = en::pool4(c.thorough());
    for (size_t i = 0; i < p.size(); i += c.thorough() ? 1 : 5) for (size_t l = 0; l <= 33; ++l) for (int strict = 0; strict < 2; ++strict) {
        if (!c.take()) continue;
        Tr t; error_code e = error_code::no_error;
        const ipv4_network n = ipv4_network::from_address(lib4(p[i]), e, l, strict);
        t << e; if (e == error_code::no_error) { network_facts(t, n, 32); if (!strict) network_facts(t, ip_network(n), 32); }
        put(c, id_networks4, t);
    }
}
SPACE(8, networks6, "every prefix length over IPv6 values: all network operations and sequences, typed and version-agnostic") {
    const std::vector<u128> p = en::pool6(c.thorough());
    for (size_t i = 0; i < p.size(); i += c.thorough() ? 5 : 29) for (size_t l = 0; l <= 129; ++l) for (int strict = 0; strict < 2; ++strict) {
        if (!c.take()) continue;
        Tr t; error_code e = error_code::no_error;
        const ipv6_network n = ipv6_network::from_address(lib6(p[i]), e, l, strict);
        t << e; if (e == error_code::no_error) { network_facts(t, n, 128); if (!strict) { network_facts(t, ip_network(n), 128); t << n.is_site_local(); } }
        put(c, id_networks6, t);
    }
}
template <typename N> static void exclude(Tr& t, const N& a, const N& b) {
    error_code e = error_code::no_error; const auto s = a.address_exclude(b, e); t << e; if (e != error_code::no_error) return;
    unsigned k = 0; for (auto i = s.begin(); i != s.end() && k < 140; ++i, ++k) t << *i;
}
SPACE(9, exclusion, "every pair of prefix lengths: exclusion of contained, equal, containing and foreign networks of both versions, typed and version-agnostic") {
    for (size_t w = 32; w <= 128; w += 96) for (size_t a = 0; a <= w; a += w == 32 ? 1 : 3) for (size_t b = 0; b <= w; b += w == 32 ? 1 : 5) for (int k = 0; k < 3; ++k) {
        if (!c.take()) continue;
        Tr t; error_code e = error_code::no_error;
        if (w == 32) { const uint32_t v = k == 0 ? 0 : k == 1 ? 0xffffffffu : 0xc0a80155u; const auto x = ipv4_network::from_address(lib4(v), e, a, false), y = ipv4_network::from_address(lib4(v), e, b, false); exclude(t, x, y); exclude(t, ip_network(x), ip_network(y)); }
        else { const u128 v = k == 0 ? u128(0) : k == 1 ? ~u128(0) : (u128(0x20010db85555aaaaULL) << 64 | 0x123456789abcdef0ULL); const auto x = ipv6_network::from_address(lib6(v), e, a, false), y = ipv6_network::from_address(lib6(v), e, b, false); exclude(t, x, y); exclude(t, ip_network(x), ip_network(y)); }
        put(c, id_exclusion, t);
    }
}
SPACE(10, arithmetic, "all ordered pairs of 128-bit boundary values: every operator, conversions and texts") {
    std::vector<u128> p = en::pool6(false);
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); j += 2) {
        if (!c.take()) continue;
        const uint128_t a = L(p[i]), b = L(p[j]); Tr t;
        t << a + b << a - b << a * b << (a & b) << (a | b) << (a ^ b) << (a << unsigned(j % 140)) << (a >> unsigned(j % 140)) << ~a << -a << !a << bool(b) << (a < b) << (a == b);
        if (b) t << a / b << a % b;
        uint128_t x = a; x += b; x *= a; x -= b; x++; --x; x <<= 7; x ^= a; x >>= 3; t << x << uint64_t(a) << unsigned(uint8_t(a)) << int(int16_t(a)) << a + 5 << (a < 7u);
        if (j < 2) {
            const uint128_t::format fs[] = { uint128_t::format::decimal, uint128_t::format::octal, uint128_t::format::hexadecimal };
            for (int f = 0; f < 3; ++f) { const std::string s = a.to_string(fs[f]); t << s; const auto q = uint128_t::from_string(s, fs[f]); t << bool(q) << q.value(); const std::wstring w = a.to_wstring(fs[f]); t << std::string(w.begin(), w.end()); }
            char d[80]; std::snprintf(d, sizeof d, "%a %a", double(a), double(float(a))); t << d << uint128_t(double(a)) << uint128_t(float(a));
        }
        put(c, id_arithmetic, t);
    }
}
SPACE(11, strings, "fixed strings, byte arrays and optionals of every short content") {
    for (int i = 0; i < 6 * 6 * 6; ++i) for (int j = 0; j < 6 * 6 * 6; j += 5) {
        if (!c.take()) continue;
        static const char al[] = { 0, 'a', 'b', '0', 127, '/' };
        const char a[4] = { al[i % 6], al[i / 6 % 6], al[i / 36], 0 }, b[4] = { al[j % 6], al[j / 6 % 6], al[j / 36], 0 };
        Tr t; error_code e = error_code::no_error, f = error_code::no_error;
        const auto x = ip::make_fixed_string(a, e), y = ip::make_fixed_string(b, f);
        t << e << f << x.size() << x.empty() << std::string(x.data(), x.size()) << std::string(x.begin(), x.end()) << std::string(x.rbegin(), x.rend());
        compare(t, x, y);
        const char16_t u[4] = { char16_t(a[0] ? 0xd800 + i : 0), char16_t(0xdc00 + j), char16_t(a[2]), 0 };
        const auto z = ip::make_fixed_string(u, e); t << e << z.size();
        ip::byte_array<3> m = {}, n = {}; for (int k = 0; k < 3; ++k) { m[size_t(k)] = uint8_t(a[k]); n[size_t(k)] = uint8_t(b[k]); }
        compare(t, m, n); t << m.size() << m.empty() << unsigned(m.front()) << unsigned(m.back()) << unsigned(*m.rbegin());
        ip::optional<int> o; ip::optional<int> q(i); t << bool(o) << q.value(); o = q; t << o.value() << bool(o);
        put(c, id_strings, t);
    }
}
SPACE(12, scoped, "every text to length 4 over eight characters as a scope id: parsed, set, formatted, compared (not without scope ids)") {
    const std::string al("0a%/: B9");
    en::strings(c, al, 0, int(c.bound(4, 5, 3)), [&](const std::string& s) {
#ifndef IPADDRESS_NO_IPV6_SCOPE
        Tr t; error_code e = error_code::no_error;
        parse_all(t, "fe80::1%" + s); parse_all(t, "fe80::%" + s + "/64"); parse_all(t, wide<char16_t>("fe80::1%" + s));
        ipv6_address a = lib6(1), b = lib6(1, "a"); a.set_scope_id(s, e); t << e << a; compare(t, a, b); t << a.to_string(format::full) << a.get_scope_id().has_uint32();
        if (a.get_scope_id().has_uint32()) t << a.get_scope_id().get_uint32();
        ip_address x(b); x.set_scope_id(wide<wchar_t>(s), e); t << e << x; ip_address y(lib4(1)); y.set_scope_id(s, e); t << e << y;
        compare(t, x, ip_address(a)); t << x.reverse_pointer() << ip_network(ipv6_network::from_address(a, e, 64, false)) << e;
        put(c, id_scoped, t);
#endif
    });
}

static int run(int argc, char** argv) {
    slots = static_cast<Slot*>(mmap(0, sizeof(Slot) * BLOCKS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (slots == MAP_FAILED) return 3;
    block_wanted = std::getenv("C28_BLOCK");
    const int rc = mc::main(argc, argv);
    const char* out = std::getenv("C28_DIGEST");
    if (!out) return rc;
    FILE* f = std::fopen(out, "w");
    if (!f) return 3;
    for (size_t i = 0; i < BLOCKS; ++i) if (slots[i].key) std::fprintf(f, "%llu:%llu %llu %llx\n", (unsigned long long) ((slots[i].key - 1) >> 40) - 1, (unsigned long long) ((slots[i].key - 1) & 0xffffffffffULL), (unsigned long long) slots[i].count, (unsigned long long) slots[i].digest);
    return std::fclose(f) ? 3 : rc;
}
#ifdef MC_EARLY
// the whole transcript is computed before main, by the initialiser of a global object
static int early_argc; static char** early_argv;
struct Early {
    Early() {
        static char buf[65536]; static char* args[256];
        FILE* f = std::fopen("/proc/self/cmdline", "r");
        const size_t n = f ? std::fread(buf, 1, sizeof buf - 1, f) : 0;
        int k = 0;
        for (size_t i = 0; i < n && k < 255; i += std::strlen(buf + i) + 1) args[k++] = buf + i;
        _exit(run(k, args));
    }
};
static Early early;
#endif
int main(int argc, char** argv) { return run(argc, argv); }
