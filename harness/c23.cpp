// C23: one function over enumerated cases, run by the compiler's constant evaluator and by the program.
// -DPART=n -DFROM=a -DTO=b: the blocks [a, b) of space n. Blocks of BLOCK cases are compared as digests.
// -DFOREIGN -DEMIT: the digests as data of an object file for another target; -DFOREIGN: a program that prints them (tools/c31.py).
// -DACCEPT: what the throwing parsers, the literals and parse<text>() accept. -DTHOROUGH: wider bounds.
#include <ipaddress/ipaddress.hpp>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <type_traits>
#include <utility>
using namespace ipaddress;
#ifndef BLOCK
#define BLOCK 8
#endif
#if __cplusplus >= 201703L
#define VIEWS 1
#else
#define VIEWS 0
#endif

// a hash has the width of size_t: other targets compute it, but theirs are compared only with themselves
#ifdef FOREIGN
#define HASH(x) ((x).hash() == same(x).hash())
template <typename T> constexpr T same(const T& x) { return x; }
#else
#define HASH(x) ((x).hash())
#endif

// ---- digest of everything observable in a constant expression
struct H {
    uint64_t h = 14695981039346656037u;
    uint64_t count = 0;
    constexpr H& n(uint64_t v) { ++count; h = (h ^ v) * 1099511628211u; h ^= h >> 29; return *this; }
    constexpr H& operator<<(uint64_t v) { return n(v); }
    constexpr H& operator<<(const uint128_t& v) { return n(v.upper()).n(v.lower()); }
    constexpr H& operator<<(const scope& s) { return n(s.has_string()).n(s.has_uint32()).n(s.has_uint32() ? s.get_uint32() : 0).n(bool(s)); }
    constexpr H& operator<<(const ipv4_address& a) { return n(a.to_uint()); }
    constexpr H& operator<<(const ipv6_address& a) { *this << a.to_uint() << a.get_scope_id(); return n(HASH(a)); }
    constexpr H& operator<<(const ip_address& a) { n(unsigned(a.version())); return a.is_v4() ? *this << a.v4().value() : *this << a.v6().value(); }
    constexpr H& operator<<(const ipv4_network& x) { return *this << x.network_address() << x.netmask() << x.prefixlen(); }
    constexpr H& operator<<(const ipv6_network& x) { return *this << x.network_address() << x.netmask() << x.prefixlen(); }
    constexpr H& operator<<(const ip_network& x) { n(unsigned(x.version())); return x.is_v4() ? *this << x.v4().value() : *this << x.v6().value(); }
    template <typename T> constexpr H& operator<<(const optional<T>& o) { n(bool(o)); return o ? *this << *o : *this; }
    template <typename A, typename B> constexpr H& operator<<(const std::pair<A, B>& p) { return *this << p.first << p.second; }
};

// ---- texts
struct Text {
    char c[96] = {};
    size_t n = 0;
    constexpr Text& add(char x) { c[n++] = x; return *this; }
    constexpr Text& add(const char* s) { while (*s) c[n++] = *s++; return *this; }
    constexpr Text& dec(unsigned v) { char t[12] = {}; int k = 0; do { t[k++] = char('0' + v % 10); v /= 10; } while (v); while (k) c[n++] = t[--k]; return *this; }
};
constexpr uint64_t take(uint64_t& i, uint64_t n) { const uint64_t r = i % n; i /= n; return r; }
constexpr size_t length(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
// text number i at distance one from base: replaced, inserted, removed character at every position
#ifdef THOROUGH
constexpr const char edits[] = "0159.:/%afgF x-\x7f";
#else
constexpr const char edits[] = "05.:/%gF";
#endif
constexpr unsigned pick(unsigned quick, unsigned thorough) {
#ifdef THOROUGH
    return (void) quick, thorough;
#else
    return (void) thorough, quick;
#endif
}
constexpr size_t edit_count = sizeof edits - 1;
constexpr uint64_t deviations(const char* base) { return (length(base) + 1) * (2 * edit_count + 1); }
constexpr Text deviate(const char* base, uint64_t i) {
    Text t;
    const size_t n = length(base), at = take(i, n + 1);
    for (size_t k = 0; k < at; ++k) t.add(base[k]);
    if (i < edit_count) t.add(edits[i]); else if (i < 2 * edit_count) t.add(edits[i - edit_count]);
    const size_t from = i >= edit_count && i < 2 * edit_count ? at : at + 1;
    for (size_t k = from; k < n; ++k) t.add(base[k]);
    return t;
}
template <size_t N> constexpr uint64_t all_deviations(const char* const (&bases)[N]) { uint64_t r = 0; for (size_t i = 0; i < N; ++i) r += deviations(bases[i]); return r; }
template <size_t N> constexpr Text any_deviation(const char* const (&bases)[N], uint64_t i) {
    for (size_t k = 0; k < N; ++k) { const uint64_t d = deviations(bases[k]); if (i < d) return deviate(bases[k], i); i -= d; }
    return Text();
}
template <typename Ch, size_t L> struct Arr { Ch c[L + 1] = {}; };
template <typename Ch, size_t L> constexpr Arr<Ch, L> arr(const Text& t) { Arr<Ch, L> a; for (size_t i = 0; i < L; ++i) a.c[i] = Ch((unsigned char) t.c[i]); return a; }

template <typename X, typename Ch, size_t L> constexpr void by_array(H& h, const Text& t) {
    const auto a = arr<Ch, L>(t);
    error_code e = error_code::no_error;
    const X x = X::parse(a.c, e);
    h << unsigned(e);
    if (e == error_code::no_error) h << x;
}
template <typename X, typename Ch, size_t... L> constexpr void arrays(H& h, const Text& t, std::index_sequence<L...>) {
    const bool done[] = {(L == t.n ? (by_array<X, Ch, L>(h, t), true) : false)...};
    (void) done;
}
template <typename X, typename Ch> constexpr void array(H& h, const Text& t) { arrays<X, Ch>(h, t, std::make_index_sequence<58>()); }
#if VIEWS
template <typename X, typename Ch> constexpr void by_view(H& h, const Text& t) {
    const auto a = arr<Ch, 95>(t);
    const std::basic_string_view<Ch> v(a.c, t.n);
    error_code e = error_code::no_error;
    const X x = X::parse(v, e);
    h << unsigned(e);
    if (e == error_code::no_error) h << x;
}
template <typename X> constexpr void loose(H& h, const Text& t) {
    error_code e = error_code::no_error;
    const X x = X::parse(std::string_view(t.c, t.n), e, false);
    h << unsigned(e);
    if (e == error_code::no_error) h << x;
}
#endif
template <typename X> constexpr void parse_text(H& h, const Text& t, uint64_t i) {
#if VIEWS
    by_view<X, char>(h, t);
    switch (i % 3) { case 0: by_view<X, wchar_t>(h, t); break; case 1: by_view<X, char16_t>(h, t); break; default: by_view<X, char32_t>(h, t); }
#if __cpp_char8_t >= 201811L
    if (i % 4 == 0) by_view<X, char8_t>(h, t);
#endif
#else
    array<X, char>(h, t);
    if (i % 3 == 0) array<X, char16_t>(h, t);
    (void) i;
#endif
}

// ---- operations on addresses and networks
template <typename A> constexpr void order(H& h, const A& a, const A& b) {
    h << (a == b) << (a != b) << (a < b) << (a > b) << (a <= b) << (a >= b) << (a.hash() == b.hash());
    A x = a, y = b;
    x.swap(y);
    h << (x == b) << (y == a);
}
template <typename A> constexpr void address(H& h, const A& a) {
    h << a << a.is_multicast() << a.is_private() << a.is_global() << a.is_reserved() << a.is_loopback() << a.is_link_local() << a.is_unspecified() << HASH(a);
    for (size_t k = 0; k < a.size(); ++k) h << a.data()[k];
}
constexpr void v6_only(H& h, const ipv6_address& a) { h << a.is_site_local() << a.ipv4_mapped() << a.sixtofour() << a.teredo(); }
constexpr void any_only(H& h, const ip_address& a) { h << a.is_site_local() << a.ipv4_mapped() << a.sixtofour() << a.teredo() << a.v4() << a.v6() << a.is_v4() << a.is_v6() << a.to_uint32() << a.to_uint128() << a.size(); }
template <typename S> constexpr void sequence(H& h, const S& s, int steps) {
    h << s.empty() << uint64_t(s.size()) << s.front() << s.back();
    auto it = s.begin();
    const auto end = s.end();
    int k = 0;
    for (; k < steps && it != end; ++k, ++it) h << *it;
    h << (it == end) << it.uint_diff(s.begin());
    auto r = s.rbegin();
    for (k = 0; k < steps && r != s.rend(); ++k) h << *r++;
    h << (r == s.rend());
    auto m = s.begin();
    if (uint64_t(s.size()) > 4) { typedef typename S::difference_type D; m += D(3); h << *m; m -= D(2); h << *m << m[D(1)] << *(m + D(2)) << uint64_t(m - s.begin()) << (m < end) << (m >= end); h << *--m; h << *m++; h << *m--; h << *m; h << s[2] << s.at(3); }
}
template <typename N> constexpr void network(H& h, const N& n, int steps) {
    h << n << n.broadcast_address() << n.hostmask() << n.is_multicast() << n.is_private() << n.is_global() << n.is_reserved() << n.is_loopback() << n.is_link_local() << n.is_unspecified();
    h << n.addresses_count() << HASH(n) << n.contains(n.broadcast_address()) << n.contains(n.network_address());
    sequence(h, n.hosts(), steps);
    for (size_t d = 0; d < 4; ++d) {
        error_code e = error_code::no_error;
        const auto s = n.subnets(e, d);
        h << unsigned(e);
        if (e == error_code::no_error) sequence(h, s, steps);
        e = error_code::no_error;
        const auto u = n.supernet(e, d);
        h << unsigned(e);
        if (e == error_code::no_error) h << u;
        e = error_code::no_error;
        const auto p = n.subnets(e, 1, n.prefixlen() + d);
        h << unsigned(e);
        if (e == error_code::no_error) h << p.empty() << p.front() << p.back();
        e = error_code::no_error;
        const auto q = n.supernet(e, 1, n.prefixlen() - d);
        h << unsigned(e);
        if (e == error_code::no_error) h << q;
    }
}
template <typename N> constexpr void network_pair(H& h, const N& a, const N& b) {
    order(h, a, b);
    h << a.contains(b.network_address()) << a.overlaps(b) << a.subnet_of(b) << a.supernet_of(b);
    error_code e = error_code::no_error;
    const auto s = a.address_exclude(b, e);
    h << unsigned(e);
    if (e == error_code::no_error) {
        h << s.empty();
        int k = 0;
        for (auto it = s.begin(); it != s.end() && k < 200; ++it, ++k) h << *it << (it->prefixlen());
        h << k;
    }
}

// ---- spaces
constexpr unsigned char v4_bytes[] = {0, 1, 10, 100, 127, 128, 168, 169, 172, 192, 198, 203, 224, 240, 254, 255};
constexpr uint32_t v4_edges[] = {0, 1, 0x00ffffff, 0x01000000, 0x0a000000, 0x0affffff, 0x0b000000, 0x643fffff, 0x64400000, 0x647fffff, 0x64800000, 0x7effffff, 0x7f000000, 0x7fffffff, 0x80000000, 0xa9fdffff, 0xa9fe0000, 0xa9feffff, 0xa9ff0000, 0xac0fffff, 0xac100000, 0xac1fffff, 0xac200000, 0xbfffffff, 0xc0000000, 0xc0000007, 0xc0000008, 0xc00000aa, 0xc00000ab, 0xc0000100, 0xc0000200, 0xc00002ff, 0xc0000300, 0xc0a7ffff, 0xc0a80000, 0xc0a8ffff, 0xc0a90000, 0xc6120000, 0xc613ffff, 0xc6140000, 0xc6336400, 0xc63364ff, 0xc6336500, 0xcb007100, 0xcb0071ff, 0xcb007200, 0xdfffffff, 0xe0000000, 0xefffffff, 0xf0000000, 0xfffffffe, 0xffffffff};
constexpr size_t v4_edge_count = sizeof v4_edges / sizeof *v4_edges;
constexpr uint64_t v6_uppers[] = {0, 1, 0xffffull << 48, 0xff00ull << 48, 0xfc00ull << 48, 0xfd12345678ull << 24, 0xfe80ull << 48, 0xfebfull << 48, 0xfec0ull << 48, 0xfeffull << 48, 0x2001ull << 48, 0x2001000000000001ull, 0x20010db8ull << 32, 0x20010002ull << 32, 0x20010010ull << 32, 0x2002c0a80101ull << 16, 0x2002ffffffffull << 16, 0x0064ff9bull << 32, 0x0100ull << 48, 0x4000ull << 48, 0x8000ull << 48, ~0ull};
constexpr uint64_t v6_lowers[] = {0, 1, 2, 0xffffull << 32 | 0x7f000001, 0xffffull << 32 | 0xc0a80001, 0xffffull << 32 | 0x08080808, 0xffffull << 32 | 0xa9fe0001, 0xffffull << 32, 0xfffeull << 32, 0x10000ull << 32, 0x8000ull << 48, 0x3f57fefff0f0f0f0ull, ~0ull};
constexpr size_t v6_upper_count = sizeof v6_uppers / 8, v6_lower_count = sizeof v6_lowers / 8;
constexpr ipv6_address v6_at(uint64_t i) { const uint64_t u = v6_uppers[take(i, v6_upper_count)]; return ipv6_address::from_uint(uint128_t(u, v6_lowers[i % v6_lower_count])); }
constexpr const char* scopes[] = {"%0", "%1", "%eth0", "%4294967295", "%4294967296", "%0123456789abcdef", "%01", "%a"};
constexpr const char* v4_tokens[] = {"0", "9", "10", "99", "100", "199", "249", "255", "256", "300", "01", "00", "1000", "", "a", "+1"};
constexpr size_t v4_token_count = sizeof v4_tokens / sizeof *v4_tokens;
constexpr const char* v6_tokens[] = {"0", "aBc", "ffff", "12345", "00f", "1", "g"};
constexpr const char* v4_bases[] = {"192.168.10.255", "0.0.0.0", "1.20.3.40", "255.255.255.255"};
constexpr const char* v6_bases[] = {"::", "::1", "2001:db8:0:1:2:3:4:5", "fe80::1%eth0", "::ffff:192.168.0.1", "1::", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "64:ff9b::8.8.8.8%1"};
constexpr const char* net_bases[] = {"10.0.0.0/8", "192.168.1.0/255.255.255.0", "0.0.0.0/0", "10.0.0.0/0.255.255.255", "2001:db8::/32", "fe80::%1/64", "::/0", "::1/128", "1.2.3.4"};
constexpr const char* net_addrs[] = {"10.0.0.0", "10.1.2.3", "0.0.0.0", "255.255.255.255", "192.168.255.0", "2001:db8::", "::1", "::", "fe80::%7", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};
constexpr const char* net_prefixes[] = {"", "/", "/0", "/1", "/8", "/16", "/24", "/31", "/32", "/33", "/63", "/64", "/127", "/128", "/129", "/00", "/024", "/1000", "/-1", "/ 8", "/8 ", "/255.255.255.0", "/0.0.0.255", "/255.0.255.0", "/255.255.255.255", "/0.0.0.0", "/255.255.255", "/8/8", "/a", "/4294967304"};
constexpr size_t net_addr_count = sizeof net_addrs / sizeof *net_addrs, net_prefix_count = sizeof net_prefixes / sizeof *net_prefixes;
constexpr uint64_t limbs[] = {0, 1, 2, 3, 10, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x8000000000000000, 0x7fffffffffffffff, 0xffffffff00000000, 0xfffffffffffffffe, 0xffffffffffffffff, 0x0123456789abcdef};
constexpr size_t limb_count = sizeof limbs / 8;
#ifdef THOROUGH
constexpr const char* int_bases[] = {"0", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "18446744073709551616", "ffffffffffffffffffffffffffffffff", "0xDeadBeef", "0777", "3777777777777777777777777777777777777777777"};
#else
constexpr const char* int_bases[] = {"0", "340282366920938463463374607431768211455", "fffffffffffffffffffffffffffff", "0777"};
#endif
constexpr const char* scope_bases[] = {"", "eth0", "1", "4294967295", "0123456789abcdef", "a b", "4294967296"};

template <int P> struct Space;
constexpr ipv4_address v4_at(uint64_t i) { return i < v4_edge_count ? ipv4_address::from_uint(v4_edges[i]) : ipv4_address::from_uint(uint32_t(v4_bytes[(i - v4_edge_count) % 16]) << 24 | uint32_t(v4_bytes[(i - v4_edge_count) / 16 % 16]) << 16 | uint32_t((i - v4_edge_count) * 2654435761u & 0xffff)); }

// v4 texts: token tuples over two free positions
template <> struct Space<0> {
    static constexpr bool texts = true;
    static constexpr uint64_t size() { return all_deviations(v4_bases) + 6 * v4_token_count * v4_token_count; }
    static constexpr Text text(uint64_t i) {
        if (i < all_deviations(v4_bases)) return any_deviation(v4_bases, i);
        i -= all_deviations(v4_bases);
        const size_t x = take(i, v4_token_count), y = take(i, v4_token_count);
        const unsigned p = i < 3 ? 0 : i < 5 ? 1 : 2, q = i < 3 ? unsigned(i) + 1 : i < 5 ? unsigned(i) - 1 : 3;
        Text t;
        for (unsigned k = 0; k < 4; ++k) { if (k) t.add('.'); t.add(k == p ? v4_tokens[x] : k == q ? v4_tokens[y] : "7"); }
        return t;
    }
    static constexpr void run(H& h, uint64_t i) { const Text t = text(i); parse_text<ipv4_address>(h, t, i); parse_text<ip_address>(h, t, i + 1); }
};
// v6 texts: group count, position of "::", token, v4 tail, scope; and deviations
template <> struct Space<1> {
    static constexpr bool texts = true;
    static constexpr uint64_t shapes() { return 9 * 10 * pick(4, 7) * 2 * pick(2, 3); }
    static constexpr uint64_t size() { return all_deviations(v6_bases) + shapes(); }
    static constexpr Text text(uint64_t i) {
        if (i < all_deviations(v6_bases)) return any_deviation(v6_bases, i);
        i -= all_deviations(v6_bases);
        const unsigned groups = unsigned(take(i, 9)) + 1, gap = unsigned(take(i, 10)), token = unsigned(take(i, pick(4, 7))), tail = unsigned(take(i, 2)), sc = unsigned(i);
        Text t;
        for (unsigned k = 0; k < groups; ++k) {
            if (k == gap) t.add("::"); else if (k) t.add(':');
            t.add(k + 1 == groups && tail ? "1.2.3.4" : k % 3 == 1 ? v6_tokens[token] : "1");
        }
        if (gap == groups) t.add("::");
        if (sc) t.add(scopes[(groups + gap + token) % 8]);
        if (sc == 2) t.add(token % 2 ? "%" : "b");
        return t;
    }
    static constexpr void run(H& h, uint64_t i) { const Text t = text(i); parse_text<ipv6_address>(h, t, i); parse_text<ip_address>(h, t, i + 1); }
};
// network texts
template <> struct Space<2> {
    static constexpr bool texts = true;
    static constexpr uint64_t size() { return net_addr_count * net_prefix_count + all_deviations(net_bases); }
    static constexpr Text text(uint64_t i) {
        if (i >= net_addr_count * net_prefix_count) return any_deviation(net_bases, i - net_addr_count * net_prefix_count);
        Text t;
        return t.add(net_addrs[i % net_addr_count]).add(net_prefixes[i / net_addr_count]);
    }
    static constexpr void run(H& h, uint64_t i) {
        const Text t = text(i);
        parse_text<ipv4_network>(h, t, i); parse_text<ipv6_network>(h, t, i + 1); parse_text<ip_network>(h, t, i + 2);
#if VIEWS
        loose<ipv4_network>(h, t); loose<ipv6_network>(h, t); loose<ip_network>(h, t);
#endif
    }
};
// values of addresses, each against three others
template <> struct Space<3> {
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return v4_edge_count + 256; }
    static constexpr Text text(uint64_t i) { Text t; return t.add("v4 ").dec(v4_at(i).to_uint()); }
    static constexpr void run(H& h, uint64_t i) {
        const ipv4_address a = v4_at(i);
        address(h, a); address(h, ip_address(a)); any_only(h, a);
        h << ipv4_address::from_bytes(a.bytes()) << uint32_t(a) << uint32_t(ip_address(a)) << ip_address::from_uint(a.to_uint());
        for (size_t k = 0; k < 7; ++k) h << ipv4_address::from_bytes(a.data(), k > 4 ? 4 : k) << ip_address::from_bytes(a.data(), k > 4 ? 4 : k, ip_version::V4);
        for (uint64_t k = 0; k < 4; ++k) { const ipv4_address b = k == 3 ? a : v4_at((i * 7 + k * 101) % size()); order(h, a, b); order(h, ip_address(a), k == 2 ? ip_address(ipv6_address::from_uint(uint128_t(0, 0xffffull << 32 | b.to_uint()))) : ip_address(b)); }
    }
};
template <> struct Space<4> {
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return v6_upper_count * v6_lower_count; }
    static constexpr Text text(uint64_t i) { Text t; t.add("v6 "); const uint128_t v = v6_at(i).to_uint(); for (int k = 124; k >= 0; k -= 4) t.add("0123456789abcdef"[unsigned(v >> k) & 15]); return t; }
    static constexpr void run(H& h, uint64_t i) {
        ipv6_address a = v6_at(i);
        address(h, a); address(h, ip_address(a)); v6_only(h, a); any_only(h, a);
        h << ipv6_address::from_bytes(a.bytes()) << uint128_t(a) << uint128_t(ip_address(a)) << ip_address::from_uint(a.to_uint());
        for (size_t k = 0; k < 18; k += 5) h << ipv6_address::from_bytes(a.data(), k > 16 ? 16 : k) << ip_address::from_bytes(a.data(), k > 16 ? 16 : k, ip_version::V6);
        for (uint64_t k = 0; k < 4; ++k) { const ipv6_address b = k == 3 ? a : v6_at((i * 7 + k * 101) % size()); order(h, a, b); order(h, ip_address(a), k == 2 ? ip_address(v4_at(i % 300)) : ip_address(b)); }
#ifndef IPADDRESS_NO_IPV6_SCOPE
        a.set_scope_id("12");
        ipv6_address b = a;
        b.set_scope_id("eth");
        order(h, a, b); order(h, ip_address(a), ip_address(b)); address(h, a); address(h, ip_address(b)); v6_only(h, a);
        const scope x = a.get_scope_id(), y = b.get_scope_id();
        h << (x == y) << (x != y) << (x < y) << (x > y) << (x <= y) << (x >= y) << x << y << a << b;
        a.set_scope_id("");
        h << a << (a == v6_at(i));
#endif
    }
};
template <> struct Space<5> { // v4 networks: address, prefix length
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return addresses() * 34; }
    static constexpr uint64_t addresses() { return pick(6, 24); }
    static constexpr uint32_t at(uint64_t i) { return v4_edges[i % addresses() * pick(10, 2)]; }
    static constexpr Text text(uint64_t i) { Text t; return t.add("v4 network ").dec(at(i)).add('/').dec(unsigned(i / addresses())); }
    static constexpr void run(H& h, uint64_t i) {
        const ipv4_address a = ipv4_address::from_uint(at(i));
        for (int strict = 0; strict < 2; ++strict) {
            error_code e = error_code::no_error;
            const auto n = ipv4_network::from_address(a, e, i / addresses(), strict);
            h << unsigned(e);
            if (e != error_code::no_error) continue;
            network(h, n, 5);
            error_code f = error_code::no_error;
            const auto m = ip_network::from_address(ip_address(a), f, i / addresses(), strict);
            h << unsigned(f); network(h, m, 3); h << m.v4() << m.v6() << m.is_site_local() << m.size();
            if (strict) break;
        }
    }
};
template <> struct Space<6> {
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return pick(4 * 16, 8 * 130); }
    static constexpr size_t length(uint64_t i) { constexpr unsigned char some[] = {0, 1, 2, 31, 32, 48, 62, 63, 64, 65, 96, 125, 126, 127, 128, 129}; return pick(some[i / 4 % 16], unsigned(i / 8)); }
    static constexpr uint64_t at(uint64_t i) { return i * 41 % (v6_upper_count * v6_lower_count); }
    static constexpr Text text(uint64_t i) { return Space<4>::text(at(i % pick(4, 8))).add('/').dec(unsigned(length(i))); }
    static constexpr void run(H& h, uint64_t i) {
        ipv6_address a = v6_at(at(i % pick(4, 8)));
#ifndef IPADDRESS_NO_IPV6_SCOPE
        if (i % 3 == 0) a.set_scope_id("4");
#endif
        for (int strict = 0; strict < 2; ++strict) {
            error_code e = error_code::no_error;
            const auto n = ipv6_network::from_address(a, e, length(i), strict);
            h << unsigned(e);
            if (e != error_code::no_error) continue;
            network(h, n, 4); h << n.is_site_local();
            error_code f = error_code::no_error;
            const auto m = ip_network::from_address(ip_address(a), f, length(i), strict);
            h << unsigned(f); network(h, m, 2); h << m.v4() << m.v6() << m.is_site_local() << m.size();
            break;
        }
    }
};
template <> struct Space<7> { // pairs of networks
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return nets() * nets() * 3; }
    static constexpr uint64_t nets() { return 3 * bases(); }
    static constexpr uint64_t bases() { return pick(2, 4); }
    static constexpr uint32_t base(uint64_t i) { return i % bases() == 0 ? 0x0a800001 : i % bases() == 1 ? 0xffffffff : i % bases() == 2 ? 0x0a000000 : 0; }
    static constexpr unsigned len(uint64_t i) { return i / bases() == 0 ? 0 : i / bases() == 1 ? 9 : 32; }
    static constexpr Text text(uint64_t i) { Text t; return t.add("networks ").dec(unsigned(i % nets())).add(' ').dec(unsigned(i / nets() % 12)).add(" kind ").dec(unsigned(i / nets() / nets())); }
    static constexpr ipv4_network v4(uint64_t i) { error_code e = error_code::no_error; return ipv4_network::from_address(ipv4_address::from_uint(base(i)), e, len(i), false); }
    static constexpr ipv6_network v6(uint64_t i) { error_code e = error_code::no_error; return ipv6_network::from_address(ipv6_address::from_uint(uint128_t(uint64_t(base(i)) << 32, base(i))), e, len(i) == 32 ? 128 : len(i) == 9 ? 61 : 0, false); }
    static constexpr void run(H& h, uint64_t i) {
        const uint64_t x = take(i, nets()), y = take(i, nets());
        if (i == 0) { network_pair(h, v4(x), v4(y)); order(h, ip_network(v4(x)), ip_network(v6(y))); }
        else if (i == 1) network_pair(h, v6(x), v6(y));
        else { network_pair(h, ip_network(v4(x)), ip_network(v4(y))); network_pair(h, ip_network(v6(x)), ip_network(v4(y))); }
    }
};
template <> struct Space<8> { // pairs of integers
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return pick(limb_count * limb_count * 5, limb_count * limb_count * limb_count); }
    static constexpr Text text(uint64_t i) { Text t; return t.add("integers ").dec(unsigned(i)); }
    static constexpr void run(H& h, uint64_t i) {
        const uint64_t p = limbs[take(i, limb_count)], q = limbs[take(i, limb_count)], r = limbs[i * pick(4, 1)];
        const uint128_t a(p, q);
        const uint128_t bs[] = {uint128_t(r), uint128_t(r, p), uint128_t(q, r)};
        for (const auto& b : bs) {
            h << a + b << a - b << a * b << (a & b) << (a | b) << (a ^ b) << (a == b) << (a != b) << (a < b) << (a > b) << (a <= b) << (a >= b) << (a && b) << (a || b);
            if (b) h << a / b << a % b;
            uint128_t c = a;
            c += b; h << c; c -= a; h << c; c *= a; h << c; c &= a; h << c; c |= b; h << c; c ^= a; h << c;
            if (b) { c = a; c /= b; h << c; c = a; c %= b; h << c; }
            c = a; uint128_t d = b; c.swap(d); h << c << d;
        }
        h << +a << -a << ~a << !a << bool(a) << HASH(a) << (unsigned long long) a << uint64_t((long long) a) << (unsigned) a << uint64_t((int) a) << (unsigned short) a << uint64_t((short) a) << (unsigned char) a << uint64_t((signed char) a);
        for (unsigned s = 0; s < 132; s += s < 3 || (s > 60 && s < 67) || s > 125 ? 1 : 15) h << (a << s) << (a >> s);
        h << (a << (r & 127)) << (a >> (unsigned char) (r & 127)) << (a == r) << (a < r) << (a > r) << (r + a) << (r - a) << (r * a) << (r < a) << a + int(r) << a * short(r) << (a == int(r)) << uint128_t(int(r)) << uint128_t((long long) r);
        if (r) h << a / r << a % r;
        if (a) h << r / a << r % a;
        uint128_t c = a;
        h << c++; h << c; h << c--; h << c; h << ++c; h << --c;
    }
};
template <typename Ch, size_t L> constexpr void int_array(H& h, const Text& t) {
    const auto a = arr<Ch, L>(t);
    const uint128_t::format f[] = {uint128_t::format::decimal, uint128_t::format::octal, uint128_t::format::hexadecimal};
    for (auto x : f) h << uint128_t::from_string(a.c, x);
}
template <typename Ch, size_t... L> constexpr void int_arrays(H& h, const Text& t, std::index_sequence<L...>) { const bool done[] = {(L == t.n ? (int_array<Ch, L>(h, t), true) : false)...}; (void) done; }
template <> struct Space<9> { // texts of integers
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return all_deviations(int_bases); }
    static constexpr Text text(uint64_t i) { return any_deviation(int_bases, i); }
    static constexpr void run(H& h, uint64_t i) {
        const Text t = text(i);
        int_arrays<char>(h, t, std::make_index_sequence<48>());
        switch (i % 3) { case 0: int_arrays<wchar_t>(h, t, std::make_index_sequence<48>()); break; case 1: int_arrays<char16_t>(h, t, std::make_index_sequence<48>()); break; default: int_arrays<char32_t>(h, t, std::make_index_sequence<48>()); }
    }
};
template <size_t L> constexpr void fixed(H& h, const Text& t, const Text& u) {
    const auto a = arr<char, L>(t);
    const auto b = arr<char, L>(u);
    auto x = make_fixed_string(a.c);
    auto y = make_fixed_string(b.c);
    h << x.empty() << x.size() << x.capacity() << HASH(x) << (x == y) << (x != y) << (x < y) << (x > y) << (x <= y) << (x >= y) << uint64_t(x.compare(y));
    const auto z = make_fixed_string("ab");
    h << (x == z) << (x < z) << (z < y) << uint64_t(z.compare(x));
    x.swap(y);
    for (size_t i = 0; i < x.size(); ++i) h << uint64_t((unsigned char) x[i]) << uint64_t((unsigned char) x.at(i)) << uint64_t((unsigned char) x.data()[i]);
    for (char c : y) h << uint64_t(c);
    for (auto r = x.cbegin(); r != x.cend(); ++r) h << uint64_t(*r);
    if (!x.empty()) h << uint64_t(x.front()) << uint64_t(x.back());
    error_code e = error_code::no_error;
    const auto w = make_fixed_string(arr<char16_t, L>(t).c, e);
    h << unsigned(e) << HASH(w);
    e = error_code::no_error;
    const auto v = make_fixed_string(arr<char32_t, L>(u).c, e);
    h << unsigned(e) << v.size() << (v == y);
}
constexpr Text small(uint64_t i) { Text t; while (i) { --i; t.add("ab%\x7f"[i % 4]); i /= 4; } return t; }
template <> struct Space<10> { // fixed strings, byte arrays, optionals
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return 85 * pick(5, 20); }
    static constexpr Text text(uint64_t i) { return small(i % 85).add('|').add(small(i / 85).c); }
    static constexpr void run(H& h, uint64_t i) {
        const Text t = small(i % 85), u = small(i / 85);
        const size_t l = t.n > u.n ? t.n : u.n;
        if (l == 0) fixed<0>(h, t, u); else if (l == 1) fixed<1>(h, t, u); else if (l == 2) fixed<2>(h, t, u); else fixed<3>(h, t, u);
        byte_array<4> a = {uint8_t(t.n), uint8_t(t.c[0]), uint8_t(t.c[1]), uint8_t(t.c[2])}, b = {uint8_t(u.n), uint8_t(u.c[0]), uint8_t(u.c[1]), uint8_t(u.c[2])};
        h << (a == b) << (a != b) << (a < b) << (a > b) << (a <= b) << (a >= b) << a.size() << a.max_size() << a.empty() << a.front() << b.back() << a[1] << b.at(2) << a.data()[3];
        a.swap(b);
        for (auto c : a) h << c;
        a[2] = 9; b.at(3) = 7; a.front() = 3; b.back() = 4; *a.data() = 5;
        for (auto c : b) h << c;
        for (auto it = a.cbegin(); it != a.cend(); ++it) h << *it;
        byte_array<0> none = {};
        h << none.empty() << none.size() << (none == none) << (none.begin() == none.end());
        optional<uint128_t> o, p = uint128_t(i), q = p;
        h << o << p << q << o.has_value() << p.value() << p->lower();
        o = q; h << o; o = nullptr; h << o; *p = uint128_t(i, 3); h << p << q; q = std::move(p); h << q; q = uint128_t(7); h << q;
        optional<ip_address> m, n = ip_address(v4_at(i % 300));
        h << m << n; m = n; h << m; m = ip_address(v6_at(i % 200)); h << m; m = nullptr; h << m; n = m; h << n;
    }
};
#ifndef IPADDRESS_NO_IPV6_SCOPE
template <size_t L> constexpr typename std::enable_if<(L <= 16)>::type scope_by_array(H& h, const Text& t, ipv6_address& x) {
    error_code e = error_code::no_error;
    x.set_scope_id(arr<char, L>(t).c, e);
    h << unsigned(e) << x;
    e = error_code::no_error;
    x.set_scope_id(arr<char16_t, L>(t).c, e);
    h << unsigned(e) << x;
}
template <size_t L> constexpr typename std::enable_if<(L > 16)>::type scope_by_array(H&, const Text&, ipv6_address&) {} // does not compile
#endif
template <size_t L> constexpr void scope_array(H& h, const Text& t) {
#ifndef IPADDRESS_NO_IPV6_SCOPE
    ipv6_address x = v6_at(t.n);
    scope_by_array<L>(h, t, x);
#if VIEWS
    const auto a = arr<char, L>(t);
    error_code e = error_code::no_error;
    ip_address y = v6_at(t.n + 1);
    y.set_scope_id(std::string_view(a.c, L), e);
    h << unsigned(e) << y;
    e = error_code::no_error;
    const auto w = arr<char32_t, L>(t);
    y.set_scope_id(std::u32string_view(w.c, L), e);
    h << unsigned(e) << y << (y.get_scope_id() == x.get_scope_id());
#endif
#endif
    (void) h; (void) t;
}
template <size_t... L> constexpr void scope_arrays(H& h, const Text& t, std::index_sequence<L...>) { const bool done[] = {(L == t.n ? (scope_array<L>(h, t), true) : false)...}; (void) done; }
template <> struct Space<11> {
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return all_deviations(scope_bases); }
    static constexpr Text text(uint64_t i) { return any_deviation(scope_bases, i); }
    static constexpr void run(H& h, uint64_t i) { scope_arrays(h, text(i), std::make_index_sequence<20>()); }
};

// Texts with a symbol that is not ASCII, or units that encode none, at every place, in every encoding.
#if VIEWS
constexpr const char* const wide_bases[] = {"1.2.3.4", "1::2", "1::%eth0", "1.2.3.4/24", "1::/64", ""};
constexpr uint32_t symbols[] = {0x80, 0xe9, 0xff, 0x100, 0x131, 0x7ff, 0x800, 0x3130, 0xff11, 0xffff, 0x10000, 0x10031, 0x10ffff};
constexpr uint16_t units[][3] = {{1, 0xd800}, {1, 0xdbff}, {1, 0xdc00}, {1, 0xdfff}, {2, 0xd800, 0x31}, {2, 0xdc31, 0xd831}, {2, 0xd800, 0xd800}};
constexpr unsigned char bytes8[][5] = {{1, 0x80}, {1, 0xbf}, {1, 0xc3}, {2, 0xc0, 0xb1}, {2, 0xe2, 0x82}, {3, 0xe0, 0x80, 0xb1}, {3, 0xed, 0xa0, 0x80}, {4, 0xf4, 0x90, 0x80, 0x80}, {1, 0xff}, {4, 0xf0, 0x80, 0x80, 0xb1}, {1, 0xf5}};
constexpr uint64_t symbol_count = sizeof symbols / sizeof *symbols, unit_count = sizeof units / sizeof *units, byte_count = sizeof bytes8 / sizeof *bytes8, all_symbols = symbol_count + unit_count + byte_count;
template <typename Ch> struct Wide {
    Ch c[32] = {};
    size_t n = 0;
    constexpr void put(uint32_t v) { c[n++] = Ch(v); }
    constexpr void code(uint32_t v) {
        if (sizeof(Ch) == 4 || v < 0x80) put(v);
        else if (sizeof(Ch) == 2) { if (v < 0x10000) put(v); else { put(0xd800 + ((v - 0x10000) >> 10)); put(0xdc00 + ((v - 0x10000) & 1023)); } }
        else if (v < 0x800) { put(0xc0 | v >> 6); put(0x80 | (v & 63)); }
        else if (v < 0x10000) { put(0xe0 | v >> 12); put(0x80 | (v >> 6 & 63)); put(0x80 | (v & 63)); }
        else { put(0xf0 | v >> 18); put(0x80 | (v >> 12 & 63)); put(0x80 | (v >> 6 & 63)); put(0x80 | (v & 63)); }
    }
};
template <typename X, typename V> constexpr void wide_parse(H& h, V v) { error_code e = error_code::no_error; const X x = X::parse(v, e); h << unsigned(e) << x; }
template <typename Ch> constexpr uint64_t wide_text(const char* base, uint64_t at, bool replace, uint64_t symbol, bool& encodable) {
    Wide<Ch> w;
    for (size_t k = 0; k <= length(base); ++k) {
        if (k == at) {
            if (symbol < symbol_count) w.code(symbols[symbol]);
            else if (symbol < symbol_count + unit_count) { encodable = sizeof(Ch) == 2; for (size_t j = 0; j < units[symbol - symbol_count][0]; ++j) w.put(units[symbol - symbol_count][j + 1]); }
            else { encodable = sizeof(Ch) == 1; for (size_t j = 0; j < bytes8[symbol - symbol_count - unit_count][0]; ++j) w.put(bytes8[symbol - symbol_count - unit_count][j + 1]); }
            if (replace) continue;
        }
        if (base[k]) w.put(uint32_t(base[k]));
    }
    const std::basic_string_view<Ch> v(w.c, w.n);
    H h;
    wide_parse<ipv4_address>(h, v); wide_parse<ipv6_address>(h, v); wide_parse<ip_address>(h, v); wide_parse<ip_network>(h, v);
#ifndef IPADDRESS_NO_IPV6_SCOPE
    ipv6_address x = v6_at(3); error_code e = error_code::no_error;
    x.set_scope_id(v, e); h << unsigned(e) << x;
#endif
    return h.h;
}
template <> struct Space<12> {
    static constexpr bool texts = false;
    static constexpr uint64_t size() { uint64_t r = 0; for (const char* b : wide_bases) r += (length(b) + 1) * 2 * all_symbols; return r; }
    static constexpr Text text(uint64_t i) {
        for (const char* b : wide_bases) {
            const uint64_t d = (length(b) + 1) * 2 * all_symbols;
            if (i < d) { const uint64_t s = take(i, all_symbols), r = take(i, 2); return Text().add(b).add(r ? " replaced at " : " inserted at ").dec(unsigned(i)).add(" symbol ").dec(unsigned(s)); }
            i -= d;
        }
        return Text();
    }
    static constexpr void run(H& h, uint64_t i) {
        for (const char* b : wide_bases) {
            const uint64_t d = (length(b) + 1) * 2 * all_symbols;
            if (i >= d) { i -= d; continue; }
            const uint64_t s = take(i, all_symbols), r = take(i, 2);
            bool ok = true;
            const uint64_t narrow = wide_text<char>(b, i, r, s, ok);
            if (ok) h << narrow;
            ok = true;
            const uint64_t w16 = wide_text<char16_t>(b, i, r, s, ok);
            if (ok) h << w16;
            ok = true;
            const uint64_t w32 = wide_text<char32_t>(b, i, r, s, ok);
            if (ok) h << w32;
            ok = true;
            const uint64_t w = wide_text<wchar_t>(b, i, r, s, ok);
            h << (!ok || w == (sizeof(wchar_t) == 2 ? w16 : w32));
#if __cpp_char8_t >= 201811L
            ok = true;
            const uint64_t w8 = wide_text<char8_t>(b, i, r, s, ok);
            if (ok) h << w8;
#endif
            return;
        }
    }
};
#else
template <> struct Space<12> {
    static constexpr bool texts = false;
    static constexpr uint64_t size() { return 0; }
    static constexpr Text text(uint64_t) { return Text(); }
    static constexpr void run(H&, uint64_t) {}
};
#endif

#ifdef SIZES
int main() {
    const uint64_t n[] = {Space<0>::size(), Space<1>::size(), Space<2>::size(), Space<3>::size(), Space<4>::size(), Space<5>::size(), Space<6>::size(), Space<7>::size(), Space<8>::size(), Space<9>::size(), Space<10>::size(), Space<11>::size(), Space<12>::size()};
    for (uint64_t x : n) std::printf("%llu\n", (unsigned long long) x);
}
#else
// ---- comparison
typedef Space<PART> S;
static constexpr uint64_t first = uint64_t(FROM) * BLOCK, last = uint64_t(TO) * BLOCK < S::size() ? uint64_t(TO) * BLOCK : S::size();
constexpr H digest(uint64_t b) {
    H h;
    for (uint64_t i = b * BLOCK; i < (b + 1) * BLOCK && i < S::size(); ++i) S::run(h, i);
    return h;
}
template <uint64_t B, typename = void> struct Constant { static constexpr bool is = false; static constexpr uint64_t value = 0; };
template <uint64_t B> struct Constant<B, typename std::enable_if<(std::integral_constant<uint64_t, digest(B).h>::value, true)>::type> { static constexpr bool is = true; static constexpr uint64_t value = digest(B).h; };
// acceptance: is the throwing overload a constant expression?
template <typename X, uint64_t I> struct Given {
    static constexpr Text text = S::text(I);
    static constexpr Arr<char, text.n> array = arr<char, text.n>(text);
    static constexpr bool parse() { return (void) X::parse(array.c), true; }
};
template <typename X, uint64_t I> constexpr Text Given<X, I>::text;
template <typename X, uint64_t I> constexpr Arr<char, Given<X, I>::text.n> Given<X, I>::array;
template <typename X, uint64_t I, typename = void> struct Accepted { static constexpr bool is = false; };
template <typename X, uint64_t I> struct Accepted<X, I, typename std::enable_if<std::integral_constant<bool, Given<X, I>::parse()>::value>::type> { static constexpr bool is = true; };
#if __cplusplus >= 202002L
template <typename X, uint64_t I> struct Fixed { static constexpr auto value = make_fixed_string(Given<X, I>::array.c); };
template <auto F> consteval ipv4_address lit(const ipv4_address*) { return operator""_ipv4<F>(); }
template <auto F> consteval ipv6_address lit(const ipv6_address*) { return operator""_ipv6<F>(); }
template <auto F> consteval ip_address lit(const ip_address*) { return operator""_ip<F>(); }
template <auto F> consteval ipv4_network lit(const ipv4_network*) { return operator""_ipv4_net<F>(); }
template <auto F> consteval ipv6_network lit(const ipv6_network*) { return operator""_ipv6_net<F>(); }
template <auto F> consteval ip_network lit(const ip_network*) { return operator""_net<F>(); }
template <typename X, uint64_t I> constexpr bool literal() { return (void) lit<Fixed<X, I>::value>(static_cast<const X*>(nullptr)), true; }
template <typename X, uint64_t I> concept ParameterAccepted = std::integral_constant<bool, ((void) X::template parse<Fixed<X, I>::value>(), true)>::value;
template <typename X, uint64_t I> concept LiteralConcept = std::integral_constant<bool, ((void) lit<Fixed<X, I>::value>(static_cast<const X*>(nullptr)), true)>::value;
template <typename X, uint64_t I> struct LiteralAccepted { static constexpr bool is = LiteralConcept<X, I>; };
#else
constexpr ipv4_address lit(const ipv4_address*, const char* s, size_t n) { return operator""_ipv4(s, n); }
constexpr ipv6_address lit(const ipv6_address*, const char* s, size_t n) { return operator""_ipv6(s, n); }
constexpr ip_address lit(const ip_address*, const char* s, size_t n) { return operator""_ip(s, n); }
constexpr ipv4_network lit(const ipv4_network*, const char* s, size_t n) { return operator""_ipv4_net(s, n); }
constexpr ipv6_network lit(const ipv6_network*, const char* s, size_t n) { return operator""_ipv6_net(s, n); }
constexpr ip_network lit(const ip_network*, const char* s, size_t n) { return operator""_net(s, n); }
template <typename X, uint64_t I> constexpr bool literal() { return (void) lit(static_cast<const X*>(nullptr), Given<X, I>::array.c, Given<X, I>::text.n), true; }
template <typename X, uint64_t I, typename = void> struct LiteralAccepted { static constexpr bool is = false; };
template <typename X, uint64_t I> struct LiteralAccepted<X, I, typename std::enable_if<std::integral_constant<bool, literal<X, I>()>::value>::type> { static constexpr bool is = true; };
#endif
struct Row { bool is; uint64_t value; };
template <typename Seq> struct Table;
template <uint64_t... I> struct Table<std::integer_sequence<uint64_t, I...>> { static const Row rows[sizeof...(I) + 1]; };
template <uint64_t... I> const Row Table<std::integer_sequence<uint64_t, I...>>::rows[] = {Row{Constant<FROM + I>::is, Constant<FROM + I>::value}..., Row{false, 0}};
template <typename X, typename Seq> struct Accept;
template <typename X, uint64_t... I> struct Accept<X, std::integer_sequence<uint64_t, I...>> { static const bool arrays[sizeof...(I) + 1]; static const bool literals[sizeof...(I) + 1]; static const bool parameters[sizeof...(I) + 1]; };
template <typename X, uint64_t... I> const bool Accept<X, std::integer_sequence<uint64_t, I...>>::arrays[] = {Accepted<X, first + I>::is..., false};
template <typename X, uint64_t... I> const bool Accept<X, std::integer_sequence<uint64_t, I...>>::literals[] = {LiteralAccepted<X, first + I>::is..., false};
#if __cplusplus >= 202002L
template <typename X, uint64_t... I> const bool Accept<X, std::integer_sequence<uint64_t, I...>>::parameters[] = {ParameterAccepted<X, first + I>..., false};
#endif

static const char* kinds[] = {"ipv4_address", "ipv6_address", "ip_address", "ipv4_network", "ipv6_network", "ip_network"};
static unsigned long long accepted_checks, accepted_constant;
template <typename X> static bool at_run_time(const std::string& s) { error_code e = error_code::no_error; (void) X::parse(s, e); return e == error_code::no_error; }
static void report(const char* what, uint64_t i, const char* text) { std::printf("X %llu %s: ", (unsigned long long) i, what); for (const char* p = text; *p; ++p) if ((unsigned char) *p < 33 || *p == 127) std::printf("\\x%02x", (unsigned char) *p); else std::putchar(*p); std::putchar('\n'); }
template <typename X> static void accept(int kind) {
    typedef Accept<X, std::make_integer_sequence<uint64_t, last - first>> A;
    for (uint64_t i = first; i < last; ++i) {
        const Text t = S::text(i);
        const bool r = at_run_time<X>(std::string(t.c, t.n));
        char what[200];
        auto check = [&](bool constant, const char* how) {
            ++accepted_checks; accepted_constant += constant;
            if (constant == r) return;
            std::snprintf(what, sizeof what, "%s %s: accepted at compile time: %d, at run time: %d, text", kinds[kind], how, constant, r);
            report(what, i, t.c);
        };
        check(A::arrays[i - first], "parse(array)");
        check(A::literals[i - first], "literal");
#if __cplusplus >= 202002L
        check(A::parameters[i - first], "parse<text>()");
#endif
    }
}
template <bool Texts> static void acceptance() {}
#ifdef ACCEPT
template <> void acceptance<true>() { accept<ipv4_address>(0); accept<ipv6_address>(1); accept<ip_address>(2); accept<ipv4_network>(3); accept<ipv6_network>(4); accept<ip_network>(5); }
#endif

#if defined(FOREIGN) && defined(EMIT)
template <typename Seq> struct Emit;
template <uint64_t... I> struct Emit<std::integer_sequence<uint64_t, I...>> { static const uint64_t rows[]; };
template <uint64_t... I> const uint64_t Emit<std::integer_sequence<uint64_t, I...>>::rows[] = {uint64_t(Constant<FROM + I>::is)..., Constant<FROM + I>::value...};
extern const uint64_t* const emitted; const uint64_t* const emitted = Emit<std::make_integer_sequence<uint64_t, (TO) - (FROM)>>::rows;
#elif defined(FOREIGN)
int main() {
    volatile uint64_t opaque = 0;
    for (uint64_t b = FROM; b < (TO); ++b) { const H h = digest(b + opaque); std::printf("%llu %llu %s\n", (unsigned long long) h.h, (unsigned long long) h.count, BLOCK == 1 ? S::text(b).c : ""); }
}
#else
int main() {
    unsigned long long bad = 0, constants = 0, observed = 0;
    volatile uint64_t opaque = 0;
#ifndef ACCEPT
    typedef Table<std::make_integer_sequence<uint64_t, (TO) - (FROM)>> T;
    for (uint64_t b = FROM; b < (TO); ++b) {
        const Row r = T::rows[b - (FROM)];
        const H got = digest(b + opaque);
        const uint64_t d = got.h;
        observed += got.count;
        constants += r.is;
        if (!r.is || d != r.value) { ++bad; report(!r.is ? "not a constant expression" : "compile time and run time differ", b * BLOCK, S::text(b * BLOCK).c); }
    }
#else
    acceptance<S::texts>();
#endif
    std::printf("N %llu %llu %llu %llu %llu %llu\n", (unsigned long long) (last > first ? last - first : 0), constants, bad, observed, accepted_checks, accepted_constant);
    return 0;
}
#endif
#endif
