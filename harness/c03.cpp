// C03: formatting is the documented canonical text in every format, in every string type, and
// parsing any of it back is the identity.
#include "lib.hpp"
#include <sstream>

static const format kinds[3] = { format::full, format::compact, format::compressed };

template <typename Ch>
static bool same(const std::basic_string<Ch>& a, const std::string& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < b.size(); ++i) if (a[i] != Ch((unsigned char) b[i])) return false;
    return true;
}

template <typename X, typename Parse>
static void one(mc::Ctx& c, const X& x, const std::string want[3], const Parse& parse, bool all) {
    for (int k = 0; k < 3; ++k) {
        const std::string got = x.to_string(kinds[k]);
        MC_CHECK(got == want[k], "to_string(" + mc::num(k) + ") = " + Q(got) + ", expected " + Q(want[k]));
        error_code e = error_code::no_error;
        const X back = parse(want[k], e);
        MC_CHECK(e == error_code::no_error && back == x, "parsing " + Q(want[k]) + " back " + S(e) + " gives " + Q(back.to_string()));
        if (!all) continue;
        MC_CHECK(same(x.to_wstring(kinds[k]), want[k]), "to_wstring of " + Q(want[k]));
        MC_CHECK(same(x.to_u16string(kinds[k]), want[k]), "to_u16string of " + Q(want[k]));
        MC_CHECK(same(x.to_u32string(kinds[k]), want[k]), "to_u32string of " + Q(want[k]));
#if __cpp_char8_t >= 201811L
        MC_CHECK(same(x.to_u8string(kinds[k]), want[k]), "to_u8string of " + Q(want[k]));
#endif
    }
    const std::string& d = want[2];
    MC_CHECK(x.to_string() == d, "to_string() = " + Q(x.to_string()) + ", expected " + Q(d));
    if (!all) return;
    MC_CHECK(same(x.to_wstring(), d) && same(x.to_u16string(), d) && same(x.to_u32string(), d), "default wide texts of " + Q(d));
    MC_CHECK(same((std::string) x, d) && same((std::wstring) x, d) && same((std::u16string) x, d) && same((std::u32string) x, d), "string conversion of " + Q(d));
#if __cpp_char8_t >= 201811L
    MC_CHECK(same((std::u8string) x, d) && same(x.to_u8string(), d), "UTF-8 conversion of " + Q(d));
#endif
    MC_CHECK(std::to_string(x) == d && same(std::to_wstring(x), d), "std::to_string of " + Q(d));
    std::ostringstream o; o << x;
    MC_CHECK(o.str() == d, "streamed " + Q(o.str()) + ", expected " + Q(d));
    std::wostringstream w; w << x;
    MC_CHECK(same(w.str(), d), "wide stream of " + Q(d));
}

template <typename A>
struct P { A operator()(const std::string& s, error_code& e) const { return parse_code<A>(s, e); } };
template <typename N>
struct PN { N operator()(const std::string& s, error_code& e) const { return parse_net_code<N>(s, true, e); } };

static void addr4(mc::Ctx& c, uint32_t v, bool all) {
    std::string w[3];
    w[0] = w[1] = w[2] = ref::fmt4(v);
    const ipv4_address a = lib4(v);
    one(c, a, w, P<ipv4_address>(), all);
    one(c, ip_address(a), w, P<ip_address>(), all);
    if (c.wants_sample()) c.sample(w[0]);
}
static void addr6(mc::Ctx& c, u128 v, const std::string& scope, bool all) {
    std::string w[3];
    for (int k = 0; k < 3; ++k) w[k] = ref::fmt(ref::addr(6, v, scope), k);
    const ipv6_address a = lib6(v, scope);
    one(c, a, w, P<ipv6_address>(), all);
    if (all) one(c, ip_address(a), w, P<ip_address>(), all);
    if (c.wants_sample()) c.sample(w[2]);
}

MC_SPACE(octets, "every pair of octet values in every pair of positions, all formats, parsed back") {
    c.range(6 * 65536, 1024, [&](uint64_t i) {
        static const int pa[6] = { 0, 0, 0, 1, 1, 2 }, pb[6] = { 1, 2, 3, 2, 3, 3 };
        if (c.reduced() && i % 65536 >= 2048) return;
        unsigned o[4] = { 110, 7, 0, 59 };
        o[pa[i / 65536]] = unsigned(i & 255); o[pb[i / 65536]] = unsigned(i >> 8 & 255);
        c.fresh();
        addr4(c, o[0] << 24 | o[1] << 16 | o[2] << 8 | o[3], i % 97 == 0);
    });
}
MC_SPACE(pool4, "IPv4 boundary and bit-pattern values, all string types") {
    const std::vector<uint32_t> p = en::pool4(!c.reduced());
    c.range(p.size(), 16, [&](uint64_t i) { c.fresh(); addr4(c, p[i], true); });
}
MC_SPACE(zero_runs, "every sequence of eight groups over seven (thorough nine) values of every digit count") {
    static const unsigned v[] = { 0, 1, 0x23, 0x456, 0x7890, 0xabcd, 0x1000, 0x0f, 0xfff };
    const uint64_t k = uint64_t(c.bound(7, 9, 3));
    uint64_t n = 1;
    for (int i = 0; i < 8; ++i) n *= k;
    c.range(n, 256, [&](uint64_t i) {
        u128 x = 0;
        const bool all = i % 1009 == 0;
        for (int p = 0; p < 8; ++p) { x = x << 16 | v[i % k]; i /= k; }
        c.fresh();
        addr6(c, x, "", all);
    });
}
MC_SPACE(group_values, "every 16-bit value in each of the eight groups over four backgrounds") {
    static const u128 bg[] = { 0, ~u128(0), ref::mk(0x0001000200030004ULL, 0x0005000600070008ULL), ref::mk(0x2001000000000001ULL, 0x0000000000010000ULL) };
    c.range(65536 * 8 * 4, 512, [&](uint64_t i) {
        if (c.reduced() && i % 41) return;
        const unsigned v = unsigned(i & 65535); i >>= 16;
        const int pos = int(i & 7); i >>= 3;
        c.fresh();
        addr6(c, (bg[i] & ~(u128(0xFFFF) << (16 * pos))) | u128(v) << (16 * pos), "", v % 1021 == 0);
    });
}
MC_SPACE(zero_masks_scopes, "every set of zero groups x eight scope ids x all string types") {
    const std::vector<std::string> sc = en::scopes();
    c.range(256 * sc.size(), 8, [&](uint64_t i) {
        u128 x = 0;
        for (int p = 0; p < 8; ++p) x = x << 16 | (i >> p & 1 ? 0u : 0xa0u + unsigned(p));
        c.fresh();
        addr6(c, x, sc[i / 256], true);
    });
}
MC_SPACE(scope_chars, "scope ids of every length 1..16 and every permitted ASCII character in them") {
    for (int n = 1; n <= 16; ++n) for (int ch = 1; ch < 128; ++ch) {
        if (ref::bad_scope_char(char32_t(ch)) || !c.take()) continue;
        std::string s(n, 'b');
        s[ch % n] = char(ch);
        c.state(mc::hash(s));
        addr6(c, ref::mk(0xfe80000000000000ULL, uint64_t(ch)), s, true);
        addr6(c, ~u128(0), s, true);
    }
}
MC_SPACE(pool6, "IPv6 boundary and bit-pattern values, all string types") {
    const std::vector<u128> p = en::pool6(!c.reduced());
    c.range(p.size(), 16, [&](uint64_t i) { c.fresh(); addr6(c, p[i], "", true); });
}
MC_SPACE(networks, "every prefix length x value pool: network text in every format and string type, parsed back") {
    const std::vector<uint32_t> p4 = en::pool4(false);
    c.range(p4.size() * 33, 16, [&](uint64_t i) {
        if (c.reduced() && i % 7) return;
        const int p = int(i % 33);
        const ref::net n(4, p4[i / 33] & ref::netmask(4, p), p);
        std::string w[3];
        for (int k = 0; k < 3; ++k) w[k] = ref::fmt(n, k);
        error_code e = error_code::no_error;
        const ipv4_network x = ipv4_network::from_address(lib4(uint32_t(n.address)), e, p);
        c.state(mc::hash(w[0]));
        one(c, x, w, PN<ipv4_network>(), true);
        one(c, ip_network(x), w, PN<ip_network>(), true);
    });
    const std::vector<u128> p6 = en::pool6(false);
    c.range(p6.size() * 129, 16, [&](uint64_t i) {
        if (c.reduced() && i % 41) return;
        const int p = int(i % 129);
        const ref::net n(6, p6[i / 129] & ref::netmask(6, p), p);
        std::string w[3];
        for (int k = 0; k < 3; ++k) w[k] = ref::fmt(n, k);
        error_code e = error_code::no_error;
        const ipv6_network x = ipv6_network::from_address(lib6(n.address), e, p);
        c.state(mc::hash(w[0]));
        one(c, x, w, PN<ipv6_network>(), i % 5 == 0);
        one(c, ip_network(x), w, PN<ip_network>(), i % 5 == 0);
    });
}
MC_SPACE(all_ipv4, "thorough: the text of every one of the 2^32 IPv4 addresses") {
    if (!c.thorough()) return;
    static char t[256][4];
    static int l[256];
    for (int i = 0; i < 256; ++i) l[i] = std::snprintf(t[i], 4, "%d", i);
    c.range(uint64_t(1) << 32, 65536, [&](uint64_t i) {
        char b[16];
        int n = 0;
        for (int p = 3; p >= 0; --p) {
            const unsigned o = unsigned(i >> (8 * p)) & 255;
            std::memcpy(b + n, t[o], l[o]); n += l[o];
            if (p) b[n++] = '.';
        }
        c.fresh();
        const std::string s = lib4(uint32_t(i)).to_string();
        MC_CHECK(s.size() == size_t(n) && std::memcmp(s.data(), b, n) == 0, "to_string of " + ref::fmt4(uint32_t(i)) + " = " + Q(s));
    });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
