// C04: network text is accepted exactly when well formed, and denotes the right network.
#include "lib.hpp"

static bool outside(const std::string& s) {
    const size_t p = s.find('%');
    if (p != std::string::npos) for (size_t i = p; i < s.size(); ++i) if ((unsigned char) s[i] > 127) return true;
    return false;
}

// every accessor describes the same network
template <typename N>
static void agree(mc::Ctx& c, const N& x, const ref::net& w, const std::string& s) {
    const int V = w.version;
    MC_CHECK(to_ref(x) == w, Q(s) + " gives " + S(to_ref(x)) + ", expected " + S(w));
    MC_CHECK(value_of(x.netmask()) == ref::netmask(V, w.prefix), "netmask of " + S(w) + " is " + ref::show(value_of(x.netmask())));
    MC_CHECK(value_of(x.hostmask()) == ref::hostmask(V, w.prefix), "hostmask of " + S(w) + " is " + ref::show(value_of(x.hostmask())));
    MC_CHECK(value_of(x.broadcast_address()) == w.last(), "broadcast_address of " + S(w) + " is " + ref::show(value_of(x.broadcast_address())));
    MC_CHECK(x.prefixlen() == size_t(w.prefix), "prefixlen of " + S(w) + " is " + mc::num(x.prefixlen()));
}
template <int V>
static void count(mc::Ctx& c, const typename T<V>::network& x, const ref::net& w) {
    const u128 n = (ref::hostmask(V, w.prefix) + 1) & ref::all(V);
    MC_CHECK(U(x.addresses_count()) == n, "addresses_count of " + S(w) + " is " + ref::show(U(x.addresses_count())));
}

template <int V>
static void check(mc::Ctx& c, const std::string& s, bool strict) {
    typedef typename T<V>::network N;
    if (outside(s)) return;
    ref::net w;
    const bool ok = ref::parse_net(V, ref::widen(s), strict, w);
    error_code e = error_code::no_error;
    const N x = parse_net_code<N>(s, strict, e);
    MC_CHECK((e == error_code::no_error) == ok, std::string(V == 4 ? "ipv4" : "ipv6") + "_network::parse(" + Q(s) + (strict ? ", strict) " : ", not strict) ") + (ok ? "rejected, " + S(e) : "accepted as " + S(to_ref(x))));
    if (!ok) w = ref::net(V, 0, T<V>::W);
    agree(c, x, w, s);
    if (ok) count<V>(c, x, w);
    e = error_code::no_error;
    const ip_network g = parse_net_code<ip_network>(s, strict, e);
    ref::net wa;
    const bool oka = ref::parse_any_net(ref::widen(s), strict, wa);
    MC_CHECK((e == error_code::no_error) == oka, "ip_network::parse(" + Q(s) + (strict ? ", strict) " : ", not strict) ") + S(e));
    if (oka) agree(c, g, wa, s);
    if (c.wants_sample()) c.sample(Q(s) + (ok ? " -> " + S(w) : " rejected"));
}
static void both(mc::Ctx& c, const std::string& s) { for (int k = 0; k < 2; ++k) { check<4>(c, s, k); check<6>(c, s, k); } }

static const char* base4[] = { "0.0.0.0", "10.0.0.0", "10.1.2.3" };
static const char* base6[] = { "::", "2001:db8::", "2001:db8::1" };

MC_SPACE(suffixes, "every text of length 0..5 (thorough 6) over thirteen characters after the address part, three addresses of each version, strict and not") {
    const std::string al("0123468/.xa \0", 13);
    en::strings(c, al, 0, int(c.bound(5, 6, 3)), [&](const std::string& s) {
        for (int b = 0; b < 3; ++b) for (int k = 0; k < 2; ++k) { check<4>(c, base4[b] + std::string("/") + s, k); check<6>(c, base6[b] + std::string("/") + s, k); }
    });
    en::strings(c, al, 0, 3, [&](const std::string& s) { both(c, s); both(c, s + "/8"); both(c, "10.0.0.0" + s); both(c, "1::" + s); });
}
MC_SPACE(prefix_digits, "every prefix number of one to six digits including leading zeros") {
    for (int d = 1; d <= 6; ++d) {
        uint64_t n = 1;
        for (int i = 0; i < d; ++i) n *= 10;
        if (c.reduced() && d > 4) break;
        c.range(n, 256, [&](uint64_t i) {
            std::string s = ref::dec(i);
            while (int(s.size()) < d) s = "0" + s;
            c.fresh(4);
            for (int k = 0; k < 2; ++k) { check<4>(c, "0.0.0.0/" + s, k); check<6>(c, "::/" + s, k); check<4>(c, "10.1.2.3/" + s, k); check<6>(c, "2001:db8::1/" + s, k); }
        });
    }
}
MC_SPACE(prefix_wraps, "prefix numbers k*2^n + 0..140 for n up to 128, and 1..40 digit runs") {
    static const int e[] = { 8, 16, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 127 };
    for (int x = 0; x < 13; ++x) for (int m = 1; m <= 3; ++m) for (int p = 0; p <= 140; ++p) {
        if (!c.take()) continue;
        const u128 v = (u128(1) << e[x]) * unsigned(m) + unsigned(p);
        c.state(mc::comb(ref::hi(v), ref::lo(v)));
        both(c, "0.0.0.0/" + ref::dec(v));
        both(c, "::/" + ref::dec(v));
    }
    for (int n = 1; n <= 40; ++n) for (int f = 0; f < 10; ++f) for (int l = 0; l < 10; ++l) {
        if (!c.take()) continue;
        const std::string s(n, char('0' + f));
        c.state(mc::hash(s) + l);
        both(c, "0.0.0.0/" + s + char('0' + l));
        both(c, "::/" + s + char('0' + l));
    }
}
MC_SPACE(long_texts, "runs of 0..300 and of 65532..65540 zeros, digits, slashes and spaces before and after the slash, before a prefix length and after a mask")  {
    static const char* base[] = { "0.0.0.0", "10.0.0.0", "::", "fe80::%1" };
    for (int n = 0; n <= 65540; n = n == 300 ? 65532 : n + 1) for (int u = 0; u < 4; ++u) for (int b = 0; b < 4; ++b) for (int w = 0; w < 5; ++w) {
        if (!c.take()) continue;
        c.state(mc::comb(n * 4 + u, b * 5 + w));
        const std::string r(n, "01/ "[u]), a = base[b];
        both(c, w == 0 ? r + a + "/8" : w == 1 ? a + r + "/8" : w == 2 ? a + "/" + r + "8" : w == 3 ? a + "/8" + r : a + "/" + (b < 2 ? "255.0.0.0" : "16") + r);
    }
}
MC_SPACE(masks, "every dotted mask over 23 octet values (all contiguous ones, their neighbours and non-contiguous ones), three addresses, strict and not") {
    static const unsigned o[] = { 0, 255, 128, 192, 224, 240, 248, 252, 254, 1, 3, 7, 15, 31, 63, 127, 2, 253, 170, 129, 64, 191, 126 };
    const uint64_t k = uint64_t(c.bound(23, 23, 9));
    c.range(k * k * k * k, 64, [&](uint64_t i) {
        std::string s;
        for (int p = 0; p < 4; ++p) { s += (p ? "." : "") + ref::dec(o[i % k]); i /= k; }
        c.fresh();
        for (int b = 0; b < 3; ++b) for (int st = 0; st < 2; ++st) check<4>(c, base4[b] + std::string("/") + s, st);
    });
}
MC_SPACE(mask_pairs, "every pair of mask octet values in every pair of positions over two backgrounds") {
    c.range(2 * 6 * 65536, 1024, [&](uint64_t i) {
        static const int pa[6] = { 0, 0, 0, 1, 1, 2 }, pb[6] = { 1, 2, 3, 2, 3, 3 };
        if (c.reduced() && i % 53) return;
        unsigned o[4] = { 255, 255, 0, 0 };
        if (i >= 6 * 65536) { i -= 6 * 65536; o[0] = o[1] = 0; o[2] = o[3] = 255; }
        o[pa[i / 65536]] = unsigned(i & 255); o[pb[i / 65536]] = unsigned(i >> 8 & 255);
        c.fresh();
        check<4>(c, "0.0.0.0/" + ref::dec(o[0]) + "." + ref::dec(o[1]) + "." + ref::dec(o[2]) + "." + ref::dec(o[3]), true);
    });
}
MC_SPACE(address_prefix_strict, "value pools x every prefix length x strictness: parsed, built from an address, and written back with prefix, netmask and hostmask") {
    const std::vector<uint32_t> p4 = en::pool4(!c.reduced());
    c.range(p4.size() * 33 * 2, 32, [&](uint64_t i) {
        const bool strict = i & 1; i >>= 1;
        const int p = int(i % 33);
        const uint32_t v = p4[i / 33];
        c.fresh();
        check<4>(c, ref::fmt4(v) + "/" + ref::dec(u128(p)), strict);
        check<4>(c, ref::fmt4(v) + "/" + ref::fmt4(uint32_t(ref::netmask(4, p))), strict);
        if (p != 32 && p != 0) check<4>(c, ref::fmt4(v) + "/" + ref::fmt4(uint32_t(ref::hostmask(4, p))), strict);
        ref::net w;
        const bool ok = ref::make_net(ref::addr(4, v), p, strict, w);
        error_code e = error_code::no_error;
        const ipv4_network n = ipv4_network::from_address(lib4(v), e, p, strict);
        MC_CHECK((e == error_code::no_error) == ok, "from_address(" + ref::fmt4(v) + ", " + mc::num(p) + ") " + S(e));
        agree(c, n, ok ? w : ref::net(4, 0, 32), "from_address");
        agree(c, ipv4_network::from_address(lib4(v), e), ref::net(4, v, 32), "from_address without a prefix length");
    });
    const std::vector<u128> p6 = en::pool6(!c.reduced());
    c.range(p6.size() * 129 * 2, 32, [&](uint64_t i) {
        const bool strict = i & 1; i >>= 1;
        if (c.reduced() && i % 7) return;
        const int p = int(i % 129);
        const u128 v = p6[i / 129];
        c.fresh();
        check<6>(c, ref::fmt6(v, 2) + "/" + ref::dec(u128(p)), strict);
        ref::net w;
        const bool ok = ref::make_net(ref::addr(6, v), p, strict, w);
        error_code e = error_code::no_error;
        const ipv6_network n = ipv6_network::from_address(lib6(v), e, p, strict);
        MC_CHECK((e == error_code::no_error) == ok, "from_address(" + ref::fmt6(v, 2) + ", " + mc::num(p) + ") " + S(e));
        agree(c, n, ok ? w : ref::net(6, 0, 128), "from_address");
        agree(c, ipv6_network::from_address(lib6(v)), ref::net(6, v, 128), "from_address without a prefix length");
    });
}
MC_SPACE(address_part, "forty address parts of every shape x 22 suffixes x strictness") {
    static const char* a[] = { "", "1.2.3.4", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.256", "::", "::1", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "fe80::%1", "fe80::%", "fe80::1%eth0", "fe80::%abcdefghijklmnop",
        "fe80::%abcdefghijklmnopq", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255%abcdefghijklmnop", "g::", ":::", ":", "255.255.255.255", "0.0.0.0", "0.0.0.0 ", " 0.0.0.0", "::%a b", "::%a.b", "192.168.0.0", "192.168.1.0", "2001:db8::",
        "2001:DB8::", "1.2.3.4%1", "::1.2.3.4", "1111111111.2.3.4", "00000::", "::%/", "00000000000000000000000000000000000000000000000000000000000000000000000000000001" };
    static const char* m[] = { "", "/", "/0", "/8", "/24", "/32", "/33", "/64", "/128", "/129", "/255.255.0.0", "/0.0.255.255", "/255.0.255.0", "/0.0.0.0", "/255.255.255.255", "/24/", "//24", "/24/24", "/+8", "/-1", "/8 ", "/ffff::" };
    for (size_t i = 0; i < sizeof a / sizeof *a; ++i) for (size_t k = 0; k < sizeof m / sizeof *m; ++k) {
        if (!c.take()) continue;
        const std::string s = std::string(a[i]) + m[k];
        c.state(mc::hash(s));
        both(c, s);
        for (size_t z = 0; z <= s.size(); ++z) { std::string t = s; t.insert(z, 1, '\0'); both(c, t); }
    }
}
static const char* seeds[] = { "10.0.0.0/8", "192.168.1.0/255.255.255.0", "0.0.0.0/0.0.255.255", "2001:db8::/32", "::ffff:1.2.3.4/128", "fe80::%1/64", "1.2.3.4/32" };
MC_SPACE(one_edit, "every text one edit (insert, replace with any of 256 characters, delete, swap, repeat, cut) from seven seeds") {
    const std::string all = en::bytes_upto(256);
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k)
        en::edits(std::string(seeds[k]), all, [&](const std::string& s) { if (c.take()) { c.state(mc::hash(s)); both(c, s); } });
}
MC_SPACE(two_edits, "every text two edits from the first four seeds over eight significant characters") {
    if (c.reduced()) return;
    const std::string sig("0258./:x", 8);
    for (size_t k = 0; k < (c.thorough() ? 4u : 1u); ++k)
        en::edits(std::string(seeds[k]), sig, [&](const std::string& t) {
            en::edits(t, sig, [&](const std::string& s) { if (c.take()) { c.state(mc::hash(s)); both(c, s); } });
        });
}
MC_SPACE(all_masks, "thorough: every one of the 2^32 dotted masks") {
    if (!c.thorough()) return;
    static char t[256][4];
    static int l[256];
    for (int i = 0; i < 256; ++i) l[i] = std::snprintf(t[i], 4, "%d", i);
    c.range(uint64_t(1) << 32, 65536, [&](uint64_t i) {
        char b[32] = "0.0.0.0/";
        int n = 8;
        for (int p = 3; p >= 0; --p) {
            const unsigned o = unsigned(i >> (8 * p)) & 255;
            std::memcpy(b + n, t[o], l[o]); n += l[o];
            if (p) b[n++] = '.';
        }
        const uint32_t v = uint32_t(i), h = ~v;
        int want = -1;
        if ((h & (h + 1)) == 0) want = h == 0xFFFFFFFFu ? 0 : 32 - (h ? 32 - __builtin_clz(h) : 0);
        else if ((v & (v + 1)) == 0) want = __builtin_clz(v);
        error_code e = error_code::no_error;
        const ipv4_network x = ipv4_network::parse(std::string(b, n), e);
        c.fresh();
        MC_CHECK((e == error_code::no_error) == (want >= 0), "ipv4_network::parse(" + Q(std::string(b, n)) + ") " + S(e));
        if (want >= 0) MC_CHECK(int(x.prefixlen()) == want && value_of(x.netmask()) == ref::netmask(4, want), Q(std::string(b, n)) + " gives /" + mc::num(x.prefixlen()));
    });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
