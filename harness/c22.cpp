// C22: stream manipulators, flags and extraction under every sequence of stream operations.
#include "lib.hpp"
#include <iomanip>
#include <sstream>

template <typename Ch> static std::basic_string<Ch> wide(const std::string& s) { return std::basic_string<Ch>(s.begin(), s.end()); }
template <typename Ch> static std::string narrow(const std::basic_string<Ch>& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += uint32_t(s[i]) < 128u ? char(s[i]) : '?'; return r; }

static std::string upper(std::string s) { for (size_t i = 0; i < s.size() && s[i] != '%'; ++i) if (s[i] >= 'a' && s[i] <= 'z') s[i] = char(s[i] - 32); return s; }
static std::string upper_net(const ref::net& n, int kind) { return upper(ref::fmt(ref::addr(n.version, n.address, n.scope), kind)) + "/" + ref::dec(u128(n.prefix)); }

struct Things {
    ipv4_address a4; ipv6_address a6; ip_address any6, any4; ipv4_network n4; ipv6_network n6; ip_network nany; uint128_t big;
    ref::addr r4, r6; ref::net q4, q6;
    Things() {
        r4 = ref::addr(4, 0xC0A8000Au);
        ref::parse6(ref::widen("2001:db8::ab:0%eTh"), r6);
        a4 = lib4(uint32_t(r4.value)); a6 = lib6(r6.value, r6.scope); any6 = a6; any4 = a4;
        error_code e = error_code::no_error;
        q4 = ref::net(4, 0x0A000000u, 8); n4 = ipv4_network::from_address(lib4(0x0A000000u), e, 8);
        ref::addr b; ref::parse6(ref::widen("fe80:0:0:ab::%xY"), b);
        q6 = ref::net(6, b.value, 64, b.scope); n6 = ipv6_network::from_address(lib6(b.value, b.scope), e, 64);
        nany = n6;
    }
};

// ---- insertion: two streams, narrow and wide, used alternately
static const char* const out_names[] = { "<<full", "<<compact", "<<compressed", "<<uppercase", "<<nouppercase", "<<ipv4", "<<ipv6", "<<any6", "<<any4", "<<net4", "<<net6", "<<anynet", "<<int", "<<string", "width 48", "left", "right", "<<hex", "fill", "other<<full", "other<<ipv6", "other<<uppercase", "copy of string state", "<<setw(50)<<net6", "internal", ">>non_strict" };
enum { OUT_OPS = sizeof out_names / sizeof *out_names };

template <typename Ch> struct Out {
    std::basic_stringstream<Ch> s, m; // the library's and the model's
    int kind;
    Out() : kind(2) {}
    bool up() const { return (m.flags() & std::ios_base::uppercase) != 0; }
    void text(const std::string& t) { m << wide<Ch>(t); kind = 2; }
    void addr(const ref::addr& a) { text(up() ? upper(ref::fmt(a, kind)) : ref::fmt(a, kind)); }
    void net(const ref::net& n) { text(up() ? upper_net(n, kind) : ref::fmt(n, kind)); }
    void op(int k, const Things& t) {
        switch (k) {
            case 0: s << ip::full; kind = 0; break;
            case 1: s << ip::compact; kind = 1; break;
            case 2: s << ip::compressed; kind = 2; break;
            case 3: s << std::uppercase; m << std::uppercase; break;
            case 4: s << std::nouppercase; m << std::nouppercase; break;
            case 5: s << t.a4; addr(t.r4); break;
            case 6: s << t.a6; addr(t.r6); break;
            case 7: s << t.any6; addr(t.r6); break;
            case 8: s << t.any4; addr(t.r4); break;
            case 9: s << t.n4; net(t.q4); break;
            case 10: s << t.n6; net(t.q6); break;
            case 11: s << t.nany; net(t.q6); break;
            case 12: s << 48879; m << 48879; break;
            case 13: s << wide<Ch>("abc"); m << wide<Ch>("abc"); break;
            case 14: s.width(48); m.width(48); break;
            case 15: s << std::left; m << std::left; break;
            case 16: s << std::right; m << std::right; break;
            case 17: s << std::hex; m << std::hex; break;
            case 18: s.fill(Ch('*')); m.fill(Ch('*')); break;
            case 22: { std::basic_stringstream<Ch> other; other << ip::full << t.a6; break; } // a third stream, gone at once
            case 23: s << std::setw(50) << t.n6; m << std::setw(50); net(t.q6); break;
            case 24: s << std::internal; m << std::internal; break;
            case 25: s >> ip::non_strict; break;
        }
    }
};

MC_SPACE(insertion, "every sequence of manipulators, flags and insertions of every type on a narrow and a wide stream used alternately, to the depth bound") {
    const int depth = int(c.bound(4, 5, 2));
    uint64_t n = 1;
    for (int i = 0; i < depth; ++i) n *= OUT_OPS;
    const Things t;
    c.range(n * 2, 512, [&](uint64_t idx) {
        Out<char> a;
        Out<wchar_t> b;
        const bool swap = idx & 1;
        uint64_t code = idx >> 1;
        std::string log;
        for (int d = 0; d < depth + 2; ++d, code /= OUT_OPS) {
            const int k = d == depth ? 11 : d > depth ? 6 : int(code % OUT_OPS); // two final insertions show what is pending
            if (d < depth) { log += ' '; log += out_names[k]; }
            const int j = k == 19 ? 0 : k == 20 ? 6 : k == 21 ? 3 : k;
            if ((k >= 19 && k <= 21) != swap) b.op(j, t); else a.op(j, t);
        }
        b.op(6, t); a.op(6, t);
        c.state(mc::comb(mc::hash(a.m.str(), a.m.flags() * 4 + a.kind), mc::hash(narrow(b.m.str()), b.m.flags() * 4 + b.kind)));
        if (c.wants_sample()) c.sample(log);
        MC_CHECK(a.s.str() == a.m.str(), "operations" + log + (swap ? " (on the wide stream)" : "") + " wrote " + Q(a.s.str()) + " instead of " + Q(a.m.str()));
        MC_CHECK(b.s.str() == b.m.str(), "operations" + log + (swap ? " (on the wide stream)" : "") + " wrote wide " + Q(narrow(b.s.str())) + " instead of " + Q(narrow(b.m.str())));
        MC_CHECK(a.s.width() == a.m.width() && b.s.width() == b.m.width() && a.s.flags() == a.m.flags() && b.s.flags() == b.m.flags() && a.s.fill() == a.m.fill() && a.s.good() && b.s.good(), "operations" + log + " leave other stream state");
    });
}

// ---- every value: width, fill, adjustment, case and format together
template <typename Ch, typename X> static std::string inserted(const X& x, int kind, bool up, int w, int adj) {
    std::basic_ostringstream<Ch> s;
    s.fill(Ch('~'));
    if (up) s << std::uppercase;
    if (adj == 1) s << std::left;
    if (adj == 2) s << std::right;
    if (kind == 0) s << ip::full; else if (kind == 1) s << ip::compact; else if (kind == 2) s << ip::compressed;
    s.width(w);
    s << x;
    return narrow(s.str()) + (s.width() ? " width kept" : "");
}
static std::string padded(const std::string& t, int w, int adj) { const std::string p(w > int(t.size()) ? size_t(w) - t.size() : 0, '~'); return adj == 1 ? t + p : p + t; }
template <typename X> static void every_way(mc::Ctx& c, const X& x, const std::string (&low)[3], const std::string (&high)[3]) {
    static const int widths[] = { 0, 1, 12, 46, 90 };
    for (int k = 0; k < 4; ++k) for (int up = 0; up < 2; ++up) for (int w = 0; w < 5; ++w) for (int adj = 0; adj < 3; ++adj) {
        const std::string want = padded((up ? high : low)[k == 3 ? 2 : k], widths[w], adj);
        MC_CHECK((inserted<char, X>(x, k, up != 0, widths[w], adj)) == want, "inserted " + Q(inserted<char, X>(x, k, up != 0, widths[w], adj)) + " instead of " + Q(want));
        if (w == 3) MC_CHECK((inserted<wchar_t, X>(x, k, up != 0, widths[w], adj)) == want, "inserted wide " + Q(inserted<wchar_t, X>(x, k, up != 0, widths[w], adj)) + " instead of " + Q(want));
    }
}
static void values(mc::Ctx& c, const ref::addr& a) {
    std::string lo[3], hi[3];
    for (int k = 0; k < 3; ++k) { lo[k] = ref::fmt(a, k); hi[k] = upper(lo[k]); }
    if (a.version == 4) { every_way(c, lib4(uint32_t(a.value)), lo, hi); every_way(c, liba(a), lo, hi); }
    else { every_way(c, lib6(a.value, a.scope), lo, hi); every_way(c, liba(a), lo, hi); }
    const int p = int((a.value * 7 + a.scope.size()) % u128(ref::width(a.version) + 1));
    const ref::net n(a.version, a.value & ref::netmask(a.version, p), p, (a.value & ref::hostmask(a.version, p)) ? std::string() : a.scope);
    for (int k = 0; k < 3; ++k) { lo[k] = ref::fmt(n, k); hi[k] = upper_net(n, k); }
    error_code e = error_code::no_error;
    if (a.version == 4) { const ipv4_network x = ipv4_network::from_address(lib4(uint32_t(n.address)), e, size_t(p)); every_way(c, x, lo, hi); every_way(c, ip_network(x), lo, hi); }
    else { const ipv6_network x = ipv6_network::from_address(lib6(n.address, n.scope), e, size_t(p)); every_way(c, x, lo, hi); every_way(c, ip_network(x), lo, hi); }
}
MC_SPACE(values, "every boundary value and scope id in every format, case, width and adjustment, as typed and version-agnostic address and network") {
    const std::vector<uint32_t> p4 = en::pool4(false);
    const std::vector<u128> p6 = en::pool6(false);
    static const char* const sc[] = { "", "eth0", "aBc" };
    const size_t step = c.reduced() ? 12 : 1;
    c.range(p4.size() / step, 4, [&](uint64_t i) { c.fresh(); values(c, ref::addr(4, p4[size_t(i) * step])); });
    c.range(p6.size() / step * 3, 4, [&](uint64_t i) { c.fresh(); values(c, ref::addr(6, p6[size_t(i / 3) * step], sc[i % 3])); });
}

// ---- extraction
static const char* const tokens[] = { "10.1.2.3", "10.1.2.3/8", "10.0.0.0/8", "fe80::1%eth0", "fe80::1/64", "fe80::%7/64", "bogus", "::1", "2001:DB8::/32" };
enum { TOKENS = 9 };
static const char* const in_names[] = { "ipv4", "ipv6", "any", "net4", "net6", "anynet", "strict", "non_strict", "full" };
enum { IN_OPS = 9 };

template <typename Ch> static void extraction(mc::Ctx& c, uint64_t idx, int words, int ops, const char* type) {
    std::string text, log;
    uint64_t code = idx;
    std::vector<int> tok;
    for (int i = 0; i < words; ++i, code /= TOKENS) { tok.push_back(int(code % TOKENS)); text += (i ? (i % 2 ? " " : "\n\t ") : ""); text += tokens[tok.back()]; }
    std::basic_stringstream<Ch> s(wide<Ch>(text)), m(wide<Ch>(text));
    int strict = 1;
    for (int i = 0; i < ops; ++i, code /= IN_OPS) {
        const int k = int(code % IN_OPS);
        log += std::string(" ") + in_names[k];
        if (k == 6) { s >> ip::strict; strict = 1; continue; }
        if (k == 7) { s >> ip::non_strict; strict = 0; continue; }
        if (k == 8) { s << ip::full; continue; } // an output manipulator does not touch extraction
        std::basic_string<Ch> w;
        m >> w;
        const std::string t = narrow(w);
        bool good = bool(m);
        std::string got, want;
        if (k < 3) {
            ref::addr a, b;
            uint32_t v = 0;
            const bool g4 = ref::parse4(ref::widen(t), v), g6 = ref::parse6(ref::widen(t), b);
            good = good && (k == 0 ? g4 : k == 1 ? g6 : g4 || g6);
            a = (k != 1 && g4) ? ref::addr(4, v) : b;
            want = S(a);
            if (k == 0) { ipv4_address x; s >> x; got = S(x); }
            if (k == 1) { ipv6_address x; s >> x; got = S(x); }
            if (k == 2) { ip_address x; s >> x; got = S(x); }
        } else {
            ref::net a, b;
            const bool g4 = ref::parse_net(4, ref::widen(t), strict != 0, a), g6 = ref::parse_net(6, ref::widen(t), strict != 0, b);
            good = good && (k == 3 ? g4 : k == 4 ? g6 : g4 || g6);
            want = S(k != 4 && g4 ? a : b);
            if (k == 3) { ipv4_network x; s >> x; got = S(to_ref(x)); }
            if (k == 4) { ipv6_network x; s >> x; got = S(to_ref(x)); }
            if (k == 5) { ip_network x; s >> x; got = S(to_ref(x)); }
            strict = 1;
        }
        if (!good) m.setstate(std::ios_base::failbit);
        MC_CHECK(s.rdstate() == m.rdstate(), type + std::string(" ") + Q(text) + log + ": state " + mc::num(s.rdstate()) + " instead of " + mc::num(m.rdstate()));
        if (good) MC_CHECK(got == want, type + std::string(" ") + Q(text) + log + ": " + got + " instead of " + want);
        if (s.eof() || m.eof()) break;
        s.clear(); m.clear();
    }
    c.state(mc::comb(idx, sizeof(Ch)));
}
MC_SPACE(extraction, "every text of tokens, extracted by every sequence of strict, non_strict and typed extractions to the depth bound") {
    const int words = int(c.bound(3, 3, 2)), ops = int(c.bound(4, 5, 3));
    uint64_t n = 1;
    for (int i = 0; i < words; ++i) n *= TOKENS;
    for (int i = 0; i < ops; ++i) n *= IN_OPS;
    c.range(n, 512, [&](uint64_t i) { if (i % 3) extraction<char>(c, i, words, ops, "narrow"); else extraction<wchar_t>(c, i, words, ops, "wide"); });
}

// ---- what insertion writes, extraction reads back
template <typename X, typename Ch> static void round_trip(mc::Ctx& c, const X& x, bool up) {
    for (int k = 0; k < 3; ++k) {
        std::basic_stringstream<Ch> s;
        if (up) s << std::uppercase;
        if (k == 0) s << ip::full; else if (k == 1) s << ip::compact;
        s << x << Ch(' ') << x << Ch('\n') << x;
        X y, z, w;
        s >> y >> z >> w;
        MC_CHECK(!s.fail() && y == x && z == x && w == x, "not read back: " + Q(narrow(s.str())));
    }
}
MC_SPACE(round_trip, "insertion then extraction, three objects a stream, for every boundary value, format, case and type") {
    const std::vector<uint32_t> p4 = en::pool4(!c.reduced());
    const std::vector<u128> p6 = en::pool6(!c.reduced());
    static const char* const sc[] = { "", "eth0", "aBc" };
    c.range(p4.size(), 8, [&](uint64_t i) {
        c.fresh();
        error_code e = error_code::no_error;
        const ipv4_address a = lib4(p4[i]);
        const ipv4_network n = ipv4_network::from_address(a, e, size_t(i % 33), false);
        round_trip<ipv4_address, char>(c, a, i & 1); round_trip<ip_address, wchar_t>(c, ip_address(a), i & 1); round_trip<ipv4_network, wchar_t>(c, n, i & 1); round_trip<ip_network, char>(c, ip_network(n), i & 1);
    });
    c.range(p6.size() * 3, 8, [&](uint64_t i) {
        c.fresh();
        error_code e = error_code::no_error;
        const ipv6_address a = lib6(p6[i / 3], sc[i % 3]);
        const ipv6_network n = ipv6_network::from_address(a, e, size_t(i % 129), false);
        round_trip<ipv6_address, char>(c, a, i & 1); round_trip<ip_address, wchar_t>(c, ip_address(a), i & 1); round_trip<ipv6_network, wchar_t>(c, n, i & 1); round_trip<ip_network, char>(c, ip_network(n), i & 1);
    });
}

#if MC_EXC
template <typename X> static void strict_stream(mc::Ctx& c, const char* text, bool good) {
    std::istringstream s(text);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    bool threw = false;
    X x;
    try { s >> x; } catch (const std::ios_base::failure&) { threw = true; }
    MC_CHECK(threw == !good && s.fail() == !good, Q(text) + std::string(" on a stream that throws: ") + (threw ? "throws" : "does not throw"));
}
MC_SPACE(throwing_streams, "extraction of good and bad texts from streams that throw on failure, for every type") {
    static const char* const t[] = { "", " ", "1.2.3.4", "1.2.3", "::1", "::g", "1.2.3.4/32", "1.2.3.4/8", "::/0", "1.2.3.4 x", "x 1.2.3.4", "::%", "::%a" };
    for (size_t i = 0; i < sizeof t / sizeof *t; ++i) {
        if (!c.take()) continue;
        c.fresh();
        std::istringstream w(t[i]);
        std::string word;
        w >> word;
        uint32_t v = 0; ref::addr a; ref::net n, q;
        const bool g4 = ref::parse4(ref::widen(word), v), g6 = ref::parse6(ref::widen(word), a), h4 = ref::parse_net(4, ref::widen(word), true, n), h6 = ref::parse_net(6, ref::widen(word), true, q);
        strict_stream<ipv4_address>(c, t[i], g4); strict_stream<ipv6_address>(c, t[i], g6); strict_stream<ip_address>(c, t[i], g4 || g6);
        strict_stream<ipv4_network>(c, t[i], h4); strict_stream<ipv6_network>(c, t[i], h6); strict_stream<ip_network>(c, t[i], h4 || h6);
    }
}
#endif

int main(int argc, char** argv) { return mc::main(argc, argv); }
