// C06: parsing does not depend on the character encoding or string type; anything that is not ASCII,
// or not well-formed, is rejected where the grammar requires ASCII.
#include "lib.hpp"

// ---- strict decoders (Unicode standard, table 3-7), independent of the library
static bool decode(const std::basic_string<char>& s, ref::text& out) {
    for (size_t i = 0; i < s.size();) {
        const unsigned b = (unsigned char) s[i];
        int n = b < 0x80 ? 1 : b >= 0xC2 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3 : b >= 0xF0 && b < 0xF5 ? 4 : 0;
        if (!n || i + n > s.size()) return false;
        uint32_t cp = n == 1 ? b : b & (0x7F >> n);
        for (int k = 1; k < n; ++k) { const unsigned t = (unsigned char) s[i + k]; if ((t & 0xC0) != 0x80) return false; cp = cp << 6 | (t & 0x3F); }
        if ((n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) return false;
        out += char32_t(cp);
        i += n;
    }
    return true;
}
static bool decode(const std::basic_string<char16_t>& s, ref::text& out) {
    for (size_t i = 0; i < s.size(); ++i) {
        const uint32_t u = s[i];
        if (u >= 0xDC00 && u < 0xE000) return false;
        if (u >= 0xD800 && u < 0xDC00) {
            if (i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] >= 0xE000) return false;
            out += char32_t(0x10000 + ((u & 0x3FF) << 10) + (s[i + 1] & 0x3FF));
            ++i;
        } else out += char32_t(u);
    }
    return true;
}
static bool decode(const std::basic_string<char32_t>& s, ref::text& out) {
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] > 0x10FFFF || (s[i] >= 0xD800 && s[i] < 0xE000)) return false; out += s[i]; }
    return true;
}
static bool decode(const std::basic_string<wchar_t>& s, ref::text& out) { return decode(std::basic_string<char32_t>(s.begin(), s.end()), out); }
#if __cpp_char8_t >= 201811L
static bool decode(const std::basic_string<char8_t>& s, ref::text& out) { return decode(std::string(s.begin(), s.end()), out); }
#endif

template <typename Ch> struct Name;
template <> struct Name<char> { static const char* is() { return "char"; } };
template <> struct Name<wchar_t> { static const char* is() { return "wchar_t"; } };
template <> struct Name<char16_t> { static const char* is() { return "char16_t"; } };
template <> struct Name<char32_t> { static const char* is() { return "char32_t"; } };
#if __cpp_char8_t >= 201811L
template <> struct Name<char8_t> { static const char* is() { return "char8_t"; } };
#endif

template <typename Ch> static std::string spell(const std::basic_string<Ch>& s) {
    std::string r = std::string(Name<Ch>::is()) + " [";
    for (size_t i = 0; i < s.size(); ++i) { const uint32_t u = sizeof(Ch) == 1 ? (unsigned char) s[i] : uint32_t(s[i]); r += u > 32 && u < 127 ? std::string(1, char(u)) : "<" + mc::hex(u) + ">"; }
    return r + "]";
}
template <typename S> static S parsed(const S& s) { return s; }

// one text in one encoding through every entry point, against the reference grammar
template <typename A, typename N, int V, typename Ch>
static void typed(mc::Ctx& c, const std::basic_string<Ch>& s, bool ok, const ref::text& t, bool nets) {
    ref::addr w;
    bool accept = ok;
    if (V == 4) { uint32_t v = 0; accept = accept && ref::parse4(t, v); w = ref::addr(4, v); }
    else if (V == 6) accept = accept && ref::parse6(t, w);
    else accept = accept && ref::parse_any(t, w);
    error_code e = error_code::no_error;
    const A a = A::parse(s, e);
    MC_CHECK((e == error_code::no_error) == accept, "parse of " + spell(s) + " as version " + mc::num(V) + " gives " + S(e) + ", expected " + (accept ? "success" : "failure"));
    if (accept && e == error_code::no_error) MC_CHECK(to_ref(a) == w, "parse of " + spell(s) + " gives " + S(a));
#if __cplusplus >= 201703L
    error_code e2 = error_code::no_error;
    const A b = A::parse(std::basic_string_view<Ch>(s), e2);
    MC_CHECK(e2 == e && a == b, "view of " + spell(s) + " gives " + S(e2));
#endif
    if (!nets) return;
    ref::net wn;
    accept = ok && (V == 0 ? ref::parse_any_net(t, false, wn) : ref::parse_net(V, t, false, wn));
    error_code e3 = error_code::no_error;
    const N n = N::parse(s, e3, false);
    MC_CHECK((e3 == error_code::no_error) == accept, "network parse of " + spell(s) + " as version " + mc::num(V) + " gives " + S(e3));
    if (accept && e3 == error_code::no_error) MC_CHECK(to_ref(n) == wn, "network parse of " + spell(s) + " value");
#if __cplusplus >= 201703L
    const N n2 = N::parse(std::basic_string_view<Ch>(s), e2, false);
    MC_CHECK(e2 == e3 && n == n2, "network view of " + spell(s) + " gives " + S(e2));
#endif
}
// raw bytes in a scope id given as plain char are let through as they are; that is not Unicode text
template <typename Ch> static bool raw_scope(const std::basic_string<Ch>&) { return false; }
#ifndef IPADDRESS_CHAR_IS_UTF8
static bool raw_scope(const std::string& s) {
    const size_t p = s.find('%');
    for (size_t i = p; p != std::string::npos && i < s.size(); ++i) if ((unsigned char) s[i] > 127) return true;
    return false;
}
#endif
template <typename Ch>
static void one(mc::Ctx& c, const std::basic_string<Ch>& s, bool nets = true) {
    if (raw_scope(s)) return;
    ref::text t;
    bool ok = decode(s, t);
    for (size_t i = 0; ok && i < t.size(); ++i) ok = t[i] < 128;
    typed<ipv4_address, ipv4_network, 4>(c, s, ok, t, nets);
    typed<ipv6_address, ipv6_network, 6>(c, s, ok, t, nets);
    typed<ip_address, ip_network, 0>(c, s, ok, t, nets);
    const size_t p = s.find(Ch('%'));
    if (p == std::basic_string<Ch>::npos) return;
    const std::basic_string<Ch> sc = s.substr(p + 1);
    ref::text st;
    bool sok = decode(sc, st);
    for (size_t i = 0; sok && i < st.size(); ++i) sok = st[i] < 128;
    sok = sok && (st.empty() || ref::valid_scope(st));
    ipv6_address a = lib6(1);
    error_code e = error_code::no_error;
    a.set_scope_id(sc, e);
    MC_CHECK((e == error_code::no_error) == sok, "set_scope_id of " + spell(sc) + " gives " + S(e));
    MC_CHECK(a.get_scope_id().get_string() == (sok ? ref::narrow(st) : ""), "set_scope_id of " + spell(sc) + " leaves " + Q(a.get_scope_id().get_string()));
    if (c.wants_sample()) c.sample(spell(s));
}
// templates: what stands before and after the examined units
static const char* const before[] = { "1.2.3.", "1.2.3.4", "1", "", "fe80:", "fe80::", "fe80::1", "fe80::1%", "fe80::1%e", "::ffff:1.2", "1.2.3.0/2", "1.2.3.0", "fe80::/1", "1.0.0.0/255." };
static const char* const after[]  = { "",       "",        ".2.3.4", "1.2.3.4", ":1", "",    "",        "",         "1",        ".3.4",      "",         "/24",     "",         ".0.0" };
enum { TEMPLATES = 14 };
static const int few[] = { 0, 2, 5, 8, 10 };
template <typename Ch> static std::basic_string<Ch> around(int k, const std::basic_string<Ch>& u) {
    const std::string b = before[k], a = after[k];
    return std::basic_string<Ch>(b.begin(), b.end()) + u + std::basic_string<Ch>(a.begin(), a.end());
}

#if __cpp_char8_t >= 201811L
typedef char8_t byte_char;
#define HAVE_UTF8 1
#elif defined(IPADDRESS_CHAR_IS_UTF8)
typedef char byte_char;
#define HAVE_UTF8 1
#else
#define HAVE_UTF8 0
#endif

#if HAVE_UTF8
typedef std::basic_string<byte_char> bytes;
MC_SPACE(utf8_one_two, "UTF-8: every sequence of one or two bytes at 14 places of addresses, networks and scope ids") {
    for (int k = 0; k < TEMPLATES; ++k) {
        c.range(256 + 65536, 64, [&](uint64_t i) {
            bytes u;
            if (i < 256) u += byte_char(i); else { i -= 256; u += byte_char(i >> 8); u += byte_char(i); }
            c.fresh();
            one(c, around<byte_char>(k, u));
        });
    }
}
static const unsigned char edge[] = { 0x00, '.', '1', '9', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAE, 0xB1, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xF0, 0xF4, 0xF8, 0xFF };
enum { EDGES = sizeof edge };
MC_SPACE(utf8_three, "UTF-8: every sequence of three bytes (quick: third byte at 22 boundary values) at five places") {
    const bool all = c.thorough();
    const uint64_t third = all ? 256 : EDGES;
    for (int k = 0; k < 5; ++k) {
        if (c.reduced() && k) break;
        c.range(128 * 256 * third, 256, [&](uint64_t i) {
            bytes u;
            const uint64_t z = i % third;
            i /= third;
            u += byte_char(0x80 + (i >> 8)); u += byte_char(i); u += byte_char(all ? z : edge[z]);
            c.fresh();
            one(c, around<byte_char>(few[k], u), k == 4);
        });
    }
}
MC_SPACE(utf8_four, "UTF-8: every lead byte, three following bytes at 22 boundary values each, at five places; also five-byte sequences of 12 values") {
    for (int k = 0; k < 5; ++k) {
        if (c.reduced() && k) break;
        c.range(uint64_t(128) * EDGES * EDGES * EDGES, 256, [&](uint64_t i) {
            bytes u;
            u += byte_char(0x80 + i % 128); i /= 128;
            for (int b = 0; b < 3; ++b) { u += byte_char(edge[i % EDGES]); i /= EDGES; }
            c.fresh();
            one(c, around<byte_char>(few[k], u), k == 4);
        });
    }
    static const unsigned char five[] = { '1', '.', 0x80, 0xB1, 0xBF, 0xC1, 0xC2, 0xE0, 0xE2, 0xF0, 0xF8, 0xFF };
    c.range(uint64_t(12) * 12 * 12 * 12 * 12, 256, [&](uint64_t i) {
        bytes u;
        for (int b = 0; b < 5; ++b) { u += byte_char(five[i % 12]); i /= 12; }
        c.fresh();
        one(c, u); one(c, around<byte_char>(8, u));
    });
}
MC_SPACE(utf8_code_points, "UTF-8: every code point, encoded in the shortest and every overlong form, at two places") {
    c.range(0x110000, 1024, [&](uint64_t cp) {
        c.fresh();
        if (c.reduced() && cp > 0x4000 && cp % 61) return;
        for (int n = 1; n <= 4; ++n) {
            if (cp >> (n == 1 ? 7 : n == 2 ? 11 : n == 3 ? 16 : 21)) continue;
            bytes u;
            if (n == 1) u += byte_char(cp);
            else {
                u += byte_char((n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0) | cp >> (6 * (n - 1)));
                for (int b = n - 2; b >= 0; --b) u += byte_char(0x80 | ((cp >> (6 * b)) & 0x3F));
            }
            one(c, around<byte_char>(0, u), cp < 0x1000);
            one(c, around<byte_char>(8, u), cp < 0x1000);
        }
    });
}
#endif
MC_SPACE(utf16_one, "UTF-16: every single code unit at 14 places") {
    for (int k = 0; k < TEMPLATES; ++k) c.range(65536, 256, [&](uint64_t i) {
        c.fresh();
        one(c, around<char16_t>(k, std::u16string(1, char16_t(i))));
    });
}
MC_SPACE(utf16_two, "UTF-16: every pair of a unit in D700..E0FF (thorough: any unit) and one of 40 boundary units, and every surrogate pair in the thorough tier, at five places") {
    static const uint16_t u[] = { 0, '.', '1', ':', 'f', '%', '/', 0x7F, 0x80, 0xFF, 0x100, 0x12E, 0x131, 0x13A, 0x166, 0x1FF, 0x2030, 0x2E00, 0x3100, 0xD7FF, 0xD800, 0xD801, 0xD82E, 0xD831, 0xDBFF, 0xDC00, 0xDC01, 0xDC2E, 0xDC31, 0xDC39, 0xDC66, 0xDDFF, 0xDE31, 0xDFFF, 0xE000, 0xE031, 0xFEFF, 0xFF0E, 0xFF11, 0xFFFF };
    const uint64_t lo = c.thorough() ? 0 : 0xD700, hi = c.thorough() ? 0x10000 : 0xE100;
    for (int k = 0; k < 5; ++k) {
        c.range((hi - lo) * 40, 256, [&](uint64_t i) {
            std::u16string s;
            s += char16_t(lo + i / 40); s += char16_t(u[i % 40]);
            c.fresh();
            one(c, around<char16_t>(few[k], s), k == 4);
            std::swap(s[0], s[1]);
            one(c, around<char16_t>(few[k], s), k == 4);
        });
        if (c.thorough() && k < 2) c.range(1024 * 1024, 1024, [&](uint64_t i) {
            std::u16string s;
            s += char16_t(0xD800 + (i >> 10)); s += char16_t(0xDC00 + (i & 1023));
            c.fresh();
            one(c, around<char16_t>(few[k == 0 ? 0 : 3], s), false);
        });
    }
}
template <typename Ch>
static void wide32(mc::Ctx& c) {
    c.range(0x111000, 1024, [&](uint64_t cp) {
        c.fresh();
        if (c.reduced() && cp > 0x4000 && cp % 61) return;
        for (int k = 0; k < 5; ++k) {
            if (cp > 0x3000 && k > 1 && !c.thorough()) break;
            one(c, around<Ch>(few[k], std::basic_string<Ch>(1, Ch(cp))), cp < 0x1000);
        }
    });
    // values whose low bits look like ASCII, in all 32 bits
    static const char low[] = ".1:f%/9a";
    for (int k = 0; k < TEMPLATES; ++k) c.range(8 * 25 * 26, 64, [&](uint64_t i) {
        const int a = 7 + int(i / 8 % 25), b = 7 + int(i / 200);
        uint32_t v = (unsigned char) low[i % 8];
        v |= 1u << a; if (b < 32) v |= 1u << b;
        c.fresh();
        one(c, around<Ch>(k, std::basic_string<Ch>(1, Ch(v))));
        one(c, around<Ch>(k, std::basic_string<Ch>(1, Ch(uint32_t(-int32_t(v))))));
    });
}
MC_SPACE(utf32, "UTF-32: every code point (and values above the range) at two to five places; ASCII low bits under every one or two high bits at 14 places") { wide32<char32_t>(c); }
MC_SPACE(wide, "wide text (32 bit): the same") { wide32<wchar_t>(c); }

MC_SPACE(ascii, "every ASCII text of length 0..4 (thorough 5) over 14 characters, in every encoding, as string and view") {
    en::strings(c, std::string("19a.:%/ gA\0\x7f-", 13), 0, int(c.bound(4, 5, 3)), [&](const std::string& s) {
        one(c, s);
        one(c, std::wstring(s.begin(), s.end()));
        one(c, std::u16string(s.begin(), s.end()));
        one(c, std::u32string(s.begin(), s.end()));
#if __cpp_char8_t >= 201811L
        one(c, std::u8string(s.begin(), s.end()));
#endif
    });
}
static const char* const seeds[] = { "1.2.3.4", "255.255.255.255", "10.0.0.0/8", "10.0.0.0/255.0.0.0", "::", "2001:db8::1", "1:2:3:4:5:6:7:8", "ABCD:EF01:2345:6789:abcd:ef01:2345:6789", "::ffff:1.2.3.4", "fe80::1%eth0", "fe80::/10", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255%ABCDEFGHIJKLMNOP" };
template <typename Ch>
static void edited(mc::Ctx& c, const std::string& x) {
    static const uint32_t sig[] = { '1', '.', ':', '%', '/', 'f', 0, 0x80, 0x131, 0x2E31, 0xD831, 0xDC31, 0x10031, 0xFFFFFFB1u };
    std::basic_string<Ch> al;
    for (size_t i = 0; i < sizeof sig / sizeof *sig; ++i) al += Ch(sig[i]);
    en::edits(std::basic_string<Ch>(x.begin(), x.end()), al, [&](const std::basic_string<Ch>& s) {
        if (!c.take()) return;
        c.state(mc::hash(s.data(), s.size() * sizeof(Ch), sizeof(Ch)));
        one(c, s);
    });
}
MC_SPACE(edits, "every text one edit from twelve seeds, in every encoding, 14 units including non-ASCII ones") {
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k) {
        edited<char>(c, seeds[k]); edited<wchar_t>(c, seeds[k]); edited<char16_t>(c, seeds[k]); edited<char32_t>(c, seeds[k]);
#if __cpp_char8_t >= 201811L
        edited<char8_t>(c, seeds[k]);
#endif
    }
}
// arrays and literals of the exact size
template <typename A, typename Ch, size_t N>
static void array(mc::Ctx& c, const Ch (&a)[N], const char* what) {
    const std::basic_string<Ch> s(a, N - 1);
    error_code e1 = error_code::no_error, e2 = error_code::no_error;
    const A x = A::parse(a, e1), y = A::parse(s, e2);
    c.step();
    if (!((e1 == error_code::no_error) == (e2 == error_code::no_error) && (e1 != error_code::no_error || x == y))) c.fail(std::string(what) + " array of " + spell(s) + " gives " + S(e1) + ", string " + S(e2));
}
#define EACH(T) array<ipv4_address>(c, T, "v4"); array<ipv6_address>(c, T, "v6"); array<ip_address>(c, T, "any"); array<ipv4_network>(c, T, "net v4"); array<ipv6_network>(c, T, "net v6"); array<ip_network>(c, T, "net any");
#ifdef IPADDRESS_CHAR_IS_UTF8 // these instantiations compile slowly
#undef EACH
#define EACH(T) array<ipv4_address>(c, T, "v4"); array<ip_network>(c, T, "net any");
#endif
#ifdef IPADDRESS_CHAR_IS_UTF8
#define TEXT1(T) if (c.take()) { c.fresh(); EACH(T) }
#else
#define TEXT1(T) if (c.take()) { c.fresh(); EACH(T) EACH(L##T) EACH(u##T) EACH(U##T) }
#endif
MC_SPACE(literals, "array literals of nine shapes in four encodings through six entry points") {
    TEXT1("1.2.3.4")
#ifndef IPADDRESS_CHAR_IS_UTF8
    TEXT1("") TEXT1("::1") TEXT1("fe80::1%ABCDEFGHIJKLMNOP") TEXT1("10.0.0.0/8") TEXT1("2001:db8::/129") TEXT1("ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255%ABCDEFGHIJKLMNOP/128")
#endif
    TEXT1("1.2.3.\u0664") TEXT1("::\uff11")
}

// every overload: strings, views and arrays of every character type, with and without an error code, default and explicit strictness
template <typename A, typename F> static void outcome(mc::Ctx& c, const std::string& what, bool accept, const A& want, F f) {
    c.step();
#if MC_EXC
    bool ok = true;
    A a;
    try { a = f(); } catch (const ip::error&) { ok = false; }
    if (ok != accept || (ok && !(a == want))) c.fail(what + (ok ? " accepted as " + a.to_string() : std::string(" rejected")));
#else
    const A a = f();
    if (accept && !(a == want)) c.fail(what + " gives " + a.to_string());
#endif
}
template <typename A, typename N, int V, typename X> static void overload(mc::Ctx& c, const X& x, const std::string& t, const std::string& what) {
    const ref::text rt(t.begin(), t.end());
    ref::addr w;
    ref::net strict, loose;
    bool accept;
    if (V == 4) { uint32_t v = 0; accept = ref::parse4(rt, v); w = ref::addr(4, v); } else if (V == 6) accept = ref::parse6(rt, w); else accept = ref::parse_any(rt, w);
    const bool ok1 = V == 0 ? ref::parse_any_net(rt, true, strict) : ref::parse_net(V, rt, true, strict), ok0 = V == 0 ? ref::parse_any_net(rt, false, loose) : ref::parse_net(V, rt, false, loose);
    error_code e = error_code::empty_octet;
    const A a = A::parse(x, e);
    MC_CHECK((e == error_code::no_error) == accept && (!accept || to_ref(a) == w), what + " address with code");
    outcome<A>(c, what + " address", accept, a, [&] { return A::parse(x); });
    e = error_code::empty_octet;
    const N n1 = N::parse(x, e, true);
    MC_CHECK((e == error_code::no_error) == ok1 && (!ok1 || to_ref(n1) == strict), what + " network with code, strict");
    e = error_code::empty_octet;
    const N n0 = N::parse(x, e, false);
    MC_CHECK((e == error_code::no_error) == ok0 && (!ok0 || to_ref(n0) == loose), what + " network with code, not strict");
    e = error_code::empty_octet;
    const N nd = N::parse(x, e);
    MC_CHECK((e == error_code::no_error) == ok1 && (!ok1 || nd == n1), what + " network with code, default strictness");
    outcome<N>(c, what + " network", ok1, n1, [&] { return N::parse(x); });
    outcome<N>(c, what + " network, strict", ok1, n1, [&] { return N::parse(x, true); });
    outcome<N>(c, what + " network, not strict", ok0, n0, [&] { return N::parse(x, false); });
}
template <typename Ch> static void overloads(mc::Ctx& c) {
    static const char* const texts[] = { "", "1.2.3.4", "255.255.255.255", "1.2.3.256", "::", "fe80::1%eth0", "fe80::%", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "10.0.0.0/8", "10.0.0.1/8", "10.0.0.1/255.0.0.0", "10.0.0.0/0.255.255.255", "10.0.0.0/33", "0.0.0.0/0",
        "1.0.0.0/0", "fe80::/10", "fe80::1/10", "fe80::1%1/10", "fe80::%1/10", "::/0", "::1/0", "::1/128", "::1/129", "1.2.3.4/", "/", "x", "1.2.3.4x", "::x", "10.0.0.0/8/8" };
    for (size_t k = 0; k < sizeof texts / sizeof *texts; ++k) {
        if (!c.take()) continue;
        const std::string t = texts[k];
        c.state(mc::hash(t, sizeof(Ch)));
        const std::basic_string<Ch> s(t.begin(), t.end());
        Ch array[64] = {};
        for (size_t i = 0; i < s.size(); ++i) array[i] = s[i];
        const std::string n = std::string(Name<Ch>::is()) + " " + Q(t);
        overload<ipv4_address, ipv4_network, 4>(c, s, t, n + " string as version 4,"); overload<ipv6_address, ipv6_network, 6>(c, s, t, n + " string as version 6,"); overload<ip_address, ip_network, 0>(c, s, t, n + " string,");
        overload<ipv4_address, ipv4_network, 4>(c, array, t, n + " array as version 4,"); overload<ipv6_address, ipv6_network, 6>(c, array, t, n + " array as version 6,"); overload<ip_address, ip_network, 0>(c, array, t, n + " array,");
#if __cplusplus >= 201703L
        const std::basic_string_view<Ch> v(s);
        overload<ipv4_address, ipv4_network, 4>(c, v, t, n + " view as version 4,"); overload<ipv6_address, ipv6_network, 6>(c, v, t, n + " view as version 6,"); overload<ip_address, ip_network, 0>(c, v, t, n + " view,");
#endif
    }
}
MC_SPACE(overloads, "every parse overload: thirty texts as string, view and array of every character type, as address and network of both versions and version-agnostic, with and without error code, default and explicit strictness") {
    overloads<char>(c); overloads<wchar_t>(c); overloads<char16_t>(c); overloads<char32_t>(c);
#if __cpp_char8_t >= 201811L
    overloads<char8_t>(c);
#endif
}
// literal operators are ordinary functions before C++20: a literal means what its text means, however long it is
#if __cplusplus < 202002L && MC_EXC
template <typename A, typename Ch, typename F>
static void literal(mc::Ctx& c, const char* what, const std::basic_string<Ch>& s, F f, size_t longest) {
    error_code e = error_code::no_error, got = error_code::no_error;
    const A want = A::parse(s, e);
    const Block<Ch> b(s); // no terminator
    A x;
    try { x = f(b.p, s.size()); } catch (const ip::error& r) { got = r.code(); }
    c.step();
    if (s.size() > longest) { if (got != error_code::string_is_too_long) c.fail(std::string(what) + " literal of " + mc::num(s.size()) + " characters: code " + mc::num(int(got))); return; }
    if (got != e || (e == error_code::no_error && !(x == want))) c.fail(std::string(what) + " literal " + spell(s) + " gives code " + mc::num(int(got)) + " " + x.to_string() + ", the text code " + mc::num(int(e)) + " " + want.to_string());
}
template <typename Ch> static void literals(mc::Ctx& c, const std::basic_string<Ch>& s) {
    if (s.find(Ch(0)) != s.npos) return;
    const size_t m4 = ipv4_address::base_max_string_len, m6 = ipv6_address::base_max_string_len;
    literal<ipv4_address>(c, "_ipv4", s, [](const Ch* p, size_t n) { return ip::operator""_ipv4(p, n); }, m4);
    literal<ipv6_address>(c, "_ipv6", s, [](const Ch* p, size_t n) { return ip::operator""_ipv6(p, n); }, m6);
    literal<ip_address>(c, "_ip", s, [](const Ch* p, size_t n) { return ip::operator""_ip(p, n); }, m6);
    literal<ipv4_network>(c, "_ipv4_net", s, [](const Ch* p, size_t n) { return ip::operator""_ipv4_net(p, n); }, m4 * 2 + 1);
    literal<ipv6_network>(c, "_ipv6_net", s, [](const Ch* p, size_t n) { return ip::operator""_ipv6_net(p, n); }, m6 + 4);
    literal<ip_network>(c, "_net", s, [](const Ch* p, size_t n) { return ip::operator""_net(p, n); }, m6 * 2 + 1);
}
static void literals_all(mc::Ctx& c, const std::string& s) {
    literals(c, s); literals(c, std::wstring(s.begin(), s.end())); literals(c, std::u16string(s.begin(), s.end())); literals(c, std::u32string(s.begin(), s.end()));
}
MC_SPACE(literal_operators, "literal operators of four character types: one edit from twelve seeds, every text to length 4 (thorough 5) over ten characters, every length 0..300 of four contents, every 16-bit integer at both ends and every single bit as _ipv4") {
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k) en::edits(std::string(seeds[k]), std::string("01af.:%/ g"), [&](const std::string& s) { if (c.take()) { c.state(mc::hash(s)); literals_all(c, s); } });
    en::strings(c, std::string("19a.:%/ g-"), 0, int(c.bound(4, 5, 3)), [&](const std::string& s) { literals_all(c, s); });
    for (int n = 0; n <= 300; ++n) for (int f = 0; f < 4; ++f) if (c.take()) {
        static const char* const head[] = { "1.2.3.4/", "::/", "fe80::1%", "" };
        std::string s = head[f];
        while (int(s.size()) < n) s.insert(s.size(), 1, f < 2 && int(s.size()) + 1 == n ? '8' : '0');
        c.state(mc::hash(s, n));
        literals_all(c, s);
    }
    c.range(0x10000, 256, [&](uint64_t i) {
        c.fresh();
        const uint32_t v[] = { uint32_t(i), uint32_t(i) << 16, uint32_t(i) * 0x10001u };
        for (int k = 0; k < 3; ++k) MC_CHECK(ip::operator""_ipv4((unsigned long long) v[k]).to_uint() == v[k], "integer literal _ipv4 of " + mc::num(v[k]));
    });
}
#endif

int main(int argc, char** argv) { return mc::main(argc, argv); }
