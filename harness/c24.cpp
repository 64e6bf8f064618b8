// C24: texts, byte buffers and arrays in exact-size heap blocks, through every entry point that takes
// them, under the memory and undefined-behaviour monitors. Values are judged by the other harnesses;
// here only what the monitors report counts (MC_MONITOR).
#include "mc.hpp"
#include "lib.hpp"
#include <sstream>

static volatile unsigned sink; // results are used
template <typename X> static void use(const X& x) { const std::string t = x.to_string(); unsigned h = 0; for (size_t i = 0; i < t.size(); ++i) h = h * 31 + (unsigned char) t[i]; sink = sink + h; }
static void use(error_code e) { sink = sink + unsigned(e); }

#if __cplusplus >= 201703L
template <typename A, typename Ch> static void addr(const Block<Ch>& b) {
    error_code e = error_code::no_error;
    const A a = A::parse(std::basic_string_view<Ch>(b.p, b.n), e);
    if (e == error_code::no_error) use(a);
    use(e);
}
template <typename N, typename Ch> static void net(const Block<Ch>& b, bool strict) {
    error_code e = error_code::no_error;
    const N a = N::parse(std::basic_string_view<Ch>(b.p, b.n), e, strict);
    if (e == error_code::no_error) use(a);
    use(e);
}
#if MC_EXC
template <typename A, typename Ch> static void thrown(const Block<Ch>& b) {
    try { use(A::parse(std::basic_string_view<Ch>(b.p, b.n))); } catch (const std::exception& e) { sink = sink + unsigned(std::strlen(e.what())); }
}
#endif
template <typename Ch> static void text(mc::Ctx& c, const std::basic_string<Ch>& s) {
    const Block<Ch> b(s);
    const std::basic_string_view<Ch> v(b.p, b.n);
    addr<ipv4_address>(b); addr<ipv6_address>(b); addr<ip_address>(b);
    net<ipv4_network>(b, true); net<ipv4_network>(b, false); net<ipv6_network>(b, true); net<ipv6_network>(b, false); net<ip_network>(b, true); net<ip_network>(b, false);
#if MC_EXC
    thrown<ip_address>(b); thrown<ip_network>(b);
#endif
    error_code e = error_code::no_error;
    ipv6_address x; x.set_scope_id(v, e); use(x); use(e);
    ip_address y(x); y.set_scope_id(v, e); use(y);
#if MC_EXC
    try { x.set_scope_id(v); } catch (const std::exception&) { }
#endif
    for (int k = 0; k < 3; ++k) { const ip::optional<uint128_t> u = uint128_t::from_string(s, k == 0 ? uint128_t::format::decimal : k == 1 ? uint128_t::format::octal : uint128_t::format::hexadecimal); if (u.has_value()) use(u.value()); }
    c.step(17);
}
#else
template <typename Ch> static void text(mc::Ctx& c, const std::basic_string<Ch>& s) {
    error_code e = error_code::no_error;
    use(ipv4_address::parse(s, e)); use(ipv6_address::parse(s, e)); use(ip_address::parse(s, e)); use(ipv4_network::parse(s, e, false)); use(ipv6_network::parse(s, e, false)); use(ip_network::parse(s, e, false));
    ipv6_address x; x.set_scope_id(s, e); use(x);
    const ip::optional<uint128_t> u = uint128_t::from_string(s); if (u.has_value()) use(u.value());
    c.step(8);
}
#endif

template <typename Ch> static void words(mc::Ctx& c, const std::vector<Ch>& al, int len) {
    for (int n = 0; n <= len; ++n) {
        uint64_t total = 1;
        for (int i = 0; i < n; ++i) total *= al.size();
        c.range(total, 64, [&](uint64_t k) { std::basic_string<Ch> s; for (int i = 0; i < n; ++i) { s += al[size_t(k % al.size())]; k /= al.size(); } c.fresh(); text<Ch>(c, s); });
    }
}
MC_SPACE(narrow, "every narrow text to length 4 (thorough 5) over twelve units (delimiters, digits, NUL, high bytes)") { words<char>(c, { '1', 'f', '.', ':', '%', '/', 0, '0', char(0xc3), char(0xa9), char(0xff), 'x' }, int(c.bound(4, 5, 4))); }
#ifdef __cpp_char8_t
MC_SPACE(utf8, "every UTF-8 text to length 4 (thorough 5) over twelve units: leads of every length, continuations, delimiters") { words<char8_t>(c, { u8'1', u8':', u8'.', u8'/', u8'%', char8_t(0x80), char8_t(0xbf), char8_t(0xc2), char8_t(0xe2), char8_t(0xf0), char8_t(0xf8), u8'0' }, int(c.bound(4, 5, 4))); }
#endif
MC_SPACE(utf16, "every UTF-16 text to length 4 (thorough 5) over eleven units: both surrogates, delimiters, non-ASCII") { words<char16_t>(c, { u'1', u':', u'.', u'/', u'%', char16_t(0xd800), char16_t(0xdbff), char16_t(0xdc00), char16_t(0xdfff), u'\xe9', u'0' }, int(c.bound(4, 5, 4))); }
MC_SPACE(utf32, "every UTF-32 text to length 4 (thorough 5) over nine units") { words<char32_t>(c, { U'1', U':', U'.', U'/', U'%', char32_t(0xd800), char32_t(0x110000), char32_t(0xffffffff), U'0' }, int(c.bound(4, 5, 4))); }
MC_SPACE(wide, "every wide text to length 4 (thorough 5) over nine units") { words<wchar_t>(c, { L'1', L':', L'.', L'/', L'%', wchar_t(0xd800), wchar_t(0x110000), wchar_t(-1), L'0' }, int(c.bound(4, 5, 4))); }

static const char* const seeds[] = { "255.255.255.255", "1.2.3.4/255.255.255.255", "255.255.255.255/32", "1234:5678:9abc:def0:1234:5678:9abc:def0", "1234:5678:9abc:def0:1234:5678:255.255.255.255", "::ffff:1.2.3.4", "fe80::1%abcdefghijklmnop",
    "1234:5678:9abc:def0:1234:5678:255.255.255.255%abcdefghijklmnop/128", "::/0", "1::%1/128", "340282366920938463463374607431768211455", "ffffffffffffffffffffffffffffffff", "3777777777777777777777777777777777777777777", "a%b", "1.2.3.4/0.0.0.255" };
template <typename Ch> static void cut(mc::Ctx& c, const std::vector<std::basic_string<Ch> >& tails) {
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k) {
        const std::string t = seeds[k];
        for (size_t from = 0; from <= t.size(); ++from) for (size_t to = from; to <= t.size(); ++to) {
            if (from && !c.thorough() && to != t.size()) continue;
            if (!c.take()) continue;
            c.fresh();
            for (size_t j = 0; j < tails.size(); ++j) { text<Ch>(c, std::basic_string<Ch>(t.begin() + from, t.begin() + to) + tails[j]); text<Ch>(c, std::basic_string<Ch>(t.begin(), t.begin() + to) + tails[j] + std::basic_string<Ch>(t.begin() + to, t.end())); }
        }
    }
}
MC_SPACE(truncated, "fifteen long texts cut at every place, followed by every truncated or malformed multi-unit character, in every encoding") {
    cut<char>(c, { "", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\x80", "1", ":", "/", "%", std::string(1, 0) });
#ifdef __cpp_char8_t
    const char8_t u[][4] = { { 0xc3 }, { 0xe2 }, { 0xe2, 0x82 }, { 0xf0 }, { 0xf0, 0x9f }, { 0xf0, 0x9f, 0x98 }, { 0xf8 }, { 0xfc, 0x80, 0x80 }, { 0x80 } };
    std::vector<std::u8string> t8(1); for (size_t i = 0; i < sizeof u / sizeof *u; ++i) t8.push_back(std::u8string(u[i], u[i] + 1 + (u[i][1] != 0) + (u[i][2] != 0)));
    cut<char8_t>(c, t8);
#endif
    cut<char16_t>(c, { std::u16string(), std::u16string(1, char16_t(0xd83d)), std::u16string(1, char16_t(0xdc00)), std::u16string(1, char16_t(0xe9)) });
    cut<char32_t>(c, { std::u32string(), std::u32string(1, char32_t(0x1f600)), std::u32string(1, char32_t(-1)) });
    cut<wchar_t>(c, { std::wstring(), std::wstring(1, wchar_t(0x1f600)), std::wstring(1, wchar_t(-1)) });
}
MC_SPACE(repeated, "0..300 repetitions of fourteen units after six beginnings, in every encoding") {
    static const char* const unit[] = { "1", "0", "f", ".", ":", "1.", "1:", "%", "/", "a%", " ", "::", "ffff:", "x" };
    static const char* const head[] = { "", "1.2.3.4", "::1", "fe80::1%", "1.2.3.0/", "::/" };
    for (size_t h = 0; h < 6; ++h) for (size_t u = 0; u < 14; ++u) for (int n = 0; n <= 300; n += c.reduced() && n > 70 ? 7 : 1) {
        if (!c.take()) continue;
        c.fresh();
        std::string t = head[h];
        for (int i = 0; i < n; ++i) t += unit[u];
        text<char>(c, t); text<char16_t>(c, std::u16string(t.begin(), t.end())); text<char32_t>(c, std::u32string(t.begin(), t.end())); text<wchar_t>(c, std::wstring(t.begin(), t.end()));
#ifdef __cpp_char8_t
        text<char8_t>(c, std::u8string(t.begin(), t.end()));
#endif
    }
}

// character arrays without a terminator, alone in a heap block
template <size_t N, typename Ch> struct Arr { Ch a[N]; };
template <size_t N, typename Ch> static typename std::enable_if<(N <= 17)>::type array_scope(const Ch (&a)[N]) { error_code e = error_code::no_error; ipv6_address x; x.set_scope_id(a, e); use(x); }
template <size_t N, typename Ch> static typename std::enable_if<(N > 17)>::type array_scope(const Ch (&)[N]) { }
template <size_t N, typename Ch> static void array(mc::Ctx& c, const Ch (&al)[6], int used) {
    uint64_t total = 1;
    const int n = int(N) < used ? int(N) : used;
    for (int i = 0; i < n; ++i) total *= 6;
    c.range(total, 32, [&](uint64_t k) {
        c.fresh();
        Arr<N, Ch>* p = static_cast<Arr<N, Ch>*>(std::malloc(sizeof(Arr<N, Ch>)));
        for (size_t i = 0; i < N; ++i) p->a[i] = al[0];
        for (int i = 0; i < n; ++i) { p->a[N - size_t(n) + size_t(i)] = al[k % 6]; k /= 6; } // the last characters vary
        error_code e = error_code::no_error;
        use(ipv4_address::parse(p->a, e)); use(e); use(ipv6_address::parse(p->a, e)); use(e); use(ip_address::parse(p->a, e)); use(e);
        use(ipv4_network::parse(p->a, e)); use(ipv6_network::parse(p->a, e, false)); use(ip_network::parse(p->a, e, false)); use(e);
        array_scope(p->a);
        const ip::optional<uint128_t> u = uint128_t::from_string(p->a); if (u.has_value()) use(u.value());
        const auto f = ip::make_fixed_string(p->a, e);
        sink = sink + unsigned(f.size()); for (size_t i = 0; i < f.size(); ++i) sink = sink + unsigned(f[i]);
        std::free(p);
        c.step(9);
    });
}
template <typename Ch> static void arrays(mc::Ctx& c, const Ch (&al)[6]) {
    const int u = int(c.bound(5, 6, 4));
    array<1, Ch>(c, al, u); array<2, Ch>(c, al, u); array<3, Ch>(c, al, u); array<4, Ch>(c, al, u); array<5, Ch>(c, al, u); array<8, Ch>(c, al, u - 1); array<16, Ch>(c, al, u - 1); array<17, Ch>(c, al, u - 2); array<18, Ch>(c, al, u - 2); array<46, Ch>(c, al, u - 2); array<80, Ch>(c, al, u - 2);
}
MC_SPACE(char_arrays, "character arrays of eleven sizes, not terminated, every content of the last characters, in every character type") {
    { const char al[6] = { '1', ':', '.', 0, char(0xc3), '%' }; arrays<char>(c, al); }
    { const wchar_t al[6] = { L'1', L':', L'.', 0, wchar_t(0x1f600), L'%' }; arrays<wchar_t>(c, al); }
    { const char16_t al[6] = { u'1', u':', char16_t(0xdc00), 0, char16_t(0xd83d), u'%' }; arrays<char16_t>(c, al); }
    { const char32_t al[6] = { U'1', U':', U'.', 0, char32_t(0x110000), U'%' }; arrays<char32_t>(c, al); }
#ifdef __cpp_char8_t
    { const char8_t al[6] = { u8'1', char8_t(0x80), char8_t(0xf0), 0, char8_t(0xc3), char8_t(0xe2) }; arrays<char8_t>(c, al); }
#endif
}
MC_SPACE(buffers, "raw byte buffers of every length 0..40 in exact-size blocks, every entry point and version") {
    for (int n = 0; n <= 40; ++n) for (int fill = 0; fill < 4; ++fill) {
        if (!c.take()) continue;
        c.fresh();
        uint8_t* p = static_cast<uint8_t*>(std::malloc(n ? size_t(n) : 1));
        for (int i = 0; i < n; ++i) p[i] = uint8_t(fill == 0 ? 0 : fill == 1 ? 255 : fill == 2 ? i : 0x80 >> (i & 7));
        use(ipv4_address::from_bytes(p, size_t(n))); use(ipv6_address::from_bytes(p, size_t(n))); use(ip_address::from_bytes(p, size_t(n), ip_version::V4)); use(ip_address::from_bytes(p, size_t(n), ip_version::V6));
        std::free(p);
        c.step(4);
    }
}
// uninitialised results: everything a default, failed or cut-off operation returns is read in full
template <typename A> static void read_all(const A& a) { use(a); sink = sink + unsigned(a.hash()) + unsigned(a == a) + unsigned(a < a) + a.is_private() + a.is_global() + a.is_reserved() + a.is_loopback() + a.is_link_local() + a.is_unspecified() + a.is_multicast(); }
MC_SPACE(results, "objects left by failed operations, default and moved-from objects, read in full") {
    static const char* const texts[] = { "", "1", "1.2.3.4", "1.2.3.4.5", "::", ":::", "1::2::3", "fe80::1%a/b", "1.2.3.4/33", "1.2.3.4/8", "::1/129", "%", "/", "zz" };
    for (size_t k = 0; k < sizeof texts / sizeof *texts; ++k) for (int v = 0; v < 2; ++v) {
        if (!c.take()) continue;
        c.fresh();
        error_code e = error_code::no_error;
        read_all(ipv4_address::parse(std::string(texts[k]), e)); read_all(ipv6_address::parse(std::string(texts[k]), e)); read_all(ip_address::parse(std::string(texts[k]), e));
        read_all(ipv4_network::parse(std::string(texts[k]), e, v)); read_all(ipv6_network::parse(std::string(texts[k]), e, v)); read_all(ip_network::parse(std::string(texts[k]), e, v));
        ipv4_address a; ipv6_address b; ip_address d; ipv4_network f; ipv6_network g; ip_network h;
        read_all(a); read_all(b); read_all(d); read_all(f); read_all(g); read_all(h);
        ip_network m(std::move(h)); read_all(m); read_all(h);
        const ipv4_network n4 = ipv4_network::parse(std::string("10.0.0.0/30"));
        read_all(n4.supernet(e, 40)); read_all(n4.supernet(e, 1, 5)); const auto s = n4.subnets(e, 40); sink = sink + unsigned(s.size()) + unsigned(s.empty());
        const auto x = n4.address_exclude(f, e); for (auto i = x.begin(); i != x.end(); ++i) read_all(*i);
        const auto hs = n4.hosts(); auto i = hs.begin(); auto j = hs.end(); read_all(*i); for (; i != j; ++i) read_all(*i);
        decltype(i) def = decltype(i)(); def = i; sink = sink + unsigned(def == i);
        ip::optional<ipv4_address> o; sink = sink + unsigned(bool(o)); o = a; read_all(o.value());
        uint128_t q; use(q); sink = sink + unsigned(q.upper()) + unsigned(q.lower());
        std::istringstream in(std::string(texts[k]) + " 1.2.3.4"); in >> a >> b; read_all(a); read_all(b);
        c.step(30);
    }
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
