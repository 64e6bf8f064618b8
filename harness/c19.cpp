// C19: fixed strings against bounded strings of the standard library.
#include "lib.hpp"
#include <stdexcept>
#include <algorithm>
#include <functional>

template <typename Ch> static const char* name();
template <> const char* name<char>() { return "char"; }
template <> const char* name<wchar_t>() { return "wchar_t"; }
template <> const char* name<char16_t>() { return "char16_t"; }
template <> const char* name<char32_t>() { return "char32_t"; }
#if __cpp_char8_t >= 201811L
template <> const char* name<char8_t>() { return "char8_t"; }
#endif
template <typename Ch> static std::string show(const std::basic_string<Ch>& s) { std::string r = name<Ch>(); for (size_t i = 0; i < s.size(); ++i) r += " " + mc::hex((unsigned long) (typename std::make_unsigned<typename std::conditional<sizeof(Ch) == 1, char, Ch>::type>::type) s[i]); return r; }

template <size_t N> static std::string content(const ip::fixed_string<N>& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += s[i]; return r; }

// everything a string reports, against what it must hold
template <size_t N> static void holds(mc::Ctx& c, const ip::fixed_string<N>& s, const std::string& want, const std::string& n) {
    MC_CHECK(s.size() == want.size() && s.length == want.size(), n + " size " + mc::num(s.size()) + " instead of " + mc::num(want.size()));
    if (s.size() != want.size()) return;
    MC_CHECK(s.empty() == want.empty() && s.capacity() == N && ip::fixed_string<N>::max_length == N, n + " empty or capacity");
    MC_CHECK(content(s) == want, n + " elements " + Q(content(s)));
    bool at = true;
    for (size_t i = 0; i < want.size(); ++i) at = at && s.at(i) == want[i] && s.data()[i] == want[i] && s.begin()[i] == want[i] && &s[i] == &s.at(i) && &s[i] == s.data() + i;
    MC_CHECK(at, n + " at, data or begin");
    if (!want.empty()) MC_CHECK(s.front() == want[0] && s.back() == want[want.size() - 1], n + " front or back");
    MC_CHECK(std::string(s.begin(), s.end()) == want && std::string(s.cbegin(), s.cend()) == want, n + " forward iteration");
    MC_CHECK(std::string(s.rbegin(), s.rend()) == std::string(want.rbegin(), want.rend()) && std::string(s.crbegin(), s.crend()) == std::string(want.rbegin(), want.rend()), n + " backward iteration");
}

// units: N characters; the array carries one more element, the terminator
template <size_t N, typename Ch> static ip::fixed_string<N> built(mc::Ctx& c, const std::basic_string<Ch>& units, Ch last, std::string& want, bool& good) {
    Ch a[N + 1];
    for (size_t i = 0; i < N; ++i) a[i] = units[i];
    a[N] = last;
    want.clear();
    good = true;
    for (size_t i = 0; i < N && units[i] != Ch(0); ++i) { if ((typename std::make_unsigned<typename std::conditional<sizeof(Ch) == 1, char, Ch>::type>::type)(units[i]) > 127) good = false; want += char(units[i]); }
    error_code e = error_code::wrong_encoding_sequence; // must not matter
    if (N == 0) e = error_code::no_error;
    const ip::fixed_string<N> s(a, e);
    const std::string n = "fixed_string<" + mc::num(N) + "> " + show(units);
    MC_CHECK((N == 0 || (e == error_code::no_error) == good), n + (good ? " rejected" : " accepted"));
    error_code f = error_code::no_error;
    const ip::fixed_string<N> m = ip::make_fixed_string(a, f);
    MC_CHECK((f == error_code::no_error) == good && (!good || m == s), n + " make_fixed_string");
#if MC_EXC
    bool threw = false;
    error_code code = error_code::no_error;
    try {
        const ip::fixed_string<N> t(a);
        MC_CHECK(!good || t == s, n + " throwing constructor gives another string");
        const ip::fixed_string<N> t2 = ip::make_fixed_string(a);
        MC_CHECK(!good || t2 == s, n + " throwing make_fixed_string gives another string");
    } catch (const ip::error& x) { threw = true; code = x.code(); }
    MC_CHECK(threw == !good && (!threw || code == e), n + (good ? " throws" : " does not throw the error reported"));
#endif
    return s;
}

template <size_t N, typename Ch> static void contents(mc::Ctx& c) {
    const Ch a[] = { Ch(0), Ch('a'), Ch('b'), Ch(0x7f), Ch(1), Ch('%') };
    std::basic_string<Ch> alpha(a, a + (c.reduced() ? 3 : 6));
    en::strings(c, alpha, int(N), int(N), [&](const std::basic_string<Ch>& s) {
        std::string want;
        bool good = true;
        const ip::fixed_string<N> f = built<N, Ch>(c, s, Ch(0), want, good);
        holds(c, f, want, show(s));
        if (c.wants_sample()) c.sample(show(s));
        const ip::fixed_string<N> g = built<N, Ch>(c, s, Ch('z'), want, good); // the element after the last is not part of it
        holds(c, g, want, show(s) + " followed by another character");
        ip::fixed_string<N> h, k = f;
        holds(c, h, "", "default");
        h = g;
        MC_CHECK(h == f && k == f && f.hash() == g.hash() && h.hash() == f.hash(), show(s) + " copies differ");
#ifndef IPADDRESS_NO_OVERLOAD_STD
        MC_CHECK(std::hash<std::string>()(want) == std::hash<std::string>()(content(k)), show(s));
#endif
    });
}
template <typename Ch> static void contents_all(mc::Ctx& c) { contents<1, Ch>(c); contents<2, Ch>(c); contents<3, Ch>(c); contents<4, Ch>(c); contents<5, Ch>(c); if (c.thorough()) { contents<6, Ch>(c); contents<7, Ch>(c); } }

MC_SPACE(contents, "every content over NUL, letters and boundary characters for every capacity to the bound, in every character type") {
    contents_all<char>(c); contents_all<wchar_t>(c); contents_all<char16_t>(c); contents_all<char32_t>(c);
#if __cpp_char8_t >= 201811L
    contents_all<char8_t>(c);
#endif
}

template <typename Ch> static void units(mc::Ctx& c, uint64_t n) {
    c.range(n, 512, [&](uint64_t i) {
        c.fresh();
        for (size_t p = 0; p < 3; ++p) for (int nul = 0; nul < 2; ++nul) {
            const Ch base[] = { Ch('x'), Ch('y'), Ch('z') };
            std::basic_string<Ch> s(base, 3);
            s[p] = Ch(i);
            if (nul) s[1] = Ch(0);
            std::string want;
            bool good = true;
            const ip::fixed_string<3> f = built<3, Ch>(c, s, Ch(0), want, good);
            if (good) holds(c, f, want, show(s));
        }
    });
}
MC_SPACE(units, "every code unit or code point at every position of a three-character string, before and after a NUL") {
    units<char16_t>(c, c.reduced() ? 0x400 : 0x10000);
    units<char32_t>(c, c.reduced() ? 0x400 : 0x110100);
    units<wchar_t>(c, c.reduced() ? 0x400 : 0x110100);
    const uint32_t far[] = { 0x7fffffffu, 0x80000000u, 0x80000041u, 0xffffffffu, 0xffffff80u, 0x100000041ULL & 0xffffffffu };
    (void) far;
#if __cpp_char8_t >= 201811L
    units<char8_t>(c, 0x100);
#endif
#ifndef IPADDRESS_CHAR_IS_UTF8
    c.range(128, 16, [&](uint64_t i) { // narrow characters that are ASCII
        c.fresh();
        std::string s("xyz"), want;
        s[size_t(i % 3)] = char(i);
        bool good = true;
        const ip::fixed_string<3> f = built<3, char>(c, s, '\0', want, good);
        holds(c, f, want, show(s));
    });
#endif
}
MC_SPACE(high_units, "every 32-bit unit whose low byte is a letter, at each bit and pattern of the rest") {
    c.range(1 << 16, 512, [&](uint64_t i) {
        c.fresh();
        for (int sh = 8; sh <= 16; sh += 4) {
            const uint32_t v = uint32_t(i) << sh | 'a';
            std::string want;
            bool good = true;
            std::u32string s(3, U'q'); s[1] = char32_t(v);
            built<3, char32_t>(c, s, U'\0', want, good);
            std::wstring w(3, L'q'); w[2] = wchar_t(v);
            built<3, wchar_t>(c, w, L'\0', want, good);
        }
    });
}

#if __cpp_char8_t >= 201811L
MC_SPACE(utf8, "every sequence of UTF-8 lead, continuation, invalid and ASCII bytes filling a string of four") {
    const unsigned char b[] = { 0, 'a', 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc3, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf8, 0xff };
    std::u8string alpha;
    for (size_t i = 0; i < sizeof b; ++i) alpha += char8_t(b[i]);
    en::strings(c, alpha, 4, 4, [&](const std::u8string& s) { std::string want; bool good = true; const ip::fixed_string<4> f = built<4, char8_t>(c, s, char8_t(0), want, good); if (good) holds(c, f, want, show(s)); });
}
#endif
MC_SPACE(utf16, "every sequence of surrogates and characters filling a string of four") {
    const char16_t b[] = { 0, 'a', 0x7f, 0x80, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff };
    en::strings(c, std::u16string(b, b + 11), 4, 4, [&](const std::u16string& s) { std::string want; bool good = true; const ip::fixed_string<4> f = built<4, char16_t>(c, s, u'\0', want, good); if (good) holds(c, f, want, show(s)); });
}

template <size_t N> static ip::fixed_string<N> mk(const std::string& s) { char a[N + 1] = {}; for (size_t i = 0; i < s.size(); ++i) a[i] = s[i]; error_code e = error_code::no_error; return ip::fixed_string<N>(a, e); }
template <> ip::fixed_string<0> mk<0>(const std::string&) { return ip::fixed_string<0>(); }

template <size_t N, size_t M> static void compared(mc::Ctx& c, const std::vector<std::string>& all) {
    size_t n = 0, m = 0; // strings that fit
    while (n < all.size() && all[n].size() <= N) ++n;
    while (m < all.size() && all[m].size() <= M) ++m;
    c.range(uint64_t(n) * m, 256, [&](uint64_t i) {
        const std::string& s = all[size_t(i / m)];
        const std::string& t = all[size_t(i % m)];
        const ip::fixed_string<N> x = mk<N>(s);
        const ip::fixed_string<M> y = mk<M>(t);
        c.fresh();
        const int want = s < t ? -1 : s == t ? 0 : 1;
        const std::string what = Q(s) + "<" + mc::num(N) + "> and " + Q(t) + "<" + mc::num(M) + ">";
        const int k = x.compare(y), r = y.compare(x);
        MC_CHECK((k > 0) - (k < 0) == want && (r > 0) - (r < 0) == -want, what + " compare " + mc::inum(k) + " " + mc::inum(r));
        MC_CHECK((x == y) == (want == 0) && (x != y) == (want != 0), what + " == or !=");
        MC_CHECK((x < y) == (want < 0) && (x <= y) == (want <= 0) && (x > y) == (want > 0) && (x >= y) == (want >= 0), what + " order");
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
        MC_CHECK(((x <=> y) < 0) == (want < 0) && ((x <=> y) == 0) == (want == 0), what + " <=>");
#endif
        if (want == 0 && N && M) MC_CHECK(x.hash() == y.hash(), what + " hash");
    });
}
static std::vector<std::string> words(int len, const std::string& alpha) {
    std::vector<std::string> r(1);
    size_t from = 0;
    for (int l = 1; l <= len; ++l) { const size_t to = r.size(); for (size_t i = from; i < to; ++i) for (size_t k = 0; k < alpha.size(); ++k) r.push_back(r[i] + alpha[k]); from = to; }
    return r;
}
MC_SPACE(comparison, "every ordered pair of strings over four letters (extremes of the ASCII range included) between every pair of capacities") {
    const std::vector<std::string> v = words(4, c.reduced() ? "a\x7f" : "ab\x01\x7f");
    compared<0, 0>(c, v); compared<0, 2>(c, v); compared<2, 0>(c, v); compared<1, 1>(c, v); compared<1, 3>(c, v); compared<3, 1>(c, v); compared<2, 2>(c, v); compared<2, 3>(c, v); compared<3, 2>(c, v); compared<3, 3>(c, v); compared<3, 4>(c, v); compared<4, 3>(c, v); compared<4, 4>(c, v);
    compared<4, 16>(c, v); compared<16, 4>(c, v); compared<16, 16>(c, v);
}

// the relations of one byte value with every other
MC_SPACE(bytes, "every pair of ASCII characters as one-character strings and as the last of several") {
    c.range(127 * 127, 64, [&](uint64_t i) {
        const char a = char(1 + i / 127), b = char(1 + i % 127);
        c.fresh();
        const ip::fixed_string<1> x = mk<1>(std::string(1, a)), y = mk<1>(std::string(1, b));
        const ip::fixed_string<5> u = mk<5>(std::string("0000") + a);
        const ip::fixed_string<7> v = mk<7>(std::string("0000") + b);
        MC_CHECK((x < y) == (a < b) && (x == y) == (a == b) && (u < v) == (a < b) && (u == v) == (a == b), "characters " + mc::num(a) + " and " + mc::num(b));
        if (a == b) MC_CHECK(x.hash() == y.hash() && u.hash() == v.hash(), "hash");
    });
}

// Narrow characters that are not ASCII are kept as they are; which comes first is not specified, but there must be one order.
#ifndef IPADDRESS_CHAR_IS_UTF8
MC_SPACE(raw_bytes, "every pair and triple of narrow strings with bytes outside ASCII: one total order, the same for every capacity") {
    std::vector<std::string> v = words(3, c.reduced() ? "a\x80" : "a\x7f\x80\xc3\xff");
    for (int b = 1; b < 256; ++b) v.push_back("k" + std::string(1, char(b)));
    c.range(uint64_t(v.size()) * v.size(), 256, [&](uint64_t i) {
        const std::string& s = v[size_t(i / v.size())];
        const std::string& t = v[size_t(i % v.size())];
        const ip::fixed_string<3> x = mk<3>(s), y = mk<3>(t);
        const ip::fixed_string<16> u = mk<16>(s), w = mk<16>(t);
        if (content(x) != s || content(y) != t || content(u) != s || content(w) != t) return;
        c.fresh();
        const std::string what = Q(s) + " and " + Q(t);
        const int k = x.compare(y), r = y.compare(x);
        MC_CHECK((k == 0) == (s == t) && (x == y) == (s == t) && (x != y) == (s != t) && (u == y) == (s == t), what + " equality");
        MC_CHECK(k == 0 ? r == 0 : (k < 0) == (r > 0), what + " compare " + mc::inum(k) + " and the other way " + mc::inum(r));
        MC_CHECK((x < y) == (k < 0) && (x <= y) == (k <= 0) && (x > y) == (k > 0) && (x >= y) == (k >= 0), what + " order operators");
        MC_CHECK((u < w) == (k < 0) && (x < w) == (k < 0) && (u < y) == (k < 0) && (u > w) == (k > 0), what + " order between other capacities");
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
        MC_CHECK(((x <=> y) < 0) == (k < 0) && ((x <=> y) == 0) == (k == 0), what + " <=>");
#endif
        if (s == t) MC_CHECK(x.hash() == y.hash(), what + " hash");
        else if (k < 0) for (size_t j = 0; j < v.size(); ++j) { const ip::fixed_string<3> z = mk<3>(v[j]); MC_CHECK(!(y < z) || x < z, what + " and " + Q(v[j]) + ": not transitive"); }
    });
}
#endif

MC_SPACE(histories, "every sequence of assignments, copies and swaps over three strings to the depth bound") {
    const char* const w[] = { "", "a", "ab", "abcd" };
    const int K = 3 * 4 + 6 + 9, depth = int(c.bound(4, 5, 3)); // construct, copy, swap (with itself too)
    uint64_t n = 1;
    for (int i = 0; i < depth; ++i) n *= K;
    c.range(n, 1024, [&](uint64_t idx) {
        ip::fixed_string<4> f[3] = { mk<4>("x"), mk<4>("yz"), mk<4>("wxyz") };
        std::string m[3] = { "x", "yz", "wxyz" };
        uint64_t code = idx;
        for (int d = 0; d < depth; ++d, code /= K) {
            int op = int(code % K);
            if (op < 12) { f[op / 4] = mk<4>(w[op % 4]); m[op / 4] = w[op % 4]; }
            else if (op < 18) { op -= 12; const int i = op / 2, j = (i + 1 + op % 2) % 3; f[i] = f[j]; m[i] = m[j]; }
            else { op -= 18; f[op / 3].swap(f[op % 3]); if (op / 3 != op % 3) m[op / 3].swap(m[op % 3]); }
        }
        c.state(mc::comb(mc::comb(mc::hash(m[0]), mc::hash(m[1])), mc::hash(m[2])));
        c.step(6);
        for (int i = 0; i < 3; ++i) {
            bool ok = content(f[i]) == m[i] && f[i].size() == m[i].size() && (m[i].empty() || f[i].back() == m[i][m[i].size() - 1]) && f[i].hash() == mk<4>(m[i]).hash();
            for (int j = 0; j < 3; ++j) ok = ok && (f[i] == f[j]) == (m[i] == m[j]) && (f[i] < f[j]) == (m[i] < m[j]);
            if (!ok) { c.fail("history " + mc::num(idx) + " leaves string " + mc::num(i) + " as " + Q(content(f[i])) + " instead of " + Q(m[i])); return; }
        }
    });
}

#if MC_EXC
// Indexing beyond the character array is documented to throw std::out_of_range.
template <size_t N> static void beyond(mc::Ctx& c) {
    c.range(2 * N + 8, 1, [&](uint64_t idx) {
        static const size_t far[] = { size_t(-1), size_t(1) << 63, size_t(1) << 32, 65536, 256, 255, N + 1, N };
        const size_t i = idx < 2 * N ? size_t(idx) : far[idx - 2 * N];
        char text[N + 1] = {};
        for (size_t k = 0; k < N; ++k) text[k] = char('a' + k);
        const ip::fixed_string<N> s(text);
        int thrown = 0;
        char got[2] = { 0, 0 };
        try { got[0] = s.at(i); } catch (const std::out_of_range&) { thrown |= 1; }
        try { got[1] = s[i]; } catch (const std::out_of_range&) { thrown |= 2; }
        c.fresh();
        MC_CHECK(thrown == (i >= N ? 3 : 0) && (i >= N || (got[0] == text[i] && got[1] == text[i])), "a string of " + mc::num(unsigned(N)) + " characters indexed with " + mc::num(uint64_t(i)) + (i >= N ? " does not throw" : " throws or gives another character"));
    });
}
MC_SPACE(bounds, "every index up to twice the length and far beyond, through both accessors") { beyond<0>(c); beyond<1>(c); beyond<2>(c); beyond<4>(c); beyond<16>(c); }
#endif

#ifdef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
// Strings as template arguments: the same string, however it came about, is the same argument.
template <ip::fixed_string<3> S> struct Argument { static constexpr char tag = 0; };
template <typename T, int Way> static constexpr ip::fixed_string<3> made(int i) {
    const T letters[] = { T(0), T('a'), T('b'), T(Way == 4 ? 0xE9 : 'c') };
    const T text[4] = { letters[i & 3], letters[(i >> 2) & 3], letters[(i >> 4) & 3], T(0) };
    const T other[4] = { T('b'), T('a'), T('c'), T(0) };
    if (Way == 1 || Way == 4) {
        auto code = error_code::no_error;
        return ip::fixed_string<3>(text, code);
    }
    ip::fixed_string<3> s(text);
    if (Way == 0) return s;
    ip::fixed_string<3> t(other);
    if (Way == 2) { t = s; return t; }
    t.swap(s);
    return t;
}
using IP_TAG = const char*;
template <typename T, int Way, int... I> static void arguments(std::vector<std::pair<ip::fixed_string<3>, IP_TAG>>& all, std::integer_sequence<int, I...>) {
    const std::pair<ip::fixed_string<3>, IP_TAG> some[] = { { made<T, Way>(I), &Argument<made<T, Way>(I)>::tag }... };
    all.insert(all.end(), std::begin(some), std::end(some));
}
template <typename T> static void arguments(std::vector<std::pair<ip::fixed_string<3>, IP_TAG>>& all) {
    using R = std::make_integer_sequence<int, 64>;
    arguments<T, 0>(all, R()); arguments<T, 1>(all, R()); arguments<T, 2>(all, R()); arguments<T, 3>(all, R());
    if (sizeof(T) > 1) arguments<T, sizeof(T) == 1 ? 1 : 4>(all, R());
}
MC_SPACE(template_arguments, "every pair of strings over four letters, built in five ways in every character type, as template arguments") {
    std::vector<std::pair<ip::fixed_string<3>, IP_TAG>> all;
    arguments<char>(all); arguments<wchar_t>(all); arguments<char16_t>(all); arguments<char32_t>(all);
    c.range(all.size(), 8, [&](uint64_t i) {
        c.fresh();
        for (size_t j = 0; j < all.size(); ++j)
            MC_CHECK((all[i].second == all[j].second) == (all[i].first == all[j].first) && (content(all[i].first) == content(all[j].first)) == (all[i].first == all[j].first),
                Q(content(all[i].first)) + " and " + Q(content(all[j].first)) + (all[i].first == all[j].first ? " are equal but different template arguments" : " differ but are the same template argument"));
    });
}
#endif

MC_SPACE(zero, "the string of capacity zero") {
    if (!c.take()) return;
    c.fresh();
    ip::fixed_string<0> z, y("");
    const ip::fixed_string<0> l(L""), u(u""), v(U"");
    error_code e = error_code::invalid_scope_id;
    const ip::fixed_string<0> w("", e);
    MC_CHECK(e == error_code::no_error, "code not reset");
    MC_CHECK(z.empty() && z.size() == 0 && z.length == 0 && z.capacity() == 0 && z.begin() == z.end() && z.cbegin() == z.cend() && z.rbegin() == z.rend() && z.crbegin() == z.crend(), "emptiness");
    MC_CHECK(z == y && !(z != y) && !(z < y) && z <= y && z == l && z == u && z == v && z == w && z.hash() == y.hash() && z.compare(w) == 0, "equality");
    z.swap(y);
    MC_CHECK(z == y && ip::make_fixed_string("").empty() && ip::make_fixed_string(u"").size() == 0, "swap");
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
