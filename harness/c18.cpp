// C18: 128-bit integers to and from text and floating point.
#include "lib.hpp"
#include <cmath>
#include <limits>
#include <sstream>

typedef uint128_t::format F;
static const F kinds[3] = { F::decimal, F::octal, F::hexadecimal };
static const unsigned bases[3] = { 10, 8, 16 };

static std::string digits(u128 v, unsigned base, bool upper = false) {
    std::string s;
    do { const unsigned d = unsigned(v % base); s.insert(s.begin(), d < 10 ? char('0' + d) : char((upper ? 'A' : 'a') + d - 10)); v /= base; } while (v);
    return s;
}
// the documented reading of a text: digits of the base only, at least one, up to the first NUL, in range
template <typename Ch> static bool reading(const std::basic_string<Ch>& t, unsigned base, u128& out) {
    u128 v = 0;
    size_t n = 0;
    for (size_t i = 0; i < t.size() && t[i] != Ch(0); ++i, ++n) {
        const unsigned long ch = (unsigned long) t[i];
        const int d = ch < 128 ? ref::xdigit(char32_t(ch)) : -1;
        if (d < 0 || unsigned(d) >= base) return false;
        if (v > (~u128(0) - unsigned(d)) / base) return false;
        v = v * base + unsigned(d);
    }
    out = v;
    return n > 0;
}
template <typename Ch> static std::basic_string<Ch> wide(const std::string& s) { return std::basic_string<Ch>(s.begin(), s.end()); }
template <typename Ch> static std::string narrow(const std::basic_string<Ch>& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += (unsigned long) s[i] < 128 ? char(s[i]) : '?'; return r; }

template <typename Ch> static void read(mc::Ctx& c, const std::basic_string<Ch>& t, int k, const char* type) {
    u128 want = 0;
    const bool good = reading(t, bases[k], want);
    const ip::optional<uint128_t> got = uint128_t::from_string(t, kinds[k]);
    MC_CHECK(got.has_value() == good, type + std::string(" ") + Q(narrow(t)) + " in base " + mc::num(bases[k]) + (good ? " rejected" : " accepted"));
    if (good && got.has_value()) MC_CHECK(R(got.value()) == want, type + std::string(" ") + Q(narrow(t)) + " in base " + mc::num(bases[k]) + " read as " + digits(R(got.value()), 16));
}
static void read_all(mc::Ctx& c, const std::string& s) {
    for (int k = 0; k < 3; ++k) {
        read<char>(c, s, k, "char"); read<wchar_t>(c, wide<wchar_t>(s), k, "wchar_t"); read<char16_t>(c, wide<char16_t>(s), k, "char16_t"); read<char32_t>(c, wide<char32_t>(s), k, "char32_t");
#if __cpp_char8_t >= 201811L
        read<char8_t>(c, wide<char8_t>(s), k, "char8_t");
#endif
    }
}
template <typename S> static std::string shifted(int base, bool upper, int width, int adjust, const uint128_t& v) {
    S o;
    o.setf(base == 0 ? std::ios_base::dec : base == 1 ? std::ios_base::oct : base == 2 ? std::ios_base::hex : std::ios_base::fmtflags(0), std::ios_base::basefield);
    if (upper) o.setf(std::ios_base::uppercase);
    o.fill('#');
    if (adjust == 1) o.setf(std::ios_base::left, std::ios_base::adjustfield);
    if (adjust == 2) o.setf(std::ios_base::right, std::ios_base::adjustfield);
    o.width(width);
    o << v;
    const bool reset = o.width() == 0;
    o << 'x';
    return narrow(o.str()) + (reset ? "" : " width kept");
}

static std::vector<u128> pool(const mc::Ctx& c) {
    std::set<u128> s;
    for (unsigned b = 2; b <= 16; b += b == 2 ? 6 : b == 8 ? 2 : 6) {
        u128 p = 1;
        for (int i = 0; i < 128; ++i) {
            for (int d = -2; d <= 2; ++d) s.insert(p + u128(d));
            for (unsigned f = 2; f < b; ++f) { s.insert(p * f); s.insert(p * f - 1); s.insert(p * f + 1); }
            if (p > ~u128(0) / b) break;
            p *= b;
        }
    }
    static const uint64_t half[] = { 0, 1, 9, 10, 0xffffffffu, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 9999999999999999999ULL, 10000000000000000000ULL, 0x0123456789abcdefULL, 0xfedcba9876543210ULL };
    for (int i = 0; i < 13; ++i) for (int j = 0; j < 13; ++j) s.insert(ref::mk(half[i], half[j]));
    if (!c.reduced()) {
        static const uint32_t l[] = { 0, 1, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 1000000000u, 0x0a0b0c0du };
        const int n = c.thorough() ? 8 : 6;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int m = 0; m < n; ++m) s.insert(u128(l[i]) << 96 | u128(l[j]) << 64 | u128(l[k]) << 32 | l[m]);
    }
    return std::vector<u128>(s.begin(), s.end());
}

MC_SPACE(format, "every value of the pool in every base, character type and through streams with every base, case, width and adjustment; read back") {
    const std::vector<u128> v = pool(c);
    c.range(v.size(), 16, [&](uint64_t i) {
        const u128 a = v[size_t(i)];
        const uint128_t x = L(a);
        c.fresh();
        for (int k = 0; k < 3; ++k) {
            const std::string d = digits(a, bases[k]);
            if (c.wants_sample()) c.sample(d);
            MC_CHECK(x.to_string(kinds[k]) == d, d + " in base " + mc::num(bases[k]) + " formatted as " + x.to_string(kinds[k]));
            MC_CHECK(x.to_wstring(kinds[k]) == wide<wchar_t>(d) && x.to_u16string(kinds[k]) == wide<char16_t>(d) && x.to_u32string(kinds[k]) == wide<char32_t>(d), d + " in wide characters");
#if __cpp_char8_t >= 201811L
            MC_CHECK(x.to_u8string(kinds[k]) == wide<char8_t>(d), d + " in char8_t");
#endif
            read_all(c, d);
            read_all(c, digits(a, bases[k], true));
            read_all(c, std::string(1 + i % 40, '0') + d);
            read_all(c, d + std::string(1, '\0') + "7z");
            read_all(c, d + "0");
            read_all(c, d + " ");
        }
        MC_CHECK(x.to_string() == digits(a, 10) && x.to_wstring() == wide<wchar_t>(digits(a, 10)), digits(a, 10) + " default format");
        const ip::optional<uint128_t> back = uint128_t::from_string(x.to_string());
        MC_CHECK(back.has_value() && R(back.value()) == a, digits(a, 10) + " default parse");
#ifndef IPADDRESS_NO_OVERLOAD_STD
        MC_CHECK(std::to_string(x) == digits(a, 10) && std::to_wstring(x) == wide<wchar_t>(digits(a, 10)), digits(a, 10) + " std::to_string");
        for (int base = 0; base < 4; ++base) for (int up = 0; up < 2; ++up) for (int w = 0; w < 3; ++w) for (int adj = 0; adj < 3; ++adj) {
            const std::string d = digits(a, base == 1 ? 8 : base == 2 ? 16 : 10, up && base == 2);
            const int width = w == 0 ? 0 : w == 1 ? 12 : 50;
            const std::string pad(width > int(d.size()) ? size_t(width) - d.size() : 0, '#');
            const std::string want = (adj == 1 ? d + pad : pad + d) + "x";
            MC_CHECK(shifted<std::ostringstream>(base, up != 0, width, adj, x) == want, "stream: " + want + " is " + shifted<std::ostringstream>(base, up != 0, width, adj, x));
            MC_CHECK(shifted<std::wostringstream>(base, up != 0, width, adj, x) == want, "wide stream: " + want);
        }
#endif
    });
}

// values just around the range limit: digits of the maximum with every prefix, next digit and filler
MC_SPACE(overflow, "every text that follows the digits of 2^128-1 up to a point, departs by any digit and continues with a filler, to one digit beyond") {
    for (int k = 0; k < 3; ++k) {
        const std::string m = digits(~u128(0), bases[k]);
        for (size_t n = 0; n <= m.size(); ++n)
            for (unsigned d = 0; d <= bases[k]; ++d)
                for (unsigned f = 0; f < bases[k]; ++f)
                    for (size_t len = m.size() - 1; len <= m.size() + 1; ++len)
                        for (int zeros = 0; zeros < 2; ++zeros) {
                            if (!c.take()) continue;
                            std::string t = m.substr(0, n);
                            if (d < bases[k]) t += digits(d, 16);
                            if (t.size() > len) continue;
                            t += std::string(len - t.size(), digits(f, 16, f % 2 == 0)[0]);
                            c.fresh();
                            read_all(c, (zeros ? "00" : "") + t);
                        }
    }
}

MC_SPACE(strings, "every text over the significant characters to the length bound, in every base and character type") {
    const std::string a("018aFg9fG/:@`+-x \0.7A\n", 22);
    en::strings(c, a, 0, int(c.bound(4, 5, 2)), [&](const std::string& s) { read_all(c, s); });
}

MC_SPACE(foreign, "every code unit of 8 and 16 bits and every code point at every position of a number") {
    const uint64_t n = c.reduced() ? 0x3000 : 0x110100;
    c.range(n, 512, [&](uint64_t i) {
        c.fresh();
        for (size_t p = 0; p <= 3; ++p) for (int k = 0; k < 3; ++k) {
            std::u32string s = U"123"; s.insert(p, 1, char32_t(i)); read<char32_t>(c, s, k, "char32_t");
            std::wstring w = L"123"; w.insert(p, 1, wchar_t(i)); read<wchar_t>(c, w, k, "wchar_t");
            if (i < 0x10000) { std::u16string u = u"123"; u.insert(p, 1, char16_t(i)); read<char16_t>(c, u, k, "char16_t"); }
            if (i < 0x100) { std::string u = "123"; u.insert(p, 1, char(i)); u128 v = 0; if (i < 0x80) read<char>(c, u, k, "char"); else MC_CHECK(!uint128_t::from_string(u, kinds[k]).has_value(), "byte " + mc::hex(i) + " accepted at " + mc::num(p)); (void) v; }
        }
    });
}

MC_SPACE(arrays, "literals and arrays, with and without a terminator") {
    if (!c.take()) return;
    c.fresh();
#define LIT(text, k, good, v) do { const ip::optional<uint128_t> o = uint128_t::from_string(text, kinds[k]); MC_CHECK(o.has_value() == good && (!good || R(o.value()) == u128(v)), "literal " #text " in base " + mc::num(bases[k])); } while (0)
    LIT("0", 0, true, 0); LIT("123", 0, true, 123); LIT(L"777", 1, true, 511); LIT(u"fF", 2, true, 255); LIT(U"8", 1, false, 0); LIT("", 0, false, 0); LIT(L"", 2, false, 0); LIT("\0" "1", 0, false, 0); LIT("12\0" "3", 0, true, 12);
    LIT("340282366920938463463374607431768211455", 0, true, ~u128(0)); LIT("340282366920938463463374607431768211456", 0, false, 0); LIT("3777777777777777777777777777777777777777777", 1, true, ~u128(0)); LIT("4000000000000000000000000000000000000000000", 1, false, 0);
    LIT("ffffffffffffffffffffffffffffffff", 2, true, ~u128(0)); LIT("100000000000000000000000000000000", 2, false, 0);
    const char raw[3] = { '4', '5', '6' }; LIT(raw, 0, true, 456);
    const char32_t raw32[2] = { U'7', U'z' }; LIT(raw32, 0, false, 0);
}

template <typename Ch> static void extract(mc::Ctx& c, const std::string& text, int base, const char* type) {
    std::basic_istringstream<Ch> in(wide<Ch>(text));
    in.setf(base == 0 ? std::ios_base::dec : base == 1 ? std::ios_base::oct : base == 2 ? std::ios_base::hex : std::ios_base::fmtflags(0), std::ios_base::basefield);
    // words as the stream itself splits them
    std::basic_istringstream<Ch> model(wide<Ch>(text));
    uint128_t x(77u);
    u128 held = 77;
    for (int n = 0; n < 4; ++n) {
        std::basic_string<Ch> word;
        model >> word;
        in >> x;
        u128 v = 0;
        const bool good = reading(word, base == 1 ? 8 : base == 2 ? 16 : 10, v);
        if (good) held = v;
        else model.setstate(std::ios_base::failbit);
        MC_CHECK(in.rdstate() == model.rdstate() && R(x) == held, type + std::string(" extraction ") + mc::num(n) + " from " + Q(text) + " base " + mc::num(base) + ": state " + mc::num(in.rdstate()) + " instead of " + mc::num(model.rdstate()) + ", value " + digits(R(x), 10) + " instead of " + digits(held, 10));
        if (!in) break;
    }
}
#ifndef IPADDRESS_NO_OVERLOAD_STD
MC_SPACE(extraction, "every text over digits, spaces and foreign characters to the length bound, extracted number by number in every base") {
    const std::string a("17 8fFz\n\0", 9);
    en::strings(c, a, 0, int(c.bound(5, 6, 3)), [&](const std::string& s) { for (int b = 0; b < 4; ++b) { extract<char>(c, s, b, "char"); extract<wchar_t>(c, s, b, "wchar_t"); } });
}
#endif

// ---- floating point
template <typename D> static u128 trunc(D d) {
    if (!(d >= 1)) return 0;
    if (d >= D(std::ldexp(1.0, 128))) return ~u128(0);
    return u128(d);
}
static std::string G(long double d) { char b[64]; std::snprintf(b, sizeof b, "%La", d); return b; }

MC_SPACE(to_floating, "every integer with up to three runs of bits, and every tie and near-tie of the rounding, to every floating type") {
    std::vector<u128> v = pool(c);
    for (int top = 0; top < 128; ++top) for (int cut = 0; cut <= top; ++cut) {
        // bits around the rounding position of a number with highest bit `top`
        const u128 h = u128(1) << top, k = u128(1) << cut;
        for (int m = 0; m < 8; ++m) { u128 x = h | (m & 1 ? k : 0); if (m & 2) x |= cut ? k >> 1 : 0; if (m & 4) x += 1; v.push_back(x); v.push_back(x - 1); v.push_back(h | (h - k)); v.push_back((h | (h - k)) + (m & 1 ? k >> 1 : 0) + (m & 2 ? 1 : 0) - (m & 4 ? 1 : 0)); }
    }
    const size_t step = c.reduced() ? 16 : 1;
    c.range(v.size() / step, 256, [&](uint64_t i) {
        const u128 a = v[size_t(i) * step];
        const uint128_t x = L(a);
        c.state(mc::comb(ref::hi(a), ref::lo(a)));
        const double d = double(a);
        MC_CHECK(double(x) == d && static_cast<double>(x) == d, digits(a, 16) + " to double is " + G(double(x)) + " instead of " + G(d));
        MC_CHECK(float(x) == float(d), digits(a, 16) + " to float is " + G(float(x)) + " instead of " + G(float(d)));
        MC_CHECK((long double)(x) == (long double) d, digits(a, 16) + " to long double is " + G((long double)(x)));
        MC_CHECK(R(uint128_t(d)) == trunc<double>(d), digits(a, 16) + " through double is " + digits(R(uint128_t(d)), 16));
    });
}

template <typename D> static void from(mc::Ctx& c, D d, const char* type) {
    const u128 want = trunc<double>(double(d));
    const uint128_t x(d);
    MC_CHECK(R(x) == want, type + std::string(" ") + G(d) + " converts to " + digits(R(x), 16) + " instead of " + digits(want, 16));
    const uint128_t y = static_cast<uint128_t>(d);
    MC_CHECK(y == x, type + std::string(" ") + G(d) + " converts differently");
}
MC_SPACE(from_floating, "every exponent with mantissas of up to two runs and neighbours, both signs, subnormals, infinities and NaNs") {
    c.range(2048 * 2, 8, [&](uint64_t i) {
        const uint64_t head = (i % 2048) << 52 | (i / 2048) << 63;
        std::set<uint64_t> m;
        for (int a = 0; a <= 52; ++a) {
            const uint64_t u = (1ULL << a) - 1;
            m.insert(u); m.insert(((1ULL << 52) - 1) & ~u); m.insert(u ^ 1);
            if (!c.reduced()) for (int b = 0; b < a; ++b) { m.insert(u & ~((1ULL << b) - 1)); m.insert((1ULL << (a - 1)) | (1ULL << b)); }
        }
        for (std::set<uint64_t>::const_iterator k = m.begin(); k != m.end(); ++k) {
            const uint64_t bits = head | (*k & ((1ULL << 52) - 1));
            double d;
            std::memcpy(&d, &bits, sizeof d);
            c.fresh();
            from<double>(c, d, "double");
            from<long double>(c, (long double) d, "long double");
            if (*k == 0 || (i & 15) == 3) { from<float>(c, float(d), "float"); from<long double>(c, (long double) d * (1 + 1e-18L), "long double"); from<long double>(c, (long double) d * 1e300L * 1e300L, "long double"); }
        }
    });
    c.range(512, 4, [&](uint64_t i) { // every sign and exponent of float with single-bit mantissas
        for (int b = 0; b < 24; ++b) {
            const uint32_t bits = uint32_t(i) << 23 | (b < 23 ? 1u << b : 0);
            float f;
            std::memcpy(&f, &bits, sizeof f);
            c.fresh();
            from<float>(c, f, "float");
        }
    });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
