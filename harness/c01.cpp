// C01: IPv4 text is accepted exactly when it is a canonical dotted quad, with that value.
#include "lib.hpp"

static void check(mc::Ctx& c, const std::string& s) {
    uint32_t want = 0;
    const bool ok = ref::parse4(ref::widen(s), want);
    error_code e = error_code::no_error;
    const ipv4_address a = parse_code<ipv4_address>(s, e);
    MC_CHECK((e == error_code::no_error) == ok, "ipv4_address::parse(" + Q(s) + ") " + (ok ? "rejected, " + S(e) : "accepted as " + S(a)));
    MC_CHECK(a.to_uint() == (ok ? want : 0), "ipv4_address::parse(" + Q(s) + ") = " + S(a) + ", expected " + (ok ? ref::fmt4(want) : "a default address"));
    const uint8_t b[4] = { uint8_t(want >> 24), uint8_t(want >> 16), uint8_t(want >> 8), uint8_t(want) };
    if (ok) MC_CHECK(std::memcmp(a.data(), b, 4) == 0, "octets of " + Q(s));
    e = error_code::no_error;
    const ip_address g = parse_code<ip_address>(s, e);
    MC_CHECK((e == error_code::no_error && g.version() == ip_version::V4) == ok, "ip_address::parse(" + Q(s) + ") IPv4 = " + B(!ok));
    if (ok && g.version() == ip_version::V4) MC_CHECK(value_of(g) == want, "ip_address::parse(" + Q(s) + ") = " + S(g));
    if (c.wants_sample()) c.sample(Q(s) + (ok ? " -> " + ref::fmt4(want) : " rejected"));
}

MC_SPACE(short_texts, "every text of length 0..8 (thorough 9) over {0,1,2,5,9,'.','x',NUL}") {
    en::strings(c, std::string("012.59x\0", 8), 0, int(c.bound(8, 9, 5)), [&](const std::string& s) { check(c, s); });
}
MC_SPACE(dots_and_digits, "every text of length 0..13 (thorough 16) over {0,1,'.'} and of length 0..10 (thorough 12) over {2,5,6,'.'}") {
    en::strings(c, std::string("01."), 0, int(c.bound(13, 16, 9)), [&](const std::string& s) { check(c, s); });
    en::strings(c, std::string("256."), 0, int(c.bound(10, 12, 8)), [&](const std::string& s) { check(c, s); });
}
static const char* tokens[] = { "", "0", "00", "000", "1", "01", "001", "9", "10", "19", "25", "99", "099", "100", "127", "199", "200", "249", "250", "255", "256", "260", "299", "300", "999", "0000", "1000", "2550", "4294967296", "-1", "+1", "0x1", "1 ", " 1", "a", "\x80", "1:" };
MC_SPACE(octet_shapes, "every sequence of four octet tokens, of 37 valid and invalid shapes") {
    const uint64_t n = sizeof tokens / sizeof *tokens;
    const uint64_t k = c.reduced() ? 22 : n;
    c.range(k * k * k * k, 256, [&](uint64_t i) {
        std::string s;
        for (int p = 0; p < 4; ++p) { s += (p ? "." : "") + std::string(tokens[i % k]); i /= k; }
        c.fresh();
        check(c, s);
    });
}
MC_SPACE(octet_counts, "one to six octets of seven shapes, with every separator position doubled, leading and trailing") {
    static const char* t[] = { "", "0", "1", "255", "256", "01", "12" };
    for (int n = 1; n <= 6; ++n) {
        uint64_t total = 1;
        for (int i = 0; i < n; ++i) total *= 7;
        c.range(total, 256, [&](uint64_t i) {
            std::string s;
            for (int p = 0; p < n; ++p) { s += (p ? "." : "") + std::string(t[i % 7]); i /= 7; }
            c.fresh();
            check(c, s);
            check(c, s + std::string(1, '\0'));
            check(c, std::string(1, '\0') + s);
        });
    }
}
MC_SPACE(octet_values, "every one to five digit number (leading zeros included) as each octet, over three backgrounds") {
    static const char* bg[] = { "1.2.3.4", "255.255.255.255", "0.0.0.0" };
    for (int d = 1; d <= 5; ++d) {
        uint64_t n = 1;
        for (int i = 0; i < d; ++i) n *= 10;
        if (c.reduced() && d > 3) break;
        c.range(n * 12, 256, [&](uint64_t i) {
            const int pos = int(i % 4), b = int(i / 4 % 3);
            std::string digits = ref::dec(i / 12);
            while (int(digits.size()) < d) digits = "0" + digits;
            std::vector<std::string> p = ref::split<std::string>(bg[b], '.');
            p[pos] = digits;
            c.fresh();
            check(c, p[0] + "." + p[1] + "." + p[2] + "." + p[3]);
        });
    }
}
MC_SPACE(octet_pairs, "every pair of octet values in every pair of positions") {
    c.range(6 * 65536, 1024, [&](uint64_t i) {
        static const int pa[6] = { 0, 0, 0, 1, 1, 2 }, pb[6] = { 1, 2, 3, 2, 3, 3 };
        if (c.reduced() && i % 65536 >= 4096) return;
        unsigned o[4] = { 10, 20, 30, 40 };
        o[pa[i / 65536]] = unsigned(i & 255); o[pb[i / 65536]] = unsigned(i >> 8 & 255);
        c.fresh();
        check(c, ref::dec(o[0]) + "." + ref::dec(o[1]) + "." + ref::dec(o[2]) + "." + ref::dec(o[3]));
    });
}
static const char* seeds[] = { "0.0.0.0", "1.2.3.4", "255.255.255.255", "192.168.10.1", "127.0.0.1", "10.0.0.0", "100.64.200.99", "::1.2.3.4", "1.2.3.4/8" };
MC_SPACE(one_edit, "every text one edit (insert, replace with any of 256 characters, delete, swap, repeat, cut) from nine seeds") {
    const std::string all = en::bytes_upto(256);
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k)
        en::edits(std::string(seeds[k]), all, [&](const std::string& s) { if (c.take()) { c.state(mc::hash(s)); check(c, s); } });
}
MC_SPACE(two_edits, "every text two edits from four seeds, over nine significant characters") {
    if (c.reduced()) return;
    const std::string sig("0125.9x/:", 9);
    for (size_t k = 1; k < (c.thorough() ? 6u : 4u); ++k)
        en::edits(std::string(seeds[k]), sig, [&](const std::string& t) {
            en::edits(t, sig, [&](const std::string& s) { if (c.take()) { c.state(mc::hash(s)); check(c, s); } });
        });
}
MC_SPACE(long_texts, "runs of 0..300 and of 65516..65560 digits, dots or octets before, inside and after an address") {
    static const char* unit[] = { "0", "1", ".", "1.", ".1", "255.", " ", "x" };
    for (int n = 0; n <= 65560; n = n == 300 ? 65516 : n + 1) // lengths around 256 and 65536
        for (size_t u = 0; u < 8; ++u)
            for (int where = 0; where < 3; ++where) {
                if (!c.take()) continue;
                std::string r;
                for (int i = 0; i < n; ++i) r += unit[u];
                const std::string s = where == 0 ? r + "1.2.3.4" : where == 1 ? "1.2." + r + "3.4" : "1.2.3.4" + r;
                c.state(mc::hash(s));
                check(c, s);
            }
}
MC_SPACE(all_addresses, "thorough: the canonical text of every one of the 2^32 addresses") {
    if (!c.thorough()) return;
    static char t[256][4];
    static int l[256];
    for (int i = 0; i < 256; ++i) l[i] = std::snprintf(t[i], 4, "%d", i);
    c.range(uint64_t(1) << 32, 65536, [&](uint64_t i) {
        char b[16];
        int n = 0;
        for (int p = 3; p >= 0; --p) {
            const unsigned o = unsigned(i >> (8 * p)) & 255;
            std::memcpy(b + n, t[o], l[o]); n += l[o];
            if (p) b[n++] = '.';
        }
        error_code e = error_code::no_error;
#if __cplusplus >= 201703L
        const ipv4_address a = ipv4_address::parse(std::string_view(b, n), e);
#else
        const ipv4_address a = ipv4_address::parse(std::string(b, n), e);
#endif
        c.fresh();
        MC_CHECK(e == error_code::no_error && a.to_uint() == uint32_t(i), "ipv4_address::parse(" + Q(std::string(b, n)) + ") = " + S(a) + ", " + S(e));
    });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
