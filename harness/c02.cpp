// C02: IPv6 text is accepted exactly when RFC 4291 allows it, with its value and scope id.
#include "lib.hpp"

static bool outside(const std::string& s) { // raw bytes beyond ASCII in a narrow scope id: their meaning is the platform's
    const size_t p = s.find('%');
    if (p != std::string::npos) for (size_t i = p; i < s.size(); ++i) if ((unsigned char) s[i] > 127) return true;
    return false;
}
static void check(mc::Ctx& c, const std::string& s) {
    if (outside(s)) return;
    ref::addr want;
    const bool ok = ref::parse6(ref::widen(s), want);
    error_code e = error_code::no_error;
    const ipv6_address a = parse_code<ipv6_address>(s, e);
    MC_CHECK((e == error_code::no_error) == ok, "ipv6_address::parse(" + Q(s) + ") " + (ok ? "rejected, " + S(e) : "accepted as " + S(a)));
    if (!ok) want = ref::addr(6, 0);
    MC_CHECK(to_ref(a) == want, "ipv6_address::parse(" + Q(s) + ") = " + S(a) + ", expected " + S(want));
    if (ok) {
        const uint8_t* b = a.data();
        bool same = true;
        for (int i = 0; i < 16; ++i) same = same && b[i] == uint8_t(want.value >> (120 - 8 * i));
        MC_CHECK(same, "bytes of " + Q(s));
    }
    uint32_t v4 = 0;
    const bool is4 = ref::parse4(ref::widen(s), v4);
    e = error_code::no_error;
    const ip_address g = parse_code<ip_address>(s, e);
    MC_CHECK((e == error_code::no_error) == (ok || is4), "ip_address::parse(" + Q(s) + ") " + S(e));
    if (ok) MC_CHECK(to_ref(g) == want, "ip_address::parse(" + Q(s) + ") = " + S(g) + ", expected " + S(want));
    if (c.wants_sample()) c.sample(Q(s) + (ok ? " -> " + S(want) : " rejected"));
}

MC_SPACE(short_texts, "every text of length 0..7 (thorough 8) over {0,1,a,F,':','.','%',g}") {
    en::strings(c, std::string("01aF:.%g"), 0, int(c.bound(7, 8, 5)), [&](const std::string& s) { check(c, s); });
}
MC_SPACE(colons, "every text of length 0..20 (thorough 22) over {1,':'}, 0..12 (14) over {1,':','.'}, 0..12 (14) over {2,':',%}") {
    en::strings(c, std::string("1:"), 0, int(c.bound(20, 22, 17)), [&](const std::string& s) { check(c, s); });
    en::strings(c, std::string("1:."), 0, int(c.bound(12, 14, 9)), [&](const std::string& s) { check(c, s); });
    en::strings(c, std::string("2:%"), 0, int(c.bound(12, 14, 9)), [&](const std::string& s) { check(c, s); });
}
static const char* group[] = { "1", "0", "00", "ab", "FFFF", "0000", "00001", "10000", "g", "", " 1", "-1", "1.2" };
static const char* tail[] = { "", "1.2.3.4", "255.255.255.255", "0.0.0.0", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.256", "1..2.3", ".1.2.3", "1.2.3.4:5", "1.2.3.4:", "a.2.3.4", "1.2.3.4::" };
static const char* scope[] = { "", "%1", "%", "%eth0", "%abcdefghijklmnop", "%abcdefghijklmnopq", "%a%b", "% ", "%a/b", "%a\tb" };
MC_SPACE(shapes, "0..9 groups, a separator of 6 kinds, 0..9 groups, an embedded IPv4 part of 14 kinds, a scope id of 10 kinds, and at each position a group of 13 kinds") {
    static const char* sep[] = { ":", "::", "", ":::", "::1::", "." };
    const int G = int(c.bound(13, 13, 5));
    for (int l = 0; l <= 9; ++l) for (int r = 0; r <= 9; ++r)
        for (int d = 0; d < 6; ++d) {
            const int n = l + r;
            if (d >= 3 && (l > 3 || r > 3)) continue;
            c.range(uint64_t(n ? n * G : 1) * 14 * 10, 128, [&](uint64_t i) {
                const int sc = int(i % 10); i /= 10;
                const int tl = int(i % 14); i /= 14;
                const int pos = n ? int(i % n) : 0; const int g = n ? int(i / n) : 0;
                if (c.reduced() && tl > 3 && sc > 3) return;
                std::string a, b;
                for (int k = 0; k < l; ++k) a += (k ? ":" : "") + std::string(k == pos ? group[g] : group[k % 5]);
                for (int k = 0; k < r; ++k) b += (k ? ":" : "") + std::string(l + k == pos ? group[g] : group[k % 5]);
                if (tl && r) b += ":";
                c.fresh();
                check(c, a + sep[d] + b + tail[tl] + scope[sc]);
            });
        }
}
MC_SPACE(embedded_anywhere, "an embedded IPv4 part at every position of every group list with and without '::'") {
    static const char* t[] = { "1.2.3.4", "0.0.0.0", "255.0.255.1", "1.2.3", "1.2.3.04" };
    for (int n = 1; n <= 9; ++n) for (int p = 0; p < n; ++p) for (int dc = -1; dc <= n; ++dc) for (int k = 0; k < 5; ++k) for (int sc = 0; sc < 4; ++sc) {
        if (!c.take()) continue;
        std::string s;
        for (int i = 0; i < n; ++i) {
            if (dc == i) s += i ? "::" : "::"; else if (i) s += ":";
            s += i == p ? t[k] : "a";
        }
        if (dc == n) s += "::";
        s += scope[sc];
        c.state(mc::hash(s));
        check(c, s);
    }
}
MC_SPACE(group_values, "every 16-bit value in each of the eight groups, in four spellings, written out and after '::'") {
    const unsigned step = c.reduced() ? 37 : 1;
    c.range(65536 * 8 * 4 / (c.reduced() ? 1 : 1), 512, [&](uint64_t i) {
        const unsigned v = unsigned(i & 65535); i >>= 16;
        if (v % step) return;
        const int pos = int(i & 7); i >>= 3;
        std::string h = ref::base(v, 16);
        if (i & 1) while (h.size() < 4) h = "0" + h;
        if (i & 2) for (size_t k = 0; k < h.size(); ++k) h[k] = char(h[k] >= 'a' ? h[k] - 32 : h[k]);
        std::string s, t = "::";
        for (int k = 0; k < 8; ++k) s += (k ? ":" : "") + (k == pos ? h : ref::base(unsigned(k) * 0x1111 + 1, 16));
        for (int k = pos; k < 8 && pos; ++k) t += (k > pos ? ":" : "") + (k == pos ? h : std::string("c"));
        c.fresh();
        check(c, s);
        if (pos) check(c, t);
    });
}
MC_SPACE(group_patterns, "every sequence of eight groups of five values, and the same with every run of groups replaced by '::'") {
    static const char* v[] = { "0", "1", "ffff", "0a", "B0" };
    const uint64_t k = c.reduced() ? 2 : 5;
    uint64_t n = 1;
    for (int i = 0; i < 8; ++i) n *= k;
    c.range(n, 64, [&](uint64_t i) {
        const char* g[8];
        for (int p = 0; p < 8; ++p) { g[p] = v[i % k]; i /= k; }
        for (int from = 0; from <= 8; ++from) for (int len = 0; from + len <= 8; ++len) {
            std::string a, b;
            for (int p = 0; p < from; ++p) a += (p ? ":" : "") + std::string(g[p]);
            for (int p = from + len; p < 8; ++p) b += (p > from + len ? ":" : "") + std::string(g[p]);
            c.fresh();
            if (len == 0 && from == 0) check(c, b);
            else check(c, a + "::" + b);
        }
    });
}
MC_SPACE(embedded_octets, "every sequence of four octets of 24 kinds as the embedded part of seven addresses") {
    static const char* o[] = { "1", "0", "255", "00", "", "01", "256", "99", "100", "249", "260", "300", "12", "1000", "x", "1%", "-1", " 1", "\x80", "a", "0x1", "200", "199", "025" };
    static const char* pre[] = { "::", "::ffff:", "1:2:3:4:5:6:", "1::2:", "1:2:3:4:5::", "::1:2:3:4:5:", "1:2:3:4:5:6:7:" };
    const uint64_t k = c.reduced() ? 9 : 24;
    c.range(k * k * k * k * 7, 256, [&](uint64_t i) {
        std::string s = pre[i % 7]; i /= 7;
        for (int p = 0; p < 4; ++p) { s += (p ? "." : "") + std::string(o[i % k]); i /= k; }
        c.fresh();
        check(c, s);
    });
}
MC_SPACE(scope_texts, "every scope id of length 0..5 over twelve characters, every length 0..40, every ASCII character at every position of ids of length 1, 2, 15, 16, 17") {
    en::strings(c, std::string("a0Z%/ :.\t\0~-", 12), 0, int(c.bound(5, 6, 4)), [&](const std::string& s) { check(c, "fe80::1%" + s); });
    for (int n = 0; n <= 40; ++n) for (int k = 0; k < 3; ++k) for (int pre = 0; pre < 4; ++pre) {
        static const char* p[] = { "::", "1:2:3:4:5:6:7:8", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "1::" };
        if (!c.take()) continue;
        std::string s;
        for (int i = 0; i < n; ++i) s += k == 0 ? 'a' : k == 1 ? char('0' + i % 10) : char('A' + i % 26);
        s = p[pre] + std::string("%") + s;
        c.state(mc::hash(s));
        check(c, s);
    }
    static const int len[] = { 1, 2, 15, 16, 17 };
    for (int l = 0; l < 5; ++l) for (int p = 0; p < len[l]; ++p) for (int ch = 0; ch < 128; ++ch) {
        if (!c.take()) continue;
        std::string s(len[l], 'q');
        s[p] = char(ch);
        s = "fe80::1%" + s;
        c.state(mc::hash(s));
        check(c, s);
    }
}
static const char* seeds[] = { "::", "1:2:3:4:5:6:7:8", "2001:db8::1", "fe80::1%eth0", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "::%1", "1::", "ABCD:ef01::9:255.0.255.0%abcdefghijklmnop", "1.2.3.4", "::1/64" };
MC_SPACE(one_edit, "every text one edit (insert, replace with any of 256 characters, delete, swap, repeat, cut) from eleven seeds") {
    const std::string all = en::bytes_upto(256);
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k)
        en::edits(std::string(seeds[k]), all, [&](const std::string& s) { if (c.take()) { c.state(mc::hash(s)); check(c, s); } });
}
MC_SPACE(two_edits, "every text two edits from the first five (thorough nine) seeds, over eight significant characters") {
    if (c.reduced()) return;
    const std::string sig("01aG:.%/", 8);
    for (size_t k = 0; k < (c.thorough() ? 9u : 5u); ++k)
        en::edits(std::string(seeds[k]), sig, [&](const std::string& t) {
            en::edits(t, sig, [&](const std::string& s) { if (c.take()) { c.state(mc::hash(s)); check(c, s); } });
        });
}
MC_SPACE(long_texts, "runs of 0..300 and of 65516..65560 of ten units before, inside and after two addresses") {
    static const char* unit[] = { "0", "f", ":", "1:", ":1", "::", ".", "1.", "%", " " };
    static const char* base[] = { "1:2:3:4:5:6:7:8", "1::8" };
    for (int n = 0; n <= 65560; n = n == 300 ? 65516 : n + 1) for (size_t u = 0; u < 10; ++u) for (int where = 0; where < 6; ++where) {
        if (!c.take()) continue;
        std::string r, b = base[where & 1];
        for (int i = 0; i < n; ++i) r += unit[u];
        const std::string s = where / 2 == 0 ? r + b : where / 2 == 1 ? b.substr(0, 2) + r + b.substr(2) : b + r;
        c.state(mc::hash(s));
        check(c, s);
    }
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
