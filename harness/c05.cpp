// C05: every failure is reported the same way through every error channel, the code names a defect
// the input has, a success clears it, and a failed call yields a default object.
#include "lib.hpp"
#include <set>

enum { CODES = int(error_code::wrong_encoding_sequence) + 1 };

// ---- message templates, '#' stands for a number, '$' for the input, '@' for the first symbol that is not ASCII
static const char* const message[CODES] = { 0, "address cannot be empty", "empty mask in address $", "is not a valid netmask in address $", "netmask pattern mixes zeroes & ones in address $", "has host bits set in address $", "only one '/' permitted in address $",
    "input string is too long $", "empty octet # in address $", "expected 4 octets in $", "leading zeros are not permitted in octet # of address $", "in octet # of address $ more 3 characters", "in octet # of address $ has invalid symbol", "octet # of address $ exceeded 255",
    "least 3 parts in address $", "most 8 colons permitted in address $", "in part # of address $ more 4 characters", "in part # of address $ has invalid symbols", "at most one '::' permitted in address $", "at leading ':' only permitted as part of '::' in address $",
    "at trailing ':' only permitted as part of '::' in address $", "expected at most 7 other parts with '::' in address $", "exactly 8 parts expected without '::' in address $", "scope id is too long in address $", "invalid scope id in address $",
    "versions don't match", "invalid prefixlen_diff", "new prefix must be shorter", "new prefix must be longer", "cannot set prefixlen_diff and new_prefix", "network is not a subnet of other", "unexpected next unicode symbol @ in string $", "incorrect sequence of bytes in unicode encoding for string $" };

static bool logic(error_code e) { return e >= error_code::invalid_version && e <= error_code::not_contained_network; }

static std::string first_symbol; // as a message spells it
static bool matches(const std::string& what, const char* t, const std::string& input) {
    size_t i = 0;
    for (; *t; ++t) {
        if (*t == '#') { const size_t b = i; while (i < what.size() && what[i] >= '0' && what[i] <= '9') ++i; if (i == b) return false; }
        else if (*t == '@') { if (first_symbol.empty() || what.compare(i, first_symbol.size(), first_symbol) != 0) return false; i += first_symbol.size(); }
        else if (*t == '$') { if (what.compare(i, input.size(), input) != 0) return false; i += input.size(); }
        else { if (i >= what.size() || what[i] != *t) return false; ++i; }
    }
    return i == what.size();
}
static std::string named(const std::string& s) { // how a message spells the input
    std::string r = s.substr(0, s.find('\0'));
    if (s.size() > 100 && s.find('\0') > 100) r = s.substr(0, 100) + "...";
    return r;
}

// ---- the defects a text has
typedef std::set<int> codes;
static bool ascii(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if ((unsigned char) s[i] > 127) return false; return true; }

static void defects4(const std::string& s, codes& d) {
    if (s.empty()) { d.insert(int(error_code::empty_address)); return; }
    const std::vector<std::string> p = ref::split<std::string>(s, '.');
    if (p.size() != 4) d.insert(int(error_code::expected_4_octets));
    for (size_t i = 0; i < p.size(); ++i) {
        if (p[i].empty()) { d.insert(int(error_code::empty_octet)); continue; }
        size_t n = 0;
        unsigned long long v = 0;
        while (n < p[i].size() && ref::digit(char32_t((unsigned char) p[i][n]))) { if (v < 1000000) v = v * 10 + unsigned(p[i][n] - '0'); ++n; }
        if (n < p[i].size()) d.insert(int(error_code::octet_has_invalid_symbol));
        if (n > 1 && p[i][0] == '0') d.insert(int(error_code::leading_0_are_not_permitted));
        if (n > 3) d.insert(int(error_code::octet_more_3_characters));
        if (v > 255) d.insert(int(error_code::octet_exceeded_255));
    }
}
static void defects6(const std::string& full, codes& d) {
    if (full.empty()) { d.insert(int(error_code::empty_address)); return; }
    const size_t pc = full.find('%');
    const std::string t = full.substr(0, pc);
    if (pc != std::string::npos) {
        const std::string sc = full.substr(pc + 1);
        if (sc.size() > ref::SCOPE_MAX) d.insert(int(error_code::scope_id_is_too_long));
        bool bad = sc.empty();
        for (size_t i = 0; i < sc.size(); ++i) bad = bad || ref::bad_scope_char(char32_t((unsigned char) sc[i]));
        if (bad) d.insert(int(error_code::invalid_scope_id));
    }
    const std::vector<std::string> p = ref::split<std::string>(t, ':');
    size_t n = p.size(), doubles = 0;
    const bool v4 = p.back().find('.') != std::string::npos;
    if (v4) { ++n; defects4(p.back(), d); }
    for (size_t i = 0; i + 1 < t.size(); ++i) if (t[i] == ':' && t[i + 1] == ':') ++doubles;
    if (n < 3) d.insert(int(error_code::least_3_parts));
    if (doubles > 1) d.insert(int(error_code::most_one_double_colon_permitted));
    size_t filled = v4 ? 1 : 0, colons = 0;
    for (size_t i = 0; i < t.size(); ++i) colons += t[i] == ':';
    for (size_t i = 0; i < p.size(); ++i) {
        if (!p[i].empty()) ++filled;
        const bool tail = v4 && i + 1 == p.size();
        if (p[i].size() > (tail ? 15u : 4u)) d.insert(int(error_code::part_is_more_4_chars));
        if (!tail) for (size_t k = 0; k < p[i].size(); ++k) if (ref::xdigit(char32_t((unsigned char) p[i][k])) < 0) d.insert(int(error_code::part_has_invalid_symbol));
        if (tail && p[i].find('\0') != std::string::npos) d.insert(int(error_code::part_has_invalid_symbol));
    }
    if (doubles && filled > 7) d.insert(int(error_code::expected_at_most_7_other_parts_with_double_colon));
    const bool many = doubles == 1 ? filled > 7 : n > 8; // the address does not fit
    if (many || colons > 8) {
        d.insert(int(error_code::most_8_colons_permitted));
        if (t[0] == ':') d.insert(int(error_code::leading_colon_only_permitted_as_part_of_double_colon));
        if (t[t.size() - 1] == ':') d.insert(int(error_code::trailing_colon_only_permitted_as_part_of_double_colon));
    }
    if (doubles > 1 && n > 9) d.insert(int(error_code::expected_at_most_7_other_parts_with_double_colon));
    if (!doubles && n != 8) d.insert(int(error_code::exactly_8_parts_expected_without_double_colon));
    if (t.size() && t[0] == ':' && (t.size() < 2 || t[1] != ':')) d.insert(int(error_code::leading_colon_only_permitted_as_part_of_double_colon));
    if (t.size() && t[t.size() - 1] == ':' && (t.size() < 2 || t[t.size() - 2] != ':')) d.insert(int(error_code::trailing_colon_only_permitted_as_part_of_double_colon));
    if (t.size() > 2 && doubles > 1) { // ":::" also is a leading or trailing colon that belongs to no '::'
        if (t.compare(0, 2, "::") == 0) d.insert(int(error_code::leading_colon_only_permitted_as_part_of_double_colon));
        if (t.compare(t.size() - 2, 2, "::") == 0) d.insert(int(error_code::trailing_colon_only_permitted_as_part_of_double_colon));
    }
}
static void defects_net(int V, const std::string& s, bool strict, codes& d) {
    const size_t sl = s.find('/');
    std::string a = s.substr(0, sl);
    if (V == 4) defects4(a, d); else defects6(a, d);
    const bool address_ok = d.empty();
    if (sl == std::string::npos) return;
    const std::string m = s.substr(sl + 1);
    if (m.empty()) d.insert(int(error_code::empty_netmask));
    if (m.find('/') != std::string::npos) { d.insert(int(error_code::only_one_slash_permitted)); if (m.size() > 0 && m[m.size() - 1] == '/') d.insert(int(error_code::only_one_slash_permitted)); }
    int p = -1;
    if (!ref::parse_mask(V, ref::widen(m), p)) {
        uint32_t v;
        if (V == 4 && ref::parse4(ref::widen(m), v)) d.insert(int(error_code::netmask_pattern_mixes_zeroes_and_ones));
        else d.insert(int(error_code::invalid_netmask));
    } else if (address_ok && strict) {
        ref::addr x(4, 0);
        if (V == 4) { uint32_t v = 0; ref::parse4(ref::widen(a), v); x.value = v; } else ref::parse6(ref::widen(a), x);
        if (x.value & ref::hostmask(V, p)) d.insert(int(error_code::has_host_bits_set));
    }
}

// ---- channel agreement
struct Seen { bool threw; int cls; error_code code; std::string what; };

template <typename X, typename F>
static Seen thrown(const F& f, X& out) {
    Seen s = { false, 0, error_code::no_error, "" };
#if MC_EXC
    try { out = f(); }
    catch (const ip::parse_error& e) { s.threw = true; s.cls = 1; s.code = e.code(); s.what = e.what(); }
    catch (const ip::logic_error& e) { s.threw = true; s.cls = 2; s.code = e.code(); s.what = e.what(); }
    catch (const ip::error& e) { s.threw = true; s.cls = 3; s.code = e.code(); s.what = e.what(); }
#else
    out = f();
#endif
    return s;
}

// what a failed call leaves behind: a default object, whose version is left open for version-agnostic types
template <typename X> static bool blank(const X& x, const X& dflt) { return x == dflt; }
static bool blank(const ip_address& x, const ip_address&) { return x.to_uint128() == 0 && !x.get_scope_id(); }
static bool blank(const ip_network& x, const ip_network&) { return x.network_address().to_uint128() == 0; }

template <typename X, typename F, typename G>
static error_code agree(mc::Ctx& c, const F& coded, const G& throwing, const std::string& op, const std::string& input, const X& dflt) {
    error_code e = error_code::no_error;
    const X x = coded(e);
    X y = dflt;
    const Seen s = thrown(throwing, y);
#if MC_EXC
    MC_CHECK(s.threw == (e != error_code::no_error), op + (s.threw ? " throws code " + mc::num(int(s.code)) + " but the error code is " : " does not throw but the error code is ") + S(e));
    if (s.threw) {
        MC_CHECK(s.code == e, op + " throws " + S(s.code) + ", error code " + S(e));
        MC_CHECK(s.cls == (logic(e) ? 2 : 1), op + " exception class for " + S(e));
        if (int(e) < CODES && message[int(e)]) MC_CHECK(matches(s.what, message[int(e)], named(input)), op + " message " + Q(s.what));
    }
#endif
    if (e != error_code::no_error) {
        MC_CHECK(int(e) > 0 && int(e) < CODES, op + " undocumented error " + S(e));
        MC_CHECK(blank(x, dflt), op + " fails with " + S(e) + " but its result is not a default object");
        MC_CHECK(blank(y, dflt), op + " fails but the result of the other channel is not a default object");
    } else {
        MC_CHECK(x == y, op + " results differ between channels");
    }
    // the outcome does not depend on what the code held before
    static const int prior[] = { 1, 5, 14, 18, 25, 31, 32 };
    for (int i = 0; i < 7; ++i) {
        error_code q = error_code(prior[i]);
        const X z = coded(q);
        MC_CHECK(q == e, op + " with " + S(error_code(prior[i])) + " before gives " + S(q) + " instead of " + S(e));
        MC_CHECK(z == x, op + " depends on the previous error code");
    }
    return e;
}
static void member(mc::Ctx& c, const std::string& op, error_code e, const codes& d) {
    if (e == error_code::no_error) MC_CHECK(d.empty(), op + " accepted");
    else MC_CHECK(d.count(int(e)) == 1, op + " reports " + S(e) + ", which is not a defect of the text");
}

template <typename A> struct ParseC { std::string s; A operator()(error_code& e) const { return parse_code<A>(s, e); } };
template <typename A> struct ParseT { std::string s; A operator()() const { return A::parse(s); } };
template <typename N> struct NetC { std::string s; bool k; N operator()(error_code& e) const { return parse_net_code<N>(s, k, e); } };
template <typename N> struct NetT { std::string s; bool k; N operator()() const { return N::parse(s, k); } };

static void address(mc::Ctx& c, const std::string& s) {
    const bool known = ascii(s);
    const ParseC<ipv4_address> c4 = { s }; const ParseT<ipv4_address> t4 = { s };
    const error_code e4 = agree(c, c4, t4, "ipv4_address::parse(" + Q(s) + ")", s, ipv4_address());
    const ParseC<ipv6_address> c6 = { s }; const ParseT<ipv6_address> t6 = { s };
    const error_code e6 = agree(c, c6, t6, "ipv6_address::parse(" + Q(s) + ")", s, ipv6_address());
    const ParseC<ip_address> ca = { s }; const ParseT<ip_address> ta = { s };
    const error_code ea = agree(c, ca, ta, "ip_address::parse(" + Q(s) + ")", s, ip_address());
    MC_CHECK(ea == (e4 == error_code::no_error ? e4 : e6), "ip_address::parse(" + Q(s) + ") " + S(ea) + " but as IPv6 " + S(e6));
    if (!known) return;
    codes d4, d6;
    defects4(s, d4); defects6(s, d6);
    member(c, "ipv4_address::parse(" + Q(s) + ")", e4, d4);
    member(c, "ipv6_address::parse(" + Q(s) + ")", e6, d6);
    if (c.wants_sample()) c.sample(Q(s) + " IPv4 " + S(e4) + ", IPv6 " + S(e6));
}
static void network(mc::Ctx& c, const std::string& s, bool strict) {
    const std::string k = strict ? "(" + Q(s) + ", strict)" : "(" + Q(s) + ", not strict)";
    const NetC<ipv4_network> c4 = { s, strict }; const NetT<ipv4_network> t4 = { s, strict };
    const error_code e4 = agree(c, c4, t4, "ipv4_network::parse" + k, s, ipv4_network());
    const NetC<ipv6_network> c6 = { s, strict }; const NetT<ipv6_network> t6 = { s, strict };
    const error_code e6 = agree(c, c6, t6, "ipv6_network::parse" + k, s, ipv6_network());
    const NetC<ip_network> ca = { s, strict }; const NetT<ip_network> ta = { s, strict };
    const error_code ea = agree(c, ca, ta, "ip_network::parse" + k, s, ip_network());
    MC_CHECK(ea == (e4 == error_code::no_error ? e4 : e6), "ip_network::parse" + k + " " + S(ea) + " but as IPv6 " + S(e6));
    if (!ascii(s)) return;
    codes d4, d6;
    defects_net(4, s, strict, d4); defects_net(6, s, strict, d6);
    if (s.empty()) return;
    member(c, "ipv4_network::parse" + k, e4, d4);
    member(c, "ipv6_network::parse" + k, e6, d6);
}
static void all(mc::Ctx& c, const std::string& s) { address(c, s); network(c, s, true); network(c, s, false); }

MC_SPACE(short_texts, "every text of length 0..5 (thorough 6) over {1,0,a,.,:,%,/,x,NUL}: addresses and networks of both versions and version-agnostic, both channels, seven prior codes") {
    en::strings(c, std::string("10a.:%/x\0", 9), 0, int(c.bound(5, 6, 4)), [&](const std::string& s) { all(c, s); });
}
MC_SPACE(octet_shapes, "every sequence of four octets of 14 kinds") {
    static const char* t[] = { "", "0", "1", "01", "255", "256", "999", "1000", "x", "1x", "x1", "00", "0x1", "25500" };
    const uint64_t k = uint64_t(c.bound(14, 14, 7));
    c.range(k * k * k * k, 64, [&](uint64_t i) {
        std::string s;
        for (int p = 0; p < 4; ++p) { s += (p ? "." : "") + std::string(t[i % k]); i /= k; }
        c.fresh();
        address(c, s);
        if (i % 7 == 0) network(c, s + "/8", true);
    });
}
MC_SPACE(group_shapes, "0..9 groups, separators of five kinds, 0..9 groups, tails and scope ids, one group of eight kinds at every position") {
    static const char* sep[] = { ":", "::", "", ":::", "::1::" };
    static const char* g[] = { "1", "", "abcd", "12345", "g", "1.2", "00000", " " };
    static const char* t[] = { "", "1.2.3.4", "1.2.3", "1.2.3.256", "1.2.3.4:5", "01.2.3.4", "111111111111.2.3.4" };
    static const char* sc[] = { "", "%1", "%", "%abcdefghijklmnopq", "%a b" };
    for (int l = 0; l <= 9; ++l) for (int r = 0; r <= 9; ++r) for (int d = 0; d < 5; ++d) {
        const int n = l + r;
        if (c.reduced() && (l + r) % 3) continue;
        c.range(uint64_t(n ? n * 8 : 1) * 7 * 5, 32, [&](uint64_t i) {
            const int x = int(i % 5); i /= 5;
            const int y = int(i % 7); i /= 7;
            const int pos = n ? int(i % n) : 0, k = n ? int(i / n) : 0;
            if (!c.thorough() && pos > 2 && pos + 2 < n && k) return;
            if (!c.thorough() && x > 0 && y > 0 && k > 0) return;
            std::string a, b;
            for (int q = 0; q < l; ++q) a += (q ? ":" : "") + std::string(q == pos ? g[k] : "a");
            for (int q = 0; q < r; ++q) b += (q ? ":" : "") + std::string(l + q == pos ? g[k] : "b");
            if (y && r) b += ":";
            c.fresh();
            address(c, a + sep[d] + b + t[y] + sc[x]);
        });
    }
}
MC_SPACE(network_shapes, "address parts x mask parts of every shape, strict and not") {
    static const char* a[] = { "", "1.2.3.4", "0.0.0.0", "10.0.0.0", "1.2.3", "1.2.3.256", "::", "::1", "2001:db8::", "1:2", "fe80::%1", "fe80::%", "1:2:3:4:5:6:7:8", "g::", "x", "255.255.255.255.255", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255%abcdefghijklmnop" };
    static const char* m[] = { "", "/", "/0", "/8", "/32", "/33", "/128", "/129", "/x", "/8x", "/x8", "/255.0.0.0", "/0.0.0.255", "/255.0.255.0", "/255.0.0", "/256.0.0.0", "/0.0.0.0", "//", "/8/", "/8/8", "//8", "/ffff::", "/99999999999999999999", "/-1", "/ 8" };
    for (size_t i = 0; i < sizeof a / sizeof *a; ++i) for (size_t k = 0; k < sizeof m / sizeof *m; ++k) {
        if (!c.take()) continue;
        const std::string s = std::string(a[i]) + m[k];
        c.state(mc::hash(s));
        network(c, s, true); network(c, s, false);
    }
}
static const char* seeds[] = { "1.2.3.4", "1:2:3:4:5:6:7:8", "2001:db8::1", "fe80::1%eth0", "::ffff:1.2.3.4", "10.0.0.0/8", "2001:db8::/32", "0.0.0.0/255.0.0.0" };
MC_SPACE(one_edit, "every text one edit (any of 256 characters) from eight seeds") {
    const std::string all256 = en::bytes_upto(256);
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k)
        en::edits(std::string(seeds[k]), all256, [&](const std::string& s) {
            if (c.reduced() && mc::hash(s) % 5) return;
            if (c.take()) { c.state(mc::hash(s)); all(c, s); }
        });
}
MC_SPACE(lengths, "failing texts of every length 0..300 and 65520..65550 (message truncation)") {
    for (int n = 0; n <= 65550; n = n == 300 ? 65520 : n + 1) for (int k = 0; k < 6; ++k) {
        static const char* u[] = { "1", "a", ".", ":", "1.", "x:" };
        if (!c.take()) continue;
        std::string s;
        while (int(s.size()) < n) s += u[k];
        s.resize(n);
        c.state(mc::hash(s));
        all(c, s);
        all(c, "1.2.3.4/" + s);
        all(c, "::%" + s);
    }
}

// wide texts: same codes, same messages
template <typename Ch>
static void wide(mc::Ctx& c, const std::string& s) {
    const std::basic_string<Ch> w(s.begin(), s.end());
    struct Cd { const std::basic_string<Ch>* w; ipv6_address operator()(error_code& e) const { return ipv6_address::parse(*w, e); } } cd = { &w };
    struct Th { const std::basic_string<Ch>* w; ipv6_address operator()() const { return ipv6_address::parse(*w); } } th = { &w };
    agree(c, cd, th, "wide ipv6_address::parse(" + Q(s) + ")", s, ipv6_address());
    struct C4 { const std::basic_string<Ch>* w; ipv4_address operator()(error_code& e) const { return ipv4_address::parse(*w, e); } } c4 = { &w };
    struct T4 { const std::basic_string<Ch>* w; ipv4_address operator()() const { return ipv4_address::parse(*w); } } t4 = { &w };
    agree(c, c4, t4, "wide ipv4_address::parse(" + Q(s) + ")", s, ipv4_address());
    struct CN { const std::basic_string<Ch>* w; ip_network operator()(error_code& e) const { return ip_network::parse(*w, e); } } cn = { &w };
    struct TN { const std::basic_string<Ch>* w; ip_network operator()() const { return ip_network::parse(*w); } } tn = { &w };
    agree(c, cn, tn, "wide ip_network::parse(" + Q(s) + ")", s, ip_network());
    struct CA { const std::basic_string<Ch>* w; ip_address operator()(error_code& e) const { return ip_address::parse(*w, e); } } ca = { &w };
    struct TA { const std::basic_string<Ch>* w; ip_address operator()() const { return ip_address::parse(*w); } } ta = { &w };
    agree(c, ca, ta, "wide ip_address::parse(" + Q(s) + ")", s, ip_address());
    struct CS { const std::basic_string<Ch>* w; ipv6_address operator()(error_code& e) const { ipv6_address a; a.set_scope_id(*w, e); return a; } } cs = { &w };
    struct TS { const std::basic_string<Ch>* w; ipv6_address operator()() const { ipv6_address a; a.set_scope_id(*w); return a; } } ts = { &w };
    agree(c, cs, ts, "wide set_scope_id(" + Q(s) + ")", s, ipv6_address());
}
MC_SPACE(encodings, "every text of length 0..4 over eight characters and one edit from eight seeds, in wide, UTF-16 and UTF-32 (and UTF-8 where the language has it): same codes and messages") {
    const std::string sig("1a.:%/x\0", 8);
    en::strings(c, sig, 0, int(c.bound(4, 5, 3)), [&](const std::string& s) { wide<wchar_t>(c, s); wide<char16_t>(c, s); wide<char32_t>(c, s); wide<char>(c, s); });
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k)
        en::edits(std::string(seeds[k]), sig, [&](const std::string& s) { if (c.take()) { c.state(mc::hash(s)); wide<wchar_t>(c, s); wide<char16_t>(c, s); wide<char32_t>(c, s); wide<char>(c, s);
#if __cpp_char8_t >= 201811L
            wide<char8_t>(c, s);
#endif
        } });
}
// ---- symbols that are not ASCII
static std::string spelled(uint32_t u) {
    static const char* x = "0123456789abcdef";
    if (u < 0x80) return std::string(1, char(u));
    std::string r;
    for (; u || r.size() < 4; u >>= 4) r.insert(r.begin(), x[u & 15]);
    return "{U+" + r + "}";
}
static void put(std::basic_string<char32_t>& s, uint32_t u) { s += char32_t(u); }
static void put(std::wstring& s, uint32_t u) { s += wchar_t(u); }
static void put(std::basic_string<char16_t>& s, uint32_t u) {
    if (u < 0x10000) s += char16_t(u); else { s += char16_t(0xD800 + ((u - 0x10000) >> 10)); s += char16_t(0xDC00 + ((u - 0x10000) & 1023)); }
}
#if __cpp_char8_t >= 201811L
static void put(std::basic_string<char8_t>& s, uint32_t u) {
    if (u < 0x80) s += char8_t(u);
    else if (u < 0x800) { s += char8_t(0xC0 | u >> 6); s += char8_t(0x80 | (u & 63)); }
    else if (u < 0x10000) { s += char8_t(0xE0 | u >> 12); s += char8_t(0x80 | (u >> 6 & 63)); s += char8_t(0x80 | (u & 63)); }
    else { s += char8_t(0xF0 | u >> 18); s += char8_t(0x80 | (u >> 12 & 63)); s += char8_t(0x80 | (u >> 6 & 63)); s += char8_t(0x80 | (u & 63)); }
}
#endif
template <typename Ch, typename X, typename P>
static void symbol_parse(mc::Ctx& c, const std::basic_string<Ch>& w, const std::string& shown, const char* op, bool must) {
    struct Cd { const std::basic_string<Ch>* w; X operator()(error_code& e) const { return P::code(*w, e); } } cd = { &w };
    struct Th { const std::basic_string<Ch>* w; X operator()() const { return P::thrown(*w); } } th = { &w };
    const error_code e = agree(c, cd, th, op + ("(" + shown + ")"), shown, X());
    MC_CHECK(must ? e == error_code::unexpected_symbol : e != error_code::no_error, op + ("(" + shown + ") gives ") + S(e));
}
template <typename X> struct Parse {
    template <typename T> static X code(const T& t, error_code& e) { return X::parse(t, e); }
    template <typename T> static X thrown(const T& t) { return X::parse(t); }
};
struct SetScope {
    template <typename T> static ipv6_address code(const T& t, error_code& e) { ipv6_address a; a.set_scope_id(t, e); return a; }
    template <typename T> static ipv6_address thrown(const T& t) { ipv6_address a; a.set_scope_id(t); return a; }
};
template <typename Ch>
static void symbols(mc::Ctx& c, const std::vector<uint32_t>& t, bool must, bool all) {
    std::basic_string<Ch> w;
    std::string shown;
    first_symbol.clear();
    for (size_t i = 0; i < t.size(); ++i) { put(w, t[i]); shown += spelled(t[i]); if (first_symbol.empty() && t[i] > 127) first_symbol = spelled(t[i]); }
    symbol_parse<Ch, ipv6_address, Parse<ipv6_address> >(c, w, shown, "ipv6_address::parse", must);
    if (!all) return;
    symbol_parse<Ch, ipv4_address, Parse<ipv4_address> >(c, w, shown, "ipv4_address::parse", must);
    symbol_parse<Ch, ip_address, Parse<ip_address> >(c, w, shown, "ip_address::parse", must);
    symbol_parse<Ch, ip_network, Parse<ip_network> >(c, w, shown, "ip_network::parse", must);
    symbol_parse<Ch, ipv6_address, SetScope>(c, w, shown, "set_scope_id", must);
}
static void symbols(mc::Ctx& c, const std::vector<uint32_t>& t, bool must, bool all) {
    symbols<char32_t>(c, t, must, all); symbols<wchar_t>(c, t, must, all); symbols<char16_t>(c, t, must, all);
#if __cpp_char8_t >= 201811L
    symbols<char8_t>(c, t, must, all);
#endif
}
MC_SPACE(symbols, "texts with one or two of 22 symbols that are not ASCII, alone or inserted at or replacing every place of eight texts, and every code point alone (quick: every 61st): code, exact message, all encodings") {
    static const uint32_t u[] = { 0x80, 0xA0, 0xAA, 0xFF, 0x100, 0x103, 0x3FF, 0x661, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2007, 0xD55C, 0xD7FF, 0xE000, 0xFF11, 0xFFFF, 0x10000, 0x10348, 0xFFFFF, 0x10FFFF };
    for (size_t i = 0; i < 22; ++i) for (size_t j = 0; j < 23; ++j) {
        std::vector<uint32_t> t(1, u[i]);
        if (j < 22) t.push_back(u[j]);
        if (c.take()) { c.state(i * 23 + j); symbols(c, t, true, true); }
    }
    for (uint32_t p = 0x80; p < 0x110000; p += uint32_t(c.bound(61, 1, 4099))) {
        if (p >= 0xD800 && p < 0xE000) continue;
        if (c.take()) { c.state(p); symbols(c, std::vector<uint32_t>(1, p), true, false); }
    }
    static const char* const base[] = { "1.2.3.4", "1::2", "1::2%eth0", "1.2.3.4/24", "1::/64", "::ffff:1.2.3.4", "a", "" };
    for (size_t b = 0; b < 8; ++b) {
        const std::string s = base[b];
        for (size_t at = 0; at <= s.size(); ++at) for (int del = 0; del < 2; ++del) for (size_t i = 0; i < 22; ++i) {
            if (del && at == s.size()) continue;
            std::vector<uint32_t> t(s.begin(), s.end());
            if (del) t[at] = u[i]; else t.insert(t.begin() + long(at), u[i]);
            if (c.take()) { c.state(mc::hash(s) + at * 64 + i * 2 + unsigned(del)); symbols(c, t, false, true); }
        }
    }
}
MC_SPACE(arrays, "texts as character arrays: same outcome, code and message as strings, one edit from eight seeds") {
    const std::string sig("1a.:%/x", 7);
    for (size_t k = 0; k < sizeof seeds / sizeof *seeds; ++k)
        en::edits(std::string(seeds[k]), sig, [&](const std::string& s) {
            if (!c.take() || s.size() > 62) return;
            c.state(mc::hash(s));
            struct Buf { char b[64]; wchar_t w[64]; char16_t u[64]; };
            Buf b;
            std::memset(&b, 0, sizeof b);
            for (size_t i = 0; i < s.size(); ++i) { b.b[i] = s[i]; b.w[i] = s[i]; b.u[i] = char16_t(s[i]); }
#define ARR(TYPE, F) { struct C1 { Buf* b; TYPE operator()(error_code& e) const { return TYPE::parse(b->F, e); } } c1 = { &b }; struct T1 { Buf* b; TYPE operator()() const { return TYPE::parse(b->F); } } t1 = { &b }; \
            const error_code e = agree(c, c1, t1, "array " #TYPE "::parse(" + Q(s) + ")", s, TYPE()); error_code q = error_code::no_error; const TYPE x = TYPE::parse(s, q); MC_CHECK(q == e, "array " #TYPE "::parse(" + Q(s) + ") " + S(e) + " but as string " + S(q)); if (e == error_code::no_error) MC_CHECK(c1(q) == x, "array " #TYPE "::parse(" + Q(s) + ") value"); }
            ARR(ipv4_address, b) ARR(ipv6_address, b) ARR(ip_address, b) ARR(ipv4_network, b) ARR(ipv6_network, b) ARR(ip_network, b)
            ARR(ipv6_address, w) ARR(ip_network, u)
        });
}

// ---- operations on networks
template <typename N, typename A>
static void operations(mc::Ctx& c, const N& n, const N& other, const A& address, size_t diff, int np, size_t prefix, bool strict) {
    ip::optional<size_t> opt;
    if (np >= 0) opt = size_t(np);
    const std::string args = " of " + n.to_string() + " (" + mc::num(diff) + ", " + (np >= 0 ? mc::num(np) : "-") + ")";
    struct SC { const N* n; size_t d; ip::optional<size_t> o; N operator()(error_code& e) const { return n->supernet(e, d, o); } } sc = { &n, diff, opt };
    struct ST { const N* n; size_t d; ip::optional<size_t> o; N operator()() const { return n->supernet(d, o); } } st = { &n, diff, opt };
    agree(c, sc, st, "supernet" + args, "", N());
    struct First { // the observable part of a sequence
        N first; bool empty;
        bool operator==(const First& o) const { return empty == o.empty && (empty || first == o.first); }
    };
    const First none = { N(), true };
    struct BC { const N* n; size_t d; ip::optional<size_t> o; First operator()(error_code& e) const { const auto s = n->subnets(e, d, o); First f = { N(), s.empty() }; if (!f.empty) f.first = *s.begin(); return f; } } bc = { &n, diff, opt };
    struct BT { const N* n; size_t d; ip::optional<size_t> o; First operator()() const { const auto s = n->subnets(d, o); First f = { N(), s.empty() }; if (!f.empty) f.first = *s.begin(); return f; } } bt = { &n, diff, opt };
    agree(c, bc, bt, "subnets" + args, "", none);
    struct EC { const N* n; const N* o; First operator()(error_code& e) const { const auto s = n->address_exclude(*o, e); First f = { N(), s.begin() == s.end() }; if (!f.empty) f.first = *s.begin(); return f; } } ec = { &n, &other };
    struct ET { const N* n; const N* o; First operator()() const { const auto s = n->address_exclude(*o); First f = { N(), s.begin() == s.end() }; if (!f.empty) f.first = *s.begin(); return f; } } et = { &n, &other };
    agree(c, ec, et, "address_exclude of " + n.to_string() + " and " + other.to_string(), "", none);
    struct FC { const A* a; size_t p; bool k; N operator()(error_code& e) const { return N::from_address(*a, e, p, k); } } fc = { &address, prefix, strict };
    struct FT { const A* a; size_t p; bool k; N operator()() const { return N::from_address(*a, p, k); } } ft = { &address, prefix, strict };
    const std::string text = address.to_string();
    agree(c, fc, ft, "from_address(" + text + ", " + mc::num(prefix) + ")", text.substr(0, text.find('%')), N());
}
MC_SPACE(network_operations, "supernet, subnets, address_exclude and from_address: networks x arguments in and out of range, typed and version-agnostic, both channels and seven prior codes") {
    static const char* nets[] = { "0.0.0.0/0", "10.0.0.0/8", "255.255.255.254/31", "1.2.3.4/32", "128.0.0.0/1", "::/0", "2001:db8::/32", "::1/128", "ffff:ffff::/127", "8000::/1" };
    static const size_t diffs[] = { 0, 1, 2, 8, 31, 32, 33, 64, 127, 128, 129, size_t(-1), size_t(-8), size_t(1) << 32, size_t(1) << 63 };
    static const int np[] = { -1, 0, 1, 7, 8, 9, 31, 32, 33, 64, 127, 128, 129, 1000, 2147483647 };
    for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) for (int d = 0; d < 15; ++d) for (int p = 0; p < 15; ++p) {
        if (c.reduced() && (i + j + d + p) % 5) continue;
        if (!c.take()) continue;
        c.state(mc::comb(mc::comb(i, j), mc::comb(d, p)));
        error_code e;
        const ip_network a = ip_network::parse(std::string(nets[i]), e), b = ip_network::parse(std::string(nets[j]), e);
        const size_t prefix = np[p] < 0 ? diffs[d] : size_t(np[p]);
        if (i < 5 && j < 5) operations(c, a.v4().value(), b.v4().value(), b.v4().value().broadcast_address(), diffs[d], np[p], prefix, d % 2);
        if (i >= 5 && j >= 5) operations(c, a.v6().value(), b.v6().value(), b.v6().value().broadcast_address(), diffs[d], np[p], prefix, d % 2);
        operations(c, a, b, b.broadcast_address(), diffs[d], np[p], prefix, d % 2);
    }
}
MC_SPACE(scope_ids, "set_scope_id through every channel: every text of length 0..3 over 64 characters and every length 0..40, typed and version-agnostic") {
    std::string al;
    for (int i = 0; i < 64; ++i) al += char(i * 2 + 1 > 126 ? 0 : i * 2 + (i & 1));
    al += "%/ :";
    const auto one = [&](const std::string& s) {
        struct C6 { const std::string* s; ipv6_address operator()(error_code& e) const { ipv6_address a; a.set_scope_id(*s, e); return a; } } c6 = { &s };
        struct T6 { const std::string* s; ipv6_address operator()() const { ipv6_address a; a.set_scope_id(*s); return a; } } t6 = { &s };
        const error_code e = agree(c, c6, t6, "set_scope_id(" + Q(s) + ")", s, ipv6_address());
        struct CA { const std::string* s; ip_address operator()(error_code& e) const { ip_address a = ipv6_address(); a.set_scope_id(*s, e); return a; } } ca = { &s };
        struct TA { const std::string* s; ip_address operator()() const { ip_address a = ipv6_address(); a.set_scope_id(*s); return a; } } ta = { &s };
        MC_CHECK(agree(c, ca, ta, "ip_address::set_scope_id(" + Q(s) + ")", s, ip_address(ipv6_address())) == e, "ip_address::set_scope_id(" + Q(s) + ") code");
        bool bad = false;
        for (size_t i = 0; i < s.size(); ++i) bad = bad || ref::bad_scope_char(char32_t((unsigned char) s[i]));
        if (e == error_code::scope_id_is_too_long) MC_CHECK(s.size() > ref::SCOPE_MAX, "set_scope_id(" + Q(s) + ") " + S(e));
        else if (e == error_code::invalid_scope_id) MC_CHECK(bad, "set_scope_id(" + Q(s) + ") " + S(e));
        else MC_CHECK(e == error_code::no_error && !bad && s.size() <= ref::SCOPE_MAX, "set_scope_id(" + Q(s) + ") " + S(e));
    };
    en::strings(c, al, 0, int(c.bound(2, 3, 2)), one);
    for (int n = 0; n <= 40; ++n) for (int k = 0; k < 3; ++k) if (c.take()) { const std::string s(n, k == 0 ? 'a' : k == 1 ? '7' : '%'); c.state(mc::hash(s)); one(s); }
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
