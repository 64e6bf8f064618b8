// Reference model of the documented semantics. Written from the documentation (RFC 4291, RFC 5952,
// RFC 3056, RFC 4380, the library's doc comments and Python's ipaddress module, whose behaviour the
// library documents as its own). Deliberately naive; shares no code with the library.
#ifndef REF_HPP
#define REF_HPP

#include <cstdint>
#include <string>
#include <vector>

namespace ref {

typedef unsigned __int128 u128;
typedef std::u32string text;      // code points

#if defined(IPADDRESS_NO_IPV6_SCOPE)
const unsigned SCOPE_MAX = 0;
#elif defined(MC_SCOPE_MAX)
const unsigned SCOPE_MAX = MC_SCOPE_MAX; // the configured IPADDRESS_IPV6_SCOPE_MAX_LENGTH
#else
const unsigned SCOPE_MAX = 16;
#endif
#ifdef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
const bool SCOPE_SPACES = true;
#else
const bool SCOPE_SPACES = false;
#endif

inline u128 mk(uint64_t hi, uint64_t lo) { return (u128(hi) << 64) | lo; }
inline uint64_t hi(u128 v) { return uint64_t(v >> 64); }
inline uint64_t lo(u128 v) { return uint64_t(v); }

inline text widen(const std::string& s) { text t; for (size_t i = 0; i < s.size(); ++i) t += char32_t((unsigned char) s[i]); return t; }
inline std::string narrow(const text& t) { std::string s; for (size_t i = 0; i < t.size(); ++i) s += char(t[i]); return s; }

template <typename S>
inline std::vector<S> split(const S& s, typename S::value_type d) {
    std::vector<S> r(1);
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) r.push_back(S()); else r.back() += s[i]; }
    return r;
}
inline bool digit(char32_t c) { return c >= '0' && c <= '9'; }
inline int xdigit(char32_t c) {
    if (c >= '0' && c <= '9') return int(c - '0');
    if (c >= 'a' && c <= 'f') return int(c - 'a') + 10;
    if (c >= 'A' && c <= 'F') return int(c - 'A') + 10;
    return -1;
}

// ---------------------------------------------------------------- addresses

struct addr {
    int version;          // 4 or 6
    u128 value;
    std::string scope;    // version 6 only
    addr() : version(4), value(0) {}
    addr(int v, u128 x, const std::string& s = std::string()) : version(v), value(x), scope(s) {}
    bool operator==(const addr& o) const { return version == o.version && value == o.value && scope == o.scope; }
    bool operator<(const addr& o) const {
        if (version != o.version) return version < o.version;
        if (value != o.value) return value < o.value;
        return scope < o.scope;
    }
};
inline int width(int version) { return version == 4 ? 32 : 128; }
inline u128 ones(int n) { return n <= 0 ? u128(0) : n >= 128 ? ~u128(0) : ((u128(1) << n) - 1); }
inline u128 all(int version) { return ones(width(version)); }
inline u128 hostmask(int version, int prefix) { return ones(width(version) - prefix); }
inline u128 netmask(int version, int prefix) { return all(version) & ~hostmask(version, prefix); }

inline bool parse4(const text& t, uint32_t& out) {
    const std::vector<text> p = split<text>(t, U'.');
    if (p.size() != 4) return false;
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) {
        const text& s = p[i];
        if (s.empty() || s.size() > 3) return false;
        unsigned o = 0;
        for (size_t k = 0; k < s.size(); ++k) { if (!digit(s[k])) return false; o = o * 10 + unsigned(s[k] - '0'); }
        if (s.size() > 1 && s[0] == '0') return false;
        if (o > 255) return false;
        v = v << 8 | o;
    }
    out = v;
    return true;
}

// Characters that cannot occur in a scope id: separators, white space, NUL. Whether characters
// beyond ASCII are let through depends on the encoding, so that is the caller's business.
inline bool bad_scope_char(char32_t c) { return c == 0 || c == '%' || c == '/' || (!SCOPE_SPACES && (c == ' ' || (c >= 9 && c <= 13))); }
inline bool valid_scope(const text& s) {
    if (s.empty() || s.size() > SCOPE_MAX) return false;
    for (size_t i = 0; i < s.size(); ++i) if (bad_scope_char(s[i])) return false;
    return true;
}

inline bool groups(const text& s, std::vector<unsigned>& out, bool allow_v4) {
    if (s.empty()) return true;
    const std::vector<text> p = split<text>(s, U':');
    for (size_t i = 0; i < p.size(); ++i) {
        if (allow_v4 && i + 1 == p.size() && p[i].find(U'.') != text::npos) {
            uint32_t v;
            if (!parse4(p[i], v)) return false;
            out.push_back(v >> 16); out.push_back(v & 0xFFFF);
            continue;
        }
        if (p[i].empty() || p[i].size() > 4) return false;
        unsigned g = 0;
        for (size_t k = 0; k < p[i].size(); ++k) { const int d = xdigit(p[i][k]); if (d < 0) return false; g = g * 16 + unsigned(d); }
        out.push_back(g);
    }
    return true;
}

inline bool parse6(const text& full, addr& out) {
    text t = full, scope;
    const size_t pc = full.find(U'%');
    if (pc != text::npos) {
        t = full.substr(0, pc);
        scope = full.substr(pc + 1);
        if (!valid_scope(scope)) return false;
    }
    std::vector<unsigned> a, b;
    const size_t dc = t.find(U"::");
    if (dc == text::npos) {
        if (t.empty() || !groups(t, a, true) || a.size() != 8) return false;
    } else {
        if (t.find(U"::", dc + 1) != text::npos) return false;   // ":::" or a second "::"
        const text l = t.substr(0, dc), r = t.substr(dc + 2);
        if (!groups(l, a, false) || !groups(r, b, true)) return false;
        if (a.size() + b.size() > 7) return false;
        while (a.size() + b.size() < 8) a.push_back(0);
        a.insert(a.end(), b.begin(), b.end());
    }
    u128 v = 0;
    for (int i = 0; i < 8; ++i) v = v << 16 | a[i];
    out = addr(6, v, narrow(scope));
    return true;
}

inline bool parse_any(const text& t, addr& out) {
    uint32_t v;
    if (parse4(t, v)) { out = addr(4, v); return true; }
    return parse6(t, out);
}

// ---------------------------------------------------------------- networks

struct net {
    int version;
    u128 address;
    int prefix;
    std::string scope;
    net() : version(4), address(0), prefix(32) {}
    net(int v, u128 a, int p, const std::string& s = std::string()) : version(v), address(a), prefix(p), scope(s) {}
    u128 first() const { return address; }
    u128 last() const { return address | hostmask(version, prefix); }
    bool has(u128 a) const { return a >= first() && a <= last(); }
    bool operator==(const net& o) const { return version == o.version && address == o.address && prefix == o.prefix && scope == o.scope; }
};

enum maskkind { mask_ok, mask_bad };

// the text after '/'
inline bool parse_mask(int version, const text& m, int& prefix) {
    if (m.empty()) return false;
    bool digits = true;
    for (size_t i = 0; i < m.size(); ++i) digits = digits && digit(m[i]);
    if (digits) {
        size_t i = 0;
        while (i + 1 < m.size() && m[i] == '0') ++i;
        if (m.size() - i > 3) return false;
        int p = 0;
        for (; i < m.size(); ++i) p = p * 10 + int(m[i] - '0');
        if (p > width(version)) return false;
        prefix = p;
        return true;
    }
    if (version == 6) return false;
    uint32_t v;
    if (!parse4(m, v)) return false;
    for (int p = 0; p <= 32; ++p) if (v == uint32_t(netmask(4, p))) { prefix = p; return true; }
    for (int p = 0; p <= 32; ++p) if (v == uint32_t(hostmask(4, p))) { prefix = p; return true; }
    return false;
}

inline bool make_net(const addr& a, int prefix, bool strict, net& out) {
    if (prefix < 0 || prefix > width(a.version)) return false;
    const u128 hm = hostmask(a.version, prefix);
    if (strict && (a.value & hm)) return false;
    // masking away host bits yields another address, which has no scope id
    out = net(a.version, a.value & ~hm, prefix, (a.value & hm) ? std::string() : a.scope);
    return true;
}

inline bool parse_net(int version, const text& t, bool strict, net& out) {
    const std::vector<text> p = split<text>(t, U'/');
    if (p.size() > 2) return false;
    addr a;
    if (version == 4) { uint32_t v; if (!parse4(p[0], v)) return false; a = addr(4, v); }
    else if (!parse6(p[0], a)) return false;
    int prefix = width(version);
    if (p.size() == 2 && !parse_mask(version, p[1], prefix)) return false;
    return make_net(a, prefix, strict, out);
}
inline bool parse_any_net(const text& t, bool strict, net& out) {
    return parse_net(4, t, strict, out) || parse_net(6, t, strict, out);
}

// ---------------------------------------------------------------- text

inline std::string dec(u128 v) { std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return s; }
inline std::string base(u128 v, unsigned b) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[unsigned(v % b)]); v /= b; } while (v); return s; }

inline std::string fmt4(uint32_t v) { return dec(v >> 24) + "." + dec(v >> 16 & 255) + "." + dec(v >> 8 & 255) + "." + dec(v & 255); }

// kind: 0 full, 1 compact, 2 compressed
inline std::string fmt6(u128 v, int kind) {
    unsigned g[8];
    std::string s[8];
    for (int i = 0; i < 8; ++i) {
        g[i] = unsigned(v >> (112 - 16 * i)) & 0xFFFF;
        s[i] = base(g[i], 16);
        if (kind == 0) while (s[i].size() < 4) s[i] = "0" + s[i];
    }
    int best = -1, len = 0;
    if (kind == 2)
        for (int i = 0; i < 8; ++i) {
            int n = 0;
            while (i + n < 8 && g[i + n] == 0) ++n;
            if (n >= 2 && n > len) { best = i; len = n; }
        }
    std::string r;
    if (best < 0) {
        for (int i = 0; i < 8; ++i) r += (i ? ":" : "") + s[i];
        return r;
    }
    for (int i = 0; i < best; ++i) r += (i ? ":" : "") + s[i];
    r += "::";
    for (int i = best + len; i < 8; ++i) r += (i > best + len ? ":" : "") + s[i];
    return r;
}
inline std::string fmt(const addr& a, int kind) {
    if (a.version == 4) return fmt4(uint32_t(a.value));
    return fmt6(a.value, kind) + (a.scope.empty() ? "" : "%" + a.scope);
}
inline std::string fmt(const net& n, int kind) { return fmt(addr(n.version, n.address, n.scope), kind) + "/" + dec(u128(n.prefix)); }

inline std::string reverse_pointer(const addr& a) {
    if (a.version == 4) {
        const uint32_t v = uint32_t(a.value);
        return dec(v & 255) + "." + dec(v >> 8 & 255) + "." + dec(v >> 16 & 255) + "." + dec(v >> 24) + ".in-addr.arpa";
    }
    std::string s;
    for (int i = 0; i < 32; ++i) { s += "0123456789abcdef"[unsigned(a.value >> (4 * i)) & 15]; s += '.'; }
    return s + "ip6.arpa";
}

inline std::string show(u128 v) { return "0x" + base(v, 16); }
inline std::string show(const text& t) {
    std::string s;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] >= 32 && t[i] < 127) s += char(t[i]);
        else s += "\\u{" + base(u128(t[i]), 16) + "}";
    }
    return "'" + s + "'";
}

} // namespace ref
#endif // REF_HPP
