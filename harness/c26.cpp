// C26: value semantics of addresses and networks under every sequence of copies, moves, swaps and changes.
#include "lib.hpp"
#include <algorithm>
#include <map>
#include <new>
#include <set>
#include <unordered_map>
#include <unordered_set>

static const char* const scope_ids[] = { "", "eth0", "7" };

static ipv6_network net6(const ref::net& n) { error_code e = error_code::no_error; return ipv6_network::from_address(lib6(n.address, n.scope), e, size_t(n.prefix)); }
static ipv4_network net4(const ref::net& n) { error_code e = error_code::no_error; return ipv4_network::from_address(lib4(uint32_t(n.address)), e, size_t(n.prefix)); }
static u128 v6(const char* s) { ref::addr a; ref::parse6(ref::widen(s), a); return a.value; }

struct Less {
    bool operator()(const ref::addr& a, const ref::addr& b) const { return a < b; }
    bool operator()(const ref::net& a, const ref::net& b) const {
        const ref::addr x(a.version, a.address, a.scope), y(b.version, b.address, b.scope);
        return x < y || (x == y && a.prefix < b.prefix);
    }
};
static uint64_t key(const ref::addr& a) { return mc::hash(S(a)); }
static uint64_t key(const ref::net& a) { return mc::hash(S(a)); }

static void add4(std::vector<ref::addr>& r) { r.push_back(ref::addr(4, 0)); r.push_back(ref::addr(4, 0x01020304)); r.push_back(ref::addr(4, 0x04030201)); r.push_back(ref::addr(4, 0xFFFFFFFFu)); }
static void add6(std::vector<ref::addr>& r) {
    r.push_back(ref::addr(6, 0)); r.push_back(ref::addr(6, v6("102:304::"), "eth0")); r.push_back(ref::addr(6, v6("102:304::"), "eth1")); r.push_back(ref::addr(6, v6("fe80::1"), "ABCDEFGHIJKLMNOP"));
    r.push_back(ref::addr(6, v6("fe80::1"))); r.push_back(ref::addr(6, 0, "7"));
}
static void add4(std::vector<ref::net>& r) { r.push_back(ref::net(4, 0, 32)); r.push_back(ref::net(4, 0, 0)); r.push_back(ref::net(4, 0x0A000000u, 8)); r.push_back(ref::net(4, 0x0A000000u, 9)); }
static void add6(std::vector<ref::net>& r) {
    r.push_back(ref::net(6, 0, 0)); r.push_back(ref::net(6, v6("fe80::"), 64, "eth0")); r.push_back(ref::net(6, v6("fe80::"), 64, "ABCDEFGHIJKLMNOP")); r.push_back(ref::net(6, v6("fe80::"), 65));
    r.push_back(ref::net(6, v6("a00::"), 8)); r.push_back(ref::net(6, 0, 128));
}

template <typename X> struct Kind;
template <> struct Kind<ipv4_address> { typedef ref::addr M; typedef ipv4_address typed; static std::vector<M> pool() { std::vector<M> r; add4(r); return r; } static ipv4_address make(const M& m) { return lib4(uint32_t(m.value)); } static void give(ipv4_address& x, const M& m) { x = make(m); } static bool scope(ipv4_address&, M&, const char*) { return false; } };
template <> struct Kind<ipv6_address> { typedef ref::addr M; static std::vector<M> pool() { std::vector<M> r; add6(r); return r; } static ipv6_address make(const M& m) { return lib6(m.value, m.scope); } static void give(ipv6_address& x, const M& m) { x = make(m); } static bool scope(ipv6_address& x, M& m, const char* s) { error_code e = error_code::no_error; x.set_scope_id(std::string(s), e); m.scope = s; return e == error_code::no_error; } };
template <> struct Kind<ip_address> { typedef ref::addr M; static std::vector<M> pool() { std::vector<M> r; add4(r); r.pop_back(); add6(r); r.pop_back(); return r; } static ip_address make(const M& m) { return liba(m); }
    static void give(ip_address& x, const M& m) { if (m.version == 4) x = lib4(uint32_t(m.value)); else x = lib6(m.value, m.scope); }
    static bool scope(ip_address& x, M& m, const char* s) { error_code e = error_code::no_error; x.set_scope_id(std::string(s), e); if (m.version == 6) m.scope = s; return e == error_code::no_error; } };
template <> struct Kind<ipv4_network> { typedef ref::net M; static std::vector<M> pool() { std::vector<M> r; add4(r); return r; } static ipv4_network make(const M& m) { return net4(m); } static void give(ipv4_network& x, const M& m) { x = make(m); } static bool scope(ipv4_network&, M&, const char*) { return false; } };
template <> struct Kind<ipv6_network> { typedef ref::net M; static std::vector<M> pool() { std::vector<M> r; add6(r); return r; } static ipv6_network make(const M& m) { return net6(m); } static void give(ipv6_network& x, const M& m) { x = make(m); } static bool scope(ipv6_network&, M&, const char*) { return false; } };
template <> struct Kind<ip_network> { typedef ref::net M; static std::vector<M> pool() { std::vector<M> r; add4(r); r.pop_back(); add6(r); r.pop_back(); return r; } static ip_network make(const M& m) { return m.version == 4 ? ip_network(net4(m)) : ip_network(net6(m)); }
    static void give(ip_network& x, const M& m) { if (m.version == 4) x = net4(m); else x = net6(m); }
    static bool scope(ip_network&, M&, const char*) { return false; } };

static std::string extra(const ref::addr&) { return ""; }
static std::string extra(const ref::net& n) { return " mask " + S(ref::addr(n.version, ref::netmask(n.version, n.prefix))) + " last " + mc::num(ref::lo(n.last())); }
static std::string more(const ipv4_address&) { return ""; }
static std::string more(const ipv6_address&) { return ""; }
static std::string more(const ip_address&) { return ""; }
template <typename N> static std::string more(const N& n) { return " mask " + S(n.netmask()) + " last " + mc::num(ref::lo(value_of(n.broadcast_address()))); }

template <typename X> static std::string wrong(const X& x, const typename Kind<X>::M& m) {
    const X w = Kind<X>::make(m);
    const std::string got = S(to_ref(x)) + more(x), want = S(m) + extra(m);
    if (!(to_ref(x) == m) || got != want) return "holds " + got + " instead of " + want;
    if (x.to_string() != S(m)) return "prints " + x.to_string() + " instead of " + S(m);
    if (!(x == w) || x != w || x < w || w < x) return "holding " + got + " is not equal to the same value";
    if (x.hash() != w.hash() || std::hash<X>()(x) != std::hash<X>()(w)) return "holding " + got + " hashes differently from the same value";
    return "";
}

// The operations on three objects; returns a description.
template <typename X> struct Three {
    typedef Kind<X> K;
    typedef typename K::M M;
    X x[3];
    M m[3];
    std::string trouble;
    static int count(int pool) { return 1 + 3 * pool + 6 + 3 + 6 + 6 + 6 + 3 + 6 + 6 + 3 * 3 + 3; }
    static void pair_of(int k, int& i, int& j) { i = k / 2; j = (i + 1 + k % 2) % 3; } // ordered pairs of distinct objects
    static void upair(int k, int& i, int& j) { static const int a[6][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 0, 0 }, { 1, 1 }, { 2, 2 } }; i = a[k][0]; j = a[k][1]; }
    explicit Three(const std::vector<M>& pool) { for (int i = 0; i < 3; ++i) { m[i] = pool[size_t(i)]; x[i] = K::make(m[i]); } }
    std::string op(int k, const std::vector<M>& pool, bool text) {
        int i = 0, j = 0;
        const int P = int(pool.size());
#define SAY(s) (text ? std::string(s) : std::string())
        if (k == 0) return SAY(" nothing");
        --k;
        if (k < 3 * P) { i = k / P; m[i] = pool[size_t(k % P)]; K::give(x[i], m[i]); return SAY(" x" + mc::num(i) + "=" + S(m[i])); }
        k -= 3 * P;
        if (k < 6) { pair_of(k, i, j); x[i] = x[j]; m[i] = m[j]; return SAY(" x" + mc::num(i) + "=x" + mc::num(j)); }
        k -= 6;
        if (k < 3) { X& self = x[k]; x[k] = self; return SAY(" x" + mc::num(k) + "=itself"); }
        k -= 3;
        if (k < 6) { pair_of(k, i, j); x[i] = std::move(x[j]); m[i] = m[j]; m[j] = pool[0]; x[j] = K::make(m[j]); return SAY(" x" + mc::num(i) + "=move(x" + mc::num(j) + ")"); }
        k -= 6;
        if (k < 6) { upair(k, i, j); x[i].swap(x[j]); std::swap(m[i], m[j]); return SAY(" x" + mc::num(i) + ".swap(x" + mc::num(j) + ")"); }
        k -= 6;
        if (k < 6) { upair(k, i, j); std::swap(x[i], x[j]); std::swap(m[i], m[j]); return SAY(" swap(x" + mc::num(i) + ",x" + mc::num(j) + ")"); }
        k -= 6;
        if (k < 3) {
            X copy(x[k]);
            const M before = m[k];
            const X other = K::make(pool[1]);
            std::string t = wrong(copy, before);
            copy = other;
            M cm = pool[1];
            if (K::scope(copy, cm, "zz")) t += wrong(copy, cm);
            t += wrong(other, pool[1]);
            if (!t.empty()) trouble = "a copy " + t;
            return SAY(" change a copy of x" + mc::num(k));
        }
        k -= 3;
        if (k < 6) { pair_of(k, i, j); x[i].~X(); new (static_cast<void*>(&x[i])) X(x[j]); m[i] = m[j]; return SAY(" x" + mc::num(i) + " constructed from x" + mc::num(j)); }
        k -= 6;
        if (k < 6) { pair_of(k, i, j); x[i].~X(); new (static_cast<void*>(&x[i])) X(std::move(x[j])); m[i] = m[j]; m[j] = pool[0]; x[j] = K::make(m[j]); return SAY(" x" + mc::num(i) + " move-constructed from x" + mc::num(j)); }
        k -= 6;
        if (k < 9) { i = k / 3; K::scope(x[i], m[i], scope_ids[k % 3]); return SAY(" x" + mc::num(i) + ".set_scope_id(" + scope_ids[k % 3] + ")"); }
        k -= 9;
        x[k] = x[(k + 1) % 3] = x[(k + 2) % 3]; // chained
        m[k] = m[(k + 1) % 3] = m[(k + 2) % 3];
        return SAY(" x" + mc::num(k) + "=x" + mc::num((k + 1) % 3) + "=x" + mc::num((k + 2) % 3));
#undef SAY
    }
};

template <typename X> static void sequences(mc::Ctx& c, int depth) {
    typedef Three<X> W;
    const std::vector<typename W::M> pool = Kind<X>::pool();
    const int ops = W::count(int(pool.size()));
    uint64_t n = 1;
    for (int i = 0; i < depth; ++i) n *= uint64_t(ops);
    c.range(n, 512, [&](uint64_t idx) {
        W w(pool);
        uint64_t code = idx;
        for (int d = 0; d < depth; ++d, code /= uint64_t(ops)) w.op(int(code % uint64_t(ops)), pool, false);
        uint64_t h = 0;
        std::string bad = w.trouble;
        for (int i = 0; i < 3; ++i) { h = mc::comb(h, key(w.m[i])); const std::string t = wrong(w.x[i], w.m[i]); if (!t.empty()) bad = "x" + mc::num(i) + " " + t; }
        c.state(h);
        if (!bad.empty() || c.wants_sample()) {
            W again(pool);
            std::string log;
            code = idx;
            for (int d = 0; d < depth; ++d, code /= uint64_t(ops)) log += again.op(int(code % uint64_t(ops)), pool, true);
            if (bad.empty()) c.sample(log);
            MC_CHECK(bad.empty(), "after" + log + ": " + bad);
        } else MC_CHECK(true, "");
    });
}
MC_SPACE(sequences4, "all sequences of assignments, copies, moves, swaps and changes on three IPv4 addresses, to the depth bound") { sequences<ipv4_address>(c, int(c.bound(3, 4, 2))); }
MC_SPACE(sequences6, "the same on three IPv6 addresses with scope ids") { sequences<ipv6_address>(c, int(c.bound(3, 4, 2))); }
MC_SPACE(sequences_any, "the same on three version-agnostic addresses of both versions") { sequences<ip_address>(c, int(c.bound(3, 4, 2))); }
MC_SPACE(sequences_net4, "the same on three IPv4 networks") { sequences<ipv4_network>(c, int(c.bound(3, 4, 2))); }
MC_SPACE(sequences_net6, "the same on three IPv6 networks") { sequences<ipv6_network>(c, int(c.bound(3, 4, 2))); }
MC_SPACE(sequences_anynet, "the same on three version-agnostic networks of both versions") { sequences<ip_network>(c, int(c.bound(3, 4, 2))); }

// ---- containers: every history of insertions and erasures, against a container of reference values
template <typename X> static void containers(mc::Ctx& c, int depth) {
    typedef Kind<X> K;
    typedef typename K::M M;
    const std::vector<M> pool = K::pool();
    const int P = int(pool.size()), ops = 2 * P + 1;
    uint64_t n = 1;
    for (int i = 0; i < depth; ++i) n *= uint64_t(ops);
    c.range(n, 128, [&](uint64_t idx) {
        std::set<X> s; std::unordered_set<X> u; std::map<X, int> mp; std::unordered_map<X, int> um;
        std::map<M, int, Less> want;
        std::string log;
        uint64_t code = idx;
        bool ok = true;
        for (int d = 0; d < depth; ++d, code /= uint64_t(ops)) {
            const int k = int(code % uint64_t(ops));
            if (k == 0) continue;
            const M& v = pool[size_t((k - 1) / 2)];
            const X x = K::make(v);
            log += (k % 2 ? " +" : " -") + S(v);
            if (k % 2) {
                const bool fresh = want.find(v) == want.end();
                ok = ok && s.insert(x).second == fresh && u.insert(x).second == fresh && mp.insert(std::make_pair(x, d)).second == fresh;
                mp[x] = d; um[x] = d; want[v] = d;
            } else {
                const size_t had = want.erase(v);
                ok = ok && s.erase(x) == had && u.erase(x) == had && mp.erase(x) == had && um.erase(x) == had;
            }
        }
        c.state(mc::hash(log));
        MC_CHECK(ok, "after" + log + ": an insertion or erasure reported otherwise than it should");
        std::vector<X> order;
        for (typename std::map<M, int, Less>::const_iterator it = want.begin(); it != want.end(); ++it) order.push_back(K::make(it->first));
        MC_CHECK(s.size() == want.size() && u.size() == want.size() && mp.size() == want.size() && um.size() == want.size() && std::equal(s.begin(), s.end(), order.begin()), "after" + log + ": the containers hold other elements or another order");
        for (int k = 0; k < P; ++k) {
            const X x = K::make(pool[size_t(k)]);
            const typename std::map<M, int, Less>::const_iterator it = want.find(pool[size_t(k)]);
            const bool in = it != want.end();
            MC_CHECK((s.count(x) == 1) == in && (u.count(x) == 1) == in && (mp.count(x) == 1) == in && (um.count(x) == 1) == in && (!in || (mp.find(x)->second == it->second && um.find(x)->second == it->second)), "after" + log + ": looking up " + S(pool[size_t(k)]) + " is wrong");
        }
    });
}
MC_SPACE(containers4, "all histories of insertions and erasures in ordered and hashed containers of IPv4 addresses") { containers<ipv4_address>(c, int(c.bound(4, 5, 2))); }
MC_SPACE(containers6, "the same with IPv6 addresses differing in the scope id") { containers<ipv6_address>(c, int(c.bound(4, 5, 2))); }
MC_SPACE(containers_any, "the same with addresses of both versions") { containers<ip_address>(c, int(c.bound(3, 4, 2))); }
MC_SPACE(containers_net4, "the same with IPv4 networks") { containers<ipv4_network>(c, int(c.bound(4, 5, 2))); }
MC_SPACE(containers_net6, "the same with IPv6 networks") { containers<ipv6_network>(c, int(c.bound(4, 5, 2))); }
MC_SPACE(containers_anynet, "the same with networks of both versions") { containers<ip_network>(c, int(c.bound(3, 4, 2))); }

// ---- large containers: every boundary value at once, one value taken out per case
template <typename X, typename F> static void whole(mc::Ctx& c, const std::vector<typename Kind<X>::M>& all, const F&) {
    c.range(all.size(), 8, [&](uint64_t idx) {
        std::set<X> s; std::unordered_set<X> u;
        for (size_t i = 0; i < all.size(); ++i) { const X x = Kind<X>::make(all[(i * 7 + size_t(idx)) % all.size()]); s.insert(x); u.insert(x); }
        const bool full = s.size() == all.size() && u.size() == all.size();
        const X out = Kind<X>::make(all[size_t(idx)]);
        const size_t gone = s.erase(out) + u.erase(out);
        bool found = true;
        for (size_t i = 0; i < all.size(); ++i) { const X x = Kind<X>::make(all[i]); const size_t n = i == size_t(idx) ? 0 : 1; found = found && s.count(x) == n && u.count(x) == n; }
        c.fresh();
        MC_CHECK(full && gone == 2 && found, "a container of " + mc::num(all.size()) + " values without " + S(all[size_t(idx)]) + " has other contents");
    });
}
MC_SPACE(large_containers, "ordered and hashed containers of every boundary address, each value removed in turn") {
    std::vector<ref::addr> all;
    const std::vector<uint32_t> p4 = en::pool4(false);
    const std::vector<u128> p6 = en::pool6(false);
    const size_t step = c.reduced() ? 16 : 1;
    for (size_t i = 0; i < p4.size(); i += step) all.push_back(ref::addr(4, p4[i]));
    std::vector<ref::addr> four = all, six;
    for (size_t i = 0; i < p6.size(); i += step) for (int k = 0; k < 3; ++k) six.push_back(ref::addr(6, p6[i], scope_ids[k]));
    all.insert(all.end(), six.begin(), six.end());
    if (four.size() % 7 == 0) four.pop_back();
    if (six.size() % 7 == 0) six.pop_back();
    if (all.size() % 7 == 0) all.pop_back();
    whole<ipv4_address>(c, four, 0);
    whole<ipv6_address>(c, six, 0);
    whole<ip_address>(c, all, 0);
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
