// C29: operations in several threads and in sequence give the results they give alone.
#include "mc.hpp"
#include "threads.hpp"
#include "lib.hpp"
#include <functional>
#include <iterator>
#include <map>
#include <set>
#include <sstream>
#include <iomanip>
#include <unordered_set>

typedef std::string s;
static s n(unsigned long long v) { return mc::num(v); }
static const char* const t4[] = { "192.168.1.10", "8.8.4.4" };
static const char* const t6[] = { "fe80::ab:0:1%eth0", "2001:db8:0:ffff::7f01%25" };
static const char* const n4[] = { "10.1.0.0/16", "192.0.2.128/255.255.255.192" };
static const char* const n6[] = { "2001:db8::/32", "fe80:0:0:8000::/49" };
static const char* const bad[] = { "1.2.3.4.5", "1.2.300.4" };
static const char* const bad6[] = { "1::2::3", "12345::" };

// objects read by all threads
static const ipv4_address g4[] = { ipv4_address::parse(t4[0]), ipv4_address::parse(t4[1]) };
static const ipv6_address g6[] = { ipv6_address::parse(t6[0]), ipv6_address::parse(t6[1]) };
static const ip_address ga[] = { ip_address::parse(t4[0]), ip_address::parse(t6[1]) };
static const ipv4_network gn4[] = { ipv4_network::parse(n4[0]), ipv4_network::parse(n4[1]) };
static const ipv6_network gn6[] = { ipv6_network::parse(n6[0]), ipv6_network::parse(n6[1]) };
static const ip_network gna[] = { ip_network::parse(n4[0]), ip_network::parse(n6[1]) };
static const uint128_t gu[] = { uint128_t(0x123456789abcdefULL, 0xfedcba9876543210ULL), uint128_t(7, ~0ULL) };
static const auto gh4 = gn4[0].hosts();
static const auto gh6 = gn6[0].hosts();
static const auto gs4 = gn4[0].subnets(2);
static const auto gs6 = gn6[1].subnets(1);
static const auto gha = gna[0].hosts();
static const auto gsa = gna[1].subnets(1);
static const auto gx4 = gn4[0].address_exclude(ipv4_network::parse("10.1.2.0/24"));
static const auto gx6 = gn6[0].address_exclude(ipv6_network::parse("2001:db8:8000::/36"));
static const auto gxa = gna[0].address_exclude(ip_network::parse("10.1.2.0/24"));
static const auto gi4 = gh4.begin() + 5u;
static const auto gi6 = gs6.begin();
static const auto gia = gha.begin();
static const auto gscope = g6[0].get_scope_id();

#define OP(name) static s name(int v)
template <typename A> s parse_all(const char* t) {
    const s x(t);
    const std::wstring w(x.begin(), x.end()); const std::u16string u(x.begin(), x.end()); const std::u32string q(x.begin(), x.end());
    error_code e = error_code::no_error;
    return A::parse(x).to_string() + " " + A::parse(w, e).to_string() + " " + A::parse(u, e).to_string() + " " + A::parse(q).to_string() + " " + n(unsigned(e));
}
OP(parse4) { return parse_all<ipv4_address>(t4[v]); }
OP(parse6) { return parse_all<ipv6_address>(t6[v]); }
OP(parsea) { return parse_all<ip_address>(v ? t4[1] : t6[0]); }
OP(parsen4) { return parse_all<ipv4_network>(n4[v]); }
OP(parsen6) { return parse_all<ipv6_network>(n6[v]); }
OP(parsena) { return parse_all<ip_network>(v ? n4[1] : n6[0]); }
template <typename A> s refuse(const char* t, s* what = 0) {
    error_code e = error_code::no_error;
    A::parse(t, e);
    s r = n(unsigned(e));
    try { A::parse(t); r += " accepted"; }
    catch (const ip::parse_error& x) { r += s(" ") + x.what() + " " + n(unsigned(x.code())); }
    catch (const ip::logic_error& x) { r += s(" ") + x.what() + " " + n(unsigned(x.code())); }
    (void) what;
    return r;
}
OP(refuse4) { return refuse<ipv4_address>(bad[v]); }
OP(refuse6) { return refuse<ipv6_address>(bad6[v]); }
OP(refusea) { return refuse<ip_address>(v ? bad[0] : bad6[1]); }
OP(refusen) { return refuse<ipv4_network>(v ? "1.2.3.4/8" : "1.2.3.0/99") + refuse<ip_network>(v ? "zz/1" : "1::1/64"); }
OP(refuseu) {
    s r;
    try { uint128_t::from_string(v ? "12x" : "-"); r = "accepted"; } catch (const std::exception& x) { r = x.what(); }
    try { auto x = gn4[0].supernet(v ? 30 : 17); r += x.to_string(); } catch (const std::exception& x) { r += x.what(); }
    try { ipv6_address a(g6[v]); a.set_scope_id(v ? "a/b" : "12345678901234567890"); r += a.to_string(); } catch (const std::exception& x) { r += x.what(); }
    return r;
}
template <typename A> s texts(const A& a) {
    s r = a.to_string() + " " + a.to_string(format::full) + " " + a.to_string(format::compact) + " " + std::to_string(a);
    const std::wstring w = a.to_wstring(); const std::u16string u = a.to_u16string(format::full); const std::u32string q = a.to_u32string();
    r += " " + s(w.begin(), w.end()) + " " + s(u.begin(), u.end()) + " " + s(q.begin(), q.end()) + " " + s(a);
    return r;
}
OP(text4) { return texts(g4[v]); }
OP(text6) { return texts(g6[v]); }
OP(texta) { return texts(ga[v]); }
OP(textn4) { return texts(gn4[v]); }
OP(textn6) { return texts(gn6[v]); }
OP(textna) { return texts(gna[v]); }
OP(reverse) { return g4[v].reverse_pointer() + " " + g6[v].reverse_pointer() + " " + ga[v].reverse_pointer(); }
OP(insert_) {
    std::ostringstream o;
    if (v) o << ip::full << std::uppercase << g6[v] << " " << g6[v] << ip::compact << gn6[v] << gna[0] << ga[1];
    else o << g6[v] << " " << ip::compact << gna[1] << " " << std::setw(40) << std::left << std::setfill('.') << g4[0] << gn4[0] << "|";
    return o.str();
}
OP(winsert) {
    std::wostringstream o;
    if (v) o << ip::full << g6[v] << L" " << g6[v] << ip::compact << gn6[v] << std::hex << gu[v]; else o << g6[v] << L" " << ga[0] << L" " << gu[v];
    const std::wstring w = o.str();
    return s(w.begin(), w.end());
}
OP(extract) {
    std::istringstream i(v ? "1.2.3.4 fe80::1%5 1.2.3.4/8 10.0.0.0/8 99" : "::1 5.6.7.8 zz");
    if (v) {
        ipv4_address a; ipv6_address b; ip_network x; ipv4_network y; uint128_t u;
        i >> a >> b >> ip::non_strict >> x >> ip::strict >> y >> u;
        return a.to_string() + b.to_string() + x.to_string() + y.to_string() + u.to_string() + n(i.fail());
    }
    ip_address a, b, c;
    i >> a >> b; const bool f = i.fail(); i >> c;
    return a.to_string() + b.to_string() + n(f) + n(i.fail());
}
OP(strictly) {
    std::istringstream i("1.2.3.4/8");
    ipv4_network x; ip_network y;
    if (v) { i >> x; return n(i.fail()); }
    i >> ip::non_strict >> y; return y.to_string() + n(i.fail());
}
OP(hashes) {
    s r;
    r += n(std::hash<ipv4_address>()(g4[v])) + n(std::hash<ipv6_address>()(g6[v])) + n(std::hash<ip_address>()(ga[v])) + n(std::hash<ipv4_network>()(gn4[v])) + n(std::hash<ipv6_network>()(gn6[v])) + n(std::hash<ip_network>()(gna[v]));
    return r + n(std::hash<uint128_t>()(gu[v])) + n(g6[v].hash()) + n(gu[v].hash());
}
OP(compare) {
    s r;
    r += n(g4[v] < g4[1]) + n(g6[v] <= g6[1]) + n(ga[v] == ga[1]) + n(gn4[v] != gn4[1]) + n(gn6[v] > gn6[1]) + n(gna[v] >= gna[1]) + n(gu[v] < gu[1]) + n(gscope == g6[v].get_scope_id());
    return r;
}
OP(values) {
    s r = n(g4[v].to_uint()) + g6[v].to_uint().to_string();
    const auto b = g6[v].bytes(); const auto c = g4[v].bytes();
    for (size_t i = 0; i < b.size(); ++i) r += n(b[i]);
    for (auto i = c.begin(); i != c.end(); ++i) r += n(*i);
    return r + ipv4_address::from_uint(0x01020304u + v).to_string() + ipv6_address::from_uint(gu[v]).to_string() + ipv6_address::from_bytes(b).to_string() + ip_address::from_bytes(b.data(), 16, ip_version::V6).to_string();
}
template <typename A> s preds(const A& a) { return n(a.is_multicast()) + n(a.is_private()) + n(a.is_global()) + n(a.is_reserved()) + n(a.is_loopback()) + n(a.is_link_local()) + n(a.is_unspecified()); }
OP(predicates) { return preds(g4[v]) + preds(g6[v]) + preds(ga[v]) + preds(gn4[v]) + preds(gn6[v]) + preds(gna[v]) + n(g6[v].is_site_local()) + n(gn6[v].is_site_local()); }
OP(embedded) {
    const auto m = ipv6_address::parse(v ? "::ffff:1.2.3.4" : "2001:0:1:2:3:4:5:6"); const auto x = ipv6_address::parse("2002:102:304::1");
    s r;
    const auto a = m.ipv4_mapped(); r += a ? a.value().to_string() : s("no");
    const auto t = m.teredo(); r += t ? t.value().first.to_string() + t.value().second.to_string() : s("no");
    const auto y = x.sixtofour(); r += y ? y.value().to_string() : s("no");
    return r + (g6[v].ipv4_mapped() ? "yes" : "no");
}
OP(supernets) { return gn4[v].supernet().to_string() + gn6[v].supernet(3).to_string() + gna[v].supernet().to_string() + gn4[v].network_address().to_string() + gn4[v].broadcast_address().to_string() + gn6[v].netmask().to_string() + gna[v].hostmask().to_string(); }
OP(subnets) {
    s r;
    for (const auto& x : gn4[v].subnets(2)) r += x.to_string();
    for (const auto& x : gn6[v].subnets(1)) r += x.to_string();
    for (const auto& x : gna[v].subnets(1)) r += x.to_string();
    return r + n(gs4.size()) + gs6[1].to_string() + gsa[v].to_string() + gs4.back().to_string();
}
OP(hosts) {
    s r = n(gh4.size()) + gh6.size().to_string();
    int k = 0;
    for (auto i = gh4.begin(); k < 3; ++i, ++k) r += (*i).to_string();
    for (auto i = gha.begin() + 2u; k < 6; ++i, ++k) r += i->to_string();
    return r + gh6[3].to_string() + gh4.front().to_string() + gh4.back().to_string();
}
OP(iterators) {
    auto a = gi4; a += unsigned(v + 1); auto b = gi6; ++b; auto c = gia; c += 3u; --c;
    return (*gi4).to_string() + gi4->to_string() + gi6->to_string() + gia->to_string() + (*a).to_string() + b->to_string() + c->to_string() + n(a - gi4) + n(b == gi6) + n(gi4 < a) + (*gh4.rbegin()).to_string() + gi4[unsigned(v)].to_string();
}
OP(exclude) {
    s r;
    for (const auto& x : gx4) r += x.to_string();
    for (const auto& x : gx6) r += x.to_string();
    for (const auto& x : gxa) r += x.to_string();
    for (const auto& x : gn4[1].address_exclude(ipv4_network::parse(v ? "192.0.2.128/27" : "192.0.2.191/32"))) r += x.to_string();
    return r;
}
OP(relations) { return n(gn4[v].contains(g4[v])) + n(gn6[v].contains(g6[v])) + n(gna[v].contains(ga[v])) + n(gn4[v].overlaps(gn4[0])) + n(gn6[v].subnet_of(gn6[0])) + n(gna[v].supernet_of(gna[1])); }
OP(arithmetic) {
    uint128_t a = gu[v];
    s r;
    a += 5; r += (a * gu[0]).to_string(); r += (gu[0] / gu[1]).to_string(); r += (a % uint128_t(v + 1000)).to_string(); r += (a << 37u).to_string(); r += (a >> 70u).to_string(); ++a; a ^= gu[1]; r += (~a).to_string();
    return r + n(a > gu[0]) + n(bool(a));
}
OP(numbers) {
    s r = gu[v].to_string() + gu[v].to_string(uint128_t::format::hexadecimal) + gu[v].to_string(uint128_t::format::octal);
    const std::wstring w = gu[v].to_wstring();
    r += s(w.begin(), w.end()) + uint128_t::from_string(v ? "340282366920938463463374607431768211455" : "12345678901234567890123").value().to_string();
    char b[64]; std::snprintf(b, sizeof b, " %a %a", double(gu[v]), double(uint128_t(1e30 + v)));
    return r + b;
}
OP(unumbers) {
    std::stringstream o;
    o << std::setw(50) << std::setfill('*') << std::hex << std::showbase << gu[v] << " " << std::dec << gu[v];
    uint128_t x; std::istringstream i(v ? "ff 12" : "9999999999999999999999999"); if (v) i >> std::hex; i >> x;
    return o.str() + x.to_string();
}
OP(scopes) {
    ipv6_address a = g6[v];
    s r = n(a.get_scope_id().has_string()) + n(a.get_scope_id().has_uint32()) + a.get_scope_id().get_string();
    a.set_scope_id(v ? "wlan0" : "77"); r += a.to_string() + n(a.get_scope_id().has_uint32() ? a.get_scope_id().get_uint32() : 0);
    error_code e = error_code::no_error; a.set_scope_id("a%b", e); r += n(unsigned(e)) + a.to_string();
    ip_address q = ga[v]; q.set_scope_id(v ? "x" : "y"); r += q.to_string();
    a.set_scope_id(""); return r + a.to_string() + s(gscope);
}
OP(strings) {
    const auto f = ip::make_fixed_string("fixed\0x"); const auto h = ip::make_fixed_string(v ? U"abc" : U"xde");
    s r(f.data(), f.size());
    r += n(f.size()) + n(h.size()) + n(f.front()) + n(f[1]) + n(f < ip::make_fixed_string("g")) + n(f.empty());
    return r;
}
OP(options) {
    ip::optional<ipv4_address> a, b(g4[v]), c; a = b; b = c;
    return n(bool(a)) + a.value().to_string() + n(bool(b)) + n(b.has_value());
}
OP(swaps) {
    ip_address a = ga[v], b = ga[1 - v]; a.swap(b);
    ip_network x = gna[v], y = gna[1 - v]; using std::swap; swap(x, y);
    uint128_t u = gu[v], w = gu[1 - v]; swap(u, w);
    return a.to_string() + b.to_string() + x.to_string() + y.to_string() + u.to_string();
}
OP(containers) {
    std::set<ip_address> a(ga, ga + 2); a.insert(g4[v]); std::unordered_set<ipv6_network> b(gn6, gn6 + 2); std::map<ipv4_network, int> m; m[gn4[v]] = v;
    s r = n(a.size()) + n(b.size()) + n(m.count(gn4[0]));
    for (auto i = a.begin(); i != a.end(); ++i) r += i->to_string();
    return r;
}

struct Named { const char* name; th::Op op; };
#define N(x) { #x, x }
static const Named ops[] = { N(parse4), N(parse6), N(parsea), N(parsen4), N(parsen6), N(parsena), N(refuse4), N(refuse6), N(refusea), N(refusen), N(refuseu), N(text4), N(text6), N(texta), N(textn4), N(textn6), N(textna),
    N(reverse), N(insert_), N(winsert), N(extract), N(strictly), N(hashes), N(compare), N(values), N(predicates), N(embedded), N(supernets), N(subnets), N(hosts), N(iterators), N(exclude), N(relations), N(arithmetic),
    N(numbers), N(unumbers), N(scopes), N(strings), N(options), N(swaps), N(containers) };
enum { OPS = sizeof(ops) / sizeof(ops[0]) };

// what each operation gives alone, in a fresh process
static s solo[OPS][2];
static th::Program single(int op, int v) { th::Program p; p.n = 1; p.ops[0] = ops[op].op; p.variants[0] = v; return p; }
static s label(const th::Program& p) {
    s r;
    for (int k = 0; k < p.n; ++k) for (int i = 0; i < OPS; ++i) if (ops[i].op == p.ops[k]) r += (k ? "; " : "") + s(ops[i].name) + "(" + n(unsigned(p.variants[k])) + ")";
    return r;
}
static s expected(const th::Program& p) { s r; for (int k = 0; k < p.n; ++k) for (int i = 0; i < OPS; ++i) if (ops[i].op == p.ops[k]) r += solo[i][p.variants[k]] + "\n"; return r; }
static void learn() {
    for (int i = 0; i < OPS; ++i) for (int v = 0; v < 2; ++v) {
        if (!solo[i][v].empty()) continue;
        const th::Program p = single(i, v);
        const int st = th::execute(&p, 1, 0, 0, 0, 0, 0);
        if (st || !th::report->done[0]) { std::fprintf(stderr, "operation %s(%d) alone: status %d\n", ops[i].name, v, st); _exit(9); }
        solo[i][v] = s(th::report->out[0]);
        solo[i][v].erase(solo[i][v].size() - 1);
    }
}

// all schedules of the programs with up to `bound` preemptions
static void explore(mc::Ctx& c, const th::Program* p, int threads, int bound) {
    std::vector<uintptr_t> vis;
    s racing;
    std::vector<s> want;
    s what;
    for (int t = 0; t < threads; ++t) { want.push_back(expected(p[t])); what += (t ? " | " : "") + label(p[t]); }
    uint64_t schedules = 0;
    for (int round = 0; round < 4; ++round) {
        std::vector<unsigned char> prefix;
        std::set<uintptr_t> more;
        for (;;) {
            const int st = th::execute(p, threads, bound, prefix.data(), int(prefix.size()), vis.data(), int(vis.size()));
            const th::Report& r = *th::report;
            ++schedules;
            c.step(r.accesses + r.syncs);
            s how;
            for (int i = 0; i < r.nchoice; ++i) how += char('0' + r.chosen[i]);
            c.state(mc::hash(how, mc::comb(c.index(), uint64_t(round))));
            if (r.overflow || (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 5))) { std::fprintf(stderr, "limits of the scheduler exceeded in %s\n", what.c_str()); _exit(9); }
            if (r.deadlock) { c.fail(what + ": deadlock under schedule " + how + racing); return; }
            if (st) { c.fail(what + ": the process ended with status " + n(unsigned(st)) + " under schedule " + how + racing); return; }
            for (int t = 0; t < threads; ++t) MC_CHECK(want[size_t(t)] == r.out[t], what + ": under schedule " + how + " thread " + n(unsigned(t)) + " got " + mc::esc(r.out[t]) + " instead of " + mc::esc(want[size_t(t)]) + racing);
            if (r.nrace) {
                if (racing.empty()) racing = s("; data race: ") + r.rkind[0] + " of thread " + n(unsigned(r.ra)) + " and " + r.rkind[1] + " of thread " + n(unsigned(r.rb)) + " to the same bytes";
                for (int i = 0; i < r.nrace; ++i) more.insert(r.race[i]);
                if (more.size() > vis.size()) { bool fresh = false; for (std::set<uintptr_t>::iterator i = more.begin(); i != more.end(); ++i) { bool have = false; for (size_t k = 0; k < vis.size(); ++k) have = have || vis[k] == *i; fresh = fresh || !have; } if (fresh && round < 3) break; }
            }
            // next schedule
            prefix.assign(r.chosen, r.chosen + r.nchoice);
            while (!prefix.empty() && prefix.back() + 1 >= r.options[prefix.size() - 1]) prefix.pop_back();
            if (prefix.empty()) break;
            ++prefix.back();
            if (!racing.empty() && schedules > 3000) break; // the race is reported in any case
        }
        bool grown = false;
        for (std::set<uintptr_t>::iterator i = more.begin(); i != more.end(); ++i) { bool have = false; for (size_t k = 0; k < vis.size(); ++k) have = have || vis[k] == *i; if (!have && vis.size() < size_t(th::VIS)) { vis.push_back(*i); grown = true; } }
        if (!grown) break;
    }
    MC_CHECK(racing.empty(), what + racing);
    if (c.wants_sample()) c.sample(what + ": " + n(schedules) + " schedules");
}

MC_SPACE(pairs, "every ordered pair of operations, one in each of two threads, under every schedule with up to 2 (thorough 3) preemptions at synchronisation and conflicting accesses; data races by happens-before") {
    learn();
    const int bound = int(c.bound(2, 3, 2));
    for (int a = 0; a < OPS; ++a) for (int b = a; b < OPS; ++b) for (int v = 0; v < (c.thorough() ? 4 : 2); ++v) {
        if (!c.take()) continue;
        th::Program p[2] = { single(a, v & 1), single(b, v >> 1 & 1 ? v & 1 : 1 - (v & 1)) };
        explore(c, p, 2, bound);
    }
}
MC_SPACE(same_then_other, "two threads of two operations each: the same two operations in opposite orders, every pair") {
    learn();
    for (int a = 0; a < OPS; ++a) for (int b = a; b < OPS; ++b) {
        if (!c.take()) continue;
        th::Program p[2];
        p[0].n = p[1].n = 2;
        p[0].ops[0] = ops[a].op; p[0].ops[1] = ops[b].op; p[1].ops[0] = ops[b].op; p[1].ops[1] = ops[a].op;
        p[0].variants[0] = 0; p[0].variants[1] = 1; p[1].variants[0] = 0; p[1].variants[1] = 1;
        explore(c, p, 2, c.thorough() ? 2 : 1);
    }
}
MC_SPACE(three, "three threads of one operation each, every operation against itself and two others (thorough: every triple), one preemption (thorough: two)") {
    learn();
    for (int a = 0; a < OPS; ++a) for (int b = a; b < OPS; ++b) for (int d = b; d < OPS; ++d) {
        if (!c.thorough() && !(b == a || d == b + 1)) continue;
        if (!c.take()) continue;
        th::Program p[3] = { single(a, 0), single(b, 1), single(d, 0) };
        explore(c, p, 3, c.thorough() ? 2 : 1);
    }
}
MC_SPACE(sequences, "one thread: every ordered pair of operations with both inputs, and every triple whose third is the first again (thorough: every triple)") {
    learn();
    for (int a = 0; a < OPS * 2; ++a) for (int b = 0; b < OPS * 2; ++b) for (int d = 0; d < OPS * 2; ++d) {
        if (!c.thorough() ? d != a && d != (a ^ 1) : (b & 1)) continue;
        if (!c.take()) continue;
        th::Program p;
        p.n = 3;
        const int seq[] = { a, b, d };
        for (int k = 0; k < 3; ++k) { p.ops[k] = ops[seq[k] / 2].op; p.variants[k] = seq[k] & 1; }
        explore(c, &p, 1, 0);
    }
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
