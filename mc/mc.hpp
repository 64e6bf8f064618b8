// Explicit enumeration engine: every harness registers "spaces"; a space is a deterministic
// enumeration of cases (executions of the real code). The engine shards the cases over forked
// workers, counts what was executed, attributes crashes and hangs to the case that was running,
// confirms every violation by replaying that single case in a fresh process, and writes JSON.
//
// C++11, no dependency on the code under test, works with -fno-exceptions.
#ifndef MC_HPP
#define MC_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#ifdef MC_LOCALE
#include <locale>
#endif
#include <string>
#include <vector>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__cpp_exceptions)
#include <exception>
#define MC_EXC 1
#else
#define MC_EXC 0
#endif

namespace mc {

enum { MAX_SPACES = 64, MAX_WORKERS = 64, MAX_VIOL = 6, TEXT = 900, MAX_SAMPLES = 3 };

struct Counter { uint64_t cases, steps, states, next; };

struct Violation { uint32_t space; uint32_t kind; uint64_t index; char text[TEXT]; };

struct Worker {
    volatile uint32_t space;
    volatile uint64_t index;
    uint32_t nviol;
    uint64_t total_viol;
    Counter c[MAX_SPACES];
    Violation v[MAX_VIOL];
    uint32_t nsamples[MAX_SPACES];
    char samples[MAX_SPACES][MAX_SAMPLES][200];
    volatile uint32_t done;
};

struct Shared {
    uint64_t table_mask;
    volatile uint64_t table_used;
    Worker w[MAX_WORKERS];
};

inline uint64_t mix(uint64_t h) {
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    return h;
}
inline uint64_t comb(uint64_t a, uint64_t b) { return mix(a * 0x9E3779B97F4A7C15ULL + b + 0x7F4A7C15ULL); }
inline uint64_t hash(const void* p, size_t n, uint64_t seed = 0) {
    const unsigned char* s = static_cast<const unsigned char*>(p);
    uint64_t h = mix(seed + n);
    while (n >= 8) { uint64_t k; std::memcpy(&k, s, 8); h = comb(h, k); s += 8; n -= 8; }
    uint64_t k = 0; if (n) { std::memcpy(&k, s, n); h = comb(h, k); }
    return h;
}
inline uint64_t hash(const std::string& s, uint64_t seed = 0) { return hash(s.data(), s.size(), seed); }

inline std::string esc(const std::string& s) {
    std::string r;
    char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char) s[i];
        if (c < 32 || c > 126 || c == '"' || c == '\\') { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += char(c);
    }
    return r;
}
inline std::string json(const std::string& s) {
    std::string r;
    char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char) s[i];
        if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else r += char(c);
    }
    return r;
}
inline std::string num(unsigned long long v) { char b[32]; std::snprintf(b, sizeof b, "%llu", v); return b; }
inline std::string inum(long long v) { char b[32]; std::snprintf(b, sizeof b, "%lld", v); return b; }
inline std::string hex(unsigned long long v) { char b[32]; std::snprintf(b, sizeof b, "%llx", v); return b; }

class Ctx;
typedef void (*SpaceFn)(Ctx&);
struct Space { const char* name; const char* what; SpaceFn fn; };

inline std::vector<Space>& spaces() { static std::vector<Space> s; return s; }
struct Register { Register(const char* n, const char* w, SpaceFn f) { Space s = { n, w, f }; spaces().push_back(s); } };

struct Options {
    std::string tier;    // quick, thorough or reduced (monitored builds)
    std::string out;
    int jobs;
    bool replay;
    uint32_t rspace; uint64_t rindex;
    int shard, shards;   // re-execute one worker's whole history
    int log2table;
    std::string only;
};
inline Options& opt() { static Options o; return o; }

class Ctx {
public:
    Ctx(Shared* sh, uint64_t* table, int id, int n) : sh_(sh), table_(table), id_(id), n_(n), w_(sh->w + id), space_(0), idx_(0), begun_(false), target_hit_(false) {}

    bool thorough() const { return opt().tier == "thorough"; }
    bool reduced() const { return opt().tier == "reduced"; }
    // the value of a bound per tier
    long bound(long quick, long deep, long red) const { return thorough() ? deep : reduced() ? red : quick; }

    // Next case: true if this worker is to execute it.
    bool take() {
        const uint64_t i = idx_++;
        if (opt().replay) {
            if (i != opt().rindex) { if (i > opt().rindex) finish_replay(); return false; }
        } else if (int((i >> 4) % n_) != id_) {
            return false;
        }
        w_->index = i;
        ++cur().cases;
        return true;
    }

    // Cases 0..n-1 by number, without walking over other workers' cases.
    template <typename F>
    void range(uint64_t n, uint64_t chunk, const F& f) {
        const uint64_t base = idx_;
        if (opt().replay) {
            if (opt().rindex >= base && opt().rindex < base + n) {
                w_->index = opt().rindex;
                ++cur().cases;
                f(opt().rindex - base);
                finish_replay();
            }
        } else {
            for (uint64_t c = uint64_t(id_) * chunk; c < n; c += uint64_t(n_) * chunk) {
                const uint64_t e = c + chunk < n ? c + chunk : n;
                for (uint64_t i = c; i < e; ++i) { w_->index = base + i; f(i); }
                cur().cases += e - c;
            }
        }
        idx_ = base + n;
    }

    uint64_t index() const { return w_->index; }

    // An abstract state was reached; counted once over all workers.
    bool state(uint64_t h) {
        if (opt().replay) return true;
        h = mix(h + 0x9E3779B97F4A7C15ULL * space_); if (!h) h = 1;
        uint64_t p = h & sh_->table_mask;
        for (int probe = 0; probe < 64; ++probe, p = (p + 1) & sh_->table_mask) {
            const uint64_t v = __atomic_load_n(table_ + p, __ATOMIC_RELAXED);
            if (v == h) return false;
            if (v == 0) {
                uint64_t z = 0;
                if (__atomic_compare_exchange_n(table_ + p, &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { ++cur().states; return true; }
                if (z == h) return false;
            }
        }
        return false; // table full here: not counted
    }
    // a state that is distinct by construction of the space
    void fresh(uint64_t n = 1) { cur().states += n; }
    void step(uint64_t n = 1) { cur().steps += n; }

    bool wants_sample() const { return w_->nsamples[space_] < MAX_SAMPLES && (w_->c[space_].cases == 1 || (w_->c[space_].cases & 1023) == 512); }
    void sample(const std::string& s) {
        uint32_t& k = w_->nsamples[space_];
        if (k < MAX_SAMPLES) { std::snprintf(w_->samples[space_][k], 200, "%s", esc(s).c_str()); ++k; }
    }

    void fail(const std::string& text) {
#ifdef MC_MONITOR
        (void) text; // only crashes and hangs count in monitored builds
        return;
#endif
        ++w_->total_viol;
        if (w_->nviol < MAX_VIOL) {
            Violation& v = w_->v[w_->nviol++];
            v.space = space_; v.index = w_->index; v.kind = 0;
            std::snprintf(v.text, TEXT, "%s", text.c_str());
        }
        if (w_->nviol >= MAX_VIOL && !opt().replay) { w_->done = 2; if (opt().shards) report_shard(); _exit(0); }
    }

    void run(uint32_t s) {
        space_ = s; idx_ = 0; begun_ = true;
        w_->space = s; w_->index = 0;
        Ctx& self = *this;
#if MC_EXC
        try { spaces()[s].fn(self); }
        catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
        catch (...) { fail("unexpected exception"); }
#else
        spaces()[s].fn(self);
#endif
        cur().next = idx_;
    }
    void finish_replay() { report_replay(); }
    void report_replay() {
        for (uint32_t i = 0; i < w_->nviol; ++i) std::printf("REPLAY-VIOLATION %s\n", esc(w_->v[i].text).c_str());
        std::printf("REPLAY-DONE %s:%llu violations=%llu\n", spaces()[space_].name, (unsigned long long) opt().rindex, (unsigned long long) w_->total_viol);
        std::fflush(stdout);
        _exit(w_->total_viol ? 1 : 0);
    }

    void report_shard() {
        for (uint32_t i = 0; i < w_->nviol; ++i) std::printf("REPLAY-VIOLATION %s:%llu %s\n", spaces()[w_->v[i].space].name, (unsigned long long) w_->v[i].index, esc(w_->v[i].text).c_str());
        std::printf("REPLAY-DONE violations=%llu\n", (unsigned long long) w_->total_viol);
        std::fflush(stdout);
        _exit(w_->total_viol ? 1 : 0);
    }

private:
    Counter& cur() { return w_->c[space_]; }
    Shared* sh_;
    uint64_t* table_;
    int id_, n_;
    Worker* w_;
    uint32_t space_;
    uint64_t idx_;
    bool begun_, target_hit_;
};

inline double cpu_of(pid_t pid) {
    char p[64], b[1024];
    std::snprintf(p, sizeof p, "/proc/%d/stat", int(pid));
    FILE* f = std::fopen(p, "r");
    if (!f) return 0;
    size_t n = std::fread(b, 1, sizeof b - 1, f);
    std::fclose(f);
    b[n] = 0;
    char* q = std::strrchr(b, ')');
    if (!q) return 0;
    unsigned long long ut = 0, st = 0;
    if (std::sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &ut, &st) != 2) return 0;
    return double(ut + st) / double(sysconf(_SC_CLK_TCK));
}

inline std::string tail(const std::string& path) {
    FILE* f = std::fopen(path.c_str(), "r");
    std::string s;
    if (!f) return s;
    char b[4096];
    size_t n;
    while ((n = std::fread(b, 1, sizeof b, f)) > 0 && s.size() < 8192) s.append(b, n);
    std::fclose(f);
    return s.substr(0, 600);
}

// Replays one case in a fresh process image. Result: 0 clean, 1 violation, 2 crash, 3 hang.
inline int confirm(const char* self, uint32_t space, uint64_t index, int shard, int shards, std::string& text, double limit) {
    const std::string log = opt().out + ".replay";
    const pid_t p = fork();
    if (p == 0) {
        const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 1); dup2(fd, 2);
        const std::string r = num(space) + ":" + num(index), sd = num(shard) + "/" + num(shards);
        if (shards) execl(self, self, "--tier", opt().tier.c_str(), "--out", opt().out.c_str(), "--shard", sd.c_str(), (char*) 0);
        else execl(self, self, "--tier", opt().tier.c_str(), "--out", opt().out.c_str(), "--replay", r.c_str(), (char*) 0);
        _exit(127);
    }
    int st = 0;
    double waited = 0;
    for (;;) {
        const pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        usleep(20000); waited += 0.02;
        if (waited > limit && cpu_of(p) > limit * 0.5) { kill(p, SIGKILL); waitpid(p, &st, 0); text = "does not terminate"; std::remove(log.c_str()); return 3; }
        if (waited > limit * 10) { kill(p, SIGKILL); waitpid(p, &st, 0); text = "does not terminate"; std::remove(log.c_str()); return 3; }
    }
    text = tail(log);
    std::remove(log.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && text.find("REPLAY-DONE") != std::string::npos) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 127) return 0;
    return 2;
}

#ifdef MC_LOCALE
// a global locale whose numbers look different: a separator between any two digits, a decimal comma
template <typename Ch> struct Numbers : std::numpunct<Ch> {
    Ch do_thousands_sep() const { return Ch('\''); }
    std::string do_grouping() const { return "\1"; }
    Ch do_decimal_point() const { return Ch(','); }
};
#endif
inline int main(int argc, char** argv) {
#ifdef MC_LOCALE
    std::locale::global(std::locale(std::locale(std::locale::classic(), new Numbers<char>), new Numbers<wchar_t>));
#endif
    Options& o = opt();
    o.tier = "quick"; o.out = "/dev/null"; o.jobs = 4; o.replay = false; o.rspace = 0; o.rindex = 0; o.log2table = 23; o.shard = 0; o.shards = 0;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--tier" && i + 1 < argc) o.tier = argv[++i];
        else if (a == "--out" && i + 1 < argc) o.out = argv[++i];
        else if (a == "--jobs" && i + 1 < argc) o.jobs = std::atoi(argv[++i]);
        else if (a == "--table" && i + 1 < argc) o.log2table = std::atoi(argv[++i]);
        else if (a == "--only" && i + 1 < argc) o.only = argv[++i];
        else if (a == "--shard" && i + 1 < argc) {
            const char* s = argv[++i];
            char* e = 0;
            o.shard = int(std::strtoul(s, &e, 10));
            o.shards = int(std::strtoul(e + 1, 0, 10));
        }
        else if (a == "--replay" && i + 1 < argc) {
            o.replay = true;
            const char* s = argv[++i];
            char* e = 0;
            o.rspace = uint32_t(std::strtoul(s, &e, 10));
            o.rindex = std::strtoull(e + 1, 0, 10);
        }
    }
    if (o.jobs < 1) o.jobs = 1;
    if (o.jobs > MAX_WORKERS) o.jobs = MAX_WORKERS;
    const size_t ns = spaces().size();
    if (ns > MAX_SPACES) { std::fprintf(stderr, "too many spaces\n"); return 3; }
    const uint64_t entries = o.replay ? 64 : (1ULL << o.log2table);
    void* m = mmap(0, sizeof(Shared) + entries * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { std::perror("mmap"); return 3; }
    Shared* sh = static_cast<Shared*>(m);
    uint64_t* table = reinterpret_cast<uint64_t*>(static_cast<char*>(m) + sizeof(Shared));
    sh->table_mask = entries - 1;

    if (o.replay) {
        if (o.rspace >= ns) return 3;
        Ctx c(sh, table, 0, 1);
        c.run(o.rspace);
        c.report_replay();
    }

    if (o.shards) {
        Ctx c(sh, table, o.shard, o.shards);
        for (size_t s = 0; s < ns; ++s) c.run(uint32_t(s));
        c.report_shard();
    }

    const int n = o.jobs;
    std::vector<pid_t> pid(n, 0);
    std::vector<int> restarts(n, 0);
    struct Watch { uint32_t s; uint64_t i; double cpu; };
    std::vector<Watch> watch(n);
    std::string infra;
    int alive = 0;
    struct Found { uint32_t space; uint64_t index; std::string kind, text; int worker; bool history; };
    std::vector<Found> found;
    std::vector<std::string> notes;

    struct Spawn {
        static pid_t go(Shared* sh, uint64_t* table, int i, int n, size_t ns) {
            std::fflush(0);
            const pid_t p = fork();
            if (p == 0) {
                const std::string log = opt().out + ".err" + num(i);
                const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                if (fd >= 0) { dup2(fd, 2); close(fd); }
                Ctx c(sh, table, i, n);
                for (size_t s = 0; s < ns; ++s) {
                    if (!opt().only.empty() && ("," + opt().only + ",").find(std::string(",") + spaces()[s].name + ",") == std::string::npos) continue;
                    c.run(uint32_t(s));
                }
                sh->w[i].done = 1;
                _exit(0);
            }
            return p;
        }
    };
    for (int i = 0; i < n; ++i) { pid[i] = Spawn::go(sh, table, i, n, ns); Watch z = { 0, 0, 0 }; watch[i] = z; ++alive; }
    int ticks = 0;
    while (alive > 0) {
        usleep(20000);
        ++ticks;
        for (int i = 0; i < n; ++i) {
            if (!pid[i]) continue;
            int st = 0;
            const pid_t r = waitpid(pid[i], &st, WNOHANG);
            Worker& w = sh->w[i];
            if (r == pid[i]) {
                pid[i] = 0; --alive;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.done) continue;
                const std::string log = tail(o.out + ".err" + num(i));
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { infra = "worker killed (memory?) " + log; continue; }
                Found f; f.space = w.space; f.index = w.index; f.kind = "crash"; f.worker = i; f.history = false;
                f.text = (WIFSIGNALED(st) ? "killed by signal " + num(WTERMSIG(st)) : "exited with status " + num(WEXITSTATUS(st))) + " " + log;
                found.push_back(f);
            } else if (ticks % 50 == 0) {
                const double cpu = cpu_of(pid[i]);
                if (watch[i].s != w.space || watch[i].i != w.index) { Watch z = { w.space, w.index, cpu }; watch[i] = z; }
                else if (cpu - watch[i].cpu > 25) {
                    kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = 0; --alive;
                    Found f; f.space = w.space; f.index = w.index; f.kind = "hang"; f.worker = i; f.history = false; f.text = "no progress for 25 s of CPU time"; found.push_back(f);
                }
            }
        }
    }
    for (int i = 0; i < n; ++i) {
        Worker& w = sh->w[i];
        for (uint32_t k = 0; k < w.nviol; ++k) { Found f; f.space = w.v[k].space; f.index = w.v[k].index; f.kind = "check"; f.worker = i; f.history = false; f.text = w.v[k].text; found.push_back(f); }
        std::remove((o.out + ".err" + num(i)).c_str());
    }
    // confirm by replaying the single case in a fresh process
    std::vector<Found> confirmed;
    size_t tried = 0;
    bool history_tried = false;
    for (size_t k = 0; k < found.size() && confirmed.size() < 12 && tried < 40; ++k, ++tried) {
        std::string t;
        int r = confirm(argv[0], found[k].space, found[k].index, 0, 0, t, found[k].kind == "hang" ? 90 : 60);
        if (r == 0 && !history_tried) { // needs what ran before it: re-execute that worker's history
            history_tried = true;
            r = confirm(argv[0], found[k].space, found[k].index, found[k].worker, n, t, 600);
            if (r) found[k].history = true;
        }
        if (r == 0) { notes.push_back("not reproduced: " + found[k].kind + " " + spaces()[found[k].space].name + ":" + num(found[k].index) + " " + found[k].text); continue; }
        if (r != 1 && found[k].kind == "check") found[k].text += " / replay: " + t;
        confirmed.push_back(found[k]);
    }
    FILE* f = std::fopen(o.out.c_str(), "w");
    if (!f) { std::perror("out"); return 3; }
    std::fprintf(f, "{\"tier\":\"%s\",\"complete\":%s,\"infra\":\"%s\",\"spaces\":[", o.tier.c_str(), found.empty() && infra.empty() ? "true" : "false", json(infra).c_str());
    for (size_t s = 0; s < ns; ++s) {
        uint64_t cases = 0, steps = 0, states = 0;
        for (int i = 0; i < n; ++i) { cases += sh->w[i].c[s].cases; steps += sh->w[i].c[s].steps; states += sh->w[i].c[s].states; }
        std::fprintf(f, "%s{\"name\":\"%s\",\"what\":\"%s\",\"cases\":%llu,\"steps\":%llu,\"states\":%llu,\"samples\":[", s ? "," : "", spaces()[s].name, json(spaces()[s].what).c_str(),
            (unsigned long long) cases, (unsigned long long) steps, (unsigned long long) states);
        int k = 0;
        for (int i = 0; i < n && k < MAX_SAMPLES; ++i)
            for (uint32_t q = 0; q < sh->w[i].nsamples[s] && k < MAX_SAMPLES; ++q, ++k)
                std::fprintf(f, "%s\"%s\"", k ? "," : "", json(sh->w[i].samples[s][q]).c_str());
        std::fprintf(f, "]}");
    }
    std::fprintf(f, "],\"violations\":[");
    for (size_t k = 0; k < confirmed.size(); ++k)
        std::fprintf(f, "%s{\"space\":%u,\"name\":\"%s\",\"index\":%llu,\"kind\":\"%s\",\"shard\":\"%s\",\"text\":\"%s\"}", k ? "," : "", confirmed[k].space, spaces()[confirmed[k].space].name,
            (unsigned long long) confirmed[k].index, confirmed[k].kind.c_str(), confirmed[k].history ? (num(confirmed[k].worker) + "/" + num(n)).c_str() : "", json(confirmed[k].text).c_str());
    std::fprintf(f, "],\"notes\":[");
    for (size_t k = 0; k < notes.size(); ++k) std::fprintf(f, "%s\"%s\"", k ? "," : "", json(notes[k]).c_str());
    std::fprintf(f, "]}\n");
    std::fclose(f);
    if (!confirmed.empty()) return 1;
    if (!infra.empty() || !notes.empty()) return 3;
    return 0;
}

} // namespace mc

#define MC_SPACE(name, what) \
    static void mc_space_##name(mc::Ctx&); \
    static mc::Register mc_reg_##name(#name, what, mc_space_##name); \
    static void mc_space_##name(mc::Ctx& c)

// one observation of the implementation compared with the oracle
#define MC_CHECK(cond, text) do { c.step(); if (!(cond)) c.fail(std::string() + text); } while (0)

#endif // MC_HPP
