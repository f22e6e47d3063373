#include "mc.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
static double now()
{ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

std::string vfmt(const char* f, va_list ap)
{
    va_list a2; va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    std::string s(n, 0);
    vsnprintf(&s[0], n + 1, f, a2);
    va_end(a2);
    return s;
}
std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
uint64_t hash(const std::string& s)
{ uint64_t h = 1469598103934665603ull; for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }

constexpr int MAXD = 65536;
struct Shared {
    volatile uint64_t cases;
    volatile int scenario, depth, in_case;
    int choice[MAXD], arity[MAXD];
};
static Shared* sh = nullptr;

void Ctx::reset()
{ pos = 0; trace.clear(); nontriv = false; steps = 0; nvalid = 0; weight = 1; decided = nshards == 1; prefix = 1469598103934665603ull; }
void Ctx::decide()
{
    if ( decided ) return;
    decided = true;
    if ( (int)(mix(prefix, 77) % nshards) != shard ) throw Skip();
}
int Ctx::choose(int n)
{
    if ( n <= 0 ) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
    if ( n == 1 ) return 0;
    if ( !decided ) { if ( weight >= 200.0 * nshards ) { decide(); } }
    int v;
    if ( pos < stack.size() ) {
        v = stack[pos];
        if ( pos < arity.size() ? arity[pos] != n : (replaying && v >= n) ) {
            fprintf(stderr, "mc: replay diverged at choice %zu: arity %d, was %d\n", pos, n, pos < arity.size() ? arity[pos] : -1);
            abort();
        }
        if ( pos >= arity.size() ) arity.push_back(n);
    }
    else { v = 0; stack.push_back(0); arity.push_back(n); }
    if ( sh && pos < MAXD ) { sh->choice[pos] = v; sh->arity[pos] = n; sh->depth = (int)pos + 1; }
    ++pos;
    if ( !decided ) { prefix = mix(prefix, v); weight *= n; }
    return v;
}
void Ctx::fail(const std::string& sig, const char* f, ...)
{ va_list ap; va_start(ap, f); Violation v { sig, vfmt(f, ap) }; va_end(ap); throw v; }
void Ctx::check(bool ok, const char* sig, const char* f, ...)
{ if ( ok ) return; va_list ap; va_start(ap, f); Violation v { sig, vfmt(f, ap) }; va_end(ap); throw v; }
void Ctx::note(const char* f, ...)
{ va_list ap; va_start(ap, f); if ( !trace.empty() ) trace += ' '; trace += vfmt(f, ap); va_end(ap); }
void Ctx::state(uint64_t h) { if ( states ) states->insert(h); }

Child in_child(const std::function<void(int)>& body, double limit)
{
    Child c;
    int p[2];
    if ( pipe(p) ) abort();
    fflush(nullptr);
    pid_t pid = fork();
    if ( pid == 0 ) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(p[0]);
        setpgid(0, 0);
        body(p[1]);
        fflush(nullptr);
        _exit(0);
    }
    close(p[1]);
    double end = now() + limit;
    char buf[65536];
    bool eof = false;
    while ( !eof ) {
        int ms = (int)((end - now()) * 1000);
        struct pollfd pf { p[0], POLLIN, 0 };
        int r = poll(&pf, 1, ms < 0 ? 0 : ms);
        if ( r == 0 ) { c.timeout = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); break; }
        ssize_t n = read(p[0], buf, sizeof buf);
        if ( n <= 0 ) eof = true; else c.out.append(buf, n);
    }
    close(p[0]);
    int st = 0;
    while ( true ) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if ( w == pid ) break;
        if ( now() > end && !c.timeout ) { c.timeout = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
        usleep(200);
    }
    kill(-pid, SIGKILL);
    if ( WIFSIGNALED(st) ) c.signal = WTERMSIG(st); else c.exit_code = WEXITSTATUS(st);
    return c;
}

struct Result {
    uint64_t evals = 0, nontriv = 0, steps = 0, valid = 0, maxdepth = 0, nodes = 0;
    std::unordered_set<uint64_t> distinct, states;
    std::vector<std::string> samples;
    std::map<std::string, std::array<std::string, 3>> viol; // sig -> msg, choices, trace
    std::map<std::string, uint64_t> violn;
    bool complete = true;
};
static std::string join(const std::vector<int>& v, size_t n)
{ std::string s; for ( size_t i = 0; i < n && i < v.size(); ++i ) { if ( i ) s += ','; s += std::to_string(v[i]); } return s; }
static std::string esc(const std::string& s)
{
    std::string o;
    for ( unsigned char c : s ) {
        if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
        else if ( c == '\n' ) o += "\\n";
        else if ( c < 32 || c >= 127 ) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o;
}
static void put_str(FILE* f, const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
static std::string get_str(FILE* f)
{ uint64_t n = 0; if ( fread(&n, 8, 1, f) != 1 ) return ""; std::string s(n, 0); if ( n && fread(&s[0], 1, n, f) != n ) return ""; return s; }
static void put_u(FILE* f, uint64_t v) { fwrite(&v, 8, 1, f); }
static uint64_t get_u(FILE* f) { uint64_t v = 0; if ( fread(&v, 8, 1, f) != 1 ) return 0; return v; }

// worker: explores scenario `si` starting after/at `stack`
static bool advance(std::vector<int>& st, std::vector<int>& ar)
{
    while ( !st.empty() ) {
        if ( st.back() + 1 < ar.back() ) { ++st.back(); return true; }
        st.pop_back(); ar.pop_back();
    }
    return false;
}
static void save(const std::string& path, const Result& r);
static void explore(const Scenario& sc, Ctx& c, Result& r, double deadline, const std::string& file)
{
    uint64_t k = 0;
    for ( ;; ) {
        c.reset();
        sh->depth = 0; sh->in_case = 1;
        bool counted = true, fresh = false;
        size_t known_prefix = c.stack.size(); // tree nodes on this prefix were visited before
        try { sc.body(c); c.decide(); }
        catch ( Skip& ) { counted = false; }
        catch ( Discard& ) { counted = false; }
        catch ( Violation& v ) {
            bool mine = true;
            try { c.decide(); } catch ( Skip& ) { mine = false; }
            counted = mine;
            if ( mine && !r.violn[v.sig]++ )
                { r.viol[v.sig] = { v.msg, join(c.stack, c.pos), c.trace }; fresh = true; }
        }
        sh->in_case = 0;
        sh->cases = sh->cases + 1;
        // forget choices the execution did not reach (a violation may stop it early)
        if ( c.stack.size() > c.pos ) { c.stack.resize(c.pos); c.arity.resize(c.pos); }
        if ( counted ) {
            ++r.evals; r.nodes += 1 + (c.pos > known_prefix ? c.pos - known_prefix : 0); r.steps += c.steps; r.valid += c.nvalid; r.maxdepth = std::max<uint64_t>(r.maxdepth, c.pos);
            if ( c.nontriv ) {
                ++r.nontriv;
                if ( r.distinct.size() < 20000000 ) r.distinct.insert(hash(c.trace));
                uint64_t n = r.nontriv;
                if ( r.samples.size() < 3 && (n == 1 || n == 50 || n == 2000) ) r.samples.push_back(c.trace.substr(0, 600));
            }
        }
        if ( fresh ) save(file, r);
        if ( !advance(c.stack, c.arity) ) return;
        if ( (++k & 15) == 0 && now() > deadline ) { r.complete = false; return; }
    }
}
static void save(const std::string& path, const Result& r)
{
    FILE* f = fopen(path.c_str(), "wb");
    put_u(f, r.evals); put_u(f, r.nontriv); put_u(f, r.steps); put_u(f, r.valid); put_u(f, r.maxdepth); put_u(f, r.nodes); put_u(f, r.complete);
    put_u(f, r.distinct.size()); for ( auto h : r.distinct ) put_u(f, h);
    put_u(f, r.states.size()); for ( auto h : r.states ) put_u(f, h);
    put_u(f, r.samples.size()); for ( auto& s : r.samples ) put_str(f, s);
    put_u(f, r.viol.size());
    for ( auto& v : r.viol ) { put_str(f, v.first); for ( auto& s : v.second ) put_str(f, s); put_u(f, r.violn.at(v.first)); }
    fclose(f);
}
static bool load(const std::string& path, Result& r)
{
    FILE* f = fopen(path.c_str(), "rb");
    if ( !f ) return false;
    r.evals += get_u(f); r.nontriv += get_u(f); r.steps += get_u(f); r.valid += get_u(f); r.maxdepth = std::max(r.maxdepth, get_u(f)); r.nodes += get_u(f);
    if ( !get_u(f) ) r.complete = false;
    for ( uint64_t n = get_u(f); n; --n ) r.distinct.insert(get_u(f));
    for ( uint64_t n = get_u(f); n; --n ) r.states.insert(get_u(f));
    for ( uint64_t n = get_u(f); n; --n ) { auto s = get_str(f); if ( r.samples.size() < 6 ) r.samples.push_back(s); }
    for ( uint64_t n = get_u(f); n; --n ) {
        std::string sig = get_str(f); std::array<std::string, 3> a; for ( auto& s : a ) s = get_str(f);
        uint64_t cnt = get_u(f);
        // keep the counterexample with the fewest choices
        auto it = r.viol.find(sig);
        if ( it == r.viol.end() || a[1].size() < it->second[1].size() ) r.viol[sig] = a;
        r.violn[sig] += cnt;
    }
    fclose(f);
    return true;
}

int run(int argc, char** argv, const std::vector<Scenario>& scenarios)
{
    std::string only, choices, out; bool have_choices = false; int jobs = 0; double maxs = 1e9; bool thorough = false; int solo_shard = -1;
    bool want_list = false;
    for ( int i = 1; i < argc; ++i ) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if ( a == "--scenario" ) only = next();
        else if ( a == "--choices" ) { choices = next(); have_choices = true; }
        else if ( a == "--out" ) out = next();
        else if ( a == "--jobs" ) jobs = atoi(next().c_str());
        else if ( a == "--max-seconds" ) maxs = atof(next().c_str());
        else if ( a == "--thorough" ) thorough = true;
        else if ( a == "--shard" ) solo_shard = atoi(next().c_str());
        else if ( a == "--list" ) want_list = true;
    }
    if ( want_list ) { for ( auto& s : scenarios ) puts(s.name.c_str()); return 0; }
    if ( have_choices ) {
        for ( auto& sc : scenarios ) if ( sc.name == only ) {
            Ctx c; c.replaying = true; c.thorough_ = thorough;
            std::stringstream ss(choices); std::string t;
            while ( std::getline(ss, t, ',') ) if ( !t.empty() ) c.stack.push_back(atoi(t.c_str()));
            c.reset();
            int rc = 0;
            try { sc.body(c); printf("REPLAY ok\n"); }
            catch ( Discard& ) { printf("REPLAY discarded\n"); }
            catch ( Violation& v ) { printf("REPLAY violation sig=%s msg=%s\n", v.sig.c_str(), v.msg.c_str()); rc = 1; }
            printf("REPLAY trace=%s\n", c.trace.c_str());
            fflush(stdout);
            return rc;
        }
        fprintf(stderr, "no scenario %s\n", only.c_str());
        return 2;
    }
    if ( jobs <= 0 ) jobs = std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
    std::string dir = "/tmp/vmc." + std::to_string(getpid());
    if ( system(("mkdir -p " + dir).c_str()) ) return 2;
    double t0 = now();
    std::vector<Shared*> shs(jobs);
    const int all_jobs = jobs;
    for ( auto& s : shs ) {
        s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if ( s == MAP_FAILED ) abort();
    }
    std::string js = "{\"scenarios\":[";
    int nviol = 0;
    bool first = true;
    for ( size_t si = 0; si < scenarios.size(); ++si ) {
        const Scenario& sc = scenarios[si];
        if ( !only.empty() && sc.name != only ) continue;
        double ts = now();
        double deadline = t0 + maxs;
        struct W { pid_t pid = -1; uint64_t last = 0; double t = 0; int part = 0; bool done = false; std::vector<int> st, ar; int killed = 0; };
        jobs = std::min(all_jobs, sc.max_jobs);
        std::vector<W> ws(jobs);
        Result total;
        std::vector<std::string> files;
        auto spawn = [&](int w) {
            W& x = ws[w];
            std::string file = fmt("%s/%zu.%d.%d", dir.c_str(), si, w, x.part++);
            files.push_back(file);
            shs[w]->depth = 0; shs[w]->in_case = 0;
            x.last = shs[w]->cases; x.t = now(); x.killed = 0;
            fflush(nullptr);
            x.pid = fork();
            if ( x.pid == 0 ) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                setpgid(0, 0);
                sh = shs[w];
                Ctx c; c.thorough_ = thorough; c.shard = w; c.nshards = jobs; c.stack = x.st; c.arity = x.ar;
                Result r; c.states = &r.states;
                explore(sc, c, r, deadline, file);
                save(file, r);
                fflush(nullptr);
                _exit(0);
            }
        };
        for ( int w = 0; w < jobs; ++w ) {
            if ( solo_shard >= 0 && w != solo_shard ) { ws[w].done = true; continue; }
            spawn(w);
        }
        int crashes = 0;
        for ( ;; ) {
            bool alive = false;
            for ( int w = 0; w < jobs; ++w ) {
                W& x = ws[w];
                if ( x.done ) continue;
                alive = true;
                int st;
                pid_t p = waitpid(x.pid, &st, WNOHANG);
                if ( p == 0 ) {
                    if ( shs[w]->cases != x.last ) { x.last = shs[w]->cases; x.t = now(); }
                    else if ( now() - x.t > sc.case_limit_s && !x.killed ) { x.killed = 1; kill(-x.pid, SIGKILL); kill(x.pid, SIGKILL); }
                    continue;
                }
                kill(-x.pid, SIGKILL);
                if ( WIFEXITED(st) && WEXITSTATUS(st) == 0 && !shs[w]->in_case ) { x.done = true; continue; }
                // died inside a case: record it and resume behind it
                int d = shs[w]->depth;
                std::vector<int> cst(shs[w]->choice, shs[w]->choice + d), car(shs[w]->arity, shs[w]->arity + d);
                std::string sig = x.killed ? "hang" : WIFSIGNALED(st) ? fmt("crash:signal%d", WTERMSIG(st)) : fmt("exit:%d", WEXITSTATUS(st));
                std::string msg = x.killed ? fmt("an execution did not finish within %.0f s", sc.case_limit_s)
                                           : fmt("the process ended inside an execution (%s)", sig.c_str());
                if ( !total.violn[sig]++ ) total.viol[sig] = { msg, join(cst, d), "" };
                total.evals += 1;
                ++crashes;
                x.st = cst; x.ar = car;
                bool more = advance(x.st, x.ar);
                if ( crashes > 40 ) { total.complete = false; more = false; }
                if ( !more ) { x.done = true; continue; }
                spawn(w);
            }
            if ( !alive ) break;
            usleep(crashes ? 2000 : 1000);
        }
        for ( auto& f : files ) load(f, total);
        js += fmt("%s{\"name\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,"
                  "\"validated\":%llu,\"max_choices\":%llu,\"tree_nodes\":%llu,\"complete\":%s,\"wall_s\":%.2f,\"samples\":[",
            first ? "" : ",", esc(sc.name).c_str(), (unsigned long long)total.evals, (unsigned long long)total.nontriv,
            (unsigned long long)total.distinct.size(), (unsigned long long)total.states.size(), (unsigned long long)total.steps,
            (unsigned long long)total.valid, (unsigned long long)total.maxdepth, (unsigned long long)total.nodes, total.complete ? "true" : "false", now() - ts);
        first = false;
        for ( size_t i = 0; i < total.samples.size(); ++i ) js += fmt("%s\"", i ? "," : "") + esc(total.samples[i]) + "\"";
        js += "],\"violations\":[";
        size_t i = 0;
        for ( auto& v : total.viol ) {
            js += fmt("%s{\"sig\":\"", i++ ? "," : "") + esc(v.first) + "\",\"msg\":\"" + esc(v.second[0].substr(0, 2000)) + "\",\"choices\":\"" + v.second[1] +
                  "\",\"trace\":\"" + esc(v.second[2].substr(0, 4000)) + fmt("\",\"count\":%llu}", (unsigned long long)total.violn[v.first]);
            ++nviol;
        }
        js += "]}";
        printf("%-34s evaluations=%llu distinct=%llu states=%llu transitions=%llu complete=%d violations=%zu %.1fs\n", sc.name.c_str(),
            (unsigned long long)total.evals, (unsigned long long)total.distinct.size(), (unsigned long long)total.states.size(),
            (unsigned long long)total.steps, total.complete, total.viol.size(), now() - ts);
        fflush(stdout);
        for ( auto& f : files ) unlink(f.c_str());
    }
    js += "]}";
    rmdir(dir.c_str());
    if ( !out.empty() ) { std::ofstream o(out); o << js; }
    return nviol ? 1 : 0;
}
} // namespace mc
