#include "simlib.h"
#include "mpi.h"
#include "sst/core/rng/marsaglia.h"

#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <queue>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>

extern int sst_main(int argc, char** argv);

// ---- record arena shared with the ranks
namespace {
struct Arena { volatile uint32_t n; vs::Rec r[1 << 16]; };
Arena* arena = nullptr;
}
extern "C" void
vt_log(int comp, char kind, int i, uint64_t t, int64_t a, int64_t b, unsigned rank, unsigned thread)
{
    if ( !arena ) return;
    uint32_t k = __atomic_fetch_add(&arena->n, 1, __ATOMIC_RELAXED);
    if ( k >= sizeof(arena->r) / sizeof(arena->r[0]) ) { fprintf(stderr, "too many records\n"); kill(0, SIGKILL); }
    arena->r[k] = vs::Rec { comp, kind, i, t, a, b, rank, thread };
}

namespace sl {
using mc::fmt;

static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static std::string ps(int64_t v) { return std::to_string(v) + "ps"; }

static std::string ports_str(const Model& m, const CompM& c, int owner)
{
    std::string s;
    for ( auto& p : c.ports ) {
        if ( p.owner != owner ) continue;
        if ( !s.empty() ) s += ",";
        s += (p.idx >= 10 && p.owner == 1 ? "q" : "p") + std::to_string(p.idx) + ":" + p.mode + ":" + (p.dflt ? std::string() : ps(p.tb * m.tb));
        if ( p.sendlat ) s += ":S" + ps(p.sendlat * m.tb);
        if ( p.recvlat ) s += ":R" + ps(p.recvlat * m.tb);
    }
    return s;
}

std::string
to_json(const Model& m, bool placed)
{
    std::string j = "{\n \"program_options\": {";
    bool first = true;
    for ( auto& o : m.options ) { j += fmt("%s\n  \"%s\": \"%s\"", first ? "" : ",", o.first.c_str(), o.second.c_str()); first = false; }
    j += "\n },\n \"components\": [";
    for ( size_t i = 0; i < m.comps.size(); ++i ) {
        auto& c = m.comps[i];
        j += fmt("%s\n  {\"name\": \"c%zu\", \"type\": \"vtest.Node\", \"params\": {\"id\": \"%zu\", \"script\": \"%s\", \"ports\": \"%s\", \"clocks\": \"", i ? "," : "", i, i,
            c.script.c_str(), ports_str(m, c, 0).c_str());
        for ( size_t k = 0; k < c.clocks.size(); ++k ) j += fmt("%s%ldps:%c", k ? "," : "", (long)(c.clocks[k].period * m.tb), c.clocks[k].kind);
        j += fmt("\", \"primary\": \"%d\", \"stats\": \"%d\", \"seed\": \"%d\"", (int)c.primary, c.stats, c.seed);
        std::string an = ports_str(m, c, 2);
        if ( !an.empty() ) j += fmt(", \"anon\": \"%s\"", an.c_str());
        for ( auto& p : c.params ) j += fmt(", \"%s\": \"%s\"", p.first.c_str(), p.second.c_str());
        j += "}";
        if ( placed ) j += fmt(", \"partition\": {\"rank\": %d, \"thread\": %d}", c.rank, c.thread);
        auto mods = [&](int owner) {
            std::string s;
            for ( auto& d : c.mods ) {
                const PortM* p = c.port(d.port);
                if ( !p || (p->owner == 1) != (owner == 1) ) continue;
                if ( d.prob >= 0 ) {
                    s += fmt("%s{\"port\": \"%s%d\", \"type\": \"sst.portmodules.random_drop\", \"params\": {\"drop_prob\": \"%.17g\", \"drop_on_send\": \"%s\", \"rngseed\": \"%u\"}}", s.empty() ? "" : ", ",
                        p->idx >= 10 && owner == 1 ? "q" : "p", d.port, d.prob, d.send ? "true" : "false", d.seed);
                    continue;
                }
                s += fmt("%s{\"port\": \"%s%d\", \"type\": \"vtest.pm\", \"params\": {\"id\": \"%d\", \"acts\": \"%s\", \"send\": \"%d\", \"recv\": \"%d\"%s}%s}", s.empty() ? "" : ", ",
                    p->idx >= 10 && owner == 1 ? "q" : "p", d.port, d.id, d.acts.c_str(), (int)d.send, (int)d.recv,
                    d.extra_json.empty() ? "" : ", \"stats\": \"1\"", d.extra_json.c_str());
            }
            return s.empty() ? s : ", \"port_modules\": [" + s + "]";
        };
        std::string sub = ports_str(m, c, 1);
        if ( !sub.empty() || !c.sub_params.empty() ) {
            std::string sp;
            for ( auto& p : c.sub_params ) sp += fmt(", \"%s\": \"%s\"", p.first.c_str(), p.second.c_str());
            j += fmt(", \"subcomponents\": [{\"slot_name\": \"s\", \"slot_number\": 0, \"type\": \"vtest.Sub\", \"params\": {\"id\": \"%zu\", \"ports\": \"%s\"%s}%s%s}]", i, sub.c_str(), sp.c_str(), mods(1).c_str(),
                c.sub_json.c_str());
        }
        j += mods(0);
        j += c.extra_json + "}";
    }
    j += "\n ],\n \"links\": [";
    for ( size_t i = 0; i < m.links.size(); ++i ) {
        auto& l = m.links[i];
        auto end = [&](int c, int p) {
            const PortM* pm = m.comps[c].port(p);
            bool sub = pm && pm->owner == 1;
            return fmt("\"component\": \"c%d%s\", \"port\": \"%s%d\"", c, sub ? ":s" : "", sub ? "q" : "p", p);
        };
        j += fmt("%s\n  {\"name\": \"l%zu\", \"noCut\": %s, \"left\": {%s, \"latency\": \"%s\"}, \"right\": {%s, \"latency\": \"%s\"}}", i ? "," : "", i, l.nocut ? "true" : "false",
            end(l.a, l.pa).c_str(), ps(l.la * m.tb).c_str(), end(l.b, l.pb).c_str(), ps(l.lb * m.tb).c_str());
    }
    j += "\n ]" + m.extra_json + "\n}\n";
    return j;
}

std::string
Model::describe() const
{
    std::string s;
    for ( size_t i = 0; i < comps.size(); ++i ) {
        auto& c = comps[i];
        s += fmt("c%zu@%d.%d%s{", i, c.rank, c.thread, c.primary ? "*" : "");
        s += ports_str(*this, c, 0);
        std::string u = ports_str(*this, c, 1);
        if ( !u.empty() ) s += " sub:" + u;
        u = ports_str(*this, c, 2);
        if ( !u.empty() ) s += " anon:" + u;
        for ( auto& k : c.clocks ) s += fmt(" clk%ld%c", (long)k.period, k.kind);
        for ( auto& d : c.mods ) s += fmt(" mod%d@p%d%s%s:%s", d.id, d.port, d.send ? "S" : "", d.recv ? "R" : "", d.prob < 0 ? d.acts.c_str() : fmt("drop%g/%u", d.prob, d.seed).c_str());
        s += " " + c.script + "} ";
    }
    for ( auto& l : links ) s += fmt("c%d.p%d-%ld/%ld-c%d.p%d%s ", l.a, l.pa, (long)l.la, (long)l.lb, l.b, l.pb, l.nocut ? "!" : "");
    for ( auto& o : options ) s += o.first + "=" + o.second + " ";
    return s;
}

std::string
scratch_dir()
{
    static int n = 0;
    static std::string base;
    if ( base.empty() ) base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::string d = fmt("%s/vsim.%d.%d", base.c_str(), (int)getpid(), n++);
    mkdir(d.c_str(), 0700);
    return d;
}
void
remove_dir(const std::string& d)
{
    if ( d.find("/vsim.") == std::string::npos ) return;
    if ( DIR* p = opendir(d.c_str()) ) {
        while ( auto* e = readdir(p) ) {
            std::string n = e->d_name;
            if ( n == "." || n == ".." ) continue;
            std::string f = d + "/" + n;
            struct stat st;
            if ( lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode) ) remove_dir(f); else unlink(f.c_str());
        }
        closedir(p);
    }
    rmdir(d.c_str());
}
std::string
read_file(const std::string& p)
{
    std::string s;
    if ( FILE* f = fopen(p.c_str(), "r") ) { char b[65536]; size_t n; while ( (n = fread(b, 1, sizeof b, f)) > 0 ) s.append(b, n); fclose(f); }
    return s;
}

static std::string build_dir()
{
    const char* e = getenv("VERIF_BUILD_DIR");
    if ( e ) return e;
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    std::string s(b, n > 0 ? n : 0);
    return s.substr(0, s.rfind('/'));
}

static void
preload()
{
    static bool done = false;
    if ( done ) return;
    done = true;
    std::string so = build_dir() + "/libvtest.so";
    if ( !dlopen(so.c_str(), RTLD_NOW | RTLD_GLOBAL) ) { fprintf(stderr, "dlopen: %s\n", dlerror()); abort(); }
}

static void
on_crash(int sig)
{
    void* b[40];
    int   n = backtrace(b, 40);
    backtrace_symbols_fd(b, n, 2);
    signal(sig, SIG_DFL);
    raise(sig);
}
static int
rank_body(const std::string& dir, const std::vector<std::string>& args)
{
    if ( chdir(dir.c_str()) ) return 90;
    void* warm[2];
    backtrace(warm, 2);
    for ( int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL } ) signal(s, on_crash);
    std::vector<char*> av;
    for ( auto& a : args ) av.push_back(strdup(a.c_str()));
    av.push_back(nullptr);
    optind = 0;
    int r = sst_main((int)av.size() - 1, av.data());
    fflush(nullptr);
    return r;
}

Run
run_sim(const Model& m, const Opts& o)
{
    preload();
    if ( !arena ) {
        arena = (Arena*)mmap(nullptr, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if ( arena == MAP_FAILED ) abort();
    }
    arena->n = 0;
    std::string dir = o.dir.empty() ? scratch_dir() : o.dir;
    std::string file = o.load;
    if ( file.empty() ) {
        file = dir + "/model.json";
        FILE* f = fopen(file.c_str(), "w");
        std::string j = o.json.empty() ? to_json(m, o.selfpart) : o.json;
        fwrite(j.data(), 1, j.size(), f);
        fclose(f);
    }
    std::vector<std::string> args = { "sstsim.x", "--add-lib-path=" + build_dir(), fmt("--num-threads=%d", o.threads) };
    if ( o.selfpart && o.load.empty() ) args.push_back("--partitioner=sst.self");
    for ( auto& a : o.args ) args.push_back(a);
    // the core remembers the working directory of program start
    args.push_back("--output-directory=" + dir);
    args.push_back(file);
    std::string outp = dir + "/.out";
    fflush(nullptr);
    if ( o.ranks > 1 ) vmpi_setup(o.ranks);
    std::vector<pid_t> pids;
    pid_t              grp = 0;
    for ( int r = 0; r < o.ranks; ++r ) {
        pid_t p = fork();
        if ( p == 0 ) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, grp);
            int fd = open(outp.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
            dup2(fd, 1);
            dup2(fd, 2);
            int nul = open("/dev/null", O_RDONLY);
            dup2(nul, 0);
            if ( o.ranks > 1 ) vmpi_enter(r);
            int rc = rank_body(dir, args);
            _exit(rc);
        }
        if ( r == 0 ) grp = p;
        setpgid(p, grp);
        pids.push_back(p);
    }
    Run    res;
    double end = now() + o.limit, failed_at = 0;
    size_t left = pids.size();
    int    us = 100;
    while ( left ) {
        bool any = false;
        for ( auto& p : pids ) {
            if ( !p ) continue;
            int st;
            if ( waitpid(p, &st, WNOHANG) == p ) {
                p = 0;
                --left;
                any = true;
                int s = WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
                if ( s && (res.status == 0 || (res.status == -SIGKILL) || (s < 0 && res.status > 0 && s != -SIGKILL)) ) res.status = s;
                if ( s && !failed_at ) failed_at = now();
            }
        }
        if ( any || !left ) continue;
        if ( failed_at && now() > failed_at + 0.5 ) { for ( auto p : pids ) if ( p ) kill(p, SIGKILL); }
        if ( now() > end ) { res.timeout = true; for ( auto p : pids ) if ( p ) kill(p, SIGKILL); end = now() + 5; }
        usleep(us);
        if ( us < 1000 ) us += 100;
    }
    kill(-grp, SIGKILL);
    if ( o.ranks > 1 ) vmpi_teardown();
    res.recs.assign(arena->r, arena->r + std::min<uint32_t>((uint32_t)arena->n, sizeof(arena->r) / sizeof(arena->r[0])));
    res.out = read_file(outp);
    if ( o.dir.empty() ) {
        if ( DIR* p = opendir(dir.c_str()) ) {
            while ( auto* e = readdir(p) ) {
                std::string n = e->d_name;
                struct stat st;
                if ( n[0] == '.' || n == "model.json" ) continue;
                if ( stat((dir + "/" + n).c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_size < 1000000 ) res.files[n] = read_file(dir + "/" + n);
            }
            closedir(p);
        }
        remove_dir(dir);
    }
    return res;
}

std::string
rec_str(const vs::Rec& r)
{
    return fmt("%lu %c%d %ld %ld", (unsigned long)r.t, r.kind, r.i, (long)r.a, (long)r.b);
}
std::map<int, std::vector<std::string>>
lines(const std::vector<vs::Rec>& rs, uint64_t upto, bool with_rank)
{
    std::map<int, std::vector<std::string>> o;
    for ( auto& r : rs )
        if ( r.t <= upto ) o[r.comp].push_back(rec_str(r) + (with_rank ? fmt(" @%u.%u", r.rank, r.thread) : ""));
    return o;
}
std::string
diff(const std::map<int, std::vector<std::string>>& want, const std::map<int, std::vector<std::string>>& got)
{
    std::set<int> ks;
    for ( auto& w : want ) ks.insert(w.first);
    for ( auto& w : got ) ks.insert(w.first);
    static const std::vector<std::string> none;
    for ( int k : ks ) {
        auto wi = want.find(k), gi = got.find(k);
        auto &w = wi == want.end() ? none : wi->second, &g = gi == got.end() ? none : gi->second;
        size_t n = std::max(w.size(), g.size());
        for ( size_t i = 0; i < n; ++i ) {
            std::string a = i < w.size() ? w[i] : "-", b = i < g.size() ? g[i] : "-";
            if ( a != b ) {
                std::string ctx;
                for ( size_t j = i > 3 ? i - 3 : 0; j < i; ++j ) ctx += " [" + w[j] + "]";
                return fmt("c%d record %zu: expected '%s' got '%s' after%s", k, i, a.c_str(), b.c_str(), ctx.c_str());
            }
        }
    }
    return "";
}
void
canon_clocks(const Model& m, std::vector<vs::Rec>& r)
{
    std::map<int, std::vector<size_t>> byc;
    for ( size_t i = 0; i < r.size(); ++i ) byc[r[i].comp].push_back(i);
    for ( auto& kv : byc ) {
        if ( kv.first < 0 || kv.first >= (int)m.comps.size() ) continue;
        auto& clk = m.comps[kv.first].clocks;
        auto& ix  = kv.second;
        for ( size_t i = 0; i < ix.size(); ) {
            if ( r[ix[i]].kind != 'C' ) { ++i; continue; }
            // blocks: a clock record and what follows it up to the next one, all at the same time
            std::vector<std::pair<std::pair<int64_t, bool>, std::vector<vs::Rec>>> blocks;
            size_t j = i;
            for ( ; j < ix.size() && r[ix[j]].t == r[ix[i]].t && strchr("Crqg", r[ix[j]].kind); ++j ) {
                auto& x = r[ix[j]];
                if ( x.kind == 'C' ) blocks.push_back({ { clk[x.i].period, strchr("oOL", clk[x.i].kind) != nullptr }, {} });
                blocks.back().second.push_back(x);
            }
            std::stable_sort(blocks.begin(), blocks.end(), [](auto& a, auto& b) { return a.first < b.first; });
            size_t k = i;
            for ( auto& b : blocks ) for ( auto& x : b.second ) r[ix[k++]] = x;
            i = j;
        }
    }
}

// ------------------------------------------------------------------ reference
namespace {
struct Pend { uint64_t t; int prio; uint64_t tag; uint64_t seq; char what; int comp, port; int64_t v; uint64_t sent; bool null; };
struct PendCmp { bool operator()(const Pend& a, const Pend& b) const { return std::tie(a.t, a.prio, a.tag, a.seq) > std::tie(b.t, b.prio, b.tag, b.seq); } };

struct Interp
{
    const Model&   m;
    const RefOpts& o;
    Ref            out;
    std::priority_queue<Pend, std::vector<Pend>, PendCmp> q;
    uint64_t now = 0, seq = 0;
    int      prio = 0;
    char     phase = 'c'; // c construct, i init, s setup, r run, k complete, f finish
    struct Clk { int64_t period; bool ordered, active = false, reg = false; uint64_t order = 0; uint64_t from = 0; };
    struct CS
    {
        std::vector<vs::Rule> rules;
        std::vector<Clk>      clk;
        bool                  okend = true;
        int                   nev = 0;
        std::map<int, std::vector<Pend>> poll, unt, unt_next;
        bool                  ret = false;
        uint64_t              order = 0;
    };
    std::vector<CS> cs;
    std::map<std::pair<int, int>, std::tuple<int, int, int64_t>> wire; // (comp,port) -> (comp, port, latency)
    std::map<std::pair<int, int>, uint64_t> tag;                       // receive side tag
    // a module that both sends and receives counts the events of both sides
    struct Mod { const ModM* first; size_t second; std::shared_ptr<SST::RNG::MarsagliaRNG> rng; uint64_t dropped; };
    std::map<std::pair<int, int>, std::vector<Mod>> mods;
    char fate(Mod& x, char kind, int64_t v)
    {
        ++x.second;
        if ( x.rng ) {
            bool d = x.rng->nextUniform() < x.first->prob;
            x.dropped += d;
            return d ? 'd' : '.';
        }
        out.recs.push_back(vs::Rec { 1000 + x.first->id, kind, 0, now, v, 0, 0, 0 });
        return x.second <= x.first->acts.size() ? x.first->acts[x.second - 1] : '.';
    }
    int64_t  agreed_at = -1;
    bool     after_withdraw = false;
    uint64_t phase_sent = 0;
    int      phase_no = 0;
    int      cur_clk = -1;

    Interp(const Model& mm, const RefOpts& oo) : m(mm), o(oo) {}

    void log(int c, char k, int i, int64_t a, int64_t b) { out.recs.push_back(vs::Rec { c, k, i, now, a, b, 0, 0 }); }
    bool undefined(const char* w) { if ( out.ok ) { out.ok = false; out.why = w; } return false; }

    // Inside a clock handler, the order relative to another clock (or, on the same clock, relative to the ordered
    // handlers for an unordered one) that ticks at the same instant is not specified.
    bool ambiguous(int c, int i)
    {
        if ( cur_clk < 0 ) return false;
        const Clk &k = cs[c].clk[i], &me = cs[c].clk[cur_clk];
        if ( now % k.period ) return false;
        if ( k.period == me.period && k.ordered == me.ordered ) return false;
        undefined("order of different clocks on one tick");
        return true;
    }
    // cycle at which clock k of component c fires next
    uint64_t next_cycle(const Clk& k) const
    {
        uint64_t c = now / k.period;
        if ( phase == 'r' && prio < 40 && now && now % k.period == 0 ) return c; // not reached yet on this tick
        return c + 1;
    }
    void activate(int c, int i)
    {
        Clk& k = cs[c].clk[i];
        if ( k.active ) return;
        k.active = true;
        k.from   = next_cycle(k);
        if ( !k.ordered || !k.reg ) k.order = cs[c].order++;
        k.reg = true;
    }
    void push(Pend p) { p.seq = seq++; q.push(p); }
    void send(int c, int port, int64_t v, int64_t delay, bool null)
    {
        const PortM* pm = m.comps[c].port(port);
        if ( !pm ) return;
        int dc, dp;
        int64_t lat;
        if ( pm->mode == 's' || pm->mode == 'P' ) { dc = c; dp = port; lat = pm->sendlat + pm->recvlat; }
        else {
            auto w = wire.find({ c, port });
            if ( w == wire.end() ) return;
            std::tie(dc, dp, lat) = w->second;
        }
        Pend p { now + (uint64_t)(delay + lat), 50, 0, 0, 'E', dc, dp, v, now, null };
        auto t = tag.find({ dc, dp });
        p.tag = t == tag.end() ? UINT32_MAX : t->second;
        auto md = mods.find({ c, port });
        if ( md != mods.end() )
            for ( auto& x : md->second ) {
                if ( !x.first->send ) continue;
                char a = fate(x, 'A', p.v);
                if ( a == 'd' ) return;
                if ( a == 'm' ) p.v += 1000;
                if ( a == 'r' ) p.v += 2000;
            }
        const PortM* rp = m.comps[dc].port(dp);
        if ( !rp ) { undefined("send to an unconfigured port"); return; }
        if ( rp->mode == 'p' || rp->mode == 'P' ) {
            // polled links hold the event from the moment it is sent; recv() hands it out once it is due
            auto& v = cs[dc].poll[dp];
            auto it = v.end();
            while ( it != v.begin() && (it - 1)->t > p.t ) --it;
            v.insert(it, p);
            return;
        }
        push(p);
    }
    void act(int c, const vs::Action& a, int64_t v)
    {
        CS& s = cs[c];
        ++out.steps;
        int64_t val = a.rel ? v + a.v : a.v;
        const PortM* pm = m.comps[c].port(a.i);
        switch ( a.op ) {
        case 's': if ( pm ) send(c, a.i, val, a.d * pm->tb, false); break;
        case 'c': if ( pm ) { if ( a.u % m.tb ) undefined("unit"); send(c, a.i, val, a.d * (a.u / m.tb), false); } break;
        case 'N': if ( pm ) send(c, a.i, 0, a.d * pm->tb, true); break;
        case 'u': {
            auto w = wire.find({ c, a.i });
            if ( w == wire.end() ) { if ( pm && (pm->mode == 's' || pm->mode == 'P') ) { cs[c].unt_next[a.i].push_back(Pend { 0, 0, 0, 0, 'U', c, a.i, val, 0, false }); ++phase_sent; } break; }
            cs[std::get<0>(w->second)].unt_next[std::get<1>(w->second)].push_back(Pend { 0, 0, 0, 0, 'U', 0, 0, val, 0, false });
            ++phase_sent;
            break;
        }
        case 'r': case 'a': {
            Clk& k = s.clk[a.i];
            if ( ambiguous(c, a.i) ) break;
            if ( !k.reg ) { undefined("activating a clock that was never registered"); break; }
            activate(c, a.i);
            log(c, 'r', a.i, (int64_t)next_cycle(k), a.op == 'a');
            break;
        }
        case 'x': case 'd':
            if ( ambiguous(c, a.i) ) break;
            if ( !s.clk[a.i].reg ) { undefined("deactivating a clock that was never registered"); break; }
            s.clk[a.i].active = false;
            break;
        case 'n': if ( ambiguous(c, a.i) ) break; if ( !s.clk[a.i].reg ) activate(c, a.i); break;
        case 'q': if ( ambiguous(c, a.i) ) break; log(c, 'q', a.i, (int64_t)next_cycle(s.clk[a.i]), s.clk[a.i].reg ? s.clk[a.i].active : -1); break;
        case 'R': s.ret = true; break;
        case 'P': {
            for ( int pass = 0; pass < 2; ++pass )
                for ( auto& kv : s.poll ) {
                    const PortM* p = m.comps[c].port(kv.first);
                    if ( (p->owner == 0) != (pass == 0) ) continue;
                    while ( !kv.second.empty() && kv.second.front().t <= now ) {
                        Pend e = kv.second.front();
                        kv.second.erase(kv.second.begin());
                        log(c, 'Q', kv.first, e.v, (int64_t)e.sent);
                        run(c, 'Q', kv.first, e.v, e.v);
                    }
                }
            break;
        }
        case 'W': break;
        case 'O': agree(c, true); break;
        case 'D': agree(c, false); break;
        case 't': break;
        case 'o': case 'z': {
            uint64_t at = (uint64_t)a.d + (a.op == 'o' ? now : 0);
            if ( std::make_pair(at, (int)a.v) <= std::make_pair(now, phase == 'r' ? prio : 0) ) break; // in the past: ignored
            if ( a.v == 40 || a.v == 50 ) { undefined("one-shot among clocks or events"); break; }
            push(Pend { at, (int)a.v, 0, 0, 'T', c, a.i, 0, now, false });
            break;
        }
        case 'g': undefined("random numbers have no reference here"); break;
        default: undefined("action"); break;
        }
    }
    void agree(int c, bool ok)
    {
        if ( !m.comps[c].primary ) return;
        if ( cs[c].okend == ok ) return;
        cs[c].okend = ok;
        bool all = true;
        for ( size_t i = 0; i < cs.size(); ++i ) all = all && (cs[i].okend || !m.comps[i].primary);
        if ( all && agreed_at < 0 ) agreed_at = (int64_t)now;
        if ( !ok && agreed_at >= 0 ) { if ( agreed_at == (int64_t)now ) agreed_at = -1; else after_withdraw = true; }
    }
    void run(int c, char trig, int i, int64_t v, int64_t cond)
    {
        for ( auto& r : cs[c].rules )
            if ( vs::match(r, trig, i, cond) )
                for ( auto& a : r.acts ) act(c, a, v);
    }
    void oneshots(int below)
    {
        while ( !q.empty() && q.top().t == now && q.top().what == 'T' && q.top().prio < below ) {
            // all one-shots of one time and priority run together
            std::vector<Pend> due;
            while ( !q.empty() && q.top().t == now && q.top().what == 'T' && (due.empty() || q.top().prio == due[0].prio) ) { due.push_back(q.top()); q.pop(); }
            prio = due[0].prio;
            for ( auto& p : due ) {
                log(p.comp, 'T', p.port, 0, 0);
                run(p.comp, 'T', p.port, 0, 0);
            }
        }
    }
    void g(int c) { int n = cs[c].nev++; run(c, 'G', n, n, n); }
    std::vector<int> owners(int c) const
    {
        std::vector<int> o;
        for ( int k : { 1, 2 } ) for ( auto& pm : m.comps[c].ports ) if ( pm.owner == k ) { o.push_back(k); break; }
        return o;
    }
    void untimed_phase(int p, char kind)
    {
        for ( auto& s : cs ) { s.unt.swap(s.unt_next); s.unt_next.clear(); }
        phase_sent = 0;
        for ( size_t c = 0; c < cs.size(); ++c ) {
            log(c, kind, 0, p, 0);
            auto drain = [&](int sub) {
                for ( auto& kv : cs[c].unt ) {
                    const PortM* pm = m.comps[c].port(kv.first);
                    if ( !pm || pm->owner != sub ) continue;
                    auto lst = kv.second;
                    kv.second.clear();
                    for ( auto& e : lst ) { log(c, 'U', kv.first, e.v, p); run(c, 'U', kv.first, e.v, e.v); }
                }
            };
            drain(0);
            run(c, kind, p, 0, p);
            for ( int o : owners(c) ) { log(c, kind == 'I' ? 'i' : 'k', 0, p, 0); drain(o); }
        }
    }
    void go()
    {
        cs.resize(m.comps.size());
        uint64_t t = 1;
        for ( size_t c = 0; c < m.comps.size(); ++c ) {
            auto& cm = m.comps[c];
            cs[c].rules = vs::parse(cm.script);
            cs[c].okend = !cm.primary;
            for ( int own = 0; own < 3; ++own )
                for ( auto& p : cm.ports ) {
                    if ( p.owner != own ) continue;
                    if ( p.mode == 'p' || p.mode == 'P' ) cs[c].poll[p.idx];
                    if ( p.mode == 'h' || p.mode == 'p' ) tag[{ (int)c, p.idx }] = t++;
                    for ( auto& d : cm.mods ) if ( d.port == p.idx ) mods[{ (int)c, p.idx }].push_back({ &d, 0, d.prob >= 0 ? std::make_shared<SST::RNG::MarsagliaRNG>(d.seed, 13u) : nullptr, 0 });
                }
            for ( auto& k : cm.clocks ) {
                Clk x;
                x.period  = k.period;
                x.ordered = k.kind == 'o' || k.kind == 'O' || k.kind == 'L';
                cs[c].clk.push_back(x);
            }
            for ( size_t i = 0; i < cm.clocks.size(); ++i ) if ( cm.clocks[i].kind == 'n' || cm.clocks[i].kind == 'o' ) activate(c, i);
        }
        for ( auto& l : m.links ) {
            auto ex = [&](int c, int p, bool send) { auto* pm = m.comps[c].port(p); return pm ? (send ? pm->sendlat : pm->recvlat) : 0; };
            wire[{ l.a, l.pa }] = { l.b, l.pb, l.la + ex(l.a, l.pa, true) + ex(l.b, l.pb, false) };
            wire[{ l.b, l.pb }] = { l.a, l.pa, l.lb + ex(l.b, l.pb, true) + ex(l.a, l.pa, false) };
        }
        phase = 'i';
        for ( phase_no = 0; phase_no < 600; ++phase_no ) {
            untimed_phase(phase_no, 'I');
            if ( !phase_sent ) break;
        }
        phase = 's';
        for ( size_t c = 0; c < cs.size(); ++c ) {
            log(c, 'S', 0, 0, 0);
            run(c, 'S', 0, 0, 0);
            for ( size_t k = owners(c).size(); k; --k ) log(c, 'x', 0, 0, 0);
        }
        phase = 'r';
        bool any_primary = false;
        for ( auto& c : m.comps ) any_primary = any_primary || c.primary;
        // run
        int64_t stop = o.stop ? (int64_t)o.stop : -1;
        while ( true ) {
            // next time: earliest event or clock tick
            uint64_t nt = UINT64_MAX;
            if ( !q.empty() ) nt = q.top().t;
            for ( auto& s : cs ) for ( auto& k : s.clk ) if ( k.active ) nt = std::min<uint64_t>(nt, k.from * (uint64_t)k.period);
            if ( agreed_at >= 0 && nt > (uint64_t)agreed_at + o.lag ) break;
            if ( stop >= 0 && nt >= (uint64_t)stop ) { if ( agreed_at < 0 ) break; if ( nt > (uint64_t)stop + o.lag ) break; }
            if ( nt == UINT64_MAX ) { if ( stop < 0 && agreed_at < 0 ) undefined("ran out of activities"); break; }
            if ( nt > o.horizon ) { undefined("horizon"); break; }
            now = nt;
            oneshots(40);
            prio = 40;
            // clocks: by component, in registration order
            for ( size_t c = 0; c < cs.size(); ++c ) {
                auto& s = cs[c];
                std::vector<std::tuple<bool, int64_t, uint64_t, int>> due;
                for ( size_t i = 0; i < s.clk.size(); ++i )
                    if ( s.clk[i].active && now % s.clk[i].period == 0 && s.clk[i].from <= now / s.clk[i].period )
                        due.push_back({ s.clk[i].ordered, s.clk[i].period, s.clk[i].order, (int)i });
                std::sort(due.begin(), due.end());
                for ( auto& d : due ) {
                    int  i = std::get<3>(d);
                    Clk& k = s.clk[i];
                    if ( !k.active || k.from > now / k.period ) continue;
                    k.from = now / k.period + 1;
                    log(c, 'C', i, (int64_t)(now / k.period), 0);
                    s.ret = false;
                    cur_clk = i;
                    run(c, 'C', i, (int64_t)(now / k.period), (int64_t)(now / k.period));
                    g(c);
                    cur_clk = -1;
                    if ( s.ret ) k.active = false;
                }
            }
            prio = 50;
            while ( !q.empty() && q.top().t == now ) {
                if ( q.top().what == 'T' ) { oneshots(INT32_MAX); continue; }
                Pend p = q.top();
                q.pop();
                prio = 50;
                const PortM* pm = m.comps[p.comp].port(p.port);
                auto md = mods.find({ p.comp, p.port });
                bool dropped = false;
                if ( md != mods.end() && (pm->mode == 'h' || pm->mode == 's') )
                    for ( auto& x : md->second ) {
                        if ( !x.first->recv ) continue;
                        char a = fate(x, 'B', p.v);
                        if ( a == 'd' ) { dropped = true; break; }
                        if ( a == 'm' ) p.v += 1000;
                        if ( a == 'r' ) p.v += 2000;
                    }
                if ( dropped ) continue;
                if ( p.null ) { log(p.comp, 'N', p.port, 0, 0); run(p.comp, 'N', p.port, 0, 0); }
                else { log(p.comp, 'E', p.port, p.v, (int64_t)p.sent); run(p.comp, 'E', p.port, p.v, p.v); }
                g(p.comp);
            }
            prio = 0;
            if ( out.recs.size() > 20000 ) { undefined("too long"); break; }
        }
        if ( after_withdraw ) undefined("withdrawal after all had agreed");
        if ( agreed_at >= 0 && (stop < 0 || agreed_at <= stop) ) out.end = (uint64_t)agreed_at;
        else if ( stop >= 0 ) out.end = (uint64_t)stop;
        // drop what ran past the end
        std::vector<vs::Rec> keep;
        for ( auto& r : out.recs ) if ( r.t <= out.end ) keep.push_back(r);
        out.recs.swap(keep);
        now   = out.end;
        phase = 'k';
        for ( auto& s : cs ) { s.unt.clear(); s.unt_next.clear(); }
        for ( phase_no = 0; phase_no < 600; ++phase_no ) {
            untimed_phase(phase_no, 'K');
            if ( !phase_sent ) break;
        }
        phase = 'f';
        for ( size_t c = 0; c < cs.size(); ++c ) {
            log(c, 'F', 0, (int64_t)out.end, 0);
            run(c, 'F', 0, 0, 0);
            for ( size_t k = owners(c).size(); k; --k ) log(c, 'f', 0, 0, 0);
        }
    }
};
} // namespace

Ref
reference(const Model& m, const RefOpts& o)
{
    Interp i(m, o);
    i.go();
    for ( auto& k : i.mods )
        for ( auto& x : k.second ) i.out.mods[x.first->id] = { x.second, x.dropped };
    return i.out;
}
} // namespace sl
