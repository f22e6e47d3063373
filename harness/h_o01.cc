// O01: Output goes to the chosen place, at the chosen verbosity, with the right prefix.
//
// "levels": every combination of level, bits, verbosity, mask, destination, call and way of initialization.
// "prefix": every prefix of up to three (four) elements under several world sizes.
// "history": every sequence of calls, changes, saves and restores of two outputs; the bytes that reach stdout, stderr and both files are compared.
// "fatal": fatal messages reach stderr and the file.
#define __SST_DEBUG_OUTPUT__
#include "mc.h"
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "sst/core/output.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/simulation.h"
using mc::Ctx;
using mc::fmt;
using SST::Output;
using SST::Simulation;
using SST::Core::Serialization::serializer;

// ------------------------------------------------------------------ capture
static std::string dir()
{
    static std::string d;
    static pid_t       owner;
    if ( owner != getpid() ) {
        owner = getpid();
        const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        d = fmt("%s/verif-o01-%d", base, (int)owner);
        mkdir(d.c_str(), 0700);
    }
    return d;
}
static std::string slurp(const std::string& f)
{
    std::ifstream     in(f);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
struct Capture // stdout and stderr of the C library go to memory while it lives
{
    FILE *o = stdout, *e = stderr;
    char *ob = nullptr, *eb = nullptr;
    size_t on = 0, en = 0;
    Capture() { stdout = open_memstream(&ob, &on); stderr = open_memstream(&eb, &en); }
    std::string out() { fflush(stdout); return std::string(ob, on); }
    std::string err() { fflush(stderr); return std::string(eb, en); }
    ~Capture() { fclose(stdout); fclose(stderr); stdout = o; stderr = e; free(ob); free(eb); }
};
struct World { int ranks, threads, rank, thread; };
static const World WORLDS[] = { { 1, 1, 0, 0 }, { 2, 1, 1, 0 }, { 1, 2, 0, 1 }, { 3, 4, 2, 3 } };
static const SST::SimTime_t NOW = 12345678901ull;
static void set_world(const World& w)
{
    static char* mem = (char*)calloc(1, sizeof(Simulation) + 64);
    Simulation*  sim = (Simulation*)(((uintptr_t)mem + 63) & ~63ull);
    sim->currentSimCycle = NOW;
    Simulation::instanceMap.clear();
    Simulation::instanceMap[std::this_thread::get_id()] = sim;
    Output::setWorldSize(w.ranks, w.threads, w.rank);
    Output::m_threadMap.clear();
    Output::setThreadID(std::this_thread::get_id(), w.thread);
    // the files are new
    if ( Output::m_sstGlobalSimFileHandle ) fclose(Output::m_sstGlobalSimFileHandle);
    Output::m_sstGlobalSimFileHandle      = nullptr;
    Output::m_sstGlobalSimFileAccessCount = 0;
    Output::m_sstGlobalSimFileName        = "";
    Output::setFileName(dir() + "/global");
    for ( auto* f : { "/global", "/local", "/global0", "/local0", "/global1", "/local1", "/global2", "/local2" } ) unlink((dir() + f).c_str());
}
static std::string file(const World& w, const char* name) { return dir() + "/" + name + (w.ranks > 1 ? std::to_string(w.rank) : ""); }

static std::string expand(const std::string& p, const World& w, uint32_t line, const std::string& f, const std::string& fn)
{
    std::string r;
    auto both = fmt("[%d:%d]", w.rank, w.thread);
    for ( size_t i = 0; i < p.size(); ++i ) {
        if ( p[i] != '@' || i + 1 == p.size() ) { r += p[i]; continue; }
        ++i;
        switch ( p[i] ) {
        case 'f': r += f; break;
        case 'l': r += std::to_string(line); break;
        case 'p': r += fn; break;
        case 'r': if ( w.ranks > 1 ) r += std::to_string(w.rank); break;
        case 'R': r += std::to_string(w.rank); break;
        case 'i': if ( w.threads > 1 ) r += std::to_string(w.thread); break;
        case 'I': r += std::to_string(w.thread); break;
        case 'x': if ( w.ranks > 1 || w.threads > 1 ) r += both; break;
        case 'X': r += both; break;
        case 't': r += std::to_string(NOW); break;
        default: r += '@'; --i;
        }
    }
    return r;
}
static const Output::output_location_t LOCS[] = { Output::NONE, Output::STDOUT, Output::STDERR, Output::FILE };
static const char* loc_name[] = { "NONE", "STDOUT", "STDERR", "FILE" };

static void transfer(Output& a, Output& b)
{
    std::vector<char> buf;
    for ( int phase = 0; phase < 3; ++phase ) {
        serializer ser;
        if ( phase == 0 ) { ser.start_sizing(); SST_SER(a); buf.resize(ser.size()); }
        else if ( phase == 1 ) { ser.start_packing(buf.data(), buf.size()); SST_SER(a); }
        else { ser.start_unpacking(buf.data(), buf.size()); SST_SER(b); }
    }
}

static void levels(Ctx& c)
{
    static const uint32_t LV[] = { 0, 1, 2, 0x7fffffff, Output::PrintAll }, BITS[] = { 0, 1, 2, 3, 0x80000000u, Output::PrintAll }, VL[] = { 0, 1, 2, Output::PrintAll }, VM[] = { 0, 1, 3, 0x80000001u, Output::PrintAll };
    int                   li = c.choose(4), call = c.choose(6), how = c.choose(6);
    uint32_t              vl = VL[c.choose(4)], vm = VM[c.choose(5)], lv = LV[call < 2 ? 0 : c.choose(5)], bits = BITS[call < 2 ? 0 : c.choose(6)];
    bool                  local = li == 3 && c.flip();
    const World&          w     = WORLDS[li == 3 ? c.choose(2) * 3 : 0];
    set_world(w);
    std::string lf = local ? dir() + "/local" : "";
    std::string out, err, what;
    {
        Capture cap;
        {
            auto o = std::make_unique<Output>();
            bool live = true;
            switch ( how ) {
            case 0: o = std::make_unique<Output>("<@l>", vl, vm, LOCS[li], lf); break;
            case 1: o->init("<@l>", vl, vm, LOCS[li], lf); break;
            case 2: live = false; break;                                                        // never initialized
            case 3: o->init("<@l>", vl, vm, LOCS[li], lf); o->init("no", 0, 0, LOCS[(li + 1) % 4]); break; // the second is ignored
            case 4: o->init("x", 0, 0, Output::NONE, lf); o->setPrefix("<@l>"); o->setVerboseLevel(vl); o->setVerboseMask(vm); o->setOutputLocation(LOCS[li]); break;
            default: { auto n = std::make_unique<Output>(); o->init("<@l>", vl, vm, LOCS[li], lf); transfer(*o, *n); o = std::move(n); }
            }
            switch ( call ) {
            case 0: o->output("m%d\n", 1); break;
            case 1: o->output(7, "file", "func", "m%d\n", 1); break;
            case 2: o->verbose(7, "file", "func", lv, bits, "m%d\n", 1); break;
            case 3: o->debug(7, "file", "func", lv, bits, "m%d\n", 1); break;
            case 4: o->verbosePrefix("(@f)", 7, "file", "func", lv, bits, "m%d\n", 1); o->output(8, "", "", "after\n"); break;
            default: o->debugPrefix("(@f)", 7, "file", "func", lv, bits, "m%d\n", 1); o->output(8, "", "", "after\n"); break;
            }
            if ( how != 2 )
                if ( o->getVerboseLevel() != vl || o->getVerboseMask() != vm || o->getPrefix() != "<@l>" || o->getOutputLocation() != LOCS[li] ) c.fail("settings", "the settings of the output are others");
            o->flush();
            std::string want;
            if ( live && li ) {
                bool pass = call < 2 || (lv <= vl && (bits | vm) == vm);
                if ( pass ) want = (call == 0 ? "" : call < 4 ? "<7>" : "(file)") + std::string("m1\n");
                if ( call >= 4 ) want += "<8>after\n";
            }
            out = cap.out(); err = cap.err();
            std::string f = slurp(file(w, "global")), l = slurp(file(w, "local"));
            what = fmt("call %d at %s%s, initialized in way %d, level %u bits %x, verbosity %u mask %x", call, loc_name[li], local ? " (own file)" : "", how, lv, bits, vl, vm);
            c.note("%s %d", what.c_str(), w.ranks);
            c.check(out == (li == 1 ? want : ""), "stdout", "%s: stdout holds '%s', expected '%s'", what.c_str(), out.c_str(), li == 1 ? want.c_str() : "");
            c.check(err == (li == 2 ? want : ""), "stderr", "%s: stderr holds '%s', expected '%s'", what.c_str(), err.c_str(), li == 2 ? want.c_str() : "");
            c.check(f == (li == 3 && !local ? want : ""), "file", "%s: the file holds '%s', expected '%s'", what.c_str(), f.c_str(), li == 3 && !local ? want.c_str() : "");
            c.check(l == (local ? want : ""), "local", "%s: the own file holds '%s', expected '%s'", what.c_str(), l.c_str(), local ? want.c_str() : "");
        }
    }
    c.step();
    c.validated();
    c.nontrivial();
}

static void prefix(Ctx& c)
{
    static const std::vector<std::string> E = { "@f", "@l", "@p", "@r", "@R", "@i", "@I", "@x", "@X", "@t", "@", "%", "text: ", "@z", "%s", "@T", "f" };
    int         n = c.choose(c.thorough() ? 5 : 4);
    std::string p;
    for ( int i = 0; i < n; ++i ) p += c.pick(E);
    const World& w = WORLDS[c.choose(4)];
    set_world(w);
    std::string got;
    {
        Capture cap;
        Output  o(p, 0, 0, Output::STDOUT);
        o.output(4294967295u, "dir/f%d.cc", "fn<int>", "|%s %d%%\n", "msg", 5);
        got = cap.out();
    }
    std::string want = expand(p, w, 4294967295u, "dir/f%d.cc", "fn<int>") + "|msg 5%\n";
    // the line is printed as a signed number or as it is: only lines beyond 2^31 tell
    std::string want2 = want;
    for ( size_t i; (i = want2.find("4294967295")) != want2.npos; ) want2.replace(i, 10, "-1");
    c.note("%s %d %d", p.c_str(), w.ranks, w.threads);
    c.check(got == want || got == want2, "prefix", "prefix '%s' with %d ranks and %d threads: '%s', expected '%s'", p.c_str(), w.ranks, w.threads, got.c_str(), want.c_str());
    c.step();
    c.validated();
    c.nontrivial();
}

struct RefOut { bool live = false; int loc = 0; bool own = false; std::string prefix; uint32_t level = 0, mask = 0; bool fresh = true; };
static void history(Ctx& c)
{
    const World& w = WORLDS[c.choose(2) * 3];
    set_world(w);
    int         n = 5;
    std::string hist = fmt("%d ranks:", w.ranks), sink[4]; // stdout, stderr, global, local
    std::string got[4];
    {
        Capture cap;
        {
            std::unique_ptr<Output> o[2];
            RefOut                  r[2];
            o[0] = std::make_unique<Output>("<", 1, 1, Output::FILE, dir() + "/local");
            r[0] = { true, 3, true, "<", 1, 1, true };
            o[1] = std::make_unique<Output>("[@r", 1, 1, Output::FILE);
            r[1] = { true, 3, false, "[@r", 1, 1, true };
            int  msg  = 0;
            auto emit = [&](RefOut& x, const std::string& s) {
                if ( !x.live || x.loc == 0 ) return;
                int k = x.loc == 1 ? 0 : x.loc == 2 ? 1 : x.own ? 3 : 2;
                if ( k == 3 && x.fresh ) { sink[3].clear(); x.fresh = false; }
                sink[k] += s;
            };
            for ( int i = 0; i < n; ++i ) {
                int k = c.choose(2), op = c.choose(9);
                ++msg;
                c.step();
                auto&       x = r[k];
                std::string m = fmt("m%d\n", msg);
                hist += fmt(" %c.", k ? 'g' : 'l');
                switch ( op ) {
                case 0: hist += "output"; o[k]->output(msg, "f", "p", "m%d\n", msg); emit(x, expand(x.prefix, w, msg, "f", "p") + m); break;
                case 1: hist += "plain"; o[k]->output("m%d\n", msg); emit(x, m); break;
                case 2: hist += "verbose"; o[k]->verbose(msg, "f", "p", 1, 2, "m%d\n", msg); if ( x.level >= 1 && (x.mask & 2) ) emit(x, expand(x.prefix, w, msg, "f", "p") + m); break;
                case 3: hist += "to stdout"; o[k]->setOutputLocation(Output::STDOUT); x.loc = 1; break;
                case 4: hist += "to file"; o[k]->setOutputLocation(Output::FILE); x.loc = 3; break;
                case 5: hist += "silent"; o[k]->setOutputLocation(Output::NONE); x.loc = 0; break;
                case 6: hist += "settings"; o[k]->setPrefix("@l>"); o[k]->setVerboseMask(3); o[k]->setVerboseLevel(2); x.prefix = "@l>"; x.mask = 3; x.level = 2; break;
                case 7: {
                    hist += "restored";
                    auto nw = std::make_unique<Output>();
                    transfer(*o[k], *nw);
                    o[k] = std::move(nw); // the old one is gone before the new one writes
                    x.fresh = true;
                    break;
                }
                default: {
                    hist += "replaced";
                    o[k].reset();
                    o[k] = std::make_unique<Output>("{", 0, 0, k ? Output::STDERR : Output::FILE, k ? "" : dir() + "/local");
                    x = { true, k ? 2 : 3, !k, "{", 0, 0, true };
                    break;
                }
                }
            }
            for ( int k = 0; k < 2; ++k ) { o[k]->output("end\n"); emit(r[k], "end\n"); o[k]->flush(); }
        }
        got[0] = cap.out();
        got[1] = cap.err();
        got[2] = slurp(file(w, "global"));
        got[3] = slurp(file(w, "local"));
    }
    static const char* sn[] = { "stdout", "stderr", "the common file", "the own file" };
    for ( int i = 0; i < 4; ++i ) c.check(got[i] == sink[i], "history", "%s: %s holds '%s', expected '%s'", hist.c_str(), sn[i], got[i].c_str(), sink[i].c_str());
    c.note("%s", hist.c_str());
    c.validated();
    c.nontrivial();
}

static void fatal(Ctx& c)
{
    int          li = c.choose(4), how = c.choose(3), pi = c.choose(3), code = c.pick({ 1, 7, 255 });
    const World& w  = WORLDS[c.choose(4)];
    static const char* P[] = { "", "<@l:@p> ", "100% @X " };
    set_world(w);
    std::string ef = dir() + "/err", of = dir() + "/out";
    fflush(stdout);
    pid_t pid = fork();
    if ( pid == 0 ) {
        int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(e, 2); dup2(o, 1);
        Simulation::instanceMap.clear();
        Simulation::instanceVec_.clear();
        Output x;
        if ( how == 0 ) x.init(P[pi], 0, 0, LOCS[li]);
        else if ( how == 1 ) { Output y(P[pi], 0, 0, LOCS[li]); transfer(y, x); }
        x.fatal(9, "file", "func", code, "broken %d\n", 3);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string m = "FATAL: " + (how == 2 ? "" : expand(P[pi], w, 9, "file", "func")) + "broken 3\n", e = slurp(ef), f = slurp(file(w, "global"));
    std::string what = fmt("fatal at %s, way %d, prefix '%s', %d ranks %d threads", loc_name[li], how, P[pi], w.ranks, w.threads);
    c.note("%s %d", what.c_str(), code);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == code, "fatal-exit", "%s: status %x instead of exit code %d; stderr '%s'", what.c_str(), st, code, e.substr(0, 200).c_str());
    size_t at = e.find(m);
    c.check(at != e.npos && e.find("FATAL: ", at + 1) == e.npos, "fatal-stderr", "%s: stderr is '%s'", what.c_str(), e.substr(0, 200).c_str());
    c.check(f == (how < 2 && li == 3 ? m : ""), "fatal-file", "%s: the file holds '%s'", what.c_str(), f.c_str());
    unlink(ef.c_str());
    unlink(of.c_str());
    c.step();
    c.validated();
    c.nontrivial();
}

template <void (*F)(Ctx&)>
static void clean(Ctx& c)
{
    if ( access(dir().c_str(), F_OK) ) mkdir(dir().c_str(), 0700);
    F(c);
}
int main(int argc, char** argv)
{
    int r = mc::run(argc, argv, { { "levels", clean<levels> }, { "prefix", clean<prefix> }, { "history", clean<history> }, { "fatal", clean<fatal> } });
    // scratch folders of the workers
    for ( auto* base : { "/dev/shm", "/tmp" } )
        (void)!system(fmt("for d in %s/verif-o01-*; do p=${d##*-}; [ -d \"$d\" ] && { [ \"$p\" = %d ] || ! kill -0 \"$p\" 2>/dev/null; } && rm -rf \"$d\"; done", base, (int)getpid()).c_str());
    return r;
}
