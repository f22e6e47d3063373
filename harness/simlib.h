// Whole simulations of scripted models: model description, JSON writer,
// runner (ranks are processes over the mini MPI) and a reference interpreter.
#ifndef VERIF_SIMLIB_H
#define VERIF_SIMLIB_H
#include "mc.h"
#include "vscript.h"

#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sl {

struct PortM
{
    int  idx  = 0;
    char mode = 'h';           // h handler, p polled, s self link handler, P self link polled
    int64_t tb = 1;            // time base in ps
    int64_t sendlat = 0, recvlat = 0;
    int  owner = 0;            // 0 component, 1 user subcomponent, 2 anonymous subcomponent (shared ports)
    bool dflt = false;         // configureLink without a time base: component's default (set by default tb)
};
struct ClockM { int64_t period = 1; char kind = 'n'; };  // n normal, o ordered, l/L registered later (ordered if L/O)
struct ModM
{
    int id = 0; int port = 0; std::string acts; bool send = false, recv = false;
    double prob = -1; uint32_t seed = 7;                  // prob >= 0: the core's random drop module
    std::string extra_json = "";                         // further members of the module object (it then has a statistic)
};
struct CompM
{
    std::vector<PortM>  ports; // in the order they are configured
    std::vector<ClockM> clocks;
    std::string         script;
    bool                primary = false;
    int                 rank = 0, thread = 0;
    int                 stats = 0;
    int                 seed  = 1;
    std::vector<ModM>   mods;
    std::string         extra_json;                       // further members of the component object
    std::string                        sub_json;          // further members of the subcomponent object
    std::map<std::string, std::string> params, sub_params;
    const PortM* port(int i) const { for ( auto& p : ports ) if ( p.idx == i ) return &p; return nullptr; }
};
struct LinkM { int a, pa, b, pb; int64_t la, lb; bool nocut = false; };
struct Model
{
    std::vector<CompM> comps;
    std::vector<LinkM> links;
    std::map<std::string, std::string> options;           // program options
    std::string        extra_json;
    int64_t            tb = 1;                            // every number above is in this many ps
    std::string        describe() const;
};

struct Opts
{
    int                      ranks = 1, threads = 1;
    std::vector<std::string> args;
    std::string              json;                        // use this text instead of the model's
    std::string              load;                        // load this file instead (restart)
    std::string              dir;                         // working directory to use (kept); otherwise a scratch directory
    double                   limit = 20;
    bool                     selfpart = true;
};
struct Run
{
    int                  status = 0;                      // exit status of the worst rank, -1 timeout, -signal
    bool                 timeout = false;
    std::vector<vs::Rec> recs;
    std::string          out;                             // stdout and stderr of all ranks
    std::map<std::string, std::string> files;             // files left in the scratch directory (small ones)
    std::string          why() const { return timeout ? "timeout" : status < 0 ? mc::fmt("signal %d", -status) : mc::fmt("exit %d", status); }
};
std::string to_json(const Model& m, bool placed = true); // placed: with the rank and thread of each component
Run         run_sim(const Model& m, const Opts& o);
std::string scratch_dir();                                // new empty directory
void        remove_dir(const std::string& d);
std::string read_file(const std::string& p);

// Per-component records as text lines.
std::map<int, std::vector<std::string>> lines(const std::vector<vs::Rec>& r, uint64_t upto = UINT64_MAX, bool with_rank = false);
std::string rec_str(const vs::Rec& r);

// Reference interpreter -------------------------------------------------------
struct Ref
{
    std::vector<vs::Rec> recs;
    uint64_t             end = 0;
    bool                 ok = true;      // false: the model leaves the specified domain (reason in why)
    std::string          why;
    uint64_t             steps = 0;
    std::map<int, std::pair<uint64_t, uint64_t>> mods;    // module: events seen, events the random drop module removed
};
struct RefOpts { uint64_t stop = 0; uint64_t horizon = 2000; uint64_t lag = 0; };
Ref reference(const Model& m, const RefOpts& o);

// Compares what each component saw up to the end; returns "" or a description.
std::string diff(const std::map<int, std::vector<std::string>>& want, const std::map<int, std::vector<std::string>>& got);
// Puts the handlers that run on one tick in a canonical order where the order is not specified (different clocks; ordered and
// unordered handlers of one clock), keeping the order within one clock.
void canon_clocks(const Model& m, std::vector<vs::Rec>& r);
} // namespace sl
#endif
