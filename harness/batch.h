// Runs many independent small models as one simulation and compares each with
// the reference.
#ifndef VERIF_BATCH_H
#define VERIF_BATCH_H
#include "simlib.h"
#include <algorithm>

struct Batch
{
    std::vector<sl::Model> models;
    int64_t                unit = 1;
    std::string            timebase;
    sl::Opts               opts;
    bool                   canon = true;
    bool                   keep_ambiguous = false;
    size_t                 max_recs = 50000;
    int                    stop = 0;                      // stop time set by the models themselves (with end = 0)
    bool                   check_time = false;            // compare the simulated time printed at the end
    void add(const sl::Model& m) { models.push_back(m); }

    // end: stop time in units; 0: the models end by agreement of their primary components (records past the end are ignored)
    void run(mc::Ctx& c, int end)
    {
        sl::RefOpts ro;
        ro.stop    = end ? end : stop;
        ro.horizon = 100000;
        if ( !end ) ro.lag = 60; // withdrawals after the agreement are outside the domain
        std::vector<sl::Model> keep;
        for ( auto& m : models ) {
            sl::Ref r = sl::reference(m, ro);
            if ( r.ok ) keep.push_back(m);
        }
        if ( keep.empty() ) c.discard();
        // split so that the record area suffices
        size_t at = 0, nm = 0;
        while ( at < keep.size() ) {
            sl::Model all;
            std::vector<std::pair<size_t, int>> origin; // component -> (model, its number there)
            size_t recs = 0;
            size_t from = at;
            for ( ; at < keep.size() && (recs < max_recs / 2 || at == from) && all.comps.size() < 600; ++at ) {
                int base = (int)all.comps.size();
                auto& m  = keep[at];
                for ( size_t i = 0; i < m.comps.size(); ++i ) { all.comps.push_back(m.comps[i]); origin.push_back({ at, (int)i }); }
                for ( auto l : m.links ) { l.a += base; l.b += base; all.links.push_back(l); }
                for ( auto& o : m.options ) all.options[o.first] = o.second;
                for ( size_t i = base; i < all.comps.size(); ++i )
                    for ( auto& d : all.comps[i].mods ) d.id += base * 10;
                recs += sl::reference(m, ro).recs.size();
            }
            all.tb                 = unit;
            if ( end ) all.options["stop-at"] = mc::fmt("%ldps", (long)(end * unit));
            if ( !timebase.empty() ) all.options["timebase"] = timebase;
            sl::Ref ref = sl::reference(all, ro);
            if ( !ref.ok ) c.fail("harness", "reference: %s", ref.why.c_str());
            if ( !end && stop && ref.end + 1 == (uint64_t)stop ) c.discard(); // agreement is acted upon at the next time, with the stop
            sl::Run run = sl::run_sim(all, opts);
            c.step(ref.steps);
            nm += at - from;
            if ( run.status || run.timeout ) {
                size_t p = run.out.find("FATAL");
                c.fail("run", "simulation ended with %s: %s | first model %s", run.why().c_str(), run.out.substr(p == std::string::npos ? (run.out.size() > 600 ? run.out.size() - 600 : 0) : p, 600).c_str(),
                    keep[from].describe().c_str());
            }
            if ( check_time ) {
                std::string want = mc::fmt("simulated time: %llu ps\n", (unsigned long long)(end ? end : ref.end) * unit);
                if ( (end ? end : ref.end) * unit < 1000 && run.out.find(want) == std::string::npos
                    && !((end ? end : ref.end) == 0 && run.out.find("simulated time: 0 s") != std::string::npos) ) {
                    size_t p = run.out.find("simulated time:");
                    c.fail("end-time", "reported end of simulation: expected '%s' got '%s' (first model %s)", want.c_str(), p == std::string::npos ? "" : run.out.substr(p, 40).c_str(), keep[from].describe().c_str());
                }
            }
            // records carry core cycles; bring them to model units
            int64_t cyc = 1;
            if ( !timebase.empty() ) {
                int64_t t = atoll(timebase.c_str());
                if ( timebase.find("ns") != std::string::npos ) t *= 1000;
                cyc = unit / t;
            }
            else cyc = unit;
            for ( auto& r : run.recs ) {
                if ( cyc == 1 ) break;
                auto conv = [&](uint64_t v) { return v % cyc ? 1000000 + v : v / cyc; };
                r.t = conv(r.t);
                if ( r.kind == 'E' || r.kind == 'Q' ) r.b = conv(r.b);
                if ( r.kind == 'F' ) r.a = conv(r.a);
            }
            if ( canon ) { sl::canon_clocks(all, ref.recs); sl::canon_clocks(all, run.recs); }
            auto want = sl::lines(ref.recs, end ? end : ref.end), got = sl::lines(run.recs, end ? end + 2000000 : ref.end);
            std::set<int> ids;
            for ( auto& w : want ) ids.insert(w.first);
            for ( auto& w : got ) ids.insert(w.first);
            for ( int id : ids ) {
                std::map<int, std::vector<std::string>> a, b;
                a[id] = want[id];
                b[id] = got[id];
                std::string d = sl::diff(a, b);
                if ( !d.empty() ) {
                    int    ci = id >= 1000 && id >= (int)origin.size() ? std::min<int>((id - 1000) / 10, (int)origin.size() - 1) : id;
                    size_t mi = ci < (int)origin.size() ? origin[ci].first : from;
                    c.fail("observed", "component %d: %s | model %s", ci < (int)origin.size() ? origin[ci].second : -1, d.c_str(), keep[mi].describe().c_str());
                }
                std::string s;
                for ( auto& x : a[id] ) s += x + "|";
                c.state(mc::hash(s));
            }
            c.validated(at - from);
        }
        c.nontrivial();
        c.note("%zu models, first %s", nm, keep[0].describe().c_str());
    }
};
#endif
