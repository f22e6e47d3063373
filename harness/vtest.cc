// libvtest.so: scripted components whose behaviour is given by vscript rules.
// Everything a component observes goes to vt_log() of the harness executable.
#ifdef VERIF_ONESHOT
#include "sst/core/simulation.h"
#endif
#include "sst_config.h"

#include "sst/core/component.h"
#include "sst/core/event.h"
#include "sst/core/link.h"
#include "sst/core/portModule.h"
#include "sst/core/rng/marsaglia.h"
#include "sst/core/rng/mersenne.h"
#include "sst/core/rng/xorshift.h"
#include "sst/core/shared/sharedArray.h"
#include "sst/core/shared/sharedMap.h"
#include "sst/core/shared/sharedSet.h"
#include "sst/core/subcomponent.h"
#include "sst/core/timeConverter.h"
#include "vscript.h"

#include <chrono>
#include <map>
#include <thread>

namespace vtest {
using namespace SST;

class Ev : public Event
{
public:
    int64_t  v    = 0;
    uint64_t sent = 0; // simulated time of the send
    std::string pad;   // from 2^20 on the value says how many bytes the event carries
    void fill(std::string& s) const
    {
        s.clear();
        if ( v < (1 << 20) ) return;
        s.resize((size_t)(v >> 20));
        for ( size_t i = 0; i < s.size(); ++i ) s[i] = (char)(i * 7 + i / 251 + (size_t)v);
    }
    Ev()          = default;
    Ev(int64_t x, uint64_t t) : v(x), sent(t) { fill(pad); }
    Event* clone() override { return new Ev(*this); }
    void   serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Event::serialize_order(ser);
        SST_SER(v);
        SST_SER(sent);
        SST_SER(pad);
        if ( ser.mode() != SST::Core::Serialization::serializer::UNPACK ) return;
        std::string want;
        fill(want);
        if ( pad != want ) v = -v; // shows in what the component logs
    }
    ImplementSerializable(vtest::Ev);
};

// port description: "p0:h:1ps:S2ps:R3ps"
struct PortSpec { int idx = 0; char mode = 'h'; std::string name, tb; std::string sendlat, recvlat; };
static std::vector<PortSpec> parse_ports(const std::string& s)
{
    std::vector<PortSpec> out;
    if ( s.empty() ) return out;
    for ( auto& t : vs::split(s, ',') ) {
        auto     f = vs::split(t, ':');
        PortSpec p;
        p.name = f[0];
        p.idx  = atoi(f[0].c_str() + 1);
        p.mode = f[1][0];
        if ( f.size() > 2 ) p.tb = f[2];
        for ( size_t i = 3; i < f.size(); ++i ) {
            if ( f[i][0] == 'S' ) p.sendlat = f[i].substr(1);
            if ( f[i][0] == 'R' ) p.recvlat = f[i].substr(1);
        }
        out.push_back(p);
    }
    return out;
}

class SubAPI : public SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(vtest::SubAPI)
    explicit SubAPI(ComponentId_t id) : SubComponent(id) {}
    SubAPI() : SubComponent() {}
    virtual ~SubAPI() {}
    virtual Link* link(int i) = 0;
    virtual void  poll()      = 0;
    virtual Statistic<uint64_t>* stat(int i) = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { SubComponent::serialize_order(ser); }
    ImplementVirtualSerializable(vtest::SubAPI);
};

class Node;

// A subcomponent that owns links; what it sees is logged as the parent's, with
// the port number it has (the ports of a Sub are numbered from 10).
class Sub : public SubAPI
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT(Sub, "vtest", "Sub", SST_ELI_ELEMENT_VERSION(1, 0, 0), "scripted subcomponent", vtest::SubAPI)
    SST_ELI_DOCUMENT_PARAMS({ "id", "component number", "0" }, { "ports", "ports", "" }, { "extra", "ignored", "" }, { "stats", "number of statistics", "0" })
    SST_ELI_DOCUMENT_PORTS({ "q%(num)d", "ports", {} }, { "p%(num)d", "shared ports", {} })
    SST_ELI_DOCUMENT_STATISTICS({ "st0", "statistic", "x", 1 }, { "st1", "statistic", "x", 2 }, { "st2", "statistic", "x", 3 }, { "st3", "statistic", "x", 5 })
    SST_ELI_IS_CHECKPOINTABLE()
    Sub(ComponentId_t id, Params& params);
    Sub() = default;
    void  handle(Event* ev, int port);
    Link* link(int i) override { auto it = links_.find(i); return it == links_.end() ? nullptr : it->second; }
    void  poll() override;
    Statistic<uint64_t>* stat(int i) override { return i < (int)stats_.size() ? stats_[i] : nullptr; }
    std::vector<Statistic<uint64_t>*> stats_;
    void  init(unsigned p) override;
    void  complete(unsigned p) override;
    void  setup() override;
    void  finish() override;
    Node* parent_ = nullptr;
    int   cid_    = 0;
    std::map<int, Link*> links_;
    std::map<int, int>   polled_;
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        SubAPI::serialize_order(ser);
        SST_SER(parent_);
        SST_SER(cid_);
        SST_SER(links_);
        SST_SER(polled_);
        SST_SER(stats_);
    }
    ImplementSerializable(vtest::Sub);
};

class Node : public Component
{
public:
    SST_ELI_REGISTER_COMPONENT(Node, "vtest", "Node", SST_ELI_ELEMENT_VERSION(1, 0, 0), "scripted component", COMPONENT_CATEGORY_UNCATEGORIZED)
    SST_ELI_DOCUMENT_PARAMS({ "id", "component number", "0" }, { "script", "rules", "" }, { "ports", "ports in the order they are configured", "" },
        { "clocks", "clocks", "" }, { "primary", "1: primary component", "0" }, { "seed", "seed of the random generators", "1" },
        { "stats", "number of statistics", "0" }, { "shared", "shared object script", "" }, { "anon", "ports of an anonymous subcomponent", "" },
        { "echo", "parameter that is logged", "" }, { "late", "1: clocks are registered before the links", "0" })
    SST_ELI_DOCUMENT_PORTS({ "p%(num)d", "ports", {} }, { "q%(num)d", "ports", {} })
    SST_ELI_DOCUMENT_SUBCOMPONENT_SLOTS({ "s", "slot", "vtest::SubAPI" }, { "anon", "slot", "vtest::SubAPI" })
    SST_ELI_DOCUMENT_STATISTICS({ "st0", "statistic", "x", 1 }, { "st1", "statistic", "x", 2 }, { "st2", "statistic", "x", 3 }, { "st3", "statistic", "x", 5 })
    SST_ELI_IS_CHECKPOINTABLE()

    Node(ComponentId_t id, Params& params);
    Node() = default;
    ~Node() { for ( auto* r : rng_ ) delete r; }

    void init(unsigned p) override { log('I', 0, p, 0); drain(p); run('I', p, 0, p); for ( auto* x : subs_ ) x->init(p); }
    void setup() override { log('S', 0, 0, 0); run('S', 0, 0, 0); for ( auto* x : subs_ ) x->setup(); }
    void complete(unsigned p) override { log('K', 0, p, 0); drain(p); run('K', p, 0, p); for ( auto* x : subs_ ) x->complete(p); }
    void finish() override { log('F', 0, (int64_t)getEndSimCycle(), 0); run('F', 0, 0, 0); for ( auto* x : subs_ ) x->finish(); }
    void emergencyShutdown() override { log('X', 0, 0, 0); }

    void handle(Event* ev, int port);
    void handleAt(Event* ev, int port);
    bool tick(Cycle_t cyc, int clk);
    void untimed(Event* ev, int port, unsigned phase);
    void polled(int port, Link* l);
    void log(char kind, int i, int64_t a, int64_t b) { vt_log(cid_, kind, i, getCurrentSimCycle(), a, b, getRank().rank, getRank().thread); }
    void oneshot(int id);
    void run(char trig, int i, int64_t v, int64_t cond);
    void act(const vs::Action& a, int64_t v);
    void doClock(int c, bool first);
    Statistic<uint64_t>* stat(int i)
    {
        if ( i < 10 ) return i < (int)stats_.size() ? stats_[i] : nullptr;
        return subs_.empty() ? nullptr : subs_[0]->stat(i - 10);
    }

    int                      cid_ = 0, nevents_ = 0;
    std::string              script_;
    std::vector<vs::Rule>    rules_;
    std::map<int, Link*>     links_;
    std::map<int, int>       poll_; // ports that are polled
    std::vector<std::string> clk_per_;
    std::vector<int>         clk_ordered_;
    std::vector<Clock::HandlerBase*> clk_;
    std::vector<TimeConverter>       clk_tc_;
    std::vector<SubAPI*>     subs_;
    std::vector<RNG::Random*> rng_;
    std::vector<Statistic<uint64_t>*> stats_;
    bool                     primary_ = false;
    bool                     ret_     = false; // return value of the clock handler in progress
    int                      in_tick_ = 0;
    int64_t                  seq_ = 0;

    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        Component::serialize_order(ser);
        SST_SER(cid_);
        SST_SER(nevents_);
        SST_SER(script_);
        SST_SER(links_);
        SST_SER(poll_);
        SST_SER(clk_per_);
        SST_SER(clk_ordered_);
        SST_SER(clk_);
        SST_SER(clk_tc_);
        SST_SER(subs_);
        SST_SER(rng_);
        SST_SER(stats_);
        SST_SER(primary_);
        SST_SER(ret_);
        SST_SER(in_tick_);
        SST_SER(seq_);
        if ( ser.mode() == SST::Core::Serialization::serializer::UNPACK ) rules_ = vs::parse(script_);
    }
    ImplementSerializable(vtest::Node);

private:
    void drain(unsigned phase);
};

Node::Node(ComponentId_t id, Params& params) : Component(id)
{
    cid_     = params.find<int>("id", 0);
    script_  = params.find<std::string>("script", "");
    rules_   = vs::parse(script_);
    primary_ = params.find<int>("primary", 0) != 0;
    std::string echo = params.find<std::string>("echo", "");
    if ( !echo.empty() ) vt_log(cid_, 'P', 0, 0, (int64_t)std::hash<std::string>()(echo), 0, getRank().rank, getRank().thread);
    int seed = params.find<int>("seed", 1);
    rng_.push_back(new RNG::MersenneRNG(seed));
    rng_.push_back(new RNG::MarsagliaRNG(seed, seed + 3));
    rng_.push_back(new RNG::XORShiftRNG(seed + 5));
    if ( primary_ ) {
        registerAsPrimaryComponent();
        primaryComponentDoNotEndSim();
    }
    bool late = params.find<int>("late", 0) != 0;
    auto ports = [&]() {
        for ( auto& p : parse_ports(params.find<std::string>("ports", "")) ) {
            Event::HandlerBase* h = nullptr;
            if ( p.mode != 'p' && p.mode != 'P' ) h = new Event::Handler<Node, &Node::handle, int>(this, p.idx);
            Link* l;
            bool  self = p.mode == 's' || p.mode == 'P';
            if ( self )
                l = p.tb.empty() ? configureSelfLink(p.name, h) : configureSelfLink(p.name, p.tb, h);
            else
                l = p.tb.empty() ? configureLink(p.name, h) : configureLink(p.name, p.tb, h);
            if ( !l ) { vt_log(cid_, '!', p.idx, 0, 0, 0, getRank().rank, getRank().thread); delete h; continue; }
            if ( !p.sendlat.empty() ) l->addSendLatency(1, p.sendlat);
            if ( !p.recvlat.empty() ) l->addRecvLatency(1, p.recvlat);
            links_[p.idx] = l;
            if ( !h ) poll_[p.idx] = 1;
        }
    };
    auto clocks = [&]() {
        std::string c = params.find<std::string>("clocks", "");
        if ( c.empty() ) return;
        for ( auto& t : vs::split(c, ',') ) {
            auto f = vs::split(t, ':');
            clk_per_.push_back(f[0]);
            clk_tc_.push_back(getTimeConverter(f[0]));
            clk_ordered_.push_back(f[1][0] == 'o' || f[1][0] == 'L');
            clk_.push_back(nullptr);
            if ( f[1][0] == 'n' || f[1][0] == 'o' ) doClock((int)clk_.size() - 1, true);
        }
    };
    if ( !late ) ports();
    clocks();
    if ( late ) ports();
    int ns = params.find<int>("stats", 0);
    for ( int i = 0; i < ns; ++i ) stats_.push_back(registerStatistic<uint64_t>("st" + std::to_string(i)));
    if ( auto* s = loadUserSubComponent<SubAPI>("s") ) subs_.push_back(s);
    std::string anon = params.find<std::string>("anon", "");
    if ( !anon.empty() ) {
        Params p2;
        p2.insert("id", std::to_string(cid_));
        p2.insert("ports", anon);
        subs_.push_back(loadAnonymousSubComponent<SubAPI>("vtest.Sub", "anon", 0, ComponentInfo::SHARE_PORTS, p2));
    }
    for ( auto* s : subs_ ) ((Sub*)s)->parent_ = this;
}

void
Node::doClock(int c, bool first)
{
    (void)first;
    if ( clk_ordered_[c] )
        clk_[c] = registerOrderedClock<Node, &Node::tick, int>(clk_tc_[c], this, c, false);
    else {
        auto* h = new Clock::Handler<Node, &Node::tick, int>(this, c);
        clk_[c] = h;
        registerClock(clk_tc_[c], h, false);
    }
}

void
Node::drain(unsigned phase)
{
    for ( auto& l : links_ )
        while ( Event* e = l.second->recvUntimedData() ) untimed(e, l.first, phase);
}

void
Node::untimed(Event* ev, int port, unsigned phase)
{
    Ev* e = static_cast<Ev*>(ev);
    log('U', port, e->v, phase);
    int64_t v = e->v;
    delete e;
    run('U', port, v, v);
}

void
Node::polled(int port, Link* l)
{
    while ( Event* e = l->recv() ) {
        Ev* x = static_cast<Ev*>(e);
        log('Q', port, x->v, (int64_t)x->sent);
        int64_t v = x->v;
        delete x;
        run('Q', port, v, v);
    }
}

void
Node::handle(Event* ev, int port)
{
    if ( !ev ) {
        log('N', port, 0, 0);
        run('N', port, 0, 0);
    }
    else {
        Ev*     e = static_cast<Ev*>(ev);
        int64_t v = e->v;
        log('E', port, v, (int64_t)e->sent);
        delete e;
        run('E', port, v, v);
    }
    int n = nevents_++;
    run('G', n, n, n);
}

bool
Node::tick(Cycle_t cyc, int clk)
{
    log('C', clk, (int64_t)cyc, 0);
    ret_ = false;
    run('C', clk, (int64_t)cyc, (int64_t)cyc);
    bool r = ret_;
    int  n = nevents_++;
    run('G', n, n, n);
    return r || ret_;
}

void
Node::oneshot(int id)
{
    log('T', id, 0, 0);
    run('T', id, 0, 0);
}

void
Node::run(char trig, int i, int64_t v, int64_t cond)
{
    for ( auto& r : rules_ )
        if ( vs::match(r, trig, i, cond) )
            for ( auto& a : r.acts ) act(a, v);
}

void
Node::act(const vs::Action& a, int64_t v)
{
    auto link = [&](int i) -> Link* {
        auto it = links_.find(i);
        if ( it != links_.end() ) return it->second;
        for ( auto* s : subs_ ) if ( Link* l = s->link(i) ) return l;
        return nullptr;
    };
    int64_t val = a.rel ? v + a.v : a.v;
    switch ( a.op ) {
    case 's': if ( Link* l = link(a.i) ) l->send((SimTime_t)a.d, new Ev(val, getCurrentSimCycle())); break;
    case 'c': if ( Link* l = link(a.i) ) l->send((SimTime_t)a.d, getTimeConverter(std::to_string(a.u) + "ps"), new Ev(val, getCurrentSimCycle())); break;
    case 'N': if ( Link* l = link(a.i) ) l->send((SimTime_t)a.d, nullptr); break;
    case 'u': if ( Link* l = link(a.i) ) l->sendUntimedData(new Ev(val, 0)); break;
    case 'r': log('r', a.i, (int64_t)reregisterClock(clk_tc_[a.i], clk_[a.i]), 0); break;
    case 'x': unregisterClock(clk_tc_[a.i], clk_[a.i]); break;
    case 'n': if ( !clk_[a.i] ) doClock(a.i, false); break;
    case 'a': log('r', a.i, (int64_t)clk_[a.i]->activate(), 1); break;
    case 'd': clk_[a.i]->deactivate(); break;
    case 'q': log('q', a.i, (int64_t)getNextClockCycle(clk_tc_[a.i]), clk_[a.i] ? clk_[a.i]->isActive() : -1); break;
    case 'R': ret_ = true; break;
    case 'P':
        for ( auto& p : poll_ ) polled(p.first, links_[p.first]);
        for ( auto* s : subs_ ) s->poll();
        break;
    case 'W': std::this_thread::sleep_for(std::chrono::milliseconds(a.i)); break;
    case 'O': primaryComponentOKToEndSim(); break;
    case 'D': primaryComponentDoNotEndSim(); break;
    case 'g': log('g', a.i, (int64_t)rng_[a.i % 3]->generateNextUInt32(), 0); break;
#ifdef VERIF_ONESHOT
    case 'o': case 'z': {
        auto& man = Simulation::getSimulation()->one_shot_manager_;
        int   prio = (int)a.v;
        if ( a.op == 'o' ) man.registerRelativeHandler<Node, &Node::oneshot, int>((SimTime_t)a.d, prio, this, a.i);
        else man.registerAbsoluteHandler<Node, &Node::oneshot, int>((SimTime_t)a.d, prio, this, a.i);
        break;
    }
#endif
    case 't':
        if ( auto* s = stat(a.i) ) {
            log('t', a.i, val, 0);
            s->addData((uint64_t)val);
        }
        break;
    case 'y':
        if ( auto* s = stat(a.i) ) {
            log('y', a.i, val, 0);
            switch ( val ) {
            case 0: s->disable(); break;
            case 1: s->enable(); break;
            case 2: s->setFlagOutputAtEndOfSim(false); break;
            case 3: s->clearStatisticData(); break;
            case 4: s->setFlagOutputAtEndOfSim(true); break;
            case 5: performStatisticOutput(s); break;
            case 6: performGlobalStatisticOutput(); break;
            default: s->addDataNTimes((uint64_t)val - 100, (uint64_t)3); break;
            }
        }
        break;
    default: break;
    }
}

Sub::Sub(ComponentId_t id, Params& params) : SubAPI(id)
{
    cid_ = params.find<int>("id", 0);
    int ns = params.find<int>("stats", 0);
    for ( int i = 0; i < ns; ++i ) stats_.push_back(registerStatistic<uint64_t>("st" + std::to_string(i)));
    for ( auto& p : parse_ports(params.find<std::string>("ports", "")) ) {
        Event::HandlerBase* h = nullptr;
        if ( p.mode != 'p' && p.mode != 'P' ) h = new Event::Handler<Sub, &Sub::handle, int>(this, p.idx);
        Link* l;
        if ( p.mode == 's' || p.mode == 'P' )
            l = p.tb.empty() ? configureSelfLink(p.name, h) : configureSelfLink(p.name, p.tb, h);
        else
            l = p.tb.empty() ? configureLink(p.name, h) : configureLink(p.name, p.tb, h);
        if ( !l ) { vt_log(cid_, '!', p.idx, 0, 0, 0, getRank().rank, getRank().thread); delete h; continue; }
        if ( !p.sendlat.empty() ) l->addSendLatency(1, p.sendlat);
        if ( !p.recvlat.empty() ) l->addRecvLatency(1, p.recvlat);
        links_[p.idx] = l;
        if ( !h ) polled_[p.idx] = 1;
    }
}
void Sub::handle(Event* ev, int port) { parent_->handle(ev, port); }
void Sub::poll() { for ( auto& p : polled_ ) parent_->polled(p.first, links_[p.first]); }
void Sub::init(unsigned p)
{
    vt_log(cid_, 'i', 0, getCurrentSimCycle(), p, 0, getRank().rank, getRank().thread);
    for ( auto& l : links_ ) while ( Event* e = l.second->recvUntimedData() ) parent_->untimed(e, l.first, p);
}
void Sub::complete(unsigned p)
{
    vt_log(cid_, 'k', 0, getCurrentSimCycle(), p, 0, getRank().rank, getRank().thread);
    for ( auto& l : links_ ) while ( Event* e = l.second->recvUntimedData() ) parent_->untimed(e, l.first, p);
}
void Sub::setup() { vt_log(cid_, 'x', 0, getCurrentSimCycle(), 0, 0, getRank().rank, getRank().thread); }
void Sub::finish() { vt_log(cid_, 'f', 0, getCurrentSimCycle(), 0, 0, getRank().rank, getRank().thread); }

// Port module: acts on the n-th event it sees according to the string "acts":
// '.' pass, 'd' drop, 'm' modify (value + 1000), 'r' replace (new event, value + 2000).
class PM : public PortModule
{
public:
    SST_ELI_REGISTER_PORTMODULE(PM, "vtest", "pm", SST_ELI_ELEMENT_VERSION(0, 1, 0), "scripted port module")
    SST_ELI_DOCUMENT_PARAMS({ "id", "module number", "0" }, { "acts", "what to do with each event", "" }, { "send", "1: on send", "0" }, { "recv", "1: on receive", "0" }, { "stats", "1: count values", "0" })
    SST_ELI_DOCUMENT_STATISTICS({ "st0", "statistic", "x", 1 })
    SST_ELI_IS_CHECKPOINTABLE()
    explicit PM(Params& p)
    {
        mid_ = p.find<int>("id", 0);
        acts_ = p.find<std::string>("acts", "");
        send_ = p.find<int>("send", 0) != 0;
        recv_ = p.find<int>("recv", 0) != 0;
        if ( p.find<int>("stats", 0) ) stat_ = registerStatistic<uint64_t>("st0");
    }
    PM() = default;
    ~PM() {}
    char next() { size_t k = n_++; return k < acts_.size() ? acts_[k] : '.'; }
    void eventSent(uintptr_t, Event*& ev) override
    {
        Ev* e = static_cast<Ev*>(ev);
        vt_log(1000 + mid_, 'A', 0, getCurrentSimCycle(), e->v, 0, 0, 0);
        if ( stat_ ) stat_->addData((uint64_t)e->v);
        switch ( next() ) {
        case 'd': delete ev; ev = nullptr; break;
        case 'm': e->v += 1000; break;
        case 'r': { Ev* x = new Ev(e->v + 2000, e->sent); x->copyAllDeliveryInfo(ev); delete ev; ev = x; break; }
        default: break;
        }
    }
    void interceptHandler(uintptr_t, Event*& data, bool& cancel) override
    {
        Ev* e = static_cast<Ev*>(data);
        vt_log(1000 + mid_, 'B', 0, getCurrentSimCycle(), e->v, 0, 0, 0);
        if ( stat_ ) stat_->addData((uint64_t)e->v);
        cancel = false;
        switch ( next() ) {
        case 'd': delete data; data = nullptr; cancel = true; break;
        case 'm': e->v += 1000; break;
        case 'r': { Ev* x = new Ev(e->v + 2000, e->sent); x->copyAllDeliveryInfo(data); delete data; data = x; break; }
        default: break;
        }
    }
    bool installOnReceive() override { return recv_; }
    bool installOnSend() override { return send_; }
    int         mid_ = 0;
    uint64_t    n_   = 0;
    bool        send_ = false, recv_ = false;
    std::string acts_;
    Statistics::Statistic<uint64_t>* stat_ = nullptr;
    void serialize_order(SST::Core::Serialization::serializer& ser) override
    {
        PortModule::serialize_order(ser);
        SST_SER(mid_);
        SST_SER(n_);
        SST_SER(send_);
        SST_SER(recv_);
        SST_SER(acts_);
        SST_SER(stat_);
    }
    ImplementSerializable(vtest::PM);
};
} // namespace vtest
