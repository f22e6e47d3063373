#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json.  python3 lib/props.py writes both."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks_table import CHECKS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
S = "src/sst/core/"


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files], "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": S + b} for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})


# ----------------------------------------------------------------- the simulation engine
prop("P01", "Every sent event arrives once, on time, in order, at the right handler",
     "An event sent on a link at time T with extra delay d is delivered to the receive handler of the port at the other end exactly once, at "
     "simulated time T plus the link latency plus d (each converted from its own unit), and events sent on one link that are due at the same time "
     "arrive in the order they were sent. Self links, links whose two directions have different latencies, "
     "latencies the component adds at send or receive time, polled links and links owned by a subcomponent all obey the same rule.",
     ["programs", "configurations", "histories"],
     "Every model with up to three components built from the enumerated link topologies, latencies, time bases, send delays and forwarding rules.",
     "The golden-file tests run a handful of fixed models and compare printed output; none relates delivery times to the latencies for every combination.",
     ["link.cc", "link.h", "linkPair.h", "event.cc", "simulation.cc", "baseComponent.cc"],
     [("Link::send_impl computes the delivery time", "link.cc"), ("Event::execute delivers to the handler", "event.cc"),
      ("Simulation::run advances the clock of the simulation", "simulation.cc")],
     ["handler invocations: component, port, time, payload"])
prop("P02", "Activities run in time, priority and insertion order under every queue",
     "Activities come out of the event queue in nondecreasing delivery time; at equal times lower priority values run first; at equal time and priority "
     "events run in the order fixed by the link they came over and then in the order they were inserted. The built-in time vortex "
     "implementations realise the same order for every interleaving of inserts and removals, and report their size, front and contents accordingly.",
     ["histories", "configurations"],
     "Every sequence of inserts and pops up to the stated length over an alphabet of times, priorities and order tags that forces ties.",
     "Existing tests run whole models under the default queue; ties and the alternative queues are hardly exercised.",
     ["timeVortex.h", "activity.h", "impl/timevortex/timeVortexPQ.cc", "impl/timevortex/timeVortexBinnedMap.cc", "activityQueue.h"],
     [("Activity::less comparators", "activity.h"), ("TimeVortexPQBase::insert/pop", "impl/timevortex/timeVortexPQ.cc"),
      ("TimeVortexBinnedMapBase", "impl/timevortex/timeVortexBinnedMap.cc")],
     ["order in which activities are popped"])
prop("P03", "Partitioning, threads and ranks do not change what a component observes",
     "For a given model with at least one primary component, the sequence of (time, handler, payload) each component observes, and its end-of-simulation result, are the same whether the model "
     "runs on one thread or on any assignment of its components to MPI ranks and threads, and for either link-handling mode between threads.",
     ["configurations", "programs", "schedules"],
     "Every assignment of up to four components to up to three ranks and up to three threads of the enumerated models.",
     "The tests run fixed models on two ranks or four threads with one partition each and compare one golden output.",
     ["simulation.cc", "main.cc", "sync/syncManager.cc", "sync/rankSyncSerialSkip.cc", "sync/rankSyncParallelSkip.cc", "sync/syncQueue.cc",
      "sync/threadSyncSimpleSkip.cc", "sync/threadSyncDirectSkip.cc", "model/configGraph.cc", "link.cc"],
     [("SyncManager::execute and computeNextInsert", "sync/syncManager.cc"), ("RankSync exchange", "sync/rankSyncSerialSkip.cc"),
      ("order tags on links", "model/configGraph.cc")],
     ["per-component records of handler invocations"])
prop("P04", "Clock handlers run on exactly the cycles of their period",
     "A clock handler registered with a period P runs at every multiple of P with the right cycle number from the first cycle after its registration until it asks to stop or is "
     "unregistered, and at no other time; handlers on the same clock run in registration order. After "
     "re-registration it resumes with the next cycle number that the simulator announced, and never misses or repeats a cycle because other handlers of that clock come or go.",
     ["histories", "programs"],
     "Every sequence up to the stated length of register, stop, unregister and re-register operations, issued from clock and event handlers, of up to three handlers over two periods.",
     "The clock test registers fixed clocks and compares one golden output; histories of stopping and resuming are not explored.",
     ["clock.cc", "clock.h", "baseComponent.cc", "simulation.cc", "timeConverter.h"],
     [("Clock::execute", "clock.cc"), ("Clock::schedule and updateCurrentCycle", "clock.cc"), ("BaseComponent::registerClock/reregisterClock", "baseComponent.cc")],
     ["clock handler invocations: time and cycle"])
prop("P05", "A one-shot runs once, at the time it was asked for",
     "A one-shot handler registered with the one-shot manager at time T with delay d, or for an absolute time, runs exactly once, at T + d or at that time and at the priority asked for; one for a past time never runs. One-shots due at the same "
     "time and priority run in the order they were registered, also when they are registered from other one-shots, clock handlers or event handlers.",
     ["histories", "programs"],
     "Every sequence of registrations from setup, one-shots, clocks and event handlers with up to the stated number of one-shots over colliding delays.",
     "One fixed model covers one-shots.",
     ["oneshot.h", "impl/oneshotManager.cc", "impl/oneshotManager.h", "baseComponent.cc"],
     [("OneShotManager::registerRelative/Absolute and execute", "impl/oneshotManager.cc")],
     ["one-shot invocations"])
prop("P06", "The simulation ends when it should, and not before",
     "A simulation with primary components ends at the time at which the last of them agreed to end, and every event or clock tick due before that time runs first; a component may withdraw and renew its "
     "agreement any number of times before that. With a stop time, nothing due at or after it runs, and the simulation ends at the earlier of the two (at the stop time if there is no primary component); the reported end time is that time, "
     "whatever the number of threads and ranks. A thread or rank whose components are not connected with any other ends by the agreement of its own components.",
     ["programs", "configurations", "histories"],
     "Every combination of agreement and withdrawal times of up to three primary components, stop times, threads and ranks.",
     "Fixed models end once each in one configuration.",
     ["exit.cc", "exit.h", "stopAction.h", "simulation.cc", "baseComponent.cc", "component.cc"],
     [("Exit::refInc/refDec/check/computeEndTime", "exit.cc"), ("StopAction", "stopAction.h"), ("Simulation::run", "simulation.cc")],
     ["time of the last activity and the end-of-simulation time seen by finish()"])
prop("P07", "The untimed phases run in order and deliver data in the next phase",
     "init(p) and complete(p) are called on every component for consecutive phases p = 0, 1, 2, ... until a phase in which nobody sent anything; data sent in phase p "
     "is available to the receiver in phase p + 1, once and in order. setup runs after the last init phase and before any event; complete runs after the last event and before finish, "
     "and this is the same for every partitioning.",
     ["programs", "configurations"],
     "Every pattern of sends over the first three phases between up to three components, for every partitioning over ranks and threads.",
     "Tests send one fixed string each way.",
     ["initQueue.cc", "uninitializedQueue.cc", "simulation.cc", "link.cc", "sync/syncManager.cc", "sync/rankSyncSerialSkip.cc"],
     [("Simulation::initialize/complete", "simulation.cc"), ("Link::sendUntimedData_sync", "link.cc"), ("exchangeLinkUntimedData", "sync/syncManager.cc")],
     ["phase calls and data received in each"])
prop("P08", "A simulation restarted from any checkpoint continues as the original",
     "Whatever simulated time a checkpoint is taken at, and whatever links, pending events, clocks, self links, exit agreements and statistics are in flight at that time, restarting from it "
     "yields for every component the remainder of the original run's observations. Taking checkpoints does not change the run that takes them.",
     ["crash_points", "programs", "configurations"],
     "Every checkpoint period up to the end of the run of each enumerated model, on one or more threads; every checkpoint written is restarted.",
     "The test suite restarts a few models from one fixed checkpoint time.",
     ["checkpointAction.cc", "simulation.cc", "main.cc", "model/restart/sstrestartmodel.cc", "baseComponent.cc", "componentInfo.cc", "link.cc", "clock.cc",
      "serialization/serializer.h", "impl/timevortex/timeVortexPQ.cc"],
     [("Simulation::checkpoint / restart", "simulation.cc"), ("CheckpointAction::execute", "checkpointAction.cc"), ("Link::serialize", "link.cc"),
      ("BaseComponent::serialize_order", "baseComponent.cc")],
     ["per-component records before and after the restart"])
prop("P10", "Port modules see every event of their port and decide its fate",
     "A port module installed on a port is called once for each event crossing that port in its direction, in order, several modules on one port in the order they were attached; a module that drops or replaces an event "
     "changes what the receiver gets and nothing else does. The built-in drop module removes exactly the events its random sequence selects.",
     ["configurations", "programs"],
     "Every placement of up to two modules on the ports of a two component model, for send and receive sides and every drop/replace/modify pattern over the first events.",
     "One test places one module on one port.",
     ["portModule.cc", "portModule.h", "impl/portmodules/randomDrop.cc", "link.cc", "link.h"],
     [("Link::attachTool and send tools", "link.cc"), ("PortModule::eventSent/interceptHandler", "portModule.cc")],
     ["events received and module calls"])
# ----------------------------------------------------------------- threads
prop("T01", "The thread barrier releases nobody early and everybody eventually",
     "No thread leaves a barrier round before all participating threads have entered it, every thread leaves once all have entered, and this holds for every number "
     "of successive rounds, after resizing before use, and when the barrier is disabled to let all waiting threads go. Writes made before the barrier are visible after it.",
     ["schedules"],
     "Every interleaving of two and three threads at atomic-operation granularity, up to the stated number of preemptions, over up to three rounds.",
     "The OS scheduler picks a few interleavings; there is no unit test of the barrier.",
     ["threadsafe.h"], [("ThreadSafe::Barrier::wait", "threadsafe.h")], ["entry and exit of wait() per thread and round"])
prop("T02", "Queues, locks and counters shared by threads lose and duplicate nothing",
     "The bounded and unbounded lock-free queues return every inserted element exactly once and in the order each producer inserted it, and a bounded queue refuses an element only when it is full. "
     "The spin locks admit one thread at a time and the atomic maximum and minimum end at the extreme value offered.",
     ["schedules", "histories"],
     "Every interleaving of two and three threads with up to three operations each, up to the stated number of preemptions.",
     "No test drives these structures from several threads.",
     ["threadsafe.h"],
     [("BoundedQueue", "threadsafe.h"), ("UnboundedQueue", "threadsafe.h"), ("Spinlock", "threadsafe.h"), ("atomic_fetch_max", "threadsafe.h")],
     ["returned values per thread"])
prop("T03", "Threads that feed a shared event queue hand over every event exactly once",
     "Events that several threads insert into the thread-safe event queue, or into the queues used between threads and between ranks, while another thread drains it, come out exactly once and none earlier than an event due before it that was already inserted. "
     "No schedule deadlocks, races or corrupts the queue.",
     ["schedules"],
     "Every interleaving of two and three threads with up to three operations each, up to the stated number of preemptions.",
     "Tests exercise these only through whole simulations under whatever schedule the OS picks.",
     ["impl/timevortex/timeVortexPQ.cc", "impl/timevortex/timeVortexBinnedMap.cc", "sync/syncQueue.cc", "sync/syncQueue.h", "exit.cc"],
     [("TimeVortexPQBase<true>", "impl/timevortex/timeVortexPQ.cc"), ("RankSyncQueue::insert/getData", "sync/syncQueue.cc"), ("Exit::refInc/refDec", "exit.cc")],
     ["elements drained"])
prop("T04", "The memory pool never hands out memory that is in use",
     "A memory pool never gives the same element to two holders at once, every element it gives is large enough, aligned and untouched by the pool while held, and an element may be freed by a thread other than the one that allocated it. "
     "Its usage counters equal what is outstanding.",
     ["schedules", "histories"],
     "Every sequence of allocations and frees up to the stated length, and every interleaving of two and three threads that allocate and free, up to the stated number of preemptions.",
     "One test allocates from one thread per pool.",
     ["mempool.cc", "mempool.h", "mempoolAccessor.h"], [("MemPoolNoMutex / MemPool malloc and free", "mempool.cc")], ["addresses and contents of outstanding elements"])
# ----------------------------------------------------------------- data structures
prop("D01", "Deserialization returns the value that was serialized",
     "For every supported type (arithmetic types, strings, enums, pairs, tuples, arrays, all standard containers, optional, variant, bitset, complex, atomics, smart pointers, serializable classes, and nestings of them) unpacking what was "
     "packed yields an equal value and consumes exactly the bytes that sizing announced and packing wrote.",
     ["inputs"],
     "All values of the enumerated small domains of each supported type, composed to the stated depth, alone and followed by other values.",
     "The serialization test packs one value per type.",
     ["serialization/serialize.h", "serialization/serializer.h", "serialization/impl", "serialization/serializer.cc"],
     [("serialize_impl specialisations", "serialization/impl"), ("pvt::ser_sizer/ser_packer/ser_unpacker", "serialization/impl")], ["unpacked value"])
prop("D02", "Deserialization rebuilds shared and polymorphic object graphs",
     "With pointer tracking, two pointers that referred to one object refer to one object after unpacking, distinct objects stay distinct, null stays null, cycles close, polymorphic objects come back with their dynamic type, and shared ownership is preserved. "
     "Without tracking every pointer becomes its own copy.",
     ["inputs", "programs"],
     "All pointer graphs with up to the stated number of nodes and edges, over raw, unique, shared and weak pointers.",
     "Tests serialize a few fixed shapes.",
     ["serialization/serializer.cc", "serialization/serializer.h", "serialization/serializable.h", "serialization/serializable_base.cc", "serialization/impl"],
     [("pointer tracking in serializer", "serialization/serializer.h"), ("serializable_factory", "serialization/serializable_base.cc")], ["identity structure after unpacking"])
prop("D03", "Unit and decimal arithmetic is exact",
     "Parsing, printing, comparing, converting and computing with decimal fixed-point numbers and with unit-carrying numbers gives the exact mathematical result, rounded or truncated only below the stated resolution; "
     "quantities with different units never compare equal and cannot be added, and SI and binary prefixes scale by their definition wherever they occur in the unit. "
     "A malformed or unrepresentable literal is reported and never silently turned into another number.",
     ["inputs", "histories"],
     "All pairs from a grammar of literals, units and prefixes that covers signs, exponents, zero, fractions and the limits of the storage, and all operation sequences up to the stated length.",
     "Tests check fewer than fifty fixed expressions.",
     ["decimal_fixedpoint.h", "unitAlgebra.cc", "unitAlgebra.h"],
     [("decimal_fixedpoint", "decimal_fixedpoint.h"), ("Units::addUnit / operator*=", "unitAlgebra.cc")], ["value and unit of the result"])
prop("D05", "Time conversions are exact, or refused",
     "Converting a period or frequency to simulator ticks gives exactly the number of time base units it stands for when that is a whole number, and the nearest whole number otherwise; a time below one unit or above the 64-bit range "
     "is refused. Converting between a component's time base and core time scales by its factor, and the current time reads the same in every unit.",
     ["inputs", "configurations"],
     "Every combination of the enumerated core time bases, prefixes and mantissas, in the time and frequency spelling.",
     "Tests use one time base and a few round numbers.",
     ["timeLord.cc", "timeLord.h", "timeConverter.h"],
     [("TimeLord::getSimCycles / getTimeConverter", "timeLord.cc"), ("TimeConverter::convertToCoreTime/convertFromCoreTime", "timeConverter.h")], ["factor and converted times"])
prop("D06", "Parameter lookup honours keys, scopes, shared sets, defaults and parsing",
     "A parameter lookup returns the value set for that key in the component's own parameters, else the one of its shared sets, else the default, converted exactly to the requested type; scoped lookups see exactly the keys under "
     "the prefix; malformed values are reported and arrays are split where the documentation says. Copying, inserting and serializing parameter sets preserve all of this.",
     ["inputs", "histories"],
     "Every sequence up to the stated length of inserts, scoped views and lookups over a small alphabet of keys and values, compared with a map.",
     "Tests look up a fixed list of keys.",
     ["params.cc", "params.h", "from_string.h"],
     [("Params::find / find_prefix_params / get_scoped_params", "params.h"), ("Params::insert", "params.cc")], ["values found, flags and key sets"])
prop("D07", "The sorted-vector maps behave as maps",
     "The vector-backed maps the configuration uses return, after any sequence of inserts, removals, lookups and clears, what an ordered map of the same contents returns, and iterate in key order; inserting a key that is present leaves the map unchanged.",
     ["histories"], "Every sequence of operations up to the stated length over a small key set, for each of the map flavours, including sequential bulk insertion and serialization.",
     "No direct tests.", ["sparseVectorMap.h"], [("SparseVectorMap::insert/find/erase/sort", "sparseVectorMap.h")], ["results of operations"])
prop("D08", "Shared objects publish one consistent, complete and immutable view",
     "All components that open a shared array, map or set by name see, once it is published, the union of what all of them wrote, on every thread and rank; writes that conflict are reported according to the chosen verification mode, "
     "writes after publication are rejected, and the object is not published before all that opened it have called publish.",
     ["histories", "configurations"],
     "Every sequence of opens, writes, publishes and reads up to the stated length by two or three components over a small key and value set, on every partitioning over threads and ranks.",
     "One model fills one object of each kind without conflicts.",
     ["shared/sharedObject.cc", "shared/sharedObject.h", "shared/sharedArray.h", "shared/sharedMap.h", "shared/sharedSet.h"],
     [("SharedObjectDataManager", "shared/sharedObject.cc"), ("SharedObjectChangeSet application", "shared/sharedArray.h")], ["contents read by each component"])
prop("D09", "Random sequences are a function of the seed and survive serialization",
     "Each random generator yields the published algorithm's sequence for its seed, the same in every run, and a copy restored from a serialized generator continues the sequence of the original at any point. Uniform draws lie in [0, 1), and "
     "every distribution maps the draws of its generator to values of its support as documented.",
     ["inputs", "histories"],
     "All seeds of a boundary set, all call interleavings up to the stated length of the different draw functions, with a save and restore at every position.",
     "Golden outputs cover one seed each.",
     ["rng/mersenne.cc", "rng/marsaglia.cc", "rng/xorshift.cc", "rng/discrete.h", "rng/expon.h", "rng/gaussian.h", "rng/poisson.h", "rng/uniform.h", "rng/constant.h"],
     [("MersenneRNG::generateNextUInt32", "rng/mersenne.cc"), ("MarsagliaRNG", "rng/marsaglia.cc"), ("XORShiftRNG", "rng/xorshift.cc")], ["drawn numbers"])
# ----------------------------------------------------------------- statistics
prop("S01", "Statistics report what was recorded",
     "An accumulator reports the sum, sum of squares, count, minimum and maximum of the values it was given; a histogram reports in each bin the number of values in the bin's range, with out-of-range values "
     "counted apart; a unique counter reports the number of different values. Adding a value n times equals adding it one at a time, and clearing, disabling and saving and restoring keep the reports consistent.",
     ["inputs", "histories"],
     "Every sequence up to the stated length of add, add-many, clear, enable, disable and serialize over boundary values of every field type.",
     "One model with fixed data compares golden output.",
     ["statapi/stataccumulator.h", "statapi/stathistogram.h", "statapi/statuniquecount.h", "statapi/statbase.cc", "statapi/statbase.h"],
     [("AccumulatorStatistic::addData_impl", "statapi/stataccumulator.h"), ("HistogramStatistic::addData_impl_Ntimes", "statapi/stathistogram.h"),
      ("Statistic::addData", "statapi/statbase.h")], ["reported fields"])
prop("S02", "Statistics are written at the configured times, once, for the enabled ones",
     "A statistic is reported once per configured period (or after the configured number of additions), and once at the end unless that is turned off, with exactly the data recorded since it was "
     "enabled or last cleared on output; load levels, per-component and per-type enabling and start and stop times decide which statistics report and when. All of this is independent of the number of threads and ranks.",
     ["configurations", "programs"],
     "Every combination of the enumerated rates, start and stop times, reset and end-of-simulation flags, load levels and partitionings.",
     "A few golden files.",
     ["statapi/statengine.cc", "statapi/statbase.cc", "statapi/statgroup.cc", "statapi/statoutput.cc", "statapi/statoutputcsv.cc", "baseComponent.cc"],
     [("StatisticProcessingEngine::registerStatisticCore / handleStatisticEngineClockEvent", "statapi/statengine.cc"), ("StatisticBase::checkEventForOutput", "statapi/statbase.cc")],
     ["rows written by the statistic output"])
# ----------------------------------------------------------------- configuration
prop("M01", "Writing out a configuration and reading it back yields the same model",
     "The JSON description the simulator writes for any model it has read builds the same model again: components, subcomponents, parameters, shared parameter sets, links with both latencies, statistics, port modules, partition and program options. "
     "Serializing and unpacking the configuration, as is done to send it to other ranks, preserves it as well.",
     ["configurations", "inputs"],
     "Every configuration built from the enumerated features, including names and values with special characters, up to the bounds.",
     "A round-trip test exists for a few fixed models.",
     ["model/json/jsonmodel.cc", "cfgoutput/jsonConfigOutput.cc", "model/configGraph.cc", "model/configComponent.cc", "model/configLink.cc", "model/configStatistic.cc"],
     [("SSTJSONModelDefinition", "model/json/jsonmodel.cc"), ("JSONConfigGraphOutput", "model/cfgoutput/jsonConfigOutput.cc"), ("ConfigGraph::serialize_order", "model/configGraph.cc")],
     ["the configuration graph"])
prop("M02", "Every partitioner assigns each component once and keeps glued ones together",
     "Each built-in partitioner assigns every component to exactly one existing rank and thread, keeps together components joined by a link that must not be cut, leaves explicitly placed components where the user put them for the self "
     "partitioner, and uses the ranks and threads it claims to; the lookahead derived from the result is the smallest latency of a link that crosses the cut.",
     ["configurations"],
     "All graphs with up to five components and the stated numbers of links, weights, no-cut marks, ranks and threads.",
     "Partitioners are tested on a few regular graphs.",
     ["impl/partitioners/linpart.cc", "impl/partitioners/rrobin.cc", "impl/partitioners/simplepart.cc", "impl/partitioners/selfpart.cc", "impl/partitioners/singlepart.cc",
      "model/configGraph.cc", "main.cc"],
     [("SSTLinearPartition::performPartition", "impl/partitioners/linpart.cc"), ("SimplePartitioner", "impl/partitioners/simplepart.cc"),
      ("ConfigGraph::getCollapsedPartitionGraph/annotateRanks", "model/configGraph.cc")], ["rank and thread of each component"])
prop("M03", "A model that is wired wrongly is rejected, and a correct one is built as written",
     "Links with a missing or doubly used end, duplicate component names, unknown element types, undeclared or unwired ports that are used, missing latencies and malformed values are reported as errors and stop the run; every model without such an error "
     "is built exactly as described, with the latency, parameters, subcomponents and slots given.",
     ["configurations", "inputs"],
     "All single and double mistakes over a small correct model.",
     "A few fixed error cases.",
     ["model/configGraph.cc", "model/json/jsonmodel.cc", "simulation.cc", "factory.cc", "baseComponent.cc", "componentInfo.cc", "linkMap.h"],
     [("ConfigGraph::checkForStructuralErrors", "model/configGraph.cc"), ("Simulation::performWireUp", "simulation.cc"), ("Factory::CreateComponent", "factory.cc")],
     ["exit code and message, or the built model"])
# ----------------------------------------------------------------- services
prop("O01", "Output goes to the chosen place, at the chosen verbosity, with the right prefix",
     "A message is written once, to the configured destination, exactly when its level does not exceed the verbosity and all its mask bits pass the mask, prefixed by the expansion of the configured format (rank, thread, time, file, line, function); "
     "calls that write unconditionally do so. Restoring an output object from serialized form, re-initializing, closing and reopening change none of this.",
     ["inputs", "histories"],
     "All combinations of level, mask, verbosity, destination and prefix formats over short sequences of calls.",
     "One model prints fixed lines.",
     ["output.cc", "output.h"], [("Output::outputprintf / buildPrefixString", "output.cc"), ("Output::verbose/debug", "output.h")], ["bytes written"])
prop("O02", "Messages cross the interprocess tunnel once, in order and uncorrupted",
     "Messages written to a circular buffer shared between the simulator and a child process are read exactly once, in order and complete; a full buffer blocks the writer, an empty one the reader, a non-blocking read "
     "returns at once, and clearing leaves it empty. The tunnel gives parent and child the same layout of buffers, and every child that attaches is counted once.",
     ["schedules", "histories"],
     "Every interleaving of one or two writers and one reader over buffers of one to three entries, up to the stated number of preemptions; all tunnel shapes up to the stated sizes.",
     "No tests.",
     ["interprocess/circularBuffer.h", "interprocess/tunneldef.h", "interprocess/sstmutex.h", "interprocess/mmapparent.cc", "interprocess/shmparent.cc"],
     [("CircularBuffer::write/read/readNB", "interprocess/circularBuffer.h"), ("TunnelDef", "interprocess/tunneldef.h")], ["messages read"])
prop("O03", "Watchpoints trigger exactly when their condition becomes true",
     "A watchpoint on a component's variables triggers at each handler boundary at which its condition (comparison, change, or a conjunction or disjunction of these) holds for the values at that point, and at no other; a comparison holds exactly when it holds between the two values as "
     "numbers of the variable's type, and the trace buffer holds the last samples before and after the trigger in order.",
     ["inputs", "histories"],
     "All value histories up to the stated length for every variable type and operator, all buffer sizes and delays up to the stated bound.",
     "Interactive debugging is tested by a few scripted sessions.",
     ["watchPoint.cc", "watchPoint.h", "serialization/objectMap.h", "serialization/objectMap.cc"],
     [("ObjectMapComparison::compare", "serialization/objectMap.h"), ("TraceBuffer", "serialization/objectMap.h"), ("WatchPoint::check", "watchPoint.cc")],
     ["trigger decisions and buffer contents"])
NA = {}


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        c = CHECKS.get(p["id"])
        if c:
            checks.append({"property": p["id"], "quick_cmd": f"python3 lib/check.py {p['id']} quick", "thorough_cmd": f"python3 lib/check.py {p['id']} thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"], "level": c.get("level", "model_checking"),
                           "level_note": c["note"]})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "no check has been built for it yet")})
    m = {"version": 1, "setup_cmd": "python3 lib/check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "The checks compile /repo's sources themselves (lib/vbuild.py); no hooks in /repo are needed."}
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
