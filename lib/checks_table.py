"""Programs (harness sources) and the checks that use them."""
MC = "/verif/lib/mc.cc"
import os
MC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc.cc")


def P(*srcs, **kw):
    return dict(srcs=[*srcs, MC] if not kw.get("shared") else list(srcs), **kw)


def SIM(src):
    return P(src, "simlib.cc")


TMC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tmc.cc")
INSTR = ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-g1"]


def THR(src, *core):
    """A program run under the thread model checker: its source and the given sources of the core are instrumented."""
    return dict(srcs=[(src, INSTR + ["-fno-access-control"]), *[("@core/" + c, INSTR + ["@uut"]) for c in core], TMC, MC])


PROGRAMS = {
    "h_t01": THR("h_t01.cc"),
    "h_t02": THR("h_t02.cc"),
    "h_t03": THR("h_t03.cc", "impl/timevortex/timeVortexPQ.cc", "impl/timevortex/timeVortexBinnedMap.cc", "sync/syncQueue.cc", "initQueue.cc", "exit.cc"),
    "h_o02": THR("h_o02.cc"),
    "h_t04": THR("h_t04.cc", "mempool.cc"),
    "vtest": P("vtest.cc", shared=True, extra=["-fno-access-control", "-DVERIF_ONESHOT"]),
    "h_sim": SIM("h_sim.cc"),
    "h_p01": SIM("h_p01.cc"),
    "h_p03": SIM("h_p03.cc"),
    "h_p04": SIM("h_p04.cc"),
    "h_p02": P("h_p02.cc"),
    "h_p02m": SIM("h_p02m.cc"),
    "h_p05": SIM("h_p05.cc"),
    "h_p06": SIM("h_p06.cc"),
    "h_p07": SIM("h_p07.cc"),
    "h_p08": SIM("h_p08.cc"),
    "h_p10": SIM("h_p10.cc"),
    "h_s02": SIM("h_s02.cc"),
    "h_m02": P("h_m02.cc", "simlib.cc", extra=["-fno-access-control"]),
    "h_m01": P("h_m01.cc", "simlib.cc", extra=["-fno-access-control"]),
    "h_d01": P("h_d01.cc", *[f"h_d01_{i}.cc" for i in range(8)]),
    "h_d02": P("h_d02.cc"),
    "h_d05": P("h_d05.cc", extra=["-fno-access-control"]),
    "h_d06": P("h_d06.cc", extra=["-fno-access-control"]),
    "h_o01": P("h_o01.cc", extra=["-fno-access-control"]),
    "h_d07": P("h_d07.cc"),
    "h_o03": P("h_o03.cc", extra=["-fno-access-control"]),
    "h_s01": P("h_s01.cc", extra=["-fno-access-control"]),
    "h_d08t": THR("h_d08t.cc"),
    "h_d08": P("h_d08.cc", extra=["-fno-access-control"]),
    "h_d09": P("h_d09.cc"),
    "h_units": P("h_units.cc"),
}

OPSEQ = "bounded-exhaustive enumeration of operation sequences and inputs on the real code against a reference model"

SIMX = ("exhaustive enumeration of bounded models, configurations and histories on the real simulator (one execution per combination) against a reference "
        "interpreter; every reference trace is replayed on the implementation")

THRX = ("stateless model checking of the real code under a controlled scheduler: all thread schedules up to a preemption bound, "
        "with vector-clock race detection")

CHECKS = {
    "D03": {"parts": [{"prog": "h_units"}], "technique": OPSEQ,
            "note": "Every literal, unit and operation sequence of the stated alphabet is executed on the compiled classes and compared with exact rational "
                    "arithmetic (boost cpp_int). Values outside the alphabet are not covered.",
            "bounds": "decimal literals: all strings of the grammar up to the stated length; all pairs of the boundary values for each operator; unit literals: all pairs of number x prefix x "
                      "unit up to two numerator and denominator units; operation sequences of length 4"},
    "P01": {"parts": [{"prog": "h_p01", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Serial simulations of the real core. Each model is one execution; deliveries are compared with a reference interpreter of the element scripts.",
            "bounds": "up to three components and four links; latencies, send delays, units and handler programs from the listed sets"},
    "P03": {"parts": [{"prog": "h_p03", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Every assignment of the models' components to the listed rank x thread grids is run on the real core; ranks are processes over a shared-memory stand-in for MPI "
                    "(it starts in milliseconds and can hold messages back), thread interleavings within a run are those the machine produced (T01-T04 explore them). Polled links in the experimental direct mode are excluded.",
            "bounds": "messages of 3930-4140 (and up to 40000) bytes growing, shrinking and alternating in every phase; five model shapes of up to four components, five latency profiles, up to 3x2 partitions"},
    "P04": {"parts": [{"prog": "h_p04", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Histories of clock operations issued from inside clock and event handlers of the real core, compared with a reference clock. The order of different clocks at one tick is not specified and not compared.",
            "bounds": "all pairs of operations over two periods and three handlers, single operations on their own, triples in the thorough tier"},
    "P06": {"parts": [{"prog": "h_p06", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Agreement histories of up to three primary components on the real core under several partitionings. Withdrawing after all have agreed is outside the domain.",
            "bounds": "eleven histories per component, one to three components, two ways to agree, three latency pairs, stop time or none, up to 2x2 partitions; unconnected models on up to four threads; models without primary components under seven stop times"},
    "P07": {"parts": [{"prog": "h_p07", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Every pattern of untimed sends of the listed shapes is run on the real core, serially and on the listed partitions, and compared with a phase-by-phase reference. "
                    "init/setup/complete/finish are observed on components; parents call their subcomponents.",
            "bounds": "sends of up to two messages per phase over three phases between two or three components, replies chained through handlers, init and complete, up to 2x2 partitions, "
                      "standard and direct thread links"},
    "P08": {"parts": [{"prog": "h_p08", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Nine models that keep events, clocks, self links, polled events, agreements, port modules, random generators or statistics in flight; every checkpoint the run writes is restarted on the real "
                    "core and compared with the remainder of the run. Order of different clocks at one tick and what a parallel run does after its end time (until the next sync) are not compared.",
            "bounds": "checkpoint periods 1, 4, 7 (1 to 12 in the thorough tier), two latencies, 1x1 1x2 2x1 2x2 partitions, restarts alike and on each other partition"},
    "P02": {"parts": [{"prog": "h_p02"}, {"prog": "h_p02m", "needs": ["vtest"]}], "technique": OPSEQ,
            "note": "All operation sequences of the stated length on the four built-in queue classes against a sorted list, all pairs of boundary keys on the comparators, and scripted models full of ties "
                    "under each queue against the reference interpreter. Inserts in the past and front() of an empty queue are outside the domain.",
            "bounds": "sequences of 6 (8 thorough) operations over 6 keys, of 5 (6) over 8 extreme keys, bulk inserts up to 62 activities; six model shapes x latencies x queue x partition"},
    "P05": {"parts": [{"prog": "h_p05", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Histories of registrations with the core's one-shot manager, issued from setup, clocks, events and one-shots of scripted elements on the real core.",
            "bounds": "all pairs over 36 registrations and six places, all triples over 10 (36 thorough), up to four equal registrations; times up to 7, four priorities"},
    "P10": {"parts": [{"prog": "h_p10", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Scripted port modules on the ports of two components of the real core; calls of every module and every handler are compared with the reference interpreter, on one thread, two threads and two ranks. "
                    "Receive modules on polled ports (refused by the core), self links (not supported) and null events are outside the domain.",
            "bounds": "all words of 4 actions for one module (5 thorough), of 2 for every pair of modules (3 thorough), one action for three modules on a port; seven port shapes; random drop: six probabilities, four seeds"},
    "T01": {"parts": [{"prog": "h_t01"}], "technique": THRX,
            "note": "The real Barrier, compiled with every memory access instrumented and run under a controlled scheduler. Atomics execute sequentially consistently; the memory orders are judged by race detection on the data they are meant to publish. "
                    "Spinning threads are put aside and scheduled fairly.",
            "bounds": "two and three threads, up to three rounds, resize and disable; preemption bound 2 to 3 (one more in the thorough tier)"},
    "T02": {"parts": [{"prog": "h_t02"}], "technique": THRX,
            "note": "The real queues, spin locks and atomic extremum functions under the controlled scheduler. Atomics execute sequentially consistently, memory orders are judged by race detection on the elements; a weak compare-exchange does not fail spuriously. "
                    "A bounded queue may refuse an element while a removal that makes room for it is under way.",
            "bounds": "two and three threads, up to three operations each, capacities 1 to 3; preemption bound 2 to 3 (one more in the thorough tier)"},
    "T03": {"parts": [{"prog": "h_t03"}], "technique": THRX,
            "note": "The real thread-safe time vortices, rank and init queues and the exit counter (their core sources instrumented) under the controlled scheduler. One thread drains; producers insert at or after the time of the last sync, as the core does.",
            "bounds": "two and three threads, up to three operations each; preemption bound 2 (one more in the thorough tier)"},
    "T04": {"parts": [{"prog": "h_t04"}], "technique": THRX + "; operation sequences without preemption for long histories",
            "note": "The real memory pools under the controlled scheduler; contents of held elements, addresses, alignment and counters are checked at every step. Freeing twice is fatal by design and outside the domain.",
            "bounds": "two and three threads with up to three operations each at preemption bound 2; all sequences of allocations and frees over several sizes up to the stated length"},
    "O02": {"parts": [{"prog": "h_o02"}], "technique": THRX,
            "note": "The real CircularBuffer, mutex and tunnel definition on one memory region under the controlled scheduler; reader, writers and attaching children are threads (the code is the same in separate processes). A buffer of size n holds n - 1 messages.",
            "bounds": "one or two writers and one or two readers, buffers of two to four entries, up to four messages; preemption bound 2; two children attaching at the same time; tunnel shapes up to the listed sizes"},
    "D01": {"parts": [{"prog": "h_d01"}], "technique": OPSEQ,
            "note": "Every value of the small domain of each type is sized, packed and unpacked by the real serializers into fresh and used targets, with and without tracking, alone and followed by others. Pointers to pointers, to smart pointers "
                    "and to aggregates, which the library does not support, are outside the domain; event and clock handlers are covered by P08.",
            "bounds": "about 95 leaf and one-constructor types and 750 two-constructor types, all values of domains of two to seven values"},
    "D02": {"parts": [{"prog": "h_d02"}], "technique": OPSEQ,
            "note": "All pointer graphs of the stated size go through the real serializers; the identity structure of the result is compared with the original's. Objects serialized by value come before pointers to them (documented); cycles need tracking.",
            "bounds": "graphs of up to three nodes (four thorough) over raw, polymorphic, unique, shared and weak pointers; ten kinds of containers by pointer; 18 holders of objects by value; 18 types under every option combination"},
    "D05": {"parts": [{"prog": "h_d05"}], "technique": OPSEQ,
            "note": "Every literal of the grammar under every core time base is converted by the real TimeLord and TimeConverter and compared with exact rationals. Ties of the rounding may go either way (the quotient is itself rounded); magnitudes of 1e24 and more, "
                    "which quantities cannot hold, are outside the domain.",
            "bounds": "14 core time bases, 28 numbers, 8 second and 7 hertz prefixes, with and without a space; boundary times for both conversions and the current time in every unit; request sequences for the converter cache"},
    "D06": {"parts": [{"prog": "h_d06"}], "technique": OPSEQ,
            "note": "All operation sequences on two parameter sets and two shared sets against std::map, all literals against an independent reading of them. Trailing garbage in numbers, integers outside the range of the requested type and backslash escapes are outside the domain.",
            "bounds": "sequences of 4 (5 thorough) of 23 operations; all listed literals for every arithmetic type, bool and strings; lists, sets and maps of up to three elements in every notation, malformed ones"},
    "D07": {"parts": [{"prog": "h_d07"}], "technique": OPSEQ,
            "note": "All operation sequences on the three flavours of the real map against std::map.",
            "bounds": "sequences of 5 (7 thorough) operations over 4 to 5 keys of three types, all insertion orders of up to 7 (8) keys"},
    "D08": {"parts": [{"prog": "h_d08"}, {"prog": "h_d08t"}], "technique": OPSEQ + "; " + THRX,
            "note": "The real shared objects, change sets and manager; ranks are fibers of one process that exchange the bytes the real code serializes. Operations of different ranks between two synchronisations are "
                    "enumerated in rank order only, as they do not interact. Concurrent writes of different values under NO_VERIFY, or of the initial value under INIT_VERIFY, by different ranks have no specified result and are not compared. "
                    "Threads: the templates are instrumented and run under the thread model checker; the update of the manager, which one thread runs between barriers, is not.",
            "bounds": "maps, sets, int and bool arrays; up to three instances on up to three ranks; all histories of four or five operations (five or six thorough) after the opens, and of three (four) with opens in them; three verification modes, "
                      "two lengths, two initial values; writes, opens, save and restore after every history; two threads (three in the thorough tier) that open, write, read and publish, with up to three (four) preemptions"},
    "D09": {"parts": [{"prog": "h_d09"}], "technique": OPSEQ,
            "note": "The real generators against independent implementations (std::mt19937, Marsaglia's multiply with carry, xor128), the real distributions over a scripted generator that yields every sequence of boundary draws. One known finding: DiscreteDistribution is off by one.",
            "bounds": "8 boundary seeds, all sequences of 4 (6 thorough) draws, saves and reseeds, 700 (1400) draws with a save at every position; 23 distributions over all sequences of boundary draws; pairs of distributions that share or own generators"},
    "O01": {"parts": [{"prog": "h_o01"}], "technique": OPSEQ,
            "note": "All call histories on real Output objects; the bytes that reach stdout, stderr and the files are compared with the reference. Copies of an Output (which share its file by pointer) are outside the domain.",
            "bounds": "every level x mask x verbosity x destination, all prefix formats of up to four (five thorough) tokens, histories of five calls over two objects, fatal in every destination"},
    "S01": {"parts": [{"prog": "h_s01"}], "technique": OPSEQ,
            "note": "All operation histories on the three built-in statistics, their reports read through a recording statistic output. Histogram values above the last bin's label but below the next integer (floating point), adding a value zero times and sums that overflow are outside the domain.",
            "bounds": "histories of 3 to 4 (4 to 5 thorough) operations over 5 to 10 values of each of six field types; 48 histogram shapes; up to three extreme values for minimum and maximum"},
    "S02": {"parts": [{"prog": "h_s02", "needs": ["vtest"]}], "technique": SIMX,
            "note": "Full simulations; the components log what they add and change, an interpreter derives the rows of the CSV files from these logs and the configuration. Outside: additions before the start under rates by events, "
                    "equal start and stop times, periodic rows past an agreed end, load levels of port modules that do not enable all, the component name of statistics a subcomponent enables by name, "
                    "turning the final output off for members of a named group.",
            "bounds": "11 rates x 3 start x 3 stop times x reset under every pattern of additions over 8 times (9 patterns quick); all sequences of four control actions; 8 global x 7 own load levels x enabling by name and all; port modules, groups, shared statistics; up to 2x2 partitions"},
    "M01": {"parts": [{"prog": "h_m01", "needs": ["vtest"]}], "technique": OPSEQ + "; " + SIMX,
            "note": "The whole simulator reads a generated JSON description; where it writes the configuration out the graph is dumped and compared with the description, with the graph packed and unpacked, and with the graph a second run builds from the written file. "
                    "Python input and output, links to other ranks of parallel loading and the key <set_name>, which the core keeps for itself, are outside.",
            "bounds": "18 places for a parameter x 11 keys x 9 values (18 thorough) with quotes, escapes, control and multi-byte characters; 7 layouts of subcomponents x 6 ways of giving parameters x 11 of enabling statistics x 10 of port modules (a quarter in quick); up to 2 (3) links with 49 latency pairs; up to 2 groups; pairs of 18 options; all placements of 3 components on 2 and 3 threads; 384 whole simulations run from both descriptions"},
    "M02": {"parts": [{"prog": "h_m02", "needs": ["vtest"]}], "technique": OPSEQ + "; " + SIMX,
            "note": "The real ConfigGraph and partitioners in the harness; the graph is then split and packed the way main.cc distributes it and each rank's share is compared with what follows from the assignment. Whole simulations confirm the placement. "
                    "Plug-in partitioners (zoltan) are outside; that the simple partitioner's cut is a good one is not judged.",
            "bounds": "graphs of up to 4 components with up to 3 links (5 and 4 thorough), each joining components, subcomponents or theirs, cut or not, 4 pairs of latencies; 9 rank x thread grids; all placements by the user on 5 grids, also outside them"},
    "O03": {"parts": [{"prog": "h_o03"}], "technique": OPSEQ,
            "note": "The real WatchPoint, comparison tree and trace buffer over variables of the harness; the hooks of clock and event handlers are called as the core calls them. The interactive console itself is not driven.",
            "bounds": "all pairs of ten variable types x six boundary values x six operators; conditions of up to two (three thorough) terms over histories of 3 (4) boundaries; buffer sizes 1 to 4, delays 0 to 3, sample histories of 8 (11)"},
}
