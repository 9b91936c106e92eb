C["P09"] = ("explicit-state exploration of the type objects' states under all layout-computing calls (breadth-first to a fixpoint, and all call sequences to a depth), executed on the real library against a layout model compared with gcc and clang", "All type trees of the stated universe, all call sequences up to the bound; layout model validated by sizeof/offsetof compiled with two compilers.")
C["P10"] = ("exhaustive enumeration of requests (conventions, signatures, malformed type trees at every position) and of request sequences over shared type objects, executed on the real library against a verdict model", "Single-fault requests must give the exact status; requests with several faults any applicable one.")
C["P20"] = ("exhaustive exploration of histories of prepare / re-prepare / call / bind / invoke operations over descriptions sharing type objects, executed on the real library with full machine-state checks against the ABI model", "All histories up to the depth bound over ten sets of descriptions, plus all pairs of a type universe.")
MCE = "explicit-state depth-first exploration of operation histories over the real library running on a simulated system (mappings, descriptors, files, blocks, locks all modelled and monitored), states hashed, "
C["P11"] = (MCE + "every history to a depth plus every scripted growth to the caps, in every platform configuration", "Library code is the real one, compiled from /repo with its libc calls redirected to the simulated system; every state is reached by executing it.")
C["P14"] = (MCE + "with every system call of every history failing in every way it can, singly and in pairs", "Single and double faults at every call of the scripted histories, in every configuration; resource ledgers and later usability checked.")
C["P15"] = (MCE + "over every combination of platform answers (maps file contents, SELinux, PaX, temporary directories, mount tables)", "All combinations of the stated answers; W^X and detection requirements monitored by the simulated system.")
C["P21"] = (MCE + "every closed history repeated until the resource ledger repeats", "A growth must persist over five blocks of 24 repetitions to count.")
C["P12"] = ("stateless model checking of the compiled implementation: every schedule up to a preemption bound of every small program of two and three threads, preemption points at system calls, locks and all racing accesses (found by vector clocks and iterated to a fixpoint)", "Sequential consistency; bounds in DESIGN.md; code compiled with gcc's access instrumentation, harness' own runtime.")
C["P13"] = ("stateless model checking of the compiled implementation: every schedule up to a preemption bound of concurrent uses of shared descriptions, and every instruction boundary of every operation interrupted by other operations (nested once)", "Interruption part runs the uninstrumented library; every boundary is covered, not a sample.")
C["P22"] = ("explicit enumeration of every argument list up to a length over an alphabet of types x convention x interface on the compiled 32-bit library (freestanding), judged by a reference model of the conventions that is itself run against gcc- and clang-compiled callers and callees", "Bounds in DESIGN.md; FFI_REGISTER and FFI_PASCAL have no compiler here to check the model against.")
C["P19"] = ("exhaustive exploration of every instruction boundary inside the library for every signature of a universe (unwinder run at each and compared with the caller's true state), and of every nesting of calls and closures with exceptions thrown, caught and rethrown at every level", "Unwinder and compiler frames trusted; stubs without frames are skipped.")
