"""The checks: what each builds, which steps it runs in each tier."""

CHECKS = {}

MC_ASSUME = [
    "sequentially consistent memory: x86 store buffering and compiler reordering beyond what clang -O2 already did are not explored",
    "small nodes (3 or 4 slots; 15 in one step) stand for all node widths; the templates are the shipped ones",
    "the program families and tree shapes listed in DESIGN.md; preemption bound where a step states one, otherwise every interleaving",
    "state pruning by 128-bit hash of memory and per-thread history",
]
W = {w: ("tree%d" % w, "mc", "tree_mc", ("-DLEAFW=%d" % w,), None) for w in (3, 4, 15)}
TREE = [W[3], W[4], W[15]]

def mc(name, what, w, fam, cap, kinds=None, extra=()):
    a = ["--fam", fam]
    if kinds:
        a += ["--kinds", str(kinds)]
    return dict(name=name, what=what, bin="tree%d" % w, args=a + list(extra), cap=cap)

ALL = None
CHECKS["C03"] = dict(builds=TREE, assumptions=MC_ASSUME, steps={
    "quick": [
        mc("1x1,1xgg/W3", "every interleaving of two threads with one write each, or one write against two reads", 3, "1x1,1xgg", 120),
        mc("1x1/W15", "same at the shipped width", 15, "1x1", 60),
        mc("1x1x1:1/W3", "three threads, one preemption", 3, "1x1x1:1", 90),
        mc("3x1:1/W3", "three writes against one operation, one preemption", 3, "3x1:1", 90),
        mc("rcuseq:1/W3", "a writer that runs deferred layer collection, against one operation", 3, "rcuseq:1,rcuseq2:1", 90),
        mc("2x1:2/W3", "two writes against one operation, two preemptions", 3, "2x1:2", 120),
        mc("1x1x1:2/W3", "three threads, two preemptions", 3, "1x1x1:2", 150),
    ],
    "thorough": [
        mc("3x1:2/W3", "three writes against one operation, two preemptions", 3, "3x1:2", 600),
        mc("rcuseq,rcuseq2:2,rcuw:2/W3", "with deferred layer collection", 3, "rcuseq,rcuseq2:2,rcuw:2", 1200),
        mc("1x1,1xgg/W3", "every interleaving", 3, "1x1,1xgg", 120),
        mc("1x1,1xgg/W4", "every interleaving", 4, "1x1,1xgg", 120),
        mc("1x1,1xgg/W15", "every interleaving", 15, "1x1,1xgg", 120),
        mc("1x1x1:2/W3", "three threads, two preemptions", 3, "1x1x1:2", 300),
        mc("2x1:3/W3", "two writes against one operation, three preemptions", 3, "2x1:3", 1200),
        mc("2x2:2/W3", "two writes against two writes, two preemptions", 3, "2x2:2", 1800),
        mc("2xgg:3/W3", "two writes against two reads, three preemptions", 3, "2xgg:3", 1800),
        mc("2x1/W3", "two writes against one operation, every interleaving", 3, "2x1", 2400),
        mc("2x1:2/W4", "two writes against one operation", 4, "2x1:2", 600),
        mc("1x1x1:3/W3", "three threads, three preemptions", 3, "1x1x1:3", 2400),
    ]})
CHECKS["C04"] = dict(builds=TREE, assumptions=MC_ASSUME, steps={
    "quick": [
        mc("1xs/W3", "one write against one scan, every interleaving", 3, "1xs", 60),
        mc("1xs/W15", "same at the shipped width", 15, "1xs", 60),
        mc("3xs:1/W3", "three writes against one scan, one preemption", 3, "3xs:1", 90),
        mc("2xs:2/W3", "two writes against one scan, two preemptions", 3, "2xs:2", 120),
        mc("1x1xs:2/W3", "two writers and a scanner, two preemptions", 3, "1x1xs:2", 200),
    ],
    "thorough": [
        mc("3xs:2/W3", "three writes against one scan, two preemptions", 3, "3xs:2", 900),
        mc("1xs/W3", "every interleaving", 3, "1xs", 60),
        mc("1xs/W4", "every interleaving", 4, "1xs", 60),
        mc("1xs/W15", "every interleaving", 15, "1xs", 60),
        mc("2xs:3/W3", "two writes against one scan, three preemptions", 3, "2xs:3", 1200),
        mc("1x1xs:2/W3", "two writers and a scanner, two preemptions", 3, "1x1xs:2", 600),
        mc("2xs/W3", "two writes against one scan, every interleaving", 3, "2xs", 3000),
        mc("2xs:2/W4", "two writes against one scan", 4, "2xs:2", 900),
    ]})
PROG = 2 | 4 | 32
CHECKS["C05"] = dict(builds=TREE, assumptions=MC_ASSUME, steps={
    "quick": [
        mc("1x1,1xgg,1xs/W3", "every interleaving of two threads", 3, "1x1,1xgg,1xs", 120, PROG),
        mc("rcuseq:2/W3", "a writer that runs deferred layer collection, against one operation", 3, "rcuseq:2,rcuseq2:1", 120, PROG),
        mc("2x1:2/W3", "two writes against one operation, two preemptions", 3, "2x1:2", 120, PROG),
        mc("1x1x1:2/W3", "three threads, two preemptions", 3, "1x1x1:2", 150, PROG),
    ],
    "thorough": [
        mc("1x1,1xgg,1xs/W3", "every interleaving of two threads", 3, "1x1,1xgg,1xs", 120, PROG),
        mc("1x1,1xgg,1xs/W4", "every interleaving of two threads", 4, "1x1,1xgg,1xs", 120, PROG),
        mc("rcuseq,rcuseq2:2,rcuw:2/W3", "with deferred layer collection", 3, "rcuseq,rcuseq2:2,rcuw:2", 1800, PROG),
        mc("2x2:2/W3", "two writes against two writes, two preemptions", 3, "2x2:2", 1800, PROG),
        mc("1x1x1:3/W3", "three threads, three preemptions", 3, "1x1x1:3", 2400, PROG),
        mc("2x1/W3", "every interleaving", 3, "2x1", 2400, PROG),
    ]})
MEM = 8 | 16 | 2
CHECKS["C06"] = dict(builds=TREE, assumptions=MC_ASSUME + [
    "epoch ticks are what the timer does (global epoch += 2, active epoch := minimum); ticks never overlap"], steps={
    "quick": [
        mc("rcuseq:2/W3", "writer that ticks twice and quiesces, against one operation", 3, "rcuseq:2", 60, MEM),
        mc("rcu1:2/W3", "writer, victim and a timer thread, two preemptions", 3, "rcu1:2", 120, MEM),
        mc("rcu1s:2/W3", "writer, scanning victim and a timer thread, two preemptions", 3, "rcu1s:2", 120, MEM),
        mc("rcuseq2:2/W3", "two writes then ticks, against one operation, two preemptions", 3, "rcuseq2:2", 150, MEM),
    ],
    "thorough": [
        mc("rcuseq/W3", "every interleaving", 3, "rcuseq", 600, MEM),
        mc("rcu1:3/W3", "three preemptions", 3, "rcu1:3", 1800, MEM),
        mc("rcu1s:3/W3", "three preemptions", 3, "rcu1s:3", 1800, MEM),
        mc("rcuseq2:3/W3", "three preemptions", 3, "rcuseq2:3", 1800, MEM),
        mc("rcuw:2/W3", "two writers that both tick", 3, "rcuw:2", 600, MEM),
        mc("rcu2:2/W3", "two writes, a victim, a timer", 3, "rcu2:2", 1800, MEM),
    ]})
LEAK = 8 | 16 | 2
CHECKS["C07"] = dict(builds=TREE, assumptions=MC_ASSUME, steps={
    "quick": [
        mc("1x1:leak1/W3", "every interleaving, then drain, destroy, drain: nothing left", 3, "1x1", 60, LEAK, ("--leak", "1")),
        mc("1x1:leak2/W3", "every interleaving, then destroy with callbacks pending", 3, "1x1", 60, LEAK, ("--leak", "2")),
        mc("2x1:2:leak1/W3", "two writes against one operation", 3, "2x1:2", 120, LEAK, ("--leak", "1")),
        mc("2x1:1:leak2/W3", "two writes against one operation", 3, "2x1:1", 120, LEAK, ("--leak", "2")),
    ],
    "thorough": [
        mc("1x1:leak1/W4", "every interleaving", 4, "1x1", 60, LEAK, ("--leak", "1")),
        mc("2x1:3:leak1/W3", "three preemptions", 3, "2x1:3", 1800, LEAK, ("--leak", "1")),
        mc("2x2:2:leak1/W3", "two against two", 3, "2x2:2", 1800, LEAK, ("--leak", "1")),
        mc("2x2:1:leak2/W3", "two against two", 3, "2x2:1", 900, LEAK, ("--leak", "2")),
        mc("1x1x1:2:leak1/W3", "three threads", 3, "1x1x1:2", 900, LEAK, ("--leak", "1")),
    ]})
T_MC = "stateless model checking of the real code: every interleaving (or every one within a preemption bound) of small programs under a controlled scheduler at single-access granularity"
N_MC = "Exhaustive over the listed programs, starting shapes and node widths under sequential consistency; trusts clang's TSan instrumentation to expose every access and the oracle in harness/tree_mc.cc."
for c in ("C03", "C04", "C05", "C06", "C07"):
    CHECKS[c].update(technique=T_MC, note=N_MC)

# ---- sequential exhaustive exploration -----------------------------------------------------------
def seqb(name, *defs):
    return (name, "seq", "seq_tree", ("-DSEQ_ASAN",) + defs, None)
STREE = [seqb("s3", "-DLEAFW=3"), seqb("s4l", "-DLEAFW=4", "-DINTW=3", "-DBOUNDM=bound_method_linear"), seqb("s15", "-DLEAFW=15"),
         seqb("s3n", "-DLEAFW=3", "-DINTW=4", "-DCONCUR=false", "-DNVT=uint64_t"), seqb("s3w", "-DLEAFW=3", "-DNVT=uint64_t")]
SNAME = dict(s3="width 3, binary search", s4l="width 4 over 3, linear search", s15="the shipped width 15", s3n="width 3 over 4, single-threaded variant", s3w="width 3, 64-bit versions")
def seq(bin, cap, *args, what=""):
    return dict(name=" ".join((bin,) + args), what=(what or "every operation sequence") + ", " + SNAME.get(bin, bin), bin=bin, args=list(args), cap=cap)
SEQ_ASSUME = ["operation sequences up to the depth stated per alphabet in DESIGN.md, from the start states stated there",
              "keys drawn from small alphabets chosen around the slice, suffix and split boundaries",
              "memory errors are those AddressSanitizer sees (redzones around every allocation, freed blocks stay poisoned)"]
CHECKS["C01"] = dict(builds=STREE, assumptions=SEQ_ASSUME, steps={
    "quick": [seq(b, 100, "--shrink", "-1") for b in ("s3", "s4l", "s15", "s3n")],
    "thorough": [seq(b, 900, "--thorough", "--shrink", "-1") for b in ("s3", "s4l", "s15", "s3n")]})
CHECKS["C02"] = dict(builds=STREE, assumptions=SEQ_ASSUME, steps={
    "quick": [seq(b, 100, "--scan") for b in ("s3", "s4l", "s15")] + [seq("s3n", 60, "--scan", "--shrink", "1")],
    "thorough": [seq(b, 900, "--thorough", "--scan") for b in ("s3", "s4l", "s15", "s3n")]})
CHECKS["C08"] = dict(builds=STREE + TREE, assumptions=SEQ_ASSUME + MC_ASSUME, steps={
    "quick": [seq(b, 60, "--ver", what="every operation sequence; versions recorded at each step are validated at every later one") for b in ("s3", "s4l", "s15", "s3w")] + [
        mc("1xg,1xs/W3", "one write against one recording read or scan, every interleaving", 3, "1xg,1xs", 60, extra=("--ver", "1")),
        mc("2xg:2,2xs:2/W3", "two writes against one recording read or scan, two preemptions", 3, "2xg:2,2xs:2", 100, extra=("--ver", "1")),
        mc("1x1xg:2/W3", "two writers and a recording reader, two preemptions", 3, "1x1xg:2", 100, extra=("--ver", "1"))],
    "thorough": [seq(b, 900, "--thorough", "--ver") for b in ("s3", "s4l", "s15", "s3w")] + [
        mc("1xg,1xs/W4", "every interleaving", 4, "1xg,1xs", 60, extra=("--ver", "1")),
        mc("1xg,1xs/W15", "every interleaving", 15, "1xg,1xs", 60, extra=("--ver", "1")),
        mc("2xg,2xs:3/W3", "two writes", 3, "2xg,2xs:3", 1800, extra=("--ver", "1")),
        mc("1x1xg:2,1x1xs:2/W3", "two writers", 3, "1x1xg:2,1x1xs:2", 900, extra=("--ver", "1"))]})
T_SEQ = "explicit-state exploration of the real code: every operation sequence up to a depth over small alphabets, states saved and restored by copying memory, a reference model checked in every state"
for c in ("C01", "C02"):
    CHECKS[c].update(technique=T_SEQ, note="Exhaustive up to the stated depths, alphabets and node widths; trusts the reference model in harness/seq_tree.cc.")
CHECKS["C08"].update(technique=T_SEQ + "; and every interleaving of small recording programs under the controlled scheduler of C03", note="Exhaustive over the listed alphabets, depths, programs and shapes.")

# ---- simulated operating system: every crash point, every loss pattern --------------------------
CRASH = [("crash", "sim", "crash_mc", (), None)]
CRASH_ASSUME = [
    "the simulated file system: metadata operations persist in issue order, fsync makes the file's data and earlier metadata durable, unsynced appended data is lost or kept per file (every byte prefix where a step says torn)",
    "the real mtd, log, checkpoint and file code runs unmodified under a simulated kernel; threads switch at system calls, sleeps and condition waits, so requests execute atomically with respect to log and checkpoint threads between such points",
    "an acknowledged update counts as durable after four full cycles of every log thread",
    "the number of log threads stays the same across restarts",
]
def crash(cap, what, *args):
    return dict(name=" ".join(args), what=what, bin="crash", args=list(args) + ["--pre", "0"], cap=cap)
def A(s): return s.split()
CHECKS["C11"] = dict(builds=CRASH, assumptions=CRASH_ASSUME, steps={
    "quick": [
        crash(60, "two updates, two logs, one pause", *A("--fam epoch --ops 2 --stalls 1 --rounds 6")),
        crash(90, "three updates, two logs, one pause", *A("--fam epoch --ops 3 --stalls 1 --rounds 7")),
        crash(90, "two updates, three logs, one pause", *A("--fam epoch --ops 2 --stalls 1 --logs 3")),
        crash(90, "two server generations", *A("--fam epoch --ops 2 --stalls 0 --rounds 5 --sessions 2 --ops2 1 --rounds2 5")),
    ],
    "thorough": [
        crash(600, "four updates, one pause", *A("--fam epoch --ops 4 --stalls 1 --rounds 8")),
        crash(900, "three updates, two pauses", *A("--fam epoch --ops 3 --stalls 2 --rounds 8")),
        crash(900, "three updates, three logs", *A("--fam epoch --ops 3 --stalls 1 --logs 3")),
        crash(1800, "two generations, two updates in the second", *A("--fam epoch --ops 2 --stalls 1 --sessions 2 --ops2 2 --rounds2 5")),
        crash(1800, "three generations", *A("--fam epoch --ops 1 --stalls 0 --rounds 4 --sessions 3 --ops2 1 --rounds2 4")),
    ]})
CHECKS["C12"] = dict(builds=CRASH, assumptions=CRASH_ASSUME, steps={
    "quick": [
        crash(60, "crash during recovery from logs", *A("--fam epoch --ops 2 --stalls 1 --rounds 5 --recemit 1")),
        crash(90, "crash during recovery from a checkpoint and logs", *A("--fam ckpt --ops 1 --stalls 0 --ckstep 1 --rounds 8 --tail 6 --recemit 1")),
    ],
    "thorough": [
        crash(900, "three updates", *A("--fam epoch --ops 3 --stalls 1 --rounds 7 --recemit 1")),
        crash(900, "three logs", *A("--fam epoch --ops 2 --stalls 1 --logs 3 --recemit 1")),
        crash(1200, "torn tails, then a crash during recovery", *A("--fam epoch --ops 2 --stalls 0 --torn 1 --recemit 1")),
        crash(1800, "checkpoint, two updates", *A("--fam ckpt --ops 2 --stalls 0 --ckstep 1 --rounds 8 --tail 6 --recemit 1 --slots 8")),
    ]})
CHECKS["C13"] = dict(builds=CRASH, assumptions=CRASH_ASSUME, steps={
    "quick": [
        crash(60, "two update commands in all forms", *A("--fam data --ops 2")),
        crash(60, "three update commands", *A("--fam data --ops 3")),
        crash(90, "four update commands", *A("--fam data --ops 4")),
        crash(90, "three, restart, one more", *A("--fam data --ops 3 --ops2 1")),
        crash(60, "remove and reinsert through removed leaves", *A("--fam phantom --ops 3")),
        crash(60, "remove and reinsert through removed leaves", *A("--fam phantom --ops 4")),
        crash(60, "leaf deletion", *A("--fam leaf")),
    ],
    "thorough": [
        crash(900, "five update commands", *A("--fam data --ops 5")),
        crash(900, "four, restart, one more", *A("--fam data --ops 4 --ops2 1")),
        crash(900, "three, restart, two more", *A("--fam data --ops 3 --ops2 2")),
        crash(900, "remove and reinsert", *A("--fam phantom --ops 5")),
        crash(300, "leaf deletion", *A("--fam leaf --full 1")),
    ]})
CHECKS["C14"] = dict(builds=CRASH, assumptions=CRASH_ASSUME, steps={
    "quick": [
        crash(60, "one update, one pause of a log", *A("--fam ckpt --ops 1 --stalls 1 --rounds 8 --tail 6 --ckstep 0")),
        crash(90, "two updates, one pause of a log", *A("--fam ckpt --ops 2 --stalls 1 --rounds 8 --tail 6 --ckstep 0 --slots 8")),
        crash(90, "two updates, two pauses of the checkpointer", *A("--fam ckpt --ops 2 --stalls 0 --rounds 10 --tail 6 --ckstep 2 --slots 6")),
        crash(60, "one update, two checkpoints", *A("--fam ckpt --ops 1 --cks 2 --stalls 0 --rounds 14 --tail 6 --ckstep 0 --slots 20")),
        crash(60, "update forms around a checkpoint", *A("--fam ckdata --ops 1")),
        crash(90, "two update forms around a checkpoint", *A("--fam ckdata --ops 2 --ckstep 1")),
        crash(60, "key sets for the partition into checkpoint files", *A("--fam pivot --full 1")),
    ],
    "thorough": [
        crash(600, "two updates, one pause of the checkpointer", *A("--fam ckpt --ops 2 --stalls 0 --rounds 8 --tail 6 --ckstep 1")),
        crash(900, "three updates", *A("--fam ckpt --ops 3 --stalls 1 --rounds 8 --tail 6 --ckstep 0 --slots 8")),
        crash(1800, "two checkpoints", *A("--fam ckpt --ops 2 --cks 2 --stalls 0 --rounds 14 --tail 6 --ckstep 0 --slots 20")),
        crash(1800, "three update forms around a checkpoint", *A("--fam ckdata --ops 3 --ckstep 1")),
        crash(100, "key sets", *A("--fam pivot --full 1")),
    ]})
CHECKS["C15"] = dict(builds=CRASH, assumptions=CRASH_ASSUME, steps={
    "quick": [
        crash(60, "every torn tail, then an update and a second crash", *A("--fam epoch --ops 1 --stalls 0 --rounds 4 --torn 1 --sessions 2 --ops2 1 --stalls2 0 --rounds2 4")),
        crash(60, "two updates, every torn tail", *A("--fam epoch --ops 2 --stalls 0 --torn 1")),
        crash(120, "two updates and a pause, every torn tail", *A("--fam epoch --ops 2 --stalls 1 --torn 1 --rounds 6")),
    ],
    "thorough": [
        crash(600, "three updates, every torn tail", *A("--fam epoch --ops 3 --stalls 0 --torn 1 --rounds 6")),
        crash(600, "two updates, every torn tail, then an update and a second crash", *A("--fam epoch --ops 2 --stalls 0 --rounds 4 --torn 1 --sessions 2 --ops2 1 --stalls2 0 --rounds2 4")),
        crash(900, "records spanning blocks", *A("--fam epoch --ops 2 --stalls 0 --torn 1 --big 1")),
        crash(900, "torn checkpoint files", *A("--fam ckpt --ops 1 --stalls 0 --ckstep 1 --rounds 8 --tail 6 --torn 1")),
        crash(1800, "three updates, a pause", *A("--fam epoch --ops 3 --stalls 1 --torn 1 --rounds 7")),
    ]})
T_CRASH = "model checking of the real server under a simulated kernel: every bounded schedule of log, checkpoint and request threads, every file-system operation as crash point, every legal persisted state, recovery run on each"
for c in ("C11", "C12", "C13", "C14", "C15"):
    CHECKS[c].update(technique=T_CRASH, note="Exhaustive over the listed histories and bounds; trusts the simulated kernel (mc/sim.hh) and the consistency oracle in harness/crash_mc.cc.")
# ---- the wire protocol ---------------------------------------------------------------------------
WIRE = [("wire", "sim", "wire_mc", ("-DSIM_ASAN",), ["harness/wire_client", "testrunner"])]
WIRE_ASSUME = [
    "requests are well formed (types and column order as documented); a malformed one is only required to end its own connection",
    "the simulated sockets deliver any nonempty prefix of what was sent, take any nonempty prefix of what is written, and threads switch only at system calls",
    "memory errors are those AddressSanitizer sees",
    "datagrams carry requests of at most 4096 bytes",
]
def wire(cap, what, *args):
    return dict(name=" ".join(args), what=what, bin="wire", args=list(args), cap=cap)
CHECKS["C16"] = dict(builds=WIRE, assumptions=WIRE_ASSUME, steps={
    "quick": [
        wire(100, "every way to cut five request streams into three pieces, and byte by byte", *A("--fam chunk,bytes --cuts 2")),
        wire(60, "the client closes, resets or sends garbage after every byte; the peer vanishes at every write; requests around the buffer sizes", *A("--fam close,peer,big,enc,udp,udpbig,slow --cuts 0")),
        wire(60, "every way to cut the replies twice", *A("--fam short --cuts 2")),
        wire(60, "two connections on one or two threads, cut and interleaved", *A("--fam two --step 6")),
        wire(60, "every order of three requests over two connections", *A("--fam order --depth 3")),
        wire(60, "the repository's client: every program of three requests", *A("--fam client --depth 3")),
        wire(90, "every program of two requests, every short write", *A("--fam client --depth 2 --splits 1")),
    ],
    "thorough": [
        wire(600, "every legal encoding, every way to cut it in two", *A("--fam enc --cuts 1")),
        wire(600, "every way to end a connection after two pieces", *A("--fam close --cuts 1")),
        wire(100, "every way to cut five request streams into three pieces, and byte by byte", *A("--fam chunk,bytes --cuts 2")),
        wire(100, "the client closes, resets or sends garbage after every byte; the peer vanishes at every write; requests around the buffer sizes", *A("--fam close,peer,big,enc,udp,udpbig,slow --cuts 0")),
        wire(600, "two connections on one or two threads, cut and interleaved", *A("--fam two --step 2")),
        wire(600, "every order of four requests over two connections", *A("--fam order --depth 4")),
        wire(900, "the repository's client: every program of four requests", *A("--fam client --depth 4")),
        wire(900, "every program of two requests, two short writes", *A("--fam client --depth 2 --splits 2")),
        wire(1800, "every way to cut five request streams into four pieces", *A("--fam chunk --cuts 3")),
    ]})
CHECKS["C16"].update(technique="model checking of the real server under a simulated kernel: every cut of request and reply streams, every point of disconnection, every order of small request sequences, against a reference map",
                     note="Exhaustive over the listed request streams and bounds; trusts the simulated sockets (mc/sim.hh) and the reference map and decoder in harness/wire_mc.cc.")
# ---- rows and timestamps ---------------------------------------------------------------------------
ROWT = (("BAG", "bag rows"), ("ARRAY", "array rows"), ("STR", "string rows"))
ROWS = [("rows" + t, "seq", "rows", ("-DSEQ_ASAN", "-DMASSTREE_ROW_TYPE_%s=1" % t), ["json", "msgpack", "value_array", "value_string"]) for t, _ in ROWT] \
     + [("rmc" + t, "mc", "rows_mc", ("-DMASSTREE_ROW_TYPE_%s=1" % t,), ["json", "value_array", "value_string"]) for t, _ in ROWT]
ROWS_ASSUME = [
    "commands run through query<row_type> as the server runs them; one row type is compiled in at a time, the versioned array row does not compile at this commit",
    "sequential consistency at the granularity of memory accesses for the concurrent part; columns of a put are strictly increasing, as the server requires",
    "memory errors are those AddressSanitizer sees (sequential part) or the block tracker sees",
]
def rowstep(t, cap, what, *args):
    return dict(name=t + " " + " ".join(args or ("default",)), what=what, bin="rows" + t, args=list(args), cap=cap)
def rmcstep(t, cap, what, *args):
    return dict(name=t + " " + " ".join(args), what=what, bin="rmc" + t, args=list(args), cap=cap)
def rowsteps(tier):
    r = []
    for t, n in ROWT:
        r.append(rowstep(t, 60 if tier == "quick" else 900, n + ": every sequence of commands on one key, on four keys, on long rows", *(["--thorough"] if tier == "thorough" else [])))
        r.append(rowstep(t, 60, n + ": rows of more than 65535 bytes", "--alpha", "long-over"))
        for f in ("1x1,1xr", "1xrr:2,2xr:2,1x1xr:1", "rcu:2") if tier == "quick" else ("1x1,1xr,1xrr", "2x1", "2xr", "1x1xr", "1x1x1", "rcu", "rcu2:2"):
            r.append(rmcstep(t, 60 if tier == "quick" else 600, n + ": every interleaving of concurrent commands on rows, families " + f, "--fam", f))
    return r
CHECKS["C10"] = dict(builds=ROWS, assumptions=ROWS_ASSUME, steps={"quick": rowsteps("quick"), "thorough": rowsteps("thorough")})
CHECKS["C09"] = dict(builds=ROWS, assumptions=ROWS_ASSUME, steps={
    "quick": [rowstep("ARRAY", 90, "timestamps over every sequence of replaces and removals on eleven tree shapes, two sessions", "--ts"),
              rmcstep("BAG", 60, "concurrent updates and timestamps", "--fam", "1x1"),
              rmcstep("BAG", 90, "two updates against one", "--fam", "2x1:2"),
              rmcstep("BAG", 90, "three concurrent updates", "--fam", "1x1x1:2")],
    "thorough": [rowstep("ARRAY", 1800, "timestamps over every sequence of replaces and removals on eleven tree shapes, two sessions", "--ts", "--thorough"),
                 rmcstep("BAG", 900, "two updates against one", "--fam", "1x1,2x1"),
                 rmcstep("BAG", 900, "three concurrent updates", "--fam", "1x1x1"),
                 rmcstep("ARRAY", 900, "two updates against one", "--fam", "1x1,2x1"),
                 rmcstep("STR", 900, "two updates against one", "--fam", "1x1,2x1")]})
for c in ("C09", "C10"):
    CHECKS[c].update(technique="explicit enumeration of all command sequences and all thread interleavings (stateless exploration with state matching) of the real query and row code against a reference row",
                     note="Exhaustive over the listed command sequences, programs and preemption bounds; trusts the reference row in harness/rowlib.hh.")
# ---- codecs and data structures ---------------------------------------------------------------------
def seqx(name, cap, what, *args):
    return dict(name=name + (" " + " ".join(args) if args else ""), what=what, bin=name, args=list(args), cap=cap)
T_ENUM = "exhaustive enumeration of inputs and operation sequences of the real code up to stated bounds, each compared with an independent reference"
CHECKS["C17"] = dict(builds=[("msgpack", "seq", "msgpack", ("-DSEQ_ASAN",), ["json", "msgpack"])], assumptions=[
        "the bounds on lengths, alphabets and nesting are those of the steps; the decoder in harness/msgpack.cc is the specification",
        "a container or string header announcing 2^31 or more elements is malformed; headers announcing up to that are believed, as memory permits",
        "memory errors are those AddressSanitizer sees"],
    steps={"quick": [seqx("msgpack", 240, "short byte strings cut in every way, values in every encoding, reused parsers, encoders")],
           "thorough": [seqx("msgpack", 3000, "longer byte strings and wider values", "--thorough")]},
    technique=T_ENUM, note="Exhaustive over the listed alphabets, lengths and cuts; trusts the reference decoder in harness/msgpack.cc.")
CHECKS["C18"] = dict(builds=[("json", "seq", "json", ("-DSEQ_ASAN",), ["json", "msgpack"])], assumptions=[
        "the bounds on lengths, alphabets and sequences are those of the steps; the parser of RFC 8259 in harness/json.cc is the specification",
        "U+0000, U+FFFE and U+FFFF may be refused; nesting up to 2048 must be accepted and 4096 refused",
        "numbers that are not integers are compared after parsing only: they are unparsed with limited precision; operator== on containers is identity and not claimed",
        "memory errors are those AddressSanitizer sees"],
    steps={"quick": [seqx("json", 300, "short texts in every cut, code units and points, values through the printers, operations on two variables to depth 3")],
           "thorough": [seqx("json", 3000, "longer texts, all code points, operations to depth 4", "--thorough")]},
    technique=T_ENUM, note="Exhaustive over the listed alphabets, lengths and operation menus; trusts the reference parser and the plain tree model in harness/json.cc.")
CHECKS["C19"] = dict(builds=[("prims", "seq", "prims", ("-DSEQ_ASAN", "-UMT_VERIF_HOOKS", "-O2"), [])], assumptions=[
        "the bounds are those of the steps; the models in harness/prims.cc are the specification",
        "one thread: that the atomic functions are atomic is the hardware's and compiler's business (their concurrent use is C03 to C07)",
        "rotate is checked on full permuters only, where its documentation and its use agree; a version's split counter may wrap after 2^19 splits",
        "memory errors are those AddressSanitizer sees"],
    steps={"quick": [seqx("prims", 240, "permuters, searches, slices, keys, bags, versions, vectors, wrapping integers, bits, atomics")],
           "thorough": [seqx("prims", 3000, "wider permuters, longer strings and sequences", "--thorough")]},
    technique=T_ENUM, note="Exhaustive over the states and arguments within the bounds; trusts the models in harness/prims.cc.")
CHECKS["C20"] = dict(builds=[("pools", "seq", "pools", ("-DSEQ_ASAN", "-UMT_VERIF_HOOKS"), [])], assumptions=[
        "operations of the two threads are taken one at a time; their interleaving inside an operation is C06's subject",
        "the epoch is advanced by the harness, as the program's timer does",
        "release of malloced objects is observed through AddressSanitizer's poisoning"],
    steps={"quick": [seqx("pools", 300, "allocate, free, retire, callback, start, stop, quiesce, advance: every sequence of 5 from 24 starting points; size classes")],
           "thorough": [seqx("pools", 3000, "every sequence of 6, more starting points, more refills", "--thorough")]},
    technique=T_ENUM, note="Exhaustive over sequences within the depth, from starting points chosen around the lists' capacities.")
CHECKS["C21"] = dict(builds=[("strings", "seq", "strings", ("-DSEQ_ASAN",), [])], assumptions=[
        "the alphabets, lengths and starting points are those of the steps; the definitions in harness/strings.cc are the specification",
        "one thread: strings are not shared between threads",
        "memory errors are those AddressSanitizer sees; allocations do not fail"],
    steps={"quick": [seqx("strings", 240, "every sequence of 3 operations from 8 starting points; comparisons, text functions, encodings, code points")],
           "thorough": [seqx("strings", 3000, "every sequence of 4 operations, longer strings", "--thorough")]},
    technique=T_ENUM, note="Exhaustive over the sequences, alphabets and lengths; trusts the definitions in harness/strings.cc.")
CHECKS["C22"] = dict(builds=[("cli", "seq", "cli", ("-DSEQ_ASAN",), ["misc"])], assumptions=[
        "the tables of options, words and alphabets are those of harness/cli.cc; the reading of clp.h there is the specification",
        "left open: invalid UTF-8, integers out of range, string-list values containing '=', Clp_SetOptionProcessing in the middle of a group",
        "memory errors are those AddressSanitizer sees; allocations do not fail"],
    steps={"quick": [seqx("cli", 300, "every line of 2 words of nine tables, every abbreviation, every group of 4 characters, every short value, messages of every length")],
           "thorough": [seqx("cli", 3000, "every line of 3 words, longer groups and values", "--thorough")]},
    technique=T_ENUM, note="Exhaustive over the words, lengths and alphabets; trusts the reading in harness/cli.cc.")
NOTES = {}
