#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property against /repo's working tree
check.py replay FILE                 run the input of a replay file again
check.py build                       build the harness only

TLC explores the specifications in spec/, the harness replays what it prints into the real code
and records runs of the real code for TLC to judge.
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer."""
import fcntl, glob, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(TARGET, "release", "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.txt")


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------------------------------------
# What each property explores.

def lexgen(stock, depth):
    return dict(kind="gen", module="LexGen", spec="GenSpec", consts={"Stock": '"%s"' % stock, "Depth": depth},
                invs="TruePositions Tiles Words IntegersExact Progress ErrorIff Emit", name="LexGen %s %d" % (stock, depth))


def stretch(kind, *sizes):
    return dict(kind="gen", module="Stretch", spec="SSpec", consts={"Kind": '"%s"' % kind}, sizes=sizes,
                invs="TruePositions Tiles Law Emit", name="Stretch %s %s" % (kind, " ".join(map(str, sizes))))


def record(count, big):
    return dict(kind="record", count=count, big=big, name="LexTrace on %d recorded runs" % count)


def grammar(focus, maxtok, bad=False, mintok=0, muts=0, sim=None, depth=3000):
    return dict(kind="gen", module="Grammar", spec="DSpec", sim=sim, depth=depth,
                consts={"Focus": '"%s"' % focus, "MinTok": mintok, "MaxTok": maxtok, "Bad": str(bad).upper(), "Muts": muts},
                invs="Total Bracketed InOrder SameTree NoFalseErrors Emit",
                name="Grammar %s %d%s%s" % (focus, maxtok, " with malformed" if bad else "", " simulated" if sim else ""))


def soup(n, *themes):
    return dict(kind="gen", module="Soup", spec="SSpec",
                consts={"Chosen": "{%s}" % ", ".join('"%s"' % t for t in themes), "MaxLetters": n},
                invs="Total Bracketed InOrder OneReport ErrorsIffUngrammatical Emit", name="Soup %d: %s" % (n, " ".join(themes)))


def table(*tails):
    return dict(kind="gen", module="Table", spec="TSpec", consts={"Tails": "{%s}" % ", ".join('"%s"' % t for t in tails)},
                invs="Total Bracketed InOrder ErrorsIffUngrammatical Emit", name="Table: " + " ".join(tails))


def pad(many, stutters, depths):
    return dict(kind="gen", module="Pad", spec="Spec", consts={k: "{%s}" % ", ".join(map(str, v)) for k, v in
                                                               (("Many", many), ("Stutters", stutters), ("Depths", depths))},
                invs="WellBracketed Emit", name="Pad: %s statements, %s tokens, %s deep" % (many, stutters, depths))


def deep(*sizes):
    return dict(kind="gen", module="Deep", spec="Spec", consts={"Sizes": "{%s}" % ", ".join(map(str, sizes))},
                invs="WellBracketed Emit", name="Deep " + " ".join(map(str, sizes)))


def given(focus, count, most, seed):
    return dict(kind="gen", module="Given", spec="Spec", progs=(seed, focus, count, most), consts={},
                invs="AllRead WellBracketed InOrder Emit", name="Given %d random programs: %s, up to %d" % (count, focus, most))


def widen(spans, inserts, *sizes):
    return dict(kind="gen", module="Widen", spec="Spec", sizes=sizes,
                consts={"Spans": "{%s}" % ", ".join(map(str, spans)), "Inserts": "{%s}" % ", ".join('"%s"' % x for x in inserts)},
                invs="WellBracketed Always Emit", name="Widen: %s items, %s, up to %s" % (spans, inserts, sizes))


def layout(n):
    return dict(kind="model", module="LayoutMachine", spec="Spec", consts={"MaxItems": n},
                invs="Agrees OnlyContent NotStuck", name="LayoutMachine %d" % n)


def prefix(n):
    return dict(kind="model", module="Prefix", spec="Spec", consts={"MaxLetters": n}, invs="Whole Over AtTheToken", name="Prefix %d" % n)


def walk(lengths, ops, jumps, seed, each, sim=None):
    return dict(kind="gen", module="Walk", spec="Spec", sim=sim, depth=ops + 1, walk=(seed, each),
                consts={"Lengths": "{%s}" % ", ".join(map(str, lengths)), "MaxOps": ops, "Jumps": "{%s}" % ", ".join(map(str, jumps))},
                invs="Once ForGood Emit", name="Walk: %d operations on sequences of %s%s" % (ops, list(lengths), " simulated" if sim else ""))


def blocks(n, big, sim=None):
    return dict(kind="gen", module="Blocks", spec="Spec", sim=sim, depth=n + 1, consts={"MaxSteps": n, "Big": "{%s}" % ", ".join(map(str, big))},
                invs="Exact Emit", name="Blocks: %d steps%s" % (n, " simulated" if sim else ""))


def same(every, programs=None):
    """Pairs of programs; programs: seed, focus, count, most."""
    return dict(kind="gen", module="Same", spec="Spec", progs=programs, consts={"Every": every, **({} if programs else {"ProgFile": '""'})},
                invs="Unchanged Kept Emit", name="Same: every %d%s" % (every, " on %d random programs" % programs[2] if programs else ""))


def convert(n):
    return dict(kind="gen", module="Convert", spec="Spec", consts={"MaxSteps": n}, invs="Faithful Emit", name="Convert %d" % n)


def posn(stock, n):
    return dict(kind="gen", module="Posn", spec="Spec", consts={"Stock": '"%s"' % stock, "MaxPieces": n},
                invs="Together Twice Ordered Emit", name="Posn %s %d" % (stock, n))


def session(stock, seed, threads, args, calls, near=0, repeats=(1,), full=False, sim=None):
    return dict(kind="gen", module="Session", spec="Spec", sim=sim, depth=2 * calls + 1, stock=(stock, seed, args),
                consts={"Threads": "{%s}" % ", ".join(map(str, range(threads))),
                        "NArgs": args, "MaxCalls": calls, "Near": near, "Repeats": "{%s}" % ", ".join(map(str, repeats)),
                        "Full": str(bool(full or sim)).upper()},
                invs="Functional Composed OneCall Emit",
                name="Session %s: %d threads, %d arguments, %d calls%s" % (stock, threads, args, calls, " simulated" if sim else ""))


def harness_only(name, *args):
    return dict(kind="harness", args=[str(a) for a in args], name=name)


ALL_THEMES = ("assign slotset decl call expr noob nary visible input plain odd loophead loopcond loopend funchead ask cond case "
              "if switch sections cases loop func nest commas layout join blockjoin every pause").split()
# Sizes for the shapes that only repeat (Deep.tla's Flat).
FLAT = {"quick": (300,), "thorough": (300, 1025)}
WILD = dict(mintok=30, maxtok=80)


def wild(num):
    return grammar("wild", sim=num, **WILD)


def wildbad(num):
    return grammar("wild", bad=True, muts=2, sim=num, **WILD)


def stages(prop, tier, seed):
    q = tier == "quick"
    sizes = (250, 4096, 65537, 1048577) if q else (100, 250, 1000, 4096, 32769, 65537, 1048577, 16777217)
    lex = [record(1500 if q else 20000, 70000), stretch("inside", *sizes), stretch("again", *sizes)]

    def rnd(focus, count, most):
        """Random programs; the thorough tier makes more and longer ones."""
        return given(focus, count, most, seed) if q else [given(focus, count, most, seed + 100 * k) for k in range(5)] + \
            [given(focus, count // 4, 6 * most, seed + 1000)]

    def plan(*xs):
        out = []
        for x in xs:
            out += x if isinstance(x, list) else [x]
        return out

    tab = table("none", "one", "rest", "instead") if q else table("none", "one", "rest", "instead", "pair")

    def pads(*depths):
        return pad((9, 40, 257), (2, 3, 40, 260), depths) if q else pad((3, 9, 17, 40, 70, 257, 1030), (2, 3, 5, 9, 17, 33, 40, 70, 130, 260, 1030), (*depths, 2, 9, 17, 34, 120))

    def wide(*inserts):
        return widen((1, 2, 3, 4), inserts, 1100, 9000, 70000) if q else widen(range(1, 9), ("statements", "sections", "operands", "layout"), 300, 1100, 70000, 1000000)

    def walks():
        return plan(walk(range(0, 7), 3, (0, 1, 2), seed, 4), walk((1, 2, 3, 4, 5, 8, 12, 20), 25, (0, 1, 2, 5), seed, 6, sim=60)) if q else \
               plan(walk(range(0, 7), 4, (0, 1, 2), seed, 4), walk((1, 2, 3, 4, 5, 8, 12, 20, 30), 40, (0, 1, 2, 5, 11), seed, 12, sim=3000))

    by = {
        "C01": lambda: plan(lexgen("chars", 3), lexgen("marks", 3), lexgen("str", 2), lexgen("num", 2), lexgen("exotic", 2), lexgen("inside", 5), lexgen("ascii", 2), lexgen("each", 1), *lex) if q else
                       plan(lexgen("chars", 4), lexgen("marks", 4), lexgen("str", 3), lexgen("num", 3), lexgen("kwctx", 3), lexgen("exotic", 3), lexgen("inside", 6), lexgen("ascii", 2), lexgen("punct", 3), lexgen("each", 1), lexgen("all", 1), *lex),
        "C02": lambda: plan(lexgen("chars", 3), lexgen("marks", 3), lexgen("kwpair", 3), lexgen("respelt", 3), lexgen("str", 3), lexgen("exotic", 3), lexgen("inside", 5), lexgen("ascii", 2), lexgen("each", 1), *lex) if q else
                       plan(lexgen("chars", 4), lexgen("marks", 4), lexgen("kwctx", 3), lexgen("respelt", 3), lexgen("str", 4), lexgen("num", 3), lexgen("exotic", 3), lexgen("inside", 6), lexgen("ascii", 2), lexgen("punct", 3), lexgen("each", 1), *lex),
        "C03": lambda: plan(lexgen("pos", 3), lexgen("chars", 3), lexgen("marks", 3), lexgen("exotic", 2), lexgen("float", 3), lexgen("inside", 5), lexgen("each", 1), *lex) if q else
                       plan(lexgen("pos", 4), lexgen("chars", 4), lexgen("marks", 4), lexgen("kwpair", 3), lexgen("exotic", 3), lexgen("float", 3), lexgen("inside", 6), lexgen("each", 1), *lex),
        "C04": lambda: plan(lexgen("kwctx", 3), lexgen("kwend", 2), lexgen("respelt", 3), lexgen("kwpair", 3), lexgen("words", 3), lexgen("chars", 3), lexgen("lit", 3), lexgen("exotic", 3), lexgen("ascii", 2), lexgen("each", 1), *lex) if q else
                       plan(lexgen("kwctx", 3), lexgen("kwend", 2), lexgen("respelt", 3), lexgen("kwpair", 3), lexgen("words", 4), lexgen("chars", 4), lexgen("lit", 4), lexgen("exotic", 3), lexgen("ascii", 2), lexgen("punct", 3), lexgen("each", 1), lexgen("all", 1), *lex),
        "C05": lambda: plan(lexgen("num", 3), lexgen("str", 3), lexgen("escape", 6), lexgen("lit", 3), lexgen("chars", 3), lexgen("float", 3), lexgen("exotic", 2), lexgen("inside", 5), lexgen("each", 1), *lex) if q else
                       plan(lexgen("num", 4), lexgen("str", 4), lexgen("escape", 7), lexgen("lit", 4), lexgen("chars", 4), lexgen("float", 3), lexgen("exotic", 3), lexgen("inside", 6), lexgen("each", 1), *lex),
        "C06": lambda: plan(soup(4 if q else 5, *ALL_THEMES), tab, deep(1, 2, 4, 8, 200, *FLAT[tier]), pads(1, 3, 66), wide("statements", "sections", "operands", "layout"), rnd("errors", 3000, 120), [] if q else wildbad(500),
                            harness_only("random token lists", "parse-fuzz", seed, 60000 if q else 1000000, 5000 if q else 20000)),
        "C07": lambda: plan(layout(5 if q else 6), soup(4 if q else 5, "layout", "join", "blockjoin", "plain", "commas", "every", "pause"),
                            grammar("layout", 4 if q else 5), deep(2, 4, 7, 100, *FLAT[tier]), pads(3), wide("statements", "layout"), rnd("layout", 6000, 60), [] if q else wild(500)),
        "C08": lambda: plan(soup(4 if q else 5, "layout", "join", "blockjoin"), grammar("layout", 4 if q else 5),
                            deep(2, 4, 40, *FLAT[tier]), pads(3), wide("layout"), rnd("layout", 8000, 60), [] if q else [wild(500), wildbad(500)]),
        "C09": lambda: plan(grammar("stmts", 4 if q else 6), table("none", "one", "rest", "instead"), grammar("ops", 4), soup(4 if q else 5, "decl", "call", "slotset", "assign", "visible", "input"),
                            deep(1, 2, 3, 4, 5, 8, 40, *FLAT[tier]), pads(1, 3, 66), wide("operands"), rnd("simple", 8000, 40), [] if q else wild(500)),
        "C10": lambda: plan(grammar("expr", 5 if q else 6), grammar("ops", 4 if q else 5), soup(4 if q else 5, "expr", "noob", "nary"),
                            deep(1, 2, 3, 4, 5, 8, 40, *FLAT[tier]), pads(1, 3, 66), wide("operands"), rnd("expr", 6000, 60), [] if q else wild(500)),
        "C11": lambda: plan(grammar("blocks", 9 if q else 13), grammar("bodies", 9 if q else 12), soup(4 if q else 5, "if", "switch", "sections", "cases", "loop", "func", "nest", "commas"),
                            deep(1, 2, 3, 4, 5, 8, 40, *FLAT[tier]), pads(1, 3, 66), wide("statements", "sections"), rnd("blocks", 6000, 80), [] if q else wild(500)),
        "C12": lambda: plan(soup(4 if q else 5, *ALL_THEMES), tab, prefix(3 if q else 5), grammar("errors", 6 if q else 8, bad=True), deep(2, 4, 20, *FLAT[tier]), pads(1, 3, 66), wide("statements", "sections", "operands", "layout"), rnd("errors", 8000, 60),
                            [] if q else wildbad(500)),
        "C13": lambda: plan(grammar("errors", 6 if q else 8, bad=True), tab, soup(4 if q else 5, *ALL_THEMES), deep(2, 4, 20, *FLAT[tier]), pads(1, 3, 66), wide("statements", "sections", "operands"), rnd("errors", 8000, 60),
                            [] if q else wildbad(500)),
        "C14": lambda: plan(grammar("expr", 5 if q else 6), grammar("ops", 4 if q else 5), soup(4 if q else 5, "expr", "noob", "nary"),
                            deep(1, 2, 3, 4, 5, 8, 40, *FLAT[tier]), walks(), pads(3), wide("operands"), rnd("expr", 6000, 60), [] if q else wild(300)),
        "C15": lambda: plan(soup(4 if q else 5, "if", "switch", "sections", "cases", "loop", "func", "nest"), table("none", "one", "rest", "instead"), grammar("errors", 6 if q else 8, bad=True),
                            deep(1, 2, 3, 4, 8, 40, 100, *FLAT[tier]), walks(), pads(1, 3, 66),
                            [blocks(3, (17, 300)), blocks(25, (9, 17, 33), 60)] if q else [blocks(4, (9, 257)), blocks(30, (9, 17, 33), 2000)], wide("statements", "sections"), rnd("errors", 8000, 80), [] if q else wildbad(500)),
        "C16": lambda: [session("stock", seed, 1, 16, 2), session("stock", seed, 3, 16, 12, sim=60 if q else 1500),
                        session("aborted", seed, 1, 238, 1, repeats=(300, 3000) if q else (300, 3000, 70000)),
                        session("aborted", seed, 1, 238, 2, near=1, repeats=(1, 40)),
                        session("alike", seed, 1, 400 if q else 2000, 3, near=1, full=True),
                        session("alike", seed, 2, 60 if q else 150, 2, full=True),
                        harness_only("random texts", "session-sweep", seed, 120 if q else 800, 60 if q else 200),
                        harness_only("one call and two steps", "session-compose", seed, 100000 if q else 1000000)],
        "C17": lambda: [posn("short", 3), posn("long", 2), posn("marks", 2), posn("each", 1)] if q else
                       [posn("short", 4), posn("few", 6), posn("long", 3), posn("marks", 3), posn("all", 1)],
        "C19": lambda: [convert(2), convert(4 if q else 5), blocks(3, (17, 300))] + ([] if q else [blocks(4, (9, 257)), blocks(30, (9, 17, 33), 2000)]),
        "C18": lambda: [same(1), same(11, (seed, "errors", 100, 40)), same(11, (seed, "blocks", 100, 40)), blocks(2, (17, 300)), blocks(25, (9, 17, 33), 60)] if q else
                       [same(1), same(1, (seed, "errors", 200, 40)), same(1, (seed, "blocks", 200, 40)), same(3, (seed, "simple", 2000, 40)),
                        same(5, (seed, "expr", 2000, 40)), same(11, (seed + 1, "errors", 500, 120)), blocks(3, (17, 300)), blocks(30, (9, 17, 33), 2000)],
    }
    return by[prop]()


PROPS = ["C%02d" % k for k in range(1, 20)]
LEX = {"C01", "C02", "C03", "C04", "C05"}

ASSUME = {
    "lex": ["The specification's reading of the language (spec/Lexer.tla) is the intended one.",
            "Texts longer than those enumerated behave like the recorded random texts and the repeating ones.",
            "str::parse::<f32> of the standard library is the oracle for the nearest float."],
    "parse": ["The specification's reading of the language (spec/Stmt.tla, Parser.tla, Grammar.tla) is the intended one.",
              "Programs larger than those enumerated behave like the simulated and the repeated ones.",
              "The tree is read through its derived Debug output."],
    "session": ["Thread schedules are those the operating system gives while calls overlap."],
    "same": ["Tokens whose lines and columns agree but whose offsets differ are left open.", "Programs larger than those paired behave like them."],
    "convert": ["Operators and types are made of tokens through their public variants."],
    "posn": ["Offsets stay within 32 bits."],
}


def assumptions(prop):
    return ASSUME["lex" if prop in LEX else "session" if prop == "C16" else "posn" if prop == "C17" else "same" if prop == "C18" else "convert" if prop == "C19" else "parse"]


# ---------------------------------------------------------------------------------------------
# Tools.

def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build():
    for d in glob.glob(os.path.join(TARGET, "release", ".fingerprint", "lolcode*")):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--release", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    if r.returncode != 0:
        raise NoAnswer("the harness does not build:\n" + r.stdout[-3000:])


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def tlc(st, work, seed, k):
    """Runs TLC; the file it printed to, states, transitions."""
    tag = "%02d-%s" % (k, st["module"])
    cfg, out, meta = (os.path.join(work, tag + x) for x in (".cfg", ".out", ".meta"))
    with open(cfg, "w") as f:
        f.write("SPECIFICATION %s\nCONSTANTS\n" % st["spec"])
        f.writelines("  %s = %s\n" % kv for kv in st["consts"].items())
        f.write("INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % st["invs"])
    tmp = os.path.join(work, "tmp")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Xss256m", "-Xmx%s" % st.get("heap", "8g"), "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC",
           "-workers", "8", "-maxSetSize", "3000000", "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    if st.get("sim"):
        # num counts per worker.
        cmd += ["-simulate", "num=%d" % st["sim"], "-depth", str(st["depth"]), "-seed", str(seed)]
    cmd.append(os.path.join(SPEC, st["module"] + ".tla"))
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=work, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits(0), timeout=st.get("timeout", 3000))
        except subprocess.TimeoutExpired:
            raise NoAnswer("TLC ran out of time on " + st["name"])
    shutil.rmtree(meta, ignore_errors=True)
    said, vectors = [], 0
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                vectors += 1
            else:
                said.append(line)
    said = "".join(said)
    if r.returncode != 0:
        raise NoAnswer("TLC fails on %s (exit %d):\n%s" % (st["name"], r.returncode, said[-3000:]))
    if st.get("sim"):
        m = re.search(r"number of states generated: ([\d,]+)", said)
        t = re.findall(r"([\d,]+) traces generated", said)
        n = int(m.group(1).replace(",", "")) if m else 0
        states, trans = n, n - (int(t[-1].replace(",", "")) if t else 0)
    else:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", said)
        if not m:
            raise NoAnswer("TLC said no number of states on " + st["name"])
        trans, states = (int(x.replace(",", "")) for x in m[-1])
    return out, states, trans, vectors


def text_of(cps):
    return "".join(chr(c) if not 0xD800 <= c < 0xE000 else "?" for c in cps)


class Found(Exception):
    pass


def run_harness(work, args, timeout=1500):
    """Report of the harness; on a crash or hang, a report naming the input."""
    cur = os.path.join(work, "current")
    open(cur, "w").close()
    try:
        r = subprocess.run([HARNESS, cur] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work, text=True,
                           errors="replace", preexec_fn=limits(16), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer("the harness ran out of time: " + " ".join(args))
    if r.returncode == 0:
        return json.loads(r.stdout.strip().splitlines()[-1])
    if r.returncode == 86 or r.returncode < 0:
        what = "hang" if r.returncode == 86 else "killed by signal %d (stack, memory or abort)" % -r.returncode
        s = open(cur, errors="replace").read()
        return {"seen": 0, "skipped": 0, "nbad": 1, "notes": {}, "crash": True,
                "bads": [{"input": [ord(c) for c in s], "why": what + ": " + r.stderr[-300:], "line": ""}]}
    raise NoAnswer("the harness fails (%d): %s" % (r.returncode, r.stderr[-3000:]))


# ---------------------------------------------------------------------------------------------

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.trans = self.traces = 0
        self.samples, self.stages, self.bads = [], [], []

    def bad(self, st, args, b):
        self.bads.append(dict(property=self.prop, stage=st["name"], args=args, input=text_of(b["input"]), cps=b["input"],
                              why=b["why"], line=b.get("line", "")))

    def account(self, st, info, rep=None, states=0, trans=0):
        self.states += states
        self.trans += trans
        e = dict(stage=st["name"], states=states, transitions=trans, **info)
        if rep:
            self.traces += rep["seen"] - rep["skipped"]
            e.update(replayed=rep["seen"] - rep["skipped"], skipped=rep["skipped"], bad=rep["nbad"], notes=rep["notes"])
        self.stages.append(e)
        log("  %s: %s" % (st["name"], json.dumps({k: v for k, v in e.items() if k != "stage"})))

    def sample(self, out):
        """A few of the vectors, from the middle of the file."""
        size = os.path.getsize(out)
        with open(out, "rb") as f:
            for part in (0.5, 0.9):
                f.seek(int(size * part))
                f.readline()
                for _ in range(200):
                    line = f.readline()
                    if line.startswith(b'"') and len(line) < 2500:
                        v = json.loads(json.loads(line))
                        if self.prop in LEX:
                            v = dict(text=text_of(v[0]), status=v[1], tokens=v[2])
                        self.samples.append(v)
                        break

    def judged_by_trace(self, st, k, mode, path, rep_args):
        """LexTrace on recorded runs."""
        n = sum(1 for _ in open(path))
        if n == 0:
            return 0, 0, 0
        out, states, trans, _ = tlc(dict(module="LexTrace", spec="TraceSpec", invs="Verdicts", name=st["name"] + " (LexTrace)",
                                         consts={"TraceFile": '"%s"' % path, "Mode": '"%s"' % mode}), self.work, self.seed, k)
        verdict = {}
        for line in open(out, errors="replace"):
            if line.startswith('"'):
                v = json.loads(json.loads(line))
                verdict[v[1]] = v
        if len(verdict) != n:
            raise NoAnswer("LexTrace judged %d of %d runs" % (len(verdict), n))
        if any(v[0] == "REJECT" for v in verdict.values()):
            for j, line in enumerate(open(path), 1):
                v = verdict[j]
                if v[0] == "REJECT":
                    r = json.loads(line)
                    self.bad(st, rep_args, dict(input=r["s"], why="LexTrace %s rejects event %d at character %d; recorded: %s %s"
                                                % (mode, v[2] + 1, v[3], r["st"], json.dumps(r["t"][max(0, v[2] - 1):v[2] + 2]))))
        return n, states, trans

    def stage(self, k, st):
        prop, work, seed = self.prop, self.work, self.seed
        t0 = time.time()
        if st["kind"] == "model":
            _, s, t, _ = tlc(st, work, seed, k)
            self.account(st, dict(wall_s=round(time.time() - t0, 1)), None, s, t)
        elif st["kind"] == "record":
            path = os.path.join(work, "%02d-recorded.ndjson" % k)
            rep = run_harness(work, ["lex-record", str(seed), str(st["count"]), str(st["big"]), path])
            for b in rep["bads"]:
                self.bad(st, ["lex"], b)
            if rep.get("crash"):
                return
            n, s, t = self.judged_by_trace(st, k, prop, path, ["lex"])
            self.traces += n
            self.account(st, dict(recorded_runs_judged=n, wall_s=round(time.time() - t0, 1)), None, s, t)
        elif st["kind"] == "harness":
            rep = run_harness(work, st["args"])
            for b in rep["bads"]:
                self.bad(st, st["args"], b)
            self.account(st, dict(wall_s=round(time.time() - t0, 1)), rep)
        else:
            if st.get("progs"):
                path = os.path.join(work, "%02d-programs.ndjson" % k)
                run_harness(work, ["gen-programs"] + [str(a) for a in st["progs"]] + [path])
                st["consts"]["ProgFile"] = '"%s"' % path
            out, s, t, vectors = tlc(st, work, seed, k)
            self.sample(out)
            diffs = os.path.join(work, "%02d-diffs.ndjson" % k)
            if st["module"] == "Stretch":
                args = ["stretch-replay", prop, ",".join(map(str, st["sizes"])), out]
            elif st["module"] == "Widen":
                args = ["widen-replay", prop, ",".join(map(str, st["sizes"])), out]
            elif prop in LEX:
                args = ["lex-replay", prop, out, diffs]
            elif st["module"] == "Walk":
                args = ["walk-replay", prop] + [str(a) for a in st["walk"]] + [out]
            elif st["module"] == "Blocks":
                args = ["blocks-replay", prop, out]
            elif prop == "C16":
                args = ["session-replay"] + [str(a) for a in st["stock"]] + [out]
            elif prop == "C18":
                args = ["same-replay", out]
            elif prop == "C19":
                args = ["convert-replay", out]
            elif prop == "C17":
                args = ["posn-replay", out]
            else:
                args = ["parse-replay", prop, "10" if st["module"] in ("Deep", "Pad", "Given") else "4", out]
            rep = run_harness(work, args)
            if not rep.get("crash") and rep["seen"] != vectors:
                raise NoAnswer("%s: %d of %d vectors readable" % (st["name"], rep["seen"], vectors))
            for b in rep["bads"]:
                self.bad(st, args[:2] if args[0] == "lex-replay" else args[:-1], b)
            self.account(st, dict(vectors=vectors, wall_s=round(time.time() - t0, 1)), rep, s, t)
            if args[0] == "lex-replay" and prop in ("C02", "C03") and not rep.get("crash"):
                n, s, t = self.judged_by_trace(st, k, prop, diffs, ["lex"])
                self.states += s
                self.trans += t
            os.remove(out)

    def known(self):
        """Inputs of this property listed as open findings."""
        v = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r"open: property=(\S+) input=(\[[\d, ]*\]) (.*)", line)
                if m and m.group(1) == self.prop:
                    v[tuple(json.loads(m.group(2)))] = m.group(3)
        return v

    def main(self):
        t0 = time.time()
        build()
        for k, st in enumerate(stages(self.prop, self.tier, self.seed)):
            self.stage(k, st)
            if self.bads and self.tier == "quick":
                break
        known = self.known()
        new = [b for b in self.bads if tuple(b["cps"]) not in known]
        for cps, what in known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        coverage = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                        samples=self.samples[:8], stages=self.stages)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=coverage,
                           assumptions=assumptions(self.prop), wall_s=round(time.time() - t0, 2), violations=len(new)), f, indent=1)
        shutil.rmtree(os.path.join(self.work, "tmp"), ignore_errors=True)
        for k, b in enumerate(new[:10]):
            path = os.path.join(self.work, "violation-%d.json" % k)
            json.dump(b, open(path, "w"), indent=1)
            log("  %s: %r: %s" % (b["stage"], b["input"][:300], b["why"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        log("%s %s: %s, %.1f s" % (self.prop, self.tier, "violated" if new else "held", time.time() - t0))
        return 1 if new else 0


def replay(path):
    b = json.load(open(path))
    print("property %s, found by %s\ninput: %r\n%s" % (b["property"], b["stage"], b["input"], b["why"]))
    build()
    work = os.path.join(VERIF, "work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    if b["line"]:
        v = os.path.join(work, "vector")
        open(v, "w").write(b["line"] + "\n")
        args = [a for a in b["args"]] + [v]
        if args[0] == "lex-replay":
            args.append(os.path.join(work, "diffs"))
        print(json.dumps(run_harness(work, args)))
    elif b["property"] in LEX:
        rec = os.path.join(work, "rec")
        src = os.path.join(work, "src")
        json.dump(b["cps"], open(src, "w"))
        run_harness(work, ["lex-one", src, rec])
        print(open(rec).read())
        r = Run.__new__(Run)
        r.prop, r.tier, r.seed, r.work, r.bads = b["property"], "quick", 1, work, []
        r.judged_by_trace(dict(name="replay"), 0, b["property"], rec, [])
        print("REJECT" if r.bads else "ACCEPT", *[x["why"] for x in r.bads])
    else:
        print(json.dumps(run_harness(work, b["args"])))


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        return build()
    if a[:1] == ["replay"]:
        return replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    with open(os.path.join(VERIF, "work", prop + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return Run(prop, tier, seed).main()


if __name__ == "__main__":
    try:
        sys.exit(main() or 0)
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        sys.exit(2)
