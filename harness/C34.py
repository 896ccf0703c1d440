# C34: a test case of the python package gets a connected simulator of its own
# for every test, and no simulator outlives its test.
#
# usage: C34.py TIER SEED OUT EVIDENCE|- [--replay FILE] [--scale F]
import enum
import gc
import json
import os
import sys
import tempfile
import time
import types
import unittest
import weakref

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP = "C34"
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, strategies as st

TIER, SEED, OUT, EVID = sys.argv[1:5]
REPLAY = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
SCALE = float(sys.argv[sys.argv.index("--scale") + 1]) if "--scale" in sys.argv else 1.0


class State(enum.Enum):
    SSK_Building = 0
    SSK_Connecting = 1
    SSK_Initialising = 2
    SSK_Standby = 3
    SSK_Executing = 4
    SSK_Storing = 5
    SSK_Restoring = 6
    SSK_Reconnecting = 7
    SSK_Exiting = 8
    SSK_Aborting = 9


class LibraryNotFound(Exception):
    pass


class Odd(BaseException):
    pass


KINDS = {"library": LibraryNotFound, "runtime": RuntimeError,
         "attribute": AttributeError, "assert": AssertionError,
         "skip": unittest.SkipTest, "stop": StopIteration, "base": Odd}


class World:
    """what happens to the simulators of one case"""

    def __init__(self):
        self.log = []
        self.alive = []
        self.count = 0
        self.fault = None  # [calls until it, kind, token]

    def call(self, *what):
        self.log.append(what)
        if self.fault is not None:
            if self.fault[0] == 0:
                kind, token = self.fault[1:]
                self.fault = None
                raise KINDS[kind](token)
            self.fault[0] -= 1


world = World()


class Simulator:
    def __init__(self, number):
        self.number = number
        self.state = State.SSK_Building

    def LoadLibrary(self, library_name):
        world.call(self.number, "load", library_name)

    def CreateInstance(self, *a):
        world.call(self.number, "instance", a[1])
        return object()

    def AddModel(self, model):
        world.call(self.number, "model")

    def Connect(self):
        world.call(self.number, "connect")
        self.state = State.SSK_Standby

    def generate_python_type_hints(self, path):
        world.call(self.number, "hints", path)

    def GetState(self):
        return self.state

    def Exit(self):
        world.call(self.number, "exit")
        self.state = State.SSK_Exiting

    def Abort(self):
        world.call(self.number, "abort")
        self.state = State.SSK_Aborting

    def Run(self):
        world.call(self.number, "run")
        self.state = State.SSK_Executing

    def Hold(self):
        world.call(self.number, "hold")
        self.state = State.SSK_Standby


def createSimulator(library_name, factory_name, name="", description=""):
    n = world.count
    world.count += 1
    world.call(n, "create", library_name, factory_name)
    s = Simulator(n)
    world.alive.append(weakref.ref(s))
    return s


smp = types.ModuleType("ecss_smp")
smp.Smp = types.SimpleNamespace(ISimulator=Simulator, SimulatorStateKind=State,
                                createSimulator=createSimulator,
                                Uuid=lambda text: text)
sys.modules["ecss_smp"] = smp
sys.path.insert(0, os.path.join(REPO, "python"))
import xsmp

SERVICES = [("loadLogger", "xsmp_logger"), ("loadTimeKeeper", "xsmp_time_keeper"),
            ("loadResolver", "xsmp_resolver"),
            ("loadEventManager", "xsmp_event_manager"),
            ("loadLinkRegistry", "xsmp_link_registry"),
            ("loadScheduler", "xsmp_scheduler")]
ACTIONS = ["exit", "abort", "run", "hold", "load", "forget"]


def do(test, action):
    if action == "exit":
        test.sim.Exit()
    elif action == "abort":
        test.sim.Abort()
    elif action == "run":
        test.sim.Run()
    elif action == "hold":
        test.sim.Hold()
    elif action == "load":
        test.sim.LoadLibrary("of_the_test")
    else:
        del test.sim


AFTER = {"exit": State.SSK_Exiting, "abort": State.SSK_Aborting,
         "run": State.SSK_Executing, "hold": State.SSK_Standby}


class Violation(Exception):
    pass


def require(cond, text):
    if not cond:
        raise Violation(text)


def expected(case, t, n, path):
    """log, error or None, skipped?, body ran?, of test t with simulator n"""
    steps = [(n, "create", "xsmp_simulator", "createSimulator")]
    if case["services"] == "own":
        steps.append((n, "load", "own_services"))
    elif case["services"] == "default":
        for i, (hook, lib) in enumerate(SERVICES):
            o = case["loaders"].get(str(i))
            if o is None:
                steps.append((n, "load", lib))
            elif o:
                steps.append((n, "load", o))
    for a in case["assembly"]:
        if a.startswith("lib"):
            steps.append((n, "load", a))
        else:
            steps += [(n, "instance", a), (n, "model")]
    steps.append((n, "connect"))
    if case["hints"]:
        steps.append((n, "hints", path))
    f = t["fault"]
    if f is not None and f[0] < len(steps):
        return steps[:f[0] + 1], f[1], False, f[0] > 0
    state = State.SSK_Standby
    held = True
    log = list(steps)
    failed = None
    at = len(steps)
    for a in t["body"]:
        if a == "forget":
            held = False
            break
        log.append((n, a) if a != "load" else (n, "load", "of_the_test"))
        if f is not None and f[0] == at:
            failed = f[1]
            f = None
            break
        at += 1
        state = AFTER.get(a, state)
    if failed is None and t["end"] is not None:
        failed = t["end"]
    if held and state == State.SSK_Standby:
        log.append((n, "exit"))
        if f is not None and f[0] == at:
            failed = (failed, f[1])
    return log, failed, True, True


def check(case):
    global world
    world = World()
    with tempfile.TemporaryDirectory(prefix="xsmp-c34-") as tmp:
        directory = os.path.join(tmp, *case["dirs"])
        file = os.path.join(directory, case["file"] + ".py")
        module = types.ModuleType("pbt_c34_module")
        module.__file__ = file
        sys.modules["pbt_c34_module"] = module
        hints = os.path.join(directory, "_" + case["file"] + ".py")
        body = {"__module__": "pbt_c34_module"}
        ran = []

        if case["services"] == "own":
            body["loadServices"] = lambda self, sim: sim.LoadLibrary("own_services")
        elif case["services"] == "none":
            body["loadServices"] = lambda self, sim: None
        for i, name in case["loaders"].items():
            def loader(self, sim, name=name):
                if name:
                    sim.LoadLibrary(library_name=name)
            body[SERVICES[int(i)][0]] = loader
        if case["assembly"]:
            def loadAssembly(self, sim):
                require(sim is self.sim, "another simulator is loaded")
                for a in case["assembly"]:
                    if a.startswith("lib"):
                        sim.LoadLibrary(a)
                    else:
                        sim.AddModel(sim.CreateInstance("uuid", a, "", sim))
            body["loadAssembly"] = loadAssembly
        if not case["hints"]:
            body["generateTypeHints"] = lambda self, sim: None
        for k, t in enumerate(case["tests"]):
            def method(self, k=k, t=t):
                ran.append(k)
                require(self.sim.GetState() == State.SSK_Standby,
                        "the simulator of a test is not connected")
                for a in t["body"]:
                    do(self, a)
                    if a == "forget":
                        break
                if t["end"] is not None:
                    raise KINDS[t["end"]]("end of test %d" % k)
            body["test_%d" % k] = method
        cls = type("Generated", (xsmp.unittest.TestCase,), body)

        class Result(unittest.TestResult):
            def startTest(self, test):
                k = int(test._testMethodName[5:])
                f = case["tests"][k]["fault"]
                world.fault = None if f is None else [f[0], f[1], "fault of test %d" % k]
                super().startTest(test)

            def stopTest(self, test):
                world.fault = None
                super().stopTest(test)

        result = Result()
        tests = [cls("test_%d" % k) for k in range(len(case["tests"]))]
        for k, test in enumerate(tests):
            before = len(world.log)
            problems = len(result.errors) + len(result.failures)
            skipped = len(result.skipped)
            n = world.count
            try:
                test.run(result)
            except Violation as e:
                raise
            t = case["tests"][k]
            log, error, connected, created = expected(case, t, n, hints)
            got = world.log[before:]
            require(got == log, "test %d: the calls are %s instead of %s" % (k, got, log))
            require((k in ran) == connected, "test %d ran or not" % k)
            kinds = [e for e in (error if isinstance(error, tuple) else (error,)) if e]
            bad = [e for e in kinds if e != "skip"]
            text = "".join(x[1] for x in (result.errors + result.failures)[0:])
            more = len(result.errors) + len(result.failures) - problems
            require("Violation" not in text, "test %d: %s" % (k, text[-600:]))
            require(more == len(bad), "test %d: %d problems instead of %s: %s" % (k, more, bad, text[-300:]))
            require(len(result.skipped) - skipped == len(kinds) - len(bad), "test %d: skipped" % k)
            # the exception reported is the one raised
            new = [x[1] for x in result.errors + result.failures if x[0] is test]
            for e in bad:
                require(any(KINDS[e].__name__ in x for x in new),
                        "test %d: %s is not reported but %s" % (k, e, new))
            exitFailed = isinstance(error, tuple) or (
                got and got[-1][1:] == ("exit",) and t["fault"] is not None and
                t["fault"][0] == len(got) - 1 and connected)
            if not exitFailed and not (not connected and error == "base"):
                require(not hasattr(test, "sim"), "test %d still has its simulator" % k)
                gc.collect(0)
                alive = [r().number for r in world.alive if r() is not None]
                if alive:
                    gc.collect()
                    alive = [r().number for r in world.alive if r() is not None]
                require(not alive, "after test %d simulators %s are alive" % (k, alive))
            else:
                if hasattr(test, "sim"):
                    del test.sim
        require(world.count == len(tests), "%d simulators for %d tests" % (world.count, len(tests)))
        del sys.modules["pbt_c34_module"]
    faults = sum(1 for t in case["tests"] if t["fault"] is not None or t["end"] is not None
                 or any(a in AFTER or a == "forget" for a in t["body"]))
    return len(case["tests"]) >= 2 and faults >= 1


name = st.text("abXY_", min_size=1, max_size=4)
kind = st.sampled_from(sorted(KINDS))
test = st.fixed_dictionaries({
    "fault": st.none() | st.tuples(st.integers(0, 18), kind).map(list),
    "body": st.lists(st.sampled_from(ACTIONS), max_size=4),
    "end": st.none() | kind})
case = st.fixed_dictionaries({
    "services": st.sampled_from(["default", "default", "default", "own", "none"]),
    "loaders": st.dictionaries(st.integers(0, 5).map(str),
                               st.sampled_from(["", "libown"]), max_size=3),
    "assembly": st.lists(st.sampled_from(["libA", "libB", "c1", "c2"]), max_size=3),
    "hints": st.booleans(),
    "dirs": st.lists(name, max_size=2),
    "file": name,
    "tests": st.lists(test, max_size=4)})

stats = {"n": 0, "distinct": set(), "samples": [], "last": None}


def run():
    n = max(1, int({"quick": 5000, "thorough": 60000}[TIER] * SCALE))

    @hypothesis.seed(int(SEED))
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              verbosity=hypothesis.Verbosity.quiet)
    @given(case)
    def prop(c):
        stats["n"] += 1
        stats["last"] = c
        if check(c):
            text = json.dumps(c, sort_keys=True)
            stats["distinct"].add(hash(text))
            if len(stats["samples"]) < 5 and stats["n"] % 7 == 0:
                stats["samples"].append(text)
    prop()


def main():
    start = time.time()
    violation = None
    if REPLAY:
        c = json.load(open(REPLAY))["case"]
        try:
            check(c)
            print("the case passes")
        except Exception as e:
            print("failure: %s" % e)
            print("VIOLATION property=%s replay=%s" % (PROP, REPLAY))
            return 1
        return 0
    try:
        run()
    except Exception as e:
        violation = e
    rc = 0
    if violation is not None:
        path = os.path.join(OUT, PROP + "-case.json")
        json.dump({"property": PROP, "case": stats["last"],
                   "failure": str(violation)[:2000]}, open(path, "w"), indent=1)
        print("failure: %s" % str(violation)[:800])
        print("VIOLATION property=%s replay=%s" % (PROP, path))
        rc = 1
    wall = time.time() - start
    print("%s tier=%s seed=%s evaluations=%d distinct_nontrivial=%d wall=%.2fs" %
          (PROP, TIER, SEED, stats["n"], len(stats["distinct"]), wall))
    if EVID != "-":
        json.dump({"property": PROP, "tier": TIER, "seed": int(SEED),
                   "level": "exploration",
                   "coverage": {"evaluations": stats["n"],
                                "distinct_nontrivial": len(stats["distinct"]),
                                "rule": "a case is a test class with overridden hooks and up to four "
                                        "tests with injected faults; non-trivial: two tests or more, "
                                        "one of which fails or leaves Standby; distinct by content",
                                "samples": stats["samples"]},
                   "assumptions": ["ecss_smp is replaced by a stand-in that records the calls"],
                   "wall_s": wall, "violations": rc}, open(EVID, "w"), indent=1)
    return rc


sys.exit(main())
