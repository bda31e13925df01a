"""Which machinery decides which property."""
from . import core

METRIC = "lightstep/sdk/metric"


class Check:
    technique = "TLA+ specification checked with TLC; traces recorded from the code validated against it"
    note = ("Every recorded behaviour of the real code is a behaviour of the specification; bounded by the generated programs "
            "and schedules. Trusts TLC, the drivers and their projection of outputs.")

    def __init__(self, level, assumptions, *stages):
        self.level, self.assumptions, self.stages = level, assumptions, stages

    def run(self, ctx):
        for s in self.stages:
            s(ctx)


def conc(fams, q=3, t=60):
    """Controlled-schedule executions validated against MetricConcTrace."""
    def stage(ctx):
        b = ctx.build("conc", mode="sched", fine=True, pkgs=[METRIC], mods=[("github.com/lightstep/go-expohisto", ["structure"])])
        files = ctx.drive(b, "conc", ["-fam", fams, "-n", "1000000"], ctx.secs(q, t))
        ctx.validate("MetricConcTrace", files, what="concurrent history (" + fams + ")")
    return stage


def seq(fams, n=900, t=8000):
    """Random sequential programs validated against MetricSDK."""
    def stage(ctx):
        b = ctx.build("seq")
        files = ctx.drive(b, "seq", ["-fam", fams, "-n", str(n if ctx.quick else t)], ctx.secs(20, 200))
        ctx.validate("MetricSDKTrace", files, what="program (" + fams + ")", timeout=800 if ctx.quick else 3000)
    return stage


def mc(module, quick=(), thorough=(), timeout=3000):
    """Exhaustive model checking of the specification itself."""
    def stage(ctx):
        for cfg in (quick if ctx.quick else thorough):
            ctx.model(module, cfg + ".cfg", timeout=timeout, heap="10g")
    return stage


def sync(quick, thorough, flaws):
    """The algorithm for synchronous instruments, exhaustively."""
    names = lambda l: ["MCSyncState%s.cfg" % x for x in l]

    def stage(ctx):
        for cfg in names(quick if ctx.quick else quick + thorough):
            ctx.model("MCSyncState", cfg, timeout=3000, heap="16g")
        if not ctx.quick:
            for cfg in names(flaws):
                ctx.flawed("MCSyncState", cfg)
    return stage


def peri(fams, n=1500, t=20000):
    """Random schedules in virtual time validated against Periodic."""
    def stage(ctx):
        b = ctx.build("peri", mode="chan", pkgs=[METRIC], go="go1.25", test=True)
        files = ctx.drive(b, "peri", ["-fam", fams, "-n", str(n if ctx.quick else t)], ctx.secs(20, 200))
        ctx.validate("PeriodicTrace", files, what="schedule (" + fams + ")", timeout=800 if ctx.quick else 3000, nondet=True)
    return stage


def exp(fams, n=300, t=4000):
    """Random data through the exporters to a local backend, validated against Export."""
    def stage(ctx):
        b = ctx.build("exp")
        files = ctx.drive(b, "exp", ["-fam", fams, "-n", str(n if ctx.quick else t)], ctx.secs(15, 200))
        ctx.validate("ExportTrace", files, what="export (" + fams + ")", timeout=800 if ctx.quick else 3000)
    return stage


def launch(fams, n=90, t=1500):
    """Launchers and pipelines in processes of their own, validated against Launcher."""
    def stage(ctx):
        b = ctx.build("launch")
        files = ctx.drive(b, "launch", ["-fam", fams, "-n", str(n if ctx.quick else t)], ctx.secs(20, 240))
        ctx.validate("LauncherTrace", files, what="launch (" + fams + ")", timeout=800 if ctx.quick else 3000)
    return stage


def inst(fams, n=400, t=8000):
    """Builtin instrumentation over sources under the driver's control, validated against Builtin."""
    def stage(ctx):
        b = ctx.build("inst", mode="fake", pkgs=["lightstep/instrumentation"])
        files = ctx.drive(b, "inst", ["-fam", fams, "-n", str(n if ctx.quick else t)], ctx.secs(15, 200))
        ctx.validate("BuiltinTrace", files, what="instrumentation (" + fams + ")", timeout=800 if ctx.quick else 3000)
    return stage


SCHED = ["controlled scheduler explores sequentially consistent interleavings at statement granularity"]

SEQ = ["random programs over small domains of names, attributes and power-of-two values"]

VIRT = ["virtual time of testing/synctest; computation takes no time"]

LOCAL = ["backend on the loopback interface; the collector's exporter, batcher and compression are as in go.mod"]

PROC = ["backends on the loopback interface; one process per program; the default endpoint is not reachable"]

FAKE = ["Linux; /proc and runtime/metrics are replaced by generated sources; CPU time is compared with getrusage around the collection"]

CHECKS = {
    "C01": Check("model_checking", SCHED, conc("sum,create"), seq("mix"), sync([1, 2], [6, 7, 8], ["Bug1", "Bug2", "Bug5"])),
    "C02": Check("model_checking", SEQ, seq("reader,time")),
    "C03": Check("model_checking", SCHED, conc("evict"), seq("evict,card,chain"), sync([1, 2], [9], ["Bug3", "Bug4", "Bug6"])),
    "C04": Check("model_checking", SCHED, conc("card"), seq("card"), sync([3, 4], [10, 11], ["Bug7"])),
    "C05": Check("model_checking", SEQ, seq("async")),
    "C06": Check("model_checking", SCHED, conc("cb"), seq("async")),
    "C07": Check("model_checking", SEQ, seq("time")),
    "C08": Check("model_checking", SCHED, conc("gauge"), seq("reader"), sync([5], [12], [])),
    "C09": Check("model_checking", SEQ, seq("hist")),
    "C10": Check("model_checking", SEQ, seq("bad")),
    "C11": Check("model_checking", SEQ, seq("attr,attr,chain")),
    "C12": Check("model_checking", SEQ, seq("view")),
    "C13": Check("model_checking", SEQ, conc("create", q=2), seq("clash")),
    "C14": Check("model_checking", VIRT, peri("peri"), mc("MCPeriodic", ["MCPeriodic"], ["MCPeriodic1", "MCPeriodic2"])),
    "C15": Check("model_checking", VIRT, peri("prov"), mc("MCPeriodic", [], ["MCPeriodic1"])),
    "C16": Check("model_checking", SEQ, seq("reuse")),
    "C17": Check("model_checking", LOCAL, exp("metrics")),
    "C18": Check("model_checking", LOCAL, exp("spans")),
    "C19": Check("model_checking", LOCAL, exp("metrics,spans")),
    "C20": Check("model_checking", LOCAL, exp("prom")),
    "C21": Check("model_checking", PROC, launch("launch")),
    "C22": Check("model_checking", PROC, launch("launch,trace,metric")),
    "C23": Check("model_checking", FAKE, inst("host,runtime,cputime")),
    "C24": Check("model_checking", PROC, launch("trace,launch,trace")),
}
