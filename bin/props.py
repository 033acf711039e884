"""What each check runs.  One function per property."""
import os

from vlib import VERIF, Check, build, hbin, run_proc

CHECKS = {}


def check(pid, rule):
    def deco(f):
        CHECKS[pid] = (f, rule)
        return f
    return deco


def run(pid, tier):
    f, rule = CHECKS[pid]
    c = Check(pid, tier)
    f(c)
    return c.finish(rule)


def split(scripts, c, name, n=8):
    """write scripts into n files; returns their paths"""
    out = []
    for k in range(n):
        part = scripts[k::n]
        if part:
            p = c.path("%s-%d.scripts" % (name, k))
            with open(p, "w") as f:
                f.write("\n".join(part) + "\n")
            out.append(p)
    return out


def sim(c, spec, cfg, num, depth, name):
    return c.generate(spec, cfg, c.path(name + ".all"),
                      args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(c.seed)])


# ------------------------------------------------------------------------------------- engine

def engine_random(c, mode, traces, steps, shards=8):
    c.campaign("random-" + mode, "EngineTrace",
               [[hbin("hrope"), "engine", "mode=" + mode, "seed=%d" % (c.seed * 1000 + k + 1),
                 "traces=%d" % traces, "steps=%d" % steps, "out=OUT"] for k in range(shards)])


def engine_replay(c, cfg, num, name, scale=1):
    scripts = sim(c, "EngineMC", cfg, num, 10, name) if num else c.generate("EngineMC", cfg, c.path(name + ".all"))
    c.campaign(name, "EngineTrace",
               [[hbin("hrope"), "engine-replay", "in=" + p, "scale=%d" % scale, "out=OUT"]
                for p in split(scripts, c, name)])


ENGINE_RULE = ("a case is one history of an engine: random edits (at the head and at older revisions, several "
               "regions, all UTF-8 widths, units scaled to cross tree leaves), undo sets, collections and reads; "
               "or a behaviour enumerated by TLC; non-trivial: more than one call; distinct by content")


@check("E01", ENGINE_RULE)
def e01(c):
    build(["hrope"])
    c.model("EngineMC", c.pick("EngineMC_quick", "EngineMC_thorough"), timeout=800)
    engine_replay(c, "EngineAll", 0, "replay-all")
    engine_replay(c, "EngineGen", c.pick(100, 1200), "replay-sim")
    engine_random(c, "live", c.pick(500, 4000), 30, c.pick(8, 32))


@check("E02", ENGINE_RULE)
def e02(c):
    build(["hrope"])
    c.model("EngineMC", c.pick("EngineMC_quick", "EngineMC_thorough"), timeout=800)
    engine_replay(c, "EngineGen", c.pick(100, 1200), "replay-sim")
    engine_replay(c, "EngineGen", c.pick(10, 100), "replay-scaled", scale=400)
    engine_random(c, "rebase", c.pick(450, 4000), 30, c.pick(8, 32))


@check("E04", ENGINE_RULE)
def e04(c):
    build(["hrope"])
    c.model("EngineMC", c.pick("EngineMC_gc", "EngineMC_gc6"), timeout=800)
    engine_replay(c, "EngineAllGc", 0, "replay-all")
    engine_replay(c, "EngineGenGc", c.pick(300, 2000), "replay-sim")
    engine_random(c, "gc", c.pick(500, 4000), 35, c.pick(8, 32))


@check("E03", "a case is one schedule of edits and merges between two to four replicas, ending with everybody "
              "hearing everything; random, or enumerated by TLC; distinct by content")
def e03(c):
    build(["hrope"])
    c.model("MergeMC", c.pick("MergeMC_quick", "MergeMC_thorough"), timeout=800)
    c.model("MergeMC", "MergeMC_prio", timeout=800)
    scripts = sim(c, "MergeMC", "MergeGen", c.pick(300, 3000), 13, "gen")
    c.campaign("replay", "MergeTrace",
               [[hbin("hrope"), "merge-replay", "in=" + p, "out=OUT"] for p in split(scripts, c, "gen")])
    c.campaign("random", "MergeTrace",
               [[hbin("hrope"), "merge", "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % c.pick(300, 1500),
                 "steps=%d" % (20 + 5 * (k % 3)), "out=OUT"] for k in range(c.pick(8, 32))])


# --------------------------------------------------------------------------------------- rope

def rope(c, mode, traces, shards=8):
    c.campaign("rope-" + mode, "RopeTrace",
               [[hbin("hrope"), "rope", "mode=" + mode, "seed=%d" % (c.seed * 1000 + k + 1),
                 "traces=%d" % traces, "out=OUT"] for k in range(shards)])


@check("R01", "a case is one history of rope registers: built from text, slices, concatenations, replacements, "
              "sizes around the leaf and node limits, then queried and walked with cursors from any position; "
              "distinct by content")
def r01(c):
    build(["hrope"])
    rope(c, "all", c.pick(150, 1000), c.pick(8, 32))
    rope(c, "query", c.pick(150, 1000), c.pick(8, 32))
    rope(c, "graph", c.pick(100, 800), c.pick(8, 16))


@check("R02", "a case is one chain of edit descriptions and position sets and all operations on them; random, or "
              "every small one enumerated by TLC and scaled; distinct by content")
def r02(c):
    build(["hrope"])
    c.model("DeltaMC", c.pick("DeltaMC_quick", "DeltaMC_thorough"), timeout=800)
    scripts = c.generate("DeltaMC", c.pick("DeltaMC_gen", "DeltaMC_gen4"), c.path("gen.all"))
    for scale in (1, 300):
        c.campaign("replay-%d" % scale, "DeltaTrace",
                   [[hbin("hrope"), "delta-replay", "in=" + p, "scale=%d" % scale, "out=OUT"]
                    for p in split(scripts, c, "gen%d" % scale)])
    c.campaign("random", "DeltaTrace",
               [[hbin("hrope"), "delta", "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % c.pick(150, 1000),
                 "out=OUT"] for k in range(c.pick(8, 32))])


@check("R03", "a case is a pair of texts (edited copies of one another, reordered and repeated lines, common "
              "prefixes of bytes of different characters), compared and diffed; distinct by content")
def r03(c):
    build(["hrope"])
    rope(c, "diff", c.pick(150, 1000), c.pick(16, 48))


# ------------------------------------------------------------------------------------- editor

def editor_random(c, mode, traces, steps=60, shards=8):
    c.campaign("random-" + mode, "EditorTrace",
               [[hbin("hcore"), "edit", "mode=" + mode, "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % traces,
                 "steps=%d" % steps, "out=OUT"] for k in range(shards)], timeout=800, drive_timeout=500)


def editor_replay(c, cfg, num=0):
    """Behaviours of EditorMC: all of them, or `num` random ones per worker."""
    f = c.path(cfg + ".all")
    scripts = c.generate("EditorMC", cfg, f, args=["-simulate", "num=%d" % num, "-depth", "40", "-seed", str(c.seed)] if num else ())
    c.campaign(cfg, "EditorTrace",
               [[hbin("hcore"), "edit-replay", "in=" + p, "out=OUT"] for p in split(scripts, c, cfg)], timeout=800, drive_timeout=500)


def editor(c, area, modes):
    build(["hcore"])
    c.model("EditorMC", "EditorMC_" + area + c.pick("", "_t"), timeout=880)
    editor_replay(c, "EditorAll_" + area + ("_t" if area != "Rec" or not c.quick() else ""))
    editor_replay(c, "EditorGen_" + area, c.pick(150, 3000))
    for mode, traces in modes:
        editor_random(c, mode, c.pick(traces, traces * 5), shards=c.pick(8, 32))


EDITOR_RULE = ("a case is one session of a front-end with the real core over its protocol: commands, the text after each, and "
               "every message to the front-end; the behaviours enumerated by TLC, and random ones; distinct by content")


@check("C01", EDITOR_RULE)
def c01(c):
    editor(c, "Edit", [("edit", 60), ("all", 15)])


@check("C02", EDITOR_RULE)
def c02(c):
    editor(c, "Sel", [("move", 60), ("all", 15)])


@check("U01", EDITOR_RULE)
def u01(c):
    editor(c, "Undo", [("undo", 60), ("all", 15)])


@check("U02", EDITOR_RULE)
def u02(c):
    editor(c, "Undo", [("undo", 40), ("rec", 20)])


@check("V01", EDITOR_RULE)
def v01(c):
    build(["hcore"])
    editor_replay(c, "EditorGen", c.pick(150, 3000))
    for mode, traces in [("view", 50), ("edit", 20), ("find", 10)]:
        editor_random(c, mode, c.pick(traces, traces * 5), shards=c.pick(8, 32))
    n, traces = c.pick((8, 20), (32, 60))
    c.campaign("far", "WrapTrace",
               [[hbin("hcore"), "far", "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % traces, "steps=12", "out=OUT"]
                for k in range(n)], timeout=800, drive_timeout=500)


@check("V02", EDITOR_RULE)
def v02(c):
    editor(c, "Wrap", [("wrap", 60)])
    n, traces = c.pick((8, 14), (32, 40))
    c.campaign("long", "WrapTrace",
               [[hbin("hcore"), "long", "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % traces, "steps=10", "out=OUT"]
                for k in range(n)], timeout=800, drive_timeout=500)


@check("F01", EDITOR_RULE)
def f01(c):
    editor(c, "Find", [("find", 30), ("all", 10)])


@check("T01", EDITOR_RULE)
def t01(c):
    editor(c, "Rec", [("rec", 50)])
    known(c, "known-surround", "EditorTrace", "edit-replay", "known-t01-surround")


def known(c, name, spec, sub, script):
    """A recorded defect, shown on the real code by its own campaign."""
    c.campaign(name, spec, [[hbin("hcore"), sub, "in=" + os.path.join(VERIF, "scripts", script + ".scripts"), "out=OUT"]])


# -------------------------------------------------------------------------------- whole system

def core_random(c, mode, traces, steps=40, shards=8):
    c.campaign("random-" + mode, "CoreTrace",
               [[hbin("hcore"), "sys", "mode=" + mode, "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % traces,
                 "steps=%d" % steps, "out=OUT"] for k in range(shards)], timeout=800, drive_timeout=600)


def core_replay(c, cfg):
    scripts = c.generate("CoreGen", cfg, c.path(cfg + ".all"))
    c.campaign(cfg, "CoreTrace",
               [[hbin("hcore"), "sys-replay", "in=" + p, "out=OUT"] for p in split(scripts, c, cfg, c.pick(8, 32))],
               timeout=800, drive_timeout=600)


CORE_RULE = ("a case is one session with the real core, its directory of documents and its configuration: commands, what other "
             "programs do, failing system calls, and afterwards all texts, files, settings and notifications; the scripts "
             "enumerated by TLC, and random ones; distinct by content")


@check("S01", CORE_RULE)
def s01(c):
    build(["hcore"])
    c.model("SaveMC", c.pick("SaveMC", "SaveMC_t"), timeout=800)
    core_replay(c, c.pick("CoreGen_save", "CoreGen_save_t"))
    core_random(c, "save", c.pick(100, 600), shards=c.pick(8, 32))


@check("K01", CORE_RULE)
def k01(c):
    build(["hcore"])
    c.model("ConfigMC", c.pick("ConfigMC", "ConfigMC_t"), timeout=800)
    core_replay(c, c.pick("CoreGen_cfg", "CoreGen_cfg_t"))
    core_random(c, "cfg", c.pick(120, 600), shards=c.pick(8, 32))


@check("L01", CORE_RULE)
def l01(c):
    build(["hcore"])
    core_replay(c, c.pick("CoreGen_life", "CoreGen_life_t"))
    core_random(c, "fuzz", c.pick(150, 1000), 60, shards=c.pick(8, 32))
    for mode, traces in [("all", 10), ("move", 10)]:
        editor_random(c, mode, c.pick(traces, traces * 5), shards=c.pick(8, 16))


# ------------------------------------------------------------------------------------ plugins

PLUG_RULE = ("a case is one session of the real core with three plugins whose side of the protocol the driver plays: user edits, "
             "undo, plugin edits, reports and questions for old revisions, acknowledgements late or refused, plugins that stop "
             "and start; enumerated by TLC or random; distinct by content")


def plug_replay(c, cfg):
    scripts = c.generate("PlugGen", cfg, c.path(cfg + ".all"))
    c.campaign(cfg, "PlugTrace",
               [[hbin("hcore"), "plug-replay", "in=" + p, "out=OUT"] for p in split(scripts, c, cfg, c.pick(12, 64))],
               timeout=800, drive_timeout=600)


def plug_random(c, mode, traces, steps, shards):
    c.campaign("random-" + mode, "PlugTrace",
               [[hbin("hcore"), "plug", "mode=" + mode, "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % traces,
                 "steps=%d" % steps, "out=OUT"] for k in range(shards)], timeout=800, drive_timeout=600)


@check("P01", PLUG_RULE)
def p01(c):
    build(["hcore"])
    c.model("PlugMC", "PlugMC", timeout=800)
    if c.pick(False, True):
        c.model("PlugMC", "PlugMC_t", timeout=800)
    plug_replay(c, c.pick("PlugGen_text", "PlugGen_text_t"))
    plug_random(c, "text", 12, 60, c.pick(12, 64))


@check("P03", PLUG_RULE)
def p03(c):
    build(["hcore"])
    plug_replay(c, c.pick("PlugGen_styles", "PlugGen_styles_t"))
    plug_random(c, "styles", 12, 50, c.pick(12, 64))


# ---------------------------------------------------------------------------------------- rpc

@check("M01", "a case is one life of an RPC loop: calls, answers in any order, requests from handlers, callbacks and "
              "other threads, tasks, timers, malformed lines, broken writing, end of the stream; enumerated by TLC "
              "or random; distinct by content")
def m01(c):
    build(["hrpc"])
    c.model("RpcMC", c.pick("RpcMC_quick", "RpcMC_thorough"), timeout=900)
    scripts = c.generate("RpcGen", c.pick("RpcGen_3", "RpcGen_4"), c.path("gen.all"))
    c.campaign("replay", "RpcTrace",
               [[hbin("hrpc"), "rpc-replay", "in=" + p, "out=OUT"]
                for p in split(scripts, c, "gen", c.pick(8, 64))], timeout=800, drive_timeout=800)
    c.campaign("random", "RpcTrace",
               [[hbin("hrpc"), "rpc", "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % c.pick(400, 1500),
                 "out=OUT"] for k in range(c.pick(8, 48))], timeout=800, drive_timeout=800)


# ------------------------------------------------------------------------------ plugin library

@check("P02", "a case is one life of a document cache: a text, a size of the pieces fetched, updates (insertions, "
              "deletions, one or several replacements, large changes without a description), questions, work at the "
              "frontier; enumerated by TLC or random; distinct by content")
def p02(c):
    build(["hplug"])
    exact = c.generate("PCacheGen", "PCacheGen_q", c.path("gen.all"))
    long = sim(c, "PCacheGen", "PCacheGen_sim", c.pick(1500, 6000), 30, "sim")
    for name, scripts, limit in [("replay-all", exact, 4), ("replay-long", long, 4), ("replay-whole", long, 1 << 20)]:
        c.campaign(name, "PCacheTrace",
                   [[hbin("hplug"), "cache-replay", "in=" + p, "limit=%d" % limit, "out=OUT"]
                    for p in split(scripts, c, name, c.pick(8, 16))])
    c.campaign("random", "PCacheTrace",
               [[hbin("hplug"), "cache", "seed=%d" % (c.seed * 1000 + k + 1), "traces=%d" % c.pick(600, 2500),
                 "steps=%d" % (20 + 10 * (k % 3)), "out=OUT"] for k in range(c.pick(8, 48))])
