"""One function per property: which specifications, configurations and replayers decide it."""
import json
from . import core, concurrent as conc

CHECKS = {}
def check(prop):
    def d(f):
        CHECKS[prop] = f
        return f
    return d


@check("C01")
def c01(c):
    nf = dict(module="refs", fini={"leak": 0})
    c.graph("LocalRefs", "LocalRefs_quick", prefix=["config 2 0"], **nf)
    c.simulate("LocalRefs", "LocalRefs_sim", num=4000 if c.thorough else 300, depth=120, prefix=["config 4 2"], **nf)
    system(c, num=150)


@check("C02")
def c02(c):
    nf = dict(module="refs", fini={"leak": 0})
    c.graph("GlobalRefs", "GlobalRefs_quick", prefix=["config 2 0"], **nf)
    c.simulate("GlobalRefs", "GlobalRefs_sim", num=4000 if c.thorough else 300, depth=120, prefix=["config 4 2"], **nf)
    schedules(c, "own")
    system(c, num=150)


@check("C03")
def c03(c):
    nf = dict(module="refs", fini={"leak": 0})
    c.graph("Threads", "Threads_quick", prefix=["config 2 2"], **nf)
    c.simulate("Threads", "Threads_sim", num=4000 if c.thorough else 300, depth=120, prefix=["config 4 2"], **nf)
    schedules(c, "refs", "own")


NAMES = ["a/X", "a/X$Y", "X", "[La/X;", "[[La/X;", "[I"]
SIMNAMES = ["a/X", "a/X$Y", "a/X$Y$Z", "a/X$Z", "a/X$", "X", "X$Y", "aX", "a/b/X", "a/b/X$Y", "b/X", "a", "[La/X;", "[[La/X;", "[LX;",
            "[La/X$Y;", "[I", "[[I", "[La/b/X;", "[J", "java/lang/Integer", "a//X"]


@check("C04")
def c04(c):
    for mode in ("strict", "lenient"):
        c.graph("Classes", f"Classes_{mode}", "classes", prefix=[f"config {mode} " + " ".join(NAMES)])
        c.graph("Classes", f"Classes_{mode}_nodebug", "classes", variant="asan_nodebug", prefix=[f"config {mode} " + " ".join(NAMES)])
        c.simulate("Classes", f"Classes_{mode}_sim", "classes", num=800 if c.thorough else 80, depth=80, prefix=[f"config {mode} " + " ".join(SIMNAMES)])
    schedules(c, "classes")


@check("C06")
def c06(c):
    c.graph("Hierarchy", "Hierarchy_quick", "classes", prefix=["config lenient"])


def members(c):
    fi = ("FGet", "SFGet")
    c.graph("Members", "Members_chain_lenient", "members", prefix=["config lenient"], unused=("New", *fi))
    c.graph("Members", "Members_chain_strict", "members", prefix=["config strict"], unused=fi)
    c.graph("Members", "Members_diamond", "members", prefix=["config lenient"], unused=("SCall", "New", *fi))
    c.graph("Members", "Members_kinds", "members", prefix=["config lenient"], unused=("Call", "NCall", "SCall"))
    for m in ("strict", "lenient"):
        c.simulate("Members", f"Members_sim_{m}", "members", num=1500 if c.thorough else 160, depth=150, prefix=["config " + m])


@check("C05")
def c05(c):
    members(c)
    schedules(c, "members")


@check("C07")
def c07(c):
    members(c)


@check("C08")
def c08(c):
    c.graph("Calls", "Calls_quick", "calls", maxlen=200)


@check("C24")
def c24(c):
    c.graph("Hooks", "Hooks_quick", "hooks", maxlen=200)
    c.graph("Rehook", "Rehook_methods", "hooks", maxlen=120)
    c.graph("Rehook", "Rehook_fields", "hooks", maxlen=120)
    c.graph("Members", "Members_kinds", "members", prefix=["config lenient"], unused=("Call", "NCall", "SCall"))
    c.simulate("Members", "Members_sim_lenient", "members", num=1500 if c.thorough else 100, depth=150, prefix=["config lenient"])


@check("C09")
def c09(c):
    nf = dict(module="exceptions", fini={"leak": 0})
    c.graph("Exceptions", "Exceptions_forms", prefix=["config 1 0"], maxlen=200, unused=("Throw", "Attach", "Detach", "Make", "Drop"), **nf)
    c.graph("Exceptions", "Exceptions_threads", prefix=["config 2 2"], **nf)
    c.simulate("Exceptions", "Exceptions_sim", num=2000 if c.thorough else 200, depth=120, prefix=["config 4 2"], **nf)
    system(c, "calls")
    schedules(c, "exceptions")


@check("C10")
def c10(c):
    for cfg in ("shadow", "types", "values", "acc", "desc"):
        c.graph("Fields", "Fields_" + cfg, "fields")
    c.simulate("Fields", "Fields_sim", "fields", num=2000 if c.thorough else 160, depth=150)
    for m in ("lenient", "strict"):
        for cfg, cells in (("types", "B / i / x / L O / 1"), ("kinds", "B / i s / x / I / 1"), ("names", "B / s / x xx / O / 1"), ("inherit", "B D / i / x / I / 1")):
            c.graph("FieldBind", f"FieldBind_{cfg}_{m}", "fieldbind", prefix=[f"config {m} {cells}"], unused=("Same",))
    c.simulate("FieldBind", "FieldBind_sim_lenient", "fieldbind", num=1000 if c.thorough else 80, depth=120, prefix=["config lenient B D / i s / x xx / I L O / 1 2"])
    c.simulate("FieldBind", "FieldBind_sim_strict", "fieldbind", num=1000 if c.thorough else 80, depth=120, prefix=["config strict B D / i s / x xx / J A O / 1 2"])


@check("C11")
def c11(c):
    c.graph("Strings", "Strings_all3" if c.thorough else "Strings_all", "strings", maxlen=300, unused=("NextBlocks", "NextGrow", "Grow", "Reset", "Region", "Whole", "Block"))
    c.graph("Strings", "Strings_blocks", "strings", maxlen=60, unused=("NextAll", "NextGrow", "Grow", "Reset", "Region", "Whole", "FromUnits", "FromUtf", "Null"))
    c.graph("Strings", "Strings_grow", "strings", unused=("NextBlocks", "NextAll", "Block", "FromUnits", "FromUtf", "Null"))
    c.simulate("Strings", "Strings_sim", "strings", num=1600 if c.thorough else 80, depth=60)


@check("C12")
def c12(c):
    c.graph("PrimArrays", "PrimArrays_types", "primarrays", prefix=["config 3 a"])
    c.graph("PrimArrays", "PrimArrays_two", "primarrays", prefix=["config 2 a b"])
    c.graph("PrimArrays", "PrimArrays_long", "primarrays", prefix=["config 2 a"])
    c.simulate("PrimArrays", "PrimArrays_sim", "primarrays", num=1600 if c.thorough else 80, depth=100, prefix=["config 3 a b c"])


@check("C13")
def c13(c):
    f = dict(module="objarrays", fini={"leak": 0})
    c.graph("ObjArraysMC", "ObjArrays_typed", prefix=["config a / m s"], **f)
    c.graph("ObjArraysMC", "ObjArrays_deep", prefix=["config a / l b"], **f)
    c.graph("ObjArraysMC", "ObjArrays_two", prefix=["config a b / m"], **f)
    c.simulate("ObjArraysMC", "ObjArrays_sim", num=1600 if c.thorough else 120, depth=120, prefix=["config a b c / l m s b o l2"], **f)
    f["module"] = "nestedarrays"
    for x in ("two", "int", "plain"):
        c.graph("NestedArraysMC", "NestedArrays_" + x, prefix=["config a b c"], **f)
    c.graph("NestedArraysMC", "NestedArrays_deep", prefix=["config a b c d"], **f)
    c.simulate("NestedArraysMC", "NestedArrays_sim", num=1600 if c.thorough else 120, depth=120, prefix=["config a b c d e f g"], **f)


@check("C14")
def c14(c):
    c.graph("Monitors", "Monitors_kinds", "monitors", prefix=["config 2"])
    c.graph("Monitors", "Monitors_three", "monitors", prefix=["config 3"])
    c.simulate("Monitors", "Monitors_sim", "monitors", num=800 if c.thorough else 60, depth=100, prefix=["config 4"])
    schedules(c, "monitors")


@check("C15")
def c15(c):
    nh = ("HookI", "HookS")
    c.graph("Natives", "Natives_two", "natives", prefix=["config strict"], unused=nh)
    c.graph("Natives", "Natives_strict", "natives", prefix=["config strict"], unused=("Form",))
    c.graph("Natives", "Natives_lenient", "natives", prefix=["config lenient"], unused=("Form",))
    for m in ("strict", "lenient"):
        c.simulate("Natives", "Natives_sim_" + m, "natives", num=1200 if c.thorough else 60, depth=120, prefix=["config " + m])
    schedules(c, "natives", "unregister")


LIBS = "a st late.so stq gone/x plain"


@check("C16")
def c16(c):
    c.graph("Libraries", "Libraries_quick", "libs", prefix=["config lenient " + LIBS])
    c.graph("Libraries", "Libraries_nested", "libs", prefix=["config lenient a st late.so na nb"])
    c.simulate("Libraries", "Libraries_sim", "libs", num=1600 if c.thorough else 120, depth=60, prefix=["config strict " + LIBS + " empty gone.y dir/lib.so na nb"])


@check("C17")
def c17(c):
    mem = ("FindC", "DenyC", "AskC", "Create", "Register", "Mention")
    cl = ("Lookup", "Hook", "Deny", "Ask")
    c.graph("Deny", "Deny_methods", "deny", prefix=["config plain later"], unused=mem)
    c.graph("Deny", "Deny_fields", "deny", prefix=["config setup attached"], unused=mem)
    c.graph("Deny", "Deny_ctors", "deny", prefix=["config plain attached"], unused=mem)
    c.graph("Deny", "Deny_classes", "deny", prefix=["config plain later"], unused=cl)
    c.graph("Deny", "Deny_classes_nodebug", "deny", variant="asan_nodebug", prefix=["config plain later"], unused=cl)
    for m in ("plain later", "setup attached"):
        c.simulate("Deny", "Deny_sim", "deny", num=1200 if c.thorough else 60, depth=150, prefix=["config " + m])


@check("C18")
def c18(c):
    c.graph("Contexts", "Contexts_vms", "contexts", prefix=["config strict w / A B / o p"])
    c.graph("Contexts", "Contexts_deep", "contexts", prefix=["config lenient w / A / o p"])
    c.graph("Contexts", "Contexts_threads", "contexts", prefix=["config strict w x / A / o"])
    c.graph("Contexts", "Contexts_both", "contexts", prefix=["config lenient w x / A B /"], unused=("Make",))
    c.simulate("Contexts", "Contexts_sim", "contexts", num=1200 if c.thorough else 80, depth=150, prefix=["config strict w x y / A B / o p q r s"])
    schedules(c, "threads")


@check("C19")
def c19(c):
    rnd = ("Find", "FindArray", "Method", "Ctor", "Field", "Native", "Random", "Small", "Sweep", "Part", "Ahead", "Next")
    for v, modes in (("plain", ("dump",)), ("plain_fakegen", ("dump", "stats"))):
        c.graph("Codegen", "Codegen_sweep", "codegen", variant=v, maxlen=999, prefix=["config dump"], unused=rnd)
        c.graph("Codegen", "Codegen_small3" if c.thorough else "Codegen_small", "codegen", variant=v, prefix=["config " + modes[-1]], unused=rnd)
        for m in modes:
            c.simulate("Codegen", "Codegen_sim", "codegen", num=200 if c.thorough else 8 // len(modes), depth=60, variant=v, prefix=["config " + m])
            c.graph("Codegen", "Codegen_ahead", "codegen", variant=v, prefix=["config " + m], unused=rnd)


def schedules(c, *kinds):
    """the part of C20's programs a property is about"""
    t = c.thorough
    conc.concurrent_runs(c, [(k, k != "refs" and k != "unregister", shape, 150 if t else n, 300 if t else 100)
                             for k in kinds for shape, n in (((1, 1, 0), 20), ((2, 2, 0), 14), ((1, 1, 1), 8))])


@check("C20")
def c20(c):
    t = c.thorough
    plan = []
    for k in ("classes", "members", "natives", "unregister", "refs", "own", "threads", "exceptions", "monitors", "mixed"):
        lenient = k != "refs" and k != "unregister"
        plan.append((k, lenient, (1, 1, 0), None if t else 60, 400 if t else 160))
        plan.append((k, lenient, (2, 2, 0), 400 if t else 25, 500 if t else 120))
        plan.append((k, lenient, (1, 1, 1), 400 if t else 20, 500 if t else 120))
        if t:
            plan.append((k, lenient, (2, 1, 1), 200, 500))
    for k in ("classes", "members"):
        plan.append((k, False, (1, 1, 0), None if t else 20, 400 if t else 120))
    conc.concurrent_runs(c, plan)


P = dict(hooks=("AddHook",), tables=("Override", "Take"), invoke=("OverrideVM",), exceptions=("Throw", "Clear"), classes=("Find", "Deny"), members=("Hook",), objects=("Make", "Drop"))


@check("C21")
def c21(c):
    def run(cfg, config, parts, *unused):
        c.graph("Vms", "Vms_" + cfg, "vms", prefix=["config " + config], unused=tuple(x for p in P if p not in parts for x in P[p]) + unused)
    run("hooks", "w / A B / /", ("hooks",))
    run("tables", "w / A B / n/A /", ("tables", "classes"), "Deny", "Init1")
    run("threads", "w x / A B / /", ("hooks",), "Init1")
    run("state", "w / A B / n/A /", ("exceptions", "classes", "invoke"), "Init1")
    run("objects", "w x / A B / n/A / o", ("objects", "members"), "Init1")
    c.simulate("Vms", "Vms_sim", "vms", num=1200 if c.thorough else 80, depth=150, prefix=["config w x / A B C / n/A n/B / o p q"])


@check("C22")
def c22(c):
    for m in ("strict", "lenient"):
        c.graph("Reflect", "Reflect_one", "reflect", prefix=["config reflect " + m])
    c.graph("Reflect", "Reflect_two", "reflect", prefix=["config reflect strict"])
    c.graph("Buffers", "Buffers_one", "reflect", prefix=["config buffers strict"])
    c.graph("Buffers", "Buffers_two", "reflect", prefix=["config buffers lenient"])
    c.simulate("Reflect", "Reflect_sim", "reflect", num=1200 if c.thorough else 60, depth=120, prefix=["config reflect lenient"])
    c.simulate("Buffers", "Buffers_sim", "reflect", num=1200 if c.thorough else 60, depth=120, prefix=["config buffers strict"])


@check("C23")
def c23(c):
    for v, d in (("asan", "plain"), ("asan_nz", "nz")):
        c.graph("Defaults", "Defaults_lenient_" + d, "defaults", variant=v, maxlen=200, prefix=["config lenient"])
        c.graph("Defaults", "Defaults_strict_" + d, "defaults", variant=v, maxlen=200, prefix=["config strict"], unused=("Fabricated", "OnNull", "Ctor"))


@check("C25")
def c25(c):
    for m in ("strict", "lenient"):
        c.graph("Main", "Main_quick", "libs", prefix=["config " + m])


def replay_file(path):
    r = json.load(open(path))
    if r["kind"] == "replay":
        b = core.build(r["variant"], [r["module"]])[r["module"]]
        c = core.Check(r["property"])
        walk = [dict(op=s, args=[], obs=e) for s, e in zip(r["script"], r["expected"])]
        pre = [[dict(op=s, args=[], obs="*") for s in w] for w in r.get("before", [])]
        res, tail = c.run_script(b, [walk] + pre, [*range(1, len(pre) + 1), 0], c.sub(), r.get("prefix", ()), r.get("env"))
        bad = c.first_bad(walk, res.get(0, []), tail, r.get("fini"), len(r.get("prefix", ())))
        for s, e, o in zip(r["script"], r["expected"], res.get(0, [])[len(r.get("prefix", ())):]):
            print(f"{s:40s} want {core.canon(e)}  got {o}")
        print("tail:", tail)
        print("REPRODUCED" if bad else "not reproduced", bad)
        core.shutil.rmtree(c.work, ignore_errors=True)
        return 1 if bad else 0
    if r["kind"] == "concurrent":
        return conc.replay(r)
    print("unknown kind", r["kind"])
    return 2


SYS = dict(calls=("2 0", "make newl dell neww delw throw occurred clear enter leave leavethrow"),
           nested=("2 0", "make newl dell throw occurred clear enter leave leavethrow"),
           heap=("2 1 1", "make newl dell neww delw setnext getnext setkids getkids setelem getelem nset cut"),
           native=("2 1 2", "make dell same setnext getnext setelem getelem nset cut hold drop nmake"),
           threads=("1 0", "make newl dell newg delg attach detach getroot setroot throw occurred clear enter leave leavethrow"))


def system(c, *graphs, num=0):
    for g in graphs:
        c.graph("System", "System_" + g, "system", prefix=["config " + SYS[g][0]], fini={"leak": 0}, need=SYS[g][1])
    if num:
        c.simulate("System", "System_sim", "system", num=num * (20 if c.thorough else 1), depth=100, prefix=["config 3 2 2 2"], fini={"leak": 0})


@check("C26")
def c26(c):
    system(c, "calls", "heap", "threads", "native", *(["nested"] if c.thorough else []), num=300)
