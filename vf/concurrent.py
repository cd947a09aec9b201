"""C20: programs generated from Concurrent.tla run under many schedules of the real code; the histories are judged by ConcurrentTrace.tla"""
import concurrent.futures, json, os, shutil, subprocess
from . import core
from .core import CheckError, log, canon


def cfg_gen(kind, lenient, lens):
    return (f'CONSTANTS Kind = "{kind}" Lenient = {"TRUE" if lenient else "FALSE"} L1 = {lens[0]} L2 = {lens[1]} L3 = {lens[2]}\n'
            "SPECIFICATION Spec\nINVARIANT TypeOK\nPROPERTIES Monotone StaysDead Own\nCHECK_DEADLOCK FALSE\n")


def generate(c, kind, lenient, lens):
    d = c.sub()
    rc, out = core.tlc("Concurrent", "gen", d, extra_files={"gen.cfg": cfg_gen(kind, lenient, lens)})
    progs = []
    for line in open(out):
        if line.startswith('"P '):
            progs.append(json.loads(json.loads(line)[2:]))
    _, _, stats, _, err = core.parse_tlc(out)
    if rc != 0:
        raise CheckError(f"TLC on Concurrent {kind} {lens} exited {rc}: {err[:2000]}")
    c.cov["transitions"] += stats[0]
    c.cov["states"] += stats[1]
    shutil.rmtree(d, ignore_errors=True)
    seen, r = set(), []
    for p in progs:
        k = canon([p["setup"], sorted([canon(q), t + 1 in p["att"]] for t, q in enumerate(p["p"]))])
        if k not in seen:
            seen.add(k)
            r.append(dict(p, lenient=lenient, kind=kind))
    r.sort(key=canon)
    return r, len(progs)


def tok(x):
    return "1" if x is True else "0" if x is False else str(x)


def lines(i, p, budget, seed, fixed=""):
    n = max(k + 1 for k in range(3) if p["p"][k])
    att = sum(1 << t for t in p["att"])
    r = [f"S {i} {n} {att} {'lenient' if p['lenient'] else 'strict'}"]
    r += ["s " + " ".join(map(tok, q)) for q in p["setup"]]
    r += [f"p {t + 1} " + " ".join(map(tok, q)) for t in range(3) for q in p["p"][t]]
    return r + [f"E {budget} {seed} {fixed}".rstrip()]


def events(p, h):
    """the events of a history for ConcurrentTrace, and how it ended if it did not end by itself"""
    progs = [p["setup"] + [["final"]]] + [t + [["end"]] for t in p["p"]]
    ev, bad = [], None
    for l in h.split("\n"):
        w = l.split(" ", 3)
        if w[0] == "i":
            ev.append(dict(k="i", t=int(w[1]), q=progs[int(w[1])][int(w[2])], o=""))
        elif w[0] == "r":
            ev.append(dict(k="r", t=int(w[1]), q=[], o=w[3]))
        elif w[0] == "d":
            ev.append(dict(k="d", t=0, q=[], o=""))
        elif w[0] == "x":
            bad = l[2:]
    return ev, bad


def run(binary, d, todo, seed, timeout=700):
    """todo: (id, program, budget, fixed schedule)"""
    os.makedirs(d, exist_ok=True)
    fin, fout = os.path.join(d, "in"), os.path.join(d, "out")
    with open(fin, "w") as f:
        for i, p, b, fx in todo:
            f.write("\n".join(lines(i, p, b, seed, fx)) + "\n")
    try:
        subprocess.run([binary, fin, fout], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("the scheduled runs did not end in time")
    res = [json.loads(l) for l in open(fout)]
    if not res or "end" not in res[-1]:
        raise CheckError("the scheduled runs ended early")
    return res[:-1]


def judge(c, items, jobs):
    """items: (program, events); the set of indices which ConcurrentTrace accepts"""
    ok = set()

    def one(sel, lenient, n):
        d = os.path.join(base, str(n))
        os.makedirs(d)
        json.dump([dict(att=sorted(items[i][0]["att"]), ev=items[i][1]) for i in sel], open(os.path.join(d, "h.json"), "w"))
        rc, out = core.tlc("ConcurrentTrace", "trace", d, heap="2g", extra_files={"trace.cfg":
            f'CONSTANTS File = "h.json" Lenient = {"TRUE" if lenient else "FALSE"}\nSPECIFICATION Spec\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n'})
        acc = set()
        for line in open(out):
            if line.startswith('"A '):
                acc.add(sel[int(line.strip().strip('"')[2:]) - 1])
        _, _, stats, _, err = core.parse_tlc(out)
        if rc != 0:
            raise CheckError(f"TLC on ConcurrentTrace exited {rc}: {err[:2000]}")
        shutil.rmtree(d, ignore_errors=True)
        return acc, stats

    base = c.sub()
    parts = []
    for lenient in (True, False):
        sel = [i for i, (p, _) in enumerate(items) if p["lenient"] == lenient]
        k = max(1, min(jobs, (len(sel) + 199) // 200))
        parts += [(sel[j::k], lenient) for j in range(k) if sel[j::k]]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for acc, stats in ex.map(lambda a: one(*a[1], a[0]), list(enumerate(parts))):
            ok |= acc
            c.cov["transitions"] += stats[0]
            c.cov["states"] += stats[1]
    return ok


def concurrent_runs(c, plan):
    """plan: (kind, lenient, lengths, number of programs or None, schedules per program)"""
    if c.fast_stop():
        return
    binary = core.build("sched", ["conc"])["conc"]
    rng = c.rng("conc")
    todo, info = [], []
    with concurrent.futures.ThreadPoolExecutor(core.NCPU) as ex:
        gens = list(ex.map(lambda a: generate(c, a[0], a[1], a[2]), plan))
    for (kind, lenient, lens, num, budget), (progs, total) in zip(plan, gens):
        if num and num < len(progs):
            progs = rng.sample(progs, num)
        info.append(dict(kind=kind, lenient=lenient, lengths=lens, programs=len(progs), of=total, schedules_per_program=budget))
        todo += [(p, budget) for p in progs]
    order = list(range(len(todo)))
    rng.shuffle(order)
    n = core.NCPU
    d = c.sub()
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda j: run(binary, os.path.join(d, str(j)), [(i, *todo[i], "") for i in order[j::n]], c.seed), range(n)))
    runs, hist = 0, {}
    for o in outs:
        for r in o:
            if "runs" in r:
                runs += r["runs"]
            else:
                hist.setdefault((r["id"], r["h"]), r)
    bad, items, keys = [], [], []
    for (i, h), r in sorted(hist.items()):
        ev, x = events(todo[i][0], h)
        if x or r["status"]:
            bad.append((i, r, x or r["status"]))
        else:
            items.append((todo[i][0], ev))
            keys.append((i, r))
    ok = judge(c, items, n)
    bad += [(keys[k][0], keys[k][1], "no order of the calls explains this history") for k in range(len(items)) if k not in ok]
    c.cov["traces_validated_against_impl"] += runs
    c.cov["runs"].append(dict(spec="Concurrent", replayer="conc", variant="sched", programs=len(todo), schedules=runs, distinct_histories=len(hist), plan=info))
    log(f"  Concurrent: {len(todo)} programs, {runs} schedules, {len(hist)} distinct histories")
    if items:
        c.cov["samples"].append(dict(program=items[0][0], history=items[0][1]))
    for i, r, why in bad:
        if len(c.violations) >= 3:
            break
        p = todo[i][0]
        if known(c, p, r, why):
            continue
        r2 = again(c, binary, i, p, r["how"]) if r["how"] != "setup" else None
        if r["how"] != "setup" and not r2:
            c.unconfirmed += 1
            log(f"  note: {why} in {canon(p)} under {r['how']} did not repeat")
            continue
        c.violation(dict(kind="concurrent", origin=f"Concurrent/{p['kind']}", program=p, schedule=r["how"], id=i, step=0, operation=canon(p["setup"]) + " " + canon(p["p"]),
                         want="a history of ConcurrentTrace.tla", got=[why] + r["h"].split("\n") + [where(binary, r["bt"])], seed=c.seed))
    shutil.rmtree(d, ignore_errors=True)


def known(c, p, r, why):
    for kf in c.known:
        m = kf.get("match", {})
        ops = {q[0] for t in p["p"] for q in t}
        if set(m.get("ops", ["?"])) <= ops and m.get("why", "") in why:
            c.known_hit.add(kf["id"])
            return True
    return False


def where(binary, bt):
    a = [hex(int(x)) for x in bt.split()][:14]
    if not a:
        return ""
    try:
        return subprocess.run(["addr2line", "-sfCe", binary, *a], capture_output=True, text=True, timeout=30).stdout
    except Exception:
        return ""


def again(c, binary, i, p, how):
    """runs the schedule once more: is the outcome still bad?"""
    how = how.replace("record ", "")
    d = c.sub()
    res = run(binary, d, [(i, p, 0, how)], c.seed, 120)
    for r in res:
        if "h" in r:
            ev, x = events(p, r["h"])
            if x or r["status"] or not judge(c, [(p, ev)], 1):
                return r
    return None


def replay(r):
    c = core.Check(r["property"])
    binary = core.build("sched", ["conc"])["conc"]
    x = again(c, binary, r["id"], r["program"], r["schedule"])
    for l in lines(r["id"], r["program"], 0, r["seed"], r["schedule"]):
        print(l)
    if x:
        print(x["status"] or "no order of the calls explains this history")
        print(x["h"])
        print(where(binary, x["bt"]))
    shutil.rmtree(c.work, ignore_errors=True)
    print("REPRODUCED" if x else "not reproduced")
    return 1 if x else 0
