"""Framework: builds the library from /repo, runs TLC on the specifications, turns the explored
behaviours into scripts for the replayers, compares, and writes evidence.

Flow of a model-based check
  1. TLC explores Spec.tla under Cfg.cfg, checking its invariants/action properties, and prints
     every transition (an ACTION_CONSTRAINT) with the observation the specification requires.
  2. plan() covers every printed transition with walks from the initial state.
  3. the replayer executes the walks on the real code (ASan/UBSan build) and prints what it saw.
  4. every observation is compared; a difference or crash is re-run, then reported.
"""
import sys, os, json, time, hashlib, subprocess, shutil, random, re, fcntl, collections, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
NCPU = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """the check itself could not run (not a verdict about the code)"""


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(root, subs):
    h = hashlib.sha256()
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            h.update(s.encode() + b"\0" + open(p, "rb").read())
        else:
            for d, dn, fn in sorted(os.walk(p)):
                dn.sort()
                for f in sorted(fn):
                    fp = os.path.join(d, f)
                    if os.path.isfile(fp):
                        h.update(os.path.relpath(fp, root).encode() + b"\0" + open(fp, "rb").read() + b"\0")
    return h.hexdigest()


_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = tree_hash(REPO, ["CMakeLists.txt", "src", "include"])
    return _repo_hash


ASAN = "-O0 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
VARIANTS = {
    # name: (CXX flags, cmake options, link flags)
    "asan": (ASAN + " -DVF_ASAN", {"JNIVM_ENABLE_RETURN_NON_ZERO": "OFF"}, ""),
    "asan_nz": (ASAN + " -DVF_ASAN", {"JNIVM_ENABLE_RETURN_NON_ZERO": "ON", "VF_NONZERO": "1"}, ""),
    "asan_trace": (ASAN + " -DVF_ASAN", {"JNIVM_ENABLE_TRACE": "ON", "JNIVM_ENABLE_RETURN_NON_ZERO": "ON", "VF_NONZERO": "1"}, ""),
    "asan_nodebug": (ASAN + " -DVF_ASAN", {"JNIVM_ENABLE_DEBUG": "OFF"}, ""),
    "asan_compat": (ASAN + " -DVF_ASAN -DVF_COMPAT", {"JNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT": "ON"}, ""),
    "asan_fakegen": (ASAN + " -DVF_ASAN", {"JNIVM_USE_FAKE_JNI_CODEGEN": "ON"}, ""),
    "plain": ("-O0 -g1", {}, ""),
    "plain_fakegen": ("-O0 -g1", {"JNIVM_USE_FAKE_JNI_CODEGEN": "ON"}, ""),
    "sched": ("-O1 -g1 -DVF_SCHED", {"VF_SCHED": "1"}, ""),
}
# configurations the project itself does not build in its tests: if the current tree does not build in
# one of them, what it would add is skipped (and noted in the evidence)
OPTIONAL = {"asan_nodebug", "asan_compat"}
ALL_MODULES = sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".cpp"))


def build(variant, targets):
    """builds the named harness modules against the current tree of /repo; returns dict name->binary"""
    flags, opts, lflags = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    key = sha(repo_hash(), flags, json.dumps(opts), lflags)[:16]
    d = os.path.join(BUILD, f"{variant}-{key}")
    with open(os.path.join(BUILD, f"{variant}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # prune older trees of this variant
        olds = sorted((o for o in os.listdir(BUILD) if o.startswith(variant + "-") and o != os.path.basename(d)),
                      key=lambda o: os.path.getmtime(os.path.join(BUILD, o)))
        for o in olds[:-1]:
            shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        env = dict(os.environ)
        env.pop("CXXFLAGS", None); env.pop("CFLAGS", None); env.pop("LDFLAGS", None)
        cm = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", d, "-G", "Ninja", "-Wno-dev",
              f"-DREPO={REPO}", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_C_COMPILER=/usr/bin/gcc",
              f"-DCMAKE_CXX_FLAGS={flags} -w", f"-DCMAKE_C_FLAGS={flags} -w", f"-DCMAKE_EXE_LINKER_FLAGS={lflags} -fuse-ld=gold",
              "-DCMAKE_BUILD_TYPE=", "-DMODULES=" + ";".join(ALL_MODULES)]
        if shutil.which("ccache"):
            env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
            env["CCACHE_MAXSIZE"] = "500M"
            cm.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
        cm += [f"-D{k}={v}" for k, v in opts.items()]
        for cmd in (cm, ["ninja", "-C", d] + ["h_" + t for t in targets]):
            r = subprocess.run(cmd, capture_output=True, text=True, env=env)
            if r.returncode:
                # a cache problem must not decide anything: once more from scratch
                shutil.rmtree(d, ignore_errors=True)
                env.pop("CCACHE_DIR", None)
                cm2 = [c for c in cm if "COMPILER_LAUNCHER" not in c]
                r = subprocess.run(cm2, capture_output=True, text=True, env=env)
                r = r if r.returncode else subprocess.run(["ninja", "-C", d] + ["h_" + t for t in targets],
                                                          capture_output=True, text=True, env=env)
                if r.returncode:
                    raise CheckError(f"build of {variant} failed:\n" + "\n".join([l for l in (r.stdout + r.stderr).split("\n") if "rror" in l][:12]))
                break
        return {t: os.path.join(d, "h_" + t) for t in targets}


# ------------------------------------------------------------------ TLC

def tlc(spec, cfg, workdir, extra=(), timeout=800, heap="3g", workers="1", outfile=None, extra_files=None):
    """runs TLC on /verif/spec/<spec>.tla; output goes to a file; returns (exit code, path of the output)"""
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(VERIF, "spec", f), workdir)
    for n, c in (extra_files or {}).items():
        open(os.path.join(workdir, n), "w").write(c)
    out = outfile or os.path.join(workdir, "tlc.out")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-workers", workers,
           "-metadir", os.path.join(workdir, "md"), "-noGenerateSpecTE", "-config", cfg + ".cfg", *extra, spec + ".tla"]
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=workdir, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(os.path.join(workdir, "md"), ignore_errors=True)
    return rc, out


STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found")
COVER = re.compile(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)")


def parse_tlc(out):
    """(edges, sim records, statistics, coverage, error text)"""
    edges, sims, stats, cover, err = [], [], (0, 0), {}, []
    inerr = False
    with open(out) as f:
        for line in f:
            if line.startswith('"E '):
                edges.append(json.loads(json.loads(line)[2:]))
            elif line.startswith('"S '):
                sims.append(json.loads(json.loads(line)[2:]))
            else:
                m = STATS.match(line)
                if m:
                    stats = (int(m[1]), int(m[2]))
                    continue
                m = COVER.match(line)
                if m:
                    cover[m[1]] = (int(m[3]), int(m[4]))
                if line.startswith("Error:") or inerr:
                    inerr = not line.startswith(("The coverage", "End of"))
                    if len(err) < 60 and inerr:
                        err.append(line.rstrip())
    return edges, sims, stats, cover, "\n".join(err)


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Graph:
    def __init__(self, edges):
        self.ids = {}
        self.out = collections.defaultdict(list)   # state -> [(edge index)]
        self.edges = []
        seen = set()
        self.init = None
        for e in edges:
            s = self.sid(canon(e["s"]))
            t = self.sid(canon(e["t"]))
            l = e["l"]
            k = (s, canon([l["op"], l["args"]]))
            if (k, t, canon(l["obs"])) in seen:
                continue
            seen.add((k, t, canon(l["obs"])))
            self.out[s].append(len(self.edges))
            self.edges.append((s, t, l))
        self.init = 0

    def sid(self, k):
        return self.ids.setdefault(k, len(self.ids))

    def plan(self, rng, maxlen=60):
        """walks (lists of edge indices) from state 0 that cover every edge"""
        n = len(self.ids)
        # BFS tree from init
        par = [None] * n
        seen = [False] * n
        seen[0] = True
        dq = collections.deque([0])
        while dq:
            u = dq.popleft()
            for ei in self.out[u]:
                v = self.edges[ei][1]
                if not seen[v]:
                    seen[v] = True
                    par[v] = ei
                    dq.append(v)
        todo = {u: [ei for ei in self.out[u]] for u in range(n)}
        for l in todo.values():
            rng.shuffle(l)
        order = list(range(n))
        rng.shuffle(order)
        left = sum(len(l) for l in todo.values())
        walks = []
        pos = 0

        def path_to(u):
            p = []
            while u != 0:
                p.append(par[u])
                u = self.edges[par[u]][0]
            return p[::-1]

        def near(u, limit):
            """shortest path from u to a state with uncovered edges, bounded"""
            if todo[u]:
                return []
            pr = {u: None}
            q = collections.deque([(u, 0)])
            while q:
                x, dd = q.popleft()
                if dd >= limit:
                    continue
                for ei in self.out[x]:
                    v = self.edges[ei][1]
                    if v in pr:
                        continue
                    pr[v] = ei
                    if todo[v]:
                        p = []
                        while v != u:
                            p.append(pr[v])
                            v = self.edges[pr[v]][0]
                        return p[::-1]
                    if len(pr) > 400:
                        return None
                    q.append((v, dd + 1))
            return None

        while left:
            while pos < n and not todo[order[pos]]:
                pos += 1
            if pos >= n:
                break
            u = order[pos]
            if not seen[u]:
                raise CheckError("state graph is not connected from the initial state")
            w = path_to(u)
            for ei in w:
                l = todo[self.edges[ei][0]]
                if ei in l:
                    l.remove(ei); left -= 1
            cur = u
            while len(w) < maxlen:
                if todo[cur]:
                    ei = todo[cur].pop()
                    left -= 1
                    w.append(ei)
                    cur = self.edges[ei][1]
                    continue
                p = near(cur, 4)
                if not p:
                    break
                w += p
                cur = self.edges[p[-1]][1] if p else cur
            walks.append(w)
        return walks


def match(exp, got):
    if exp == "*":
        return True
    if isinstance(exp, dict) and isinstance(got, dict):
        return exp.keys() == got.keys() and all(match(exp[k], got[k]) for k in exp)
    if isinstance(exp, list) and isinstance(got, list):
        return len(exp) == len(got) and all(match(a, b) for a, b in zip(exp, got))
    # TLC cannot distinguish an empty sequence from an empty record/function
    if exp == [] and got == {} or exp == {} and got == []:
        return True
    return type(exp) is type(got) and exp == got


def script_line(l):
    return " ".join([str(l["op"])] + [tok(a) for a in l["args"]])


def tok(a):
    if isinstance(a, bool):
        return "1" if a else "0"
    if isinstance(a, (list, tuple)):
        return ",".join(tok(x) for x in a) if a else "-"
    s = str(a)
    return s if s else "-"


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.cov["runs"] = []
        self.violations = []
        self.assumptions = []
        self.level = "model_checking"
        self.work = os.path.join(WORK, f"{prop}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.n = 0
        self.known = load_known(prop)
        self.known_hit = set()
        self.unconfirmed = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, salt=""):
        return random.Random(f"{self.seed}/{self.prop}/{salt}")

    def sub(self):
        self.n += 1
        d = os.path.join(self.work, str(self.n))
        os.makedirs(d)
        return d

    def skip(self, variant, module):
        if variant not in OPTIONAL:
            return False
        try:
            build(variant, [module])
            return False
        except CheckError as e:
            self.cov.setdefault("skipped", []).append(f"{variant}: the current tree does not build in this configuration")
            log(f"  note: {variant} skipped: {str(e)[:300]}")
            return True

    # ---- spec -> implementation, exhaustive
    def graph(self, spec, cfg, module, variant="asan", maxlen=60, fini=None, defs=None, prefix=(), env=None, extra_variants=(), timeout=800, jobs=None, unused=(), need=None):
        if self.fast_stop():
            return
        if self.skip(variant, module):
            return
        extra_variants = [v for v in extra_variants if not self.skip(v, module)]
        d = self.sub()
        t = time.time()
        with concurrent.futures.ThreadPoolExecutor() as ex:
            fb = [ex.submit(build, v, [module]) for v in (variant, *extra_variants)]
            rc, out = tlc(spec, cfg, d, extra=["-coverage", "1", "-deadlock"] if False else ["-coverage", "1"], timeout=timeout)
            edges, _, stats, cover, err = parse_tlc(out)
            bins = [f.result()[module] for f in fb]
        if rc != 0:
            raise CheckError(f"TLC on {spec}/{cfg} exited {rc}: {err[:3000]}")
        if not edges:
            raise CheckError(f"TLC on {spec}/{cfg} printed no transition")
        tt = time.time() - t
        if need is not None:      # actions of one operator: judged by the operations of the transitions instead
            never = sorted(set(need.split()) ^ {e["l"]["op"] for e in edges})
            if never:
                raise CheckError(f"{spec}/{cfg}: the operations are not the expected ones: {never}")
        never = [] if need is not None else sorted(a for a, (x, y) in cover.items() if y == 0 and a != "Init" and a not in unused and not (unused and a == "Next"))
        if never:
            raise CheckError(f"{spec}/{cfg}: actions never taken (vacuous): {never}")
        g = Graph(edges)
        del edges
        walks = g.plan(self.rng(spec + cfg), maxlen)
        script = [[g.edges[ei][2] for ei in w] for w in walks]
        self.cov["states"] += len(g.ids)
        self.cov["transitions"] += len(g.edges)
        ops = collections.Counter(e[2]["op"] for e in g.edges)
        run = dict(spec=spec, cfg=cfg, module=module, mode="exhaustive graph, every transition replayed", states=len(g.ids),
                   transitions=len(g.edges), walks=len(walks), steps=sum(map(len, walks)), per_operation=dict(ops), tlc_s=round(tt, 1))
        for v, b in zip((variant, *extra_variants), bins):
            self.replay_both(run, script, b, module, v, fini, prefix, env, spec + "/" + cfg, jobs=jobs)
        self.cov["runs"].append(run)
        if script and len(self.cov["samples"]) < 6:
            w = max(script[:50], key=len)
            self.cov["samples"].append(dict(spec=spec, cfg=cfg, walk=[[script_line(l), l["obs"]] for l in w[:8]]))
        log(f"  {spec}/{cfg}: {len(g.ids)} states, {len(g.edges)} transitions, {len(walks)} walks, {run['steps']} steps; "
            + ", ".join(f"{k}={v}" for k, v in run.items() if k.endswith("_s") or "replay_s" in k))

    # ---- spec -> implementation, random deep behaviours
    def simulate(self, spec, cfg, module, num, depth, variant="asan", fini=None, prefix=(), env=None, timeout=800, procs=None, jobs=None):
        if self.fast_stop():
            return
        if self.skip(variant, module):
            return
        d = self.sub()
        t = time.time()
        procs = procs or (NCPU if self.thorough else min(4, NCPU))
        per = max(1, num // procs)

        def one(i):
            dd = os.path.join(d, str(i))
            rc, out = tlc(spec, cfg, dd, extra=["-simulate", f"num={per}", "-depth", str(depth), "-seed", str(self.seed * 1000 + i)],
                          timeout=timeout, heap="1g")
            _, sims, stats, cover, err = parse_tlc(out)
            if rc != 0:
                raise CheckError(f"TLC -simulate on {spec}/{cfg} exited {rc}: {err[:3000]}")
            # TLC prints every candidate successor of a step: the one taken is the one the next step starts from
            traces, groups, lv = [], [], None

            def chain(groups):
                if not groups:
                    return
                w, want = [], None
                for g in reversed(groups):
                    c = [r for r in g if want is None or canon(r["t"]) == want]
                    if not c:
                        raise CheckError(f"simulation of {spec}/{cfg}: the printed steps do not form a behaviour")
                    w.append(c[-1]["l"])
                    want = canon(c[-1]["s"])
                    # all candidates of one step share their source state
                traces.append(w[::-1])
            for r in sims:
                if lv is None or r["lv"] < lv:
                    chain(groups)
                    groups = []
                if r["lv"] != lv or not groups:
                    groups.append([])
                groups[-1].append(r)
                lv = r["lv"]
            chain(groups)
            return traces
        with concurrent.futures.ThreadPoolExecutor() as ex:
            fb = ex.submit(build, variant, [module])
            script = [tr for ts in ex.map(one, range(procs)) for tr in ts if tr]
            b = fb.result()[module]
        tt = time.time() - t
        if not script:
            raise CheckError(f"simulation of {spec}/{cfg} printed no trace")
        t = time.time()
        run = dict()
        self.replay_both(run, script, b, module, variant, fini, prefix, env, spec + "/" + cfg, jobs=jobs)
        steps = sum(map(len, script))
        ops = collections.Counter(l["op"] for w in script for l in w)
        self.cov["runs"].append(dict(run, spec=spec, cfg=cfg, module=module, mode="random behaviours (-simulate)", walks=len(script), steps=steps,
                                     per_operation=dict(ops), tlc_s=round(tt, 1)))
        self.cov["transitions"] += len({canon(l) for w in script for l in w})
        log(f"  {spec}/{cfg} simulate: {len(script)} behaviours, {steps} steps; tlc={tt:.1f}s replay={time.time()-t:.1f}s")

    # ---- running scripts on the real code
    def run_script(self, binary, walks, ids, d, prefix=(), env=None, timeout=600):
        """returns {walk id: [observations]}, tail (crash/hang text or None)"""
        os.makedirs(d, exist_ok=True)
        sp, op, lp = (os.path.join(d, x) for x in ("script", "obs", "log"))
        with open(sp, "w") as f:
            for i in ids:
                f.write(f"W {i}\n")
                for p in prefix:
                    f.write(p + "\n")
                for l in walks[i]:
                    f.write(script_line(l) + "\n")
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=67", TMPDIR=d)
        e.update(env or {})
        if e.pop("VF_REUSE", None):
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("quarantine_size_mb=64", "quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
        open(op, "w").close()
        with open(lp, "w") as lf:
            try:
                rc = subprocess.run([binary, sp, op], stdout=lf, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d, stdin=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        res, cur, ended = {}, None, False
        with open(op) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("W "):
                    cur = res[int(line[2:])] = []
                elif line == "!END":
                    ended = True
                elif line.startswith("!"):
                    pass
                elif cur is not None:
                    cur.append(line)
        tail = None
        if not ended or rc != 0:
            with open(lp, errors="replace") as f:
                f.seek(max(0, os.path.getsize(lp) - 200000))
                txt = f.read()
            m = re.search(r"==\d+==ERROR.*", txt) or re.search(r".*runtime error:.*", txt) or re.search(r"terminate called.*(\n.*)?", txt)
            hang = "!HANG" in open(op).read()[-64:]
            tail = f"exit={rc} " + ("operation did not return (hang/deadlock)" if hang else (m.group(0)[:400] if m else txt[-300:]))
            if m:
                fr = [re.sub(r" \(/\S+\)( \(BuildId.*?\))?", "", x)[:160] for x in re.findall(r"^\s+#\d+ .*? in (.*)$", txt[m.start():], re.M)[:6]]
                tail += " | " + " <- ".join(fr)
        os.unlink(lp)
        return res, tail

    def first_bad(self, walk, obs, tail, fini, nprefix):
        """index of the first step whose observation differs, or None"""
        obs = obs[nprefix:]
        exp = [l["obs"] for l in walk] + ([fini] if fini is not None else ["*"])
        for i, x in enumerate(exp):
            if i >= len(obs):
                return i, (tail or "no observation")
            try:
                g = json.loads(obs[i])
            except ValueError:
                return i, "unparsable " + obs[i][:200]
            if not match(x, g):
                return i, g
        return None

    def replay_both(self, run, script, binary, module, variant, fini, prefix, env, origin, jobs=None):
        """as it is, and with freed memory handed out again at once (addresses of dead objects return in new ones)"""
        for mode, e in (("", {}), ("_reuse", dict(VF_REUSE="1"))):
            if mode and not variant.startswith("asan"):
                continue
            t = time.time()
            self.cov["traces_validated_against_impl"] += self.replay(script, binary, module, variant, fini, prefix, dict(env or {}, **e), origin, jobs)
            run["replay_s_" + variant + mode] = round(time.time() - t, 1)
            if self.violations:
                return

    def replay(self, script, binary, module, variant, fini, prefix, env, origin, jobs=None):
        n = len(script)
        jobs = min(jobs or NCPU, n)
        shards = [list(range(j, n, jobs)) for j in range(jobs)]
        d = self.sub()
        bad = []
        done = 0
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            futs = {ex.submit(self.run_script, binary, script, s, os.path.join(d, str(j)), prefix, env): s for j, s in enumerate(shards)}
            for f, s in futs.items():
                res, tail = f.result()
                for i in s:
                    if i not in res:
                        break
                    b = self.first_bad(script[i], res[i], tail, fini, len(prefix))
                    if b is None:
                        done += 1
                    else:
                        bad.append((i, *b, s))
                if tail and not any(i in s for i, *_ in bad):
                    last = [i for i in s if i in res]
                    bad.append((last[-1] if last else s[0], len(script[last[-1]]) if last else 0, tail, s))
        shutil.rmtree(d, ignore_errors=True)
        for i, k, got, shard in bad:
            if len(self.violations) >= 3:
                break
            w = script[i]
            kf = self.is_known(module, variant, w, k, got)
            if kf:
                continue
            # confirm: the same walk again, alone
            ok = False
            for a in range(3):
                res, tail = self.run_script(binary, script, [i], self.sub(), prefix, env, timeout=120)
                b = self.first_bad(w, res.get(i, []), tail, fini, len(prefix))
                if b is not None or tail:
                    if b is not None:
                        k, got = b
                    ok = True
                    break
            # or after the worlds that lived in the same process before: something outlives its VM
            before = []
            if not ok:
                pre = shard[:shard.index(i)]
                for n in sorted({min(m, len(pre)) for m in (1, 8, 64, 512, len(pre))} - {0}):
                    res, tail = self.run_script(binary, script, pre[-n:] + [i], self.sub(), prefix, env, timeout=300)
                    b = self.first_bad(w, res[i], tail, fini, len(prefix)) if i in res else None
                    if b is not None:
                        k, got = b
                        ok, before = True, pre[-n:]
                        break
            if not ok:
                self.unconfirmed += 1
                log(f"  note: a difference in {origin} walk {i} step {k} did not repeat: {str(got)[:300]}")
                continue
            self.violation(dict(kind="replay", origin=origin, module=module, variant=variant, prefix=list(prefix), env=env or {},
                                script=[script_line(l) for l in w[:k + 1]], expected=[l["obs"] for l in w[:k + 1]],
                                before=[[script_line(l) for l in script[x]] for x in before], step=k, operation=script_line(w[k]) if k < len(w) else "end of world",
                                want=w[k]["obs"] if k < len(w) else fini, got=got, fini=fini))
        return done

    def is_known(self, module, variant, walk, k, got):
        for kf in self.known:
            m = kf.get("match", {})
            if m.get("module") not in (None, module):
                continue
            op = script_line(walk[k]) if k < len(walk) else "end"
            if "op" in m and not re.fullmatch(m["op"], op):
                continue
            if "got" in m and not re.fullmatch(m["got"], got if isinstance(got, str) else canon(got)):
                continue
            if "needs" in m and not any(re.fullmatch(m["needs"], script_line(l)) for l in walk[:k]):
                continue
            self.known_hit.add(kf["id"])
            return True
        return False

    def fast_stop(self):
        """Development only (mutation campaigns): with VF_FAST set, the first violation ends the check."""
        return bool(self.violations and os.environ.get("VF_FAST"))

    def violation(self, info):
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", f"{self.prop}-{len(self.violations)}.json")
        info = dict(property=self.prop, repo=repo_hash(), **info)
        json.dump(info, open(path, "w"), indent=1)
        self.violations.append(path)
        log(f"  property {self.prop}: {info.get('origin')} step {info.get('step')} `{info.get('operation')}`")
        log(f"    expected {canon(info.get('want'))[:600]}")
        log(f"    got      {canon(info.get('got'))[:1200]}")
        log(f"VIOLATION property={self.prop} replay={path}")

    def finish(self):
        for kf in self.known:
            log(f"KNOWN-FINDING: property={self.prop} {kf['what']}")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        self.cov["unconfirmed_differences"] = self.unconfirmed
        self.cov["known_findings_seen"] = sorted(self.known_hit)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        log(f"{self.prop} [{self.tier}] {'VIOLATED' if self.violations else 'held'}: {self.cov['states']} states, {self.cov['transitions']} transitions, "
            f"{self.cov['traces_validated_against_impl']} behaviours on the real code, {ev['wall_s']} s")
        return 1 if self.violations else 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "known"]
