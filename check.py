#!/usr/bin/env python3
"""check.py <property> quick|thorough     decide a property
   check.py replay <file>                 run one recorded failure again
   check.py setup                         build everything
   check.py campaign <name> [n] [seed]    debugging: run one campaign of Grammar.tla"""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import campaigns as CP

HB = os.path.join(ROOT, "harness", "target", "release", "rp-harness")
T0 = time.time()


def die(msg):
    print("ERROR", msg)
    sys.exit(2)


def build():
    os.makedirs(os.path.join(ROOT, "harness", "target"), exist_ok=True)
    with open(os.path.join(ROOT, "harness", "target", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # the modification time of a file says nothing about a tree that was copied or restored
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk("/repo/src")):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + open(p, "rb").read())
        stamp = os.path.join(ROOT, "harness", "target", ".stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            for p in ["/repo/src/lib.rs"]:
                pass
            subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "ruruby-parse"], cwd=os.path.join(ROOT, "harness"),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=os.path.join(ROOT, "harness"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            die("the harness does not build against /repo")
        open(stamp, "w").write(h.hexdigest())


def tla_set(v):
    return "{" + ", ".join('"%s"' % x for x in v) + "}"


def tla_seq(v):
    return "<<" + ", ".join('"%s"' % x for x in v) + ">>"


def module(name, c):
    host = c["host"]
    h = "[x \\in {%s} |-> %s]" % (", ".join('"%s"' % k for k in host),
                                   "CASE " + " [] ".join('x = "%s" -> %d' % kv for kv in host.items()) if host else "0")
    tla = f"""---- MODULE {name} ----
EXTENDS Grammar
cFeats == {tla_set(c['feats'])}
cBoost == {tla_set(c['boost'])}
cOps == {tla_set(c['ops'])}
cLeaves == {tla_seq(c['leaves'])}
cNames == {tla_seq(c['names'])}
cHost == {h}
====
"""
    cfg = f"""SPECIFICATION Spec
CONSTANTS
 Mode = "{c['mode']}"
 Feats <- cFeats
 Boost <- cBoost
 Ops <- cOps
 Leaves <- cLeaves
 Names <- cNames
 Start = "{c['start']}"
 MaxDepth = {c['depth']}
 MaxFuel = {c['fuel']}
 MaxStmts = {c['stmts']}
 MaxArgs = {c['args']}
 Host <- cHost
INVARIANTS TablesOK ForEmpty EndOK FuelOK
"""
    if c["mode"] == "sim":
        cfg += "PROPERTY Grow\n"
    return tla, cfg


ENV = dict(os.environ, JAVA_TOOL_OPTIONS="-Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -Xss64m -XX:+UseParallelGC")


class Tlc:
    """one run of TLC in its own directory; output goes to a file"""
    def __init__(self, run, tag, mod, cfg_extra, args, limit, mem="2500m"):
        self.tag, self.limit = tag, limit
        self.dir = os.path.join(run, tag)
        os.makedirs(self.dir)
        for f in os.listdir(os.path.join(ROOT, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(ROOT, "spec", f), self.dir)
        name, tla, cfg = mod
        if tla:
            open(os.path.join(self.dir, name + ".tla"), "w").write(tla)
        open(os.path.join(self.dir, name + ".cfg"), "w").write(cfg)
        self.out = os.path.join(self.dir, "out.txt")
        env = dict(ENV)
        env["JAVA_TOOL_OPTIONS"] += " -Xmx" + mem + " -Djava.io.tmpdir=" + self.dir
        self.cmd = ["tlc"] + args + ["-deadlock", "-metadir", os.path.join(self.dir, "states"), "-config", name + ".cfg", name + ".tla"]
        self.env = env
        self.p = None

    def start(self):
        self.t = time.time()
        self.f = open(self.out, "w")
        self.p = subprocess.Popen(self.cmd, cwd=self.dir, stdout=self.f, stderr=subprocess.STDOUT, env=self.env, start_new_session=True)

    def poll(self):
        r = self.p.poll()
        if r is None and time.time() - self.t > self.limit:
            os.killpg(self.p.pid, 9)
            self.p.wait()
            self.cut = True
            return 0
        return r

    cut = False

    def finish(self):
        self.f.close()
        gen = dist = traces = None
        err = []
        with open(self.out, errors="replace") as f:
            for l in f:
                if l.startswith('"@'):
                    continue
                if "Error:" in l or l.startswith("Error"):
                    err.append(l.strip())
                m = re.search(r"The number of states generated: ([\d,]+)", l)
                if m:
                    gen = int(m.group(1).replace(",", ""))
                m = re.search(r"Progress: ([\d,]+) states checked, ([\d,]+) traces", l)
                if m:
                    gen, traces = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
                m = re.search(r"Progress\(\d+\) at .*: ([\d,]+) states generated.*, ([\d,]+) distinct states found", l)
                if m:
                    gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
                m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
                if m:
                    gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        if err or (self.p.returncode != 0 and not self.cut):
            tail = open(self.out, errors="replace").read()[-3000:]
            die(f"TLC failed on {self.tag}: {err[:3]}\n{tail}")
        # simulation does not identify states: every one it visits counts, steps exclude the initial ones
        states = dist if dist is not None else (gen or 0)
        trans = (gen or 0) if dist is not None else max(0, (gen or 0) - (traces or 0))
        return states, trans


def run_all(jobs, width=8):
    todo, act = list(jobs), []
    while todo or act:
        while todo and len(act) < width:
            j = todo.pop(0)
            j.start()
            act.append(j)
        act = [j for j in act if j.poll() is None]
        time.sleep(0.05)


def grammar_jobs(run, name, c, tier, seed, shards=8):
    jobs = []
    c = dict(c)
    if tier == "thorough" and c["mode"] == "bfs":
        c.update(c["thorough"])
    tla, cfg = module("M_" + name, c)
    if c["mode"] == "bfs":
        jobs.append(Tlc(run, name, ("M_" + name, tla, cfg), "", ["-workers", "4"], 500 if tier == "quick" else 3000, mem="6g"))
    else:
        n = c[tier]
        k = min(shards, max(1, n // 1000))
        for i in range(k):
            s = int(hashlib.sha256(f"{name}/{seed}/{i}".encode()).hexdigest()[:12], 16)
            jobs.append(Tlc(run, f"{name}-{i}", ("M_" + name, tla, cfg), "", ["-simulate", f"num={n // k}", "-depth", "900", "-seed", str(s), "-workers", "1"],
                            300 if tier == "quick" else 3000))
    return jobs


def host_arg(c):
    return ",".join(f"{k}={v}" for k, v in c["host"].items())


def bounded():
    """a parser which eats memory without end must not take the machine with it"""
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def harness(args, run, tag, files, limit):
    """run the harness; a crash of the whole process is attributed to the text being parsed"""
    d = os.path.join(run, "cur-" + tag)
    os.makedirs(d, exist_ok=True)
    cmd = [HB] + args + ["--dir", d, "--"] + files
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, preexec_fn=bounded)
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        die(f"the harness did not finish {tag} in {limit} s")
    if p.returncode == 0:
        return json.loads(out)
    cands = []
    for f in sorted(os.listdir(d)):
        b = open(os.path.join(d, f), "rb").read()
        if len(b) >= 8:
            n = int.from_bytes(b[:8], "little")
            cands.append(b[8:8 + n].decode(errors="replace"))
    for t in cands:
        try:
            stack = [x for i, x in enumerate(args) if "--stack" in (x, args[i - 1])]
            q = subprocess.run([HB, "one"] + stack, input=t, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=30, preexec_fn=bounded)
            kind, how = "abort", f"the process ended with {q.returncode}: {q.stderr[-300:]}"
            bad = q.returncode != 0
        except subprocess.TimeoutExpired:
            kind, how, bad = "hang", "no result after 30 s", True
        if bad:
            return dict(programs=0, distinct=0, parses=0, n={}, heads={}, faults={}, fail_n={kind: 1}, samples=[], maxtok=0,
                        fails=[dict(kind=kind, text=t, expected="a tree or an error", got=how, trace="")])
    die(f"the harness ended with {p.returncode} on {tag}: {err[-2000:]}")


def counts_for(kinds, f):
    k = f["kind"]
    for x in kinds:
        if x == k or (x == "neg" and k.startswith("neg:")):
            return True
        if x == "neg-eof" and k.startswith("neg:") and f["got"].startswith("UnexpectedEOF"):
            return True
    # no answer at all is a failure for every property
    return k in ("abort", "hang", "spec", "harness")


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = CP.PROPS.get(prop) or die("unknown property " + prop)
    build()
    base = os.path.join(ROOT, "run")
    os.makedirs(base, exist_ok=True)
    run = tempfile.mkdtemp(prefix=f"{prop}-", dir=base)
    try:
        return decide(prop, tier, seed, P, run)
    finally:
        shutil.rmtree(run, ignore_errors=True)


def decide(prop, tier, seed, P, run):
    jobs, batches = [], []
    for name in P.get("grammar", []):
        c = CP.GRAMMAR[name]
        js = grammar_jobs(run, name, c, tier, seed)
        jobs += js
        a = ["replay", "--aspects", P["aspects"], "--layouts", str(P.get("layouts", c["layouts"])), "--seed", str(seed), "--host", host_arg(c)]
        batches.append((name, js, a))
    for name in P.get("cases", []):
        js, a = CP.case_jobs(sys.modules[__name__], run, name, tier, seed)
        jobs += js
        batches.append((name, js, a))
    # exhaustive runs first: they take longest
    jobs.sort(key=lambda j: 0 if "-simulate" not in j.cmd else 1)
    run_all(jobs)
    t_tlc = time.time() - T0
    states = trans = 0
    fails, cov, per = [], dict(n={}, heads={}, faults={}), {}
    programs = distinct = parses = 0
    samples = []
    for name, js, a in batches:
        st = [j.finish() for j in js]
        s, t = sum(x[0] for x in st), sum(x[1] for x in st)
        states += s
        trans += t
        r = harness(a, run, name, [j.out for j in js], 800 if tier == "quick" else 7200)
        for j in js:
            os.remove(j.out)
        per[name] = dict(states=s, transitions=t, behaviours=r["programs"], distinct=r["distinct"], parses=r["parses"], cut_short=any(j.cut for j in js))
        if r["programs"] == 0 and not r["fails"]:
            die(f"campaign {name} produced no behaviours")
        programs += r["programs"]
        distinct += r["distinct"]
        parses += r["parses"]
        for k in cov:
            for x, y in r[k].items():
                cov[k][x] = cov[k].get(x, 0) + y
        samples += r["samples"][:2]
        fails += [dict(f, campaign=name, args=a) for f in r["fails"] if counts_for(P["kinds"], f)]
    extra = {}
    for hook in P.get("extra", []):
        ef, ec = CP.EXTRA[hook](sys.modules[__name__], run, tier, seed)
        fails += ef
        extra.update(ec)
    if any(f["kind"] in ("spec", "harness") for f in fails):
        die("harness or specification error: " + json.dumps(fails[0])[:1500])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 1),
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=programs, distinct_behaviours=distinct,
                            parses_of_the_real_parser=parses, comparisons=cov["n"], tree_nodes_compared_by_kind=cov["heads"],
                            rejected_constructs=cov["faults"], campaigns=per, samples=samples[:6] or ["-"], tlc_s=round(t_tlc, 1), **extra))
    if any(f["kind"] in ("abort", "hang") for f in fails):
        ev["coverage"]["note"] = "stopped early by a crash or an endless parse"
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if fails:
        fails.sort(key=lambda f: len(f["text"]))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for i, f in enumerate(fails[:3]):
            path = os.path.join(ROOT, "replays", f"{prop}-{i}.json")
            json.dump(f, open(path, "w"), indent=1)
            print(f"{f['kind']} in campaign {f['campaign']}: {f['text']!r}\n  expected {f['expected'][:600]}\n  got      {f['got'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK property={prop} tier={tier}: {states} states, {programs} behaviours replayed, {parses} parses, {round(time.time() - T0, 1)} s")
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build()
        return 0
    if a[:1] == ["replay"]:
        build()
        f = json.load(open(a[1]))
        q = subprocess.run([HB, "one"], input=f["text"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        print("text     ", repr(f["text"]))
        print("expected ", f["expected"])
        print("recorded ", f["got"])
        print("now      ", q.stdout or f"exit {q.returncode} {q.stderr[-500:]}")
        return 0
    if a[:1] == ["campaign"]:
        build()
        c = dict(CP.GRAMMAR[a[1]])
        if c["mode"] == "sim" and len(a) > 2:
            c["quick"] = int(a[2])
        run = tempfile.mkdtemp(prefix="rpc-")
        js = grammar_jobs(run, a[1], c, "quick", int(a[3]) if len(a) > 3 else 1)
        run_all(js)
        print([j.finish() for j in js], round(time.time() - T0, 1))
        r = harness(["replay", "--aspects", os.environ.get("A", "ast,tbl,loc,eof,chunk,layout,det,neg"), "--layouts", os.environ.get("L", "2"), "--host", host_arg(c)], run, "c",
                    [j.out for j in js], 3000)
        json.dump(r, open("/tmp/w/r.json", "w"))
        print(r["programs"], r["distinct"], r["parses"], r["fail_n"], round(time.time() - T0, 1))
        if os.environ.get("V"):
            print(r["heads"], r["faults"], r["n"])
        for f in r["fails"][:8]:
            g = f["got"]
            print(f["kind"], repr(f["text"]), "\n   E", f["expected"][:300], "\n   G", g[g.find("diff:") if "diff:" in g else 0:][:400])
        shutil.rmtree(run)
        return 0
    if a[:1] == ["case"]:
        build()
        tier = os.environ.get("T", "quick")
        c = CP.CASES[a[1]]
        if c["sim"] and len(a) > 2:
            c["quick"] = int(a[2])
        run = tempfile.mkdtemp(prefix="rpc-")
        js, args = CP.case_jobs(sys.modules[__name__], run, a[1], tier, int(a[3]) if len(a) > 3 else 1)
        run_all(js)
        print([j.finish() for j in js], "cut" if any(j.cut for j in js) else "", round(time.time() - T0, 1))
        r = harness(args, run, "c", [j.out for j in js], 3000)
        print(r["programs"], r["distinct"], r["parses"], r["n"], r["fail_n"], round(time.time() - T0, 1))
        if os.environ.get("V"):
            print(r["heads"])
        seen = {}
        for f in r["fails"]:
            m = re.search(r'"c":"([^"]*)"', f.get("trace", "").replace("\\", ""))
            key = (f["kind"], m.group(1) if m else "")
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= int(os.environ.get("S", "3")):
                g = f["got"]
                print(f["kind"], repr(f["text"]), "\n   E", f["expected"][:300], "\n   G", g[g.find("diff:") if "diff:" in g else 0:][:400])
        shutil.rmtree(run)
        return 0
    if len(a) != 2 or a[1] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    return check(a[0], a[1])


if __name__ == "__main__":
    sys.exit(main())
