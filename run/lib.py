"""Common machinery of the checks: building the driver from /repo's working
tree, running TLC, collecting verdicts and evidence."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import corpus as histories

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "/opt/veriftools/tla"
JARS = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
GOENV = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GONOSUMDB": "*", "GONOSUMCHECK": "1"}


class CheckError(Exception):
    """The check itself went wrong: no verdict."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="xwv-%s-" % pid)
        self.spec = os.path.join(self.tmp, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.violations = []      # [(summary, replay)]
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.detail = {}
        self.n = 0
        self.exhaustive = []
        self.assumptions = []

    @property
    def quick(self):
        return self.tier != "thorough"

    def path(self, name):
        return os.path.join(self.tmp, name)

    def uniq(self, name):
        self.n += 1
        return self.path("%d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, cap=8):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    # -- building -----------------------------------------------------------
    def build(self, race=False):
        out = self.path("driver-race" if race else "driver")
        env = dict(os.environ, **GOENV)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "driver"), env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("driver does not build against /repo:\n" + p.stderr[-4000:])
        if race:
            self.race_driver = out
        else:
            self.driver = out
        return out

    def drive(self, args, timeout=300, race=False, ok=(0,), env=None):
        p = subprocess.run([self.race_driver if race else self.driver] + [str(a) for a in args],
                           capture_output=True, text=True, timeout=timeout, errors="replace",
                           env=dict(os.environ, **(env or {})))
        if p.returncode == 3 and '{"hung"' in p.stdout:
            op = json.loads(p.stdout.strip().splitlines()[-1])["hung"]
            self.violate("a call does not return: %s" % show_op(op), {"driver": [str(a) for a in args], "op": op})
            raise CheckError("driver %s stopped" % args[0])
        if p.returncode not in ok and "stack overflow" in p.stderr and "xmlwriter" in p.stderr:
            self.violate("a call does not return: the stack overflows", {"driver": [str(a) for a in args], "stack": p.stderr[:6000]})
        if p.returncode not in ok:
            raise CheckError("driver %s failed (%d):\n%s" % (args[0], p.returncode, (p.stderr or p.stdout)[-4000:]))
        if race:
            return p
        lines = [l for l in p.stdout.splitlines() if l.strip()]
        return json.loads(lines[-1]) if lines else {}

    def run(self, args, timeout=300):
        return subprocess.run([self.driver] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, errors="replace")

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=4, timeout=600, heap="4g", judging=False):
        """Runs TLC; returns the path of its output, the states and the
        transitions.  Where it judges recorded runs, it is stopped after many
        differences (a changed writer can make each of them slow), and what it
        established before it was stopped, or ran out of time, stands: states
        is then None."""
        cfgp = self.uniq(module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        outp = self.uniq(module + ".out")
        meta = self.uniq("meta")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        with open(outp, "w") as f:
            p = subprocess.Popen(cmd, cwd=self.spec, env=e, stdout=f, stderr=subprocess.STDOUT)
            end, differ, late = time.time() + timeout, 0, False
            while p.poll() is None:
                try:
                    p.wait(2)
                except subprocess.TimeoutExpired:
                    late = time.time() > end
                    differ = differences(outp) if judging else 0
                    if late or differ > ENOUGH:
                        p.kill()
                        p.wait()
        if judging and p.returncode != 0 and differences(outp):
            shutil.rmtree(meta, ignore_errors=True)
            return outp, None, None
        if late:
            raise CheckError("TLC on %s took longer than %d s" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        states = trans = None
        fin = False
        err = []
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"@'):
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", line)
                if m:
                    trans, states = int(m.group(1)), int(m.group(2))
                if line.startswith("Model checking completed. No error"):
                    fin = True
                if line.startswith("Error:") or err:
                    err.append(line.rstrip())
        if p.returncode != 0 or not fin:
            raise CheckError("TLC on %s failed (%s):\n%s" % (module, p.returncode, "\n".join(err[:60])))
        return outp, states, trans

    def messages(self, outp, tag):
        """The messages the specification printed."""
        pre = '"@' + tag + " "
        res = []
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith(pre) and line.endswith("\n"):
                    s = json.loads(line.strip())
                    res.append(s[len(tag) + 2:])
        return res

    # -- verdicts -----------------------------------------------------------
    def violate(self, summary, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        rp = os.path.join(d, "%s-%d.json" % (self.pid, n))
        if n <= 20:
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "summary": summary, "data": data}, f)
        self.violations.append((summary, rp))

    def finding(self, ident, data=None):
        """A recorded defect was met again; anything unrecorded is a violation."""
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line)
                if m and m.group(1) == self.pid and m.group(2) == ident:
                    text = "%s: %s" % (ident, m.group(3))
                    if text not in self.known:
                        self.known.append(text)
                    return
        self.violate("finding %s is not recorded for this property" % ident, data)

    def evidence(self, level):
        ev = {"property": self.pid, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": self.seed,
              "level": level, "coverage": dict(self.cov), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        ev["coverage"].update(self.detail)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


# -- strings ----------------------------------------------------------------
def show(ints, cap=200):
    """A sequence of code points / negated bytes, readable."""
    if isinstance(ints, str):
        return ints
    out = []
    for c in ints[:cap]:
        if c < 0:
            out.append("\\x%02x" % -c)
        elif c == 92:
            out.append("\\\\")
        elif 32 <= c < 127:
            out.append(chr(c))
        elif c == 10:
            out.append("\\n")
        elif c == 13:
            out.append("\\r")
        elif c == 9:
            out.append("\\t")
        else:
            out.append("\\u{%x}" % c)
    return "".join(out) + ("..." if len(ints) > cap else "")


def show_node(n):
    parts = []
    for k, v in n.items():
        if k == "k" or v in ([], False, None):
            continue
        if k in ("at", "c"):
            parts.append("%s=[%s]" % (k, ", ".join(show_node(x) for x in v[:6])))
        elif k in ("fv", "fe"):
            parts.append("%s=%r" % (k, [show(x) for x in v]))
        elif isinstance(v, list):
            parts.append("%s='%s'" % (k, show(v, 60)))
        else:
            parts.append("%s=%s" % (k, v))
    return n["k"] + "{" + " ".join(parts) + "}"


def show_op(op):
    o = op["o"]
    if o in ("start", "write", "attrs"):
        return "%s(%s)" % (o, ", ".join(show_node(n) for n in op["ns"][:6]))
    if o == "block":
        return "block(%s; %s)" % (show_node(op["n"]), ", ".join(show_node(n) for n in op["ns"][:6]))
    if o in ("end", "endto"):
        return "%s(%s%s%s)" % (o, op["k"], ",to %d" % op["d"] if o == "endto" else "",
                               "".join("," + show(x) for x in op["names"]))
    if o == "endfull":
        return "endfull(%s)" % ",".join(show(x) for x in op["names"])
    if o == "setind":
        return "setind(%s)" % op["k"]
    if o == "rep":
        return "%d x (%s)" % (op["d"], "; ".join(show_op(x) for x in op["ops"]))
    if o in ("setver", "setnl", "setistr"):
        return "%s('%s')" % (o, show(op["s"]))
    if o.startswith("set"):
        return "%s(%s)" % (o, op["v"])
    return o


def show_trace(t, upto=None):
    return {"cfg": {k: (show(v) if isinstance(v, list) else v) for k, v in t["cfg"].items()},
            "calls": ["%s -> %s%s depth %d" % (show_op(e["op"]), "error " if e["err"] else "", repr(show(e["out"])), e["dep"])
                      for e in t["ev"][:upto]]}


def read_trace(path, wanted):
    """Lines of an ndjson file by id."""
    out = {}
    with open(path) as f:
        for line in f:
            m = re.match(r'\{"id":(\d+),', line)
            if m and int(m.group(1)) in wanted:
                out[int(m.group(1))] = json.loads(line)
    return out


def parallel(jobs):
    """Runs thunks in threads; the first exception is raised."""
    with cf.ThreadPoolExecutor(max_workers=max(1, len(jobs))) as ex:
        futs = [ex.submit(j) for j in jobs]
        return [f.result() for f in futs]


def parts(ctx, path, limit=48 << 20):
    """A file of lines in pieces TLC can hold."""
    if os.path.getsize(path) <= limit:
        yield path
        return
    out, size, p = None, 0, None
    with open(path) as f:
        for line in f:
            if out is None or size + len(line) > limit:
                if out:
                    out.close()
                    yield p
                p = ctx.uniq("part.ndjson")
                out, size = open(p, "w"), 0
            out.write(line)
            size += len(line)
    out.close()
    yield p


# -- the writer against XmlWriter.tla ----------------------------------------
TRACE_CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"


ENOUGH = 60


def differences(outp):
    with open(outp, "rb") as f:
        return sum(1 for line in f if line.startswith(b'"@MISMATCH '))


def validate(ctx, path, label, workers=4, timeout=800, count=True):
    """Validates recorded runs with TraceWriter; records violations."""
    done, bad = {}, {}
    for part in parts(ctx, path):
        outp, whole, _ = ctx.tlc("TraceWriter", TRACE_CFG, env={"TRACE": part}, workers=workers, timeout=timeout, judging=True)
        for m in ctx.messages(outp, "DONE"):
            f = m.split(" ")
            done[int(f[0])] = f
        for m in ctx.messages(outp, "MISMATCH"):
            d = json.loads(m)
            bad.setdefault(d["id"], d)
        for m in sorted(set(ctx.messages(outp, "KNOWN"))):
            kind, ident = m.split(" ")
            if kind == "whole" or ctx.pid == "C13":
                ctx.finding(ident)
        os.unlink(outp)
        if part != path:
            os.unlink(part)
        if whole is None:
            break
    with open(path) as f:
        total = sum(1 for line in f if line.strip())
    if len(done) != total and not bad:
        raise CheckError("only %d of %d runs were validated (%s)" % (len(done), total, label))
    steps = sum(int(f[1]) for f in done.values())
    whole = sum(1 for f in done.values() if int(f[3]) > 0)
    if count:
        ctx.add("traces_validated_against_impl", total)
        ctx.add("trace_steps", steps)
        if whole:
            ctx.add("whole_documents_read_back", whole)
            ctx.add("reader_events", sum(int(f[3]) for f in done.values()))
    traces = read_trace(path, set(list(bad)[:20]) | set(sorted(done)[:1]))
    if count and done:
        first = traces.get(min(done))
        if first:
            ctx.sample({"run": label, **show_trace(first, 6)})
    for i, d in list(bad.items())[:20]:
        t = traces.get(i)
        what = "%s: %s at call %d" % (label, d["kind"], d["l"])
        if "op" in d:
            what += " %s: got err=%s depth=%d out='%s', specified %s depth=%d out='%s'" % (
                show_op(d["op"]), d["got"]["err"], d["got"]["dep"], show(d["got"]["out"]),
                d["want"]["res"], d["want"]["dep"], show(d["want"]["out"]))
        if "doc" in d:
            what += ": '%s' (%s)" % (show(d["doc"], 400), d.get("why", ""))
        ctx.violate(what, {"trace": t, "mismatch": d})
    return len(bad)


def mc(ctx, alphabet, maxops, maxopen, memory, close=0, evs=False, judge="step", workers=2, timeout=800):
    """Explores the bounded model and replays every transition on the code."""
    cfg = ('CONSTANTS Alphabet = "%s" MaxOps = %d MaxOpen = %d Memory = %d Emit01 = 1 Close01 = %d\n'
           "SPECIFICATION Spec0\nVIEW View\nINVARIANTS TypeOk NestingOk IndentLevelOk\nCHECK_DEADLOCK FALSE\n"
           % (alphabet, maxops, maxopen, memory, close))
    replay(ctx, "MCWriter", cfg, alphabet, evs, judge, workers, timeout,
           {"alphabet": alphabet, "max_calls": maxops, "max_open": maxopen, "memory": memory, "closed": bool(close)})


def mc_many(ctx, maxops, maxopen=3, workers=2, timeout=800):
    cfg = ("CONSTANTS NWriters = 2 MaxOps = %d MaxOpen = %d\n"
           "SPECIFICATION Spec0\nINVARIANT Independent\nCHECK_DEADLOCK FALSE\n" % (maxops, maxopen))
    replay(ctx, "MCMany", cfg, "many", False, "step", workers, timeout,
           {"writers": 2, "max_calls": maxops, "max_open": maxopen}, ["-many"])


def replay(ctx, module, cfg, alphabet, evs, judge, workers, timeout, bounds, extra=()):
    outp, states, _ = ctx.tlc(module, cfg, workers=workers, timeout=timeout, heap="6g")
    bad = ctx.uniq("bad.ndjson")
    args = ["replay", "-mc", outp, "-o", bad, "-judge", judge] + list(extra)
    if evs:
        args.append("-evs")
    r = ctx.drive(args, timeout=timeout)
    os.unlink(outp)
    if not r.get("transitions"):
        raise CheckError("the model %s has no transitions" % alphabet)
    ctx.add("states", states)
    ctx.add("transitions", r["transitions"])
    ctx.add("replayed_calls", r["steps"])
    ctx.detail.setdefault("models", []).append(
        {**bounds, "distinct_states": states, "transitions_replayed": r["transitions"], "accepted": r["accepted"],
         "distinct_outcomes": r["distinct"], "differ": r["differ"]})
    if r["differ"]:
        n = validate(ctx, bad, "model " + alphabet, count=False)
        if n == 0 and "step" in judge.split(","):
            raise CheckError("replay of %s differs but trace validation agrees: %s" % (alphabet, r["differ"]))


def traces(ctx, profile, n, judge=("step",), seed=0, workers=4, timeout=800, evs=False):
    """Random runs of the real writer, validated."""
    path = ctx.uniq(profile + ".ndjson")
    args = ["gen", "-profile", profile, "-seed", ctx.seed * 100 + seed, "-n", n, "-o", path]
    for j in judge:
        args.append("-" + j)
    if evs:
        args.append("-evs")
    ctx.drive(args, timeout=timeout)
    validate(ctx, path, profile, workers=workers, timeout=timeout)
    os.unlink(path)


def corpus(ctx, judge=("step",), evs=False, distances=(), counts=(), depths=()):
    """Fixed histories, made on the code and validated."""
    j = {k: k in judge for k in ("step", "wf", "tree")}
    j["evs"] = evs
    given, path = ctx.uniq("corpus.in"), ctx.uniq("corpus.ndjson")
    with open(given, "w") as f:
        for t in histories.lines(j, distances, counts, depths):
            # whole documents: nothing but what the history says
            if "step" in judge or not (t["cfg"]["rec"] or any(e["op"]["o"].startswith("set") for e in t["ev"])):
                t["cfg"]["rec"] = t["cfg"]["rec"] or evs
                if "tree" in judge:
                    t["cfg"]["ind"] = "none"
                f.write(json.dumps(t) + "\n")
    ctx.drive(["rerun", "-i", given, "-o", path])
    validate(ctx, path, "corpus")


def judged(ctx, module, path, label, describe, workers=4, timeout=800, env=None, heap="4g"):
    """Runs a judging module over the lines of a file.  The module prints
    "@DONE id n ..." for every line it judged and "@MISMATCH json" for every
    difference; every line must be judged."""
    done, bad = {}, {}
    for part in parts(ctx, path):
        outp, whole, _ = ctx.tlc(module, TRACE_CFG, env=dict(env or {}, TRACE=part), workers=workers, timeout=timeout, heap=heap, judging=True)
        for m in ctx.messages(outp, "DONE"):
            f = m.split(" ")
            done[int(f[0])] = f
        for m in ctx.messages(outp, "MISMATCH"):
            d = json.loads(m)
            bad.setdefault(d["id"], d)
        for m in sorted(set(ctx.messages(outp, "KNOWN"))):
            ctx.finding(m)
        os.unlink(outp)
        if part != path:
            os.unlink(part)
        if whole is None:
            break
    with open(path) as f:
        total = sum(1 for line in f if line.strip())
    if (len(done) != total and not bad) or total == 0:
        raise CheckError("only %d of %d lines were judged (%s)" % (len(done), total, label))
    lines = read_trace(path, set(list(bad)[:20])) if bad else {}
    for i, d in list(bad.items())[:20]:
        if d.get("kind") == "driver":
            raise CheckError("the driver and the specification disagree on what was run (%s): %s" % (label, json.dumps(d)[:1500]))
        ctx.violate("%s: %s" % (label, describe(d)), {"line": lines.get(i), "mismatch": d})
    return done


def expand(ctx, n, seed=0, profile="inline", workers=4, timeout=800):
    """C08: histories as structured calls and as single calls."""
    path = ctx.uniq("expand.ndjson")
    r = ctx.drive(["expand", "-profile", profile, "-seed", ctx.seed * 100 + seed, "-n", n, "-o", path], timeout=timeout)

    def describe(d):
        return "%s differs at call %d %s: whole err=%s out='%s', in parts err=%s out='%s'" % (
            d["kind"], d["l"], show_op(d["op"]), d["whole"]["err"], show(d["whole"]["out"]), d["parts"]["err"], show(d["parts"]["out"]))
    done = judged(ctx, "TraceExpand", path, "expansion", describe, workers, timeout)
    ctx.add("traces_validated_against_impl", len(done))
    ctx.add("expanded_calls_compared", sum(int(f[1]) for f in done.values()))
    ctx.add("single_calls_run", r["steps"])
    os.unlink(path)


def show_call(r):
    return "%s -> %s'%s' depth %d" % (show_op(r["op"]), "error " if r["err"] else "", show(r["out"]), r["dep"])


def lax(ctx, n, seed=0, workers=3, timeout=800):
    """C14: histories with validation on, and their accepted calls with it off."""
    path = ctx.uniq("lax.ndjson")
    ctx.drive(["lax", "-seed", ctx.seed * 100 + seed, "-n", n, "-o", path], timeout=timeout)
    done = judged(ctx, "TraceTwin", path, "validation off",
                  lambda d: "%s differs at call %d: on: %s; off: %s" % (d["kind"], d["l"], show_call(d["a"]), show_call(d["b"])),
                  workers, timeout)
    ctx.add("traces_validated_against_impl", len(done))
    ctx.add("twin_calls_compared", sum(int(f[1]) for f in done.values()))
    os.unlink(path)


def many(ctx, n, conc, seed=0, workers=3, timeout=800):
    """C20: groups of writers sharing options and node values."""
    path, nodes = ctx.uniq("many.ndjson"), ctx.uniq("nodes.ndjson")
    args = ["many", "-seed", ctx.seed * 100 + seed, "-n", n, "-o", path, "-nodes", nodes]
    what = "concurrent writers" if conc else "interleaved writers"
    if conc:
        p = ctx.drive(args + ["-conc"], timeout=timeout, race=True, ok=(0, 66))
        if p.returncode == 66 or "DATA RACE" in p.stderr:
            i = p.stderr.find("WARNING: DATA RACE")
            ctx.violate("data race between independent writers", {"args": args[1:], "report": p.stderr[i:i + 6000]})
            if not os.path.exists(path):
                return
        elif p.returncode != 0:
            raise CheckError(p.stderr[-3000:])
    else:
        ctx.drive(args, timeout=timeout)
    validate(ctx, path, what, workers=workers, timeout=timeout)
    done = judged(ctx, "TraceTwin", nodes, what,
                  lambda d: "node value changed by a writer: before %s after %s" % (show_node_any(d["a"]), show_node_any(d["b"])), 1, timeout)
    ctx.add("node_values_compared", sum(int(f[1]) for f in done.values()))
    os.unlink(path)
    os.unlink(nodes)


def checks(ctx, n, short, workers=4, timeout=800):
    """C19: the check functions against the productions."""
    path = ctx.uniq("checks.ndjson")
    r = ctx.drive(["checks", "-seed", ctx.seed, "-n", n, "-o", path] + (["-short"] if short else []), timeout=timeout)

    def line(i):
        return read_trace(path, {i})[i]

    def describe(d):
        t = line(d["id"])
        if t["mode"] == "sweep" and d["kind"] != "bad":
            got, want = cells(t["iv"]), cells(d["want"])
            diff = sorted(got.symmetric_difference(want))[:8]
            return "%s: in '%s' _ '%s' accepted %s" % (t["f"], show(t["pre"], 20), show(t["post"], 20), d["kind"] if d["kind"] == "panic" else
                   ", ".join("U+%04X %s" % (c, "wrongly" if c in got else "not, but should be") for c in diff))
        if t["mode"] != "one":
            return "%s: invalid UTF-8 %s: %s" % (t["f"], d["kind"], ", ".join("'%s'" % show(x, 40) for x in t["acc"][:5]))
        return "%s: '%s' %s" % (t["f"], show(t["s"]), "panics" if t["pan"] else "accepted" if t["ok"] else "refused")
    done = judged(ctx, "TraceChecks", path, "check", describe, workers, timeout)
    ctx.add("traces_validated_against_impl", len(done))
    ctx.add("strings_checked", r["strings"])
    for i in (1, 2, len(done) // 2, len(done)):
        t = line(i)
        ctx.sample({"check": t["f"], "mode": t["mode"], "before": show(t["pre"], 30), "after": show(t["post"], 30),
                    "accepted": t["iv"][:6] if t["mode"] == "sweep" else t["ok"], "string": show(t["s"], 40)})
    os.unlink(path)


def cells(iv):
    """The set of code points of a list of intervals, thinned to what matters
    for a message: everything in small intervals, the edges of large ones."""
    out = set()
    for a, b in iv:
        out.update(range(a, b + 1) if b - a < 70000 else (a, b))
    return out


def mc_checks(ctx, workers=4):
    design(ctx, "MCChecks", "CONSTANT Block = 4096\nINIT Init1\nNEXT Next1\nINVARIANTS Agree Maximal\nCHECK_DEADLOCK FALSE\n",
           {"model": "productions as predicates and as intervals, every code point"}, workers, env={"TRACE": "none"})


def escape(ctx, maxlen, n, sweeps, workers=4, timeout=800):
    """C03: strings enumerated by the model, swept and drawn, written by the code."""
    cfg = "CONSTANTS MaxLen = %d Block = 4096\nINIT InitE\nNEXT NextE\nINVARIANTS Sound PlainAgrees\nCHECK_DEADLOCK FALSE\n" % maxlen
    outp = design(ctx, "MCEscape", cfg, {"model": "escaping", "max_length": maxlen}, workers, timeout)
    strs = ctx.uniq("strings.ndjson")
    ss = ctx.messages(outp, "S")
    with open(strs, "w") as f:
        f.write("".join(x + "\n" for x in ss))
    os.unlink(outp)
    if len(ss) < 1000:
        raise CheckError("the model printed only %d strings" % len(ss))
    path = ctx.uniq("escape.ndjson")
    r = ctx.drive(["escape", "-seed", ctx.seed, "-n", n, "-sweeps", sweeps, "-strings", strs, "-o", path], timeout=timeout)

    def describe(d):
        at = read_trace(path, {d["id"]})[d["id"]]["at"]
        if d["kind"] == "unescaped":
            return "%s: U+%04X..U+%04X written as they are" % (at, d["iv"][0], d["iv"][1])
        x = d["x"]
        return "%s: %s written as '%s'%s" % (at, " then ".join("'%s'" % show(p, 80) for p in x["p"]), show(x["o"], 160), " with an error" if x["e"] else "")
    done = judged(ctx, "TraceEscape", path, "escaping", describe, workers, timeout)
    ctx.add("traces_validated_against_impl", len(done))
    ctx.add("strings_written", r["strings"])
    ctx.detail["strings_from_model"] = len(ss)
    some = read_trace(path, {1, len(done)})
    for t in some.values():
        ctx.sample({"place": t["at"], "mode": t["mode"], "unchanged": t["same"][:6],
                    "written": [[[show(p, 40) for p in x["p"]], show(x["o"], 80)] for x in t["ex"][:4]]})
    os.unlink(path)


def encodings(ctx, n, variants, seed=0, workers=4, timeout=800):
    """C17: histories in UTF-8 and in other encodings."""
    path = ctx.uniq("encoding.ndjson")
    r = ctx.drive(["encoding", "-seed", ctx.seed * 100 + seed, "-n", n, "-variants", variants, "-o", path], timeout=timeout)

    def describe(d):
        what = "buffer %d: %s" % (d["buf"], d["kind"])
        if d["kind"] == "bytes":
            what += " from character %d on: decoded '...%s', should be '...%s'" % (d["at"], show(d["got"]), show(d["want"]))
        if d["kind"] == "errors":
            what += " of the calls %s, in UTF-8 %s" % (d["got"], d["want"])
        return what
    done = judged(ctx, "TraceEncoding", path, "encoding", describe, workers, timeout)
    ctx.add("traces_validated_against_impl", r["runs"])
    ctx.add("histories", len(done))
    ctx.add("document_bytes", r["bytes"])
    for t in read_trace(path, {1, 9}).values():
        ctx.sample({"encoding": t["enc"], "calls": [show_op(o) for o in t["ops"][:5]], "document": show(t["ref"], 120),
                    "bytes": t["outs"][0]["b"][:40]})
    os.unlink(path)


def collector(ctx, bounds, n, workers=2, timeout=800):
    """C18: histories of the error collector, enumerated by the model and drawn."""
    hist = ctx.uniq("histories.ndjson")
    with open(hist, "w") as f:
        for ops, ln, errs, sites in bounds:
            cfg = ("CONSTANTS MaxOps = %d MaxLen = %d Errors = %d Sites = %d\nINIT InitC\nNEXT NextC\n"
                   "INVARIANTS Right Shown\nCHECK_DEADLOCK FALSE\n" % (ops, ln, errs, sites))
            outp = design(ctx, "MCErr", cfg, {"model": "error collector", "max_operations": ops, "max_list": ln,
                                              "errors": errs, "sites": sites}, workers, timeout)
            hs = ctx.messages(outp, "H")
            if not hs:
                raise CheckError("the model of the collector printed no histories")
            f.write("".join(h + "\n" for h in hs))
            os.unlink(outp)
    path = ctx.uniq("collect.ndjson")
    r = ctx.drive(["collect", "-seed", ctx.seed, "-n", n, "-histories", hist, "-o", path], timeout=timeout)

    def describe(d):
        e = d["ev"]
        return "call %d, %s(%s) at place %d: %s: got %s %s, should be %s %s" % (
            d["l"], e["o"], ", ".join("nil" if x == 0 else "error %d" % x for x in e["list"]), e["site"], d["kind"],
            e["st"], e["res"], d["want"]["st"], d["want"]["res"])
    done = judged(ctx, "TraceErr", path, "error collector", describe, workers, timeout, heap="8g")
    ctx.add("traces_validated_against_impl", len(done))
    ctx.add("trace_steps", r["calls"])
    with open(path) as f:
        for line in list(f)[-3:]:
            ctx.sample([[e["o"], e["list"][:8], e["site"], e["st"], e["res"]] for e in json.loads(line)["ev"][:6]])
    os.unlink(path)


def typed(ctx, maxn, maxd, take, n, full, workers=6, timeout=800):
    """C21: values at the edges of every type, from the model, and drawn."""
    cfg = ("CONSTANTS MaxN = %d MaxD = %d MaxK = 2\nINIT InitD\nNEXT NextD\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n" % (maxn, maxd))
    outp = design(ctx, "MCDecimal", cfg, {"model": "numbers as text", "largest": maxn, "decimals_up_to": maxd}, workers, timeout)
    vals = ctx.uniq("values.ndjson")
    vs = ctx.messages(outp, "V")
    with open(vals, "w") as f:
        f.write("".join(v + "\n" for v in vs))
    os.unlink(outp)
    if len(vs) < 1000:
        raise CheckError("the model printed only %d values" % len(vs))
    path = ctx.uniq("typed.ndjson")
    r = ctx.drive(["typed", "-seed", ctx.seed, "-n", n, "-take", take, "-values", vals, "-o", path] + (["-full"] if full else []), timeout=timeout)

    def describe(d):
        v = d["v"]
        return "%s %s: %s: '%s', attribute %s, written '%s'" % (
            v["t"], bytes(v["b"]).hex(), d["kind"], show(v["r"]["v"]), {k: show(x) for k, x in v["r"].items()}, show(v["doc"]))
    done = judged(ctx, "TraceTyped", path, "typed value", describe, workers, timeout)
    ctx.add("traces_validated_against_impl", len(done))
    ctx.add("values_set", r["values"])
    with open(path) as f:
        for v in json.loads(f.readline())["vs"][:6]:
            ctx.sample({"type": v["t"], "bytes": bytes(v["b"]).hex(), "text": show(v["r"]["v"]), "written": show(v["doc"])})
    os.unlink(path)


def scripts(ctx, maxlen, n, workers=4, timeout=800):
    """C22: scripts enumerated by the model and drawn, run by gotester."""
    bin_ = ctx.path("gotester")
    p = subprocess.run(["go", "build", "-buildvcs=false", "-o", bin_, "."], cwd="/repo/tester/gotester", env=dict(os.environ, **GOENV),
                       capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("gotester does not build:\n" + p.stderr[-4000:])
    cfg = "CONSTANT MaxLen = %d\nINIT InitX\nNEXT NextX\nINVARIANTS Sound Stripped Shown\nCHECK_DEADLOCK FALSE\n" % maxlen
    outp = design(ctx, "MCScript", cfg, {"model": "scripts", "max_length": maxlen}, workers, timeout)
    inp = ctx.uniq("scripts.ndjson")
    ss = ctx.messages(outp, "C")
    with open(inp, "w") as f:
        f.write("".join(s + "\n" for s in ss))
    os.unlink(outp)
    if len(ss) < 1000:
        raise CheckError("the model printed only %d scripts" % len(ss))
    path = ctx.uniq("script.ndjson")
    r = ctx.drive(["script", "-seed", ctx.seed, "-n", n, "-scripts", inp, "-gotester", bin_, "-o", path], timeout=timeout)

    def describe(d):
        t = read_trace(path, {d["id"]})[d["id"]]
        cmds = ["%s %s name='%s' ws=%s %s '%s'" % (c["a"], c["k"], show(c["name"]), c["ws"] or "-",
                " ".join("%s='%s'" % (q["p"], show(q["v"])) for q in c["ps"]), show(c["content"], 60)) for c in t["cmds"]]
        return "%s: exit status %d, output '%s', the calls give '%s': %s" % (
            d["kind"], t["rc"], bytes(t["out"])[:300], bytes(t["ref"])[:300], "; ".join(cmds))
    done = judged(ctx, "TraceScript", path, "script", describe, workers, timeout, heap="6g")
    ctx.add("traces_validated_against_impl", len(done))
    ctx.detail["scripts_from_model"] = len(ss)
    ctx.detail["scripts_succeeding"] = r["succeeded"]
    if r["succeeded"] * 10 < len(done):
        raise CheckError("hardly any script succeeds")
    with open(path) as f:
        for line in list(f)[-3:]:
            t = json.loads(line)
            ctx.sample({"commands": [[c["a"], c["k"], show(c["name"]), [[q["p"], show(q["v"])] for q in c["ps"]]] for c in t["cmds"][:8]],
                        "status": t["rc"], "output": bytes(t["out"]).decode("latin-1")[:160]})
    os.unlink(path)


def returns(ctx, models, n, seed=0, workers=4, timeout=800):
    """C23: histories enumerated by the model and drawn, under many conditions."""
    for small, length in models + [(0, 0)]:
        path, prog = ctx.uniq("returns.ndjson"), ctx.uniq("progress")
        args = ["returns", "-seed", ctx.seed * 100 + seed, "-progress", prog, "-o", path]
        outp = None
        if length:
            cfg = "CONSTANTS Small = %d MaxOps = %d\nINIT InitR\nNEXT NextR\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n" % (small, length)
            outp = design(ctx, "MCReturns", cfg, {"model": "any calls", "small_alphabet": bool(small), "calls": length}, workers, timeout)
            args += ["-mc", outp]
        else:
            args += ["-n", n]
        p = ctx.run(args, timeout)
        if p.returncode != 0:
            crashed(ctx, p, args, prog, timeout)
            return
        r = json.loads(p.stdout.strip().splitlines()[-1])
        if outp:
            os.unlink(outp)
        if not r["histories"]:
            raise CheckError("no histories were run")

        def describe(d):
            return "%s, under configuration %d of its line, in the history %s" % (
                d["kind"], d["run"], "; ".join(show_op(op) for op in d["ops"][-12:]))
        done = judged(ctx, "TraceReturns", path, "any calls", describe, workers, timeout, env={"SMALL": str(small)}, heap="6g")
        ctx.add("traces_validated_against_impl", r["runs"])
        ctx.add("histories", len(done))
        ctx.add("trace_steps", r["calls"])
        ctx.add("calls_refused", r["refused"])
        for t in read_trace(path, {1, 77}).values():
            ctx.sample({"history": t["h"] or [show_op(o) for o in t["ops"][:6]], "runs": [x[:6] for x in t["runs"][:3]]})
        os.unlink(path)


def crashed(ctx, p, args, prog, timeout):
    """The driver ended while running histories (a stack overflow cannot be
    recovered from, say).  Which of those it was running does that alone?"""
    import struct
    with open(prog, "rb") as f:
        b = f.read()
    for (i,) in struct.iter_unpack("<q", b[:len(b) // 8 * 8]):
        if i == 0:
            continue
        q = ctx.run(args + ["-only", i], timeout)
        if q.returncode != 0 and "xmlwriter." in q.stderr:
            ctx.violate("the process dies in history %d: %s" % (i, q.stderr[:300]), {"args": args + ["-only", i], "stderr": q.stderr[:6000]})
            return
    raise CheckError("driver failed (%d):\n%s" % (p.returncode, (p.stderr or p.stdout)[-4000:]))


def mc_encoding(ctx, chars, buf, workers=2):
    cfg = "CONSTANTS MaxChars = %d MaxBuf = %d\nINIT InitN\nNEXT NextN\nINVARIANTS InOrder Complete FlushedAll KeptShort\nCHECK_DEADLOCK FALSE\n" % (chars, buf)
    design(ctx, "MCEncoding", cfg, {"model": "characters through buffer and transcoder", "max_chars": chars, "max_buffer": buf}, workers)


def show_node_any(v):
    return "; ".join(show_node(n) for n in v) if isinstance(v, list) else show_node(v)


def sinks(ctx, profile, n, faults=0, encodings=False, seed=0, workers=2, timeout=800):
    """C09, C10: histories again with other buffers, flushes and sinks."""
    path = ctx.uniq("sink.ndjson")
    args = ["sink", "-profile", profile, "-seed", ctx.seed * 100 + seed, "-n", n, "-o", path, "-faults", faults]
    if encodings:
        args.append("-encodings")
    r = ctx.drive(args, timeout=timeout)
    label = "failing sink" if faults else "buffers and flushes"

    def describe(d):
        what = "run %d (buffer %d%s): " % (d["l"], d["buf"], ", sink fails after %d bytes, %s" % (d["limit"], d["mode"]) if faults else "")
        if d["kind"] == "step":
            st = d["step"][0]
            return what + "step %d (%s) is not allowed: err=%s, the sink's own=%s, sink failed now=%s, taken=%d, panic=%s" % (
                d["i"], "call %d" % st["at"] if st["at"] else "added flush", st["err"], st["own"], st["hit"], st["acc"], st["pan"])
        return what + d["kind"]
    done = judged(ctx, "TraceSink", path, label, describe, workers, timeout)
    ctx.add("traces_validated_against_impl", r["runs"])
    ctx.add("histories", len(done))
    ctx.add("trace_steps", r["steps"])
    with open(path) as f:
        t = json.loads(f.readline())
    ctx.sample({"run": label, "calls": [[b["o"], "refused" if b["err"] else "ok", b["n"]] for b in t["base"][:12]],
                "variants": [[x["buf"], x["limit"], x["mode"]] for x in t["runs"][:6]]})
    os.unlink(path)


def mc_sink(ctx, calls, workers=2):
    cfg = ("CONSTANTS MaxCalls = %d MaxBytes = 2 MaxLimit = 4\nSPECIFICATION Spec\n"
           "INVARIANTS Prefix Taken WithinLimit BrokenAtLimit NeverLost Streams HealthyNeverBreaks\nCHECK_DEADLOCK FALSE\n" % calls)
    design(ctx, "MCSink", cfg, {"model": "sink", "max_calls": calls, "max_bytes_per_call": 2}, workers)


def design(ctx, module, cfg, what, workers=2, timeout=800, env=None):
    """Checks the invariants of a module; returns TLC's output."""
    outp, states, trans = ctx.tlc(module, cfg, workers=workers, timeout=timeout, env=env)
    ctx.add("states", states)
    ctx.add("transitions", trans)
    ctx.detail.setdefault("models", []).append({**what, "distinct_states": states, "transitions": trans})
    return outp
