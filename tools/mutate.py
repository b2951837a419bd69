#!/usr/bin/env python3
"""mutate.py MUTANTS.jsonl OUT.jsonl N SEED [WORKERS [all]]: how good the checks are.

Takes N of the changes mutgen printed, drops those that do not compile or that
the repository's tests notice, and runs the quick checks against the rest, each
in a mount namespace of its own in which a changed copy is /repo (the real one
is left alone) and a copy of /verif, made at the start, is /verif.  Stops at the first
check that notices, or runs them all.  Models do not depend on the code: what
TLC printed for them is kept between runs.  Not part of any check."""
import hashlib, json, os, random, shutil, subprocess, sys, threading, queue, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/w/mt"
CACHE = "/tmp/w/mccache"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
ORDER = "C06 C08 C13 C15 C05 C12 C04 C16 C07 C11 C10 C09 C14 C23 C03 C20 C17 C02 C01 C22 C21 C19 C18".split()
FIRST = {"check.go": ["C19"], "errs.go": ["C18"], "attr.go": ["C21"], "printer.go": ["C03"], "indenter.go": ["C11"], "tester/gotester/main.go": ["C22"]}


def one(pid):
    """Runs one check with the models' output kept."""
    sys.path.insert(0, os.path.join(VERIF, "run"))
    sys.argv = ["check.py", pid, "quick"]
    import lib
    os.makedirs(CACHE, exist_ok=True)
    real = lib.Ctx.tlc

    def tlc(self, module, cfg, env=None, **kw):
        if not module.startswith("MC") or env:
            return real(self, module, cfg, env=env, **kw)
        h = hashlib.sha256((module + cfg).encode())
        for f in sorted(os.listdir(self.spec)):
            if not f.startswith("Trace"):
                h.update(open(os.path.join(self.spec, f), "rb").read())
        key = os.path.join(CACHE, h.hexdigest())
        if not os.path.exists(key + ".json"):
            outp, s, t = real(self, module, cfg, env=env, **kw)
            tmp = key + ".%d" % os.getpid()
            shutil.copy(outp, tmp)
            os.rename(tmp, key)
            with open(tmp, "w") as f:
                json.dump([s, t], f)
            os.rename(tmp, key + ".json")
            return outp, s, t
        s, t = json.load(open(key + ".json"))
        outp = self.uniq(module + ".out")
        shutil.copy(key, outp)
        return outp, s, t
    lib.Ctx.tlc = tlc
    import check
    return check.main()


def sh(cmd, cwd="/", t=1800):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t, errors="replace")


def judge(k, m, every):
    d = "%s/%d" % (SCRATCH, k)
    ev = "%s/v%d" % (SCRATCH, k)
    p = os.path.join(d, m["file"])
    src = open(p, "rb").read()
    new = src[:m["off"]] + m["new"].encode() + src[m["end"]:]
    assert src[m["off"]:m["end"]].decode() == m["old"]
    try:
        open(p, "wb").write(new)
        r = sh("go build ./... && go test -timeout 60s ./... && cd tester/gotester && go build -buildvcs=false -o /dev/null .", d)
        if r.returncode:
            return "build" if "build failed" in r.stdout or "FAIL" not in r.stdout else "tests"
        hit = []
        order = [c for c in FIRST.get(m["file"], [])]
        order += [c for c in ORDER if c not in order]
        for c in order:
            r = sh("unshare -m sh -c 'mount --make-rprivate / && mount --bind %s /repo && mount --bind %s %s && cd %s && exec python3 %s one %s'"
                   % (d, ev, VERIF, VERIF, os.path.abspath(__file__), c))
            if r.returncode == 1:
                hit.append(c)
                if not every:
                    break
            elif r.returncode != 0:
                hit.append(c + "?")
                m.setdefault("err", {})[c] = (r.stderr + r.stdout)[-600:]
        return ",".join(hit) or "SURVIVED"
    finally:
        open(p, "wb").write(src)


def main():
    if sys.argv[1] == "one":
        sys.exit(one(sys.argv[2]))
    ms = [json.loads(l) for l in open(sys.argv[1])]
    out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    workers = int(sys.argv[5]) if len(sys.argv) > 5 else 4
    every = len(sys.argv) > 6
    random.Random(seed).shuffle(ms)
    q = queue.Queue()
    for m in ms[:n]:
        q.put(m)
    os.makedirs(CACHE, exist_ok=True)
    lock = threading.Lock()
    f = open(out, "a")

    def work(k):
        d = "%s/%d" % (SCRATCH, k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(SCRATCH, exist_ok=True)
        sh("cp -a /repo %s" % d)
        shutil.rmtree("%s/v%d" % (SCRATCH, k), ignore_errors=True)
        sh("cp -a %s %s/v%d" % (VERIF, SCRATCH, k))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            t = time.time()
            try:
                m["verdict"] = judge(k, m, every)
            except Exception as e:
                m["verdict"] = "error %r" % e
            m["s"] = round(time.time() - t)
            with lock:
                f.write(json.dumps(m) + "\n")
                f.flush()
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
