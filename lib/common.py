"""Shared parts of the checks: building from /repo's working tree, evidence, verdicts."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1"))

CFLAGS = ("-w -O3 -fomit-frame-pointer -fstrict-aliasing -ffast-math -fexceptions "
          "-fPIC -DPIC -DHAVE_CONFIG_H").split()
C_SRC = ["src/prep_cif.c", "src/types.c", "src/raw_api.c", "src/java_raw_api.c",
         "src/closures.c", "src/tramp.c", "src/x86/ffi64.c", "src/x86/ffiw64.c"]
S_SRC = ["src/x86/unix64.S", "src/x86/win64.S"]


class MachineryError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0:
        raise MachineryError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), (r.stdout + r.stderr)[-3000:]))
    return r


def pmap(f, xs):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(f, xs))


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree(*dirs):
    out = []
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds.sort()
            out += [os.path.join(r, f) for f in fs if not f.endswith((".pyc", ".o"))]
    return out


def repo_sources():
    return tree(os.path.join(REPO, "include")) + [p for p in tree(os.path.join(REPO, "src")) if
            os.path.dirname(p).endswith(("/src", "/src/x86"))] + tree(os.path.join(VERIF, "config"))


class Builder:
    """A build directory named by the content of everything that goes into it."""

    def __init__(self, name, extra_files=(), extra=""):
        self.key = digest(repo_sources() + list(extra_files), name + extra)
        self.dir = os.path.join(BUILD, name + "-" + self.key)

    def ready(self):
        return os.path.exists(os.path.join(self.dir, ".done"))

    def start(self):
        os.makedirs(self.dir, exist_ok=True)
        self.inc()

    def finish(self):
        open(os.path.join(self.dir, ".done"), "w").close()

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def inc(self, target="X86_64"):
        d = self.path("include")
        os.makedirs(d, exist_ok=True)
        t = open(os.path.join(REPO, "include/ffi.h.in")).read()
        for k, v in (("@VERSION@", "3.4.8"), ("@TARGET@", target), ("@HAVE_LONG_DOUBLE@", "1"), ("@FFI_EXEC_TRAMPOLINE_TABLE@", "0")):
            t = t.replace(k, v)
        open(os.path.join(d, "ffi.h"), "w").write(t)
        shutil.copy(os.path.join(REPO, "src/x86/ffitarget.h"), d)
        shutil.copy(os.path.join(VERIF, "config/fficonfig.h"), d)
        return d

    def incflags(self):
        return ["-I" + self.path("include"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]

    def libffi(self, cc="gcc", cflags=None, subdir="obj", csrc=C_SRC, ssrc=S_SRC):
        """Compile the library's own sources; returns the object files."""
        cflags = CFLAGS if cflags is None else cflags
        od = self.path(subdir)
        os.makedirs(od, exist_ok=True)

        def one(src):
            o = os.path.join(od, src.replace("/", "_") + ".o")
            must([cc] + cflags + self.incflags() + ["-c", os.path.join(REPO, src), "-o", o])
            return o
        return pmap(one, list(csrc) + list(ssrc))


def known_findings(pid):
    """Entries `known: property=<id> key=<substring> <description>' of findings.txt."""
    out = []
    p = os.path.join(VERIF, "findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(None, 2)[2]
                key, desc = rest.split(None, 1)
                out.append((key[len("key="):], desc))
    return out


class Result:
    """Collects what the stages of one check did."""

    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.failures, self.notes = [], [], {}
        self.assumptions = []
        self.exhaustive = True

    def add(self, states=0, transitions=0, traces=0, samples=(), **notes):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        self.samples += list(samples)[:6]
        for k, v in notes.items():
            self.notes[k] = v

    def fail(self, key, msg, replay):
        """key: stable identity of the failing case; replay: text of a replay file."""
        self.failures.append((key, msg, replay))

    def finish(self):
        known = known_findings(self.pid)
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        bad = []
        for key, msg, replay in self.failures:
            hit = [d for k, d in known if k in key]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0]))
                continue
            bad.append((key, msg, replay))
        seen = []
        for i, (key, msg, replay) in enumerate(bad[:5]):
            p = os.path.join(EVID, "replay", "%s-%d.txt" % (self.pid, i))
            with open(p, "w") as f:
                f.write(replay)
            print("# %s: %s" % (key[:400], msg[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            seen.append(msg[:300])
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:12] or ["none"], **self.notes},
              "exhaustive": self.exhaustive, "assumptions": self.assumptions,
              "violations": len(bad), "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        print("%s %s: %d states, %d transitions, %d executions of the implementation, %d violation(s), %.1f s" %
              (self.pid, self.tier, self.states, self.transitions, self.traces, len(bad), ev["wall_s"]))
        return 1 if bad else 0
