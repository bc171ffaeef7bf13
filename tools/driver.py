"""Runs the steps of a check: harness builds, TLC, the harness, trace validation."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
JARS = ":".join([f"{TLA}/tla2tools.jar"] + sorted(glob.glob(f"{TLA}/*.jar")))


class ToolError(Exception):
    pass


def head(s, n=1500):
    s = s if len(s) <= n else s[:n] + " ..."
    return s


# --------------------------------------------------------------------------
class Run:
    """One run of one check"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(BUILD, "work", f"{prop}.{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.started = time.time()
        self.deadline = self.started + (840 if tier == "quick" else 3300)
        self.lock = threading.Lock()
        self.violations, self.known = [], []
        self.states = self.transitions = 0
        self.traces = self.events = self.behaviours_played = 0
        self.evaluations = self.nontrivial = 0
        self.samples, self.notes, self.steps = [], [], []
        self.models, self.counts = {}, {}
        self.rejected_corruptions = self.rejected_designs = 0
        self.pool = threading.BoundedSemaphore(os.cpu_count() or 4)
        self.bins = {}
        self.n = 0

    def left(self):
        return max(5, self.deadline - time.time())

    def name(self, what):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, f"{what}.{self.n}")

    def sh(self, cmd, env=None, cwd=None, timeout=None):
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=min(timeout or 1e9, self.left()))
        except subprocess.TimeoutExpired:
            raise ToolError(f"out of time: {' '.join(cmd)[:300]}")
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

    # ---- what the checks run on ------------------------------------------
    def build(self, kind, profile="release"):
        """kind: isa (instruction sets can be chosen) or plain (as shipped, with the C interface)"""
        target = os.path.join(BUILD, f"h-{kind}")
        os.makedirs(target, exist_ok=True)
        cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", target]
        cmd += ["--release"] if profile == "release" else ["--profile", profile]
        if kind == "isa":
            cmd += ["--features", "isa"]
        with open(os.path.join(target, ".verif-lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            rc, out, err = self.sh(cmd, cwd=os.path.join(VERIF, "harness"), env={"CARGO_NET_OFFLINE": "true"})
            if rc != 0:
                raise ToolError(f"the harness does not build ({kind}, {profile}):\n{head(err, 4000)}")
            # (a copy: the next check may rebuild it)
            out = self.name(f"dcph-{kind}-{profile}")
            shutil.copy2(os.path.join(target, profile, "dcph"), out)
        return out

    def tables(self):
        out = os.path.join(self.work, "spec.json")
        rc, so, _ = self.tlc("GenTables", "Gen.cfg", env={"OUT": out}, count=False)
        if rc != 0 or not os.path.exists(out):
            raise ToolError(f"the tables of the specification could not be written:\n{head(so)}")
        self.spec = out

    # ---- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="3g", extra=(), count=True):
        meta = self.name("tlc")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra,
               module + ".tla"]
        rc, so, se = self.sh(cmd, cwd=SPEC, env=env)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", so.replace(",", "") if False else so)
        if m and count:
            with self.lock:
                self.transitions += int(m[-1][0].replace(",", ""))
                self.states += int(m[-1][1].replace(",", ""))
        return rc, so, se

    def model(self, module, cfg, expect=0, workers=2, heap="3g", env=None, finding=None):
        """A theorem about the specification: expect 0. A wrong design that the
        specification must tell from the right one: expect 'refuted'."""
        t = time.time()
        rc, so, se = self.tlc(module, cfg, workers=workers, heap=heap, env=env)
        text = "\n".join(l for l in so.splitlines() if not re.match(r"(Parsing|Semantic|Linting)", l))
        if expect == "refuted":
            if rc not in (10, 11, 12, 13):
                raise ToolError(f"{module}/{cfg}: the wrong design was not refuted (exit {rc})\n{head(text)}")
            with self.lock:
                self.rejected_designs += 1
        elif rc != 0:
            raise ToolError(f"{module}/{cfg}: exit {rc}\n{head(text[-3000:], 3000)}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", so)
        with self.lock:
            self.models[cfg] = {"distinct_states": int(m[-1][1]) if m else 0,
                                "states_generated": int(m[-1][0]) if m else 0,
                                "result": "refuted, as it must be" if expect == "refuted" else "holds",
                                "wall_s": round(time.time() - t, 1)}

    def behaviours(self, shard, num, depth=600):
        """Behaviours of the specification, generated by TLC, as files of a folder"""
        d = self.name("behaviours")
        os.makedirs(d)
        seed = self.seed * 1000 + shard + 1
        rc, so, se = self.tlc("Behave", "Behave.cfg", env={"OUT": os.path.join(d, "b")}, count=False,
                              extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)))
        if rc != 0:
            raise ToolError(f"Behave: exit {rc}\n{head(so[-2500:], 2500)}")
        m = re.search(r"The number of states generated: (\d+)", so)
        with self.lock:
            self.transitions += int(m.group(1)) if m else 0
        return d, len(glob.glob(d + "/*.json"))

    # ---- violations ---------------------------------------------------------
    def violation(self, what, detail, repro, files=()):
        entry = {"property": self.prop, "tier": self.tier, "seed": self.seed, "what": what,
                 "detail": detail, "repro": repro}
        k = known_match(self.prop, detail)
        with self.lock:
            if k:
                if k not in self.known:
                    self.known.append(k)
                return
            if len(self.violations) >= 4:
                return
            key = hashlib.sha1(json.dumps([what, repro], sort_keys=True).encode()).hexdigest()[:12]
            d = os.path.join(BUILD, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{key}.json")
            for f in files:
                if os.path.exists(f) and os.path.getsize(f) < 20_000_000:
                    to = os.path.join(d, f"{self.prop}-{key}{os.path.splitext(f)[1]}")
                    shutil.copyfile(f, to)
                    entry.setdefault("files", []).append(to)
            with open(path, "w") as o:
                json.dump(entry, o, indent=1)
            self.violations.append((what, path, entry))

    # ---- the harness --------------------------------------------------------
    def harness(self, binary, mode, shard, shards, what, env=None, **kv):
        cmd = [binary, mode, f"spec={self.spec}", f"seed={self.seed}", f"shard={shard}", f"shards={shards}",
               f"tier={self.tier}"] + [f"{k}={v}" for k, v in kv.items()]
        t = time.time()
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=self.left(), env=e)
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, so, se = "timeout", x.stdout or b"", x.stderr or b""
        clean, stats = True, None
        for line in so.decode("utf-8", "replace").splitlines():
            if not line.startswith("{"):
                continue
            try:
                v = json.loads(line)
            except ValueError:
                v = {"t": "violation", "what": "a fault (its report is cut off)", "case": line[:2000]} \
                    if line.startswith('{"t":"violation"') else {"t": "?"}
            if v["t"] == "violation":
                clean = False
                self.violation(v["what"], {"case": v.get("case"), "detail": v.get("detail")},
                               {"step": what, "cmd": [mode] + cmd[3:], "shard": shard})
            elif v["t"] == "stats":
                stats = v
            elif v["t"] == "note":
                with self.lock:
                    if len(self.notes) < 20 and v not in self.notes:
                        self.notes.append(v)
        if stats:
            with self.lock:
                self.evaluations += stats["evaluations"]
                self.nontrivial += stats["nontrivial"]
                if len(self.samples) < 6:
                    self.samples += [clip(s) for s in stats["samples"][:1]]
                for k, n in stats["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + n
        if clean and rc != 0:
            raise ToolError(f"{what}: the harness ended with {rc}: {head(se.decode('utf-8', 'replace'))}")
        return clean, time.time() - t

    # ---- recorded histories ---------------------------------------------------
    def validate(self, base, aspects, areas="all"):
        env = {f"A_{a}": "0" for a in ASPECTS}
        env.update({f"A_{a}": "1" for a in aspects})
        env.update({"A_AREAS": areas, "TRACE": base + ".ev", "TRACE_HEAD": base + ".head"})
        return self.judge(self.tlc("DcpTrace", "DcpTrace.cfg", env=env), base)

    def relate(self, base):
        return self.judge(self.tlc("Relate", "Relate.cfg", env={"PAIRS": base + ".ev"}), base)

    def facts(self, base):
        return self.judge(self.tlc("Facts", "Facts.cfg", env={"FACTS": base + ".ev"}), base)

    @staticmethod
    def judge(res, base):
        rc, so, se = res
        m = re.search(r'<<"EXPLAINED", (\d+)>>', so)
        if m and rc == 0:
            return None
        m = re.search(r'<<"REJECTED", (\d+)>>', so)
        if m and "is violated" not in so:
            return int(m.group(1))
        raise ToolError(f"TLC on {base}: exit {rc}\n{head(so[-2500:], 2500)}")


def clip(v, n=700):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + " ..."


ASPECTS = ["OUTCOME", "C_REFUSAL", "SIZES", "VALUES", "FRAME", "STRINGS", "RETURNS", "SUFFICE", "BOUNDS"]


# --------------------------------------------------------------------------
def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) case=(\{.*?\}) -- (.*)$", line.strip())
            if m:
                out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return out


def subset(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and all(k in b and subset(v, b[k]) for k, v in a.items())
    return a == b


def known_match(prop, detail):
    for p, case, text in known_findings():
        if p == prop and isinstance(detail, dict) and subset(case, detail.get("case") or {}):
            return text
    return None


# ---- corrupted histories must be rejected ----------------------------------
def apart(call):
    """no custom stride, or all of them long"""
    d = call["dst"]
    return all(s == [] or (len(s) < 3 and sum(x << (10 * i) for i, x in enumerate(s)) >= 300) or not d["given"]
               for s in d["strides"][:3])


def corruptions(aspect, areas, events):
    """Yields (index, event) with one recorded fact changed"""
    for i in range(len(events) - 1, -1, -1):
        e = events[i]
        c = e.get("call", {})
        x = json.loads(json.dumps(e))
        if aspect in ("OUTCOME", "SUFFICE", "BOUNDS") and not (aspect == "BOUNDS" and e.get("after")):
            if (e["e"] == "call" and c.get("op") == "convert" or e["e"] == "end" and "after" in e) and e["out"] == "ok":
                x["out"] = "not_enough_data"
                yield i, x
        elif aspect == "C_REFUSAL":
            if e["e"] == "call" and c.get("api") == "c" and e["out"] == "invalid_value":
                x["out"] = "ok"
                yield i, x
        elif aspect == "SIZES":
            if e["e"] == "call" and c.get("op") == "sizes" and e["out"] == "ok" and e["array"]:
                x["array"][0] = [x["array"][0][0] ^ 1] + x["array"][0][1:] if x["array"][0] else [1]
                yield i, x
        elif aspect == "RETURNS":
            if e["e"] == "call" and "out" in e:
                x["out"] = "panic"
                yield i, x
        elif aspect == "STRINGS":
            if "text" in e:
                x["text"] = x["text"] + "?"
                yield i, x
        elif aspect in ("VALUES", "FRAME", "BOUNDS"):
            if e["e"] == "call" and c.get("op") == "convert" and e["out"] == "ok" and e.get("after"):
                k = 1 if areas == "sub" else 0
                bufs = c["dst"]["bufs"]
                if k >= len(bufs) or bufs.count(bufs[min(k, len(bufs) - 1)]) > 1:
                    continue
                for a in x["after"]:
                    if a["b"] == bufs[k]:
                        at = 0 if aspect == "VALUES" else len(a["bytes"]) - 1
                        a["bytes"][at] ^= 1
                        yield i, x
                        break


def pair_corruptions(pairs):
    for i in range(len(pairs) - 1, -1, -1):
        p = pairs[i]
        if not p["b"]["call"]["w"] or not p["b"]["call"]["h"]:
            continue
        if p["b"]["out"] == "ok" and p["b"]["after"]:
            x = json.loads(json.dumps(p))
            b = x["b"]["call"]["dst"]["bufs"][0]
            if b in x["b"]["after"]:
                x["b"]["after"][b][0] ^= 1
                yield i, x
        elif p["b"]["out"] != "ok":
            x = json.loads(json.dumps(p))
            x["b"]["out"] = "ok"
            x["b"]["after"] = {}
            yield i, x


def fact_corruptions(facts):
    seen = set()
    for i in range(len(facts) - 1, 0, -1):
        f = facts[i]
        if f["e"] in seen:
            continue
        seen.add(f["e"])
        x = json.loads(json.dumps(f))
        if f["e"] in ("complete", "error"):
            continue
        if f["e"] == "number":
            x["number"] += 1
        elif f["e"] == "layout":
            x["at"] += 4
        elif f["e"] == "shown":
            x["text"] += "?"
        elif f["e"] == "header":
            x["compiles"] = not x["compiles"]
        elif f["e"] == "function":
            x["linkage"] = not x["linkage"]
        elif f["e"] == "machine":
            x["text"] = x["text"].replace("Sse2", "Avx2") if "Sse2" in x["text"] else x["text"].replace("}", "+}")
        else:
            x["to"][0] += 5 if x["to"][0] < 128 else -5
        yield i, x


def try_corruptions(run, base, judge, gen, label):
    """One recorded fact is falsified; TLC has to notice (at that event)"""
    items = [json.loads(l) for l in open(base + ".ev")]
    tried = 0
    for i, x in gen(items):
        if tried == 4:
            break
        tried += 1
        bad = run.name("bad")
        with open(bad + ".ev", "w") as o:
            for e in items[:i] + [x]:
                o.write(json.dumps(e, separators=(",", ":")) + "\n")
        if os.path.exists(base + ".head"):
            shutil.copyfile(base + ".head", bad + ".head")
        if judge(bad) == i + 1:
            with run.lock:
                run.rejected_corruptions += 1
            return
    if tried:
        raise ToolError(f"{label}: falsified histories were accepted ({tried} tried)")
    raise ToolError(f"{label}: nothing to falsify in {len(items)} events")
