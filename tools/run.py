"""Campaign runner: scripts -> driver -> log -> TLC, with confirmation, replay files and evidence."""
import os, sys, json, time, re, random, shutil, subprocess
from vlib import *
from vlib import _lock

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = scratch()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.viol, self.known, self.notes = [], [], [], []
        self.opcount = {}
        self.pending = []
        self.t0 = time.time()
    @property
    def quick(self): return self.tier == "quick"

    def note(self, t):
        if len(self.notes) < 40: self.notes.append(t)

    # -- model checking of the specification itself
    def model(self, module, cfg, workers=NCPU, timeout=1800, **kw):
        r = tlc(module, cfg, workers=workers, timeout=timeout, **kw)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise Infra("specification check %s/%s failed:\n%s" % (module, cfg, r["out"][-2500:]))
        self.states += r["distinct"]; self.transitions += r["states"]
        self.samples.append({"model": module, "config": os.path.basename(cfg), "distinct_states": r["distinct"]})
        return r

    def gen(self, module, consts, tag, timeout=300, cfgbody="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", sim=None, depth=100, defs=None):
        """Run a generator specification; returns the JSON values it printed with the given tag.
        sim: number of random behaviours instead of the whole state graph."""
        cfg = os.path.join(self.dir, "%s.%d.cfg" % (module, random.getrandbits(40)))
        with open(cfg, "w") as f:
            f.write(cfgbody)
            f.write("CONSTANTS\n")
            for k, v in consts.items():
                if isinstance(v, bool): v = "TRUE" if v else "FALSE"
                elif isinstance(v, (set, list, tuple)): v = "{" + ",".join('"%s"' % s if isinstance(s, str) else str(s) for s in sorted(v, key=str)) + "}"
                f.write("  %s = %s\n" % (k, v))
        sdir = None
        if defs:                                   # constants that a configuration file cannot hold
            mc = "MC%d" % random.getrandbits(40); sdir = self.dir
            with open(os.path.join(self.dir, mc + ".tla"), "w") as f:
                f.write("---- MODULE %s ----\nEXTENDS %s\n" % (mc, module) + "".join("%sDef == %s\n" % kv for kv in defs.items()) + "====\n")
            with open(cfg, "a") as f: f.write("".join("  %s <- %sDef\n" % (k, k) for k in defs))
            module = mc
        r = tlc(module + ".tla", cfg, workers=1, sdir=sdir, timeout=timeout, extra=["-simulate", "num=%d" % sim, "-depth", str(depth), "-seed", str(self.seed)] if sim else [])
        if sim:
            m = re.search(r"The number of states generated: (\d+)", r["out"]); r["states"] = r["distinct"] = int(m.group(1)) if m else 0
        if r["rc"] != 0: raise Infra("generator %s failed:\n%s" % (module, r["out"][-2000:]))
        self.states += r["distinct"]; self.transitions += r["states"]
        out = []
        for ln in r["out"].splitlines():
            if ln.startswith('"' + tag + ' '):
                out.append(json.loads(json.loads(ln)[len(tag) + 1:]))
        return out

    # -- conformance
    def drive(self, script, log, variant="plain", driver="drv", timeout=120):
        if driver == "calc": return self.calc(script, log, variant, timeout)
        exe = build_driver(driver, variant)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
        try:
            p = sh([exe, script, log, str(timeout)], timeout=timeout + 60, env=env, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return 99, "timeout"
        return p.returncode, p.stderr.decode(errors="replace")

    _groups = {}
    def calc(self, script, log, variant, timeout):
        """A script for the calculator: each line is a JSON record {mode, text}; the log gets the groups of the sample pairings and the runs."""
        runs = [json.loads(x) for x in open(script) if x.strip()]
        exe = build_driver("calc", variant)
        with _lock:
            if not Ctx._groups:
                sc, lg = os.path.join(self.dir, "groups.script"), os.path.join(self.dir, "groups.log")
                for t in "adfg":
                    open(sc, "w").write("pairing %s %s\n" % (t, os.path.join(VERIF, "instances", "calc", t + ".param")))
                    rc, err = self.drive(sc, lg)
                    ls = [x for x in self._lines(lg) if json.loads(x)["op"] in ("pairing", "field")]
                    if rc or len(ls) < 5: raise Infra("no groups for type %s: %s" % (t, err))
                    Ctx._groups[t] = ls
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98"; env["UBSAN_OPTIONS"] = "exitcode=98"
        types = "a" + "".join(t for t in "dfg" if any("init_pairing_" + t in r["text"] for r in runs))
        err = ""
        with open(log, "w") as f:
            for t in types: f.write("\n".join(Ctx._groups[t]) + "\n")
            for k, r in enumerate(runs):
                text = r["text"].encode(); cmd, inp = [exe], text
                if r["mode"] == "easy": cmd.append("-y")
                if r["mode"] == "file":
                    fn = script + ".%d.pbc" % k; open(fn, "wb").write(text); cmd.append(fn); inp = b""
                try:
                    p = sh(cmd, timeout=timeout, env=env, cwd=self.dir, input=inp); rc, out = p.returncode, p.stdout; err += p.stderr.decode(errors="replace")
                except subprocess.TimeoutExpired as x: rc, out = 999, x.stdout or b""
                f.write(json.dumps({"op": "run", "ln": k + 1, "mode": r["mode"], "text": list(text), "out": list(out), "rc": rc}, separators=(",", ":")) + "\n")
            f.write('{"op":"end"}\n')
        return 0, err[-3000:]

    def validate(self, log, spec="AlgTrace", env=None, timeout=900):
        """(accepted, rejected_line_index, message)"""
        e = {"TRACE": log}; e.update(env or {})
        r = tlc(spec + ".tla", spec + ".cfg", workers=1, env=e, timeout=timeout, heap="3g")
        out = r["out"]
        self.open = getattr(self, "open", 0) + out.count('"OPEN ')
        if "OutOfMemoryError" in out or "StackOverflow" in out: raise Infra("TLC resources: " + out[-800:])
        if r["rc"] == 0 and "No error has been found" in out:
            return True, r["distinct"] - 1, "", r
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        idx = int(m.group(2)) if m else 0            # states so far = accepted lines + 1 = 1-based index of the rejected line
        msg = "rejected"
        if "POSTCONDITION" not in out and "Postcondition" not in out and "post condition" not in out.lower():
            mm = re.search(r"Error: (.*(?:\n.*){0,14})", "\n".join(x for x in out.splitlines() if not re.search("overridden by the Java|tlc2.module.TLCEval|produced the following", x)))
            msg = "evaluation error: " + (mm.group(0) if mm else out[-800:])
            if "Parsing or semantic analysis failed" in out or "was not found" in out or "Could not" in out: raise Infra(out[-1500:])
        return False, idx, msg, r

    def job(self, name, lines, spec="AlgTrace", variant="plain", driver="drv", timeout=120, env=None):
        d = os.path.join(self.dir, re.sub(r"[^\w+]+", "_", name)); os.makedirs(d, exist_ok=True)
        sc, log = os.path.join(d, "script"), os.path.join(d, "log")
        open(sc, "w").write("\n".join(lines) + "\n")
        res = None
        for attempt in (1, 2):
            rc, err = self.drive(sc, log, variant, driver, timeout)
            ok, idx, msg, r = self.validate(log, spec, env)
            if rc == 70 and (ok or idx > len(self._lines(log))):       # the driver gave up although nothing it recorded is wrong
                raise Infra("driver: " + err[-1500:])
            if ok and rc != 0: ok, msg = False, "driver exit %d: %s" % (rc, err[-600:])
            res = (ok, idx, msg, rc, err)
            if ok: break
        ev = [json.loads(x) for x in self._lines(log)]
        out = {"name": name, "ok": ok, "n": len(ev), "idx": idx, "msg": msg, "rc": rc, "err": err, "dir": d, "script": sc, "log": log,
               "wall": r["wall"], "distinct": r["distinct"]}
        ops = {}
        for e in ev: ops[e["op"]] = ops.get(e["op"], 0) + 1
        out["ops"] = ops
        if not ok:
            bad = ev[idx - 1] if 0 < idx <= len(ev) else (ev[-1] if ev else {})
            ln = bad.get("ln", 0)
            out["bad"] = bad
            out["badline"] = lines[ln - 1] if 0 < ln <= len(lines) else ""
            if idx > len(ev): out["badline"] = "(after) " + out["badline"]
        return out

    def _lines(self, log):
        if not os.path.exists(log): return []
        out = []
        for x in open(log, errors="replace"):
            x = x.strip()
            if x.startswith("{") and x.endswith("}"):
                out.append(x)
        return out

    def absorb(self, results):
        for o in results:
            self.traces += o.get("count", 1); self.events += o["n"]; self.states += o["distinct"]; self.transitions += o["n"]
            for k, v in o["ops"].items(): self.opcount[k] = self.opcount.get(k, 0) + v
            if not o["ok"]: self.violation(o)
            shutil.rmtree(o["dir"], ignore_errors=True)

    def violation(self, o):
        rd = os.path.join(EVID, "replay", self.prop); os.makedirs(rd, exist_ok=True)
        base = os.path.join(rd, re.sub(r"\W+", "_", o["name"]))
        shutil.copy(o["script"], base + ".script")
        if os.path.exists(o["log"]): shutil.copy(o["log"], base + ".log")
        with open(base + ".txt", "w") as f:
            f.write("job: %s\nscript line: %s\nlog line %d: %s\ndriver exit: %s\n%s\n%s\n" % (o["name"], o.get("badline"), o["idx"], json.dumps(o.get("bad"))[:4000], o["rc"], o["err"][-3000:], o["msg"]))
        self.viol.append({"job": o["name"], "line": o.get("badline"), "replay": base + ".txt", "msg": o["msg"][:300]})

    def fail(self, name, text):
        rd = os.path.join(EVID, "replay", self.prop); os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, re.sub(r"\W+", "_", name) + ".txt"); open(p, "w").write(text)
        self.viol.append({"job": name, "line": "", "replay": p, "msg": text[:300]})

    def campaign(self, jobs, bundle=None, **kw):
        """jobs: list of (name, lines[, options]).  Scripts run separately; their logs are judged in bundles (one TLC run each);
        a bundle that is not accepted is taken apart and each of its scripts is run and judged again on its own."""
        bad, res = [], []
        if os.environ.get("VERIF_HASH"): print("jobs %s" % hashlib.sha256(json.dumps([list(j) for j in jobs]).encode()).hexdigest()[:16])
        groups = {}
        for j in jobs:
            o = {**kw, **(j[2] if len(j) > 2 else {})}
            groups.setdefault(json.dumps(o, sort_keys=True), []).append((j, o))
        work = []
        for k, g in groups.items():
            g.sort(key=lambda x: -sum(map(len, x[0][1])))              # longest first, dealt round-robin
            n = min(len(g), bundle or int(os.environ.get("VERIF_BUNDLE", 0)) or max(NCPU * 2, 1)); bs = [[] for _ in range(n)]
            for i, x in enumerate(g): bs[i % n if (i // n) % 2 == 0 else n - 1 - i % n].append(x[0])
            work += [(b, g[0][1]) for b in bs]
        def alone(j, o):
            if len(bad) >= 3 or len(self.viol) >= 3: return None       # enough evidence
            r = self.job(j[0], j[1], **o)
            if not r["ok"]: bad.append(1)
            return r
        def one(w):
            js, o = w
            if len(bad) >= 3 or len(self.viol) >= 3: return []
            if len(js) > 1:
                r = self.bundle(js, **o)
                if r["ok"]: return [r]
            return [x for x in (alone(j, o) for j in js) if x]
        for rs in pmap(one, work): res += rs
        if os.environ.get("VERIF_TIMES"):
            for o in sorted(res, key=lambda o: -o["wall"])[:int(os.environ["VERIF_TIMES"]) if os.environ["VERIF_TIMES"] > "1" else 25]: print("%7.1f s %6d events %s" % (o["wall"], o["n"], o["name"]), file=sys.stderr)
        self.absorb(res)
        if jobs and len(self.samples) < 12: self.samples.append({"job": jobs[0][0], "first_lines": jobs[0][1][:6], "jobs": len(jobs)})
        return res

    def bundle(self, js, spec="AlgTrace", variant="plain", driver="drv", timeout=120, env=None):
        d = os.path.join(self.dir, "b%d" % random.getrandbits(48)); os.makedirs(d)
        log = os.path.join(d, "log"); n = 0; ok = True; ops = {}; t = time.time()
        with open(log, "w") as out:
            for k, j in enumerate(js):
                sc, lg = os.path.join(d, "s%d" % k), os.path.join(d, "l%d" % k)
                open(sc, "w").write("\n".join(j[1]) + "\n")
                rc, err = self.drive(sc, lg, variant, driver, timeout)
                ls = self._lines(lg)
                if rc != 0 or not ls or '"op":"end"' not in ls[-1].replace(" ", ""): ok = False; break
                n += len(ls); out.write("\n".join(ls) + "\n")
                for x in ls:
                    m = re.search(r'"op": ?"(\w+)"', x)
                    if m: ops[m.group(1)] = ops.get(m.group(1), 0) + 1
                os.remove(lg)
        r = None
        if ok: ok, idx, msg, r = self.validate(log, spec, env)
        return {"name": "bundle:" + js[0][0], "ok": ok, "n": n, "ops": ops, "dir": d, "wall": time.time() - t, "distinct": r["distinct"] if r else 0, "count": len(js)}

    # -- the binding is not vacuous: a log with one altered answer must be rejected
    def corrupt_check(self, name, lines, spec="AlgTrace", variant="plain", driver="drv", ops=None, env=None):
        d = os.path.join(self.dir, "corrupt"); os.makedirs(d, exist_ok=True)
        sc, log = os.path.join(d, "script"), os.path.join(d, "log")
        open(sc, "w").write("\n".join(lines) + "\n")
        self.drive(sc, log, variant, driver)
        ev = self._lines(log)
        idx = [k for k, x in enumerate(ev) if json.loads(x)["op"] in (ops or {"add", "mul", "sub"})]
        if not idx: return
        k = idx[random.Random(self.seed).randrange(len(idx))]
        e = json.loads(ev[k])
        if "v" in e:
            c = e["a"][0]; e["v"][c] = _perturb(e["v"][c])
        elif "tr" in e: e["tr"] = _perturb(e["tr"])
        elif "fs" in e: e["fs"][0][1] += 1
        elif "out" in e: e["out"][0] ^= 1
        elif "text" in e: e["text"][-2] ^= 1                   # the last digit written
        ev2 = ev[:]; ev2[k] = json.dumps(e)
        open(log, "w").write("\n".join(ev2) + "\n")
        ok, i, msg, r = self.validate(log, spec, env)
        if ok: raise Infra("corrupted log accepted by %s: the binding is vacuous" % spec)
        self.notes.append("corrupted log line %d (%s) rejected at line %d" % (k + 1, e["op"], i))

    def finish(self, level, assumptions):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:20] or [{}],
                           "events_validated": self.events, "operations": self.opcount},
              "wall_s": round(time.time() - self.t0, 1), "assumptions": assumptions + self.notes,
              "violations": len(self.viol)}
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v in self.viol:
            print("  job %s: %s | %s" % (v["job"], v["line"], v["msg"].replace("\n", " ")[:200]))
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.viol[0]["replay"]))
            return 1
        print("OK property=%s tier=%s traces=%d events=%d states=%d wall=%.1fs" % (self.prop, self.tier, self.traces, self.events, self.states, time.time() - self.t0))
        return 0

def _perturb(v):
    if isinstance(v, list):
        if not v: return [1]
        if isinstance(v[0], int): return [v[0] ^ 1] + v[1:]
        return [_perturb(v[0])] + v[1:]
    if isinstance(v, dict):
        k = sorted(v)[0]; w = dict(v); w[k] = _perturb(v[k]); return w
    return (v ^ 1) if isinstance(v, int) else v
