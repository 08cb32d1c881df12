"""Check runner: drives the real code, records what it did, lets TLC judge the record against the TLA+ specification."""
import argparse, hashlib, importlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from vf import gens

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 90          # seconds of one case (normal cases take milliseconds)
STALL_TIMEOUT = 200        # a child that makes no progress at all


class MachineryError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def canon(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"), ensure_ascii=False)


def sha(o):
    return hashlib.sha1(canon(o).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------------------------- running TLC
def tlc(module, cfg=None, env=None, workers=1, extra=(), timeout=600, scratch=None, heap="1800m"):
    """Runs TLC on spec/<module>.tla; returns (rc, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cfgp = os.path.join(SPEC, (cfg or module) + ".cfg")
    if not os.path.exists(cfgp):
        cfgp = os.path.join(SPEC, "Trace.cfg")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-XX:+UseStringDeduplication", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
SIMSTATS = re.compile(r"The number of states generated: (\d+)")


def tagged(out, tag):
    """The JSON values printed by the specification as PrintT("TAG " \\o ToJson(v))."""
    r = []
    pre = '"%s ' % tag
    for line in out.splitlines():
        if line.startswith(pre):
            r.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return r


def gen(module, cfg=None, env=None, workers=4, timeout=300, extra=()):
    """Behaviours/states enumerated by TLC from a generator specification (lines tagged GEN)."""
    rc, out = tlc(module, cfg, env, workers=workers, timeout=timeout, extra=extra, heap="4g")
    m = STATS.findall(out)
    sim = SIMSTATS.findall(out)
    if rc != 0 or not (m or sim):
        raise MachineryError("generator %s failed:\n%s" % (module, out[-3000:]))
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (int(sim[-1]), int(sim[-1]))
    GENSTATS.append(dict(module=module, cfg=cfg or module, states=d, transitions=g))
    res = tagged(out, "GEN")
    res.sort(key=canon)
    return res


GENSTATS = []


# ---------------------------------------------------------------------------------------------- driving the code
def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(mod, case):
    """One execution of the real code: list of trace events."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        gens.KEYED = case.get("own_names", 0)
        ev = mod.run(case)
        return [ev] if isinstance(ev, dict) else ev
    except CaseTimeout:
        return [{"op": "exc", "exc": "timeout: the call did not return", "case": case.get("k", "")}]
    except MachineryError:
        raise
    except Exception as ex:
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc(file=sys.stderr)
        return [{"op": "exc", "exc": "%s: %s @ %s" % (type(ex).__name__, str(ex)[:200], where(ex)), "case": case.get("k", "")}]
    finally:
        signal.alarm(0)


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    for f in reversed(tb):
        if "/pm4py/" in f.filename:
            return "%s:%s" % (f.filename.split("/repo/")[-1], f.name)
    return "%s:%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].name, tb[-1].lineno)


def attempt(f, *a, **k):
    """Runs one call of the code under test; (value, None) or (None, 'Exception ...')."""
    try:
        return f(*a, **k), None
    except Exception as ex:
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc(file=sys.stderr)
        return None, "%s: %s @ %s" % (type(ex).__name__, str(ex)[:160], where(ex))


def child(mod, items, path):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VF_DEBUG"):
        os.dup2(devnull, 2)
    with open(path, "a") as f:
        for i, case in items:
            evs = run_case(mod, case)
            f.write(json.dumps([i, evs]) + "\n")
            f.flush()
    os._exit(0)


def drive(mod, cases, scratch, budget):
    """Runs all cases in NPROC forked children; returns {case index: events}."""
    files, procs = [], {}
    slots = [[(i, c) for i, c in enumerate(cases) if i % NPROC == k] for k in range(NPROC)]
    results = {}
    t0 = time.time()

    def start(k, items):
        path = os.path.join(scratch, "drv-%d-%d.ndjson" % (k, len(files)))
        open(path, "w").close()
        files.append(path)
        pid = os.fork()
        if pid == 0:
            try:
                child(mod, items, path)
            except BaseException:
                traceback.print_exc()
                with open(path, "a") as f:
                    f.write(json.dumps(["fatal", traceback.format_exc()]) + "\n")
                os._exit(3)
        procs[pid] = [k, items, path, time.time(), 0]

    for k in range(NPROC):
        if slots[k]:
            start(k, slots[k])
    truncated = False
    while procs:
        pid, st = os.waitpid(-1, os.WNOHANG)
        now = time.time()
        if pid == 0:
            time.sleep(0.02)
            for p, rec in procs.items():
                sz = os.path.getsize(rec[2])
                if sz != rec[4]:
                    rec[3], rec[4] = now, sz
                elif now - rec[3] > STALL_TIMEOUT:
                    os.kill(p, signal.SIGKILL)
                    rec[3] = now
            if now - t0 > budget and not truncated:
                truncated = True
                for p in list(procs):
                    procs[p].append("stop")
                    os.kill(p, signal.SIGKILL)
            continue
        if pid not in procs:
            continue
        rec = procs.pop(pid)
        k, items, path = rec[0], rec[1], rec[2]
        done = set()
        with open(path) as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                i, evs = json.loads(line)
                if i == "fatal":
                    raise MachineryError("driver failed: " + evs)
                results[i] = evs
                done.add(i)
        rest = [x for x in items if x[0] not in done]
        if rest and "stop" not in rec:
            i, c = rest[0]
            results[i] = [{"op": "exc", "exc": "the process died or hung (status %s)" % st, "case": c.get("k", "")}]
            if rest[1:]:
                start(k, rest[1:])
    return results, truncated


# ---------------------------------------------------------------------------------------------- judging with TLC
def judge_chunk(mod, lines, scratch, tag, env):
    """lines: list of (case index, event). Returns list of (line pos, clauses) and stats."""
    bad, gen_, dist = [], 0, 0
    todo = list(range(len(lines)))
    attempt_ = 0
    while todo:
        attempt_ += 1
        path = os.path.join(scratch, "trace-%s-%d.ndjson" % (tag, attempt_))
        with open(path, "w") as f:
            for j in todo:
                f.write(json.dumps(lines[j][1]) + "\n")
        rc, out = tlc(mod.MODULE, getattr(mod, "CFG", None), dict(env, TRACE_FILE=path), scratch=scratch,
                      timeout=getattr(mod, "TLC_TIMEOUT", 800), heap=getattr(mod, "HEAP", "2200m"))
        for b in tagged(out, "BAD"):
            bad.append((todo[b["l"] - 1], b["bad"]))
        m = STATS.findall(out)
        if rc == 0 and m:
            gen_ += int(m[-1][0])
            dist += int(m[-1][1])
            # every line must have been consumed
            hi = tagged(out, "END")
            if not hi and int(m[-1][1]) < len(todo) + 1:
                raise MachineryError("TLC stopped before the end of the trace:\n" + out[-3000:])
            return bad, gen_, dist
        # TLC could not evaluate a record: find the line it was working on
        ls = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
        if not ls or "OutOfMemory" in out or "StackOverflow" in out or attempt_ > 40:
            raise MachineryError("TLC failed on %s (rc %d):\n%s" % (mod.MODULE, rc, out[-4000:]))
        l = int(ls[-1])
        if os.environ.get("VF_DEBUG"):
            sys.stderr.write(out[-2500:])
        err = re.search(r"Error: (.*)", out)
        bad.append((todo[l - 1], ["record_not_interpretable"]))
        # skip the rest of that case: its events are contiguous
        cid = lines[todo[l - 1]][0]
        todo = [j for j in todo[l:] if lines[j][0] != cid]
    return bad, gen_, dist


def judge(mod, cases, results, scratch, env=None):
    order = sorted(results)
    chunks = [[] for _ in range(NPROC)]
    # balance by size of the record
    load = [0] * NPROC
    w = getattr(mod, "weight", lambda case, evs: len(canon(evs)))
    for i in sorted(order, key=lambda i: (-w(cases[i], results[i]), i)):
        k = load.index(min(load))
        load[k] += w(cases[i], results[i]) + 50
        chunks[k] += [(i, e) for e in results[i]]
    outs = [None] * NPROC

    def work(k):
        try:
            outs[k] = judge_chunk(mod, chunks[k], scratch, str(k), env or {})
        except BaseException as ex:
            outs[k] = ex

    ths = [threading.Thread(target=work, args=(k,)) for k in range(NPROC) if chunks[k]]
    [t.start() for t in ths]
    [t.join() for t in ths]
    bad, g, d = [], 0, 0
    for k in range(NPROC):
        if outs[k] is None:
            continue
        if isinstance(outs[k], BaseException):
            raise outs[k]
        for pos, cl in outs[k][0]:
            bad.append((chunks[k][pos][0], chunks[k][pos][1], cl))
        g += outs[k][1]
        d += outs[k][2]
    bad.sort(key=lambda b: (b[0], canon(b[2])))
    return bad, g, d


# ---------------------------------------------------------------------------------------------- design-level model checking
def model_checks(mod, tier, scratch):
    """Exhaustive TLC runs of the specification itself (invariants of the design)."""
    r = []
    for mc in getattr(mod, "MC", []):
        if mc.get("tier") == "thorough" and tier != "thorough":
            continue
        t0 = time.time()
        rc, out = tlc(mc["module"], mc.get("cfg"), mc.get("env"), workers=mc.get("workers", NPROC), timeout=mc.get("timeout", 600),
                      extra=mc.get("extra", ()), scratch=scratch, heap="6g")
        m = STATS.findall(out)
        sim = SIMSTATS.findall(out)
        if rc != 0 or not (m or sim):
            raise MachineryError("the specification %s violates its own properties or failed:\n%s" % (mc["module"], out[-4000:]))
        r.append(dict(module=mc["module"], cfg=mc.get("cfg", mc["module"]), transitions=int(m[-1][0]) if m else int(sim[-1]),
                      states=int(m[-1][1]) if m else int(sim[-1]), exhaustive=bool(m) and int(m[-1][2]) == 0, wall_s=round(time.time() - t0, 1)))
    return r


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--show", type=int, default=3)
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid.upper()
    outdir = os.path.join(ROOT, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        rc = check(a, pid, outdir, scratch, t0)
    except MachineryError as ex:
        print("ERROR %s: %s" % (pid, ex))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(a, pid, outdir, scratch, t0):
    try:
        mod = importlib.import_module("drivers." + pid.lower())
    except Exception:
        # an import failure of the code under test is no verdict
        raise
    tier = "thorough" if a.tier == "thorough" else "quick"
    known = known_findings(pid)
    if a.replay:
        rp = json.load(open(a.replay))
        cases = [rp["case"]]
    else:
        rng = random.Random("%s-%d-%s" % (pid, a.seed, tier))
        rkeys = random.Random("%s-%d-%s-keys" % (pid, a.seed, tier))
        cases = [k["case"] for k in known if "case" in k]
        seen = set(canon(c) for c in cases)
        for c in mod.cases(rng, tier):
            s = canon(c)
            if s not in seen:
                seen.add(s)
                if rkeys.random() < getattr(mod, "OWN_NAMES", 0):
                    c["own_names"] = rkeys.randint(1, 2)      # the log of this case uses its own attribute names
                cases.append(c)
        if a.cases:
            cases = cases[:a.cases]
    t_gen = time.time() - t0
    mcs_box = [[], None]

    def mc_thread():
        try:
            mcs_box[0] = model_checks(mod, tier, scratch)
        except BaseException as ex:
            mcs_box[1] = ex

    results, truncated = drive(mod, cases, scratch, 330 if tier == "quick" else 3000)
    t_drive = time.time() - t0
    env = getattr(mod, "ENV", {})
    bad, g, d = judge(mod, cases, results, scratch, env)
    t_judge = time.time() - t0
    if not a.replay:
        mc_thread()
        if mcs_box[1]:
            raise mcs_box[1]
    mcs = mcs_box[0]
    # ---- verdict
    viol, found = {}, {}
    sigf = getattr(mod, "signature", lambda case, ev, cl: sha(case))
    for i, ev, cl in bad:
        for c in cl:
            if c.startswith("spec_"):
                raise MachineryError("specification self-check failed: %s on %s" % (c, canon(cases[i])[:2000]))
            sig = sigf(cases[i], ev, c)
            hit = next((k for k in known if k["clause"] == c and k["sig"] == sig), None)
            if hit:
                found.setdefault(hit["id"], hit)
            else:
                viol.setdefault(i, []).append((c, ev, sig))
    for k in found.values():
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k["what"], k["id"]))
    for k in known:
        if k["id"] not in found and not a.replay:
            print("note: known finding %s did not reproduce in this run" % k["id"])
    n = 0
    byclause = {}
    for i in viol:
        for c, ev, sig in viol[i]:
            byclause[c] = byclause.get(c, 0) + 1
    shown = {}
    for i in sorted(viol, key=lambda i: (len(canon(cases[i])), i)):
        c = viol[i][0][0]
        shown[c] = shown.get(c, 0) + 1
        if shown[c] > a.show or n >= max(12, a.show):
            continue
        n += 1
        path = os.path.join(outdir, "replay-%s.json" % sha(cases[i])) if not a.replay else a.replay
        if not a.replay:
            with open(path, "w") as f:
                json.dump({"property": pid, "case": cases[i], "clauses": [x[0] for x in viol[i]], "sigs": [x[2] for x in viol[i]],
                           "events": [x[1] for x in viol[i]]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   clauses: %s  case: %s" % (sorted(set(x[0] for x in viol[i])), canon(cases[i])[:300]))
        print("   event: %s" % canon(viol[i][0][1])[:500])
    if viol:
        print("%d violating cases; per clause: %s" % (len(viol), byclause))
    # ---- evidence
    ntf = getattr(mod, "nontrivial", lambda case, evs: True)
    nt = sum(1 for i in results if ntf(cases[i], results[i]))
    kinds = {}
    for i in results:
        for e in results[i]:
            kinds[e.get("op", "?")] = kinds.get(e.get("op", "?"), 0) + 1
    idx = sorted(results)
    samples = [{"case": cases[i], "recorded": results[i][:3]} for i in idx[:: max(1, len(idx) // 3)][:3]]
    samples = [s if len(canon(s)) < 6000 else {"case": canon(s["case"])[:2000], "recorded": canon(s["recorded"])[:3000]} for s in samples]
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "model_checking",
          "coverage": {
              "states": d + sum(m["states"] for m in mcs) + sum(m["states"] for m in GENSTATS),
              "transitions": g + sum(m["transitions"] for m in mcs) + sum(m["transitions"] for m in GENSTATS),
              "traces_validated_against_impl": len(results),
              "distinct_nontrivial": nt,
              "rule": getattr(mod, "RULE", "every case is distinct by construction (duplicates are dropped)"),
              "events_by_kind": kinds,
              "trace_spec": {"module": mod.MODULE, "states": d, "transitions": g},
              "model_checked_designs": mcs, "model_generated_inputs": list(GENSTATS),
              "stopped_by_time_budget": truncated,
              "known_findings_seen": sorted(found),
              "samples": samples},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases (%d nontrivial) events=%s, TLC states=%d, MC=%s, gen %.1fs drive %.1fs judge %.1fs total %.1fs%s" % (
        pid, tier, a.seed, len(results), nt, kinds, ev["coverage"]["states"], [(m["module"], m["states"]) for m in mcs],
        t_gen, t_drive - t_gen, t_judge - t_drive, time.time() - t0, " TRUNCATED" if truncated else ""))
    return 1 if viol else 0


if __name__ == "__main__":
    # the drivers import this module as vf.core: make that the same object
    sys.modules["vf.core"] = sys.modules["__main__"]
    main()
