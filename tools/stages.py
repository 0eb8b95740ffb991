"""The steps a check is made of."""
import copy
import json
import os
import threading

from common import CheckError, ROOT, Run, text

ASSUMPTIONS = [
    "TLC evaluates the specification correctly",
    "documents, paths and values are drawn from the models and generators described in DESIGN.md",
]


def dump(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(r if isinstance(r, str) else json.dumps(r, separators=(",", ":")))
            f.write("\n")


def corrupt(out):
    """A copy of an outcome with one field changed."""
    o = copy.deepcopy(out)
    k = o.get("k")
    if k == "doc":
        o["d"] = o["d"] + [120]
    elif k == "res":
        o["r"]["s"] = o["r"]["s"] + [120]
    elif k == "conv":
        o["s"] = o["s"] + [120]
    elif k in ("st", "valid"):
        o["ok"] = not o["ok"]
    elif k == "many":
        o["rs"] = o["rs"] + o["rs"][:1] if o["rs"] else [{"t": "null", "s": [], "r": [], "a": []}]
    elif k == "map":
        o["m"] = o["m"] + [{"key": [120], "r": {"t": "null", "s": [], "r": [], "a": []}}]
    else:
        return None
    return o


# ---- exhaustive model ----
def explore(run, binary, workers):
    st = run.tlc_start("Explore", {"PID": run.pid, "TIER": run.tier}, workers)
    printed, gen, states = run.tlc_wait(st, 850 if run.quick else 7000)
    os.remove(run.path("Explore.log"))
    if not printed:
        raise CheckError("the model of %s has no transitions" % run.pid)
    # one transition with a wrong expectation: the replay has to notice it
    middle = len(printed) // 2
    canary = next(t for t in map(json.loads, printed[middle:] + printed[:middle]) if corrupt(t["exp"]))
    canary["exp"] = corrupt(canary["exp"])
    f = run.path("transitions.ndjson")
    dump(f, printed + [canary])
    left = run.path("open.ndjson")
    p = crash_aware(run, binary, ["replay", "-in", f, "-any", left])
    if p is None:
        return
    rows = [json.loads(x) for x in p.stdout.splitlines()]
    summary = rows.pop()
    if "summary" not in summary or summary["transitions"] != len(printed) + 1:
        raise CheckError("replay incomplete: " + json.dumps(summary))
    if not rows:
        raise CheckError("the replay accepted a corrupted expectation")
    bad = [r for r in rows if not (r["d"] == canary["d"] and r["exp"] == canary["exp"] and same_op(r["op"], canary["op"]))]
    run.count("states", states)
    run.count("transitions", len(printed))
    run.count("calls_replayed", summary["calls"])
    run.samples.append({"transition": text(json.loads(printed[len(printed) // 3]))})
    run.log("model: %d states, %d transitions, %d calls, %d differ" % (states, len(printed), summary["calls"], len(bad)))
    for r in bad[:10]:
        one = run.path("one.ndjson")
        dump(one, [{"d": r["d"], "reg": r.get("reg", []), "op": r["op"], "exp": r["exp"]}])
        q = run.drive(binary, ["replay", "-in", one])
        r["alone"] = '"bad":1' in q.stdout
        run.violation("transition", r)
    os.remove(f)
    lines = open(left).read().splitlines()
    if lines:
        judge(run, binary, lines, workers, "Open", 60000)
        run.count("open_transitions_judged", len(lines))


def same_op(a, b):
    return {k: v for k, v in a.items() if k not in ("via", "ind")} == {k: v for k, v in b.items() if k not in ("via", "ind")}


def panicked_inside(stderr):
    """Whether the driver ended with a panic whose innermost frame is the library's."""
    if "panic: " not in stderr or "[running]:" not in stderr:
        return False
    for line in stderr.split("[running]:", 1)[1].splitlines():
        if line and not line.startswith(("\t", "panic(", "runtime", "internal/", "strings.", "strconv.", "bytes.", "sort.", "slices.", "created by")):
            return line.startswith("github.com/netascode/xmldot")
    return False


def crash_aware(run, binary, args, timeout=900, mark="mark"):
    """Runs the driver; a crash or hang that repeats on the same input alone is a violation."""
    p = run.drive(binary, args + ["-mark", run.path(mark)], timeout)
    if p.returncode == 0:
        return p
    what = (p.stdout[-300:] + p.stderr[-3000:]).strip()
    fatal = p.returncode == 3 or "fatal error" in p.stderr or "goroutine stack exceeds" in p.stderr or "DATA RACE" in p.stderr
    fatal = fatal or panicked_inside(p.stderr)
    if p.returncode == 2 and not fatal:
        raise CheckError("driver failed: " + what)
    try:
        k = open(run.path(mark)).read().strip()
    except OSError:
        raise CheckError("driver died: " + what)
    q = run.drive(binary, args + ["-only", k], timeout)
    if q.returncode == 0:
        q = run.drive(binary, args + ["-mark", run.path(mark)], timeout)
        if q.returncode == 0:
            raise CheckError("driver died once and not again: " + what)
    first = [x for x in (q.stdout + "\n" + q.stderr).splitlines() if "HANG" in x or "fatal error" in x or "panic" in x or "DATA RACE" in x]
    run.violation("crash", {"args": args + ["-only", k], "exit": q.returncode, "message": (first or [what])[0][:500]})
    return None


# ---- recorded histories ----
def histories(run, binary, profile, n, workers, tag="Random", pid=None, seed=None):
    """Records n histories and has the specification judge them, in chunks."""
    seed = run.seed if seed is None else seed
    f = run.path(tag + ".ndjson")
    p = crash_aware(run, binary, ["gen", "-profile", profile, "-seed", str(seed), "-n", str(n), "-out", f])
    if p is None:
        return
    lines = open(f).read().splitlines()
    if len(lines) != n:
        raise CheckError("driver recorded %d of %d histories" % (len(lines), n))
    events = judge(run, binary, lines, workers, tag, 3000, pid)
    run.count("traces_validated_against_impl", n)
    run.count("events_validated", events)
    h = json.loads(lines[min(7, n - 1)])
    run.samples.append({"history": text({"d": h["d"], "ev": h["ev"][:3]})})


def judge(run, binary, lines, workers, tag, chunk, pid=None):
    """Has the specification judge recorded histories; returns the number of events."""
    f = run.path(tag + ".ndjson")
    n = len(lines)
    events, bad = 0, []
    for c in range(0, n, chunk):
        part = lines[c:c + chunk]
        # histories with one outcome changed have to be rejected (several, because
        # an answer may happen to be one the specification leaves open)
        cans = []
        for line in part:
            h = json.loads(line)
            for i, e in enumerate(h["ev"]):
                if tag == "Open":
                    changed = {"k": "no such answer"}
                elif "free" in e["op"]:
                    changed = None
                elif e["op"]["op"] in ("set", "valid", "del", "setraw", "reg", "has"):
                    changed = corrupt(e["out"])
                elif e["op"]["op"] not in ("load", "flood", "stress") and "|" not in json.dumps(text(e["op"])) and i == 0:
                    changed = corrupt(e["out"])
                else:
                    changed = None
                if changed:
                    e["out"] = changed
                    cans.append(dict(h, id=0))
                    break
            if len(cans) == 5:
                break
        if not cans:
            raise CheckError("no event to corrupt")
        dump(f, part + cans)
        st = run.tlc_start("Trace", {"TRACE": f, "PID": pid or run.pid}, workers, tag="Trace" + tag)
        printed, gen, states = run.tlc_wait(st, 850 if run.quick else 7000)
        rows = [json.loads(x) for x in printed]
        if not any(r["h"] == 0 for r in rows):
            raise CheckError("the specification accepted corrupted histories: " + json.dumps(text(cans[0]))[:600])
        bad += [r for r in rows if r["h"] != 0]
        events += sum(len(json.loads(x)["ev"]) for x in part)
    byid = {}
    for r in bad:
        byid.setdefault(r["h"], r)
    run.log("%s: %d histories, %d events, %d rejected" % (tag, n, events, len(byid)))
    for r in sorted(byid.values(), key=lambda r: (r["i"], r["h"]))[:10]:
        h = next(json.loads(x) for x in lines if json.loads(x)["id"] == r["h"])
        e = h["ev"][r["i"] - 1]
        one = run.path("one.ndjson")
        dump(one, [h])
        q = run.drive(binary, ["exec", "-in", one])
        again = None
        if q.returncode == 0 and q.stdout.strip():
            ev = json.loads(q.stdout.splitlines()[0])["ev"]
            again = len(ev) >= r["i"] and ev[r["i"] - 1]["out"] == e["out"]
        run.violation("history", {"mismatch": r["mismatch"], "event": r["i"], "op": e["op"], "got": e["out"], "exp": r["exp"],
                                  "alone": again, "history": {"id": h["id"], "d": h["d"], "ev": h["ev"][:r["i"]]}})
    return events


# ---- sizes of a megabyte and more ----
def limits(run, binary):
    """Both sides of every size limit, enumerated; and cases of random sizes, judged."""
    st = run.tlc_start("Limits", {"MODE": "cases"}, 1)
    printed, gen, states = run.tlc_wait(st, 300)
    canary = json.loads(printed[0])
    canary["exp"] = {"k": "size", "err": "no such error", "len": 0, "got": -1}
    parts = 4
    jobs = []
    for i in range(parts):
        f = run.path("cases-%d.ndjson" % i)
        part = printed[i::parts] + [canary]
        dump(f, part)
        jobs.append((f, len(part)))
    n = 40 if run.quick else 400
    g = run.path("sizes.ndjson")
    out = [None] * (parts + 1)

    def one(i):
        try:
            if i == parts:
                out[i] = crash_aware(run, binary, ["biggen", "-seed", str(run.seed), "-n", str(n), "-out", g], mark="mark-sizes")
            else:
                out[i] = crash_aware(run, binary, ["big", "-in", jobs[i][0]], mark="mark-%d" % i)
        except Exception as e:
            out[i] = e

    ts = [threading.Thread(target=one, args=(i,)) for i in range(parts + 1)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for o in out:
        if isinstance(o, Exception):
            raise o
    bad = 0
    for i, (f, size) in enumerate(jobs):
        if out[i] is None:
            continue
        rows = [json.loads(x) for x in out[i].stdout.splitlines()]
        if rows.pop().get("cases") != size:
            raise CheckError("size cases incomplete")
        if not any(r["exp"] == canary["exp"] for r in rows):
            raise CheckError("the replay accepted a corrupted size case")
        for r in rows:
            if r["exp"] != canary["exp"]:
                bad += 1
                run.violation("size", r)
    run.count("size_cases_replayed", len(printed))
    if out[parts] is None:
        return
    rows = [json.loads(x) for x in open(g)]
    can = copy.deepcopy(next(r for r in rows if r["out"]["k"] == "size" and r["c"]["kind"] in ("doc", "value")))
    can["id"] = 0
    can["out"]["len"] += 1
    dump(g, rows + [can])
    st = run.tlc_start("Limits", {"MODE": "trace", "TRACE": g}, 1)
    printed, gen, states = run.tlc_wait(st, 300)
    wrong = {json.loads(x)["i"]: json.loads(x)["exp"] for x in printed}
    if 0 not in wrong:
        raise CheckError("the specification accepted a corrupted size case")
    for r in rows:
        if r["id"] in wrong:
            bad += 1
            run.violation("size", {"c": r["c"], "got": r["out"], "exp": wrong[r["id"]]})
    run.count("size_cases_judged", len(rows))
    run.samples.append({"size": rows[0]})
    run.log("sizes: %d enumerated, %d judged, %d differ" % (sum(s - 1 for _, s in jobs), len(rows), bad))


# ---- concurrency ----
def race_aware(run, binary, args, race, mark):
    """Runs a concurrent mode; a reported data race in the library is a violation."""
    p = run.drive(binary, args + ["-mark", run.path(mark)], 900, {"GORACE": "halt_on_error=1 exitcode=66"})
    if p.returncode == 0:
        return p
    what = p.stdout[-300:] + p.stderr[:6000]
    lib = "netascode/xmldot" in p.stderr
    if ("DATA RACE" in p.stderr or "concurrent map" in p.stderr) and lib:
        run.violation("race", {"args": args, "report": what})
        return None
    return crash_aware(run, binary, args, mark=mark)


def concurrent(run, binary):
    """Step-by-step model of concurrent queries; pools of calls made concurrently, judged one by one."""
    st = run.tlc_start("Concurrent", {}, 2, cfg="Concurrent" if run.quick else "ConcurrentBig", heap="3g")
    raced = run.build(race=True)
    n = (12, 40) if run.quick else (60, 300)
    for b, pools, tag in ((raced, n[0], "Race"), (binary, n[1], "Plain")):
        f = run.path(tag + ".ndjson")
        p = race_aware(run, b, ["conc", "-seed", str(run.seed), "-n", str(pools), "-out", f], b == raced, "mark-" + tag)
        if p is None:
            continue
        lines = open(f).read().splitlines()
        if len(lines) < pools * 420:
            raise CheckError("driver recorded %d outcomes" % len(lines))
        events = judge(run, binary, lines, 6, tag, 12000)
        run.count("traces_validated_against_impl", len(lines))
        run.count("concurrent_calls", int(p.stdout.split()[0]))
        h = json.loads(lines[len(lines) // 2])
        run.samples.append({"concurrent call": text({"d": h["d"], "ev": h["ev"][-1:]})})
    printed, gen, states = run.tlc_wait(st, 850)
    run.count("states", states)
    run.count("transitions", gen)


def linearizable(run, binary):
    """Concurrent rounds on the registry: each has to have a sequential explanation."""
    raced = run.build(race=True)
    n = (1500, 5000) if run.quick else (10000, 60000)
    for b, rounds, tag in ((raced, n[0], "Race"), (binary, n[1], "Plain")):
        f = run.path("rounds-" + tag + ".ndjson")
        p = race_aware(run, b, ["regconc", "-seed", str(run.seed), "-n", str(rounds), "-out", f], b == raced, "mark-" + tag)
        if p is None:
            continue
        lines = open(f).read().splitlines()
        if len(lines) != rounds:
            raise CheckError("driver recorded %d rounds" % len(lines))
        # a round with one outcome changed must have no explanation
        can = json.loads(next(x for x in lines if any(e["op"]["op"] == "has" and e["op"]["name"] == list(b"sort") for e in json.loads(x)["ev"])))
        can["id"] = 0
        for e in can["ev"]:
            if e["op"]["op"] == "has" and e["op"]["name"] == list(b"sort"):
                e["out"]["ok"] = not e["out"]["ok"]
        overlap = 0
        explained = set()
        for c in range(0, rounds, 10000):
            part = lines[c:c + 10000]
            dump(f, part + [can])
            st = run.tlc_start("Registry", {"TRACE": f}, 4)
            printed, gen, states = run.tlc_wait(st, 850)
            explained |= {json.loads(x)["done"] for x in printed}
            run.count("linearization_states", states)
        if 0 in explained:
            raise CheckError("the specification accepted a corrupted round")
        bad = [json.loads(x) for x in lines if json.loads(x)["id"] not in explained]
        for x in lines:
            ev = json.loads(x)["ev"]
            overlap += any(a["inv"] < b["ret"] and b["inv"] < a["ret"] for a in ev for b in ev if a["g"] < b["g"])
        run.count("traces_validated_against_impl", rounds)
        run.count("rounds_with_overlap", overlap)
        run.log("rounds (%s): %d, overlapping: %d, unexplained: %d" % (tag, rounds, overlap, len(bad)))
        for r in bad[:5]:
            run.violation("round", {"round": r})


# ---- findings recorded in KNOWN_FINDINGS.jsonl ----
def probes(run, binary):
    """Each known finding is one call with the outcome it has today."""
    for line in open(os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")):
        line = line.strip()
        if not line or line.startswith("fixed:") or line.startswith("#"):
            continue
        k = json.loads(line)
        if k["property"] != run.pid:
            continue
        one = run.path("probe.ndjson")
        asb = lambda s: list(s.encode())
        op = {"op": k["op"], "ci": False, "ind": [], "via": 0, "p": asb(k["path"])}
        if "value" in k:
            op["v"] = {"k": "str", "v": asb(k["value"]), "g": "string"}
        dump(one, [{"id": 1, "d": asb(k["doc"]), "ev": [{"op": op, "out": {}}]}])
        q = run.drive(binary, ["exec", "-in", one])
        if q.returncode != 0:
            raise CheckError("probe failed: " + q.stderr[-500:])
        out = text(json.loads(q.stdout.splitlines()[0])["ev"][0]["out"])
        got = [out.get("err"), out.get("d")] if k["op"] in ("set", "del") else [out["r"]["t"], out["r"]["s"] or ""]
        run.count("known_findings_probed", 1)
        if got == k["got"]:
            run.known.append(k["what"])
        elif got != k["want"]:
            run.violation("probe", {"finding": k, "now": got})


def replay_file(path):
    r = json.load(open(path))
    run = Run("replay", "quick", r.get("seed", 1))
    binary = run.build()
    if r["kind"] == "transition":
        one = run.path("one.ndjson")
        dump(one, [{"d": r["d"], "reg": r.get("reg", []), "op": r["op"], "exp": r["exp"]}])
        q = run.drive(binary, ["replay", "-in", one])
        print(q.stdout)
        return 1 if '"bad":1' in q.stdout else 0
    if r["kind"] == "history":
        one = run.path("one.ndjson")
        dump(one, [dict(r["history"], id=1)])
        q = run.drive(binary, ["exec", "-in", one])
        got = json.loads(q.stdout.splitlines()[0])["ev"][r["event"] - 1]["out"]
        print(json.dumps({"op": text(r["op"]), "got": text(got), "exp": text(r["exp"])}, indent=1))
        return 1 if got != r["exp"] else 0
    if r["kind"] == "crash":
        q = run.drive(binary, r["args"])
        print(q.stdout[-500:], q.stderr[-1500:])
        return 1 if q.returncode else 0
    if r["kind"] == "size":
        one = run.path("one.ndjson")
        dump(one, [{"c": r["c"], "exp": r["exp"]}])
        q = run.drive(binary, ["big", "-in", one])
        print(q.stdout)
        return 1 if '"got"' in q.stdout else 0
    print(json.dumps(r, indent=1))
    return 1
