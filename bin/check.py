#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Builds the programs from /repo's current tree, executes the property's scenarios
symbolically, replays what the solver found against the compiled program, and
writes evidence/PROPERTY.json.

Exit 0: the property held on everything explored.  Exit 1: VIOLATION lines.
Exit 2: no verdict (the tree does not build, or nothing could be explored)."""
import traceback, argparse, collections, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plans

ROOT = build.ROOT
NAMES = re.compile(r"(8limabean|16limabean_booking|20beancount_parser_lima|21beancount_parser_lima|12limabean_pod)")


def readable(m):
    """a readable form of a mangled name: its identifiers"""
    out, i = [], 0
    while i < len(m):
        if m[i].isdigit() and m[i] != "0":
            j = i
            while j < len(m) and m[j].isdigit():
                j += 1
            n = int(m[i:j])
            k = j + 1 if j < len(m) and m[j] == "_" else j
            if k + n <= len(m) and re.match(r"[A-Za-z_]", m[k:k + 1] or "-"):
                w = m[k:k + n]
                if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", w):
                    out.append(w)
                    i = k + n
                    continue
            i = j
        else:
            i += 1
    return "::".join(out[:6])


def symx(b, scens, limit, jobs, tag):
    d = os.path.join(build.B, f"run.{tag}.{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = os.path.join(d, "r.jsonl")
    cmd = [b["engine"], "run", "--prog", "pod=" + b["bins"]["limabean-pod"][0]]
    if any(s.startswith(("C21", "C27")) for s in scens):
        cmd += ["--prog", "launcher=" + b["bins"]["limabean"][0]]
    cmd += ["--harness", b["oracle"], "--out", out, "--jobs", str(jobs), "--limit", str(limit), "--witness", "12"]
    p = subprocess.run(cmd + scens, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit + 120)
    res = []
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                try:
                    res.append(json.loads(line))
                except ValueError:
                    build.log("unreadable result line")
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0:
        build.log(p.stderr.decode("utf-8", "replace")[-2000:])
    return res


def replay(b, scen, inputs, show=False):
    bins = [b["bins"]["limabean-pod"][1], b["bins"]["limabean"][1]]
    cmd = [b["replay"]] + (["--show"] if show else []) + [scen, ",".join(map(str, inputs))] + bins
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        return 4, [], "", ""
    out = p.stdout.decode("utf-8", "replace")
    runs = [[int(v) for v in l.split()[1:]] for l in out.split("\n") if l.startswith("RUN ")]
    msg = next((l[5:] for l in out.split("\n") if l.startswith("FAIL ")), "")
    return p.returncode, runs, msg, out


def known_findings():
    """lines `finding: property=ID tag=TAG what`; a scenario reports the tag for exactly that failure"""
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+tag=(\S+)\s+(.*)", line)
            if m:
                r.append(m.groups())
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    plan = plans.PLANS[a.prop]
    tier = a.tier
    scens = list(plan["quick"]) + (list(plan.get("thorough", [])) if tier == "thorough" else [])
    if a.only:
        scens = a.only.split(",")
    limit = plan.get("limit", {}).get(tier, 600 if tier == "quick" else 3000)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        b = build.all_()
    except (build.BuildError, subprocess.TimeoutExpired) as e:
        print("no verdict: the tree does not build")
        print(e)
        return 2
    tb = time.time() - t0
    res = symx(b, scens, limit, a.jobs, a.prop)

    tot = collections.Counter()
    per = collections.defaultdict(collections.Counter)
    reach = collections.defaultdict(collections.Counter)
    viol = collections.defaultdict(list)
    wit = collections.defaultdict(list)
    msgs = collections.Counter()
    funcs = set()
    for r in res:
        s = r["scenario"]
        for k, v in r.items():
            if isinstance(v, int):
                if k in ("ms", "max_query_us"):
                    tot[k] = max(tot[k], v)
                    per[s][k] = max(per[s][k], v)
                else:
                    tot[k] += v
                    per[s][k] += v
        for k, v in r.get("reach", {}).items():
            reach[s][k] += v
        viol[s] += r.get("viol", [])
        wit[s] += r.get("witness", [])
        for m in r.get("msgs", []):
            msgs[(s, re.sub(r" \[\{.*", "", m)[:200])] += 1
        funcs.update(r.get("funcs", []))

    # what the solver found, against the compiled program
    confirmed, unconfirmed, known = [], [], {}
    kf = {(p, t): w for p, t, w in known_findings()}
    todo = []
    for s, vs in viol.items():
        bymsg = collections.defaultdict(list)
        for v in vs:
            bymsg[v["msg"]].append(v)
        for m, l in sorted(bymsg.items()):
            l.sort(key=lambda v: (len(v["inputs"]), v["inputs"]))
            todo += [(s, v) for v in l[:4]]
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda x: replay(b, x[0], x[1]["inputs"]), todo))
    for (s, v), (code, runs, msg, _) in zip(todo, rs):
        tag = re.match(r"\[(\w[\w.-]*)\]", v["msg"])
        if code == 1:
            if tag and (a.prop, tag.group(1)) in kf and msg.startswith(tag.group(0)):
                known[tag.group(1)] = known.get(tag.group(1), 0) + 1
            else:
                confirmed.append((s, v["inputs"], msg))
        else:
            unconfirmed.append((s, v["inputs"], v["msg"], code))

    # sampled paths: the executor's answer is the program's answer
    rnd = random.Random(seed)
    sample = []
    for s in sorted(wit):
        l = wit[s]
        rnd.shuffle(l)
        sample += [(s, w) for w in l[: 24 if tier == "quick" else 100]]
    with ThreadPoolExecutor(8) as ex:
        ws = list(ex.map(lambda x: replay(b, x[0], x[1]["inputs"]), sample))
    validated, differ = 0, []
    shown = []
    for (s, w), (code, runs, msg, _) in zip(sample, ws):
        tag = re.match(r"\[(\w[\w.-]*)\]", msg)
        if code == 1:
            if not (tag and (a.prop, tag.group(1)) in kf):
                confirmed.append((s, w["inputs"], msg + " (found while validating sampled paths)"))
        elif code == 0 and [[r[0], r[1], r[3]] for r in runs] == [[r[0], r[1], r[3]] for r in w["runs"]]:
            validated += 1
            if len(shown) < 4:
                shown.append({"scenario": s, "inputs": w["inputs"], "exit,length,hash,multiset": runs})
        else:
            differ.append({"scenario": s, "inputs": w["inputs"], "code": code, "native": runs, "executor": w["runs"]})

    expect = set(s for s in scens)
    done = set(s for s in per if per[s]["paths"] > 0)
    missing = sorted(expect - done)
    vac = sorted(s for s in done if not reach[s])
    ev = {
        "property": a.prop,
        "tier": "thorough" if tier == "thorough" else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["steps"],
            "traces_validated_against_impl": validated,
            "samples": shown or [{"note": "no path completed"}],
            "what": "paths of the program's LLVM IR executed symbolically; every path stands for all values of "
                    "its symbolic inputs, and every assertion on it was decided by the SMT solver",
            "bounds": plan["bounds"],
            "outside": plan.get("outside", ""),
            "scenarios": {
                s: {
                    "paths": per[s]["paths"], "symbolic_branches": per[s]["sym_branches"],
                    "assertions": per[s]["asserts"], "assertions_on_symbolic_values": per[s]["asserts_sym"],
                    "queries": per[s]["queries"], "unsat": per[s]["unsat"], "sat": per[s]["sat"],
                    "unknown": per[s]["unknown"],
                    "solver_s": round(per[s]["solver_us"] / 1e6, 2), "inconclusive": per[s]["inconclusive"],
                    "executor_errors": per[s]["errors"], "reached": dict(reach[s]),
                } for s in sorted(per) if s != "*"
            },
            "queries_discharged": tot["queries"], "queries_unknown": tot["unknown"],
            "solver_s": round(tot["solver_us"] / 1e6, 2), "longest_query_s": round(tot["max_query_us"] / 1e6, 3),
            "inconclusive_paths": tot["inconclusive"], "executor_errors": tot["errors"],
            "crashed_workers": tot["crashed"],
            "exhaustive_within_bounds": not missing and not tot["inconclusive"] and not tot["errors"] and not tot["crashed"],
            "not_explored": missing, "without_reach_marks": vac,
            "notes": [f"{s}: {m} ({n})" for (s, m), n in msgs.most_common(12)],
            "functions_encoded": len(funcs),
            "functions_of_the_repository_and_its_booking_and_parser_crates":
                sorted(set(readable(f.split(":", 1)[-1]) for f in funcs if f.startswith(("pod:", "launcher:")) and NAMES.search(f)))[:400],
            "sampled_paths_replayed": len(sample), "sampled_paths_that_differ": differ[:5],
            "violations_not_reproduced": [list(map(str, u)) for u in unconfirmed[:10]],
            "known_findings_seen": known,
            "tree": b["tree"], "build_s": round(tb, 1),
        },
        "assumptions": plans.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop}: {tot['paths']} paths, {tot['queries']} queries, {tot['solver_us'] / 1e6:.1f} s of solving, "
          f"{tot['inconclusive']} inconclusive, {tot['errors']} executor errors, {validated}/{len(sample)} sampled paths "
          f"match the compiled program, {time.time() - t0:.0f} s")
    for s, inp, m, code in unconfirmed[:5]:
        print(f"not reproduced by the compiled program ({code}): {s} {inp}: {m}")
    for d in differ[:3]:
        print("differs from the compiled program:", d)
    for t, n in sorted(known.items()):
        print(f"KNOWN-FINDING: property={a.prop} {kf[(a.prop, t)]}")
    if confirmed:
        seen = set()
        k = 0
        for s, inp, m in confirmed:
            if (s, m) in seen or k >= 5:
                continue
            seen.add((s, m))
            k += 1
            path = os.path.join(ROOT, "evidence", f"{a.prop}.violation{k}.txt")
            out = replay(b, s, inp, show=True)[3]
            with open(path, "w") as f:
                f.write(f"{m}\nscenario {s} with inputs {','.join(map(str, inp))}\n"
                        f"replay: {b['replay']} --show {s} {','.join(map(str, inp))} "
                        f"{b['bins']['limabean-pod'][1]} {b['bins']['limabean'][1]}\n\n{out}")
            print(f"  {s}: {m}")
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if missing or not done:
        print("no verdict: nothing explored for", missing)
        for (s, m), n in msgs.most_common(3):
            print(" ", s, m)
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        print("no verdict: the check itself failed")
        code = 2
    sys.exit(code)
