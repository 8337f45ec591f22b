#!/usr/bin/env python3
"""Run the deterministic simulation of one property: build, explore seeds, gate and minimise violations, write evidence.

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed (build, non-determinism).
"""
import argparse, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{VERIF}/sim")
import build as B  # noqa: E402

WORKERS = int(os.environ.get("MM2_WORKERS", "8"))


def log(*a):
    print(*a, flush=True)


def load_known():
    out = []
    p = f"{VERIF}/known_findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


class Runner:
    def __init__(self, exe, prop, tier, limit):
        self.exe, self.prop, self.tier, self.limit = exe, prop, tier, limit
        self.slot = f"{prop}.{os.getpid() % 10**9}"
        self.tmp = f"{B.OUT}/tmp"
        os.makedirs(self.tmp, exist_ok=True)

    def cmd(self, *a):
        return [self.exe, "--prop", self.prop, "--tier", self.tier, *map(str, a)]

    def one(self, *a, limit=None):
        """one run in a fresh process -> dict(v=(kind, detail)|None, hash, P, D, F, O)"""
        lim = limit or self.limit
        try:
            r = subprocess.run(self.cmd("--n", 1, "--full", "--limit", lim, "--slot", self.slot + ".r", *a),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace",
                               timeout=lim + 60)
        except subprocess.TimeoutExpired:
            return None
        d = dict(v=None, hash=None, P=[], D=[], F=[], O=(0, 0), seed=None)
        for line in r.stdout.splitlines():
            f = line.split("\t")
            if f[0] == "V":
                d["v"], d["hash"], d["seed"] = (f[3], f[4] if len(f) > 4 else ""), f[2], int(f[1])
            elif f[0] == "OK":
                d["hash"], d["seed"] = f[2], int(f[1])
            elif f[0] == "P":
                d["P"].append((f[1], int(f[2]), int(f[3])))
            elif f[0] == "O":
                d["O"] = (int(f[1]), int(f[2]))
            elif f[0] == "D":
                d["D"].append((int(f[1]), int(f[2])))
            elif f[0] == "F":
                d["F"].append((f[1], int(f[2]), int(f[3])))
        return d


def plan_text(prop, seed, P, F, D, drop):
    L = [f"prop {prop}", f"seed {seed}", "mode plan"]
    L += [f"param {n} {v}" for n, v in P]
    L += [f"drop {i}" for i in drop]
    L += [f"fault {k} {n} {a}" for k, n, a in F]
    L += [f"dev {s} {t}" for s, t in D]
    return "\n".join(L) + "\n"


def minimise(R, seed, first, path, deadline, maxtests=1500):
    """shrink parameters, operations, faults and schedule deviations while the same kind of violation remains"""
    kind = first["v"][0]
    cur = dict(P=[(n, v) for n, v, _ in first["P"]], F=first["F"], D=first["D"], drop=[])
    lo = {n: l for n, _, l in first["P"]}
    best = [None]
    tests = [0]

    def test(c):
        if time.time() > deadline or tests[0] >= maxtests:
            return False
        tests[0] += 1
        tmp = path + ".try"
        open(tmp, "w").write(plan_text(R.prop, seed, c["P"], c["F"], c["D"], c["drop"]))
        r = R.one("--replay", tmp)
        os.remove(tmp)
        if r and r["v"] and r["v"][0] == kind:
            best[0] = r
            return True
        return False

    if not test(cur):
        return None, None, tests[0]

    def ddmin(key, items, chunk_to=1):
        n = max(1, len(items) // 2)
        while n >= chunk_to and items:
            i, changed = 0, False
            while i < len(items):
                cand = items[:i] + items[i + n:]
                if test({**cur, key: cand}):
                    items, changed = cand, True
                    cur[key] = items
                else:
                    i += n
            if n == 1 and not changed:
                break
            n = max(1, n // 2) if n > 1 else (1 if changed else 0)
            if n == 0:
                break
        return items

    def ops():
        n = best[0]["O"][0]
        if not n:
            return
        left = [i for i in range(n) if i not in set(cur["drop"])]
        k = max(1, len(left) // 2)
        while k >= 1 and left:
            i, changed = 0, False
            while i < len(left):
                gone = left[i:i + k]
                if test({**cur, "drop": sorted(cur["drop"] + gone)}):
                    cur["drop"] = sorted(cur["drop"] + gone)
                    left = left[:i] + left[i + k:]
                    changed = True
                else:
                    i += k
            if k == 1:
                break
            k //= 2

    for _ in range(2):
        before = json.dumps(cur, default=str)
        ddmin("F", cur["F"])
        ops()
        for i, (n, v) in enumerate(list(cur["P"])):
            for cand in (lo[n], (lo[n] + v) // 2, v - 1):
                if cand < cur["P"][i][1] and cand >= lo[n]:
                    p = list(cur["P"])
                    p[i] = (n, cand)
                    if test({**cur, "P": p}):
                        cur["P"] = p
                        break
        ddmin("D", cur["D"])
        if json.dumps(cur, default=str) == before or time.time() > deadline:
            break
    return cur, best[0], tests[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    tgt = next((t for t in B.TARGETS if prop in t["props"]), None)
    if not tgt:
        log(f"no target for {prop}")
        return 2
    opt = tgt.get("opt", {}).get(prop, {})
    B.build([tgt["name"]])
    t_build = time.time() - t0
    exe = f"{B.OUT}/bin/{tgt['name']}"
    limit = opt.get("limit", 60)
    R = Runner(exe, prop, tier, limit)

    if a.replay:
        r = R.one("--replay", a.replay, limit=300)
        if r and r["v"]:
            log(f"reproduced: {r['v'][0]}: {r['v'][1]} (hash {r['hash']})")
            log(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        log("no violation on replay")
        return 0

    budget = a.budget or (opt.get("quick", 40) if tier == "quick" else opt.get("thorough", 1500))
    # seed ranges of different VERIF_SEED values do not overlap
    base = (seed % 1_000_000) * 100_000_000 + 1
    log(f"property {prop} tier {tier} VERIF_SEED {seed} first seed {base} workers {WORKERS} budget {budget:.0f}s build {t_build:.1f}s")
    known = [k for k in load_known() if k["property"] == prop]

    rc = 0
    for k in known:
        r = R.one("--replay", f"{VERIF}/{k['replay']}", limit=300)
        if r and r["v"] and r["v"][0] == k["kind"] and re.search(k["match"], r["v"][1]):
            log(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            log(f"note: known finding '{k['what']}' did not reproduce")

    procs = []
    t1 = time.time()
    for w in range(WORKERS):
        out = open(f"{R.tmp}/{R.slot}.{w}.out", "w+")
        procs.append((subprocess.Popen(
            R.cmd("--seed", base + w, "--n", 10**9, "--stride", WORKERS, "--budget", budget, "--limit", limit,
                  "--slot", f"{R.slot}.{w}", "--hashes", "--maxv", 400 if known else 1),
            stdout=out, stderr=subprocess.DEVNULL), out))
    for p, _ in procs:
        try:
            p.wait(timeout=budget + limit + 60)
        except subprocess.TimeoutExpired:
            p.kill()
    t_explore = time.time() - t1
    hashes, viols, counters, states, samples = {}, [], {}, set(), []
    runs = nontriv = steps = simns = switches = 0
    for p, out in procs:
        out.seek(0)
        for line in out:
            f = line.rstrip("\n").split("\t")
            if f[0] == "H":
                hashes[int(f[1])] = (f[2], f[3])
            elif f[0] == "V":
                viols.append((int(f[1]), f[2], f[3], f[4] if len(f) > 4 else ""))
            elif f[0] == "R":
                runs += int(f[1]); nontriv += int(f[2]); steps += int(f[3]); simns += int(f[4]); switches += int(f[5])
            elif f[0] == "C":
                counters[f[1]] = counters.get(f[1], 0) + int(f[2])
            elif f[0] == "S" or line.startswith("S"):
                states.update(line.split()[1:])
            elif f[0] == "X" and len(samples) < 8:
                samples.append(f[1])
        out.close()
    for w in range(WORKERS):
        try:
            os.remove(f"{R.tmp}/{R.slot}.{w}.out")
        except OSError:
            pass

    unknown, known_hits = [], 0
    for v in sorted(viols):
        if any(v[2] == k["kind"] and re.search(k["match"], v[3]) for k in known):
            known_hits += 1
        else:
            unknown.append(v)

    # determinism self test: a sample of the passing seeds again, in fresh processes
    bad = {v[0] for v in viols}
    sample = [s for s in sorted(hashes) if s not in bad]
    k = max(1, len(sample) // 48)
    sample = sample[::k][:48] if not unknown else []
    mism = []

    ps = []
    for i in range(0, len(sample)):
        s = sample[i]
        ps.append((s, subprocess.Popen(R.cmd("--seed", s, "--n", 1, "--hashes", "--limit", 300, "--slot", f"{R.slot}.d{i}"),
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        if len(ps) == WORKERS or i == len(sample) - 1:
            for s, p in ps:
                o = p.communicate()[0]
                m = re.search(r"^H\t\d+\t(\w+)\t", o, re.M)
                if not m or m.group(1) != hashes[s][0]:
                    mism.append(s)
            ps = []

    replay_path = None
    confirmed = None
    unconfirmed = []
    if unknown:
        os.makedirs(f"{B.OUT}/replays", exist_ok=True)
        seen = set()
        for sd, h, kind, detail in unknown:
            if kind in seen and len(seen) > 3:
                continue
            seen.add(kind)
            r1 = R.one("--seed", sd, limit=max(limit, 300))
            if not (r1 and r1["v"] and r1["v"][0] == kind and (r1["hash"] == h or kind == "hang")):
                unconfirmed.append((sd, kind, detail))
                continue
            confirmed = (sd, h, kind, detail, r1)
            break
    if confirmed:
        sd, h, kind, detail, r1 = confirmed
        replay_path = f"{B.OUT}/replays/{prop}-{kind}-{sd}.replay"
        deadline = time.time() + (90 if tier == "quick" else 600)
        cur = best = None
        ntests = 0
        if kind != "hang" and not r1["O"][1]:
            cur, best, ntests = minimise(R, sd, r1, replay_path, deadline)
        ok = False
        if cur:
            open(replay_path, "w").write(plan_text(prop, sd, cur["P"], cur["F"], cur["D"], cur["drop"]))
            a1, a2 = R.one("--replay", replay_path), R.one("--replay", replay_path)
            ok = bool(a1 and a2 and a1["v"] and a2["v"] and a1["v"][0] == kind and a1["hash"] == a2["hash"])
            if ok:
                detail = a1["v"][1]
        if not ok:  # the seed alone reproduces it
            open(replay_path, "w").write(f"prop {prop}\nseed {sd}\n")
            ok = True
        log(f"violation: seed {sd} kind {kind}: {detail}")
        if cur:
            log(f"minimised with {ntests} replays: {len(cur['D'])} schedule deviations (of {len(r1['D'])}), "
                f"{len(cur['F'])} faults (of {len(r1['F'])}), {len(cur['drop'])} of {r1['O'][0]} generated operations dropped")
            log("parameters: " + " ".join(f"{n}={v}" for n, v in cur["P"]))
            for x in cur["F"][:20]:
                log(f"  fault {x[0]} occurrence {x[1]} argument {x[2]}")
            for x in cur["D"][:40]:
                log(f"  at step {x[0]} run thread {x[1]}")
        log(f"replay with: python3 /verif/check.py {prop} --replay {replay_path}")
        log(f"VIOLATION property={prop} replay={replay_path}")
        rc = 1
    elif unconfirmed:
        log(f"ERROR: violations that do not repeat (simulator not deterministic): {unconfirmed[:3]}")
        rc = 2
    elif mism:
        log(f"ERROR: runs that do not repeat: seeds {mism[:5]}")
        rc = 2
    elif runs == 0 or nontriv == 0:
        log("ERROR: nothing explored")
        rc = 2

    desc = next(iter(subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()), "")
    for line in subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        if line.startswith(prop + "\t"):
            desc = line
    d = (desc.split("\t") + ["", "", ""])[:3]
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault:")}
    probes = {k: v for k, v in counters.items() if not k.startswith("fault:")}
    ev = dict(property=prop, tier=tier, seed=seed, level=tgt.get("level", {}).get(prop, "exploration"),
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=len(states),
                  rule="one evaluation is one simulated run of one seed; non-trivial when the scenario marks that the "
                       "property was exercised; distinct by the hash of thread switch sequence and scenario results",
                  samples=samples or ["none"],
                  nontrivial_runs=nontriv, runs_per_hour=int(runs / max(t_explore, 0.001) * 3600),
                  first_seed=base, simulated_seconds=simns / 1e9, steps=steps, thread_switches=switches,
                  faults_injected=faults, probes=probes,
                  real_components=d[1], stub_components=d[2],
                  determinism=dict(reruns=len(sample), mismatches=len(mism)),
                  known_finding_hits=known_hits, build_s=round(t_build, 1), explore_s=round(t_explore, 1)),
              assumptions=["x86-64 Linux, clang 18 build of the working tree; sequentially consistent memory (no weak memory reorderings)",
                           "components listed as stub are not exercised"],
              wall_s=round(time.time() - t0, 1), violations=len(unknown))
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open((f"{VERIF}/evidence" if B.REPO == "/repo" else B.OUT) + f"/{prop}.json", "w"), indent=1)
    log(f"{prop}: {runs} runs ({nontriv} non-trivial, {len(states)} distinct), {steps} steps, {simns/1e9:.1f} simulated s, "
        f"faults {faults}, {t_explore:.0f}s exploring, {time.time()-t0:.0f}s total")
    return rc


if __name__ == "__main__":
    sys.exit(main())
