#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Decides one property of /repo's current tree by static analysis and writes evidence/<id>.json.
exit 0: every obligation discharged or listed as a known finding; exit 1: VIOLATION line printed.
"""
import json, os, sys, time, collections, hashlib, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import build, props

EVID = os.path.join(HERE, "evidence")


def known():
    """known-findings.txt: lines 'known: property=<id> key=<substring of the obligation key> :: text'"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)$", line.rstrip("\n"))
            if m:
                out.append(m.groups())
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    obls, extra = [], {}
    try:
        obls, extra = props.run(pid, tier)
    except build.BuildError as e:
        # the tree (in one of the configurations the property quantifies over) does not build
        obls = [{"key": "build", "verdict": "violation", "what": "the crate does not build in a supported configuration", "detail": str(e)[-3000:], "loc": "Cargo.toml"}]
    kn = [k for k in known() if k[0] == pid]
    bad, kf = [], []
    for o in obls:
        if o["verdict"] == "violation":
            hit = next((k for k in kn if re.fullmatch(k[1], o["key"])), None)
            (kf if hit else bad).append((o, hit))
    os.makedirs(EVID, exist_ok=True)
    cnt = collections.Counter(o["verdict"] for o in obls)
    und = collections.defaultdict(int)
    for o in obls:
        if o["verdict"] == "undecided":
            und[o.get("what", o["key"]) + ": " + o.get("detail", "")[:80]] += 1
    samples = []
    step = max(1, len(obls) // 12)
    for o in obls[::step][:12]:
        samples.append({k: str(v)[:200] for k, v in o.items() if k in ("key", "verdict", "rule", "loc", "mode")})
    cov = {
        "explanation": P["rule"],
        "obligations": len(obls), "discharged": cnt["ok"], "violations": len(bad), "known_findings": len(kf), "undecided": cnt["undecided"],
        "undecided_detail": dict(sorted(und.items(), key=lambda x: -x[1])[:40]),
        "samples": samples,
    }
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "wall_s": round(time.time() - t0, 1)}
    replay = None
    if bad:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, pid + ".json")
        json.dump([{k: v for k, v in o.items()} for o, _ in bad][:400], open(replay, "w"), indent=1, default=str)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    for k in kn:
        hits = [o for o, h in kf if h is k]
        if hits:
            print("KNOWN-FINDING: property=%s %s (%d site(s), e.g. %s)" % (pid, k[2], len(hits), hits[0]["key"]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violations, %d known; %.1fs" % (pid, len(obls), cnt["ok"], cnt["undecided"], len(bad), len(kf), time.time() - t0))
    if bad:
        g = collections.OrderedDict()
        for o, _ in bad:
            g.setdefault((o.get("what", o["key"]), o.get("loc", "")), []).append(o)
        for (w, loc), os_ in list(g.items())[:20]:
            print("  %s at %s [%s]: %s" % (w, loc, ",".join(sorted({x.get("cfg", "") for x in os_}))[:80], str(os_[0].get("detail", ""))[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    import engine
    code = engine.in_big_stack(main)
    sys.stdout.flush()
    os._exit(code)
