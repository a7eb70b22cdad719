"""Memory safety and panic freedom, decided on unoptimised (inlined, overflow-checked) IR of every entry point.

memory: every access lies inside the object its pointer was derived from (fixed offsets directly, computed
offsets by their bit-level value set), no access claims more alignment than its object guarantees, nothing is
written through a shared reference or by-value argument, no null or dangling pointer is dereferenced, and no
result word is computed from uninitialised memory.
panic: the condition under which each panic call (bounds check, overflow check, unwrap, assert, ...) is reached
is false for every input."""
import os, time, signal, collections
import multiprocessing as mp
import build, llir, bdd

MODS = {}
CHUNK = 24


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def undef_paths(t, cond=llir.TRUE, seen=None, depth=0):
    """conditions under which an undefined leaf is what t evaluates (ite structure followed, other operands all)"""
    out = []
    stack = [(t, cond)]
    done = set()
    while stack:
        x, c = stack.pop()
        if (x, c) in done:
            continue
        done.add((x, c))
        if len(done) > 20000:
            return None
        n = llir.nd(x)
        if n[0] == "undef":
            out.append(c)
        elif n[0] == "ite":
            stack.append((n[1], c))
            stack.append((n[2], llir.mk_band(c, n[1])))
            stack.append((n[3], llir.mk_band(c, llir.mk_not(n[1]))))
        elif n[0] in ("c", "in", "ptr"):
            continue
        else:
            for y in children(n):
                stack.append((y, c))
    return out


LEAD = {"and": 1, "or": 1, "xor": 1, "add": 1, "sub": 1, "mul": 1, "shl": 1, "lshr": 1, "ashr": 1, "udiv": 1, "urem": 1, "sdiv": 1, "srem": 1,
        "zext": 1, "sext": 1, "trunc": 1, "fptosi": 1, "fptoui": 1, "fcmp": 1, "icmp": 1, "fn": 1, "isfp": 1, "call": 2, "f64": 1}


def children(n):
    if n[0] == "slice":
        return [n[1]]
    return [y for y in n[1 + LEAD.get(n[0], 0):] if isinstance(y, int) and not isinstance(y, bool) and 0 <= y < len(llir.T.nodes)]


def one(task):
    cfg, which, sym, what = task
    mod, ix = MODS[(cfg, which)]
    meta = ix[sym]
    out = {"path": meta["path"], "variant": meta["variant"], "cfg": cfg, "loc": meta["loc"], "mode": which, "rule": what}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(120)
    try:
        bad = []
        und = []
        r = llir.analyse(mod, sym, meta, strict=what == "memory")
        if what == "panic":
            n = mod.funcs[sym][1].count("panic")
            for c, name in r.panics:
                w = bdd.is_false(c)
                if w is None:
                    und.append("condition of %s too large" % name[:60])
                elif w is not True:
                    bad.append("reaches %s%s" % (short(name), wit(w)))
            out["sites"] = n
        else:
            kinds = {"out": ("mut", 64)}
            for a in meta["args"]:
                if "size" in a:
                    kinds["a%d" % a["i"]] = (a["kind"], a.get("align", 1))
            n = 0
            for a in r.accesses:
                n += 1
                if a[0] == "dyn-lane":
                    continue
                if a[0] in ("oob", "oob-write"):
                    bad.append("%s of %d bytes at offset %d of %s (%s bytes)" % ("write" if "write" in a[0] else "read", a[3], a[2], nice(a[1], meta), size(r, mod, meta, a[1])))
                    continue
                kind, base, off, nb, al, scales = a
                if kind == "store" and base in kinds and kinds[base][0] in ("ref", "val") and "refid" not in meta:
                    bad.append("writes through the shared argument " + nice(base, meta))
                if base in kinds:
                    oal = kinds[base][1]
                elif base in r.align:
                    oal = r.align[base]
                elif base.startswith("g:"):
                    m = __import__("re").search(r", align (\d+)", mod.globals.get(base[2:], ""))
                    oal = int(m.group(1)) if m else 1
                else:
                    continue
                if al > 1 and (oal % al or off % al or any(s % al for s in scales)):
                    bad.append("access of %d bytes at offset %d of %s assumes alignment %d, the object guarantees %d" % (nb, off, nice(base, meta), al, oal))
            for c, base, sz, nb in r.dyn:
                n += 1
                w = bdd.is_false(c)
                if w is None:
                    und.append("index condition too large")
                elif w is not True:
                    bad.append("computed index leaves %s (%d bytes)%s" % (nice(base, meta), sz, wit(w)))
            if which != "dyn":
                for (base, off), t in r.mem.items():
                    if base != "out" and not base.startswith("a"):
                        continue
                    for c in undef_paths(t) or []:
                        w = bdd.is_false(c, limit=60000)
                        if w is not None and w is not True:
                            bad.append("%s, byte %d, is computed from uninitialised memory%s" % (nice(base, meta), off, wit(w)))
                            break
            out["sites"] = n
        out["verdict"] = "violation" if bad else "undecided" if und else "ok"
        out["detail"] = "; ".join(sorted(set(bad or und)))[:600]
        out["instr"] = r.ninstr
    except Timeout:
        out.update(verdict="undecided", detail="time limit")
    except llir.Unsupported as e:
        d = str(e)
        if d.startswith(("load from null", "load from int", "load from undef", "store to g:", "store to null", "store to undef")) and what == "memory":
            out.update(verdict="violation", detail=d)
        elif d == "no return" and what == "panic":
            out.update(verdict="violation", detail="no input makes the function return: every path ends in a panic or an unreachable marker")
        else:
            out.update(verdict="undecided", detail="unsupported: " + d[:200])
    except Exception as e:
        out.update(verdict="undecided", detail="error: %r" % e)
    finally:
        signal.alarm(0)
    return out


def wit(w):
    ins = {}
    for (k, i), b in [(k, b) for k, b in w.items() if isinstance(k, tuple) and len(k) == 2]:
        n = llir.nd(k) if isinstance(k, int) else None
        if n and n[0] == "in":
            ins.setdefault((n[2], n[3]), 0)
            ins[(n[2], n[3])] |= b << i
    return " (e.g. %s)" % ", ".join("%s+%s=0x%x" % (k[0], k[1], v) for k, v in sorted(ins.items())[:4]) if ins else ""


def short(n):
    import re
    parts = re.findall(r"\d+([a-z_]{4,})", n)
    return parts[-1] if parts else n[:60]


def nice(base, meta):
    if base == "out":
        return "the result"
    if base.startswith("a") and base[1:].isdigit():
        return "argument %s" % base[1:]
    if base.startswith("alloca"):
        return "a local"
    return base


def size(r, mod, meta, base):
    for a in meta["args"]:
        if "size" in a and "a%d" % a["i"] == base:
            return a["size"]
    return meta.get("out_size") if base == "out" else "?"


def run(what, cfgs):
    """-> obligations"""
    build.prepare(cfgs, "main", mode="raw")
    jobs = [("main", "raw")]
    if what == "memory":
        build.prepare(cfgs, "dyn", mode="raw")
        jobs.append(("dyn", "raw"))
    tasks = []
    for c in cfgs:
        for w, m in jobs:
            path, ix = build.ir(c, w, m)
            MODS[(c, w)] = (llir.Module(path), ix)
            for sym, meta in ix.items():
                if w == "dyn" and meta["unsafe"]:
                    continue
                if w == "main" and sym.startswith(("t_swizzle",)) and what == "panic" and sym[-1] != "3":
                    pass
                tasks.append((c, w, sym, what))
    with mp.get_context("fork").Pool(8) as P:
        res = P.map(one, tasks, chunksize=CHUNK)
    for r in res:
        r["key"] = "%s[%s]%s@%s" % (r["path"], r["variant"], ":any-selector" if r["mode"] == "dyn" else "", r["cfg"])
        r["what"] = r["path"] + ("[%s]" % r["variant"] if r["variant"] else "")
    extra = {"functions": len({r["path"] for r in res}), "instances": len(res), "configurations": list(cfgs), "ir_instructions": sum(r.get("instr", 0) for r in res),
             ("panic_sites" if what == "panic" else "accesses"): sum(r.get("sites", 0) for r in res)}
    return res, extra
