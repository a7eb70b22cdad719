"""Decide specifications: value-number every public entry point in every configuration and compare the
result, word by word and for all inputs, with the words its specification prescribes."""
import os, sys, time, signal, threading, multiprocessing as mp
import build, llir, norm, dsl
from llir import Unsupported
from norm import Norm, TooBig

MODS = {}
RETRY = 25
LIMIT = int(os.environ.get("DXM_LIMIT", "40"))


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def load(cfgs, which="main"):
    build.prepare(cfgs, which)
    for c in cfgs:
        if (c, which) not in MODS:
            path, ix = build.ir(c, which)
            MODS[(c, which)] = (llir.Module(path), ix)


def show(t, depth=0, budget=None):
    budget = budget if budget is not None else [60]
    n = llir.nd(t)
    budget[0] -= 1
    if n[0] == "c":
        if n[1] == 32:
            f = llir.b2f(n[2])
            return ("%g" % f) if n[2] == 0 or 1e-9 < abs(f) < 1e9 else "0x%X" % n[2]
        return str(n[2])
    if n[0] == "in":
        return "%s[%s]" % (n[2], n[3] // 4 if n[3] % 4 == 0 else "%d/4" % n[3])
    if depth > 7 or budget[0] < 0:
        return "..."
    return n[0] + "(" + ", ".join(show(x, depth + 1, budget) if isinstance(x, int) and not isinstance(x, bool) and i >= _ar(n) else str(x)
                                  for i, x in enumerate(n[1:])) + ")"


def _ar(n):
    """number of leading non-term fields of a node"""
    o = n[0]
    if o in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "zext", "sext",
             "fcmp", "icmp", "fn", "isfp", "fptosi", "fptoui", "f64"):
        return 1
    if o == "call":
        return 2
    if o == "slice":
        return 0
    return 0


class Cmp:
    """one function instance: actual words vs expected words"""

    def __init__(self, limit=None):
        self.norms = {}
        self.limit = limit or LIMIT
        self.differs = False
        self.positive = []

    def N(self, mode, early=False):
        k = mode, early
        if k not in self.norms:
            self.norms[k] = Norm("real", finite=True) if mode == "real" else \
                Norm("real", finite=True, atomic=True) if mode == "atomic" else \
                Norm("real", finite=False) if mode == "realnan" else Norm("exact", finite=False)
            self.norms[k].positive(self.positive)
        return self.norms[k]

    def attempt(self, mode, early, a, b, care):
        N = self.N(mode, early)
        dc = N.ev(care) if care is not None and early else None
        da, db = N.ev(a), N.ev(b)
        if care is not None:
            z = N.leaf(("k", 0))
            dc = N.ev(care) if dc is None else dc
            da, db = N.ite(dc, da, z), N.ite(dc, db, z)
        da, db = N.canon(da), N.canon(db)
        return da == db or N.equiv(da, db)

    def same(self, mode, a, b, care, w):
        """equal on the domain?  A difference is believed only if it remains with the tests in the
        other order and with minima, maxima and magnitudes replaced by their definitions"""
        if a == b:
            return True
        todo = [(mode, mode == "atomic")]
        if care is not None:
            todo.append((mode, mode != "atomic"))
        if mode == "atomic":
            todo.append(("real", False))
        if self.differs:
            todo = todo[:1]
        diff = err = None
        for i, (m, early) in enumerate(todo):
            signal.alarm(self.limit if i == 0 else RETRY)
            try:
                if self.attempt(m, early, a, b, care):
                    return True
                diff = True
            except (TooBig, Timeout, RecursionError) as e:
                err = e
            finally:
                signal.alarm(self.limit)
        if diff:
            self.differs = True
            return False
        raise err


def word(res, obj, k):
    t = res.mem.get((obj, 4 * k))
    if t is None:
        t = llir.T.mk("in", 32, obj, 4 * k)
    return t


def rename(t, m, memo):
    """the term with input words renamed by m"""
    r = memo.get(t)
    if r is None:
        n = llir.nd(t)
        if n[0] == "in":
            k = (n[2], n[3] // 4)
            if k in m and n[3] % 4 == 0:
                r = m[k].t if isinstance(m[k], dsl.W) else llir.T.mk("in", n[1], m[k][0], 4 * m[k][1])
            else:
                r = t
        elif n[0] in ("c", "undef"):
            r = t
        else:
            a = _ar(n)
            if n[0] == "slice":
                r = llir.T.mk("slice", rename(n[1], m, memo), n[2], n[3])
            else:
                r = llir.T.mk(*n[:1 + a], *[rename(x, m, memo) for x in n[1 + a:]])
        memo[t] = r
    return r


def check_R(cmp, meta, res, r):
    """list of mismatches [(obj, index, actual, expected)]"""
    bad = []
    cmp.positive = [x.t for x in r.positive]
    sizes = {"out": meta.get("out_size") or 0}
    for a in meta["args"]:
        if "size" in a:
            sizes["a%d" % a["i"]] = a["size"]
    care = r.care.t if r.care is not None else None
    if r.assume or r.cut:
        memo = {}
        for (o, k), i in (r.cut or {}).items():
            memo[word(res, o, k)] = llir.T.mk("in", 32, "cut", 4 * i)

        class _Res:
            pass
        res2 = _Res()
        res2.mem = {k: rename(t, r.assume or {}, memo) for k, t in res.mem.items()}
        res = res2
    touched = {o for (o, _) in res.mem}
    for obj in sorted(set(r.objs) | (touched & set(sizes))):
        exp = r.objs.get(obj)
        n = sizes.get(obj, 0)
        if exp is None:
            # an object the specification does not mention must keep its value
            for (o, off), t in sorted(res.mem.items()):
                if o == obj and t != llir.T.mk("in", 32, obj, off):
                    e = llir.T.mk("in", 32, obj, off)
                    if not cmp.same(r.mode, t, e, care, 32):
                        bad.append((obj, off // 4, t, e))
            continue
        if isinstance(exp, (dsl.W, dsl.B)):
            exp = [exp]
        flat = []
        for x in exp:
            if isinstance(x, list):
                flat += x
            else:
                flat.append(x)
        if n == 1:
            x = flat[0]
            if x is None:
                continue
            e = x.byte().t if isinstance(x, dsl.B) else x.t
            a = llir.slc(word(res, obj, 0), 0, 8)
            if not cmp.same(r.mode, a, e, care, 8):
                bad.append((obj, 0, a, e))
            continue
        if n == 2:
            x = flat[0]
            if x is None:
                continue
            a = llir.slc(word(res, obj, 0), 0, 16)
            if not cmp.same(r.mode, a, x.t, care, 16):
                bad.append((obj, 0, a, x.t))
            continue
        if len(flat) * 4 != n:
            raise Unsupported("specification of %s has %d words, object has %d bytes" % (obj, len(flat), n))
        for k, x in enumerate(flat):
            if x is None:
                continue
            ck = care
            if isinstance(x, tuple):        # (word, domain of this word)
                x, c = x
                ck = c.t if care is None else llir.mk_band(care, c.t)
            e = x.t
            a = word(res, obj, k)
            if not cmp.same(r.mode, a, e, ck, 32):
                bad.append((obj, k, a, e))
            elif r.mode != "exact" and not r.leak:
                x = flows(a) - reads(e) - (reads(ck) if ck is not None else frozenset()) - {(obj, k)}
                if x:
                    o, i = sorted(x)[0]
                    bad.append((obj, k, a, e, "takes word %d of %s into its arithmetic, which the formula does not contain (a NaN or infinity there reaches the result)" % (i, o)))
    return bad


_READS, _FLOWS = {}, {}
DATA = {"fadd", "fsub", "fmul", "fdiv", "frem", "fma", "sqrt", "fn", "fneg", "fptrunc", "f64"}


def _sup(t, memo, flow):
    if not isinstance(t, int):
        return frozenset()
    r = memo.get(t)
    if r is None:
        n = llir.nd(t)
        if n[0] == "in":
            r = frozenset([(n[2], n[3] // 4)])
        elif n[0] in ("c", "undef"):
            r = frozenset()
        else:
            ch = [n[1]] if n[0] == "slice" else n[1 + _ar(n):]
            if flow:
                ch = ch[1:] if n[0] == "ite" else ch if n[0] in DATA else ()
            r = frozenset().union(*[_sup(x, memo, flow) for x in ch])
        memo[t] = r
    return r


def reads(t):
    """the input words a term mentions"""
    return _sup(t, _READS, False)


def flows(t):
    """the input words that reach a value through floating-point arithmetic (not through tests or bit selection)"""
    return _sup(t, _FLOWS, True)


def estimate(res):
    """(where, which) when a result depends on a reciprocal (square root) estimate"""
    clean = set()
    for o in sorted(res.mem, key=str):
        st = [res.mem[o]]
        while st:
            t = st.pop()
            if t in clean or not isinstance(t, int):
                continue
            clean.add(t)
            n = llir.nd(t)
            if n[0] in ("rcp", "rsqrt"):
                return (o[0], o[1] // 4), n[0]
            if n[0] in ("c", "undef", "in"):
                continue
            st += [n[1]] if n[0] == "slice" else n[1 + _ar(n):]
    return None


def decide(task):
    """task = (sym, [cfg...], which, spec function, opts) -> list of outcome dicts"""
    sym, cfgs, which, f, opts = task
    out = []
    seen = {}
    for c in cfgs:
        mod, ix = MODS[(c, which)]
        meta = ix.get(sym)
        if meta is None:
            continue
        o = {"sym": sym, "cfg": c, "path": meta["path"], "variant": meta.get("variant", ""), "loc": meta["loc"]}
        out.append(o)
        t0 = time.time()
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(opts.get("limit", LIMIT))
        try:
            res = llir.analyse(mod, sym, meta)
            o["instr"] = res.ninstr
            key = tuple(sorted(res.mem.items()))
            if key in seen and not opts.get("percfg"):
                o.update(seen[key])
                continue
            rs = f(dsl.Args(meta, c))
            rs = rs if isinstance(rs, list) else [rs]
            best = None
            for r in rs:
                bad = check_R(Cmp(opts.get("limit")), meta, res, r)
                for r2 in r.also if not bad else ():
                    bad += check_R(Cmp(opts.get("limit")), meta, res, r2)
                if best is None or len(bad) < len(best[0]):
                    best = (bad, r)
                if not bad:
                    break
            est = None if best[0] or "Est" in meta["path"] else estimate(res)
            if est is not None:
                v = {"verdict": "violation", "detail": "word %d of %s depends on the %s estimate instruction (about 12 bits), which only the *Est functions may use" % (est[0][1], est[0][0], est[1]),
                     "words": [est[0]], "rule": "no estimate instruction in an accurate function", "mode": "effect"}
            elif best[0]:
                obj, k, a, e = best[0][0][:4]
                v = {"verdict": "violation", "detail": "word %d of %s %s" % (k, obj, best[0][0][4]) if len(best[0][0]) > 4 else
                     "word %d of %s is %s ; required %s" % (k, obj, show(a), show(e)),
                     "words": [(b[0], b[1]) for b in best[0]], "rule": best[1].note, "mode": best[1].mode}
            else:
                v = {"verdict": "ok", "mode": best[1].mode}
            o.update(v)
            seen[key] = v
        except Timeout:
            o.update(verdict="undecided", detail="time limit")
        except TooBig:
            o.update(verdict="undecided", detail="normal form too large")
        except Unsupported as e:
            if str(e) == "no return":
                o.update(verdict="violation", detail="no input makes the function return: every path ends in a panic or an unreachable marker", words=[], rule="returns", mode="effect")
            else:
                o.update(verdict="undecided", detail=str(e)[:200])
        except RecursionError:
            o.update(verdict="undecided", detail="recursion")
        except Exception as e:
            import traceback
            o.update(verdict="undecided", detail="analysis error: %r at %s" % (e, traceback.format_exc(limit=-1).strip().split("\n")[1].strip()))
        finally:
            signal.alarm(0)
            o["secs"] = round(time.time() - t0, 2)
    return out


TASKS = []


def _run(i):
    return decide(TASKS[i])


def in_big_stack(f, *a):
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 << 20)
    box = []

    def g():
        try:
            box.append(("ok", f(*a)))
        except BaseException as e:
            import traceback
            traceback.print_exc()
            box.append(("err", e))
    th = threading.Thread(target=g)
    th.start()
    th.join()
    if box[0][0] == "err":
        raise SystemExit(3)
    return box[0][1]


def run_tasks(tasks, workers=8):
    """fork-based pool (loaded modules and specification closures are inherited)"""
    global TASKS
    TASKS = tasks
    if not tasks:
        return []
    ctx = mp.get_context("fork")
    res = []
    with ctx.Pool(workers) as p:
        for r in p.imap_unordered(_run, range(len(tasks)), chunksize=2):
            res += r
    return res


def tasks_for(props, cfgs, only=None):
    """tasks of all specifications registered for the property ids"""
    out = []
    syms = {}
    for (c, which), (_, ix) in MODS.items():
        if c not in cfgs:
            continue
        for s, m in ix.items():
            if (m["path"] in build.SEPPATHS) != (which != "main"):
                continue
            syms.setdefault((m["path"], which), {}).setdefault(s, []).append(c)
    missing = []
    table = dict(dsl.SPECS)
    paths = sorted({p for p, _ in syms})
    import re
    for prop, rx, f, opts, least in dsl.PATTERNS:
        if props is not None and prop not in props:
            continue
        hits = [p for p in paths if p not in table and re.fullmatch(rx, p)]
        for p in hits:
            table[p] = (prop, f, opts)
        if len(hits) < least and not only:
            missing.append("%d interfaces of the form %s (found %d)" % (least, rx, len(hits)))
    for path, (prop, f, opts) in table.items():
        if props is not None and prop not in props:
            continue
        if only and only not in path:
            continue
        hit = False
        for which in ("main", "XMVectorPermute"):
            for s, cs in sorted(syms.get((path, which), {}).items()):
                if s.startswith(("r_",)) and not opts.get("refs"):
                    continue
                out.append((s, [c for c in cfgs if c in cs], which, f, opts))
                hit = True
        if not hit:
            missing.append(path)
    return out, missing
