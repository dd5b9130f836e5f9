"""Replay what TLC emitted (JSON lines) against the real code and compare.

usage: run.py PROP ROWS OUT SEED REALS-JSON
Each row is one behaviour of the specification: a basis (world, interest), one
library call with its arguments, and the value the specification gives it.
Every row is executed on every realisation of the world; objects are reused
across rows, in an order drawn from the seed, so that results that depend on
what was asked before show up as differences too.
"""
import collections, ctypes, concurrent.futures, concurrent.futures.process, json, math, multiprocessing, os, random, resource, signal, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contextlib, io
import numpy as np
np.seterr(all="ignore")
import calls, worlds

PRCTL = ctypes.CDLL(None).prctl
CALL_TIMEOUT = 40
MEMORY = 6 << 30


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def close(got, exp, tol, sc=1.0):
    """got: what the code returned; exp: what the specification says"""
    if isinstance(exp, dict):
        return isinstance(got, dict) and set(map(str, got)) == set(exp) and all(
            close({str(k): v for k, v in got.items()}[k], exp[k], tol, sc) for k in exp)
    if isinstance(exp, list):
        return isinstance(got, (list, tuple)) and len(got) == len(exp) and all(close(g, e, tol, sc) for g, e in zip(got, exp))
    if isinstance(exp, bool):
        return isinstance(got, (bool, np.bool_)) and bool(got) == exp
    if exp == "none":
        return got is None
    if exp == "raises":
        return got == "raises"
    if isinstance(exp, str) and exp.startswith("="):
        return got == exp[1:]
    try:
        e, g = float(exp), float(got)
    except Exception:
        return False
    if math.isinf(e):
        return g == e
    return math.isfinite(g) and abs(g - e) <= tol * max(1.0, sc, abs(e))


def execute(row, real, w, cache):
    """-> (ok, got)"""
    tol = 1e-9 if row["tol"] == "x" else float(row["tol"])
    signal.alarm(CALL_TIMEOUT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            got = calls.call(row, real, w, cache)
    except Timeout:
        got = "did not return"
    except (calls.Skip, worlds.Inapplicable):
        return None, None
    except Exception as e:
        if real == "sl" and isinstance(e, AssertionError) and str(e).startswith("Must be"):
            return None, None       # select tables keep first moments of discrete values only, by design
        if row.get("may"):
            return None, None       # may be refused
        got = "raises" if row["e"] == "raises" else f"{type(e).__name__}: {e}"[:200]
    finally:
        signal.alarm(0)
    return close(got, row["e"], tol, float(row.get("sc", 1))), got


def work(task):
    real, wid, w, rows, seed = task
    signal.signal(signal.SIGALRM, _alarm)
    PRCTL(1, signal.SIGKILL)      # die with the driver
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    rows = sorted(rows, key=lambda r: json.dumps(r, sort_keys=True))
    random.Random(f"{seed}/{real}/{wid}").shuffle(rows)
    seen = lines_seen() if os.environ.get("ACTM_COV") else None
    args = args_seen() if os.environ.get("ACTM_ARGS") else None
    cache, out, n, skipped, hung = {}, [], collections.Counter(), 0, 0
    samples = []
    for r in rows:
        if hung > 1:
            break
        ok, got = execute(r, real, w, cache)
        if ok is None:
            skipped += 1
            continue
        n[r["c"]] += 1
        if ok and len(samples) < 1:
            samples.append(dict(real=real, row=r, got=repr(got)[:200]))
        if not ok:
            hung += got == "did not return"
            out.append(dict(real=real, world=w, row=r, got=repr(got)[:300]))
            if len(out) > 400:
                break
    if seen:
        with open(os.environ["ACTM_COV"], "a") as f:
            f.write("".join(f"{a}:{b}\n" for a, b in sorted(seen)))
    if args:
        with open(os.environ["ACTM_ARGS"], "a") as f:
            f.write("".join(json.dumps(a) + "\n" for a in sorted(args)))
    return out, n, skipped, samples


def lines_seen():
    """the set, filled as code runs, of lines of the library executed (see tools/cov.py)"""
    seen, mon = set(), sys.monitoring
    def line(code, no):
        if "/actuarialmath/" in code.co_filename:
            seen.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE
    if mon.get_tool(3) is None:
        mon.use_tool_id(3, "cov")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    mon.restart_events()
    return seen


def kind(name, v):
    """the class of values an argument belongs to (see tools/argcov.py)"""
    if v is None or isinstance(v, (bool, str)):
        return str(v)
    if callable(v):
        return "fn"
    if isinstance(v, (dict, list, tuple, set)):
        return type(v).__name__ + str(min(len(v), 3))
    try:
        if v != int(v):
            return "frac"
    except (TypeError, ValueError, OverflowError):
        return type(v).__name__
    v = int(v)
    if name in ("moment", "m", "extra"):
        return str(v)
    return "neg" if v < 0 else str(v) if v < 3 else "3-9" if v < 10 else "10+"


def args_seen():
    """the set, filled as code runs, of classes of arguments each function of the library was called with"""
    seen, mon = set(), sys.monitoring
    def start(code, off):
        if "/actuarialmath/" not in code.co_filename or code.co_name[0] == "<":
            return mon.DISABLE
        loc = sys._getframe(1).f_locals
        names = code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]
        self = type(loc["self"]).__name__ if "self" in loc else "-"
        seen.add((code.co_qualname, self) + tuple(f"{n}={kind(n, loc.get(n))}" for n in names if n != "self"))
    if mon.get_tool(4) is None:
        mon.use_tool_id(4, "args")
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)
    mon.restart_events()
    return seen


def load(path):
    W, rows, seen = {}, [], set()
    for line in open(path):
        if line in seen:
            continue
        seen.add(line)
        r = json.loads(line)
        if "world" in r:
            W[r["world"]] = r
        else:
            rows.append(r)
    return W, rows


def main():
    prop, path, outp, seed, reals = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], json.loads(sys.argv[5])
    W, rows = load(path)
    groups = collections.defaultdict(list)
    for r in rows:
        wid = r.get("w", "-")
        w = W.get(wid, {"world": wid, "kind": "none"})
        for real in reals.get(r.get("k", ""), reals.get(wid, reals.get(w["kind"], []))):
            groups[real, wid].append(r)
    tasks = []
    for (real, wid), rs in sorted(groups.items()):
        step = 4000
        rs.sort(key=lambda r: json.dumps(r, sort_keys=True))
        for a in range(0, len(rs), step):
            tasks.append((real, wid, W.get(wid, {"world": wid, "kind": "none"}), rs[a:a + step], seed))
    tasks.sort(key=lambda t: -len(t[3]))
    viol, n, skipped, samples = [], collections.Counter(), 0, []
    with concurrent.futures.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork")) as pool:
        for f in [pool.submit(work, t) for t in tasks]:
            try:
                o, c, sk, sm = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                # the code under test took its process down (stack or memory exhausted)
                viol.append(dict(real="-", world=None, row=dict(c="any", a={}), got="the process running the library died"))
                n.update(any=1)
                break
            viol += o
            n.update(c)
            skipped += sk
            samples += sm
    viol.sort(key=lambda v: json.dumps(v, sort_keys=True, default=str))
    samples.sort(key=lambda v: json.dumps(v, sort_keys=True, default=str))
    json.dump(dict(rows=len(rows), calls=sum(n.values()), by_call=dict(n), skipped=skipped, worlds=len(W),
                   violations=viol, samples=samples[:6]), open(outp, "w"))


if __name__ == "__main__":
    main()
