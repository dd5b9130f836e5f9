#!/opt/venv/bin/python
"""mutate.py MODE: small changes of the library, one at a time, against the rows of the checks (all but P31's).

rows            keep the rows TLC emits for every property in /tmp/mut/rows
map             execute samples of them on /repo, with the lines of the library each sample executes
run [FILE...]   mutate; a mutant no sample tells apart survives (written to /tmp/mut/survivors.FILE)
deep            survivors against all rows that reach the line; then the stable tests
A survivor is an equivalent change, one only display shows, or a gap."""
import ast, collections, copy, gzip, json, os, pickle, random, resource, signal, subprocess, sys, time
import multiprocessing as mp
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "/tmp/mut"
SRC = "/repo/src/actuarialmath"
N = int(os.environ.get("JOBS", "4"))
PER = int(os.environ.get("PER", "30"))
sys.path.insert(0, H + "/driver")
SKIPFN = {"__str__", "__repr__", "PPrint", "blog", "display_pretty", "_repr_latex_", "help"}


def rows():
    os.makedirs(M + "/rows", exist_ok=True)
    for p in [c["property"] for c in json.load(open(f"{H}/MANIFEST.json"))["checks"]]:
        print(subprocess.run([f"{H}/bin/check", p], cwd=H, env=dict(os.environ, ACTM_KEEP=M + "/rows"), capture_output=True, text=True).stdout[-100:])


def chunks(full=False):
    """(prop, real, wid, call) -> (world, rows)"""
    from plan import PLAN
    import ast as _a
    out = {}
    for prop in sorted(PLAN):
        for step in PLAN[prop]:
            f = f"{M}/rows/{prop}.{step.get('module')}.rows"
            if "reals" not in step or not os.path.exists(f):
                continue
            W, g = {}, collections.defaultdict(list)
            rs = []
            for l in sorted(set(open(f))):
                r = json.loads(l)
                if "world" in r: W[r["world"]] = r
                else: rs.append(r)
            for r in rs:
                wid = r.get("w", "-")
                w = W.get(wid, {"world": wid, "kind": "none"})
                for real in step["reals"].get(r.get("k", ""), step["reals"].get(wid, step["reals"].get(w["kind"], []))):
                    g[prop, real, wid, r["c"]].append(r)
            for k, v in g.items():
                if not full:
                    v = random.Random(str(k)).sample(v, min(PER, len(v)))
                out[k] = (W.get(k[2], {"world": k[2], "kind": "none"}), v)
    return out


def execute(run, k, w, rs, upto=None):
    """-> first failing row or None; nothing if all skipped"""
    cache = {}
    t0 = time.time()
    for r in rs:
        ok, got = run.execute(r, k[1], w, cache)
        if ok is False:
            return r, got
        if upto and time.time() - t0 > upto:
            break
    return None


def mapper(ks, src, C, q):
    sys.path.insert(0, os.path.dirname(src))
    import run
    signal.signal(signal.SIGALRM, run._alarm)
    seen, mon = set(), sys.monitoring
    def line(code, no):
        if "/actuarialmath/" in code.co_filename:
            seen.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE
    mon.use_tool_id(3, "cov")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    out = []
    for k in ks:
        seen.clear()
        mon.restart_events()
        t0 = time.time()
        bad = execute(run, k, *C[k])
        out.append((k, frozenset(seen), time.time() - t0, bad))
    q.put(out)


def mapping():
    C = chunks()
    ks = sorted(C)
    random.Random(0).shuffle(ks)
    q = mp.Queue()
    ps = [mp.Process(target=mapper, args=(ks[i::N], SRC, C, q)) for i in range(N)]
    [p.start() for p in ps]
    out = []
    for _ in ps:
        out += q.get()
    [p.join() for p in ps]
    bad = [o for o in out if o[3]]
    print(len(out), "chunks", len(bad), "fail unchanged", sum(o[2] for o in out), "s", bad[:3])
    pickle.dump(C, open(M + "/chunks.pkl", "wb"))
    pickle.dump([o for o in out if not o[3]], open(M + "/map.pkl", "wb"))


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult]}


def sites(tree):
    """(path to node, description, mutator) of every mutation"""
    out = []
    def visit(node, stmt, fn, parents):
        if isinstance(node, ast.FunctionDef):
            if node.name in SKIPFN:
                return
            fn = fn + [node.name]
            for d in node.args.defaults:
                pass
        if isinstance(node, (ast.JoinedStr, ast.Raise, ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.If) and not fn and isinstance(node.test, ast.Compare) and getattr(node.test.left, "id", "") == "__name__":
            return
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and (node.func.attr in ("blog", "_blog") or getattr(node.func.value, "id", "") in ("blog",)):
            return
        if isinstance(node, ast.stmt):
            stmt = node
        if fn:
            d = (stmt.lineno, node.end_lineno if hasattr(node, "end_lineno") and not isinstance(node, ast.stmt) else stmt.lineno, ".".join(fn))
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                for c in CMP[type(node.ops[0])]:
                    out.append((d, node, lambda n, c=c: n.ops.__setitem__(0, c())))
            if isinstance(node, ast.Compare) and len(node.ops) == 2:
                for j in (0, 1):
                    for c in CMP[type(node.ops[j])][:1]:
                        out.append((d, node, lambda n, c=c, j=j: n.ops.__setitem__(j, c())))
            if isinstance(node, ast.BinOp) and type(node.op) in BIN:
                for c in BIN[type(node.op)]:
                    out.append((d, node, lambda n, c=c: setattr(n, "op", c())))
                if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)):
                    out.append((d, node, "left"))
            if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                out.append((d, node, lambda n: setattr(n, "value", n.value + 1)))
                if node.value: out.append((d, node, lambda n: setattr(n, "value", n.value - 1 if n.value != 1 else 0)))
            if isinstance(node, ast.Constant) and isinstance(node.value, bool):
                out.append((d, node, lambda n: setattr(n, "value", not n.value)))
            if isinstance(node, ast.BoolOp):
                out.append((d, node, lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
                for j in range(len(node.values)):
                    out.append((d, node, ("dropval", j)))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
                out.append((d, node, "operand"))
            if isinstance(node, ast.Call):
                for j, kw in enumerate(node.keywords):
                    if kw.arg and kw.arg not in ("verbose", "msg", "color", "figsize", "fontsize", "label", "alpha", "ax", "title"):
                        out.append((d, node, lambda n, j=j: n.keywords.pop(j)))
                if getattr(node.func, "id", "") in ("min", "max"):
                    out.append((d, node, lambda n: setattr(n.func, "id", "max" if n.func.id == "min" else "min")))
                if getattr(node.func, "attr", "") in ("floor", "ceil"):
                    out.append((d, node, lambda n: setattr(n.func, "attr", "ceil" if n.func.attr == "floor" else "floor")))
                if getattr(node.func, "id", "") in ("int", "round", "abs", "float") and len(node.args) >= 1:
                    out.append((d, node, "arg"))
            if isinstance(node, (ast.If, ast.IfExp, ast.While)):
                out.append((d, node, lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in ("s", "u", "t", "b", "x", "n", "r", "m", "endowment", "benefit", "moment"):
                p = parents[-1]
                if not (isinstance(p, ast.Call) and p.func is node):
                    if node.id in ("s", "u"): out.append((d, node, "zero"))
                    if node.id in ("b", "moment"): out.append((d, node, "one"))
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) or isinstance(node, ast.AugAssign):
                out.append((d, node, "pass"))
        for f, v in ast.iter_fields(node):
            if f in ("annotation", "returns", "decorator_list", "defaults", "kw_defaults", "type_comment"):
                continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    visit(c, stmt, fn, parents + [node])
    visit(tree, None, [], [])
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, old, new): self.old, self.new = old, new
    def visit(self, n):
        return self.new if n is self.old else super().generic_visit(n)


def mutant(src, j):
    tree = ast.parse(src)
    S = sites(tree)
    d, node, how = S[j]
    before = ast.unparse(node)
    if callable(how):
        how(node)
        after = ast.unparse(node)
        if isinstance(node, (ast.If, ast.While)):
            before, after = "if " + before.splitlines()[0], after.splitlines()[0]
    else:
        new = {"left": lambda: node.left, "operand": lambda: node.operand, "arg": lambda: node.args[0], "zero": lambda: ast.Constant(0), "one": lambda: ast.Constant(1),
               "pass": lambda: ast.Pass()}[how]() if isinstance(how, str) else None
        if new is None:
            vals = [v for i, v in enumerate(node.values) if i != how[1]]
            new = vals[0] if len(vals) == 1 else ast.BoolOp(node.op, vals)
        after = ast.unparse(new)
        tree = Replace(node, new).visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), d, before, after


def child(src, todo, C, limit, q):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, os.path.dirname(src))
    try:
        sys.stdout = sys.stderr = open(os.devnull, "w")
        import run
        run.CALL_TIMEOUT = 15
        signal.signal(signal.SIGALRM, run._alarm)
    except Exception as e:
        q.put(("import", str(e)))
        return
    t0 = time.time()
    n = 0
    for k in todo:
        if time.time() - t0 > limit:
            break
        n += 1
        bad = execute(run, k, *C[k])
        if bad:
            q.put((k, bad))
            return
    q.put((None, n))


def attempt(dst, f, code, todo, C, limit):
    open(os.path.join(dst, f), "w").write(code)
    q = mp.SimpleQueue()
    p = mp.Process(target=child, args=(dst, todo, C, limit, q))
    p.start()
    p.join(limit + 60)
    if p.is_alive():
        p.kill(); p.join()
        return ("hung", None)
    return q.get() if not q.empty() else ("died", None)


def worker(i, jobs, C, lines, limit, q):
    os.nice(10)
    dst = f"{M}/{os.getpid()}/actuarialmath"
    for f, j in jobs:
        os.makedirs(dst, exist_ok=True); subprocess.run(["rm", "-rf", dst]); subprocess.run(["cp", "-r", SRC, dst])
        src = open(f"{SRC}/{f}").read()
        code, d, before, after = mutant(src, j)
        want = {(f, n) for n in range(d[0], d[1] + 1)}
        todo = [k for k in lines if want & lines[k][0]]
        todo.sort(key=lambda k: lines[k][1])
        # one chunk of each (property, call) first
        seen, first, rest = set(), [], []
        for k in todo:
            (first if (k[0], k[3]) not in seen else rest).append(k)
            seen.add((k[0], k[3]))
        if not todo:
            q.put((f, j, d, before, after, "uncovered", None)); continue
        res = attempt(dst, f, code, first + rest, C, limit)
        q.put((f, j, d, before, after, "survived" if res[0] is None else "killed", res[1] if res[0] is None else str(res[0])))
    subprocess.run(["rm", "-rf", f"{M}/{os.getpid()}"])
    q.put(None)


def preload():
    import numpy, scipy.optimize, scipy.integrate, scipy.stats, pandas, matplotlib.pyplot
    import contextlib, io


def campaign(jobs, C, lines, limit, outf):
    preload()
    random.Random(1).shuffle(jobs)
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(i, jobs[i::N], C, lines, limit, q)) for i in range(N)]
    [p.start() for p in ps]
    done, cnt = 0, collections.Counter()
    with open(outf, "w") as o:
        while done < N:
            r = q.get()
            if r is None:
                done += 1; continue
            cnt[r[5]] += 1
            if r[5] != "killed":
                o.write(json.dumps(r) + "\n"); o.flush()
    [p.join() for p in ps]
    print(outf, dict(cnt), flush=True)


def main():
    if sys.argv[1] == "rows": return rows()
    if sys.argv[1] == "map": return mapping()
    C = pickle.load(open(M + "/chunks.pkl", "rb"))
    lines = {k: (l, t) for k, l, t, b in pickle.load(open(M + "/map.pkl", "rb"))}
    if sys.argv[1] == "run":
        for f in sys.argv[2:]:
            src = open(f"{SRC}/{f}").read()
            jobs = [(f, j) for j in range(len(sites(ast.parse(src))))]
            campaign(jobs, C, lines, float(os.environ.get("LIMIT", "25")), f"{M}/survivors.{f}")
    if sys.argv[1] == "deep":
        C = chunks(True)
        for v in C.values():
            random.Random(5).shuffle(v[1])
        jobs = []
        for f in sys.argv[2:]:
            src = open(f"{SRC}/{f}").read().splitlines()
            for l in open(f"{M}/survivors.{f}"):
                r = json.loads(l)
                if not src[r[2][0] - 1].strip().startswith("assert") and r[5] == "survived":
                    jobs.append((f, r[1]))
        print(len(jobs), "to try", flush=True)
        campaign(jobs, C, lines, float(os.environ.get("LIMIT", "100")), f"{M}/deep")


if __name__ == "__main__":
    main()
