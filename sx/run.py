"""Exploration of a property's harnesses: depth first in parallel workers, replay on the real code, evidence."""
import collections, hashlib, importlib, json, multiprocessing, multiprocessing.connection, os, pickle, random, select, shutil, signal, struct, subprocess
import sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")


def setup_imports(symbolic):
    sys.path_importer_cache.clear()
    sys.path[:] = [p for p in sys.path if p not in ("", ROOT)]
    sys.dont_write_bytecode = True
    finder = None
    if symbolic:
        from . import hooks
        from .instr import Finder
        for k in [k for k in sys.modules if k.split(".")[0] in ("booktest", "props")]:
            del sys.modules[k]
        finder = Finder({"booktest": REPO, "props": ROOT}, hooks)
        hooks.table = finder.table
        sys.meta_path.insert(0, finder)
    else:
        sys.path.insert(0, ROOT)
        sys.path.insert(0, REPO)
    return finder


def load(prop):
    m = importlib.import_module("props." + prop.lower())
    return m


def subst(x, model, path):
    """a value with the placeholders replaced by what the model says"""
    from .core import BASE, TOP, E, SymInt, SymBool, sym
    if isinstance(x, str):
        if x.isascii():
            return x
        return "".join(sym(model["c:" + E.cname[path.order[ord(c) - BASE]]])
                       if BASE <= ord(c) <= TOP else c for c in x)
    if isinstance(x, SymInt):
        return x.py(model)
    if isinstance(x, SymBool):
        return path.evalm(x.f, model)
    if isinstance(x, (list, tuple)):
        return [subst(i, model, path) for i in x]
    if isinstance(x, dict):
        return {str(subst(k, model, path)): subst(v, model, path) for k, v in x.items()}
    if isinstance(x, set):
        return sorted((subst(i, model, path) for i in x), key=str)
    if isinstance(x, bytes):
        return subst(x.decode("utf-8", "replace"), model, path)
    if x is None or isinstance(x, (bool, int, float)):
        return x
    return str(x)


_limit = [0.0, 0.0, 0.0]


def _alarm(signum, frame):
    from .core import PathTimeout
    cpu, wall, timeout = _limit
    if time.process_time() - cpu < 0.6 * timeout and time.monotonic() - wall < 4 * timeout:
        # the machine is busy with something else
        signal.setitimer(signal.ITIMER_REAL, max(1, timeout / 8))
        return
    raise PathTimeout()


def run_path(h, params, prefix, model, env, known, tier):
    """one execution; returns (status, info)"""
    from .core import E, Path, Pruned, Violation, Inconclusive, PathTimeout
    from .ctx import SymCtx
    p = E.path = Path(prefix, model)
    ctx = SymCtx(env, known, tier)
    E.stats["paths"] += 1
    env.begin()
    _limit[:] = [time.process_time(), time.monotonic(), h.timeout]
    signal.setitimer(signal.ITIMER_REAL, h.timeout)
    status, info = "ok", None
    try:
        try:
            h.fn(ctx, **params)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            env.end()
    except Pruned:
        status = "pruned"
        E.stats["pruned"] += 1
    except Violation as v:
        status, info = "violation", (v.msg, v.model)
    except Inconclusive as e:
        status, info = "inconclusive", str(e)
    except PathTimeout:
        status, info = "timeout", "no answer within %s s" % h.timeout
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        status, info = "exception", "%s: %s" % (type(e).__name__, str(e)[:300])
        if os.environ.get("SX_DEBUG"):
            traceback.print_exc()
    if status in ("timeout", "exception"):
        p.dead = True
        try:
            p.ensure_model()
            m = p.model
            # the model must fit the whole path
            m = E.query() or m
        except (Inconclusive, BaseException) as e:
            return "inconclusive", "%s (and no model: %s)" % (info, e), p, ctx
        return status, (info, m), p, ctx
    return status, info, p, ctx


def worker(k, conn, prop, tier, base, known, seed):
    from . import env as envmod, hooks
    from .core import E, out_model
    d = os.path.join(base, "w%02d" % k)
    os.makedirs(d, exist_ok=True)
    try:
        os.chown(d, envmod.NOBODY, envmod.NOBODY)
    except OSError:
        pass
    envmod.drop_privileges()
    os.environ["HOME"] = d
    env = envmod.Env(d)
    signal.signal(signal.SIGALRM, _alarm)
    mod = sys.modules["props." + prop.lower()]
    hs = {h.name: h for h in mod.HARNESSES}
    env.remember()
    sys.setrecursionlimit(5000)
    sent = set()
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            break
        if msg is None:
            break
        hname, tasks, slice_s = msg
        h = hs[hname]
        params = h.params[tier]
        stack = list(tasks)
        out = dict(h=hname, viol=[], samples=[], findings={}, reached=collections.Counter(), statuses=collections.Counter(),
                   incon=[])
        s0 = dict(E.stats)
        t0 = time.perf_counter()
        while stack and time.perf_counter() - t0 < slice_s:
            prefix, model = stack.pop()
            st, info, p, ctx = run_path(h, params, prefix, model, env, known, tier)
            stack.extend(p.alts)
            out["statuses"][st] += 1
            for n, c in ctx.reached.items():
                out["reached"][n] += c
            for fk, (fm, fmod) in ctx.findings.items():
                out["findings"].setdefault(fk, (fm, out_model(fmod)))
            if st in ("violation", "timeout", "exception"):
                out["viol"].append((st, info[0], out_model(info[1])))
                if len(out["viol"]) >= 3:
                    break
            elif st == "inconclusive":
                out["incon"].append(str(info))
            elif st == "ok":
                n = int(hashlib.md5(repr((seed, hname, p.decisions)).encode()).hexdigest()[:8], 16)
                key = n
                if len(out["samples"]) < 4 or n < out["samples"][-1][0]:
                    p.dead = True
                    try:
                        if p.model is None:
                            p.ensure_model()
                        m = dict(p.model)
                        out["samples"].append((n, out_model(m), [[a, subst(b, m, p)] for a, b in ctx.obs]))
                        out["samples"].sort(key=lambda x: x[0])
                        del out["samples"][4:]
                    except Exception as e:
                        out["incon"].append("observation: %s: %s" % (type(e).__name__, e))
            E.path = None
        out["left"] = stack
        out["stats"] = {k2: E.stats[k2] - s0[k2] for k2 in E.stats}
        out["entered"] = [hooks.table[i][0] for i in hooks.entered if i not in sent]
        sent |= hooks.entered
        out["realized"] = dict(hooks.realized_at)
        hooks.realized_at.clear()
        conn.send(out)
    os._exit(0)


class Concrete:
    """the real code with given values, in its own process"""

    def __init__(self, prop, tier, base):
        self.prop, self.tier, self.base = prop, tier, base

    def run(self, tasks):
        """tasks: [(harness, model)] -> list of result dicts"""
        if not tasks:
            return []
        inp = json.dumps(dict(prop=self.prop, tier=self.tier, base=self.base,
                              tasks=[dict(h=h, model=m) for h, m in tasks]))
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-c",
                            "import sys; sys.path.insert(0, %r); from sx import concrete; concrete.main()" % ROOT],
                           input=inp, capture_output=True, text=True, cwd=self.base, env=env,
                           timeout=60 + 40 * len(tasks))
        try:
            out = json.loads(r.stdout.strip().split("\n")[-1])
        except (ValueError, IndexError):
            raise RuntimeError("concrete run failed: " + r.stdout[-500:] + r.stderr[-1500:])
        return out


def dedup(viols):
    seen = set()
    for h, st, msg, model in viols:
        key = (h, st, msg[:60])
        if key not in seen:
            seen.add(key)
            yield h, st, msg, model


def explore(prop, tier, seed, nworkers=None, budget=None, only=None, verbose=True):
    t_start = time.time()
    nworkers = nworkers or int(os.environ.get("SX_WORKERS", 0)) or min(8, os.cpu_count() or 1)
    budget = budget or float(os.environ.get("SX_BUDGET", 0)) or (780 if tier == "quick" else 6 * 3600)
    sys.path.insert(0, ROOT)
    from .env import scratch_base
    base = tempfile.mkdtemp(prefix="sx%s." % prop, dir=scratch_base())
    os.chmod(base, 0o777)
    try:
        return _explore(prop, tier, seed, nworkers, budget, only, verbose, base, t_start)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def known_for(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {f["id"]: f for f in json.load(open(p)) if f["property"] == prop and f.get("status") == "known"}


def _explore(prop, tier, seed, nworkers, budget, only, verbose, base, t_start):
    finder = setup_imports(True)
    mod = load(prop)
    known = known_for(prop)
    hs = [h for h in mod.HARNESSES if (not only or h.name in only) and h.params[tier] is not None]
    ctxm = multiprocessing.get_context("fork")
    conns, procs = [], []
    sys.stdout.flush()
    for k in range(nworkers):
        a, b = ctxm.Pipe()
        pr = ctxm.Process(target=worker, args=(k, b, prop, tier, base, set(known), seed))
        pr.start()
        b.close()
        conns.append(a)
        procs.append(pr)
    queues = collections.OrderedDict((h.name, [([], None)]) for h in hs)
    idle = list(range(nworkers))
    busy = {}
    tot = collections.Counter()
    per = {h.name: dict(statuses=collections.Counter(), reached=collections.Counter(), stats=collections.Counter(),
                        t0=None, samples=[]) for h in hs}
    entered, realized = set(), collections.Counter()
    viols, incon, findings = [], [], {}
    conc = Concrete(prop, tier, base)
    confirmed, unconfirmed = [], []
    tried = set()
    deadline = t_start + budget
    complete = True
    died = False
    while True:
        # hand out work: harnesses in turn, biggest queue first
        while idle and any(queues.values()):
            name = max((n for n in queues if queues[n]), key=lambda n: (-sum(1 for b in busy.values() if b == n),
                                                                       len(queues[n])))
            q = queues[name]
            k = idle.pop()
            n = max(1, min(len(q) // (nworkers * 2), 64))
            # shallow ones first: they are the big subtrees
            q.sort(key=lambda t: -len(t[0]))
            tasks = [q.pop() for _ in range(min(n, len(q)))]
            conns[k].send((name, tasks, 0.05 if len(q) < nworkers and len(tasks) < 2 and
                           per[name]["stats"]["paths"] < 500 else 0.6))
            busy[k] = name
        if not busy:
            break
        ready = multiprocessing.connection.wait([conns[k] for k in busy], timeout=5)
        for c in ready:
            k = conns.index(c)
            try:
                out = c.recv()
            except (EOFError, ConnectionResetError):
                incon.append("worker died")
                died = True
                del busy[k]
                continue
            name = busy.pop(k)
            idle.append(k)
            queues[name].extend(out["left"])
            e = per[name]
            e["statuses"].update(out["statuses"])
            e["reached"].update(out["reached"])
            e["stats"].update(out["stats"])
            tot.update(out["stats"])
            entered.update(out["entered"])
            realized.update(out["realized"])
            e["samples"] = sorted(e["samples"] + out["samples"], key=lambda x: x[0])[:12]
            for st, msg, model in out["viol"]:
                viols.append((name, st, msg, model))
            incon.extend("%s: %s" % (name, x) for x in out["incon"])
            for fk, fv in out["findings"].items():
                findings.setdefault(fk, (name,) + tuple(fv))
        # replay candidates
        todo = []
        for h, st, msg, model in dedup(viols):
            key = (h, st, msg[:60])
            n = sum(1 for t in tried if t[0] == key)
            if n < 3 and (key, json.dumps(model, sort_keys=True)) not in tried:
                tried.add((key, json.dumps(model, sort_keys=True)))
                todo.append((h, st, msg, model))
        viols = []
        if todo:
            for (h, st, msg, model), r in zip(todo, conc.run([(t[0], t[3]) for t in todo])):
                tot["replays"] += 1
                ok = r["status"] in ("violation", "timeout", "exception")
                if ok:
                    confirmed.append(dict(harness=h, kind=r["status"], msg=r.get("msg") or msg, symbolic=msg, model=model))
                else:
                    unconfirmed.append(dict(harness=h, kind=st, msg=msg, model=model, real=r["status"]))
            if confirmed:
                complete = False
                break
        if time.time() > deadline:
            complete = False
            break
        if died:
            complete = False
            break
        if len(incon) > 50 or len(unconfirmed) > 20:
            complete = False
            break
    for k, c in enumerate(conns):
        try:
            c.send(None)
        except (BrokenPipeError, OSError):
            pass
    for pr in procs:
        if not complete:
            pr.terminate()
        pr.join(5)
        if pr.is_alive():
            pr.kill()
    # translation validation: sampled paths on the real code
    mism, validated, sample_out = [], 0, []
    if not confirmed:
        tasks, exp = [], []
        rnd = random.Random(seed)
        for h in hs:
            for n, m, obs in per[h.name]["samples"]:
                tasks.append((h.name, m))
                exp.append((h.name, m, obs))
        for (hn, m, obs), r in zip(exp, conc.run(tasks)):
            if r["status"] == "ok" and r["obs"] == json.loads(json.dumps(obs)):
                validated += 1
                if len(sample_out) < 12:
                    sample_out.append(dict(harness=hn, inputs=show(m), observed=obs))
            elif r["status"] in ("violation", "exception", "timeout"):
                # the real code breaks the property on values the symbolic run passed
                mism.append(dict(harness=hn, model=m, expected=obs, real=r))
            else:
                mism.append(dict(harness=hn, model=m, expected=obs, real=r))
        # known findings must still be real
        for fk in list(findings):
            hn, msg, m = findings[fk]
            r = conc.run([(hn, m)])[0]
            if fk not in r.get("findings", {}):
                unconfirmed.append(dict(harness=hn, kind="finding", msg=msg, model=m, real=r["status"]))
                del findings[fk]
    vac = []
    for h in hs:
        for wl in tuple(h.witness) + ("check",):
            if complete and per[h.name]["reached"].get(wl, 0) == 0:
                vac.append("%s: never reached %s" % (h.name, wl))
    wall = time.time() - t_start
    return dict(prop=prop, tier=tier, seed=seed, complete=complete, confirmed=confirmed, unconfirmed=unconfirmed,
                incon=incon, findings=findings, known=known, mism=mism, validated=validated, samples=sample_out,
                per=per, tot=tot, entered=sorted(entered), realized=realized, vac=vac,
                wall=wall, hs=hs, mod=mod, left=sum(len(q) for q in queues.values()))


def show(model):
    """a model in readable form: texts put together from their characters"""
    texts, out = collections.defaultdict(dict), {}
    for k, v in model.items():
        n = k[2:]
        if k.startswith("c:"):
            b, _, i = n.rpartition(".")
            if i.isdigit():
                texts[b][int(i)] = chr(v)
            else:
                out[n] = chr(v)
        else:
            out[n] = v
    for b, d in texts.items():
        ln = out.pop(b + "#", None)
        s = "".join(d[i] for i in sorted(d))
        out[b] = s if ln is None else s[:ln]
    return out


def report(r, quiet=False):
    """write the evidence, print the outcome, return the exit code"""
    prop = r["prop"]
    mod = r["mod"]
    ev_dir = os.environ.get("SX_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rc = 0
    lines = []
    if r["confirmed"]:
        rd = os.path.join(ev_dir, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, c in enumerate(r["confirmed"]):
            key = (c["harness"], c["kind"], c["msg"][:40])
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            p = os.path.join(rd, "%s-%d.json" % (prop, len(seen)))
            json.dump(dict(property=prop, tier=r["tier"], harness=c["harness"], model=c["model"], inputs=show(c["model"]),
                           kind=c["kind"], what=c["msg"], run="python3 /verif/check.py --replay " + p),
                      open(p, "w"), indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (prop, p))
            lines.append("  [%s] %s: %s" % (c["harness"], c["kind"], c["msg"][:400]))
            lines.append("  inputs: %s" % (json.dumps(show(c["model"]), ensure_ascii=True)[:600]))
        rc = 1
    else:
        if r["unconfirmed"] or r["incon"] or r["mism"] or r["vac"] or not r["complete"]:
            rc = 2
    for fk, f in sorted(r["known"].items()):
        if fk in r["findings"]:
            lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, fk, f["what"]))
        elif r["complete"]:
            lines.append("note: known finding %s was not seen" % fk)
    if rc == 2:
        for u in r["unconfirmed"][:5]:
            lines.append("UNCONFIRMED %s %s %s; real code: %s; inputs %s" % (u["harness"], u["kind"], u["msg"][:300], u["real"],
                                                                           json.dumps(show(u["model"]))[:500]))
        for u in r["incon"][:5]:
            lines.append("INCONCLUSIVE " + u[:500])
        for u in r["mism"][:5]:
            lines.append("ENCODING MISMATCH %s inputs %s\n   symbolic %s\n   real %s" % (
                u["harness"], json.dumps(show(u["model"]))[:300], json.dumps(u["expected"], default=str)[:700],
                json.dumps(u["real"])[:900]))
        for u in r["vac"][:10]:
            lines.append("VACUOUS " + u)
        if not r["complete"]:
            lines.append("INCOMPLETE: %d subtrees left" % r["left"])
    t = r["tot"]
    fns = [q for q in r["entered"] if q.startswith("booktest")]
    cov = dict(
        states=int(t["paths"]), transitions=int(t["decisions"]), traces_validated_against_impl=int(r["validated"]),
        samples=r["samples"][:8] or [dict(harness=c["harness"], inputs=show(c["model"]), violation=c["msg"]) for c in r["confirmed"][:3]],
        paths=int(t["paths"]) - int(t["pruned"]), pruned_by_assumptions=int(t["pruned"]),
        solver_queries=int(t["queries"]), solver_sat=int(t["sat"]), solver_unsat=int(t["unsat"]),
        solver_seconds=round(t["solver_s"], 2), obligations_checked=int(t["obligations"]),
        branches_forced=int(t["forced"]), counterexample_replays=int(t["replays"]),
        functions_encoded=fns, exhaustive=bool(r["complete"] and rc == 0),
        harnesses=[dict(name=h.name, checks=h.doc, bounds=h.bounds, params=h.params[r["tier"]],
                        paths=int(r["per"][h.name]["stats"]["paths"]),
                        obligations=int(r["per"][h.name]["stats"]["obligations"]),
                        queries=int(r["per"][h.name]["stats"]["queries"]),
                        statuses=dict(r["per"][h.name]["statuses"]), reached=dict(r["per"][h.name]["reached"]))
                   for h in r["hs"]],
        concretised_at=dict(r["realized"]), known_findings_seen=sorted(r["findings"]))
    ev = dict(property=prop, tier=r["tier"], seed=r["seed"], level="model_checking", coverage=cov,
              assumptions=COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(r["wall"], 2), violations=len(r["confirmed"]))
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d obligations, %d queries (%.1f s in the solver), %d traces validated, %.1f s" % (
        prop, r["tier"], t["paths"], t["obligations"], t["queries"], t["solver_s"], r["validated"], r["wall"]))
    if not quiet:
        for h in r["hs"]:
            e = r["per"][h.name]
            print("   %-28s paths %-7d obligations %-7d queries %-7d %s" % (
                h.name, e["stats"]["paths"], e["stats"]["obligations"], e["stats"]["queries"], dict(e["reached"])))
    for l in lines:
        print(l)
    print("result: " + {0: "holds within the bounds", 1: "violated", 2: "no answer"}[rc])
    sys.stdout.flush()
    return rc


COMMON_ASSUMPTIONS = [
    "Bounded: the statement is decided for every value within the bounds listed per harness, and says nothing outside them.",
    "CPython, the file system (tmpfs), asyncio and pickle behave as documented; they are executed, not encoded.",
    "The AST instrumentation (sx/instr.py, sx/hooks.py) and z3 are trusted; sampled paths are compared with the real, uninstrumented code on every run.",
    "time.time/time.sleep, input(), os.system and destructive file operations are stand-ins confined to a scratch directory (sx/env.py).",
]
