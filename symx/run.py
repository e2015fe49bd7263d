"""Runs the harnesses of one property: symbolic exploration in worker processes, replay and validation on the real code."""
import argparse
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction as F

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PT3D_REPO", "/repo")
MAXPAR = int(os.environ.get("SYMX_JOBS", "8"))


def setup_paths():
    sys.dont_write_bytecode = True
    for p in (HERE, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def load_cases(prop):
    from . import harness as H

    H.CASES.clear()
    importlib.import_module(f"checks.{prop.lower()}")
    return list(H.CASES)


# ============================================================================ symbolic side
def run_case_symbolic(case, seed, deadline):
    import numpy as np
    import torch

    from . import explore as E
    from . import harness as H
    from . import solver as S
    from . import tensor as TE
    from . import terms as T

    t0 = time.time()
    np.seterr(all="ignore")
    torch.set_default_dtype(getattr(torch, case.dtype))
    ex = E.Explorer(seed=seed, max_paths=case.max_paths, deadline=deadline, feas_ms=case.feas_ms, prove_ms=case.prove_ms, max_splits=case.max_splits)
    res = dict(name=case.name, violations=[], errors=[], unknown=[], samples=[], vacuous=True)
    paths_info = []
    held = {}

    def fn(p):
        c = H.Sym(p, case)
        held["c"] = c
        with TE.SymMode():
            case.fn(c)

    def on_path(p):
        c = held["c"]
        if c.reached == 0:
            return
        if res["vacuous"]:
            if p.alive.any():
                res["vacuous"] = False
            else:
                r, _ = S.sat_portfolio(p.pc, 5000)
                if r == "sat":
                    res["vacuous"] = False
        if p.alive.any() and len(res["samples"]) < case.validate:
            idx = np.nonzero(p.alive)[0]
            i = int(idx[-1])
            m = {}
            for v, a in p.env.items():
                x = np.asarray(a)[i]
                m[T.ARG[v]] = bool(x) if T.SORT[v] == "B" else float(x)
            obs = []
            tot = 0
            for nm, ids in c.obs:
                vals = []
                for t in ids[:64]:
                    try:
                        x = T.evalv(t, p.env, p.memo)
                        x = np.asarray(x)
                        vals.append(float(x if x.ndim == 0 else x[i]))
                    except KeyError:
                        vals.append(None)
                obs.append((nm, vals))
                tot += len(vals)
                if tot > 600:
                    break
            res["samples"].append(dict(model=m, obs=obs, choices=list(p.taken)))

    try:
        ex.run(fn, on_path)
        if not ex.exhausted:
            res["errors"].append(f"path bound {case.max_paths} reached before the exploration was complete")
    except E.Violation as v:
        res["violations"].append(dict(kind="check", check=v.name, model=model_json(v.model), detail=v.detail))
    except E.Budget as b:
        res["errors"].append(f"budget: {b}")
    except E.Unsupported as u:
        tb = traceback.format_exc().strip().split("\n")
        res["errors"].append(f"unsupported: {u} :: " + " | ".join(x.strip() for x in tb[-9:-1] if "File" in x)[-600:])
    except MemoryError:
        res["errors"].append("out of memory")
    except Exception as e:  # the code under test raised
        tb = traceback.format_exc()
        p = held["c"].p if "c" in held else None
        m = {}
        if p is not None:
            m = ex.complete(p, None) if not p.pc else None
            if m is None:
                if p.alive.any():
                    i = int(np.nonzero(p.alive)[0][-1])
                    m = {v: (bool(np.asarray(a)[i]) if T.SORT[v] == "B" else F(float(np.asarray(a)[i]))) for v, a in p.env.items()}
                else:
                    r, mm = S.sat_portfolio(p.pc, 8000)
                    m = ex.complete(p, mm) if r == "sat" else {}
        res["violations"].append(dict(kind="exception", check="exception:" + type(e).__name__, model=model_json(m), detail=(str(e)[:300] + " :: " + tb[-900:])))
    res["unknown"] = [(n, d) for n, d in ex.unknown_names]
    res["cover"] = dict(TE.COVER)
    res.update(paths=ex.n_paths, pruned=ex.n_pruned, branches=ex.n_branch, checks=ex.n_checks, check_names=ex.names, exhausted=ex.exhausted,
               feas=ex.n_feas, feas_unknown=ex.n_feas_unknown, stats=S.STATS.dict(), wall=time.time() - t0, terms=len(T.OP))
    return res


def model_json(m):
    from . import terms as T

    out = {}
    for v, x in (m or {}).items():
        nm = T.ARG[v] if isinstance(v, int) else v
        out[nm] = bool(x) if isinstance(x, bool) else (str(x) if isinstance(x, F) else str(F(x)))
    return out


def model_load(m):
    out = {}
    for k, x in m.items():
        out[k] = x if isinstance(x, bool) else (float(F(x)) if isinstance(x, str) else float(x))
    return out


def forked(fn, *args, timeout=None):
    """run fn in a forked child; returns ('ok', value) / ('err', text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:  # noqa
                out = ("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + timeout if timeout else None
    while True:
        left = None if end is None else end - time.time()
        if left is not None and left <= 0:
            kill(pid)
            os.close(r)
            return "err", "timeout"
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return "err", "worker died"
    return pickle.loads(buf)


def kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def sym_zygote(prop, tier, seed, only, hard_deadline):
    setup_paths()
    import torch

    torch.set_num_threads(1)
    from . import fakec

    fakec.install()
    t0 = time.time()
    cases = load_cases(prop)
    if only:
        cases = [c for c in cases if any(o in c.name for o in only)]
    cases = [c for c in cases if tier == "thorough" or c.tier == "quick"]
    if any(c.cpp for c in cases):
        fakec.prebuild([x for c in cases if c.cpp for x in (c.cpp if isinstance(c.cpp, (list, tuple)) else [c.cpp])])
    order = sorted(range(len(cases)), key=lambda i: -cases[i].weight)
    results = {}
    running = {}
    queue = list(order)
    stop_at = hard_deadline
    scale = 1.0 if tier == "quick" else 3.0

    def start(i):
        c = cases[i]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                import resource

                lim = int(float(os.environ.get("SYMX_MEM_GB", "6")) * (1 << 30))
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                dl = min(time.time() + c.budget * scale, hard_deadline)
                try:
                    out = run_case_symbolic(c, seed, dl)
                except BaseException as e:  # noqa
                    out = dict(name=c.name, errors=[f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}"], violations=[], unknown=[], samples=[])
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(0)
        os.close(w)
        running[r] = [i, pid, b"", time.time() + c.budget * scale * 1.3 + 20]

    while queue or running:
        now = time.time()
        while queue and len(running) < MAXPAR and now < stop_at:
            start(queue.pop(0))
        if now >= stop_at:
            for i in queue:
                results[i] = dict(name=cases[i].name, errors=["not run: time is up"], violations=[], unknown=[], samples=[], skipped=True)
            queue = []
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                running[r][2] += d
                continue
            i, pid, buf, _ = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                results[i] = pickle.loads(buf)
            except Exception:
                results[i] = dict(name=cases[i].name, errors=["worker died (memory?)"], violations=[], unknown=[], samples=[])
            if results[i]["violations"]:
                stop_at = min(stop_at, time.time() + 5)
        now = time.time()
        for r in list(running):
            if now > running[r][3] or now > hard_deadline + 5 or (now > stop_at + 30):
                i, pid, _, _ = running.pop(r)
                kill(pid)
                os.close(r)
                results[i] = dict(name=cases[i].name, errors=["time limit of the case"], violations=[], unknown=[], samples=[])
    binfo = fakec.info()
    if binfo:
        from . import cxx

        cxx.cleanup()
    return dict(results=[results[i] for i in range(len(cases))], build=binfo, wall=time.time() - t0,
                bounds={c.name: c.bounds for c in cases if c.bounds})


# ============================================================================ concrete side
class ReplayRandom:
    """random draws come from the model, named in draw order exactly as in the symbolic run"""

    def __init__(self, model):
        from torch.utils._python_dispatch import TorchDispatchMode

        from . import replaymode

        self.mode = replaymode.make(model)

    def __enter__(self):
        return self.mode.__enter__()

    def __exit__(self, *a):
        return self.mode.__exit__(*a)


def run_case_concrete(case, model, seed=1):
    import torch

    from . import harness as H

    torch.manual_seed(seed)
    torch.set_default_dtype(getattr(torch, case.dtype))
    c = H.Conc(case, model, seed)
    out = dict(status="ok", fails=[], obs=[], missing=0)
    try:
        with ReplayRandom(model):
            case.fn(c)
    except H.PathEnd as e:
        out["status"] = "pathend:" + str(e)
    except H.Unsupported as e:
        out["status"] = "unsupported:" + str(e)
    except Exception as e:
        out["status"] = "exception:" + type(e).__name__
        out["detail"] = (str(e)[:300] + " :: " + traceback.format_exc()[-900:])
    out["fails"] = c.fails
    out["obs"] = [(n, v[:64]) for n, v in c.obs]
    out["missing"] = len(c.missing)
    return out


def conc_zygote(prop, jobs, so=None):
    """jobs: list of (case name, model). returns list of outcomes"""
    setup_paths()
    import torch

    torch.set_num_threads(1)
    if so:
        load_so(so)
    cases = {c.name: c for c in load_cases(prop)}
    out = []
    for name, model in jobs:
        out.append(forked(run_case_concrete, cases[name], model_load(model), timeout=120))
    return out


def load_so(path):
    import importlib.util

    import pytorch3d

    spec = importlib.util.spec_from_file_location("pytorch3d._C", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules["pytorch3d._C"] = m
    pytorch3d._C = m


_REAL = {}


def rebuild_real():
    """build the real extension from the current tree in a scratch copy; returns the path of the .so"""
    if "so" in _REAL:
        return _REAL["so"]
    d = tempfile.mkdtemp(prefix="symx_real_")
    src = os.path.join(d, "repo")
    os.makedirs(src)
    for n in ("pytorch3d", "setup.py", "LICENSE", "README.md"):
        p = os.path.join(REPO, n)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(src, n), ignore=shutil.ignore_patterns("*.so", "__pycache__"))
        elif os.path.exists(p):
            shutil.copy(p, src)
    env = dict(os.environ)
    env.update(PATH="/opt/venv/bin:/usr/lib/ccache:" + os.environ.get("PATH", "/usr/bin:/bin"), CCACHE_DIR=os.path.join(d, "cc"), PYTORCH3D_FORCE_NO_CUDA="1",
               MAX_JOBS="8", CFLAGS="-O1", HOME=d, TORCH_EXTENSIONS_DIR=d)
    r = subprocess.run(["/opt/venv/bin/python", "setup.py", "-q", "build_ext", "--inplace", "--force"], cwd=src, env=env, capture_output=True, text=True)
    so = [f for f in os.listdir(os.path.join(src, "pytorch3d")) if f.startswith("_C") and f.endswith(".so")]
    if not so:
        shutil.rmtree(d, ignore_errors=True)
        raise RuntimeError("building the real extension failed: " + r.stderr[-2000:])
    keep = os.path.join(tempfile.mkdtemp(prefix="symx_so_"), so[0])
    shutil.copy(os.path.join(src, "pytorch3d", so[0]), keep)
    shutil.rmtree(d, ignore_errors=True)
    _REAL["so"] = keep
    return keep


def cleanup():
    so = _REAL.pop("so", None)
    if so:
        shutil.rmtree(os.path.dirname(so), ignore_errors=True)


# ============================================================================ main
def close(a, b, rt, at):
    if a is None or b is None:
        return True
    if a != a:
        return True  # the sample evaluation is undefined
    if b != b:
        return False
    if a == b:
        return True
    if abs(a) > 1e25 or abs(b) > 1e25:
        return (a > 0) == (b > 0)
    return abs(a - b) <= at + rt * max(abs(a), abs(b))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--no-validate", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup_paths()
    if a.replay:
        return replay_main(prop, a.replay)
    t0 = time.time()
    limit = 780 if a.tier == "quick" else 3 * 3600
    st, sym = forked(sym_zygote, prop, a.tier, seed, a.only, t0 + limit)
    if st != "ok":
        print("ERROR: symbolic run failed:", sym)
        return 2
    results = sym["results"]
    code = 0
    errors, violations, unknowns = [], [], []
    for r in results:
        for e in r["errors"]:
            if not (r.get("skipped") and any(x["violations"] for x in results)):
                errors.append((r["name"], e))
        for n, d in r["unknown"]:
            unknowns.append((r["name"], n, d))
        for v in r["violations"]:
            violations.append((r["name"], v))
        if r.get("vacuous") and not r["errors"] and not r["violations"]:
            errors.append((r["name"], "vacuous: no feasible path reaches a check"))
        if a.v:
            s = r.get("stats", {})
            print(f"  {r['name']:60s} paths {r.get('paths')} pruned {r.get('pruned')} br {r.get('branches')} checks {r.get('checks')} q {s.get('queries')} nf {s.get('nf_proved')} {r.get('wall', 0):.1f}s "
                  f"{'VIOL' if r['violations'] else ''} {'ERR' if r['errors'] else ''} {'UNK' if r['unknown'] else ''}")
    import importlib.util as _iu  # noqa

    cpp = bool(sym["build"].get("libs"))
    confirmed = []
    # ---------------------------------------------------------------- replay of counterexamples
    if violations:
        so = None
        jobs = [(n, v["model"]) for n, v in violations]
        if cpp:
            try:
                so = rebuild_real()
            except Exception as e:
                print("ERROR: ", e)
                return 2
        st, outs = forked(conc_zygote, prop, jobs, so)
        if st != "ok":
            print("ERROR: replay failed:", outs)
            return 2
        for (n, v), (s2, o) in zip(violations, outs):
            ok, why = reproduces(v, s2, o)
            if ok:
                confirmed.append((n, v, why))
            else:
                errors.append((n, f"counterexample for {v['check']} does not reproduce on the real code: {v['detail'][:600]} model={json.dumps(v['model'])[:800]} outcome={str(o)[:600]}"))
    # ---------------------------------------------------------------- validation of the translation
    validated = tried = 0
    mism = []
    if not a.no_validate and not confirmed:
        jobs, meta = [], []
        for r in results:
            for smp in r["samples"]:
                jobs.append((r["name"], smp["model"]))
                meta.append((r["name"], smp))
        so = None
        for attempt in range(2):
            st, outs = forked(conc_zygote_par, prop, jobs, so)
            if st != "ok":
                print("ERROR: validation failed:", outs)
                return 2
            validated, tried, mism = compare(meta, outs)
            full = [n for n in {m[0] for m in mism} if sum(m[0] == n for m in mism) == sum(x[0] == n for x in meta)]
            if not full or not cpp or attempt == 1:
                break
            so = rebuild_real()
        bad = {}
        for n, msg, isfail, smp in mism:
            bad.setdefault(n, []).append((msg, isfail, smp))
        for n, ms in bad.items():
            tot = sum(1 for x in meta if x[0] == n)
            if len(ms) == tot and tot >= 2 and all(m[1] for m in ms):
                v = dict(kind="check", check=ms[0][1], model={k: (x if isinstance(x, bool) else str(F(x))) for k, x in ms[0][2]["model"].items()}, detail="every executed trace breaks the property on the real code: " + ms[0][0])
                confirmed.append((n, v, ms[0][0]))
            elif len(ms) == tot:
                errors.append((n, "translation differs from the real code: " + ms[0][0]))
            elif a.v:
                print("  note: trace differs:", n, ms[0][0][:300])
    known = load_known(prop)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    nviol = 0
    for k, (n, v, why) in enumerate(confirmed):
        kf = match_known(known, n, v)
        if kf:
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")
            continue
        nviol += 1
        path = os.path.join(HERE, "evidence", "replay", f"{prop}-{k}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, case=n, check=v["check"], kind=v["kind"], model=v["model"], detail=v["detail"], observed=why, cpp=cpp), f, indent=1)
        print(f"  case {n}: {v['check']}: {why}")
        print(f"  {v['detail'][:500]}")
        print(f"VIOLATION property={prop} replay={path}")
    write_evidence(prop, a.tier, seed, results, sym, validated, tried, nviol, unknowns, time.time() - t0, errors)
    cleanup()
    tot = {k: sum((r.get(k) or 0) for r in results) for k in ("paths", "pruned", "branches", "checks")}
    print(f"{prop}: {len(results)} harnesses, {tot['paths']} paths, {tot['branches']} decisions, {tot['checks']} obligations, undecided {len(unknowns)}, "
          f"traces validated {validated}/{tried}, violations {nviol}, errors {len(errors)}, {time.time() - t0:.1f}s")
    if nviol:
        return 1
    for n, c, d in unknowns[:12]:
        print(f"UNDECIDED {n}: {c}: {d[:300]}")
    for n, e in errors[:12]:
        print(f"ERROR {n}: {e[:1600]}")
    if errors or unknowns:
        # partial answer: the property held on everything that was explored; what was not is printed and in the evidence.
        # With a quarter of the harnesses (or more) unanswered the check gives no answer at all.
        lost = {n for n, _ in errors} | {n for n, _, _ in unknowns}
        if 4 * len(lost) >= len(results):
            return 2
        print(f"PARTIAL: {len(lost)} of {len(results)} harnesses not fully answered")
    return 0


def reproduces(v, s2, o):
    if s2 != "ok":
        return False, o
    if v["kind"] == "exception":
        if o["status"].startswith("exception:"):
            return True, o["status"] + " " + o.get("detail", "")[:300]
        if o["fails"]:
            return True, str(o["fails"][0])
        return False, ""
    if o["fails"]:
        return True, f"{o['fails'][0][0]}: {o['fails'][0][1]}"
    if o["status"].startswith("exception:"):
        return True, o["status"] + " " + o.get("detail", "")[:300]
    return False, ""


def conc_zygote_par(prop, jobs, so=None):
    """jobs grouped by chunks in parallel forked children"""
    setup_paths()
    import torch

    torch.set_num_threads(1)
    if so:
        load_so(so)
    cases = {c.name: c for c in load_cases(prop)}
    n = min(MAXPAR, max(1, len(jobs)))
    chunks = [list(range(i, len(jobs), n)) for i in range(n)]
    out = [None] * len(jobs)

    def work(ch):
        res = []
        for i in ch:
            name, model = jobs[i]
            try:
                res.append(("ok", run_case_concrete(cases[name], model_load(model))))
            except BaseException as e:  # noqa
                res.append(("err", str(e)))
        return res

    import threading

    def runner(ch):
        st, r = forked(work, ch, timeout=300)
        for j, i in enumerate(ch):
            out[i] = r[j] if st == "ok" else ("err", r)

    ths = [threading.Thread(target=runner, args=(ch,)) for ch in chunks if ch]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return out


def compare(meta, outs):
    validated = tried = 0
    mism = []
    for (n, smp), oo in zip(meta, outs):
        st, o = oo if oo else ("err", "no outcome")
        tried += 1
        if st != "ok":
            mism.append((n, "concrete run failed: " + str(o)[:300], False, smp))
            continue
        if o["status"] != "ok":
            mism.append((n, f"{o['status']} {o.get('detail', '')[:500]}", o["status"] if o["status"].startswith("exception") else False, smp))
            continue
        if o["fails"]:
            mism.append((n, f"{o['fails'][0][0]}: {o['fails'][0][1]}", o["fails"][0][0], smp))
            continue
        bad = None
        for (n1, v1), (n2, v2) in zip(smp["obs"], o["obs"]):
            if n1 != n2 or len(v1) != len(v2):
                bad = f"observation {n1}({len(v1)}) vs {n2}({len(v2)})"
                break
            for x, y in zip(v1, v2):
                if not close(x, None if y is None else float(y), 2e-2, 2e-3):
                    bad = f"{n1}: symbolic term evaluates to {x}, real code gives {y}"
                    break
            if bad:
                break
        if bad:
            mism.append((n, bad, False, smp))
        else:
            validated += 1
    return validated, tried, mism


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def match_known(known, case, v):
    for k in known:
        if k["case"] == case and (k.get("check") is None or k["check"] == v["check"]):
            return k
    return None


def write_evidence(prop, tier, seed, results, sym, validated, tried, nviol, unknowns, wall, errors=()):
    from collections import Counter

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    st = Counter()
    cover = Counter()
    for r in results:
        for k, x in (r.get("stats") or {}).items():
            st[k] += x
        cover.update(r.get("cover") or {})
    obligations = sum(r.get("checks") or 0 for r in results)
    samples = []
    for r in results[:6]:
        for s in r["samples"][:1]:
            samples.append(dict(harness=r["name"], witness={k: (round(x, 4) if isinstance(x, float) else x) for k, x in list(s["model"].items())[:12]}, branch_decisions=s["choices"][:40]))
    try:
        mod = importlib.import_module(f"checks.meta")
        meta = mod.META.get(prop, {})
    except Exception:
        meta = {}
    cov = dict(
        states=sum(r.get("paths") or 0 for r in results), transitions=sum(r.get("branches") or 0 for r in results),
        traces_validated_against_impl=validated, traces_tried=tried, samples=samples or ["no feasible path"],
        harnesses=[dict(name=r["name"], paths=r.get("paths"), pruned=r.get("pruned"), obligations=r.get("checks"), complete=r.get("exhausted"), wall_s=round(r.get("wall") or 0, 2)) for r in results],
        obligations=obligations, discharged=obligations - len(unknowns) - nviol, undecided=len(unknowns), unanswered=[f"{n}: {e[:200]}" for n, e in errors] + [f"{n}: {c}" for n, c, _ in unknowns],
        solver=dict(queries=st["queries"], solver_time_s=round(st["time"], 2), sat=st["sat"], unsat=st["unsat"], unknown=st["unknown"], by_normal_form=st["nf_proved"], syntactic=st["syntactic"], case_splits=st["splits"]),
        functions_encoded=meta.get("functions", []), bounds=dict(sym.get("bounds") or {}, **({"property": meta["bounds"]} if meta.get("bounds") else {})),
        aten_ops_executed_symbolically=dict(cover.most_common(60)), cpp=sym["build"],
    )
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov,
              assumptions=(meta.get("assumptions") or []) + [
                  "arithmetic over exact reals: rounding, overflow, infinities and NaN are outside the claim",
                  "float literals stand for the shortest decimal that rounds to them; inf is modelled by 1e30",
                  "sizes, batch layouts and option combinations are those of the listed harnesses"], wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay_main(prop, path):
    d = json.load(open(path))
    so = rebuild_real() if d.get("cpp") else None
    st, outs = forked(conc_zygote, prop, [(d["case"], d["model"])], so)
    cleanup()
    if st != "ok":
        print("ERROR", outs)
        return 2
    ok, why = reproduces(d, *outs[0])
    print("reproduced" if ok else "not reproduced", why)
    return 1 if ok else 0


if __name__ == "__main__":
    sys.exit(main())
