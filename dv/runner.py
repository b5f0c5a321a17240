"""runs the check of one property: verify every contract, replay, evidence, verdict"""
import os, sys, json, time, importlib, multiprocessing, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
OUT = os.environ.get("DV_OUT", VERIF)        # development only: evidence and replay files of a scratch run
from concurrent.futures import ProcessPoolExecutor, as_completed
import contract
from contract import verify, replay, program


def big_stack(f):
    """run f in a thread with a large stack (deep recursion over terms)"""
    import threading
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    box = {}

    def go():
        try:
            box["r"] = f()
        except BaseException as e:
            box["e"] = e
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in box:
        raise box["e"]
    return box["r"]


def contained(f, limit):
    """run f in a forked child under a hard time limit; None when it does not answer"""
    ctx = multiprocessing.get_context("fork")
    r, w = ctx.Pipe(False)

    def child():
        try:
            x = ("ok", big_stack(f))
        except BaseException:
            x = ("err", traceback.format_exc()[-1500:])
        w.send(x)
        w.close()
        os._exit(0)
    p = ctx.Process(target=child)
    p.start()
    w.close()
    x = None
    try:
        if r.poll(limit):
            x = r.recv()
    except EOFError:
        x = ("err", "proof process ended without an answer")
    p.kill()
    p.join()
    return x


def job(args):
    pid, i, tier, seed = args
    mod = importlib.import_module("props." + pid.replace("-", "_"))
    ks = mod.contracts()
    k = ks[i]
    return i, run_one(k, tier, seed)


def run_one(k, tier, seed):
    if hasattr(k, "run_check"):
        return k.run_check(tier, seed)

    def go():
        o = verify(k)
        return dict(status=o.status, obl=o.obl, info=o.info, time=o.time, hints=o.hints)
    limit = (k.budget + 30) * (1 if tier == "quick" else 4)
    if tier != "quick":
        k.budget *= 4
    x = contained(go, limit)
    if x is None:
        o = dict(status="unknown", obl=[], info=dict(why="proof time limit of %d s" % limit), time=limit, hints=[])
    elif x[0] == "err":
        o = dict(status="unsupported", obl=[], info=dict(why="internal: " + x[1]), time=0, hints=[])
    else:
        o = x[1]
    if not o["obl"]:
        o["obl"] = [dict(name="%s/%s" % (k.label, e.name), status="unknown") for e in k.ens]
    res = dict(label=k.label, routine=k.routine, status=o["status"], obligations=o["obl"], info=o["info"], seconds=round(o["time"], 2))
    res["assumes"] = list(getattr(k, "assumes", []))
    if k.skip_replay:
        res["replay"] = dict(skipped=k.skip_replay)
        return res
    proved = o["status"] == "proved"
    n = k.samples if proved else k.samples * 12
    if tier == "thorough":
        n *= 8
    r = replay(k, [seed * 100003 + j for j in range(n)], (20 if proved else 60) if tier == "quick" else 200, hints=o["hints"])
    res["replay"] = dict(kind=r[0], n=r[1])
    if r[0] == "bad":
        res["replay"].update(violations=r[2], inputs=r[3], arrays=r[4], seed=r[5])
    elif r[0] in ("crash", "err"):
        res["replay"]["why"] = r[2]
    return res


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x["property"] == pid and x.get("status") == "known"]


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + pid.replace("-", "_"))
    program()
    ks = mod.contracts()
    for k in ks:
        if hasattr(k, "prepare"):
            k.prepare()
    res = [None] * len(ks)
    ctx = multiprocessing.get_context("fork")
    nw = min(int(os.environ.get("DV_JOBS", "8")), max(1, len(ks)))
    with ProcessPoolExecutor(nw, mp_context=ctx) as ex:
        fs = {ex.submit(job, (pid, i, tier, seed)): i for i in range(len(ks))}
        for f in as_completed(fs):
            i = fs[f]
            try:
                res[i] = f.result()[1]
            except Exception as e:
                res[i] = dict(label=ks[i].label, status="error", obligations=[], info=dict(why=traceback.format_exc()[-1500:]), seconds=0, replay=dict(kind="err", n=0, why="worker failed"))
    return verdict(pid, tier, seed, mod, res, t0)


def verdict(pid, tier, seed, mod, res, t0):
    kf = known_findings(pid)
    viol, errors, found = [], [], []
    bounded, proved_fn = [], []
    nobl = ndis = 0
    for r in res:
        for ob in r["obligations"]:
            nobl += 1
            ndis += ob["status"] == "discharged"
        rp = r.get("replay", {})
        bad = rp.get("kind") == "bad"
        crash = rp.get("kind") == "crash"
        failed = [ob for ob in r["obligations"] if ob["status"] == "failed"]
        if r["status"] == "vacuous":
            errors.append("%s: vacuous contract: %s" % (r["label"], r["info"].get("why")))
            continue
        if bad or crash:
            names = sorted(set(v[0] for v in rp.get("violations", []))) or ["crash"]
            left = []
            for n in names:
                hit = [f for f in kf if f["label"] == r["label"] and f["obligation"] == n]
                if hit:
                    found.append((hit[0], r))
                else:
                    left.append(n)
            if left:
                viol.append((r, "input", left))
            continue
        if r["status"] == "proved" and rp.get("kind") == "ok" and rp.get("n", 0) == 0:
            errors.append("%s: no input met the precondition (possibly vacuous contract)" % r["label"])
            continue
        if r["status"] == "proved":
            proved_fn.append(r["label"])
            if rp.get("kind") == "err":
                r["info"]["replay_problem"] = rp.get("why")
            continue
        if failed:
            left = []
            for ob in failed:
                n = ob["name"].split("/", 1)[1]
                hit = [f for f in kf if f["label"] == r["label"] and f["obligation"] == n]
                if hit:
                    found.append((hit[0], r))
                else:
                    left.append(ob)
            if not left:
                continue
            definite = [ob for ob in left if ob.get("numeric") is True]
            if definite and not (rp.get("kind") == "ok" and rp.get("n", 0) >= 40):
                viol.append((r, "noinput", [ob["name"] for ob in definite]))
                continue
            if definite:
                # the verifier's residual is non-zero, yet the compiled code met the contract on every sampled input
                viol.append((r, "noinput", [ob["name"] for ob in definite]))
                continue
        # undecided by the verifier: bounded stand-in decides, labelled bounded
        if rp.get("kind") == "ok" and rp.get("n", 0) >= 1:
            bounded.append(dict(contract=r["label"], why=r["info"].get("why") or [ob for ob in r["obligations"] if ob["status"] != "discharged"][:2], inputs=rp["n"], bound="sampled entry states within the contract's declared domain"))
        else:
            errors.append("%s: undecided (%s) and no bounded stand-in (%s)" % (r["label"], r["info"].get("why") or r["status"], rp))
    code = 0
    lines = []
    for f, r in found:
        l = "KNOWN-FINDING: property=%s %s" % (pid, f["what"])
        if l not in lines:
            lines.append(l)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    for n, (r, kind, names) in enumerate(viol):
        path = os.path.join(OUT, "replays", "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(property=pid, contract=r["label"], failed=names, kind=kind, detail=r), f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if kind == "input" else " no-failing-input-found"))
        print("  violated obligation(s): %s %s" % (r["label"], ", ".join(map(str, names))[:300]))
        code = 1
    if errors and code == 0:
        code = 2
    if nobl == 0 and not bounded and code == 0:
        errors.append("no obligations were generated")
        code = 2
    info = lambda key: sum(r["info"].get(key, 0) or 0 for r in res)
    trusted = list(getattr(mod, "TRUSTED", []))
    for r in res:
        for a in r.get("assumes", []):
            if a not in trusted:
                trusted.append(a)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "proof"),
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd="./check %s %s" % (pid, tier),
                            trusted_base=BASE + trusted,
                            functions_under_contract=[r["label"] for r in res], functions_proved=proved_fn, functions_bounded_not_proved=bounded,
                            inlined_callees=sorted(set(x for r in res for x in r["info"].get("inlined", []))),
                            loops_summarised=info("loops"), loop_independence_obligations=info("loop_obligations"),
                            case_splits=info("splits"), proof_leaves=info("leaves"), polynomial_identity_checks=info("polys"),
                            z3_calls=info("z3_calls"), z3_seconds=round(info("z3_time"), 2),
                            replay_runs_on_compiled_code=sum((r.get("replay") or {}).get("n", 0) or 0 for r in res),
                            obligations_list=[ob for r in res for ob in r["obligations"]][:400],
                            known_findings=[f["what"] for f, _ in found], errors=errors,
                            per_contract=[dict(label=r["label"], status=r["status"], seconds=r["seconds"], notes=r["info"].get("notes", [])[:6], why=r["info"].get("why"), replay={k: v for k, v in (r.get("replay") or {}).items() if k in ("kind", "n", "why", "skipped")}) for r in res]),
              assumptions=BASE + trusted, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    for e in errors:
        print("ERROR", e)
    print("%s: %d contracts, %d proved, %d bounded, obligations %d/%d, %.1fs -> exit %d" % (pid, len(res), len(proved_fn), len(bounded), ndis, nobl, time.time() - t0, code))
    return code


BASE = [
    "floating-point arithmetic is treated as exact real arithmetic, machine integers as unbounded",
    "the Fortran/C++ front end and verification-condition generator in /verif/dv are trusted (cross-checked on every run by executing the compiled code against the same contracts)",
    "z3 (linear arithmetic) and sympy polynomial rings over QQ (rational-function normaliser) are trusted back ends",
    "divisors appearing in the code are assumed non-zero on the contract's domain; OpenMP directives are inactive as in the project's build",
    "array accesses are assumed in bounds of the declared shapes unless the contract states an index obligation",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
