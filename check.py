#!/usr/bin/env python3
"""check.py <property>: extract IR from /repo's current tree, discharge every contract obligation of the
property, run its bounded stand-in; exit 0 (held) or 1 (VIOLATION line)."""
import sys, os, re, json, time, glob, shutil, signal, subprocess, tempfile, pickle, struct, traceback
V = os.path.dirname(os.path.abspath(__file__))
if "z3" not in sys.modules:
    try:
        import z3
    except ImportError:
        os.execvp("python3-vt", ["python3-vt"] + sys.argv)
sys.path.insert(0, V + "/engine")
import ir, symex, contracts, props
REPO = "/repo"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = TIER == "quick"
NP = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
HARD = 780 if QUICK else 6 * 3600      # never run longer than this
def left(): return HARD - (time.time() - T0)

CXX = "clang++-18"
IRF = "-std=c++20 -O0 -Xclang -disable-O0-optnone -fno-discard-value-names -w -S -emit-llvm".split()
INC = ["-I" + REPO + "/src", "-I" + V + "/vc", "-I" + V + "/stubs", "-I" + V + "/native"]
NATF = "-std=c++20 -O1 -g -fsanitize=address -fno-omit-frame-pointer -w".split()

def sh(cmd, t=600):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

class Pool:
    """at most n child processes; fn runs in the child and returns a picklable value"""
    def __init__(self, n): self.n, self.run, self.todo, self.done = n, {}, [], []
    def add(self, key, fn, limit): self.todo.append((key, fn, limit))
    def _start(self, key, fn, limit):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            try:
                v = fn()
            except BaseException as e:
                v = ("error", repr(e) + "\n" + traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(v, f)
            os._exit(0)
        os.close(w)
        self.run[pid] = (key, os.fdopen(r, "rb"), time.time() + limit, [])
    def wait(self):
        import select
        out = {}
        while self.todo or self.run:
            while self.todo and len(self.run) < self.n:
                self._start(*self.todo.pop(0))
            fds = {v[1].fileno(): p for p, v in self.run.items()}
            rd, _, _ = select.select(list(fds), [], [], 0.5)
            for fd in rd:
                p = fds[fd]
                key, f, lim, buf = self.run[p]
                b = os.read(fd, 1 << 20)
                if b:
                    buf.append(b)
                    continue
                f.close()
                os.waitpid(p, 0)
                del self.run[p]
                try:
                    out[key] = pickle.loads(b"".join(buf))
                except Exception:
                    out[key] = ("error", "worker ended without a result")
            for p, (key, f, lim, buf) in list(self.run.items()):
                if time.time() > lim or left() < 10:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    f.close()
                    del self.run[p]
                    out[key] = ("error", "time limit")
        return out

# ------------------------------------------------------------------ proof part
def extract(src, out):
    rc, o = sh([CXX] + IRF + INC + [src, "-o", out + ".ll"])
    if rc:
        return ("error", o[-1500:])
    rc, o = sh(["opt-18", "-S", "-passes=mem2reg", out + ".ll", "-o", out])
    if rc:
        return ("error", o[-1500:])
    return ("ok", out)

def harnesses(prog):
    return sorted(n for n in prog.index if re.match(r"c\d\d_", n) and "__" not in n and prog.func(n) is not None)

def one(prog, name, seconds, mode, keep):
    E = symex.Engine(prog)
    E.contracts = contracts.for_harness(name)
    E.rounds = contracts.rounds(name)
    kept = []
    if keep:
        E.keep_smt = lambda label, s: kept.append((label, s.to_smt2()))
    err = None
    nret = 0
    t = time.time()
    try:
        _, _, nret = E.verify(name, seconds, mode)
    except symex.Undecided as e:
        err = str(e)
    except RecursionError:
        err = "recursion limit"
    except Exception as e:
        err = "engine: " + repr(e)
    return ("ok", dict(checks=[(c.label, c.status, c.model, c.where) for c in E.checks], covers=dict(E.covers), nret=nret, err=err,
                inlined=sorted(E.inlined), used_contracts=sorted(map(str, E.used_contracts)), used_models=sorted(map(str, E.used_models)), stubs=sorted(E.used_stubs),
                stats=dict(E.stats), inv=[(str(l[0]), str(l[1]), [str(x) for x in l[2]]) for l in E.inv_log],
                truncated=E.truncated, loops=len(E.inv_log) > 0 or E.truncated, s=time.time() - t, kept=kept))

def cross(kept, limit):
    """re-check discharged queries with cvc5 and the newer z3"""
    res = {"cvc5": [0, 0], "z3-new": [0, 0]}
    with tempfile.TemporaryDirectory() as d:
        for i, (label, smt) in enumerate(kept):
            if limit - time.time() < 0:
                break
            f = f"{d}/{i}.smt2"
            open(f, "w").write("(set-logic ALL)\n" + smt)
            for nm, cmd in (("cvc5", ["cvc5", "--tlimit=10000", f]), ("z3-new", ["z3-new", "-T:10", f])):
                rc, o = sh(cmd, 30)
                res[nm][0] += 1
                first = o.strip().splitlines()[:1]
                if first == ["unsat"]:
                    res[nm][1] += 1
                elif first == ["sat"]:
                    res.setdefault("disagree", []).append((nm, label))
    return ("ok", res)

# ------------------------------------------------------------------ native part
def fuzz_driver(prog, vcname, path):
    tab = []
    decl = []
    for n in harnesses(prog):
        f = prog.func(n)
        if all(t.k == "i" for (t, _, _) in f.args) and len(f.args) <= 8:
            bits = [max(8, t.a) if t.a != 1 else 1 for (t, _, _) in f.args]
            cty = {1: "bool", 8: "uint8_t", 16: "uint16_t", 32: "uint32_t", 64: "uint64_t"}
            call = ", ".join(f"(FUZZ_ARG({n},{i}))a[{i}]" for i in range(len(bits)))
            decl.append(f"static void call_{n}(uint64_t *a) {{ call(&{n}, a); }}")
            tab.append(f'{{"{n}", {len(bits)}, {{{", ".join(map(str, bits))}}}, call_{n}}}')
    if not tab:
        return False
    open(path, "w").write('#include "vcfuzz.h"\n#include "%s"\n#include <utility>\n'
        'template <class... A, size_t... I> static void call_(void (*f)(A...), uint64_t *a, std::index_sequence<I...>) { f((A)a[I]...); }\n'
        'template <class... A> static void call(void (*f)(A...), uint64_t *a) { call_(f, a, std::index_sequence_for<A...>()); }\n'
        '%s\nint main(int c, char **v) { return fuzz_main(c, v, {%s}); }\n' % (V + "/vc/" + vcname + ".cc", "\n".join(decl), ",\n".join(tab)))
    return True

def run_native(exe, seed, secs, outfile):
    try:
        r = subprocess.run([exe, str(seed), str(secs), outfile], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 100,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=1"))
        rc, so, se = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return ("ok", dict(rc=124))
    st = {}
    if rc == 0:
        try:
            st = json.loads(so.strip().splitlines()[-1])
        except Exception:
            pass
    txt = ""
    if rc == 1 and os.path.exists(outfile):
        txt = open(outfile, errors="replace").read()
        if "ERROR: AddressSanitizer" in se:
            txt += "\n--- AddressSanitizer ---\n" + se[:4000]
    return ("ok", dict(rc=rc, stats=st, text=txt))

# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    P = props.P[pid]
    d = tempfile.mkdtemp(prefix="vp-" + pid + "-")
    try:
        return decide(pid, P, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def decide(pid, P, d):
    notes = []
    pool = Pool(NP)
    # --- compile: IR of the contracts and of the /repo units they call; native stand-ins
    irs = [(V + "/vc/" + v + ".cc", f"{d}/vc_{v}.ll.m") for v in P["vc"]] + [(t, f"{d}/tu_{os.path.basename(t)}.ll.m") for t in P["tus"]]
    for s, o in irs:
        pool.add(("ir", s), lambda s=s, o=o: extract(s, o), 300)
    objs = []
    if P["native"]:
        need = set()
        for n in P["native"]:
            need |= set(n[3] if len(n) > 3 else props.CORE)
        for s in sorted(need):
            o = f"{d}/{os.path.basename(s)}.o"
            objs.append((s, o))
            pool.add(("obj", s), lambda s=s, o=o: ("ok" if not sh(["g++"] + NATF + INC + ["-c", s, "-o", o])[0] else "error", s), 300)
        for i, n in enumerate(P["native"]):
            pool.add(("main", i), lambda n=n, i=i: (lambda r: ("ok" if not r[0] else "error", r[1][-1500:]))(
                sh(["g++"] + NATF + INC + n[1].split() + ["-c", f"{V}/native/{n[0]}.cc", "-o", f"{d}/main{i}.o"])), 300)
    built = pool.wait()
    irok = [o for s, o in irs if built[("ir", s)][0] == "ok"]
    for s, o in irs:
        if built[("ir", s)][0] != "ok":
            notes.append("extraction failed for " + s + ": " + built[("ir", s)][1][-600:])
    natives = []
    for i, n in enumerate(P["native"]):
        srcs = n[3] if len(n) > 3 else props.CORE
        if built[("main", i)][0] != "ok":
            notes.append(f"stand-in {n[0]} does not compile against this tree: " + built[("main", i)][1][-600:])
            continue
        exe = f"{d}/nat{i}"
        rc, o = sh(["g++"] + NATF + [f"{d}/main{i}.o"] + [f"{d}/{os.path.basename(s)}.o" for s in srcs if built[("obj", s)][0] == "ok"] + ["-o", exe])
        if rc:
            notes.append(f"stand-in {n[0]} does not link against this tree: " + o[-600:])
            continue
        natives.append((n[0], exe, n[2]))
    prog = None
    hs = []
    if P["vc"] and all(built[("ir", V + "/vc/" + v + ".cc")][0] == "ok" for v in P["vc"]):
        try:
            sys.setrecursionlimit(20000)
            prog = ir.Program(irok)
            hs = harnesses(prog)
        except Exception as e:
            notes.append("IR not understood: " + repr(e))
            prog = None
    if prog is not None and P.get("fuzz"):
        for v in P["vc"]:
            if fuzz_driver(prog, v, f"{d}/fuzz_{v}.cc"):
                rc, o = sh(["g++"] + NATF + INC + [f"{d}/fuzz_{v}.cc", "-o", f"{d}/fuzz_{v}"])
                if rc:
                    notes.append("contract fuzzer does not compile: " + o[-600:])
                else:
                    natives.append(("vcfuzz:" + v, f"{d}/fuzz_{v}", "the contracts executed natively on random and boundary arguments"))
    # --- run: obligations and stand-ins
    secs = P.get("secs", 15) if QUICK else P.get("thorough_secs", 300)
    pool = Pool(NP)
    nseeds = P.get("seeds", NP)
    for k in range(nseeds):
        for (nm, exe, desc) in natives:
            pool.add(("nat", nm, k), lambda exe=exe, k=k, nm=nm: run_native(exe, SEED * 1000 + k, secs, f"{d}/fail-{nm.replace(':','-')}-{k}.txt"), secs + 120)
    res = pool.wait()
    limit = P.get("limit", 200) if QUICK else 1500
    if any(r[0] == "ok" and r[1].get("rc") == 1 for r in res.values()):
        limit = min(limit, 90)          # a failing input is already known
    pool = Pool(NP)
    for h in sorted(hs, key=lambda h: (h not in P.get("first", []), h)):
        pool.add(("vc", h), lambda h=h: one(prog, h, limit, ("inv", 0), not QUICK), limit + 60)
    res.update(pool.wait())
    # --- triage of obligations that did not go through
    ob = dict(obligations=0, discharged=0)
    per = {}
    failed, undecided, vacuous = [], [], []
    inl, usedc, usedm, invs = set(), set(), set(), []
    solver_s = queries = 0
    retry = []
    # a callee contract that the code under contract no longer goes through (renamed, inlined, moved) says nothing
    # about the code: failures of such a contract are undecided, not violations
    sfile = V + "/engine/stubs_baseline.json"
    base_stubs = json.load(open(sfile)) if os.path.exists(sfile) else {}
    if os.environ.get("VERIF_WRITE_STUBS"):
        for h in hs:
            if res.get(("vc", h), ("",))[0] == "ok":
                base_stubs[h] = res[("vc", h)][1]["stubs"]
        json.dump({k: v for k, v in sorted(base_stubs.items()) if v}, open(sfile, "w"), indent=0)
    def bypassed(h, r): return [x for x in base_stubs.get(h, []) if x not in r["stubs"]]
    for h in hs:
        r = res.get(("vc", h), ("error", "not run"))
        if r[0] != "ok":
            undecided.append((h, "*", r[1][:300]))
            retry.append(h)
            continue
        r = r[1]
        per[h] = r
        n = len(r["checks"])
        ob["obligations"] += n
        ob["discharged"] += sum(1 for c in r["checks"] if c[1] == "discharged")
        inl |= set(r["inlined"]); usedc |= set(r["used_contracts"]); usedm |= set(r["used_models"])
        invs += [(h,) + x for x in r["inv"]]
        solver_s += r["stats"]["solver_s"]; queries += r["stats"]["queries"]
        bad = [c for c in r["checks"] if c[1] != "discharged"]
        if r["err"]:
            undecided.append((h, "*", r["err"][:300]))
        if not r["err"] and (not n or not r["covers"] or not all(r["covers"].values())):
            if not bad:
                vacuous.append((h, r["covers"]))
        gone = bypassed(h, r)
        if gone:
            undecided.append((h, "*", "callee contracts not met: " + ", ".join(gone)))
        for c in bad:
            if c[1] == "failed" and not r["loops"] and not gone:
                failed.append((h,) + tuple(c))
            else:
                undecided.append((h, c[0], str(c[2])[:300]))
        if r["err"] or not gone and any(not (c[1] == "failed" and not r["loops"]) for c in bad):
            retry.append(h)
    if retry and left() > 60 and not any(k[0] == "nat" and r[0] == "ok" and r[1].get("rc") == 1 for k, r in res.items()):
        # bounded unrolling: a failure found here needs no loop invariant, so it is a real contract failure
        pool = Pool(NP)
        for h in retry:
            for k in (1, 2, 3):
                pool.add((h, k), lambda h=h, k=k: one(prog, h, 120 if QUICK else 600, ("unroll", k), False), 160 if QUICK else 700)
        rr = pool.wait()
        for (h, k), r in sorted(rr.items()):
            if r[0] != "ok":
                continue
            if bypassed(h, r[1]):
                continue
            for c in r[1]["checks"]:
                if c[1] == "failed" and not any(f[0] == h and f[1] == c[0] for f in failed):
                    failed.append((h,) + tuple(c))
    # --- stand-ins
    nat = {}
    natfail = []
    def collect(res):
        for key, r in sorted(res.items(), key=repr):
            if key[0] != "nat":
                continue
            nm = key[1]
            s = nat.setdefault(nm, dict(cases=0, nontrivial=0, samples=[], runs=0, timeouts=0))
            if r[0] != "ok":
                s["timeouts"] += 1
                continue
            r = r[1]
            s["runs"] += 1
            if r["rc"] == 1 and r.get("text", "").startswith("FAILED"):
                natfail.append((nm, key[2], r["text"]))
            elif r["rc"] == 0:
                for k, v in r["stats"].items():
                    if isinstance(v, int):
                        s[k] = s.get(k, 0) + v
                if len(s["samples"]) < 2 and r["stats"].get("sample"):
                    s["samples"].append(r["stats"]["sample"])
            else:
                s["timeouts"] += 1
    collect(res)
    if failed and not natfail and natives and left() > 150:
        pool = Pool(NP)
        for k in range(NP):
            for (nm, exe, desc) in natives:
                t = min(60 if QUICK else 600, left() / (2 * len(natives)) - 30)
                if t > 5:
                    pool.add(("nat", nm, 1000 + k), lambda exe=exe, k=k, nm=nm, t=t: run_native(exe, SEED * 1000 + 500 + k, t, f"{d}/fail2-{nm.replace(':','-')}-{k}.txt"), t + 120)
        collect(pool.wait())
    # --- solver cross-check (thorough)
    crossres = None
    if not QUICK and per:
        pool = Pool(NP)
        for h, r in per.items():
            pool.add(h, lambda r=r: cross(r["kept"], time.time() + 1200), 1500)
        crossres = {"cvc5": [0, 0], "z3-new": [0, 0], "disagree": []}
        for h, r in pool.wait().items():
            if r[0] == "ok":
                for k in ("cvc5", "z3-new"):
                    crossres[k][0] += r[1][k][0]; crossres[k][1] += r[1][k][1]
                crossres["disagree"] += r[1].get("disagree", [])
        if crossres["disagree"]:
            notes.append("solver disagreement: " + repr(crossres["disagree"])[:1000])
    # --- verdict
    edir = V + "/evidence"
    os.makedirs(edir, exist_ok=True)
    for f in glob.glob(f"{edir}/{pid}-replay*"):
        os.remove(f)
    lines = []
    if natfail:
        nm, k, text = natfail[0]
        rp = f"{edir}/{pid}-replay.txt"
        with open(rp, "w") as f:
            f.write(f"property {pid}\nfound by the stand-in {nm} (seed index {k}) executing the code of {REPO}\n\n{text}\n")
            for x in failed[:10]:
                f.write(f"\nfailed obligation: contract {x[0]}: {x[1]} (in {x[4]})\n")
        lines.append(f"VIOLATION property={pid} replay={rp}")
    elif failed:
        rp = f"{edir}/{pid}-replay.txt"
        with open(rp, "w") as f:
            f.write(f"property {pid}\n")
            for x in failed[:20]:
                f.write(f"\nfailed obligation: contract {x[0]}: {x[1]} (in {x[4]})\nz3: sat; counterexample state:\n{x[3]}\n")
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    lvl = P.get("level", "proof" if P["vc"] else "other")
    cov = {}
    proved = [h for h in per if not per[h]["err"] and per[h]["checks"] and all(c[1] == "discharged" for c in per[h]["checks"])]
    bounded = {nm: {k: v for k, v in s.items()} for nm, s in nat.items()}
    if P["vc"]:
        cov.update(obligations=ob["obligations"], discharged=ob["discharged"], checker_cmd=f"python3-vt {V}/check.py {pid}",
                   trusted_base=["z3 %s (python API), deciding the bit-vector and array verification conditions" % z3.get_version_string(), "/verif/engine (ir.py, symex.py): verification-condition generator", "clang 18 front end and mem2reg"],
                   contracts_proved=sorted(proved), contracts_total=len(hs),
                   functions_under_contract_or_inlined=sorted(inl)[:400], callee_contracts_assumed_at_call_sites=sorted(usedc),
                   library_models_trusted=sorted(usedm), loop_invariants=len(invs), vacuity_covers={h: r["covers"] for h, r in per.items()},
                   solver_queries=queries, solver_s=round(solver_s, 2), undecided=[list(map(str, u)) for u in undecided], vacuous=[list(map(str, u)) for u in vacuous])
        if crossres:
            cov["cross_check"] = {k: f"{crossres[k][1]}/{crossres[k][0]} confirmed unsat within 10 s" for k in ("cvc5", "z3-new")}
    cov["bounded_stand_ins"] = bounded
    cov["evaluations"] = sum(s.get("cases", 0) for s in nat.values())
    cov["distinct_nontrivial"] = sum(s.get("nontrivial", 0) for s in nat.values())
    cov["rule"] = "; ".join(f"{nm}: {desc}" for (nm, e, desc) in natives)
    cov["samples"] = [x for s in nat.values() for x in s["samples"]][:4]
    if lvl == "other":
        cov["explanation"] = P.get("explain", "bounded stand-in only")
    ev = dict(property=pid, tier=TIER, seed=SEED, level=lvl, coverage=cov, assumptions=props.COMMON + P.get("assume", []) + ["note: " + n for n in notes],
              wall_s=round(time.time() - T0, 2), violations=len(lines))
    json.dump(ev, open(f"{edir}/{pid}.json", "w"), indent=1)
    known = V + "/known_findings.txt"
    if os.path.exists(known):
        for l in open(known):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                print(f"KNOWN-FINDING: property={pid} {m.group(2)}")
    print(f"{pid}: {len(proved)}/{len(hs)} contracts proved, {ob['discharged']}/{ob['obligations']} obligations discharged, {cov['evaluations']} stand-in cases, {ev['wall_s']} s")
    for u in undecided: print("  undecided:", *[str(x)[:200] for x in u])
    for u in vacuous: print("  vacuous:", *u)
    for n in notes: print("  note:", n[:400])
    for f in failed[:10]: print("  failed obligation:", f[0], f[1])
    if natfail: print("  failing input:", natfail[0][2].splitlines()[0])
    for l in lines: print(l)
    return 1 if lines else 0

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(rc)
