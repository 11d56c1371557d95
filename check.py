#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property: compiles every library source of /repo's working tree and
the property's contracts to LLVM IR, links them, and lets the deductive engine
(engine/irv: symbolic execution of the real code, verification conditions
discharged by z3) discharge every obligation of every contract.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
LLVM = "/usr/lib/llvm-18/bin"
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "clang++-18"
IRFLAGS = ["-std=c++17", "-Wno-everything", "-O1", "-Xclang", "-disable-llvm-passes",
           "-gline-tables-only", "-include", f"{V}/models/prelude.h", "-DXML_STATIC",
           f"-I{REPO}/include", f"-I{REPO}/mdflib/src", f"-I{V}/contracts"]
NATFLAGS = ["-std=c++17", "-Wno-everything", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
            "-D_GLIBCXX_ASSERTIONS", "-DXML_STATIC", f"-I{REPO}/include", f"-I{REPO}/mdflib/src",
            f"-I{V}/contracts"]
JOBS = os.cpu_count() or 4
T0 = time.time()


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode("utf8", "replace") + "\n[timeout]"


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str) and os.path.isfile(p):
            h.update(open(p, "rb").read())
        else:
            h.update(repr(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def sources():
    return sorted(glob.glob(f"{REPO}/mdflib/src/*.cpp"))


def headers():
    return sorted(glob.glob(f"{REPO}/include/**/*.h", recursive=True) + glob.glob(f"{REPO}/mdflib/src/*.h"))


def file_entries(f):
    return sorted(re.findall(r"^VP_CONTRACT\((\w+)\)", open(f"{V}/contracts/{f}.cpp").read(), re.M))


def build_engine(pool):
    srcs = [f"{V}/engine/{n}.cpp" for n in ("expr", "ir", "solver", "exec")]
    hs = sorted(glob.glob(f"{V}/engine/*.h"))
    key = digest("engine", *srcs, *hs)
    out = f"{BUILD}/irv-{key}"
    if os.path.exists(out):
        return lambda: out
    objs = [f"{BUILD}/{os.path.basename(s)}-{key}.o" for s in srcs]
    futs = [pool.submit(sh, [CXX, "-std=c++17", "-O2", f"-I{Z3}/include", "-c", s, "-o", o]) for s, o in zip(srcs, objs)]

    def fin():
        for f in futs:
            rc, o = f.result()
            if rc:
                raise SystemExit("engine build failed\n" + o)
        rc, o = sh([CXX, *objs, "-o", out + ".tmp", f"-L{Z3}/lib", f"-Wl,-rpath,{Z3}/lib", "-lz3", "-lpthread"])
        if rc:
            raise SystemExit("engine link failed\n" + o)
        os.rename(out + ".tmp", out)
        return out
    return fin


def compile_bc(src, hkey, extra=()):
    key = digest("bc", src, os.path.relpath(src, "/"), hkey, *extra, *IRFLAGS)
    out = f"{BUILD}/{os.path.basename(src)}-{key}.bc"
    if os.path.exists(out):
        return out, ""
    rc, o = sh([CXX, *IRFLAGS, *extra, "-c", "-emit-llvm", src, "-o", out + ".tmp"])
    if rc:
        return None, o
    os.rename(out + ".tmp", out)
    return out, ""


def link_contract(name, bcs, contract_bc, model_bc, entries):
    key = digest("ll", contract_bc, model_bc, *bcs, *entries)
    out = f"{BUILD}/{name}-{key}.ll"
    if os.path.exists(out):
        return out, ""
    api = f"{BUILD}/{name}-{key}.api"
    with open(api, "w") as f:
        f.write("".join(f"vp_contract_{e}\n" for e in entries) + "vp_exc_vtable\n")
    rc, o = sh([f"{LLVM}/llvm-link", contract_bc, model_bc, *bcs, "-o", out + ".bc"])
    if rc:
        return None, o
    rc, o = sh([f"{LLVM}/opt", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg),globaldce",
                f"-internalize-public-api-file={api}", out + ".bc", "-S", "-o", out + ".tmp"])
    if os.path.exists(out + ".bc"):
        os.remove(out + ".bc")
    if rc:
        return None, o
    os.rename(out + ".tmp", out)
    return out, ""


# ------------------------------------------------------------------ native
class Native:
    """ASan build of the library + the contracts as executable specifications."""

    def __init__(self, pool):
        self.pool, self.lib, self.err = pool, None, ""
        self.bins = {}

    def library(self):
        if self.lib or self.err:
            return self.lib
        hkey = digest(*headers())
        objs, futs = [], []
        for s in sources():
            key = digest("nat", s, hkey, *NATFLAGS)
            o = f"{BUILD}/{os.path.basename(s)}-{key}.o"
            objs.append(o)
            if not os.path.exists(o):
                futs.append((o, self.pool.submit(sh, [CXX, *NATFLAGS, "-c", s, "-o", o + ".tmp"])))
        for o, f in futs:
            rc, out = f.result()
            if rc:
                self.err = out
                return None
            os.rename(o + ".tmp", o)
        lib = f"{BUILD}/libnat-{digest(*objs)}.a"
        if not os.path.exists(lib):
            rc, out = sh([f"{LLVM}/llvm-ar", "rcs", lib + ".tmp", *objs])
            if rc:
                self.err = out
                return None
            os.rename(lib + ".tmp", lib)
        self.lib = lib
        return lib

    def binary(self, cfile, entries):
        if cfile in self.bins:
            return self.bins[cfile]
        lib = self.library()
        if not lib:
            return None
        d = f"{BUILD}/nat_{cfile}"
        os.makedirs(d, exist_ok=True)
        with open(f"{d}/vp_entries.inc", "w") as f:
            f.write("".join(f"X({e})\n" for e in entries))
        out = f"{d}/{cfile}"
        rc, o = sh([CXX, *NATFLAGS, "-DVP_NATIVE", "-fno-access-control", f"-I{d}", f"{V}/contracts/{cfile}.cpp",
                    f"{V}/contracts/vp_native.cpp", lib, "-lz", "-lexpat", "-lpthread", "-o", out])
        if rc:
            self.err = o
            out = None
        self.bins[cfile] = out
        return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = args[0]
    only = args[1:]  # optional: restrict to named entries (development)
    reg = json.load(open(f"{V}/contracts/registry.json"))
    spec = reg["properties"][prop]
    known = [json.loads(l) for l in open(f"{V}/known-findings.jsonl") if l.strip() and not l.startswith("#")] \
        if os.path.exists(f"{V}/known-findings.jsonl") else []
    known = [k for k in known if k.get("property") == prop and k.get("status") == "known"]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    deadline_engine = T0 + (reg.get("engine_budget_s", 430) if tier == "quick" else 3000)
    pool = cf.ThreadPoolExecutor(JOBS)

    contracts = [c for c in spec["contracts"] if not only or c["entry"] in only]
    # ---------------- build
    fin_engine = build_engine(pool)
    hkey = digest(*headers(), f"{V}/models/prelude.h")
    ckey = digest(hkey, *sorted(glob.glob(f"{V}/contracts/*.h")))
    files = sorted({c["file"] for c in contracts})
    fc = {f: pool.submit(compile_bc, f"{V}/contracts/{f}.cpp", ckey, ("-fno-access-control",)) for f in files}
    fm = pool.submit(compile_bc, f"{V}/models/models.cpp", hkey, ("-fno-access-control", "-DVP_MODELS"))
    fs = [(s, pool.submit(compile_bc, s, hkey)) for s in sources()]
    bcs, build_err = [], []
    for s, f in fs:
        b, o = f.result()
        if b is None:
            build_err.append(f"{s}: {o[:2000]}")
        else:
            bcs.append(b)
    mb, mo = fm.result()
    irv = fin_engine()
    if mb is None:
        raise SystemExit("model compile failed\n" + mo)
    links, inconclusive = {}, []
    byfile = {f: file_entries(f) for f in files}
    lf = {}
    for f in files:
        cb, co = fc[f].result()
        if cb is None or build_err:
            inconclusive.append(("build", f, (co + "\n".join(build_err))[:3000]))
            continue
        lf[f] = pool.submit(link_contract, f, bcs, cb, mb, byfile[f])
    for f, fu in lf.items():
        ll, o = fu.result()
        if ll is None:
            inconclusive.append(("link", f, o[:3000]))
        else:
            links[f] = ll
    t_build = time.time() - T0

    # ---------------- verify
    jobs = []
    for c in contracts:
        if c["file"] not in links:
            continue
        shards = [[]]
        for dim, cnt in c.get("shards", []):
            shards = [a + [f"{dim}={i}"] for a in shards for i in range(cnt)]
        for fx in shards:
            jobs.append((c, fx))
    jobs.sort(key=lambda j: -j[0].get("cost", 1))

    gate, used = threading.Condition(), [0]          # memory of the heavy contracts, GB

    def run(job):
        need = job[0].get("mem", 1)
        with gate:
            gate.wait_for(lambda: used[0] + need <= 27 or used[0] == 0)
            used[0] += need
        try:
            return run1(job)
        finally:
            with gate:
                used[0] -= need
                gate.notify_all()

    def run1(job):
        c, fx = job
        tag = c["entry"] + "".join("." + x.replace("=", "") for x in fx)
        out = f"{BUILD}/{prop}.{tag}.json"
        if os.path.exists(out):
            os.remove(out)
        left = deadline_engine - time.time()
        lim = min(left, c.get("time", 240) if tier == "quick" else 2400)
        t = time.time()
        if lim < 5:
            return job, None, "no time left", 0.0
        cmd = [irv, links[c["file"]], "--entry", "vp_contract_" + c["entry"], "--out", out, "--time", str(int(lim)),
               "--query-ms", str(c.get("query_ms", 30000) if tier == "quick" else 300000)]
        for x in fx:
            cmd += ["--fix", x]
        if tier == "thorough":
            cmd += ["--cross", "cvc5"]
        cmd += c.get("args", [])
        rc, o = sh(["bash", "-c", "ulimit -v 14000000; exec \"$@\"", "x"] + cmd, timeout=lim + 40)
        try:
            r = json.load(open(out))
        except Exception:
            return job, None, f"rc={rc} {o[-1500:]}", time.time() - t
        return job, r, o[-1500:], time.time() - t

    results = list(cf.ThreadPoolExecutor(JOBS).map(run, jobs))
    native = Native(pool)
    violations, findings, notes = [], [], []
    tot = dict(vcs=0, obligations=0, discharged=0, trivial=0, paths=0, merged=0, queries=0, solver_s=0.0)
    funcs, assumptions, stubs, externals = set(), set(spec.get("assumptions", [])), set(), set()
    reached, per_contract, oblig_labels = {}, {}, {}
    bounded = bool(spec.get("bounded"))
    cands, need_native = [], []
    for (c, fx), r, o, dt in results:
        tag = c["entry"] + ("[" + ",".join(fx) + "]" if fx else "")
        if r is None:
            inconclusive.append(("engine", tag, o))
            need_native.append((c, fx, "engine gave no result"))
            continue
        n = len(r["obligations"])
        d = sum(1 for x in r["obligations"].values() if x["proved"] == x["n"] and not x["failed"] and not x["unknown"])
        tot["obligations"] += n
        tot["discharged"] += d
        tot["vcs"] += sum(x["n"] for x in r["obligations"].values())
        tot["trivial"] += sum(x["trivial"] for x in r["obligations"].values())
        tot["paths"] += r["paths"]
        tot["merged"] += r.get("merged", 0)
        tot["queries"] += r.get("queries", 0)
        tot["solver_s"] += r.get("solver_s", 0)
        for l, x in r["obligations"].items():
            y = oblig_labels.setdefault(f"{c['entry']}/{l}", [0, 0])
            y[0] += x["n"]
            y[1] += x["proved"]
        funcs |= set(r["functions"])
        assumptions |= set(r["assumptions"])
        stubs |= set(r["stubs"])
        externals |= set(r["externals"])
        reached.setdefault(c["entry"], set()).update(r["reached"])
        per_contract[tag] = dict(status=r["status"], obligations=n, discharged=d, paths=r["paths"], wall_s=round(dt, 2))
        for f in r["failures"]:
            cands.append((c, fx, f))
        if r["status"] == "inconclusive":
            inconclusive.append(("undischarged", tag, "; ".join(r["incomplete"])[:800]))
            need_native.append((c, fx, "; ".join(r["incomplete"])[:300]))

    # ---------------- failed obligations -> replay on the real code
    def write_replay(c, f, extra):
        p = f"{V}/evidence/replay/{prop}.{c['entry']}.{digest(f['label'], f.get('where', ''))[:8]}.txt"
        with open(p, "w") as h:
            h.write(f"# property {prop} contract {c['entry']}\n# failed obligation: {f['label']} ({f['kind']}) at {f.get('where','')}\n")
            h.write("# replay: " + f"python3 {V}/check.py --replay {prop} {c['entry']} {p}\n")
            for l in str(f.get("trace", "")).split("\n"):
                h.write("# trace: " + l + "\n")
            for l in extra.split("\n"):
                h.write("# " + l + "\n")
            for nm, w, hx in f.get("nondet", []):
                h.write(f"{nm} {w} {hx}\n")
        return p

    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=1:symbolize=0:max_allocation_size_mb=4096:allocator_may_return_null=0")

    def is_known(c, label):
        for k in known:
            if k["contract"] == c["entry"] and k["obligation"] == label:
                return k
        return None

    seen = {}
    for c, fx, f in cands:
        k = is_known(c, f["label"])
        if k:
            findings.append((k["what"], c["entry"], f["label"]))
            continue
        lst = seen.setdefault((c["entry"], f["label"]), [])
        if len(lst) < 3:
            lst.append((c, fx, f))
    confirmed_props = 0
    for (entry, label), lst in seen.items():
        if confirmed_props >= 3:
            break
        done = False
        verdicts = []
        for c, fx, f in lst:
            b = native.binary(c["file"], byfile[c["file"]])
            p = write_replay(c, f, "")
            if b is None:
                verdicts.append(("nobuild", p, native.err[-500:]))
                continue
            rc, o = sh([b, c["entry"], "replay", p], timeout=60, env=env)
            if "CONTRACT-VIOLATED" in o or (rc not in (0, 3, 77, -1)):
                write_replay(c, f, "native replay reproduces the violation:\n" + o[-2500:])
                violations.append((p, "", f"{entry}: {label}"))
                confirmed_props += 1
                done = True
                break
            verdicts.append((rc, p, o[-500:]))
            if rc == -1:
                write_replay(c, f, "native replay does not terminate within 60 s")
                violations.append((p, "", f"{entry}: {label} (hang)"))
                done = True
                break
        if done:
            continue
        c, fx, f = lst[0]
        # The counterexample did not reproduce: search with the executable contract.
        hit = native_random(native, c, fx, byfile, env, seed, 60, prop)
        if hit and hit[0] == "violated":
            violations.append((hit[1], "", f"{entry}: {label} (random search)"))
            confirmed_props += 1
            continue
        refuted = all(v[0] in (0, 77) for v in verdicts) and f["kind"] == "contract"
        if refuted and hit and hit[0] == "held":
            notes.append(f"{entry}/{label}: the engine's counterexample was refuted by replay on the real code; "
                         f"executable contract held on {hit[1]} random inputs")
            bounded = True
        else:
            p = write_replay(c, f, "verifier output only; replay gave: " + repr([(v[0], v[2]) for v in verdicts])[:1500])
            violations.append((p, " no-failing-input-found", f"{entry}: {label}"))

    # ---------------- inconclusive -> bounded stand-in
    standins = {}
    todo = {}
    for c, fx, why in need_native:
        todo.setdefault(c["entry"], (c, []))[1].append(fx)
    for kind, name, why in inconclusive:
        if kind in ("build", "link"):
            for c in contracts:
                if c["file"] == name:
                    todo.setdefault(c["entry"], (c, []))[1].append([])
    build_broken = any(k in ("build", "link") for k, _, _ in inconclusive)
    if todo and not violations:
        per = max(10, min(60, 200 / max(1, len(todo))))
        for entry, (c, fxs) in todo.items():
            hit = native_random(native, c, fxs[0] if len(fxs) == 1 else [], byfile, env, seed, per, prop)
            if hit and hit[0] == "violated":
                violations.append((hit[1], "", f"{entry} (bounded stand-in)"))
            elif hit and hit[0] == "held":
                standins[entry] = hit[1]
                bounded = True
            else:
                notes.append(f"{entry}: no stand-in result: {(hit or ['',''])[1]}")
    # ---------------- vacuity
    vac = []
    if not violations and not inconclusive and not only:
        for c in contracts:
            for l in c.get("reach", []):
                if l not in reached.get(c["entry"], set()):
                    vac.append(f"{c['entry']}: {l}")
        if tot["obligations"] == 0:
            vac.append("no obligations")
    for w in sorted(set(findings)):
        print(f"KNOWN-FINDING: property={prop} {w[0]}")
    if vac:
        notes.append("vacuity: not reached: " + ", ".join(vac))
        c = contracts[0]
        p = f"{V}/evidence/replay/{prop}.vacuity.txt"
        open(p, "w").write("# a behaviour the contract must reach is not reachable any more\n" + "\n".join(vac) + "\n")
        violations.append((p, " no-failing-input-found", "vacuity " + ", ".join(vac)))

    mine = sorted(f for f in funcs if "3mdf" in f)
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "other" if (bounded or inconclusive) else "proof",
        "coverage": {
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "checker_cmd": f"{os.path.basename(irv)} <linked IR of {len(bcs)} /repo sources + contract> --entry vp_contract_* (z3 {'+ cvc5 cross-check' if tier=='thorough' else ''})",
            "trusted_base": ["clang 18 front end and opt(sroa,early-cse,simplifycfg)", "engine/irv", "z3", "models/models.cpp (C++ run time)"],
            "explanation": "contract-based verification of the compiled source; obligations are the contract clauses plus memory safety, division, exception and abort freedom of every executed instruction"
                           + ("; some contracts bounded or degraded, see bounded/standins" if bounded or inconclusive else ""),
            "vc_instances": tot["vcs"], "paths": tot["paths"], "merged_states": tot["merged"], "solver_queries": tot["queries"],
            "solver_s": round(tot["solver_s"], 2), "discharged_by_constant_folding": tot["trivial"],
            "functions_under_contract": mine, "functions_executed": len(funcs),
            "contracts": per_contract,
            "contract_obligations": {k: v for k, v in sorted(oblig_labels.items()) if not k.split("/", 1)[1].startswith("mem")},
            "reached": {k: sorted(v) for k, v in reached.items()},
            "bounded_standins": standins, "undischarged": [list(x) for x in inconclusive],
            "bounds": spec.get("bounds", []), "notes": notes, "build_s": round(t_build, 1),
        },
        "assumptions": sorted(assumptions | {"stub: " + s for s in stubs} | {"external: " + s for s in externals}),
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for p, suffix, what in violations:
        print(f"failed obligation: {what}")
        print(f"VIOLATION property={prop} replay={p}{suffix}")
    for n in notes:
        print("note: " + n)
    for k, n, w in inconclusive:
        print(f"undischarged: {k} {n}: {w[:300]}")
    print(f"{prop} [{tier}]: {tot['discharged']}/{tot['obligations']} obligations discharged ({tot['vcs']} VC instances), {tot['paths']} paths, "
          f"{len(mine)} library functions under contract, solver {tot['solver_s']:.1f}s, wall {time.time()-T0:.1f}s"
          + (" BOUNDED" if bounded else ""))
    if only:
        for k, v in per_contract.items():
            print("  ", k, v)
    sys.stdout.flush()
    if not violations and tot["obligations"] == 0 and not standins:
        os._exit(2)  # nothing could be checked: no answer
    os._exit(1 if violations else 0)


def native_random(native, c, fx, byfile, env, seed, secs, prop):
    b = native.binary(c["file"], byfile.get(c["file"]) or [c["entry"]])
    if b is None:
        return ("nobuild", native.err[-300:])
    log = f"{V}/evidence/replay/{prop}.{c['entry']}.random"
    procs = []
    for i in range(JOBS):
        e = dict(env, VP_LOG=f"{log}.{i}.txt")
        if os.path.exists(f"{log}.{i}.txt"):
            os.remove(f"{log}.{i}.txt")
        procs.append(subprocess.Popen([b, c["entry"], "random", str(seed * 1000 + i), "100000000", str(secs), *fx],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e))
    ok, res = 0, None
    t_end = time.time() + secs + 60
    for i, p in enumerate(procs):
        try:
            o = p.communicate(timeout=max(1, t_end - time.time()))[0].decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            p.kill()
            o = ""
        m = re.search(r"RANDOM ok=(\d+)", o)
        if m:
            ok += int(m.group(1))
        elif "CONTRACT-VIOLATED" in o and not res:
            rp = f"{log}.{i}.txt"
            body = open(rp).read() if os.path.exists(rp) else ""
            with open(rp, "w") as h:
                h.write(f"# property {prop} contract {c['entry']}: random executable-contract run fails\n")
                h.write("".join("# " + l + "\n" for l in o[-2500:].split("\n")) + body)
            res = ("violated", rp)
    return res or (("held", ok) if ok else ("none", "no run completed"))


def dev():
    """check.py --dev FILE ENTRY [name=value ...] [-- irv args]: one contract, verbose (development)."""
    a = sys.argv[2:]
    extra = a[a.index("--") + 1:] if "--" in a else []
    a = a[:a.index("--")] if "--" in a else a
    f, entry, fx = a[0], a[1], a[2:]
    os.makedirs(BUILD, exist_ok=True)
    pool = cf.ThreadPoolExecutor(JOBS)
    fin = build_engine(pool)
    hkey = digest(*headers(), f"{V}/models/prelude.h")
    ckey = digest(hkey, *sorted(glob.glob(f"{V}/contracts/*.h")))
    res = list(pool.map(lambda x: compile_bc(*x), [(f"{V}/contracts/{f}.cpp", ckey, ("-fno-access-control",)),
               (f"{V}/models/models.cpp", hkey, ("-fno-access-control", "-DVP_MODELS"))] + [(s, hkey) for s in sources()]))
    for b, o in res:
        if b is None:
            sys.exit(o[:6000])
    ll, o = link_contract(f, [b for b, _ in res[2:]], res[0][0], res[1][0], file_entries(f))
    if ll is None:
        sys.exit(o)
    out = f"{BUILD}/dev.{entry}.{os.getpid()}.json"
    cmd = [fin(), ll, "--entry", "vp_contract_" + entry, "--out", out] + extra
    for x in fx:
        cmd += ["--fix", x]
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VP_DEBUG="1"))
    print("\n".join(l[:300] for l in p.stdout.decode("utf8", "replace").split("\n")[:60]))
    r = json.load(open(out))
    os.remove(out)
    for k, v in r["obligations"].items():
        if v["kind"] not in ("memory", "arith") or v["failed"] or v["unknown"]:
            print(k, v)
    print({k: r[k] for k in ("status", "paths", "merged", "queries", "solver_s", "reached", "incomplete", "assumptions", "externals", "stubs") if k in r}, "wall", round(time.time() - t, 1))


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--dev":
        dev()
        sys.exit(0)
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        p = cf.ThreadPoolExecutor(JOBS)
        print(build_engine(p)())
        sys.exit(0)
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        prop, entry, path = sys.argv[2:5]
        os.makedirs(BUILD, exist_ok=True)
        reg = json.load(open(f"{V}/contracts/registry.json"))
        c = [x for x in reg["properties"][prop]["contracts"] if x["entry"] == entry][0]
        nat = Native(cf.ThreadPoolExecutor(JOBS))
        b = nat.binary(c["file"], file_entries(c["file"]))
        if not b:
            sys.exit(nat.err)
        os.execv(b, [b, entry, "replay", path])
    main()
