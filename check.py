#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -  decide one property of /repo's current tree.

Compiles /repo's sources (as they are now) and the property's harnesses to LLVM IR, lets
engine/vpsym execute them symbolically and discharge every assertion with an SMT solver,
replays counterexamples (and one witness per harness) against a native build of the same
sources, and writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: nothing decided.
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import specs
from sources import CORE, REPO
LLVM = "/usr/lib/llvm-18/bin/"
T0 = time.time()
LOCK = threading.Lock()
CASES = threading.Semaphore(8)
MEM = 12 << 30          # address space of one symbolic execution

def sh(cmd, timeout=600, env=None, cwd=None, mem=None):
    """run a command in its own process group; returns (rc, output); rc None = timed out"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True,
                         preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return None, ""

class BuildError(Exception): pass

class Builder:
    """IR and native objects of one check, made from the current sources; each made once"""
    def __init__(self, scratch):
        self.s = scratch; self.done = {}; self.mu = threading.Lock()
    def once(self, key, fn):
        with self.mu:
            if key not in self.done: self.done[key] = cf.Future(); mine = True
            else: mine = False
            f = self.done[key]
        if mine:
            try: f.set_result(fn())
            except BaseException as e: f.set_exception(e)
        return f.result()
    def run(self, cmd):
        rc, out = sh(cmd, 400)
        if rc != 0: raise BuildError(" ".join(cmd) + "\n" + out[-3000:])
    def irflags(self, spec):
        f = ["-O1", "-Xclang", "-disable-llvm-passes", "-std=c++17", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
             "-ffp-contract=off", "-emit-llvm", "-w", "-g1", "-I" + REPO + "/include", "-I" + V + "/harness", "-c"]
        if spec.get("omp"): f += ["-fopenmp", "-I" + V + "/models/omp"]
        return f + spec.get("cflags", [])
    def ir(self, src, spec):
        key = ("ir", src, bool(spec.get("omp")), tuple(spec.get("cflags", [])))
        def go():
            o = f"{self.s}/{hashlib.md5(repr(key).encode()).hexdigest()}.bc"
            self.run([LLVM + "clang++"] + self.irflags(spec) + [src, "-o", o]); return o
        return self.once(key, go)
    def cl(self, spec, native=False):
        """the OpenCL program as lib/compile_cl.cpp assembles it, as one translation unit"""
        def go():
            o = f"{self.s}/device" + (".o" if native else ".bc")
            src = f"{self.s}/device{int(native)}.cl"
            with open(src, "w") as f:
                # the list of files is the one lib/gpu_csp.cpp gives to the compiler
                h = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(f"{REPO}/include/gpu_csp.hpp").read(), flags=re.S)
                names = re.findall(r'"([^"]*\.(?:cpp|cl))"', h[h.index("SOURCE_FILES"):])
                for n in names: f.write(f'#include "{REPO}/{n}"\n')
                f.write(f'#ifdef __OPENCL_CPP_VERSION__\nextern "C" {{\n#endif\n#include "{V}/harness/glue.cl"\n#ifdef __OPENCL_CPP_VERSION__\n}}\n#endif\n')
            def compile(lang):
                self.run([LLVM + "clang", "-x", "cl"] + lang + ["-Xclang", "-finclude-default-header", "-target", "x86_64-unknown-linux-gnu", "-O1",
                          "-ffp-contract=off", "-w", "-g1", "-I" + REPO + "/include", "-c", src, "-o", o] +
                         (["-fPIE"] if native else ["-Xclang", "-disable-llvm-passes", "-emit-llvm"]))
            try: compile(["-cl-std=CL1.2"])
            except BuildError as e:
                # a program that uses more than OpenCL C can still be compiled as C++ for OpenCL
                try: compile(["-cl-std=clc++2021", "-D__OPENCL_C_VERSION__=120"])
                except BuildError: raise e
            return o
        return self.once(("cl", native), go)
    def cuda(self, spec, native=False):
        """objects of the CUDA program: device side compiled as C++ (one per .cu file), host side as clang's CUDA"""
        def go():
            stub = ["-I" + V + "/models/cuda", "-I" + REPO + "/include", "-include", "cuda_runtime.h"]
            common = ["-std=c++17", "-O1", "-g1", "-w", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + (["-fPIE"] if native else ["-Xclang", "-disable-llvm-passes", "-emit-llvm"])
            def one(f):
                host = f == "cuda_csp.cu"
                o = f"{self.s}/{f}{int(native)}" + (".o" if native else ".bc")
                src = f"{V}/harness/{f}" if f == "glue.cu" else f"{REPO}/lib/{f}"
                self.run([LLVM + "clang++"] + (["-x", "cuda", "--cuda-host-only", "-nocudainc", "-nocudalib", "--cuda-gpu-arch=sm_60"] if host else
                         ["-x", "c++", "-D__CUDA_ARCH__=600"]) + common + stub + ["-c", src, "-o", o])
                return o
            files = sorted(f for f in os.listdir(f"{REPO}/lib") if f.endswith(".cu") and (f != "cuda_csp.cu" or spec["cuda"] == "host")) + ["glue.cu"]
            with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, files))
        return self.once(("cuda", spec["cuda"], native), go)
    def dispatch(self, spec):
        """a C++ file that runs a kernel of the device program by name, made from the kernels' signatures"""
        def go():
            ll, o = f"{self.s}/device.ll", f"{self.s}/dispatch.cpp"
            self.run([LLVM + "llvm-dis", self.cl(spec), "-o", ll])
            k = re.findall(r"^define [^@]*@(\w+)\((.*?)\)[^\n]*!kernel_arg_type", open(ll).read(), re.M)
            decl, body, ar = "", "", ""
            for name, args in k:
                t = [{"ptr": "void*", "float": "float", "i64": "unsigned long", "i32": "unsigned", "double": "double"}[a.split()[0]] for a in args.split(", ") if a]
                g = [f"(need(a[{i}].kind == {dict(float=2, double=16).get(x, 1 if x == 'void*' else 8 if 'long' in x else 4)}), a[{i}].p)" if x == "void*" else
                     f"(need(a[{i}].kind == {dict(float=2, double=16).get(x, 8 if 'long' in x else 4)}), ({x})a[{i}].{'f' if x in ('float', 'double') else 'i'})" for i, x in enumerate(t)]
                decl += f'extern "C" void {name}({", ".join(t)});\n'
                body += f'    if (same(k, "{name}")) return {name}({", ".join(g)});\n'
                ar += f'    if (same(k, "{name}")) return {len(t)};\n'
            open(o, "w").write('#include "vp.h"\nstatic bool same(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }\nstruct VpArg { void* p; unsigned long i; double f; int kind; };\n' + decl +
                'static void need(bool b) { vp_check(b, "a kernel is started with an argument of another type or size"); }\n'
                'extern "C" void vp_launch(const char* k, VpArg* a, unsigned long) {\n' + body + '    vp_check(false, "a kernel that does not exist is started");\n}\n'
                'extern "C" unsigned long vp_arity(const char* k) {\n' + ar + '    return 0;\n}\n')
            return o
        return self.once("dispatch", go)
    def module(self, spec):
        """linked and normalised IR of one harness with the sources it needs"""
        def go():
            srcs = [f"{REPO}/lib/{n}.cpp" for n in spec.get("sources", CORE)]
            srcs += [f"{V}/harness/{n}" for n in [spec["harness"]] + spec.get("extra", [])]
            if spec.get("device"): srcs.append(self.dispatch(spec))
            with cf.ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(lambda s: self.ir(s, spec), srcs))
            if spec.get("device"): objs.append(self.cl(spec))
            if spec.get("cuda"): objs += self.cuda(spec)
            tag = hashlib.md5(repr(sorted(spec.items(), key=str)).encode()).hexdigest()[:10]
            a, b = f"{self.s}/l{tag}.bc", f"{self.s}/n{tag}.bc"
            cmd = [LLVM + "llvm-link"] + objs
            for m in spec.get("models", []) + ["runtime.cpp"]:
                cmd += ["--override", self.ir(f"{V}/models/{m}", dict(spec, cflags=spec.get("cflags", []) + ["-fno-access-control"]))]
            self.run(cmd + ["-o", a])
            self.run([LLVM + "opt", "-passes=internalize,globaldce,function(sroa,loop-simplify)", "--internalize-public-api-list=vp_harness", a, "-o", b])
            return b
        k = tuple(sorted((x, str(spec.get(x))) for x in ("harness", "extra", "sources", "omp", "cflags", "models", "device", "cuda")))
        return self.once(("mod", k), go)
    def native(self, spec):
        flavour = spec.get("native", "asan")
        def flags(src=""):
            f = ["g++", "-std=c++17", "-g", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-I" + REPO + "/include", "-I" + V + "/harness", "-I" + V + "/models"]
            if flavour == "asan": f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
            if flavour == "share":
                f[0] = LLVM + "clang++"; f += ["-DVP_NO_SHARE_STUBS"]
                if "/harness/vp_" not in src and src: f += ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write"]
            if spec.get("omp"): f += ["-fopenmp"]
            return f + spec.get("cflags", []) + spec.get("ncflags", [])
        def obj(src):
            key = ("no", src, tuple(flags(src)))
            def go():
                o = f"{self.s}/{hashlib.md5(repr(key).encode()).hexdigest()}.o"
                self.run(flags(src) + ["-c", src, "-o", o]); return o
            return self.once(key, go)
        def go():
            srcs = [f"{REPO}/lib/{n}.cpp" for n in spec.get("sources", CORE)]
            srcs += [f"{V}/harness/{n}" for n in [spec["harness"], spec.get("nativelib", "vp_native.cpp")] + spec.get("extra", []) + spec.get("nextra", [])]
            if spec.get("device"): srcs.append(self.dispatch(spec))
            with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(obj, srcs))
            if spec.get("device"): objs.append(self.cl(spec, True))
            if spec.get("cuda"): objs += self.cuda(spec, True)
            o = f"{self.s}/x{hashlib.md5(repr(objs).encode()).hexdigest()[:10]}"
            self.run(flags() + objs + ["-o", o] + spec.get("libs", [])); return o
        k = tuple(sorted((x, str(spec.get(x))) for x in ("harness", "extra", "sources", "omp", "cflags", "ncflags", "native", "nextra", "nativelib", "device", "cuda")))
        return self.once(("nat", k), go)

def native_run(exe, spec, vars_, params, scratch, tag, timeout=60):
    cex = f"{scratch}/{tag}.cex"; ob = f"{scratch}/{tag}.obs"
    with open(cex, "w") as f:
        for k, v in vars_.items(): f.write(f"{k} {v}\n")
    env = dict(os.environ, VP_CEX=cex, VP_OBSERVE=ob, VP_PARAMS=" ".join(f"{k}={v}" for k, v in params.items()),
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4000", UBSAN_OPTIONS="print_stacktrace=1", OMP_NUM_THREADS=str(spec.get("threads", 1)))
    rc, out = sh([exe], timeout, env)
    obs = {}
    if os.path.exists(ob):
        for l in open(ob):
            a, b = l.split(); obs[a] = b
    return rc, out, obs

def engine1(mod, c, params, lim, out, extra=[]):
    cmd = [f"{V}/engine/build/vpsym", mod, "--out", out, "--time", str(int(lim))] + extra
    for k, v in params.items(): cmd += ["-p", f"{k}={v}"]
    for k in ("unwind", "feas", "feasown", "cap", "threads", "reverse", "backend"):
        if k in c: cmd += ["--" + k, str(c[k])]
    rc, o = sh(cmd, lim + 15, mem=MEM)
    if not os.path.exists(out): return None, o
    return json.load(open(out)), ""

def engine(mod, c, params, lim, out, deadline):
    """one symbolic execution, or one for every case of a case split (the cases cover everything the bounds allow)"""
    if "cases" not in c: return engine1(mod, c, params, lim, out)
    def case(k):
        if time.time() > deadline - 3 or stop: return k, None, "out of time"
        with CASES: j, e = engine1(mod, c, dict(params, CASE=k), min(lim, max(1, deadline - 3 - time.time())), f"{out}.{k}", ["--lazy", "1"])
        if j and j["status"] == "violation": stop.append(k)
        return k, j, e
    stop = []
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(case, range(c["cases"])))
    bad = [(k, j) for k, j, e in rs if j and j["status"] == "violation"]
    if bad:
        k, j = bad[0]; params["CASE"] = k; return j, ""
    for k, j, e in rs:
        if j is None: return None, f"case {k}: {e}"
        if j["status"] != "pass": j["reason"] = f"case {k}: {j['reason']}"; params["CASE"] = k; return j, ""
    js = [j for _, j, _ in rs]
    t = dict(js[0])
    t["stats"] = {n: sum(j["stats"][n] for j in js) for n in t["stats"]}
    for n in ("reached", "markers", "cuts", "functions"): t[n] = sorted({x for j in js for x in j[n]})
    t["by_kind"] = {n: sum(j["by_kind"].get(n, 0) for j in js) for n in sorted({n for j in js for n in j["by_kind"]})}
    w = [k for k, j, _ in rs if j["witness"] and "witness" in j["reached"]] or [k for k, j, _ in rs if j["witness"]]
    if w: params["CASE"] = w[0]; t["witness"] = rs[w[0]][1]["witness"]
    miss = sorted(set(t["markers"]) - set(t["reached"]))
    if miss or not w: t["status"] = "inconclusive"; t["reason"] = f"vacuous: {miss or 'everything'} is unreachable in every case"
    return t, ""

def one(prop, B, c, scratch, idx, deadline):
    c = dict(c, params=dict(c.get("params", {})))
    r = {"config": c["name"], "harness": c["harness"], "params": dict(c["params"]), "bounds": c.get("bounds", "") + (f" {c['cases']} cases" if "cases" in c else "")}
    t = time.time()
    try:
        mod = B.module(c)
        out = f"{scratch}/r{idx}.json"
        left = deadline - time.time()
        if left < 5: r.update(status="inconclusive", reason="out of time before this configuration started"); return r
        lim = min(c.get("time", 450) if deadline - T0 < 900 else 1500, left - 3)
        j, err = engine(mod, c, c.get("params", {}), lim, out, deadline)
        if j is None: r.update(status="inconclusive", reason="the engine stopped: " + err[-300:]); return r
        r.update({k: j[k] for k in ("status", "reason", "stats", "by_kind", "reached", "cuts", "functions")})
        r["cex"] = j["cex"]
        if j["status"] == "violation":
            exe = B.native(c)
            rc, o, _ = native_run(exe, c, j["cex"]["vars"], c.get("params", {}), scratch, f"c{idx}", 60)
            r["native"] = {"rc": rc, "out": o[-1500:]}
            if rc in (0, 77):
                r["status"] = "inconclusive"
                r["reason"] = f"the solver's counterexample does not reproduce natively (exit {rc}): {j['cex']['kind']}: {j['cex']['msg']} at {j['cex']['where']}"
            else:
                d = f"{V}/evidence/replay/{prop}/{c['name']}"
                os.makedirs(d, exist_ok=True)
                with open(d + "/input", "w") as f:
                    for k, v in j["cex"]["vars"].items(): f.write(f"{k} {v}\n")
                json.dump({"property": prop, "config": c["name"], "cex": j["cex"], "params": c.get("params", {}), "native_exit": rc, "native_output": o[-3000:]}, open(d + "/cex.json", "w"), indent=1)
                with open(d + "/replay.sh", "w") as f:
                    f.write(f"#!/bin/sh\n# rebuilds the harness against {REPO} and runs it on the input beside this script\nexec python3 {V}/check.py --replay {prop} {c['name']} \"$(dirname \"$0\")/input\"\n")
                os.chmod(d + "/replay.sh", 0o755)
                r["replay"] = d + "/replay.sh"
        elif j["status"] == "pass" and j["witness"]:
            exe = B.native(c)
            rc, o, obs = native_run(exe, c, j["witness"]["vars"], c.get("params", {}), scratch, f"w{idx}", 60)
            bad = [k for k, v in j["witness"]["observe"].items() if obs.get(k) != v]
            r["witness_replayed"] = rc == 0 and not bad
            r["witness_observations"] = len(obs)
            if rc != 0 or bad:
                r["status"] = "inconclusive"
                r["reason"] = f"the native run of the witness disagrees with the encoding (exit {rc}, differing: {bad[:5]}): {o[-400:]}"
    except BuildError as e:
        r.update(status="inconclusive", reason="build: " + str(e)[-1500:])
    except Exception as e:
        r.update(status="inconclusive", reason=f"driver: {type(e).__name__}: {e}")
    finally:
        r["wall_s"] = round(time.time() - t, 2)
        with LOCK:
            print(f"[{time.time()-T0:6.1f}s] {prop} {c['name']}: {r.get('status')} ({r['wall_s']}s) {r.get('reason','')[:600]}", flush=True)
            if os.environ.get("VP_VERBOSE") and r.get("cex"): print(json.dumps(r["cex"]), r.get("native"))
    return r

def known(prop):
    out = []
    f = f"{V}/known_findings.json"
    if os.path.exists(f):
        for k in json.load(open(f))["findings"]:
            if k["property"] == prop: out.append(k)
    return out

def main():
    a = sys.argv[1:]
    replay = None
    if a and a[0] == "--replay": replay = a[1:]; a = [replay[0], "quick"]
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = a[2] if len(a) > 2 else None
    sp = specs.SPECS[prop]
    scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    try:
        B = Builder(scratch)
        configs = [c for c in sp["configs"] if tier == "thorough" or c.get("tier", "quick") == "quick"]
        if replay:
            c = [c for c in sp["configs"] if c["name"] == replay[1]][0]
            exe = B.native(c)
            vars_ = dict(l.split() for l in open(replay[2]))
            params = dict(c.get("params", {}))
            f = os.path.dirname(replay[2]) + "/cex.json"
            if os.path.exists(f): params = json.load(open(f))["params"]
            rc, o, _ = native_run(exe, c, vars_, params, scratch, "r")
            print(o); print("exit", rc); sys.exit(0 if rc == 0 else 1)
        if only: configs = [c for c in configs if re.search(only, c["name"])]
        if not os.path.exists(f"{V}/engine/build/vpsym"):
            rc, o = sh(["make", "-C", f"{V}/engine"], 900)
            if rc: print(o); sys.exit(2)
        deadline = T0 + (float(os.environ.get("VP_BUDGET", 840)) if tier == "quick" else float(os.environ.get("VP_BUDGET", 3400)))
        shutil.rmtree(f"{V}/evidence/replay/{prop}", ignore_errors=True)
        order = sorted(range(len(configs)), key=lambda i: -configs[i].get("cost", 1))
        res = [None] * len(configs)
        with cf.ThreadPoolExecutor(int(os.environ.get("VP_JOBS", 8))) as ex:
            futs = {ex.submit(one, prop, B, configs[i], scratch, i, deadline): i for i in order}
            for f in cf.as_completed(futs): res[futs[f]] = f.result()
        finish(prop, tier, sp, res)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def finish(prop, tier, sp, res):
    viol = [r for r in res if r["status"] == "violation"]
    ok = [r for r in res if r["status"] == "pass"]
    inc = [r for r in res if r["status"] == "inconclusive"]
    kf = known(prop); reported = []; lines = []
    for r in viol:
        m = [k for k in kf if k["config"] == r["config"] and re.search(k["match"], f"{r['cex']['kind']}: {r['cex']['msg']} at {r['cex']['where']}")]
        if m: lines.append(f"KNOWN-FINDING: property={prop} {m[0]['what']}"); r["known"] = m[0]["what"]
        else: reported.append(r)
    tot = lambda k: sum(r.get("stats", {}).get(k, 0) for r in res)
    fns = sorted({f for r in res for f in r.get("functions", [])})
    cuts = sorted({f for r in res for f in r.get("cuts", [])})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "bounded symbolic execution of the LLVM IR compiled from /repo's current sources; every assertion, memory access, arithmetic trap, "
                "uncaught exception and loop bound of every configuration is an obligation decided by Z3 (QF_BV) for all values within the configuration's bounds; "
                "counterexamples are reported only after they reproduce on a native sanitizer build; one solver-chosen witness per configuration is replayed natively and its observations compared with the encoding",
            "verdict": "violation" if reported else ("held" if ok else "inconclusive"),
            "functions_encoded": fns,
            "bounds": sorted({r["config"] + ": " + (r["bounds"] + " " if r["bounds"] else "") + json.dumps(r["params"]) for r in res}),
            "outside_the_claim": sp.get("outside", ""),
            "models_and_cuts": cuts + sp.get("models", []),
            "configurations_total": len(res), "configurations_held": len(ok), "configurations_inconclusive": len(inc),
            "queries_discharged": tot("queries"), "obligations": tot("obligations"), "discharged": tot("discharged"), "obligations_decided_without_search": tot("trivial"),
            "solver_seconds": round(tot("solver_s"), 2), "symbolic_variables": tot("variables"), "instructions_executed": tot("instructions"),
            "states_merged": tot("merges"), "witnesses_replayed_natively": sum(1 for r in ok if r.get("witness_replayed")),
            "configurations": [{k: v for k, v in r.items() if k not in ("functions", "cuts")} for r in res],
            "inconclusive": [r["config"] + ": " + r["reason"][:400] for r in inc],
        },
        "assumptions": specs.COMMON_ASSUMPTIONS + sp.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1), "violations": len(reported),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json.tmp", "w"), indent=1)
    os.replace(f"{V}/evidence/{prop}.json.tmp", f"{V}/evidence/{prop}.json")
    for l in sorted(set(lines)): print(l)
    for r in inc: print(f"INCONCLUSIVE property={prop} config={r['config']}: {r['reason'][:200]}")
    for r in reported:
        c = r["cex"]
        print(f"  {r['config']}: {c['kind']}: {c['msg']} at {c['where']}")
        print(f"VIOLATION property={prop} replay={r['replay']}")
    if reported: sys.exit(1)
    if not ok and not viol: print(f"property {prop}: nothing could be decided"); sys.exit(2)
    print(f"property {prop}: held on {len(ok)} of {len(res)} configurations; {tot('queries')} solver queries, {round(time.time()-T0,1)} s")
    sys.exit(0)

if __name__ == "__main__": main()
