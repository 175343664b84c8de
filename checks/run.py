#!/usr/bin/env python3
"""Decide one property: encode the code of /repo's working tree together with the property's harness, explore it symbolically,
replay what the solver returns against the real library.  usage: run.py ID [--tier quick|thorough] [--unit NAME] | run.py --build"""
import sys, os, re, json, glob, hashlib, subprocess, shutil, time, fcntl, resource, argparse
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-18/bin/"
SAN = "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bounds -fsanitize-trap=all".split()
NOVEC = "-fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -w".split()
NSAN = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -w".split()
TSAN = "-O1 -g1 -fsanitize=thread -D_GLIBCXX_ASSERTIONS -w".split()  # harnesses with a line "// @native thread"
WRAPS = """vsnprintf snprintf malloc free calloc realloc vasprintf __vasprintf_chk asprintf strdup EVP_MD_CTX_new EVP_MD_CTX_free BIO_new BIO_new_mem_buf BIO_free
BIO_vfree BIO_free_all RSA_free RSA_up_ref EVP_PKEY_get1_RSA d2i_RSAPrivateKey d2i_RSA_PUBKEY d2i_PUBKEY PEM_read_bio_PrivateKey EVP_PKEY_free
EVP_PKEY_up_ref time gettimeofday clock_gettime _ZNSt6chrono3_V212system_clock3nowEv res_nquery __res_nquery res_nsearch __res_ninit __res_nclose
res_ninit res_nclose crypto_sign_verify_detached crypto_sign_detached crypto_sign_seed_keypair RSA_verify RSA_sign EVP_DigestUpdate EVP_DigestFinal_ex EVP_DigestFinal EVP_Digest""".split()

class Broken(Exception): pass
def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout
def rd(p):
    with open(p, "rb") as f: return f.read()
def step(out, deps, cmd, extra=""):
    """run cmd producing out unless an up-to-date one exists (content hash of deps and command)"""
    h = hashlib.sha256(("\0".join(cmd) + extra).encode())
    for d in sorted(set(deps)): h.update(d.encode()); h.update(rd(d))
    key = h.hexdigest(); stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key: return out
    if os.path.exists(stamp): os.remove(stamp)
    sh(cmd)
    with open(stamp, "w") as f: f.write(key)
    return out
def B(*p): return os.path.join(BUILD, *p)
def V(*p): return os.path.join(VERIF, *p)

def build_all(harness=None, tier="quick"):
    for d in ("", "rt", "repo", "nat", "natt", "h"): os.makedirs(B(d), exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    if not srcs: raise Broken("no sources under " + REPO + "/src")
    for d in ("repo", "nat", "natt"):  # drop objects of sources that are gone
        for f in glob.glob(B(d, "*")):
            b = os.path.basename(f).split(".")[0]
            if b not in [os.path.basename(s)[:-4] for s in srcs] + ["all", "native"]: os.remove(f)
    hdrs = sorted(glob.glob(REPO + "/src/*.h*")); eng = glob.glob(V("engine", "*")); rth = glob.glob(V("rt", "*.h")) + glob.glob(V("harness", "*.h*"))
    T = []
    T.append(lambda: step(B("symx.o"), eng, ["g++", "-O2", "-w", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-c", V("engine/symx.cpp"), "-o", B("symx.o")]))
    T.append(lambda: step(B("expr.o"), eng, ["g++", "-O2", "-w", "-std=c++17", "-c", V("engine/expr.cpp"), "-o", B("expr.o")]))
    hb = hn = None; thr = bool(harness and re.search(r"^// @native thread", open(harness).read(), re.M)); nf, nd = (TSAN, "natt") if thr else (NSAN, "nat")
    if harness:
        hname = os.path.basename(harness)[:-4] + "." + tier; hb = B("h", hname + ".bc"); hn = B("h", hname + ".o")
        hd = [harness] + hdrs + rth + sorted(glob.glob(REPO + "/tools/src/*")); tf = ["-DTHOROUGH"] if tier == "thorough" else []; inc = ["-I" + REPO, "-I" + REPO + "/src", "-I" + V("harness"), "-I" + V("rt")]
        T.append(lambda: step(hb, hd, ["clang++", "-std=c++17", "-O1", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS"] + NOVEC + tf + inc + ["-emit-llvm", "-c", harness, "-o", hb]))
        T.append(lambda: step(hn, hd, ["g++", "-std=c++17"] + nf + tf + inc + ["-c", harness, "-o", hn]))
    for s in srcs:
        n = os.path.basename(s)[:-4]
        T.append(lambda s=s, n=n: step(B("repo", n + ".bc"), [s, V("rt/watch.h")] + hdrs, ["clang++", "-std=c++11", "-O1", "-gline-tables-only"] + NOVEC + ["-DHAS_RES_NINIT", "-I" + REPO, "-include", V("rt/watch.h"), "-D_GLIBCXX_ASSERTIONS"] + SAN + ["-emit-llvm", "-c", s, "-o", B("repo", n + ".bc")]))
        T.append(lambda s=s, n=n: step(B(nd, n + ".o"), [s] + hdrs, ["g++", "-std=c++11"] + nf + ["-DHAS_RES_NINIT", "-I" + REPO, "-c", s, "-o", B(nd, n + ".o")]))
    for n, x in (("cxx", []), ("libc", ["-fno-builtin"]), ("crypto", ["-fno-builtin"])):
        T.append(lambda n=n, x=x: step(B("rt", n + ".bc"), [V("rt", n + ".cpp")] + rth, ["clang++", "-std=c++17", "-O1"] + NOVEC + x + ["-I" + V("harness"), "-emit-llvm", "-c", V("rt", n + ".cpp"), "-o", B("rt", n + ".bc")]))
    T.append(lambda: step(B("rt", "native.o"), [V("rt/native.cpp")] + rth, ["g++", "-std=c++17", "-O1", "-g", "-w", "-I" + V("harness"), "-c", V("rt/native.cpp"), "-o", B("rt", "native.o")]))
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(t) for t in T]: f.result()
    step(B("symx"), [B("symx.o"), B("expr.o")], ["g++", B("symx.o"), B("expr.o"), "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-o", B("symx")])
    if not harness: return None
    names = [os.path.basename(s)[:-4] for s in srcs]; bcs = [B("repo", n + ".bc") for n in names] + [B("rt", n + ".bc") for n in ("cxx", "libc", "crypto")]
    T = [lambda: step(hb[:-3] + ".all.bc", [hb] + bcs, [LLVM + "llvm-link", hb] + bcs + ["-o", hb[:-3] + ".all.bc"]),
         lambda: step(hn[:-2] + ".replay", [hn, B("rt/native.o")] + [B(nd, n + ".o") for n in names],
            ["g++", "-rdynamic", "-fsanitize=thread" if thr else "-fsanitize=address,undefined", hn, B("rt/native.o")] + [B(nd, n + ".o") for n in names] + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lcrypto", "-lsodium", "-lresolv", "-ldl", "-o", hn[:-2] + ".replay"])]
    with ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(t) for t in T]: f.result()
    return hb[:-3] + ".all.bc", hn[:-2] + ".replay"

def units(harness, tier):
    """directives:  // @unit NAME [reach=a,b] [q=SECONDS] [t=SECONDS] [viol=N] [only=thorough] : text of the bounds"""
    r = []
    for l in open(harness):
        m = re.match(r"//\s*@unit\s+(\w+)([^:]*):\s*(.*)", l)
        if not m: continue
        o = dict(x.split("=", 1) for x in m.group(2).split())
        if o.get("only", tier) != tier: continue
        u = {"entry": m.group(1), "reach": [x for x in o.get("reach", "").split(",") if x], "timeout": float(o.get("t" if tier == "thorough" else "q", "600" if tier == "thorough" else "60")), "steps": o.get("steps", "30000000"), "bounds": m.group(3)}
        r.append(u)
    return r
def assumptions(harness): return [m.group(1) for m in (re.match(r"//\s*@assume\s+(.*)", l) for l in open(harness)) if m]

def replay(binary, entry, cases):
    """-> list of (status kind, message, [(name, hex)])"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:abort_on_error=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=99", TSAN_OPTIONS="halt_on_error=1:exitcode=99:ignore_noninstrumented_modules=1:report_thread_leaks=0:die_after_fork=0", SYM_ENTRY=entry)
    res = []
    for k in range(0, len(cases), 64):
        p = subprocess.run([binary] + cases[k:k + 64], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, errors="replace", timeout=600, text=True)
        cur = None
        for l in p.stdout.splitlines():
            if l.startswith("case "): cur = [None, "", []]; res.append(cur)
            elif l.startswith("obs ") and cur: f = l.split(" "); cur[2].append((f[1], f[2] if len(f) > 2 else ""))
            elif l.startswith("status ") and cur and cur[0] is None: f = l.split(" ", 2); cur[0] = f[1]; cur[1] = f[2] if len(f) > 2 else ""
    return res
def case_obs(p):
    return [(f[1], f[2] if len(f) > 2 else "") for f in (l.rstrip("\n").split(" ") for l in open(p) if l.startswith("obs "))]
def case_head(p):
    k = m = ""; n = []
    for l in open(p, errors="replace"):
        if l.startswith("kind "): k = l[5:].strip()
        elif l.startswith("msg "): m = l[4:].strip()
        elif l.startswith("in "): n.append(l[3:].strip())
    return k, m, n
def show(inputs):
    o = []
    for l in inputs:
        f = l.split(" "); h = bytes.fromhex(f[2]) if len(f) > 2 else b""
        o.append("%s#%s=%s" % (f[0], f[1], repr(h)[1:] if len(h) != 8 or any(h[3:7]) else str(int.from_bytes(h, "little", signed=True))))
    return " ".join(o)
def known(pid):
    """known-findings.txt: 'finding: property=ID unit=U msg=REGEX :: text' (suppresses) and 'fixed: ...' (documentation only)"""
    r = []
    p = V("known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) unit=(\S+) msg=(.*?) :: (.*)", l)
        if m and m.group(1) == pid: r.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--unit"); ap.add_argument("--build", action="store_true"); ap.add_argument("--samples", type=int, default=0); ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(); t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(BUILD, exist_ok=True); lock = open(B(".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX); tl = time.time()
    if a.build: build_all(); return 0
    pid, tier = a.pid, a.tier; harness = V("harness", pid.lower() + ".cpp")
    bc, rep = build_all(harness, tier); tbuild = time.time() - t0
    us = [u for u in units(harness, tier) if not a.unit or u["entry"] == a.unit]
    outdir = B("out", pid); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    rdir = V("evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")): os.remove(f)
    kf = known(pid); viol = []; findings = {}; broken = []; U = []; samples = []; validated = 0; fns = {}
    def big():
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]; want = 1 << 29 if hard == resource.RLIM_INFINITY else min(hard, 1 << 29)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    budget = 640 if tier == "quick" else 3000
    for u in us:
        u["timeout"] = max(10, min(u["timeout"], budget - (time.time() - tl)))
        if viol: u["timeout"] = min(u["timeout"], 60)
        od = os.path.join(outdir, u["entry"]); ns = a.samples or (200 if tier == "thorough" else 48)
        p = subprocess.run([B("symx"), bc, "-o", od, "-j", str(a.j), "--entry", u["entry"], "--steps", u["steps"], "--timeout", str(u["timeout"]), "--max-viol", "40", "--samples", str(ns)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=big)
        try: r = json.load(open(od + "/result.json"))
        except Exception: raise Broken("engine gave no result for %s: rc %d %s" % (u["entry"], p.returncode, p.stdout[-2000:]))
        for f in r.pop("functions"):
            fns[f] = 1
        # violations: only those the real library reproduces count
        vs = sorted(glob.glob(od + "/viol-*.case")); rr = replay(rep, u["entry"], vs); unrep = 0
        for c, x in zip(vs, rr):
            k, m, inp = case_head(c)
            if x[0] in ("assert", "memory", "signal", "sanitizer", "exception", "exit", "fail", "timeout"):
                hit = [t for (un, rx, t) in kf if un == u["entry"] and rx.search(m)]
                if hit: findings.setdefault(hit[0], (c, inp)); continue
                if not any(v[1] == u["entry"] and v[2] == m for v in viol):
                    dst = os.path.join(rdir, "%s-%s-%d.case" % (pid, u["entry"], len(viol)))
                    with open(dst, "w") as f: f.write("# replay: checks/replay.sh %s\nproperty %s\nunit %s\ntier %s\n# observed on the real library: %s %s\n" % (dst, pid, u["entry"], tier, x[0], x[1]) + open(c, errors="replace").read())
                    viol.append((dst, u["entry"], m, inp, x))
            else:
                unrep += 1
                if unrep <= 3: broken.append("%s: counterexample not reproduced (%s %s; native %s %s): %s" % (u["entry"], k, m, x[0], x[1], show(inp)))
        # sampled paths: the encoding and the real library must agree on everything observed
        ss = sorted(glob.glob(od + "/sample-*.case")); rr = replay(rep, u["entry"], ss); bad = 0; okc = 0
        for c, x in zip(ss, rr):
            if x[0] in ("assert", "memory", "signal", "sanitizer", "exception", "fail"):
                k, m, inp = case_head(c)
                hit = [t for (un, rx, t) in kf if un == u["entry"] and rx.search(x[1])]
                if hit: findings.setdefault(hit[0], (c, inp)); continue
                if not any(v[1] == u["entry"] and v[2] == x[1] for v in viol):
                    dst = os.path.join(rdir, "%s-%s-%d.case" % (pid, u["entry"], len(viol)))
                    with open(dst, "w") as f: f.write("# replay: checks/replay.sh %s\nproperty %s\nunit %s\ntier %s\n# found when replaying a solved path on the real library: %s %s\n" % (dst, pid, u["entry"], tier, x[0], x[1]) + open(c, errors="replace").read())
                    viol.append((dst, u["entry"], x[1], inp, x))
            elif x[0] != "ok" or x[2] != case_obs(c):
                bad += 1
                if bad <= 3: broken.append("%s: encoding and library disagree on %s: encoding %s, library %s %s" % (u["entry"], os.path.relpath(c, VERIF), case_obs(c)[:6], x[:2], x[2][:6]))
            else:
                okc += 1
                if okc <= 2: samples.append("%s: %s -> %s" % (u["entry"], show(case_head(c)[2])[:300], " ".join("%s=%s" % o for o in x[2])[:200] or "ok"))
        validated += okc
        miss = [x for x in u["reach"] if x not in r["reach"]]
        if miss and not (vs or viol) and not (r["stopped"] and r["paths"]): broken.append("%s: not reached: %s" % (u["entry"], ",".join(miss)))
        r["unit"] = u["entry"]; r["bounds"] = u["bounds"]; r["exhausted_within_bounds"] = (r["stopped"] == 0 and r["unsupported"] == 0 and r["unknown"] == 0); r["samples_agreeing"] = okc; r["samples_disagreeing"] = bad; r["counterexamples_not_reproduced"] = unrep
        if r["unsupported"] and not r["paths"]: broken.append("%s: nothing could be encoded" % u["entry"])
        U.append(r)
        print("%s %-24s paths %d forks %d asserts %d/%d queries %d (%d unknown) %s%s wall %.1fs viol %d%s" % (pid, u["entry"], r["paths"], r["forks"], r["assertions"], r["assertions_solver"], r["queries"], r["unknown"], "exhausted" if r["exhausted_within_bounds"] else "PARTIAL", " unsupported %d" % r["unsupported"] if r["unsupported"] else "", r["wall_s"], len(vs), " reach " + ",".join("%s:%s" % kv for kv in sorted(r["reach"].items())) if r["reach"] else ""), flush=True)
        if r["unsupported"]: print("   unsupported:", p.stdout[-600:])
    def tot(k): return sum(r[k] for r in U)
    lib = sorted(f for f in fns if "DKIM" in f or "Validate" in f)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {"states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": validated, "samples": samples[:40], "exhaustive": all(r["exhausted_within_bounds"] for r in U),
            "explanation": "states = symbolic paths explored to the end, transitions = symbolic forks decided by the solver; traces_validated_against_impl = solved paths replayed on the real library with identical observations",
            "assertions_checked": tot("assertions"), "assertions_decided_by_solver": tot("assertions_solver"), "assertions_folded": tot("assertions_folded"), "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"), "table_decisions": tot("table_decisions"), "table_decisions_put_to_z3": tot("table_queries"), "solver_s": round(tot("solver_us") / 1e6, 3), "instructions": tot("instructions"), "build_s": round(tbuild, 1),
            "functions_encoded": lib, "functions_encoded_total": len(fns), "units": U}, "assumptions": assumptions(harness)}
    tmp = V("evidence", pid + ".json.tmp")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    if not a.unit: os.replace(tmp, V("evidence", pid + ".json"))
    for t, (c, inp) in findings.items(): print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for b in broken: print("PROBLEM", b)
    for v in viol: print("  counterexample in %s: %s\n    input %s\n    real library: %s %s" % (v[1], v[2], show(v[3])[:1500], v[4][0], v[4][1]))
    for v in viol: print("VIOLATION property=%s replay=%s" % (pid, v[0]))
    print("%s %s: %s in %.1fs (build %.1fs)" % (pid, tier, "violated" if viol else "inconclusive" if broken else "holds", time.time() - t0, tbuild))
    return 1 if viol else 2 if broken else 0
if __name__ == "__main__":
    try: sys.exit(main())
    except Broken as e: print("PROBLEM", e); sys.exit(2)
