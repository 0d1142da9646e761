#!/usr/bin/env python3
"""Decides one property: check.py <ID> [quick|thorough]

mirror /repo -> compile the library and the property's harness to LLVM IR -> execute the harness
symbolically (engine/, SMT) -> replay every explored path natively -> evidence/<ID>.json.
Exit 0: the property held for every input within the bounds. Exit 1 + VIOLATION line: a concrete
counterexample was found and reproduced natively. Exit 2: no verdict (does not build, vacuous, or the
symbolic and the native run disagree). Paths that could not be explored are reported and listed in the
evidence, which then says "exhaustive": false."""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import PROPS

VC = os.environ.get("VERIF_CACHE", HERE + "/.cache")
TRIPLE = "x86_64-unknown-linux-gnu"
BUDGET_QUICK = 720
NATIVE_LIMIT = 60  # seconds an input may take natively before it counts as never ending
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


def die(msg):
    print("NO VERDICT: " + msg)
    sys.exit(2)


def env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             RUSTFLAGS="--emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp", CARGO_TARGET_DIR=VC + "/target")
    return e


def build(crate, feature):
    """Compiles the harness crate (and the library) natively and to bitcode; returns the artifacts."""
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--target", TRIPLE, "--manifest-path", f"{HERE}/{crate}/Cargo.toml",
                        "--features", feature, "--message-format", "json"], env=env(), capture_output=True, text=True)
    art, errs = {}, []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"].replace("-", "_")
            if n in ("openid4vp", "openid4vp_frontend", crate, "replay", "replay2") and m["target"]["kind"] != ["custom-build"]:
                for f in m["filenames"] + ([m["executable"]] if m.get("executable") else []):
                    if f.endswith(".rmeta"):
                        art[n] = re.sub(r"/lib([^/]*)\.rmeta$", r"/\1.bc", f)
                    elif m.get("executable") == f:
                        art["exe"] = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.append(m["message"]["rendered"])
    if p.returncode:
        die("the library and its harness do not build:\n" + ("".join(errs) or p.stderr)[-3000:])
    return art


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3:] or None
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(VC, exist_ok=True)
    lock = open(VC + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(VC + "/index") or not os.path.exists(VC + "/engine/release/symex"):
        if subprocess.run(["bash", HERE + "/setup.sh"]).returncode:
            die("setup failed")
    subprocess.run([sys.executable, HERE + "/mirror.py", VC + "/mirror"], check=True)
    crate = prop.get("crate", "harness")
    art = build(crate, pid.lower())
    run = f"{VC}/run/{pid}"
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    llvm = subprocess.run(["rustc", "--print", "sysroot"], env=env(), capture_output=True, text=True).stdout.strip() + f"/lib/rustlib/{TRIPLE}/bin"
    lls = []
    for n, bc in art.items():
        if n == "exe":
            continue
        ll = f"{run}/{n}.ll"
        subprocess.run([llvm + "/llvm-dis", bc, "-o", ll], check=True)
        lls.append(ll)
    exe = f"{run}/replay"
    shutil.copy(art["exe"], exe)
    fcntl.flock(lock, fcntl.LOCK_UN)
    t_build = time.time() - t0

    tot, viols, problems, gaps, covers, samples, funcs = {}, [], [], [], {}, [], set()
    validated = 0
    per_entry = {}
    # paths on which the harness recognised one specific failing history: findings, if listed
    marked, known = [], known_findings(pid)
    # the whole check ends in time: what is left when the time is used up is reported as not explored
    end = t0 + (BUDGET_QUICK if tier == "quick" else 6 * 3600)
    for entry, cfg in prop["entries"].items():
        if only and entry not in only:
            continue
        if cfg.get("thorough_only") and tier != "thorough":
            continue
        res = f"{run}/{entry}.jsonl"
        limit = int(min(cfg.get("time", {}).get(tier, 300 if tier == "quick" else 3000), end - time.time()))
        if limit < 5:
            gaps.append(f"{entry}: no time left")
            continue
        found = []
        for max_viol in (1, 40):
            summ, rows = symex(entry, res, lls, limit, tier, max_viol)
            # native replay of every explored path and of every counterexample
            errs = [r for r in rows if r["st"] == "err"]
            rows = [r for r in rows if r["st"] in ("ok", "viol")]
            got = replay(exe, entry, [r["in"] for r in rows], tier, run)
            good, bad = [], []
            for r, (st, obs, msg) in zip(rows, got):
                if r["st"] == "viol":
                    if st in ("assert", "panic", "signal"):
                        found.append((entry, r, f"{st}: {msg}"))
                    else:
                        bad.append(f"{entry}: counterexample not reproduced natively ({r['msg']}; native: {st} {msg}) in={r['in']} [{r.get('bt', '')[:400]}]")
                elif st in ("assert", "panic", "signal") and not cfg.get("nondet"):
                    # a concrete failing run is a violation whatever the symbolic run said of this path's other inputs
                    found.append((entry, r, f"{st}: {msg}"))
                elif st != "ok" or obs != r["obs"]:
                    bad.append(f"{entry}: native run of an explored path differs ({st} {obs} {msg} vs {r['obs']} {r['obstxt'][:300]}) in={r['in']}")
                else:
                    good.append(r)
            # paths that did not come to an end: if the native run does not either, or fails, that is a violation
            for r in [r for r in errs if re.match("instruction limit|time limit|call depth", r["msg"])][:4]:
                why = endless(exe, entry, r["in"], tier, run)
                if why and (why.startswith("hang") or not cfg.get("nondet")):
                    found.append((entry, dict(r, msg="an operation does not end"), why))
                    break
            # a counterexample that does not reproduce must not hide others
            if found or not summ["violations"]:
                break
            limit = int(min(limit, end - time.time()))
            if limit < 5:
                break
        viols += found
        per_entry[entry] = {k: summ[k] for k in ("paths", "pruned", "instructions", "queries_sat", "queries_unsat", "domain_decisions", "solver_s", "asserts_by_solver", "asserts_concrete", "wall_s")}
        for k, v in summ.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        tot["z3"] = summ["z3"]
        for l in open(res + ".funcs"):
            funcs.add(l.strip())
        gaps += bad + [f"{entry}: {r['msg']} [{r.get('bt', '')[:600]}]" for r in errs]
        if summ["queries_unknown"]:
            gaps.append(f"{entry}: {summ['queries_unknown']} queries without a verdict")
        if len(bad) > len(good):
            problems += bad[:3]
        validated += len(good)
        for r in good:
            marked += [(entry, r, c) for c in r["cov"] if c.startswith("FINDING: ")]
            for c in set(r["cov"]):
                covers[c] = covers.get(c, 0) + 1
        if not viols:
            if summ["cut"]:
                gaps.append(f"{entry}: exploration cut short (limit {limit} s)")
            for c in cfg.get("cover", []):
                if not any(c in r["cov"] for r in good):
                    (gaps if summ["cut"] or errs or bad else problems).append(f"{entry}: situation '{c}' was never reached (vacuous)")
        for r in rows[:2]:
            samples.append({"entry": entry, "input_hex": r["in"][:400], "covers": r["cov"], "observed": r["obstxt"][:300]})
        if viols:
            break
    if not viols and not validated:
        problems += gaps[:5] or ["nothing was explored"]
    new = viols + [v for v in marked if v[2] not in known]
    for v in sorted({v[2] for v in marked} & set(known)):
        print(f"KNOWN-FINDING: property={pid} {known[v]}")
    lib = sorted(f for f in funcs if "openid4vp" in f)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot.get("forks", 0) + len(per_entry),
            "transitions": tot.get("instructions", 0),
            "traces_validated_against_impl": validated,
            "samples": samples[:8],
            "exhaustive": not problems and not gaps and not new, "not_explored": gaps[:20],
            "meaning": "states: symbolic states (nodes of the path tree); transitions: LLVM instructions executed symbolically; traces_validated: explored paths whose model was re-run natively with identical observations",
            "bounds": prop["bounds"], "outside_bounds": prop.get("outside", ""),
            "paths": tot.get("paths", 0), "pruned": tot.get("pruned", 0),
            "queries": {"sat": tot.get("queries_sat", 0), "unsat": tot.get("queries_unsat", 0), "unknown": tot.get("queries_unknown", 0), "decided_by_value_sets": tot.get("domain_decisions", 0)},
            "solver": "Z3 " + str(tot.get("z3")), "solver_s": round(tot.get("solver_s", 0), 3),
            "assertions": {"discharged_by_solver_per_path": tot.get("asserts_by_solver", 0), "constant_on_path": tot.get("asserts_concrete", 0)},
            "functions_encoded": len(funcs), "library_functions_encoded": len(lib), "library_functions": [demangle_short(f) for f in lib][:400],
            "entries": per_entry, "situations_reached": covers,
        },
        "assumptions": prop.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        entry, r, why = new[0]
        rp = write_replay(pid, entry, r, exe, tier, why)
        print(f"{pid} violated in {entry}: {r['msg'] or why}\n  native replay: {why}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if problems:
        die("\n".join(problems[:10]))
    for g in gaps[:10]:
        print("NOT EXPLORED: " + g)
    print(f"{pid} holds {'on everything explored, which is not all within the bounds' if gaps else 'within bounds'}: {tot.get('paths', 0)} paths, {tot.get('instructions', 0)} instructions, {tot.get('queries_sat', 0) + tot.get('queries_unsat', 0)} solver queries, "
          f"{validated} paths validated natively, build {t_build:.0f} s, total {time.time() - t0:.0f} s")


def symex(entry, res, lls, limit, tier, max_viol):
    cmd = [VC + "/engine/release/symex", "--entry", entry, "--results", res, "--index", VC + "/index", "--jobs", "8", "--time", str(limit),
           "--tier", "1" if tier == "thorough" else "0", "--max-viol", str(max_viol)]
    for l in lls:
        cmd += ["--ll", l]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 90)
        summ = json.loads(p.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        die(f"{entry}: the symbolic executor does not end")
    except Exception:
        die(f"{entry}: the symbolic executor failed: {p.stdout[-500:]} {p.stderr[-1500:]}")
    rows = []
    for l in open(res):
        try:
            rows.append(json.loads(l))
        except ValueError:
            pass
    return summ, rows


COMMON = [
    "the encoding is the LLVM IR rustc emits for the current source (release profile, overflow checks on in the library)",
    "engine semantics of that IR, Z3, rustc and the libc models (allocation never fails, deterministic getrandom)",
    "every explored path is re-run natively and must agree with the symbolic run",
]


def demangle_short(f):
    return re.sub(r"Cs[0-9A-Za-z]+_", "", f)[:160]


def endless(exe, entry, inp, tier, run):
    """Runs one input on its own, within limits of time and memory; returns how it failed, if it did."""
    f = f"{run}/{entry}.endless"
    open(f, "w").write(inp + "\n")
    p = subprocess.Popen([exe, entry, f], env=dict(os.environ, VERIF_TIER_RUN=tier), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True,
                         preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
    try:
        out, _ = p.communicate(timeout=NATIVE_LIMIT)
        st, _, msg = (out.strip("\n").split("\t") + ["", "", ""])[:3]
        return f"{st}: {msg}" if st in ("assert", "panic", "signal") else None
    except subprocess.TimeoutExpired:
        return f"hang: the native run does not end within {NATIVE_LIMIT} s"
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def replay(exe, entry, inputs, tier, run):
    if not inputs:
        return []
    e = dict(os.environ, VERIF_TIER_RUN=tier)
    n = max(1, min(8, len(inputs) // 20 + 1))
    parts = [inputs[i::n] for i in range(n)]

    def go(i):
        f = f"{run}/{entry}.in{i}"
        open(f, "w").write("".join(x + "\n" for x in parts[i]))
        try:
            p = subprocess.run([exe, entry, f], env=e, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            die("native replay timed out")
        return [tuple((l.split("\t") + ["", ""])[:3]) for l in p.stdout.splitlines()]
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(go, range(n)))
    res = [None] * len(inputs)
    for i, o in enumerate(outs):
        if len(o) != len(parts[i]):
            die(f"native replay of {entry} ended early")
        for j, x in enumerate(o):
            res[i + j * n] = x
    return res


def write_replay(pid, entry, r, exe, tier, why):
    d = f"{HERE}/evidence/replay/{pid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(exe, d + "/replay")
    open(d + "/input.hex", "w").write(r["in"] + "\n")
    open(d + "/counterexample.json", "w").write(json.dumps({"entry": entry, "symbolic": r, "native": why}, indent=1))
    open(d + "/run.sh", "w").write(f'#!/bin/sh\n# native run of the counterexample: {why}\ncd "$(dirname "$0")" && VERIF_TIER_RUN={tier} ./replay {entry} input.hex -v\n')
    os.chmod(d + "/run.sh", 0o755)
    return d + "/run.sh"


def known_findings(pid):
    try:
        l = json.load(open(HERE + "/known_findings.json"))["findings"]
    except OSError:
        return {}
    return {"FINDING: " + k["history"]: k["what"] for k in l if k["property"] == pid and k.get("status") == "known"}


main()
