#!/usr/bin/env python3
"""Driver: expand /repo's current source, translate it mechanically, inject the contracts, let Verus discharge every
obligation, run the bounded harness on the same source, and decide one property.

  vx.py setup                 build the translator, the dependencies and the harness (optional: a check builds what is missing)
  vx.py check C07 [thorough]  decide one property; exit 0 (held) or 1 (VIOLATION line)
  vx.py replay FILE           re-run what a replay file describes
  vx.py baseline              rewrite baseline.json (the shape of the verified functions on the unchanged tree)
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(HERE, "build"))
ENV = dict(os.environ)
ENV.update(PATH="/root/.cargo/bin:" + ENV.get("PATH", ""), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP"):
    ENV.pop(k, None)
FEATURES = {"full": ["--features", "danger,serde,alloc,std"], "nostd": ["--no-default-features", "--features", "ristretto255-ciphersuite"],
            "noristretto": ["--no-default-features", "--features", "danger,serde"]}
LOCK = threading.Lock()


class Err(Exception):
    pass


DEADLINE = [float("inf")]


def left(cap):
    """seconds this step may take"""
    return max(5, min(cap, DEADLINE[0] - time.time()))


def sh(cmd, cwd=None, env=None, timeout=600, out=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE)
        rc, so, se = p.returncode, p.stdout or b"", p.stderr or b""
    except subprocess.TimeoutExpired as e:
        rc, so, se = -9, e.stdout or b"", (e.stderr or b"") + b"\n[timeout]"
    return rc, so.decode("utf-8", "replace"), se.decode("utf-8", "replace"), time.time() - t


# ---------------------------------------------------------------- builds
def build_engine():
    rc, _, se, _ = sh(["cargo", "build", "--offline", "--release", "--target-dir", BUILD + "/engine"], cwd=HERE + "/engine", timeout=800)
    if rc:
        raise Err("the translator does not build:\n" + se[-2000:])
    return BUILD + "/engine/release/vx-engine"


def need_lock():
    # Cargo.lock is ignored by git: put back the one made at set-up if it is missing
    if not os.path.exists(REPO + "/Cargo.lock"):
        src = "/opt/vp/Cargo.lock" if os.path.exists("/opt/vp/Cargo.lock") else HERE + "/engine/repo.Cargo.lock"
        shutil.copy(src, REPO + "/Cargo.lock")


def expand(dst, feat="full"):
    """the source after macro expansion and cfg evaluation, as the compiler prints it"""
    env = dict(ENV, RUSTC_BOOTSTRAP="1")
    with open(dst, "wb") as f:
        rc, _, se, t = sh(["cargo", "rustc", "--offline", "--lib", *FEATURES[feat], "--target-dir", BUILD + "/expand" + ("" if feat == "full" else "-" + feat), "--", "-Zunpretty=expanded"], cwd=REPO, env=env, timeout=600, out=f)
    if rc or os.path.getsize(dst) < 1000:
        raise Err("/repo does not compile:\n" + se[-3000:])
    return t


def build_harness():
    rc, _, se, t = sh(["cargo", "build", "--offline", "--target-dir", BUILD + "/harness"], cwd=HERE + "/harness", timeout=800)
    if rc:
        errs = re.findall(r"^error.*?(?=\n\n|\Z)", se, re.M | re.S)
        raise Err("the harness does not build against /repo:\n" + "\n".join(errs)[:3000] + ("" if errs else se[-2000:]))
    return BUILD + "/harness/debug/vx-harness"


def literals(path):
    """the non-test source's own literals: special values the code itself knows about"""
    ints, byts = set(), []
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)):
        if "/tests/" in f:
            continue
        s = open(f, encoding="utf-8", errors="replace").read()
        s = re.split(r"^\s*#\[cfg\(test\)\]\s*\n\s*mod \w+\s*\{", s, flags=re.M)[0]
        s = re.sub(r"//[^\n]*", "", s)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?![\w.])", s):
            try:
                v = int(m.group(1).replace("_", ""), 0)
            except ValueError:
                continue
            if v < 1 << 63:
                ints.add(v)
        for m in re.finditer(r"b?\"((?:[^\"\\\n]|\\.)*)\"", s):
            if re.search(r"^\s*(?:#\[|serde|bound|doc)", s[s.rfind("\n", 0, m.start()) + 1:m.start()]):
                continue
            try:
                b = m.group(1).encode("latin1").decode("unicode_escape").encode("latin1")
            except Exception:
                continue
            if b and len(b) <= 64 and list(b) not in byts:
                byts.append(list(b))
        for m in re.finditer(r"b'((?:[^'\\]|\\.[0-9a-f]*))'", s):
            try:
                ints.add(ord(m.group(1).encode("latin1").decode("unicode_escape")))
            except Exception:
                pass
        for m in re.finditer(r"\[((?:\s*(?:0x[0-9a-fA-F]+|\d+)(?:_?u8)?\s*,){1,63}\s*(?:0x[0-9a-fA-F]+|\d+)?(?:_?u8)?\s*)\]", s):
            try:
                b = [int(re.sub(r"_?u8$", "", x.strip()), 0) for x in m.group(1).split(",") if x.strip()]
            except ValueError:
                continue
            if all(0 <= x < 256 for x in b) and b not in byts:
                byts.append(b)
    json.dump({"ints": sorted(ints)[:120], "bytes": byts[:120]}, open(path, "w"))


def run_harness(exe, out, seed, scale, lits, props=None, only=None, timeout=400):
    cmd = [exe, "--seed", str(seed), "--scale", str(scale), "--lits", lits, "--out", out]
    if props:
        cmd += ["--props", props]
    if only:
        cmd += ["--only", only]
    if os.path.exists(out):
        os.remove(out)
    rc, so, se, t = sh(cmd, timeout=timeout)
    if not os.path.exists(out):
        return {"crash": f"exit {rc}: {se[-500:]}", "cases": 0, "distinct": 0, "assertions": {}, "failures": [], "samples": [], "wall": t, "cmd": " ".join(cmd)}
    j = json.load(open(out))
    j["wall"] = t
    j["cmd"] = " ".join(cmd)
    return j


# ---------------------------------------------------------------- verification
class Out:
    """the translated file: which function and which clause a line belongs to"""

    def __init__(self, path):
        self.lines = open(path).read().split("\n")
        self.fn = [None] * (len(self.lines) + 2)
        self.body = {}
        cur, start = None, 0
        for i, l in enumerate(self.lines, 1):
            if l.startswith("//@F"):
                cur, start = l[5:].strip(), i
            if cur is not None:
                self.fn[i] = cur
            if l.startswith("//@f"):
                if cur is not None:
                    self.body.setdefault(cur.split("|")[0], "")
                    self.body[cur.split("|")[0]] += "\n".join(self.lines[start:i])
                cur = None

    def tags(self, a, b):
        r = []
        for i in range(a, min(b, a + 6) + 1):
            if 0 < i <= len(self.lines):
                m = re.search(r"//@([ERI]) (\S.*?)\s*$", self.lines[i - 1])
                if m:
                    r.append((m.group(1), m.group(2)))
        return r


def verus(path, extra=(), timeout=500):
    rc, so, se, t = sh(["verus", os.path.basename(path), "--multiple-errors", "8", "--output-json", "--time-expanded", "--error-format=json", *extra], cwd=os.path.dirname(path), timeout=left(timeout))
    try:
        res = json.loads(so)
    except ValueError:
        res = {}
    diags = []
    for l in se.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                diags.append(d)
    return rc, res, diags, se, t


PROOF_MSG = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "possible arithmetic", "possible division", "invariant not satisfied", "decreases not satisfied",
             "unable to prove", "recommendation not met", "Resource limit", "loop invariant", "possible bit shift", "could not prove termination", "rlimit", "assertion not satisfied", "index out of bounds", "possible index", "precondition not met", "may fail")


def is_proof(d):
    m = d["message"]
    return any(p in m for p in PROOF_MSG)


def base_key(k):
    return k.split("|")[0]


def verify(work, engine, exp, log, inline=(), alias=None):
    """translate and verify, taking functions out of the verifier's reach one step at a time when it rejects them"""
    opts = {}  # key -> stage
    out, mp = work + "/out.rs", work + "/map.json"
    stages = ["--noauto", "--external", "--drop"]
    glue = []
    for rnd in range(9):
        if rnd and left(1000) < 150:
            raise Err("the verifier still rejects the translation and time is up")
        cmd = [engine, exp, HERE + "/contracts", HERE + "/shim", out, mp] + glue
        for k, s in sorted(opts.items()):
            cmd += [stages[s], k]
        for k in sorted(inline):
            cmd += ["--inline", k]
        for a, b in sorted((alias or {}).items()):
            cmd += ["--alias", f"{a}={b}"]
        rc, so, se, _ = sh(cmd, timeout=120)
        if rc and not glue:
            log.append({"round": rnd, "rejected": "translation failed with serde's derived code: " + (se or so)[-300:], "function": []})
            glue = ["--noglue"]
            continue
        if rc:
            raise Err("translation failed: " + (se or so)[-1500:])
        o = Out(out)
        m = json.load(open(mp))
        rc, res, diags, raw, t = verus(out)
        vr = res.get("verification-results", {})
        hard = [d for d in diags if not is_proof(d)]
        if not hard and vr.get("verified", 0) > 0:
            return o, m, vr, res, diags, raw, rnd, opts, t
        # blame: the functions that hold the spans of what the verifier rejected
        blamed = set()
        keys = {f["key"]: f for f in m["functions"]}
        for d in hard:
            ks = []
            for sp in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                if sp["file_name"].endswith("out.rs") and sp["line_start"] < len(o.fn) and o.fn[sp["line_start"]]:
                    ks.append(base_key(o.fn[sp["line_start"]]))
            for x in ks:
                b = x[2:] if x.startswith("C:") else x
                if b in keys or x in keys:
                    blamed.add(x if x in keys else b)
                    break
            log.append({"round": rnd, "rejected": d["message"][:300], "function": ks[:1]})
        if not hard and not diags:
            log.append({"round": rnd, "rejected": "verifier gave no result: " + raw[-600:], "function": []})
        new = False
        for k in blamed:
            s = opts.get(k, -1) + 1
            if s < len(stages):
                opts[k] = s
                new = True
        if not new and not glue:
            # without serde's derived code
            glue = ["--noglue"]
            opts.clear()
            continue
        if not new:
            raise Err("the verifier rejects the translation: " + "; ".join(d["message"][:200] for d in hard[:3]) + ("" if hard else raw[-600:]))
    raise Err("the verifier still rejects the translation after 9 rounds")


def callgraph(o, m):
    """over-approximate: by the last identifier of the callee's name"""
    ident = {}
    for k in o.body:
        ident.setdefault(re.split(r"::|:", k)[-1], set()).add(k)
    g = {}
    for k, b in o.body.items():
        ids = set(re.findall(r"\b([A-Za-z_]\w*)\b", b))
        g[k] = {c for i in ids if i in ident for c in ident[i] if c != k}
    return g


def closure(g, roots):
    seen, st = set(), list(roots)
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        st += g.get(k, ())
    return seen


def labels_of(s):
    return [x for x in s.split(",") if x]


class Ver:
    pass


def analyse(work, engine, exp):
    """the verifier's answer; where code without a contract stands between a caller and its proof, a second time with that code
    substituted at its call sites"""
    al = aliases(work, engine, exp)
    v = None
    if al:
        try:
            v = analyse1(work, engine, exp, alias=al)
        except Exception:
            al = {}
    if v is None:
        v = analyse1(work, engine, exp)
    v.alias = al
    near = set(al.values()) | {k for k, c in v.graph.items() if c & set(al.values())}
    for f in v.fail:
        if f["function"] in near and not f["soft"]:
            f["soft"] = "the contract was written for a function of another name: " + ", ".join(f"{a} -> {b}" for a, b in al.items())
    bl = {f["function"] for f in v.fail if f["soft"].startswith("calls new code")}
    if bl and left(1000) > 330:
        w2 = work + "/inline"
        os.makedirs(w2, exist_ok=True)
        try:
            v2 = analyse1(w2, engine, exp, sorted(v.blind), al)
            v2.alias = al
        except Exception as e:
            v.log.append({"round": -1, "rejected": "with the new code substituted: " + str(e)[:300], "function": sorted(v.blind)})
            return v
        if len(v2.weak) <= len(v.weak):
            for f in v2.fail:
                if f["function"] in bl and not f["soft"]:
                    f["soft"] = "its proof with new code substituted into it does not go through"
            v2.inlined = sorted(v.blind - v2.blind)
            v2.wall += v.wall
            return v2
    return v


def aliases(work, engine, exp):
    """contracts whose function is gone, and the new function that looks like it: the same name elsewhere, or the same parameters in
    the same place. A guess only: the contract is then checked against that function's body like any other"""
    out, mp = work + "/alias.rs", work + "/alias.json"
    rc, so, se, _ = sh([engine, exp, HERE + "/contracts", HERE + "/shim", out, mp], timeout=120)
    if rc:
        return {}
    m = json.load(open(mp))
    if not m["missing"]:
        return {}
    bf = json.load(open(HERE + "/baseline.json"))["functions"]
    new = [f for f in m["functions"] if not f["contract"] and f["key"] not in bf and not f["key"].startswith(("scenario::", "C:"))]
    split = lambda k: (k.rpartition("::")[0], k.rpartition("::")[2])
    r = {}
    for g in m["missing"]:
        pre, last = split(g["key"])
        fit = [f for f in new if len(f["params"]) == len(g["params"]) and f["ngen"] == g["ngen"]]
        c = [f for f in fit if split(f["key"])[1] == last] or [f for f in fit if split(f["key"])[0] == pre and f["params"] == g["params"]]
        if len(c) == 1 and c[0]["key"] not in r.values():
            r[g["key"]] = c[0]["key"]
    return r


def analyse1(work, engine, exp, inline=(), alias=None):
    """everything the verifier says, per obligation; independent of the property asked about"""
    v = Ver()
    v.log = []
    v.inlined = []
    v.out = work + "/out.rs"
    o, m, vr, res, diags, raw, rounds, opts, t = verify(work, engine, exp, v.log, inline, alias)
    v.o, v.m, v.vr, v.raw, v.rounds, v.opts, v.wall = o, m, vr, raw, rounds, opts, t
    v.smt_ms = (res.get("times-ms", {}).get("smt", {}) or {}).get("total", 0) or res.get("times-ms", {}).get("total-verify", 0)
    fns = {}
    for f in m["functions"]:
        fns.setdefault(f["key"][2:] if f["key"].startswith("C:") else f["key"], f)
        fns[f["key"]] = f
    v.fns = fns
    base = json.load(open(HERE + "/baseline.json")) if os.path.exists(HERE + "/baseline.json") else {"functions": {}}
    bf = dict(base["functions"])
    for a, b in (alias or {}).items():
        if a in bf:
            bf[b] = bf[a]
    # clauses
    v.clauses = {}  # tag id -> (kind, fnkey, labels)
    fnlabels = {}
    for i, l in enumerate(o.lines, 1):
        mm = re.search(r"//@([ERI]) (\S.*?)\s*$", l)
        if not mm:
            continue
        p = mm.group(2).split("|")
        key = p[0]
        f = fns.get(key, {})
        holder = base_key(o.fn[i]) if o.fn[i] else key
        lab = labels_of(p[2] if len(p) > 2 else "") or labels_of(f.get("def", "") if mm.group(1) == "E" else "")
        v.clauses[(mm.group(1), mm.group(2), holder)] = (holder, lab)
        if mm.group(1) == "E":
            fnlabels.setdefault(holder, set()).update(lab)
    for k in o.body:
        d = fns.get(k, {}).get("def", "")
        fnlabels.setdefault(k, set()).update(labels_of(d))
    for l in o.lines:
        if l.startswith("//@F"):
            p = l[5:].strip().split("|")
            fnlabels.setdefault(p[0], set()).update(labels_of(p[1]) if len(p) > 1 else [])
    v.fnlabels = fnlabels
    v.graph = callgraph(o, m)
    # functions the verifier takes on trust in this run
    v.weak = {}
    for f in m["functions"]:
        if f["external"] or f["undecided"]:
            v.weak[f["key"]] = "; ".join(f["undecided"]) or "outside the verifier's reach"
    v.gone = {x["key"]: {l for ls in x["labels"] for l in labels_of(ls)} for x in m["missing"]}
    for k in v.gone:
        v.weak[k] = "the contract's function is not in the source any more"
    for k in m["dropped"]:
        v.weak[k] = "dropped"
    if "Element::serialize" in fns:
        for k in bf:
            if k.endswith(("Serialize::vx_serialize", "Deserialize::vx_deserialize")) and not k.startswith("Vx") and k not in fns:
                v.weak[k], v.gone[k] = "no derived serde implementation that could be translated", {"C11"}
    # functions new to the source whose meaning the callers cannot see
    v.blind = {k for k, f in fns.items() if not k.startswith("C:") and not f["contract"] and not f["auto"] and k not in bf and k in o.body and not k.startswith("scenario::")}
    # failures
    v.fail = []
    for d in diags:
        holder = None
        tags = []
        for sp in sorted(d["spans"], key=lambda s: not s["is_primary"]):
            if not sp["file_name"].endswith("out.rs"):
                continue
            tags += o.tags(sp["line_start"], sp["line_end"])
        prim = [sp for sp in d["spans"] if sp["file_name"].endswith("out.rs")]
        # the function whose body is being verified: for a postcondition the exit point, for a precondition the call
        cand = [sp for sp in prim if not (sp.get("label") or "").startswith("failed this")] or prim
        for sp in cand:
            if sp["line_start"] < len(o.fn) and o.fn[sp["line_start"]]:
                holder = o.fn[sp["line_start"]]
                break
        lab = set()
        if holder:
            hk = base_key(holder)
            own = fnlabels.get(hk, set())
            if "postcondition" in d["message"]:
                for kind, t_ in tags:
                    p = t_.split("|")
                    lab |= set(labels_of(p[2]) if len(p) > 2 else [])
                if not lab:
                    lab |= set(labels_of(fns.get(hk, {}).get("def", ""))) or set(labels_of(holder.split("|")[1] if "|" in holder else ""))
                if hk.startswith("scenario::"):
                    lab |= own
            elif "assertion" in d["message"] and any(re.search(r"\|c\d+\|.", t_) for _, t_ in tags):
                # an obligation at a call: what the contract says it is about
                for _, t_ in tags:
                    lab |= set(labels_of(t_.split("|")[2]))
            else:
                lab |= own
        else:
            hk = None
        why = ""
        f = fns.get(hk) if hk else None
        if "Resource limit" in d["message"] or "rlimit" in d["message"]:
            why = "solver resource limit"
        elif hk is None:
            why = "not inside a translated function"
        elif f is not None and hk in bf and f["shape"] != bf[hk]["shape"]:
            why = "the loop is not the one its invariant was written for"
        elif f is not None and hk in v.weak:
            why = v.weak[hk]
        elif v.blind & v.graph.get(hk, set()):
            why = "calls new code without a contract: " + ", ".join(sorted(v.blind & v.graph.get(hk, set())))
        v.fail.append({"message": d["message"], "function": hk, "labels": sorted(lab), "clauses": [t_ for _, t_ in tags], "soft": why, "rendered": d.get("rendered", "")[:3000]})
    if v.fail and left(1000) > 250:
        again(v, res)
    return v


def timed(res):
    """(module, function, verified) for everything the verifier gave to the solver"""
    r = []

    def w(x):
        if isinstance(x, dict):
            if "rlimit" in x and "function" in x:
                r.append((x["function"].split("::", 1)[-1], x.get("success")))
            for y in x.values():
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    w(res.get("times-ms", {}))
    return r


def again(v, res):
    """an answer of "not proved" can be the solver's search going astray: ask again, function by function, from other seeds. A proof
    found from any seed is a proof"""
    failing = [f for f, ok in timed(res) if ok is False]
    if not failing or len(failing) > 6:
        return
    # the path of modules is what the translated text declares
    text = "\n".join(v.o.lines)
    declared = set(re.findall(r"\bmod (\w+)", text))

    def split(f):
        seg = f.split("::")
        i = 0
        while i < len(seg) - 1 and seg[i] in declared:
            i += 1
        return "::".join(seg[:i]), "::".join(seg[i:])

    def one(a):
        f, seed = a
        mod, name = split(f)
        where = ["--verify-only-module", mod] if mod else ["--verify-root"]
        rc, r, ds, raw, t = verus(v.out, [*where, "--verify-function", name, "--smt-option", f"smt.random_seed={seed}"], timeout=200)
        ok = [b for g, b in timed(r) if g == f]
        return f, bool(ok) and all(ok) and not ds and r.get("verification-results", {}).get("errors") == 0
    with cf.ThreadPoolExecutor(6) as ex:
        good = {f for f, ok in ex.map(one, [(f, s) for f in failing for s in (0, 1, 2)]) if ok}
    last = lambda k: re.split(r"::|:", k)[-1]
    bad = {last(f) for f in failing if f not in good}
    drop = [x for x in v.fail if x["function"] and last(x["function"]) in {last(f) for f in good} - bad]
    if drop:
        v.log.append({"round": -2, "rejected": "proved when asked again from another seed", "function": sorted({x["function"] for x in drop})})
        v.fail = [x for x in v.fail if x not in drop]


def canary(work, out):
    """a proof of false from every axiom in scope must not go through"""
    p = work + "/canary.rs"
    s = open(out).read()
    i = s.rindex("\n} // verus!")
    s = s[:i] + "\nmod vx_canary { use vstd::prelude::*; pub proof fn vx_canary() { broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, crate::vxc::vxc}; assert(false); } }\n" + s[i:]
    open(p, "w").write(s)
    rc, so, se, t = sh(["verus", "canary.rs", "--verify-only-module", "vx_canary", "--output-json"], cwd=work, timeout=300)
    try:
        vr = json.loads(so)["verification-results"]
        return vr["verified"] == 0 and vr["errors"] == 1
    except Exception:
        return None


def sanity(work, engine, exp):
    """`assert(false)` at the end of every translated function must fail: no contract is contradictory"""
    out, mp = work + "/sanity.rs", work + "/sanity.json"
    sh([engine, exp, HERE + "/contracts", HERE + "/shim", out, mp, "--sanity"], timeout=120)
    n = open(out).read().count("//@SANITY") or open(out).read().count("assert(false)")
    rc, res, diags, raw, t = verus(out, timeout=800)
    bad = [d for d in diags if "assertion failed" in d["message"]]
    return n, len({(s["line_start"]) for d in bad for s in d["spans"]}), t


TRUST_RE = re.compile(r"external_body|\baxiom fn\b|\bassume_specification\b|\bassume\(|\badmit\(")


def trusted(o, v):
    """mechanical scan of the verified text for everything it takes on trust"""
    ax = [l.strip() for l in o.lines if re.search(r"\baxiom fn\b", l)]
    names = [re.search(r"axiom fn (\w+)", a).group(1) for a in ax if re.search(r"axiom fn (\w+)", a)]
    ext = 0
    per = {}
    cur = "?"
    asm = 0
    for l in o.lines:
        mb = re.match(r"//@B (\S+)", l)
        if mb:
            cur = mb.group(1)
        if l.startswith("//@b"):
            cur = "translated"
        n = len(re.findall(r"external_body", l))
        if n:
            ext += n
            per[cur] = per.get(cur, 0) + n
        asm += len(re.findall(r"\bassume\(|\badmit\(", l))
    return names, per, asm


# ---------------------------------------------------------------- known findings
def known():
    r = []
    p = HERE + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) where=(\S+) match=(.*)$", l.strip())
            if m:
                r.append(m.groups())
    return r


# ---------------------------------------------------------------- one check
def check(prop, tier):
    t0 = time.time()
    DEADLINE[0] = t0 + (7200 if tier == "thorough" else 780)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"run-{prop}-", dir=BUILD)
    try:
        return check_in(work, prop, tier, thorough, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def features(work, engine, exp, alt, always):
    """the other feature sets: their translation has to consist of lines the verified one has; what differs is verified on its own"""
    r = {}

    def tr(src, name):
        out = work + f"/feat-{name}.out"
        rc, so, se, _ = sh([engine, src, HERE + "/contracts", HERE + "/shim", out, out + ".json"], timeout=120)
        if rc:
            raise Err("translation failed: " + (se or so)[-300:])
        return [l.strip() for l in open(out) if l.strip() and not l.startswith("//@")]
    for ft, x in alt.items():
        try:
            x.result()
            full = set(tr(exp, "full"))
            new = [l for l in tr(work + f"/{ft}.rs", ft) if l not in full]
            r[ft] = {"lines_not_in_the_verified_text": len(new), "fail": []}
            if new or always:
                w2 = work + "/" + ft
                os.makedirs(w2, exist_ok=True)
                v2 = analyse(w2, engine, work + f"/{ft}.rs")
                r[ft].update(verified=v2.vr.get("verified"), errors=v2.vr.get("errors"), missing=len(v2.m["missing"]), fail=v2.fail, weak=sorted(v2.weak))
        except Exception as e:
            r[ft] = {"undecided": str(e)[:300], "fail": []}
    return r


def check_in(work, prop, tier, thorough, seed, t0):
    need_lock()
    lits = work + "/lits.json"
    literals(lits)
    exp = work + "/expanded.rs"

    def prove():
        with cf.ThreadPoolExecutor(4) as ex:
            e = ex.submit(build_engine)
            x = ex.submit(expand, exp)
            alt = {ft: ex.submit(expand, work + f"/{ft}.rs", ft) for ft in FEATURES if ft != "full"}
            engine = e.result()
            x.result()
            fs = ex.submit(features, work, engine, exp, alt, thorough)
            v = analyse(work, engine, exp)
            v.feats = fs.result()
        v.engine = engine
        return v

    def bounded():
        exe = build_harness()
        return exe, run_harness(exe, work + "/h.json", seed, 3, lits, props=prop)

    ver = har = exe = None
    verr = herr = None
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(prove), ex.submit(bounded)
        try:
            ver = a.result()
        except Err as e:
            verr = str(e)
        except Exception as e:  # a fault of this program decides nothing
            verr = "the driver failed: " + traceback.format_exc()[-1500:]
        try:
            exe, har = b.result()
        except Err as e:
            herr = str(e)
        except Exception as e:
            herr = "the driver failed: " + traceback.format_exc()[-1500:]
    if verr and "does not compile" in verr:
        print(verr)
        return 2
    extra = []
    # what of this property's proof is missing
    direct, soft, weak = [], [], {}
    clos = set()
    nobl = ndis = 0
    ownclauses = depclauses = {}
    if ver:
        roots = {k for k, ls in ver.fnlabels.items() if prop in ls}
        clos = closure(ver.graph, roots)
        ownclauses = {k: x for k, x in ver.clauses.items() if prop in x[1]}
        depclauses = {k: x for k, x in ver.clauses.items() if prop not in x[1] and x[0] in clos}
        failed_tags = {(t_, f["function"]) for f in ver.fail for t_ in f["clauses"]}
        for f in ver.fail:
            if prop in f["labels"]:
                (soft if f["soft"] else direct).append(f)
            elif f["function"] is None or f["function"] in clos:
                soft.append(dict(f, soft=f["soft"] or "a contract this property's proof relies on is not discharged"))
        for k, w in ver.weak.items():
            kk = k[2:] if k.startswith("C:") else k
            labs = set()
            for l in (ver.fns.get(k, {}).get("labels") or []):
                labs |= set(labels_of(l))
            labs |= set(labels_of(ver.fns.get(k, {}).get("def", "")))
            if kk in clos or k in clos or prop in labs or prop in ver.gone.get(k, ()):
                weak[k] = w
        bodies = {k for k in clos if k in ver.o.body}
        badfn = {f["function"] for f in ver.fail} | set(ver.weak)
        allc = list(ownclauses.items()) + list(depclauses.items())
        nobl = len(allc) + len(bodies)
        ndis = sum(1 for (kind, tag, holder), _ in allc if (tag, holder) not in failed_tags and holder not in ver.weak) + sum(1 for b in bodies if b not in badfn)
    if ver:
        seen = {(f["function"], f["message"]) for f in ver.fail}
        for ft, x in ver.feats.items():
            for f in x.pop("fail"):
                if prop in f["labels"] and (f["function"], f["message"]) not in seen:
                    (soft if f["soft"] else direct).append(dict(f, message=f["message"] + f" (feature set {ft})"))
            if "undecided" in x and not verr:
                soft.append({"message": f"feature set {ft} is undecided: {x['undecided']}", "function": None, "labels": [prop], "clauses": [], "soft": x["undecided"], "rendered": ""})
    proved = ver is not None and not direct and not soft and not weak and nobl > 0
    trouble = not proved
    viol = []
    if har and har.get("crash"):
        herr = "the harness ended early: " + har["crash"]
    if har:
        viol = [f for f in har["failures"] if prop in f["properties"]]
    runs = [har] if har else []
    can = san = None
    fut = []
    if exe and not viol and (trouble or thorough):
        # the proof does not decide it (or time allows): explore much further
        for i, (sc, to) in enumerate([(12, 150), (40, 300)] if not thorough else [(40, 600), (120, 1200), (120, 1200)]):
            if left(1000) < 60:
                break
            h = run_harness(exe, work + f"/h{i}.json", seed + 1000 * (i + 1), sc, lits, props=prop, timeout=left(to))
            runs.append(h)
            viol = [f for f in h["failures"] if prop in f["properties"]]
            if viol:
                break
    notes = []
    if ver and not viol and not direct:
        can = canary(work, ver.out)
        if can is False:
            verr = "the axioms in scope are contradictory: a proof of false went through"
            proved = False
    if thorough and ver:
        san = sanity(work, ver.engine, exp)
    if ver:
        notes.append({"feature_sets": ver.feats})
    kn = known()
    rep = None
    out_lines = []
    status = 0
    unlisted = []
    for f in viol:
        w = f"{f['suite']}/{f['check']}"
        hit = [k for k in kn if k[0] == prop and k[1] == w and k[2] in f["message"]]
        if hit:
            line = f"KNOWN-FINDING: property={prop} {w}: {hit[0][2]}"
            if line not in out_lines:
                out_lines.append(line)
        else:
            unlisted.append(f)
    rp = HERE + f"/evidence/replay/{prop}.json"
    if os.path.exists(rp):
        os.remove(rp)
    if unlisted:
        f = unlisted[0]
        lj = json.load(open(lits))
        json.dump({"property": prop, "kind": "input", "case": f"{f['suite']}/{f['check']}/{f['index']}", "seed": f["seed"], "input": f["input"], "what": f["message"], "literals": lj,
                   "failed_obligations": direct + soft, "more_inputs": unlisted[1:6], "rerun": f"python3 vx.py replay evidence/replay/{prop}.json"}, open(rp, "w"), indent=1)
        out_lines.append(f"{prop}: {f['suite']}/{f['check']}/{f['index']}: {f['message'][:300]}")
        out_lines += [f"  obligation {d['function']}: {d['message']} [{'; '.join(d['clauses'])}]" for d in direct[:4]]
        out_lines.append(f"VIOLATION property={prop} replay={rp}")
        status = 1
    elif direct:
        json.dump({"property": prop, "kind": "obligation", "failed_obligations": direct, "also_undischarged": soft, "verifier_output": [d["rendered"] for d in direct],
                   "searched": {"cases": sum(h["cases"] for h in runs), "note": "the bounded harness found no failing input"}, "rerun": f"python3 vx.py replay evidence/replay/{prop}.json"}, open(rp, "w"), indent=1)
        for d in direct[:6]:
            out_lines.append(f"{prop}: obligation of {d['function']} failed: {d['message']} [{'; '.join(d['clauses'])}]")
        out_lines.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        status = 1
    elif herr and not proved:
        out_lines.append(f"{prop}: undecided: {verr or [f['soft'] for f in soft][:2] or weak}; {herr}")
        status = 2
    else:
        how = "every obligation discharged" if proved and not verr else "undecided by the verifier, decided by the bounded harness only"
        out_lines.append(f"{prop}: held: {how}; obligations {ndis}/{nobl}; harness cases {sum(h['cases'] for h in runs)}")
    ax, per, asm = trusted(ver.o, ver) if ver else ([], {}, 0)
    kinds = {}
    if ver:
        for k in clos:
            f = ver.fns.get(k)
            if f and not k.startswith("C:"):
                kinds.setdefault("contract" if f["contract"] else "generated contract" if f["auto"] else "verified in place, no contract", []).append(k)
    own = sorted({x[0] for x in ownclauses.values()}) if ver else []
    ass = [
        f"{len(ax)} axioms about dependencies and mathematics in shim/*.rs (group laws, hashes as uninterpreted functions, encodings' injectivity and canonicity, RNG as a stream): not verified",
        f"external bodies (std and dependency functions taken by contract): {per}; assume/admit in the verified text: {asm}",
        "the translation from rustc's macro-expanded source to Verus input is trusted (rules in evidence; DESIGN.md states what it drops)",
        "machine arithmetic is checked for overflow by Verus, not treated as mathematical; usize is 64 bits",
        "Debug/Eq derives and zeroize internals of the dependencies are outside the proof; the harness exercises them within its bound",
        "serde: a data format writes what serialize_field/serialize_newtype_struct is given, hands a struct to the visitor's visit_seq, visit_map or visit_newtype_struct, and each element or entry to one deserialize call (shim/10_ext.rs, mod serde); a map key reaches the derived field visitor as a string or an index (both verified) or as bytes (visit_bytes, on trust)",
        "side channels and compiler-induced copies of secrets are not modelled",
    ]
    if verr:
        ass.append("verifier: " + verr[:500])
    if herr:
        ass.append("harness: " + herr[:500])
    cov = {
        "obligations": nobl, "discharged": ndis, "checker_cmd": "verus out.rs --multiple-errors 8 --output-json --time  (out.rs = translation of /repo/src by engine/, contracts/, shim/, regenerated on this run)",
        "trusted_base": ["verus " + (subprocess.run(["verus", "--version"], capture_output=True, text=True).stdout.split("Version:")[-1].split("\n")[0].strip()), "z3 (Verus back end)", "rustc -Zunpretty=expanded", "engine/ (translator)", "shim/*.rs (contracts of std and of the dependencies)"] + ["axiom " + a for a in ax],
        "own_obligations": sorted(t_ for (_, t_, _h) in ownclauses) if ver else [], "own_functions": own, "functions_under_contract": kinds,
        "verus_units": ver.vr if ver else None, "verus_wall_s": round(ver.wall, 1) if ver else None, "solver_ms": ver.smt_ms if ver else None, "back_end": "Verus/Z3", "helpers_substituted": ver.inlined if ver else [], "contracts_moved": ver.alias if ver else {},
        "translation_rules_applied": ver.m["rules"] if ver else None, "taken_out_of_reach": ver.opts if ver else None,
        "undischarged": [{k: f[k] for k in ("function", "message", "clauses", "soft")} for f in direct + soft], "not_verified_functions": weak,
        "decided_by": "verifier" if proved and not verr else "bounded harness", "vacuity_canary_rejected": can, "sanity": {"asserted_false": san[0], "rejected": san[1]} if san else None,
        "bounded_harness": {"label": "bounded", "evaluations": sum(h["cases"] for h in runs), "distinct_nontrivial": sum(h["distinct"] for h in runs), "assertions_of_this_property": sum(h["assertions"].get(prop, 0) for h in runs),
                            "rule": "cases drawn per (suite, check, seed, index): structured lengths and contents plus the source's own literals, five suites (toy group of order 251, ristretto255, P-256, P-384, P-521) against an independent RFC 9497 oracle; distinct = distinct recorded inputs",
                            "samples": (runs[0]["samples"] if runs else [])[:3], "wall_s": round(sum(h["wall"] for h in runs), 1)},
        "notes": notes,
    }
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - t0, 1), "violations": len(unlisted) or len(direct)}
    json.dump(ev, open(HERE + f"/evidence/{prop}.json", "w"), indent=1)
    print("\n".join(out_lines))
    return status


def replay(path):
    r = json.load(open(path))
    print(f"property {r['property']}: {r['kind']}")
    if r["kind"] == "input":
        exe = build_harness()
        d = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
        lits = d + "/lits.json"
        json.dump(r["literals"], open(lits, "w"))
        h = run_harness(exe, d + "/h.json", r["seed"], 1, lits, props=r["property"], only=r["case"])
        shutil.rmtree(d)
        for f in h["failures"]:
            print(f"{f['suite']}/{f['check']}/{f['index']}: {f['message']}\n  input: {f['input']}")
        print("still fails" if h["failures"] else "does not fail on the current tree")
        return 1 if h["failures"] else 0
    for x in r["verifier_output"]:
        print(x)
    return check(r["property"], "quick")


def setup():
    os.makedirs(BUILD, exist_ok=True)
    need_lock()
    with cf.ThreadPoolExecutor(3) as ex:
        w = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
        fs = [ex.submit(build_engine), ex.submit(build_harness)] + [ex.submit(expand, w + f"/{ft}.rs", ft) for ft in FEATURES]
        for f in fs:
            f.result()
        shutil.rmtree(w)


def survey():
    """development aid: every property against the current tree with one verifier run and one harness run"""
    need_lock()
    os.makedirs(BUILD, exist_ok=True)
    w = tempfile.mkdtemp(prefix="survey-", dir=BUILD)
    literals(w + "/lits.json")
    ver = har = None
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            def prove():
                eng = build_engine()
                expand(w + "/x.rs")
                return analyse(w, eng, w + "/x.rs")

            def bounded():
                return run_harness(build_harness(), w + "/h.json", 1, int(os.environ.get("SCALE", "3")), w + "/lits.json")
            a = ex.submit(prove)
            b = None if os.environ.get("NOHARNESS") else ex.submit(bounded)
            try:
                ver = a.result()
            except Err as e:
                print("VERIFIER:", e)
            try:
                har = b.result() if not os.environ.get("NOHARNESS") else None
            except Err as e:
                print("HARNESS:", e)
        if ver:
            for f in ver.fail:
                print("FAIL", f["function"], "|", f["message"], "|", ",".join(f["labels"]), "|", f["clauses"], "|", f["soft"])
            print("WEAK", ver.weak, "OPTS", ver.opts, "BLIND", sorted(ver.blind), ver.log[:4])
        if har:
            seen = {}
            for f in har["failures"]:
                seen.setdefault((f["message"][:80], ",".join(f["properties"])), []).append(f"{f['suite']}/{f['check']}/{f['index']}")
            for k, x in list(seen.items())[:12]:
                print("INPUT", k, len(x), x[0])
            if har.get("crash"):
                print("CRASH", har["crash"])
        d = sorted({l for f in (ver.fail if ver else []) for l in f["labels"] if not f["soft"]})
        i = sorted({p for f in (har["failures"] if har else []) for p in f["properties"]})
        print("SUMMARY proof-alarms", d, "inputs", i)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def baseline():
    os.makedirs(BUILD, exist_ok=True)
    w = tempfile.mkdtemp(prefix="base-", dir=BUILD)
    eng = build_engine()
    expand(w + "/x.rs")
    v = analyse(w, eng, w + "/x.rs")
    r = {}
    for f in v.m["functions"]:
        if not f["key"].startswith("C:"):
            r[f["key"]] = {"shape": f["shape"]}
    json.dump({"functions": r}, open(HERE + "/baseline.json", "w"), indent=1, sort_keys=True)
    print(len(r), "functions;", v.vr, "failures", [(f["function"], f["message"]) for f in v.fail], "weak", v.weak)
    shutil.rmtree(w)


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        setup()
        return 0
    if a[:1] == ["survey"]:
        survey()
        return 0
    if a[:1] == ["baseline"]:
        baseline()
        return 0
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        try:
            return check(a[1], tier)
        except Exception as e:
            print("error:", e if isinstance(e, Err) else traceback.format_exc())
            return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
