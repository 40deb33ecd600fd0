#!/usr/bin/env python3
"""Simulation of the in-place maintenance tools (property C13).

The real tools run in a real Python process whose file operations below a scratch directory all pass through tools/shim.c:
each is numbered and a seeded plan decides what becomes of it (kill before/after/in the middle, power loss, short write,
I/O error, full disk, interrupted call, listing order).  usage: toolsim.py check | replay FILE | show INDEX
"""
import hashlib, json, multiprocessing, os, random, re, shutil, stat, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HOME = os.environ.get("MXSIM_HOME", os.path.dirname(HERE))
REPO = os.environ.get("MXSIM_REPO", "/repo")
KILL_BEFORE, KILL_AFTER, TORN_KILL, SHORT, ERR, FULL, EINTR, POWER = range(1, 9)
NAMES = {1: "killed_before_operation", 2: "killed_after_operation", 3: "torn_write_then_killed", 4: "short_read_or_write", 5: "io_error", 6: "disk_full", 7: "interrupted_call", 8: "power_loss"}
MUTATING = ("OPEN", "WRITE", "RENAME", "UNLINK", "CHMOD", "TRUNC", "SYNC", "MKDIR", "RMDIR", "LINK", "SYMLINK")

# ------------------------------------------------------------------ defects recorded in known_findings.txt
def known():
    """sig -> text of the listed defects of C13 that are not repaired."""
    k = {}
    for l in open(os.path.join(os.path.dirname(HERE), "known_findings.txt")):
        m = re.match(r"known: property=C13 sig=(\S+) (.*)", l)
        if m: k[m[1]] = m[2]
    return k
KNOWN = known()
# 1. json_semi_beautifier.py opens its file for writing at once, so that a run that dies leaves a piece of the new content
KNOWN_TORN = "C13/beautifier-torn"
# 2. json_semi_beautifier.py writes keys unescaped
KNOWN_KEYS = "C13/beautifier-keys"
ODD_KEYS = [] if KNOWN_KEYS in KNOWN else ["q\"uote", "back\\slash", "tab\t"]

# ------------------------------------------------------------------ fixtures
CORE = ["ReportEntry101", "EntryDetails91", "EntryTransaction101", "TransactionParties61", "PartyIdentification1351", "AccountReport25", "AccountStatement9",
        "CashEntry7", "PaymentTransaction110", "ChargeDetails2", "Amount1", "Code3Choice", "RelatedParties12", "Node0", "Node1", "Node2", "Node3", "Node4", "Node5", "Leaf", "Max35Text", "String", "bool", "f64"]
def rust_file(r, k):
    out = ["// Plasmatic MX Message Parsing Library\n\nuse crate::common::*;\nuse serde::{Deserialize, Serialize};\n"]
    names = r.sample([c for c in CORE if c not in ("String", "bool", "f64")], r.randint(1, 8))
    for n in names:
        out.append(f"\n// {n}: {r.choice(['Set of elements', 'naïve — text', 'x'])}\n#[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]\npub struct {n} {{\n")
        for i in range(r.choice([0, 1, 2, 3, 5, 9, 10, 12])):
            # as in the message schemas, no structure contains itself
            t = f"Node{int(n[4]) + 1}" if n.startswith("Node") and n[4] < "5" and i == 0 else r.choice(CORE[CORE.index(n) + 1:] or ["String"])
            t = r.choice(["{}", "Option<{}>", "Vec<{}>", "Option<Vec<{}>>", "Vec<Box<{}>>", "Option<Vec<Box<{}>>>", "Box<{}>"] if r.random() < .3 else ["{}", "Option<{}>", "Vec<{}>", "Option<Vec<{}>>"]).format(t)
            if r.random() < .7: out.append(f"\t#[serde(rename = \"F{i}\", skip_serializing_if = \"Option::is_none\")]\n")
            out.append(f"\tpub f{i}: {t},\n")
        out.append("}\n")
        if r.random() < .5: out.append(f"\nimpl {n} {{\n\tpub fn validate(&self) -> Result<(), ValidationError> {{\n\t\tOk(())\n\t}}\n}}\n")
    if r.random() < .1: out.append("/* " + "pad " * r.choice([3000, 40000]) + "*/\n")
    return "".join(out)
def json_value(r, d):
    x = r.random()
    if d > 5 or x < .3: return r.choice([0, -1, 1.5, 1e300, 12345678901234567890, True, False, None, "", "text", "naïve 日本 😀", "a\"b\\c\n", "x" * 90, {"var": "a"}, {}, []])
    if x < .45: return {r.choice(["if", "and", "or", "==", "var", "cat"]): [json_value(r, d + 1) for _ in range(r.randint(0, 5))]}
    if x < .75: return {r.choice(ODD_KEYS + ["k", "key", "a b", "Zé", "日本", "", "if", "name", "MsgId", "schema", "/", "\u2028"]) + (str(i) if i else ""): json_value(r, d + 1) for i in range(r.randint(0, 7))}
    return [json_value(r, d + 1) for _ in range(r.randint(0, 6))]
def repo_files(kind):
    base, pat = (os.path.join(REPO, "src", "document"), ".rs") if kind != "json" else (os.path.join(REPO, "test_scenarios"), ".json")
    out = []
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(pat) and f != "mod.rs" and os.path.getsize(p) < 120000: out.append(p)
    return out
def fixture(p):
    """Relative path -> (content, mode) or ('->', target)."""
    r = random.Random(p["fseed"]); f = {}
    real = repo_files(p["tool"])
    if p["tool"] != "json":
        f["src/mod.rs"] = ("pub mod a;\n// pub struct Leaf { pub f: Vec<ReportEntry101>, }\n", 0o644)
        f["src/notes.txt"] = ("pub struct Leaf { pub f: Vec<ReportEntry101>, }\n", 0o644)
        for k in range(p["nfiles"]):
            n = f"src/{r.choice(['camt', 'pacs', 'pain'])}_{r.randint(0, 99):03}_001_{k:02}.rs"
            f[n] = (rust_file(r, k), r.choice([0o644, 0o600, 0o664, 0o755]))
        if real and r.random() < .3:
            # the real files, boxed as they are or as they come out of the generator
            strip = r.random() < .4
            for k in list(f):
                if managed_name(k): del f[k]
            for q in r.sample(real, min(len(real), p["nfiles"])):
                c = open(q, encoding="utf-8").read()
                f["src/" + os.path.basename(q)] = (strip_box(c.encode()) if strip else c, r.choice([0o644, 0o600]))
        if p["tool"] == "common":
            # no module file yet, or one with what was moved there before
            x = r.random()
            if x < .3: del f["src/mod.rs"]
            elif x < .6: f["src/mod.rs"] = (rust_file(r, 9), r.choice([0o644, 0o600]))
        f["box-config.json"] = (open(os.path.join(REPO, "box-config.json")).read() if os.path.exists(os.path.join(REPO, "box-config.json")) else "{}", 0o644)
        if r.random() < .15: f["elsewhere.txt"] = (rust_file(r, 9), 0o640); f["src/zz_link.rs"] = ("->", "../elsewhere.txt")
    else:
        f["README.md"] = ("keep\n", 0o644)
        for k in range(p["nfiles"]):
            n = f"{r.choice(['a', 'b', 'pacs008'])}/s{k}.json"
            x = r.random()
            if real and x < .2: c = open(r.choice(real), encoding="utf-8").read()
            elif x < .27: c = r.choice(["{\"a\": ", "", "not json", "{\"a\": 1} trailing", "[1, 2"])
            else: c = json.dumps(json_value(r, 0), ensure_ascii=r.random() < .5, indent=r.choice([None, 2]))
            if r.random() < .1: c = json.dumps({"pad": ["y" * 70] * r.choice([300, 2000]), "v": json_value(r, 0)})
            f[n] = (c, r.choice([0o644, 0o600, 0o664, 0o755]))
        if r.random() < .15: f["elsewhere.txt"] = (json.dumps(json_value(r, 0)), 0o640); f["a/zz_link.json"] = ("->", "../elsewhere.txt")
    if p.get("files"): f = {k: (c, 0o644) for k, c in p["files"].items()}
    keep = p.get("keep")
    return {k: v for k, v in f.items() if keep is None or k in keep or not managed_name(k, p["tool"]) or k == "src/mod.rs"}
def managed_name(k, kind="box"): return (k.endswith(".rs") and not k.endswith("mod.rs")) or (k.endswith(".json") and k != "box-config.json") or (kind == "common" and k == "src/mod.rs")
def defined(t):
    """The types defined in a tree."""
    return {n for k, (c, _) in t.items() if c != "->" and k.endswith(".rs") for n in re.findall(r"^pub (?:struct|enum) (\w+) \{", c.decode("utf-8", "replace"), re.M)}
def command(p, root, fx):
    r = random.Random(p["fseed"] ^ 77)
    rel = p["relative"]
    if p["tool"] == "box":
        a = [os.path.join(REPO, "apply-box-wrapping.py"), "src/" if rel else os.path.join(root, "src")]
        x = r.random()
        if x < .4: a += ["--config", "box-config.json"]
        elif x < .6: a += ["--min-fields", str(r.choice([1, 3, 5]))]
        elif x < .7: a += ["--max-depth", str(r.choice([1, 2]))]
        if r.random() < .2: a.append("--verbose")
        return a
    if p["tool"] == "common": return [os.path.join(REPO, "generate-common.py"), "src/" if rel else os.path.join(root, "src")] + (["1"] if r.random() < .2 else [])
    fs = [k for k in fx if k.endswith(".json")]
    r2 = random.Random(p["argseed"]); r2.shuffle(fs)
    if r.random() < .1: fs.insert(len(fs) // 2, "missing.json")
    if fs and r.random() < .1: fs.append(fs[0])
    a = [os.path.join(REPO, "test_scenarios", "json_semi_beautifier.py")] + [f if rel else os.path.join(root, f) for f in fs] + [r.choice(["-i", "--in-place"])]
    if r.random() < .3: a += ["--max-inline-length", str(r.choice([20, 200])), "--indent", str(r.choice([1, 2]))]
    return a

# ------------------------------------------------------------------ running
def put(root, fx):
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    for k, (c, m) in fx.items():
        q = os.path.join(root, k); os.makedirs(os.path.dirname(q), exist_ok=True)
        if c == "->": os.symlink(m, q)
        else:
            with open(q, "w", encoding="utf-8", newline="") as f: f.write(c)
            os.chmod(q, m)
def tree(root):
    t = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            q = os.path.join(d, f); k = os.path.relpath(q, root)
            if os.path.islink(q): t[k] = ("->", os.readlink(q))
            else:
                with open(q, "rb") as h: t[k] = (h.read(), stat.S_IMODE(os.stat(q).st_mode))
    return t
class Trouble(Exception): pass
def tool(cmd, root, shim, log, faults, dirseed, hashseed):
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LD_PRELOAD": shim, "TS_ROOT": root, "TS_LOG": log, "TS_PLAN": ",".join("%d:%d:%d" % tuple(f) for f in faults),
           "TS_DIRSEED": str(dirseed), "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "HOME": root, "LC_ALL": "C.UTF-8", "TS_ENTROPY": str(hashseed + 1)}
    try: x = subprocess.run([sys.executable, "-B"] + cmd, cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired: return "hang", [], ""
    try: lines = [l.rstrip("\n").split("\t") for l in open(log, errors="replace")]
    except OSError: lines = []
    ops = []
    for l in lines:
        if len(l) != 5: continue
        ops.append((int(l[0]), l[1], int(l[2]), l[3], l[4]))
    return x.returncode, ops, x.stdout.decode(errors="replace")
def power_loss(root, ops, before, r):
    """Un-synced data and un-synced renames of the epoch may be gone.  Returns what was lost."""
    failed = {o[0] for o in ops if o[1] == "error"}
    last = max((o[0] for o in ops), default=0)
    dirty, renames, displaced = {}, [], {}
    for n, what, arg, a, b in ops:
        if n in failed or (n == last and any(o[1] in ("killed-before", "power-loss") for o in ops)): continue
        if what == "WRITE" or what == "TRUNC" or (what == "OPEN" and b == "trunc"): dirty[a] = True
        elif what == "SYNC":
            dirty.pop(a, None)
            renames = [x for x in renames if os.path.dirname(x[1]) != a]
        elif what == "RENAME":
            if a in dirty: dirty[b] = dirty.pop(a)
            else: dirty.pop(b, None)
            renames.append((a, b))
        elif what == "UNLINK": dirty.pop(a, None)
    lost = 0
    # the journal keeps the order of names: a suffix of the renames is undone
    if renames and r.random() < .5:
        k = r.randrange(len(renames))
        for a, b in reversed(renames[k:]):
            old = before.get(os.path.relpath(b, root))
            if not os.path.exists(b) or old is None or old[0] == "->" or [x[1] for x in renames].count(b) > 1: continue
            os.rename(b, a)
            with open(b, "wb") as f: f.write(old[0])
            os.chmod(b, old[1]); lost += 1
            if b in dirty: dirty[a] = dirty.pop(b)
    for a in sorted(dirty):
        if os.path.isfile(a) and r.random() < .8:
            n = os.path.getsize(a); m = r.choice([0, 0, r.randint(0, n), max(0, n - 1)])
            if m < n: os.truncate(a, m); lost += 1
    return lost
def strip_box(t): 
    t = t.decode("utf-8", "replace")
    while True:
        n = re.sub(r"\bBox<(\w+)>", r"\1", t)
        if n == t: return t
        t = n
def same_data(kind, old, new):
    if kind == "json":
        try: a = json.loads(old)
        except ValueError: return old == new
        try: b = json.loads(new)
        except ValueError: return False
        return json.dumps(a) == json.dumps(b)
    return strip_box(old) == strip_box(new)
def execute(p, work, st=None):
    """One simulated history.  Returns None or (signature, message)."""
    shim = p["_shim"]; fx = fixture(p); root = os.path.join(work, "t"); log = os.path.join(work, "log")
    def count(k, n=1):
        if st is not None: st["faults"][k] = st["faults"].get(k, 0) + n
    def ran(ops):
        if st is not None:
            st["processes"] += 1; st["operations"] += max((o[0] for o in ops), default=0)
            st["histories"].add(hashlib.sha1(repr([(o[1], o[2], os.path.relpath(o[3], root) if o[3] else "") for o in ops]).encode()).hexdigest()[:16])
    put(root, fx)
    cmd = command(p, root, fx)
    old = tree(root)
    # one uninterrupted run is the reference
    rc, ops, out = tool(cmd, root, shim, log, [], 0, 0)
    if rc == "hang": return "C13/hang", "the tool does not end"
    if not ops: raise Trouble(f"no file operation seen: {rc} {out[-400:]}")
    ran(ops)
    if any(o[1] == "refused" for o in ops): return "C13/outside", f"the tool tried to change {next(o[3] for o in ops if o[1] == 'refused')}"
    new = tree(root)
    ref_ops = ops
    for k in old:
        if k not in new: return "C13/lost", f"{k} is gone after an undisturbed run"
        if old[k][1] != new[k][1]: return "C13/mode", f"{k}: mode {old[k][1]} became {new[k][1]}"
        man = managed_name(k, p["tool"]) or k == "elsewhere.txt"
        if not man and new[k] != old[k]: return "C13/other-file", f"{k} was changed"
        if man and old[k][0] != "->" and p["tool"] != "common" and not same_data(p["tool"], old[k][0], new[k][0]): return "C13/data", f"{k}: the new content does not hold the same data"
    for k in new:
        if k not in old and not (p["tool"] == "common" and k == "src/mod.rs"): return "C13/left-over", f"{k} was left behind by an undisturbed run"
    if p["tool"] == "common" and defined(old) - defined(new): return "C13/data", f"an undisturbed run lost the definitions of {sorted(defined(old) - defined(new))}"
    nops = max(o[0] for o in ref_ops); mut = [o[0] for o in ref_ops if o[1] in MUTATING]
    put(root, fx)
    r = random.Random(p["fseed"] ^ 991)
    for e, ep in enumerate(p["epochs"]):
        before = tree(root)
        faults = []
        for sel, x, kind, arg in ep["faults"]:
            at = (mut[x % len(mut)] if sel and mut else 1 + x % (nops + 2))
            faults.append((at, kind, arg))
        rc, ops, out = tool(cmd, root, shim, log, faults, ep["dirseed"], ep["hashseed"])
        if rc == "hang": return "C13/hang", f"epoch {e}: the tool does not end"
        ran(ops)
        ended = {o[1] for o in ops}
        for f in faults:
            if any(o[0] == f[0] for o in ops): count(NAMES[f[1]])
        if "power-loss" in ended: count("unsynced_data_lost", power_loss(root, ops, before, r))
        what = "; ".join(f"{NAMES[k]} at operation {a}" + (f" ({next((o[1] + ' ' + os.path.relpath(o[3], root) for o in ops if o[0] == a and o[3]), '')})" if True else "") for a, k, _ in faults)
        if any(o[1] == "refused" for o in ops): return "C13/outside", f"the tool tried to change {next(o[3] for o in ops if o[1] == 'refused')}"
        now = tree(root)
        for k in old:
            if k not in now: return "C13/lost", f"{k} is gone after {what}"
            if p["tool"] == "json" and faults and KNOWN_TORN in KNOWN and not p.get("probe") and now[k][0] != old[k][0] and new[k][0].startswith(now[k][0]) and now[k][0] != new[k][0]:
                if st is not None: st["outcomes"]["known_torn_scenarios"] = st["outcomes"].get("known_torn_scenarios", 0) + 1
                return None
            if now[k][0] not in (old[k][0], new[k][0]): return "C13/torn", f"{k} is neither old nor new after {what}: {len(now[k][0])} bytes, old {len(old[k][0])}, new {len(new[k][0])}"
            if now[k][1] != old[k][1]: return "C13/mode", f"{k}: mode {old[k][1]:o} became {now[k][1]:o} after {what}"
        if p["tool"] == "common" and defined(old) - defined(now): return "C13/data", f"no file defines {sorted(defined(old) - defined(now))} after {what}"
        for k in now:
            if p["tool"] == "common" and k == "src/mod.rs":
                if k not in old and now[k] != new.get(k): return "C13/torn", f"{k} is not complete after {what}: {len(now[k][0])} bytes, new {len(new[k][0]) if k in new else 'none'}"
                continue
            if k not in old and managed_name(k): return "C13/left-over", f"{k} appeared after {what} and the tool would take it for one of its files"
    for again in range(2):
        rc, ops, out = tool(cmd, root, shim, log, [], p["final"][0] if not again else 0, p["final"][1])
        if rc == "hang": return "C13/hang", "run again, the tool does not end"
        ran(ops)
        now = tree(root)
        for k in set(old) | {k for k in now if managed_name(k, p["tool"])}:
            if now.get(k) != new.get(k):
                a, b = now.get(k), new.get(k)
                return "C13/rerun", f"{'run again' if not again else 'run twice again'}, {k} differs from one uninterrupted run" + (f" ({len(a[0])} bytes, mode {a[1]}; expected {len(b[0])}, mode {b[1]})" if a and b else "")
    if st is not None:
        st["outcomes"]["files_rewritten"] = st["outcomes"].get("files_rewritten", 0) + sum(old[k] != new[k] for k in old)
        st["outcomes"]["files_unchanged"] = st["outcomes"].get("files_unchanged", 0) + sum(old[k] == new[k] for k in old)
    return None
def plan(seed, idx):
    r = random.Random(f"C13/{seed}/{idx}")
    p = {"property": "C13", "index": idx, "tool": ("json", "box", "common")[idx % 3], "fseed": r.getrandbits(40), "nfiles": r.choice([1, 2, 3, 4, 6]), "relative": r.random() < .6, "argseed": r.getrandbits(20), "epochs": [], "final": [r.getrandbits(30), r.getrandbits(20)]}
    for _ in range(0 if idx % 10 == 9 else r.randint(1, 3)):
        fs = []
        for _ in range(r.choice([1, 1, 1, 2])):
            kind = r.choice([KILL_BEFORE, KILL_AFTER, TORN_KILL, TORN_KILL, SHORT, ERR, ERR, FULL, EINTR, POWER, POWER])
            arg = r.choice([5, 28, 122, 12, 13]) if kind == ERR else r.getrandbits(20)
            fs.append([int(r.random() < .75), r.getrandbits(20), kind, arg])
        p["epochs"].append({"faults": fs, "dirseed": r.getrandbits(30), "hashseed": r.getrandbits(20)})
    return p

# ------------------------------------------------------------------ search
def probes(shim, work):
    """Shows each listed defect on the real tool; a listed defect that is gone is not printed."""
    base = {"property": "C13", "index": -1, "tool": "json", "fseed": 1, "nfiles": 1, "relative": True, "argseed": 1, "epochs": [], "final": [0, 0], "_shim": shim}
    cases = {KNOWN_KEYS: ({**base, "files": {"a/s0.json": "{\"q\\\"uote\": [1, {\"b\": 2}, 3, 4, 5]}"}}, "C13/data"),
             KNOWN_TORN: ({**base, "probe": 1, "files": {"a/s0.json": "{\"a\": [1, 2]}"}, "epochs": [{"faults": [[1, 0, KILL_AFTER, 0]], "dirseed": 0, "hashseed": 0}]}, "C13/torn")}
    for sig, (q, want) in cases.items():
        if sig not in KNOWN: continue
        v = execute(q, work)
        if v and v[0] == want: print(f"KNOWN-FINDING: property=C13 {KNOWN[sig]}")
def fresh(): return {"runs": 0, "processes": 0, "operations": 0, "faults": {}, "outcomes": {}, "histories": set(), "cases": set(), "samples": []}
def worker(job):
    seed, k, w, runs, deadline, shim, work = job
    st = fresh(); found = None; trouble = None; os.makedirs(work, exist_ok=True)
    i = k
    while i < runs and time.time() < deadline and not os.path.exists(os.path.join(os.path.dirname(work), "stop")):
        p = plan(seed, i); p["_shim"] = shim
        try: v = execute(p, work, st)
        except Trouble as e: trouble = str(e); break
        del p["_shim"]
        st["runs"] += 1; st["cases"].add(hashlib.sha1(json.dumps({**p, "index": 0}, sort_keys=True).encode()).hexdigest()[:16])
        if not st["samples"] and i > 8: st["samples"].append(p)
        if v: found = (p, v); open(os.path.join(os.path.dirname(work), "stop"), "w").close(); break
        i += w
    return st, found, trouble
def minimise(p, v, shim, work, secs):
    t0 = time.time(); best = p; msg = v
    def attempt(q):
        nonlocal best, msg
        if q == best or time.time() - t0 > secs: return False
        try: x = execute({**q, "_shim": shim}, work)
        except Trouble: return False
        if x and x[0] == v[0]: best, msg = q, x; return True
        return False
    for _ in range(3):
        start = json.dumps(best)
        for e in reversed(range(len(best["epochs"]))):
            q = json.loads(json.dumps(best)); del q["epochs"][e]
            if attempt(q): continue
            for f in reversed(range(len(best["epochs"][e]["faults"]))):
                q = json.loads(json.dumps(best)); del q["epochs"][e]["faults"][f]; attempt(q)
            for key in ("dirseed", "hashseed"):
                q = json.loads(json.dumps(best)); q["epochs"][e][key] = 0; attempt(q)
        q = json.loads(json.dumps(best)); q["final"] = [0, 0]; attempt(q)
        for k in [k for k in fixture(best) if managed_name(k)]:
            q = json.loads(json.dumps(best)); q["keep"] = [x for x in fixture(best) if x != k]
            if q["keep"]: attempt(q)
        if json.dumps(best) == start: break
    return best, msg
def build_shim(work):
    so = os.path.join(work, "shim.so")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c"), "-ldl"], check=True)
    return so
def check():
    seed = int(os.environ.get("VERIF_SEED", "1")); tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    runs = int(os.environ.get("MXSIM_RUNS", 100000)); secs = float(os.environ.get("MXSIM_SECS", 60 if tier == "quick" else 600))
    t0 = time.time(); work = tempfile.mkdtemp(prefix="toolsim-")
    try:
        shim = build_shim(work)
        probes(shim, os.path.join(work, "probe"))
        n = len(os.sched_getaffinity(0))
        with multiprocessing.Pool(n) as pool:
            res = pool.map(worker, [(seed, k, n, runs, t0 + secs, shim, os.path.join(work, f"w{k}")) for k in range(n)], chunksize=1)
        st = fresh(); found = None; trouble = None
        for s, f, t in res:
            for k in ("runs", "processes", "operations"): st[k] += s[k]
            for d in ("faults", "outcomes"):
                for k, v in s[d].items(): st[d][k] = st[d].get(k, 0) + v
            st["histories"] |= s["histories"]; st["cases"] |= s["cases"]; st["samples"] += s["samples"][:1]
            if f and (found is None or f[0]["index"] < found[0]["index"]): found = f
            trouble = trouble or t
        wall = time.time() - t0
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        json.dump({"property": "C13", "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": int(found is not None),
            "coverage": {"evaluations": st["runs"], "distinct_nontrivial": len(st["cases"]),
                "rule": "one case = one seeded fixture tree, tool, argument list and 0-3 faulty executions (fault kind and operation chosen by the seed), followed by two undisturbed ones; distinct by plan; 1 in 10 is the fault-free control",
                "samples": st["samples"][:4], "runs_per_hour": int(st["runs"] / wall * 3600), "simulated_processes": st["processes"], "file_operations": st["operations"],
                "distinct_interleavings": len(st["histories"]), "interleaving_measure": "hash of the sequence of file operations and faults of one process",
                "faults_injected": st["faults"], "outcomes": st["outcomes"], "simulated_seconds": 0,
                "real_components": ["apply-box-wrapping.py", "generate-common.py", "test_scenarios/json_semi_beautifier.py", "CPython", "kernel file system in a scratch directory"],
                "stubs": ["fate of every file operation, directory order, entropy, hash seed (libc shim)", "loss of un-synced data and names after a power loss (driver)"]},
            "assumptions": ["file operations reach the kernel through libc", "power loss loses un-synced file data and a suffix of un-synced renames, nothing else"]},
            open(os.path.join(HOME, "evidence", "C13.json"), "w"), indent=1)
        if found:
            p, v = found
            print(f"violation: {v[0]} — {v[1]}")
            os.makedirs(os.path.join(work, "m"), exist_ok=True)
            p, v = minimise(p, v, shim, os.path.join(work, "m"), 40)
            d = os.path.join(HOME, "replays"); os.makedirs(d, exist_ok=True)
            t = json.dumps({"property": "C13", "violation": v[0], "message": v[1], "seed": seed, "plan": p}, indent=1)
            path = os.path.join(d, f"C13-{hashlib.sha1(t.encode()).hexdigest()[:16]}.json")
            with open(path, "w") as f: f.write(t)
            print(f"minimised: {v[1]}")
            print(f"VIOLATION property=C13 replay={path}")
            return 1
        if trouble or not st["runs"]: print(f"check could not finish: {trouble}", file=sys.stderr); return 3
        print(f"ok C13: {st['runs']} runs, {st['processes']} tool processes, {st['operations']} file operations, {wall:.0f} s")
        return 0
    finally: shutil.rmtree(work, ignore_errors=True)
def replay(path):
    d = json.load(open(path)); work = tempfile.mkdtemp(prefix="toolsim-")
    try:
        v = execute({**d["plan"], "_shim": build_shim(work)}, work)
        if not v: print("no violation"); return 0
        print(f"{v[0]}: {v[1]}"); print(f"VIOLATION property=C13 replay={path}"); return 1
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["check"]: sys.exit(check())
    if a[:1] == ["replay"]: sys.exit(replay(a[1]))
    if a[:1] == ["show"]:
        print(json.dumps(plan(int(os.environ.get("VERIF_SEED", "1")), int(a[1])), indent=1)); sys.exit(0)
    print(__doc__); sys.exit(2)
