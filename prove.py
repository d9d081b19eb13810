"""The deciding step: extract /repo/src, put the contracts of /verif/contracts on it, let Verus discharge every obligation.

prove(prop, ...) -> Proof; verdict is
  proved     every obligation of the functions the property depends on was discharged;
  failed     an obligation that states (part of) this property was refuted on code of the shape the contracts were written for;
  undecided  the contracts no longer fit the code (an anchor or loop is gone, an uncontracted helper appeared, a construct outside
             Verus's language, a resource limit): nothing is claimed by the prover, the bounded run alone decides.
"""
import json, os, re, resource, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract

MODULES = ["errors", "inputs::vertex_index", "inputs::vertex", "mappable", "inputs::polygon_list", "outputs", "fan_builder_state", "math", "monotone", "idx", "segment", "querynode", "trapezoid", "nexus", "trapezoidation"]
VC = ["prelude.vc", "outputs.vc", "monotone.vc", "trap.vc", "inputs.vc"]
SHAPES = os.path.join(HERE, "contracts", "shapes.json")

# the modules whose functions a property rests on
STRUCTURE = ["trapezoidation", "nexus", "segment", "querynode", "trapezoid", "idx"]
DEPS = {
 "C01": ["math", "monotone", "inputs", *STRUCTURE],
 "C02": ["math", "monotone", "outputs", "fan_builder_state", "inputs::vertex", "trapezoidation"],
 "C03": ["monotone", "outputs", "fan_builder_state", "inputs", "trapezoidation", "nexus"],
 "C04": ["errors", "outputs", "inputs", "fan_builder_state", "monotone", "math", *STRUCTURE],
 "C05": ["errors", "outputs", "fan_builder_state", "monotone", "trapezoidation"],
 "C06": ["outputs", "fan_builder_state", "monotone", "trapezoidation"],
 "C07": ["outputs", "fan_builder_state", "monotone", "trapezoidation"],
 "C08": ["inputs", "trapezoidation"], "C09": ["inputs", "mappable"], "C10": ["fan_builder_state", "trapezoidation"],
}
# what a refuted obligation without a tag of its own says, by module
DEFAULT = {"math": ["C01", "C02"], "monotone": ["C02", "C03"], "outputs": ["C06"], "fan_builder_state": ["C05"], "errors": ["C05"], "inputs": ["C08"], "mappable": ["C09"],
 "trapezoidation": ["C01"], "nexus": ["C01"], "segment": ["C01"], "querynode": ["C01"], "trapezoid": ["C01"], "idx": ["C04"]}
PANIC = ("possible arithmetic underflow/overflow", "possible division by zero", "unreachable", "decreases not satisfied", "index out of bounds")
TIMEOUT = 400

class Proof:
    def __init__(s):
        s.verdict, s.failed, s.output, s.coverage, s.assumptions, s.notes = "undecided", [], "", dict(obligations=0, discharged=0, checker_cmd="", trusted_base=[]), [], []

ASSUMED = [
 "Verus, rustc and Z3 are correct; the extraction rules of extract.py (DESIGN.md) preserve behaviour",
 "clone of an index, vertex or coordinate equals the original; == of an index type decides equality",
 "coordinate arithmetic does not panic; for the geometric clauses it is exact (stated as C::exact())",
 "SmallVec behaves as Vec; String formatting, Backtrace and error boxing have no effect on the result",
 "user-written builders, formats and polygon lists meet the trait contracts (those of the crate are proved to)",
]

class Run:
    """one Verus run over the whole extraction"""
    def __init__(s): s.ok, s.notes, s.lost, s.errs, s.funcs, s.bad, s.ext, s.msgs, s.cmd, s.wall = False, [], [], [], {}, {}, None, "", "", 0.0

def verus(path, extra=(), timeout=TIMEOUT):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "10", "--num-threads", "8", *extra, "--", "--error-format=json"]
    env = dict(os.environ); env.pop("RUSTFLAGS", None)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=os.path.dirname(path), preexec_fn=os.setsid)
    try: out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return cmd, None, []
    msgs = []
    for l in err.splitlines():
        if l.startswith("{"):
            try: msgs.append(json.loads(l))
            except ValueError: pass
    try: d = json.loads(out[out.index("{"):]) if "{" in out else {}
    except ValueError: d = {}
    return cmd, d, msgs

def regions(text):
    """[(start, end, path)] of the extracted functions, in bytes"""
    b = text.encode(); st, out = [], []
    for m in re.finditer(rb"/\*@F ([^*]+)\*/|/\*@E\*/", b):
        if m.group(1): st.append((m.start(), m.group(1).decode()))
        else: a, p = st.pop(); out.append((a, m.end(), p))
    return out

def innermost(regs, pos):
    best = None
    for a, e, p in regs:
        if a <= pos < e and (best is None or a > best[0]): best = (a, e, p)
    return best

def probes(text):
    """an assert(false) in every module: were one provable there, its axioms would be inconsistent"""
    n = [0]
    def add(m): n[0] += 1; return f"{m.group(0)} pub proof fn vp_probe{n[0]}() {{ assert(false); }}\n"
    return re.sub(r"pub mod \w+ \{ use vstd::prelude::\*; use crate::vp::\*; broadcast use \{[^}]*\};\n", add, text), n[0]

def classify(text, regs, msgs):
    """-> (errors at functions [(path, kind, message, tags, rendered)], compile errors [(path or None, message)])"""
    lines = text.split("\n"); fails, comp = [], []
    for m in msgs:
        if m.get("level") != "error": continue
        t = m["message"]
        if t.startswith("aborting due to"): continue
        prim = [x for x in m["spans"] if x["is_primary"]] or m["spans"]
        where = None
        body = [x for x in m["spans"] if (x.get("label") or "").startswith(("at this exit", "at the end of the function body"))]
        for x in body + prim + [x for x in m["spans"] if x not in prim]:
            if os.path.basename(x["file_name"]).startswith("extracted"):
                where = innermost(regs, x["byte_start"])
                pos = x["byte_start"]
                if where: break
        kind = None
        for k in ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "assert_by", "loop invariant", "unable to prove", "failed", *PANIC):
            if k in t: kind = k
        if "Resource limit" in t or "rlimit" in t or "timed out" in t: kind = "rlimit"
        if kind is None or m.get("code"):
            comp.append((where[2] if where else None, t + " :: " + (m.get("rendered") or "")[:400])); continue
        tags = set(); labels = []
        for x in m["spans"]:
            if (x.get("label") or "").startswith("failed") or "invariant" in t or "assert" in t:
                labels.append(x)
        for x in labels:
            for l in range(x["line_start"], min(x["line_end"], x["line_start"] + 12) + 1):
                tags |= set(re.findall(r"\bC\d\d\b", lines[l - 1].partition("// @")[2])) if "// @" in lines[l - 1] else set()
        if any(k in t for k in PANIC): tags.add("C04")
        if kind == "precondition not satisfied" and any("at_ok" in "".join(y["text"] for y in x.get("text", [])) for x in m["spans"]): tags.add("C04")
        if where is None:
            nm = None
            for mm in re.finditer(rb"\bfn (\w+)", text.encode()[:pos]): nm = mm.group(1).decode()
            path = f"lemma {nm}"
        else: path = where[2]
        fails.append((path, kind, t, tags, m.get("rendered") or t))
    return fails, comp

def run(scratch, root="/repo/src", extra=(), mutate=None, log=None):
    R = Run(); t0 = time.time(); forced, blank = set(), set()
    for attempt in range(8):
        try:
            C = extract.Contracts([os.path.join(HERE, "contracts", x) for x in VC])
            X = extract.Extraction(root, C, MODULES, forced, blank); text = X.run()
        except (extract.ExtractError, OSError, IndexError, KeyError, TypeError, AttributeError) as e:
            R.notes.append(f"extraction: {type(e).__name__}: {e}"); return R
        R.ext, R.lost = X, X.lost
        text, R.nprobe = probes(text)
        if mutate: text = mutate(text)
        path = os.path.join(scratch, "extracted.rs"); open(path, "w").write(text)
        regs = regions(text); R.text, R.regs = text, regs
        R.cmdl, d, msgs = verus(path, extra)
        R.cmd = " ".join(R.cmdl)
        if d is None: R.notes.append("Verus ran out of time"); return R
        fails, comp = classify(text, regs, msgs)
        if comp:
            new = {p for p, _ in comp if p and p not in forced}
            R.msgs = "\n".join(m for _, m in comp)[-8000:]
            # still not accepted: leave the body out altogether
            again = {p for p, _ in comp if p in forced and p not in blank}
            blank |= again
            if not new and not again:   # contract text put in only half: leave those functions out
                new = {l.rsplit(" ", 1)[-1] for l in R.lost if l.startswith(("anchor ", "loop "))} - forced
            if not new and not again: R.notes.append("outside the verifier's language: " + comp[0][1][:600]); return R
            forced |= new; continue
        vr = d.get("verification-results", {})
        if "verified" not in vr: R.notes.append("Verus gave no result: " + "".join((m.get("rendered") or "") for m in msgs if m.get("level") == "error")[:600]); return R
        R.break_ = [(mod["module"], f) for mod in d["times-ms"]["smt"]["smt-run-module-times"] for f in mod.get("function-breakdown", [])]
        R.verified, R.nerr, R.smt_ms = vr["verified"], vr["errors"], d["times-ms"]["smt"]["total"]
        R.forced = forced
        seen = {p for p, *_ in fails if p.startswith("lemma vp_probe")}
        if len(seen) != R.nprobe and not mutate:
            R.notes.append(f"an assert(false) was accepted: {R.nprobe - len(seen)} of {R.nprobe} modules have inconsistent axioms"); return R
        R.fails = [f for f in fails if not f[0].startswith("lemma vp_probe")]
        R.ok = True; break
    else: R.notes.append("outside the verifier's language, even with " + ", ".join(sorted(forced)) + " taken out")
    R.wall = time.time() - t0
    return R

def mod_of(path): return path[6:] if path.startswith("lemma ") else path.split("::")[0]
def depends(prop, path): return any(path == d or path.startswith(d + "::") for d in DEPS[prop])

def fits(R, path):
    """the function still has the shape its contract was written for"""
    if path.startswith("lemma "): return "a lemma of the contracts"
    shapes = json.load(open(SHAPES))
    if path not in shapes: return "new function"
    if R.ext.fn_seen[path]["loops"] != shapes[path]["loops"]: return "different loops"
    if R.ext.fn_seen[path].get("exits") != shapes[path].get("exits"): return "other early exits"
    for a, n in shapes[path].get("anchors", {}).items():
        if R.ext.fn_seen[path].get("anchors", {}).get(a, n) != n: return f"{a!r} occurs more or less often"
    for l in R.lost:
        if l.endswith(path): return "contract text without a place: " + l
    body = [R.text.encode()[a:e].decode() for a, e, p in R.regs if p == path]
    names = {p.split("::")[-1] for p, i in R.ext.fn_seen.items() if p not in shapes and not i["contract"]}
    for n in names:
        if any(re.search(rf"\b{n}\b\s*(::<[^>]*>)?\(", b) for b in body): return f"calls the uncontracted {n}"
    for f in R.forced:
        n = f.split("::")[-1]
        if any(re.search(rf"\b{n}\b\s*(::<[^>]*>)?\(", b) for b in body): return f"calls {n}, which is outside the verifier's language"
    return None

def trusted(text):
    out = []
    for m in re.finditer(r"(external_body\]|axiom fn|assume_specification|\bassume\(|\badmit\()", text):
        k = m.group(1)
        if k in ("assume(", "admit("): out.append(f"{k}...) at line {text.count(chr(10), 0, m.start()) + 1}"); continue
        n = re.search(r"fn (\w+)|assume_specification[^\[]*\[([^\]]*)\]", text[m.start():m.start() + 400])
        out.append(("assumed axiom " if k == "axiom fn" else "assumed contract of ") + (n.group(1) or n.group(2)) if n else k)
    return sorted(set(out))

def prove(prop, tier, scratch, build):
    P = Proof(); R = run(scratch)
    P.notes += R.notes
    P.assumptions += ASSUMED
    P.coverage["checker_cmd"] = R.cmd
    if not R.ok: P.output = R.msgs; P.coverage["contract_status"] = "undecided: " + "; ".join(R.notes)[:800]; return P
    mine = [(m, f) for m, f in R.break_ if depends(prop, m) and not "vp_probe" in f["function"]]
    und, tagged = {}, []
    for p in R.forced: und[p] = "outside the verifier's language"
    for path, kind, t, tags, rendered in R.fails:
        why = "resource limit" if kind == "rlimit" else fits(R, path)
        if why: und.setdefault(path, why); continue
        props = {"C09"} if re.search(r"IndexWith|index_with|conversion_panic|^mappable", path) else tags or set(DEFAULT.get(mod_of(path), []))
        if prop in props: tagged.append(dict(function=path, obligation=t)); P.output += rendered + "\n"
        else: und.setdefault(path, f"an obligation of other properties failed ({', '.join(sorted(props))})")
    for l in R.lost:
        if l.startswith(("function ", "item ")): und.setdefault(l.split(" ", 1)[1], "no longer there")
    here = {p: w for p, w in und.items() if p.startswith("lemma ") or depends(prop, p)}
    n = len(mine); bad = sum(not f["success"] for _, f in mine)
    fns = [p for p, i in R.ext.fn_seen.items() if i["contract"] and depends(prop, p)]
    P.coverage.update(obligations=n, discharged=n - bad, trusted_base=trusted(R.text), contract_lost=R.lost,
        functions_under_contract=sorted(fns), functions_extracted_without_contract=sorted(p for p, i in R.ext.fn_seen.items() if not i["contract"] and depends(prop, p)),
        backend="Verus 0.2026.09.13 with its bundled Z3", solver_seconds=round(sum(f["time-micros"] for _, f in mine) / 1e6, 2), verus_seconds=round(R.wall, 1),
        vacuity_probes=R.nprobe, undecided=[f"{p}: {w}" for p, w in sorted(here.items())])
    if n == 0: P.notes.append("no obligation was generated"); return P
    if tier == "thorough": vacuity(P, R, scratch)
    if tagged: P.verdict, P.failed = "failed", tagged
    elif here: P.notes += [f"undecided by the contracts: {p}: {w}" for p, w in sorted(here.items())]
    elif bad == 0: P.verdict = "proved"
    P.coverage["contract_status"] = P.verdict
    return P

def vacuity(P, R, scratch):
    """with assert(false) as first statement, every function under contract must fail: else its precondition is contradictory"""
    C = extract.Contracts([os.path.join(HERE, "contracts", x) for x in VC])
    todo = []
    for p, i in R.ext.fn_seen.items():
        c = C.fns.setdefault(p, dict(ret=None, spec=[], loops={}, start=[], end=[], before=[], attrs=[], src=""))
        if i["body"] and p not in C.externals and not i.get("const"): c["start"].insert(0, "    assert(false); // vacuity\n"); todo.append(p)
    X = extract.Extraction("/repo/src", C, MODULES, R.forced); text = X.run()
    path = os.path.join(scratch, "extracted.rs"); open(path, "w").write(text)
    _, d, msgs = verus(path)
    fails, comp = classify(text, regions(text), msgs)
    hit = {f[0] for f in fails}
    dead = [p for p in todo if p not in hit]
    P.coverage["vacuity_functions"] = dict(probed=len(todo), contradictory=dead)
    if comp: P.notes.append("vacuity run did not compile")
    elif dead: P.notes.append("contradictory preconditions: " + ", ".join(dead))

if __name__ == "__main__":
    import tempfile, shutil
    s = tempfile.mkdtemp(prefix="vpr.")
    try:
        if sys.argv[1] == "shapes":
            R = run(s); json.dump({p: dict(loops=i["loops"], **{k: i[k] for k in ("anchors", "exits") if i.get(k)}) for p, i in sorted(R.ext.fn_seen.items())}, open(SHAPES, "w"), indent=0)
            print(R.ok, R.notes, R.lost, getattr(R, "fails", None))
        else:
            for p in sys.argv[1:]:
                P = prove(p, os.environ.get("VERIF_TIER", "quick"), s, None)
                c = P.coverage
                print(p, P.verdict, c["discharged"], c["obligations"], P.failed, P.notes, c.get("vacuity_functions"))
    finally: shutil.rmtree(s)
