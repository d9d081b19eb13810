"""Mechanical extraction of /repo/src into one Verus crate.

Nothing of the code is written by hand: the text of every file is copied, and only the edits below are made (all by rule, at token
positions; the list of rules is in DESIGN.md):
  - items under cfg(feature = "_debugging") / cfg(test) and the items named in a `//@ drop` line are dropped;
  - specifications, invariants and ghost code from /verif/contracts/*.vc are inserted;
  - the generic rewrites of rewrite() are applied.
"""
import re, os

KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct super trait true type unsafe use where while async await dyn box yield".split())
TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d(?:\w|\.(?=\d))*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op>::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.=|\.\.\.|\.\.|.)
""", re.X | re.S)

class Tok:
    __slots__ = ("k", "t", "s", "e", "m")
    def __init__(s, k, t, a, b): s.k, s.t, s.s, s.e, s.m = k, t, a, b, None
    def __repr__(s): return s.t

class ExtractError(Exception): pass

def lex(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        k = m.lastgroup if m.lastgroup != "h" else "rstr"
        if m.group("rstr") is not None: k = "rstr"
        if k == "bc":
            d, j = 1, i + 2
            while d and j < len(text):
                if text.startswith("/*", j): d += 1; j += 2
                elif text.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        if k not in ("ws", "lc"): out.append(Tok(k, m.group(0), m.start(), m.end()))
        i = m.end()
    st = []
    for n, t in enumerate(out):
        if t.k == "op":
            if t.t in "([{": st.append(n)
            elif t.t in ")]}":
                if not st: raise ExtractError("unbalanced")
                o = st.pop(); out[o].m = n; t.m = o
    if st: raise ExtractError("unbalanced")
    return out

def undoc(text):
    """doc comments become plain comments"""
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if m.lastgroup == "lc" and m.group(0)[:3] in ("//!", "///"): out.append("// " + m.group(0)[3:]); i = m.end()
        elif m.lastgroup == "bc": out.append("/*"); i += 2
        else: out.append(m.group(0)); i = m.end()
    return "".join(out)

class Item:
    """one item: kind, name, path, token range [a, b), body tokens (o, c) of its braces"""
    def __init__(s, **k): s.__dict__.update(k)

class File:
    def __init__(s, text, path):
        text = undoc(text)
        s.text, s.path = text, path
        s.T = lex(text)
        s.edits, s.kids = [], []     # (pos, end, text, order)
        s.items = s.parse(0, len(s.T), path)
    def ed(s, a, b, t): s.edits.append((a, b, t, len(s.edits)))
    def src(s, a, b): return s.text[s.T[a].s:s.T[b - 1].e] if b > a else ""
    def squash(s, a, b): return "".join((" " + t.t if t.k in ("id", "life", "num") and n and s.T[a + n - 1].k in ("id", "life", "num") else t.t) for n, t in enumerate(s.T[a:b]))
    def parse(s, i, end, path):
        T, items = s.T, []
        while i < end:
            a = i; attrs = []
            while i < end and T[i].t == "#":
                j = i + 1
                if T[j].t == "!": j += 1
                attrs.append(s.squash(i, T[j].m + 1)); i = T[j].m + 1
            if i >= end: break
            h = i
            if T[i].t == "pub":
                i += 1
                if T[i].t == "(": i = T[i].m + 1
            while T[i].t in ("const", "async", "unsafe", "extern", "default") and T[i + 1].t in ("fn", "unsafe", "extern", "trait", "impl", "async") or T[i].k == "str": i += 1
            k = T[i].t
            it = Item(a=a, h=h, k=i, kind=k, attrs=attrs, name="", sub=[], o=None, c=None, file=s)
            if k in ("use", "type", "const", "static"):
                j = i
                while T[j].t != ";":
                    j = T[j].m + 1 if T[j].t in ("(", "[", "{") else j + 1
                it.name = T[i + 1].t; it.b = j + 1
            elif k in ("struct", "enum", "union", "trait", "mod", "fn", "impl"):
                j = i + 1
                while T[j].t not in ("{", ";"):
                    j = T[j].m + 1 if T[j].t in ("(", "[") else j + 1
                if T[j].t == "{": it.o, it.c = j, T[j].m; it.b = it.c + 1
                else: it.b = j + 1
                if k == "impl": it.name = s.impl_name(i, j, it)
                else: it.name = T[i + 1].t
            elif T[i].k == "id" and T[i + 1].t == "!":   # macro item
                j = i + 2
                if T[j].k == "id": j += 1
                j = T[j].m
                it.kind = "macro"; it.b = j + 2 if T[j].t != "}" and j + 1 < end and T[j + 1].t == ";" else j + 1
            else: raise ExtractError(f"{path}: unexpected {T[i].t} at {T[i].s}")
            it.path = f"{path}::{it.name}" if path else it.name
            if k in ("mod", "trait", "impl") and it.o is not None: it.sub = s.parse(it.o + 1, it.c, it.path)
            if k == "fn" and it.o is not None: it.sub = s.nested(it.o + 1, it.c, it.path)
            items.append(it); i = it.b
        return items
    def nested(s, i, end, path):
        """items declared inside a function body"""
        T, items = s.T, []
        while i < end:
            if T[i].t in ("fn", "enum", "struct", "impl", "trait") and T[i - 1].t in ("{", "}", ";", "]") and (T[i].t == "impl" or T[i + 1].k == "id"):
                its = s.parse(i, i + 1, path) if False else s.parse_one(i, path)
                items.append(its); i = its.b
            else: i += 1
        return items
    def parse_one(s, i, path):
        T = s.T; j = i + 1
        while T[j].t not in ("{", ";"): j = T[j].m + 1 if T[j].t in ("(", "[") else j + 1
        b = T[j].m + 1 if T[j].t == "{" else j + 1
        return s.parse(i, b, path)[0]
    def impl_name(s, i, j, it):
        T = s.T; n = i + 1
        if T[n].t == "<": n = s.angle(n)
        # find `for` at depth 0 (not for<'a>), and where
        f = w = None; k = n
        while k < j:
            if T[k].t == "<": k = s.angle(k); continue
            if T[k].t in ("(", "["): k = T[k].m + 1; continue
            if T[k].t == "for" and f is None: f = k
            if T[k].t == "where": w = k; break
            k += 1
        e = w or j
        def head(a, b):
            k = a; last = None
            while k < b:
                if T[k].k == "id" and T[k].t not in KW: last = T[k].t; k += 1
                elif T[k].t == "::": k += 1
                else: break
            return last
        if f is not None:
            it.trait = head(n, f); it.ty = s.squash(f + 1, e); it.tyhead = head(f + 1, e) or it.ty
            return f"{it.trait}@{it.tyhead}"
        it.trait = None; it.ty = s.squash(n, e); it.tyhead = head(n, e) or it.ty
        return it.tyhead
    def angle(s, n):
        T, d = s.T, 0
        while True:
            t = T[n].t
            if t == "<": d += 1
            elif t == ">": d -= 1
            elif t in ("(", "["): n = T[n].m
            n += 1
            if d == 0: return n
    def all(s, items=None):
        for it in (s.items if items is None else items):
            yield it
            yield from s.all(it.sub)

STDMUT = set("push pop insert truncate swap take replace clear as_mut push_get_index get_mut advance".split())

def fn_loops(f, it):
    """tokens of the loops of a function, in order, nested items excluded"""
    skip = [(x.a, x.b) for x in it.sub]
    out, i = [], it.o + 1
    while i < it.c:
        sk = [b for a, b in skip if a <= i < b]
        if sk: i = sk[0]; continue
        t = f.T[i]
        if t.t in ("while", "loop") or t.t == "for" and f.T[i + 1].t != "<":
            j = i + 1
            while f.T[j].t != "{": j = f.T[j].m + 1 if f.T[j].t in ("(", "[") else j + 1
            out.append((i, j))
        i += 1
    return out

def chain_start(T, i):
    """first token of the postfix expression that ends at token i"""
    while True:
        t = T[i]
        if t.t in (")", "]"):
            i = t.m
            p = T[i - 1]
            if p.k == "id" and p.t not in KW or p.t in ("self", "Self", ")", "]", "?"): i -= 1; continue
            return i
        if t.t == "?": i -= 1; continue
        p = T[i - 1]
        if p.t == ".": i -= 2; continue
        if p.t == "::": i -= 2; continue
        return i

def rewrite_index(f, a, b, mut_names):
    """EXPR[i] -> (*EXPR.vp_at(i)) / (*EXPR.vp_at_mut(i))"""
    T = f.T
    for i in range(a, b):
        t = T[i]
        if t.t != "[" or i == a: continue
        p = T[i - 1]
        if not (p.k in ("id", "num") and p.t not in KW - {"self"} or p.t in (")", "]", "?")): continue
        if p.t == "]" and T[p.m - 1].t in ("#", "!"): 
            if T[p.m - 1].t == "#": continue
        st = chain_start(T, i - 1)
        if T[i + 1].t == ".." and t.m == i + 2:     # the whole of a slice
            f.ed(T[st].s, T[st].s, "(*"); f.ed(t.s, T[i + 2].e, ")"); continue
        # context after
        j, mut = t.m + 1, False
        while j < b:
            if T[j].t == "." and T[j + 1].k in ("id", "num") and T[j + 2].t != "(" : j += 2; continue
            if T[j].t == "[": j = T[j].m + 1; continue
            break
        if T[j].t in ("=", "+=", "-=", "*=", "/="): mut = True
        if T[j].t == "." and T[j + 2].t == "(" and T[j + 1].t in mut_names: mut = True
        if T[st - 1].t == "mut" and T[st - 2].t == "&": mut = True
        f.ed(T[st].s, T[st].s, "(*")
        f.ed(t.s, t.e, ".vp_at_mut(" if mut else ".vp_at(")
        f.ed(T[t.m].s, T[t.m].e, "))")

def apply(text, edits, lo=0, hi=None):
    hi = len(text) if hi is None else hi
    out, p = [], lo
    for a, b, t, _ in sorted(edits, key=lambda e: (e[0], e[1] > e[0], e[3])):
        if a < lo or b > hi: continue
        if a < p: continue      # inside something already replaced
        out.append(text[p:a]); out.append(t); p = b
    out.append(text[p:hi])
    return "".join(out)

# ---------------------------------------------------------------- contracts

class Contracts:
    """parsed /verif/contracts/*.vc"""
    def __init__(s, files):
        s.fns, s.ins, s.mods, s.drops, s.externals, s.subs, s.prelude = {}, {}, {}, [], [], [], []
        s.bc = {}
        for p in files: s.load(p)
    def bcast(s, m): return ", ".join(s.bc.get("*", []) + s.bc.get(m, []))
    def load(s, p):
        cur = None; buf = None
        for n, line in enumerate(open(p), 1):
            if line.startswith("//@ "):
                w = line[4:].strip(); d, _, rest = w.partition(" "); rest = rest.strip()
                if d == "fn":
                    path, _, ret = rest.partition(" -> ")
                    cur = s.fns.setdefault(path.strip(), dict(ret=None, spec=[], loops={}, start=[], end=[], before=[], attrs=[], src=f"{os.path.basename(p)}:{n}"))
                    if ret: cur["ret"] = ret.strip()
                    buf = cur["spec"]
                elif d == "loop": buf = cur["loops"].setdefault(int(rest), [])
                elif d == "start": buf = cur["start"]
                elif d == "end": buf = cur["end"]
                elif d in ("before", "after", "loopstart", "loopend", "blockstart", "blockend"):
                    b = []; cur["before"].append((d, rest, b)); buf = b
                elif d == "attr": cur["attrs"].append(rest)
                elif d == "in": buf = s.ins.setdefault(rest, [])
                elif d == "mod": buf = s.mods.setdefault(rest, [])
                elif d == "prelude": buf = s.prelude
                elif d == "tattr": path, _, r = rest.partition(" "); s.tattr = getattr(s, "tattr", {}); s.tattr.setdefault(path, []).append(r)
                elif d == "free": s.free = getattr(s, "free", []) + rest.split()
                elif d == "forward": s.forward = getattr(s, "forward", []) + rest.split()
                elif d == "sized": s.sized = getattr(s, "sized", []) + rest.split()
                elif d == "broadcast": m, *ns = rest.split(); s.bc.setdefault(m, []).extend(ns)
                elif d == "ext": s.ext = getattr(s, "ext", []) + rest.split()
                elif d == "drop": s.drops += rest.split()
                elif d == "external": s.externals += rest.split()
                elif d == "sub":
                    path, _, r = rest.partition(" "); a, b = r.split(" => "); s.subs.append((path, a.strip(), b.strip(), f"{os.path.basename(p)}:{n}"))
                else: raise ExtractError(f"{p}:{n}: {line}")
            elif buf is not None: buf.append(line)

def set_paths(f):
    """make sibling paths unique: the second and later impls of one trait for one type head are named with the whole type"""
    def go(items, parent):
        cnt = {}
        for it in items: 
            if it.kind == "impl" and it.trait: cnt[it.name] = cnt.get(it.name, 0) + 1
        for it in items:
            if it.kind == "impl" and it.trait and cnt[it.name] > 1:
                T = f.T; n = it.k + 1
                if T[n].t == "<": n = f.angle(n)
                e = n
                while T[e].t != "for": e = f.angle(e) if T[e].t == "<" else e + 1
                it.name = f"{f.squash(n, e)}@{it.ty}"
            it.path = f"{parent}::{it.name}" if parent else it.name
            go(it.sub, it.path)
    go(f.items, f.path)

class Extraction:
    def __init__(s, root, contracts, modules, force_external=(), blank=()):
        s.root, s.C, s.modules = root, contracts, modules
        s.lost, s.fn_seen, s.forced = [], {}, set(force_external)
        s.blank = set(blank)
        s.used_fns, s.used_ins, s.used_mods, s.used_drops = set(), set(), set(), set()
        s.used_fwd = set()
        s.mut_names = set(STDMUT)
        s.files = {}
        s.consts = set()
        s.defaults = {}
    def load(s, rel, path):
        f = File(open(os.path.join(s.root, rel)).read(), path)
        set_paths(f); s.files[path] = (rel, f)
        for it in f.all():
            if it.kind in ("trait", "impl"): s.consts |= {x.name for x in it.sub if x.kind == "const"}
            if it.kind == "trait":
                for x in it.sub:
                    if x.kind == "const":
                        j = x.k + 3
                        while f.T[j].t not in ("=", ";"): j = f.angle(j) if f.T[j].t == "<" else j + 1
                        if f.T[j].t == "=":
                            q = lambda a, b: " ".join(("crate::" if t.k == "id" and t.t[0].isupper() and f.T[a + n - 1].t != "::" else "") + t.t for n, t in enumerate(f.T[a:b]))
                            s.defaults.setdefault(it.name, {})[x.name] = (q(x.k + 3, j), q(j + 1, x.b - 1))
            if it.kind == "fn":
                j = it.k
                while f.T[j].t != "(": j = f.angle(j) if f.T[j].t == "<" else j + 1
                if f.T[j + 1].t == "&" and (f.T[j + 2].t == "mut" or f.T[j + 2].k == "life" and f.T[j + 3].t == "mut"): s.mut_names.add(it.name)
        for it in f.items:
            if it.kind == "mod" and it.o is None and not s.dropped(it):
                base = os.path.dirname(rel) if os.path.basename(rel) in ("lib.rs", "mod.rs") else rel[:-3]
                c = [os.path.join(base, it.name + ".rs"), os.path.join(base, it.name, "mod.rs")]
                r = [x for x in c if os.path.exists(os.path.join(s.root, x))]
                if not r: raise ExtractError(f"no file for mod {it.path}")
                it.child = f"{path}::{it.name}" if path else it.name
                if s.modules is None or any(m == it.child or m.startswith(it.child + "::") or it.child.startswith(m + "::") for m in s.modules):
                    s.load(r[0], it.child)
    def dropped(s, it):
        for a in it.attrs:
            z = a.replace(" ", "")
            if z.startswith("#[cfg(") and ("_debugging" in z or "test" in z or "debug_assertions" in z) and "not(" not in z: return True
            if z.startswith("#[cfg(not(any(") and False: return True
        if it.kind == "impl" and it.trait in ("Debug", "Display", "Error", "Hash", "IdxDisplay") and it.file.path != "tests": return True
        if it.kind == "macro": return False
        for d in s.C.drops:
            if it.path == d or (it.kind == "use" and d == f"use {it.path}"): s.used_drops.add(d); return True
        return False
    def run(s):
        s.load("lib.rs", "")
        out = ["#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, private_interfaces, unreachable_code, non_snake_case)]\n",
               "use vstd::prelude::*;\n"] + s.C.prelude + ["verus! {\n"]
        out.append(s.emit(""))
        out.append("} // verus!\nfn main() {}\n")
        for p in s.C.fns:
            if p not in s.used_fns: s.lost.append(f"function {p}")
        for p in s.C.ins:
            if p not in s.used_ins: s.lost.append(f"item {p}")
        return "".join(out)
    def emit(s, path):
        rel, f = s.files[path]
        T = f.T
        f.ed(0, 0, f"// ---- {rel}\n") if path else None
        s.items(f, f.items, None)
        s.generic(f)
        hoisted = []
        for it in f.all():
            if it.kind != "fn": continue
            for x in it.sub:
                if x.kind in ("struct", "enum", "impl", "trait") and not any(T[x.a].s >= a and T[x.b - 1].e <= b and b > a and t == "" for a, b, t, _ in f.edits):
                    lo, hi = T[x.a].s, T[x.b - 1].e
                    hoisted.append(apply(f.text, f.edits, lo, hi))
                    f.edits = [e for e in f.edits if not (lo <= e[0] and e[1] <= hi)]
                    f.ed(lo, hi, "")
        for im in f.all():
            for x in im.sub if im.kind == "impl" and im.trait else []:
                if x.kind != "fn" or x.path not in getattr(s.C, "forward", []): continue
                # the function becomes an inherent one of the same body, under contract; the trait's one calls it and nothing else
                lo, hi, j = T[x.a].s, T[x.b - 1].e, im.k + 1
                if T[j].t == "<": j = f.angle(j)
                k = j
                while T[k].t != "for": k = f.angle(k) if T[k].t == "<" else k + 1
                body = apply(f.text, f.edits, lo, hi).replace(f"fn {x.name}", f"fn vp_fwd_{x.name}", 1)
                hoisted.append(f"{f.src(im.k, j)} {f.src(k + 1, im.o)} {{ pub {body} }}")
                f.edits = [e for e in f.edits if not (lo <= e[0] and e[1] <= hi)]
                args = ", ".join(p for p in s.fn_seen[x.path]["params"] if p != "self")
                f.ed(lo, hi, f"#[verifier::external_body] {f.src(x.k, x.o)} {{ self.vp_fwd_{x.name}({args}) }}")
                s.used_fwd.add(x.path)
        for x in getattr(s.C, "forward", []):
            if path and x.startswith(path + "::") and x not in s.used_fwd and x.count("::") == path.count("::") + 2: s.lost.append(f"forward {x}")
        text = apply(f.text, f.edits) + "".join("\n" + h + "\n" for h in hoisted)
        m = s.C.mods.get(path)
        if m is not None: s.used_mods.add(path); text += "\n" + "".join(m)
        # the files of its modules, in one order whatever the order of their declarations
        rank = lambda c: next((n for n, w in enumerate(s.modules or []) if w == c or w.startswith(c + "::")), 999)
        return text + "".join("\n" + t for c, t in sorted(f.kids, key=lambda x: (rank(x[0]), x[0])))
    # -- item level
    def items(s, f, items, parent):
        T = f.T
        for it in items:
            if s.dropped(it):
                f.ed(T[it.a].s, T[it.b - 1].e, ""); continue
            if it.kind == "mod" and it.o is None:
                f.ed(T[it.a].s, T[it.b - 1].e, "")
                if it.child in s.files: f.kids.append((it.child, f"pub mod {it.name} {{ use vstd::prelude::*; use crate::vp::*; broadcast use {{{s.C.bcast(it.child)}}};\n{s.emit(it.child)}\n}}\n"))
                continue
            s.attrs(f, it)
            for a in getattr(s.C, "tattr", {}).get(it.path, []): f.ed(T[it.a].s, T[it.a].s, a + " ")
            if it.kind == "const" and parent is not None and parent.kind in ("trait", "impl"): s.assoc_const(f, it, parent); continue
            inimpl = parent is not None and parent.kind == "impl" and parent.trait
            if parent is None or parent.kind in ("mod",) or parent.kind == "impl" and not inimpl:
                if it.kind in ("struct", "enum", "trait", "fn", "const", "type", "mod"):
                    if T[it.h].t != "pub": f.edits.append((T[it.h].s, T[it.h].s, "pub ", 10 ** 9))
            if it.kind == "struct" : s.fields(f, it)
            if it.kind == "trait" and it.path in getattr(s.C, "sized", []):
                j = it.k + 2
                if T[j].t == "<": j = f.angle(j)
                f.ed(T[j].e if T[j].t == ":" else T[j - 1].e, T[j].e if T[j].t == ":" else T[j - 1].e, " Sized + " if T[j].t == ":" else ": Sized ")
            if it.path in s.C.ins and it.o is not None and it.kind in ('trait', 'impl') and it.path not in s.used_ins:
                s.used_ins.add(it.path)
                f.ed(T[it.o].e, T[it.o].e, "\n" + "".join(s.C.ins[it.path]))
            if it.kind == "trait": s.ext(f, it)
            if it.kind == "impl" and it.trait: s.deref_impl(f, it)
            if it.kind in ("trait", "impl"): s.gat(f, it); s.type_gat(f, it)
            if it.kind in ("struct", "impl", "fn"): s.type_gat_bounds(f, it)
            if it.kind == "impl" and it.trait and it.trait in ("Index", "IndexMut"): s.index_impl(f, it)
            if it.kind == "impl" and it.trait == "Iterator":
                for x in it.sub:
                    if x.kind == "fn" and x.name == "next": f.ed(T[x.k + 1].s, T[x.k + 1].e, "vp_next")
            if it.kind == "impl" and it.trait in s.defaults:
                for n, (ty, val) in s.defaults[it.trait].items():
                    if n not in [x.name for x in it.sub]: f.ed(T[it.o].e, T[it.o].e, f"\n    fn {n}() -> {ty} {{ {val} }}\n")
            if it.kind in ("mod", "trait", "impl"): s.items(f, it.sub, it)
            if it.kind == "fn": s.fn(f, it, parent)
    def gat(s, f, it):
        """type X<'i> of a trait with a lifetime 'p of its own: taken at 'i = 'p (lifetimes have no effect at run time)"""
        T = f.T
        for ty in it.sub:
            if ty.kind != "type" or T[ty.k + 2].t != "<" or not T[ty.k + 3].t.startswith("'") or T[ty.k + 4].t != ">": continue
            L = T[ty.k + 3].t; s.gats.add(ty.name)
            for x in it.sub:
                if x.kind not in ("type", "fn") or T[x.k + 2].t != "<" or T[x.k + 3].t != L or T[x.k + 4].t != ">": continue
                f.ed(T[x.k + 2].s, T[x.k + 4].e, "")
                i = x.k + 5; end = x.b - 1 if x.o is None else x.o
                while i < end:
                    if T[i].t == "where":
                        f.ed(T[i].s, T[end - 1].e, "")
                        break
                    if T[i].t == L: f.ed(T[i].s, T[i].e, "'p")
                    i += 1
    def type_gat(s, f, it):
        """trait X<T> { type Y<U>; fn f<.., U>(..) }  ->  trait X<T, U> { type Y; fn f<..>(..) }: the parameter of the type becomes one of the trait"""
        T = f.T
        for ty in it.sub:
            if ty.kind != "type" or T[ty.k + 2].t != "<" or T[ty.k + 3].k != "id" or T[ty.k + 4].t != ">": continue
            U = T[ty.k + 3].t; name = it.name if it.kind == "trait" else it.trait
            f.ed(T[ty.k + 2].s, T[ty.k + 4].e, "")
            k = it.k + 1
            if it.kind == "trait":
                e = f.angle(it.k + 2); f.ed(T[e - 1].s, T[e - 1].s, f", {U}")
                f.ed(T[e - 1].e, T[e - 1].e, ": Sized")
            else:
                e = f.angle(k); q = k + 2
                while q < e - 1 and T[q].t != ",": q += 1
                f.ed(T[q].s, T[q].s, f", {U}")
                while T[e].t != name: e += 1
                e = f.angle(e + 1); f.ed(T[e - 1].s, T[e - 1].s, f", {U}")
            for x in it.sub:
                if x.kind != "fn": continue
                if T[x.k + 2].t == "<":
                    e = f.angle(x.k + 2) - 1
                    if T[e - 1].t == U and T[e - 2].t == ",": f.ed(T[e - 2].s, T[e - 1].e, "")
                for i in range(x.k, x.b):
                    if T[i].t == "Self" and T[i + 1].t == "::" and T[i + 2].t == ty.name and T[i + 3].t == "<": f.ed(T[i + 3].s, T[f.angle(i + 3) - 1].e, "")
    def type_gat_bounds(s, f, it):
        """uses of such a trait: X<A> and its Y<B>  ->  X<A, B> and <.. as X<A, B>>::Y;  X<B, Y<A> = C>  ->  X<B, A, Y = C>"""
        T = f.T; lo = it.k; hi = it.b
        head = it.o if it.o is not None else it.b
        names = [i for i in range(lo, head) if T[i].t == "Mappable" and T[i - 1].t == "::"]
        if not names: return
        A = B = None; bare = []
        own = lambda t: t.replace("Self", "VpS") if any(a <= lo < b for a, b in getattr(f, "freed", [])) else t
        for i in names:
            e = f.angle(i + 1)
            inner = T[i + 2:e - 1]
            eq = next((n for n in range(i + 2, e - 1) if T[n].t == "="), None)
            if eq is None: bare.append((i, e)); continue
            o = i + 2
            while T[o].t != "Output": o += 1
            oe = f.angle(o + 1)
            f.ed(T[o].s, T[oe - 1].e, own(f.src(o + 2, oe - 1)) + ", Output")
            B = f.src(i + 2, o - 1)
        if B is None: s.lost.append(f"bounds of {it.path}"); return
        for i, e in bare:
            f.ed(T[e - 1].s, T[e - 1].s, f", {B}"); A = f.src(i + 2, e - 1)
        i = lo
        while i < hi:
            if T[i].t == "Output" and T[i + 1].t == "<" and T[i - 1].t == "::":
                e = f.angle(i + 1)
                if T[i - 2].t == ">": f.ed(T[i + 1].s, T[e - 1].e, "")
                elif T[i - 2].k == "id": f.ed(T[i - 2].s, T[e - 1].e, f"<{T[i - 2].t} as crate::Mappable<{A}, {f.src(i + 2, e - 1)}>>::Output")
                i = e; continue
            i += 1
    gats = set()
    def deref_impl(s, f, it):
        """impl<T: ops::Deref<Target=[V]>> X for T: where `self` stands for the slice, the call of `deref` is written out"""
        T = f.T; j = it.k + 1
        if T[j].t != "<": return
        e = f.angle(j); k = e; own = None
        while k < it.o:
            if T[k].t == "for": own = T[k + 1].t if T[k + 2].t in ("{", "where") else None
            k = f.angle(k) if T[k].t == "<" else k + 1
        if own is None: return
        for q in range(j + 1, e - 1):
            if T[q].t == own and T[q + 1].t == ":" and T[q - 1].t in ("<", ","):
                w = [x.t for x in T[q + 2:e]]
                if "Deref" not in w: return
                break
        else: return
        names = {x.name for x in it.sub if x.kind == "fn"}
        tys = {x.name: f.src(x.k + 3, x.b - 1) for x in it.sub if x.kind == "type" and T[x.k + 2].t == "="}
        for x in it.sub:
            if x.kind == "type" and T[x.k + 2].t == "<" and T[x.k + 4].t == ">" and T[x.k + 5].t == "=":
                q = x.k + 6
                while T[q].t not in ("where", ";"): q += 1
                tys[x.name] = f.src(x.k + 6, q).replace(T[x.k + 3].t, "'p").strip()
        for i in range(it.o, it.c):      # the impl's types are written out (Verus cannot resolve Self::X here)
            if T[i].t == "Self" and T[i + 1].t == "::" and T[i + 2].t in tys: f.ed(T[i].s, T[i + (5 if T[i + 3].t == "<" else 2)].e, tys[T[i + 2].t])
        for x in it.sub:
            if x.kind != "fn" or x.o is None: continue
            for i in range(x.o + 1, x.c):
                if T[i].t != "self": continue
                if T[i - 1].t == "*" and T[i - 2].t == "(" and T[i + 1].t == ")": f.ed(T[i - 2].s, T[i + 1].e, "self.vp_deref()")
                elif T[i + 1].t == "." and T[i + 2].t in names: pass
                elif T[i + 1].t == "." and T[i + 2].t == "deref": f.ed(T[i + 2].s, T[i + 2].e, "vp_deref")
                elif T[i - 1].t == "*": f.ed(T[i - 1].s, T[i].e, "(*self.vp_deref())")
                elif T[i - 1].t == "(" and T[i - 2].t in names and T[i - 3].t == "::": pass
                else: f.ed(T[i].s, T[i].e, "self.vp_deref()")
    def ext(s, f, it):
        """a provided method whose body refers back to the trait: the trait is closed in front of it, and the method goes,
        unchanged, into an extension trait that every implementor gets (ext), or it becomes a function of the same body whose
        first parameter is the receiver (free: no implementor overrides it)"""
        T = f.T; want = getattr(s.C, "ext", []); fr = getattr(s.C, "free", [])
        m = [x for x in it.sub if x.path in want + fr]
        if not m: return
        if m != [x for x in it.sub if not s.dropped(x)][-len(m):] or any(x.o is None for x in m) or len({x.path in fr for x in m}) != 1: s.lost.append(f"provided method {m[0].path}: not among the last items"); return
        j = it.k + 2; gen = args = ""
        if T[j].t == "<":
            e = f.angle(j); gen = f.src(j + 1, e - 1); a = []; k = j + 1
            while k < e - 1:
                a.append(T[k].t)
                while k < e - 1 and T[k].t != ",": k = f.angle(k) if T[k].t == "<" else k + 1
                k += 1
            args = "<" + ", ".join(a) + ">"; j = e
        sup = T[j + 1:it.o] if T[j].t == ":" else []
        life = "".join(t.t + " + " for t in sup if t.t.startswith("'"))
        if m[0].path in fr:
            bound = life + it.name + args + ("" if any(t.t == "Sized" for t in sup) else " + ?Sized")
            f.ed(T[m[0].a].s, T[m[0].a].s, "}\n"); f.ed(T[it.c].s, T[it.c].e, "")
            for x in m:
                k = x.k + 1; f.freed = getattr(f, 'freed', []) + [(x.a, x.b)]
                f.edits.append((T[x.h].s, T[x.h].s, "pub ", 10 ** 9)); f.ed(T[k].s, T[k].e, f"vp_{it.name}_{x.name}"); k += 1
                if T[k].t == "<": f.ed(T[k].e, T[k].e, f"{gen}, VpS: {bound}, "); k = f.angle(k)
                else: f.ed(T[k].s, T[k].s, f"<{gen}, VpS: {bound}>")
                p = k + 1; own = ""
                while T[p].t != "self": own += T[p].t + " "; p += 1
                f.ed(T[k + 1].s, T[p].e, f"self_: {own}VpS")
                i = x.k + 2
                while i < x.b:
                    if k < i <= p: pass
                    elif T[i].t == "Self": f.ed(T[i].s, T[i].e, "VpS")
                    elif T[i].t == "." and T[i + 2].t == "(" and T[i - 1].t == ")" and not (T[i - 3].t == "as_polygon_list" and T[i - 5].t == "self") and any(y.endswith(f"::PolygonList::{T[i + 1].t}") for y in fr) and x.o < i:
                        st = chain_start(T, i - 1)
                        f.ed(T[st].s, T[st].s, f"vp_PolygonList_{T[i + 1].t}("); f.ed(T[i].s, T[i + 2].e, "" if T[i + 3].t == ")" else ", ")
                    elif T[i].t == "self":
                        chain = [t.t for t in T[i:i + 8]]
                        for owner, n in (("PolygonList", 6), (it.name, 2)):
                            if (n == 2 or chain[1:6] == [".", "as_polygon_list", "(", ")", "."]) and chain[n + 1:n + 2] == ["("] and any(y.endswith(f"::{owner}::{chain[n]}") for y in fr):
                                inner = "self_" if n == 2 else "vp_Polygon_as_polygon_list(self_)"
                                f.ed(T[i].s, T[i + n + 1].e, f"vp_{owner}_{chain[n]}({inner}" + ("" if T[i + n + 2].t == ")" else ", "))
                                i += n + 1; break
                        else: f.ed(T[i].s, T[i].e, "self_")
                    i += 1
            return
        f.ed(T[m[0].a].s, T[m[0].a].s, f"}}\npub trait {it.name}Ext<{gen}>: {it.name}{args} + Sized {{\n")
        f.ed(T[it.c].e, T[it.c].e, f"\nimpl<{gen}, VpT: {it.name}{args}> {it.name}Ext{args} for VpT {{ }}\n")
    def assoc_const(s, f, it, parent):
        """const C: T = E; -> fn C() -> T { E } (uses: generic()); the default of a trait goes into the impls that have none of their own"""
        T = f.T; c = s.C.fns.get(it.path)
        f.ed(T[it.k].s, T[it.k].e, "fn")
        f.ed(T[it.k + 1].e, T[it.k + 1].e, "()")
        f.ed(T[it.k + 2].s, T[it.k + 2].e, " -> (r:" if c else " ->")
        j = it.k + 3
        while T[j].t not in ("=", ";"): j = f.angle(j) if T[j].t == "<" else j + 1
        spec = ")\n" + "".join(c["spec"]) if c else ""
        if c: s.used_fns.add(it.path)
        if T[j].t == "=" and parent.kind == "trait":
            f.ed(T[j].s, T[it.b - 1].e, spec + ";")
        elif T[j].t == "=":
            f.ed(T[j].s, T[j].e, spec + "{")
            f.ed(T[it.b - 1].s, T[it.b - 1].e, "}")
        elif spec: f.ed(T[j].s, T[j].s, spec)
        f.ed(T[it.a].s, T[it.a].s, f"/*@F {it.path}*/ "); f.ed(T[it.b - 1].e, T[it.b - 1].e, "/*@E*/")
        s.fn_seen[it.path] = dict(params=[], loops="", file=s.files[f.path][0], body=T[j].t == "=" and parent.kind != "trait", const=True, contract=c is not None)
        s.consts.add(it.name)
    def attrs(s, f, it):
        T = f.T; i = it.a
        while i < it.h:
            j = i + 1
            if T[j].t == "!": j += 1
            e = T[j].m; n = T[j + 1].t
            if n == "derive":
                keep = [x for x in f.squash(j + 3, e - 1).split(",") if x.strip() in ("Clone", "Copy", "PartialEq", "Eq")]
                f.ed(T[i].s, T[e].e, f"#[derive({', '.join(keep)})]" if keep else "")
            elif n in ("non_exhaustive", "repr", "must_use", "doc", "cold", "inline", "warn", "allow", "macro_use", "cfg", "track_caller"): f.ed(T[i].s, T[e].e, "")
            i = e + 1
    def fields(s, f, it):
        T = f.T
        if it.o is not None: a, b = it.o + 1, it.c
        else:
            a = it.k + 2
            if T[a].t == "<": a = f.angle(a)
            if T[a].t != "(": return
            a, b = a + 1, T[a].m
        i = a
        while i < b:
            st = i
            drop = False
            while T[i].t == "#":
                z = f.squash(i, T[i + 1].m + 1)
                if "_debugging" in z and "not(" not in z: drop = True
                f.ed(T[i].s, T[T[i + 1].m].e, ""); i = T[i + 1].m + 1
            if i >= b: break
            j = i
            while j < b and T[j].t != ",":
                j = f.angle(j) if T[j].t == "<" else T[j].m + 1 if T[j].t in ("(", "[", "{") else j + 1
            if drop: f.edits = [e for e in f.edits if not (T[st].s <= e[0] < T[j - 1].e)]; f.ed(T[st].s, T[min(j, b - 1)].e, "")
            elif T[i].t == "pub": pass
            else: f.ed(T[i].s, T[i].s, "pub ")
            i = j + 1
    # -- functions
    def fn(s, f, it, parent):
        T, C = f.T, s.C
        c = C.fns.get(it.path)
        # signature
        j = it.k + 2
        if T[j].t == "<": j = f.angle(j)
        po, pc = j, T[j].m
        end = it.o if it.o is not None else it.b - 1
        params = []; k = po + 1
        while k < pc:
            m = k
            while m < pc and T[m].t != ",": m = f.angle(m) if T[m].t == "<" else T[m].m + 1 if T[m].t in ("(", "[") else m + 1
            q = [t.t for t in T[k:m] if t.t not in ("mut", "&", "ref") and t.k != "life"]
            if T[k].t == "_": f.ed(T[k].s, T[k].e, f"vp_arg{len(params)}")
            params.append(q[0]); k = m + 1
        loops = fn_loops(f, it) if it.o is not None else []
        if T[po + 1].t == "mut" and T[po + 2].t == "self":    # mut self
            f.ed(T[po + 1].s, T[po + 1].e, "")
            f.ed(T[it.o].e, T[it.o].e, " let mut self_ = self;")
            skip = [(x.a, x.b) for x in it.sub]
            for k in range(it.o + 1, it.c):
                if T[k].t == "self" and not any(a <= k < b for a, b in skip): f.ed(T[k].e, T[k].e, "_")
        f.ed(T[it.a].s, T[it.a].s, f"/*@F {it.path}*/ "); f.ed(T[it.b - 1].e, T[it.b - 1].e, "/*@E*/")
        s.fn_seen[it.path] = dict(params=params, loops=" ".join(T[i].t for i, _ in loops), file=s.files[f.path][0], body=it.o is not None, contract=c is not None)
        if it.path in s.forced or it.path in C.externals: f.ed(T[it.a].s, T[it.a].s, "#[verifier::external_body] ")
        forced = it.path in s.forced
        if it.path in s.blank and it.o is not None:
            f.ed(T[it.o].e, T[it.o].e, " #[cfg(any())] fn vp_dead() {"); f.ed(T[it.c].s, T[it.c].s, "} unimplemented!() ")
        if c:
            s.used_fns.add(it.path)
            for a in c["attrs"]: f.ed(T[it.a].s, T[it.a].s, a + " ")
            k = pc + 1
            if T[k].t == "->" and c["ret"]:
                e = k + 1
                while e < end and T[e].t != "where": e = f.angle(e) if T[e].t == "<" else T[e].m + 1 if T[e].t in ("(", "[") else e + 1
                f.ed(T[k + 1].s, T[k + 1].s, f"({c['ret']}: "); f.ed(T[e - 1].e, T[e - 1].e, ")")
            spec = "".join(c["spec"]).rstrip()
            if spec: f.ed(T[end].s, T[end].s, "\n" + spec + "\n")
            if it.o is not None and not forced:
                if c["start"]: f.ed(T[it.o].e, T[it.o].e, "\n" + "".join(c["start"]))
                if c["end"]: f.ed(T[it.c].s, T[it.c].s, "\n" + "".join(c["end"]))
                for n, inv in c["loops"].items():
                    if n >= len(loops): s.lost.append(f"loop {n} of {it.path}"); continue
                    f.ed(T[loops[n][1]].s, T[loops[n][1]].s, "\n" + "".join(inv))
                for d, anchor, ghost in c["before"]:
                    if d in ("loopstart", "loopend"):
                        n = int(anchor)
                        if n >= len(loops): s.lost.append(f"loop {n} of {it.path}"); continue
                        o = loops[n][1]
                        p = T[o].e if d == "loopstart" else T[T[o].m].s
                        end_expr = d == "loopend" and T[T[o].m - 1].t == "}"   # the body may end in an expression of type ()
                        f.ed(p, p, (";" if end_expr else "") + "\n" + "".join(ghost))
                        if d == "loopend":   # a round also ends where the code says continue
                            inner = lambda q: max((l[1] for l in loops if l[1] < q < T[l[1]].m), default=None)
                            for q in range(o + 1, T[o].m):
                                if T[q].t == "continue" and inner(q) == o and not any(x.a <= q < x.b for x in it.sub):
                                    f.ed(T[q].s, T[q].s, "{\n" + "".join(ghost)); f.ed(T[q].e, T[q].e, " }")
                        continue
                    pos = s.find(f, it, anchor)
                    if pos is None: s.lost.append(f"anchor {anchor!r} in {it.path}"); continue
                    if d in ("blockstart", "blockend"):
                        o = pos[1] - 1
                        while o < it.c and T[o].t != "{": o += 1
                        if o >= it.c: s.lost.append(f"anchor {anchor!r} in {it.path}"); continue
                        p = T[o].e if d == "blockstart" else T[T[o].m].s
                        f.ed(p, p, "\n" + "".join(ghost)); continue
                    p = T[pos[0]].s if d == "before" else T[pos[1] - 1].e
                    f.ed(p, p, "\n" + "".join(ghost))
            # where contract text stands at the end of the function or of a round, the ways to get out early matter
            if it.o is not None:
                word = (["return"] if c["end"] else []) + (["continue"] if any(d == "loopend" for d, *_ in c["before"]) else [])
                if word: s.fn_seen[it.path]["exits"] = {w: sum(T[q].t == w for q in range(it.o, it.c) if not any(x.a <= q < x.b for x in it.sub)) for w in word}
        if it.o is not None:
            for path, a, b, src in C.subs:
                if path == it.path:
                    pos = s.find(f, it, a)
                    if pos is None: s.lost.append(f"substitution {a!r} in {it.path}"); continue
                    f.ed(T[pos[0]].s, T[pos[1] - 1].e, b)
            for x in it.sub:
                if x.kind == "fn": s.attrs(f, x); s.fn(f, x, it)
                elif x.kind == "impl":
                    if x.path in C.ins: s.used_ins.add(x.path); f.ed(T[x.o].e, T[x.o].e, "\n" + "".join(C.ins[x.path]))
                    for y in x.sub:
                        if y.kind == "fn": s.attrs(f, y); s.fn(f, y, x)
                else:
                    s.attrs(f, x)
                    f.ed(T[x.h].s, T[x.h].s, "pub ")
                    if x.kind == "struct": s.fields(f, x)
    def find(s, f, it, anchor):
        """token range of the (occurrence #k of) token sequence in the body: 'text' or 'text ## k'"""
        occ = 0
        if " ## " in anchor: anchor, _, o = anchor.partition(" ## "); occ = int(o)
        want = [t.t for t in lex_loose(anchor)]
        T = f.T
        at = [i for i in range(it.o + 1, it.c - len(want) + 1) if all(T[i + n].t == w for n, w in enumerate(want))]
        if len(at) > 1 or occ: s.fn_seen[it.path].setdefault("anchors", {})[anchor] = len(at)
        return (at[occ], at[occ] + len(want)) if occ < len(at) else None
    def in_use(s, f, i):
        for it in f.items:
            if it.kind == "use" and it.a <= i < it.b: return True
        return False
    def index_impl(s, f, it):
        """impl Index<I> for X { type Output = T; fn index(..) .. } -> the trait that EXPR[i] is rewritten to"""
        T = f.T; m = it.trait == "IndexMut" or it.name.startswith(("IndexMut", "ops::IndexMut"))
        n = it.k + 1
        if T[n].t == "<": n = f.angle(n)
        e = n
        while T[e].t != "<": e += 1
        f.ed(T[n].s, T[e - 1].e, "crate::vp::VpAtMut" if m else "crate::vp::VpAt")
        for x in it.sub:
            if x.kind == "fn": f.ed(T[x.k + 1].s, T[x.k + 1].e, "vp_at_mut" if m else "vp_at")
            if x.kind == "type": f.ed(T[x.k + 1].s, T[x.k + 1].e, "Out")
            for k in range(x.a, x.b):
                if T[k].t == "Output" and T[k - 1].t == "::": f.ed(T[k].s, T[k].e, "Out")
    # -- rewrites by rule, whole file
    def guarded(s, f, i):
        """match &mut E { P if G => X, .. , _ => Y } -> the guards are evaluated on a shared borrow first, and the number of the arm taken joins the scrutinee"""
        T = f.T; o = i + 3
        while T[o].t != "{": o = T[o].m + 1 if T[o].t in ("(", "[") else o + 1
        c = T[o].m; arms = []; k = o + 1; guard = False
        while k < c:
            p = k; g = None
            while T[k].t != "=>":
                if T[k].t == "if" and g is None: g = k
                k = T[k].m + 1 if T[k].t in ("(", "[", "{") else k + 1
            arms.append((p, g or k, g, k)); guard |= g is not None
            k += 1
            while k < c and T[k].t != ",": 
                if T[k].t == "{": k = T[k].m + 1; break
                k = T[k].m + 1 if T[k].t in ("(", "[") else k + 1
            if k < c and T[k].t == ",": k += 1
        if not guard or f.src(arms[-1][0], arms[-1][1]) != "_": return
        E = f.src(i + 3, o)
        pre = f"{{ let vp_k: usize = match &{E} {{ " + ", ".join(f.src(a, e) + (" " + f.src(g, w) if g else "") + f" => {n}usize" for n, (a, e, g, w) in enumerate(arms)) + " }; match (vp_k, &mut " + E + ") "
        f.ed(T[i].s, T[o - 1].e, pre)
        for n, (a, e, g, w) in enumerate(arms[:-1]):
            f.ed(T[a].s, T[w - 1].e, f"({n}usize, {f.src(a, e)})")
        f.ed(T[c].e, T[c].e, " }")
    def for_loop(s, f, i):
        """for P in E { B }  ->  match E { mut vp_it => loop { match vp_it.vp_next() { None => break, Some(P) => { B } } } }   (E not a range)"""
        T = f.T; n = i + 1
        while T[n].t != "in": n = T[n].m + 1 if T[n].t in ("(", "[", "{") else n + 1
        o = n + 1; rng = False
        while T[o].t != "{":
            if T[o].t in ("..", "..="): rng = True
            o = T[o].m + 1 if T[o].t in ("(", "[") else o + 1
        if rng: return
        c = T[o].m
        pat = f.src(i + 1, n)
        s.nfor += 1; v = f"vp_it{s.nfor}" if False else "vp_it"
        f.ed(T[i].s, T[n].e, f"{{ match")
        for k in range(n + 1, o):
            if T[k].t == "into_iter" and T[k - 1].t == ".": f.ed(T[k].s, T[k].e, "vp_into_iter")
        # the loop's contract was inserted in front of the brace (and so stays between `loop` and it)
        f.edits.insert(0, (T[o - 1].e, T[o - 1].e, f" {{ mut {v} => {{ let ghost {v}0 = {v}; loop", -1))
        f.edits.append((T[o].s, T[o].e, f"{{ match {v}.vp_next() {{ None => break, Some({pat}) => {{", len(f.edits)))
        f.ed(T[c].e, T[c].e, " } } } } }")
    def error_closure(s, f, i):
        """|..| TriangulationError::internal(..)  and  |..| InternalError::new(..): the closure gets the constructor's contract"""
        T = f.T
        if T[i].t == "||": b = i + 1
        else:
            b = i + 1
            while T[b].t != "|":
                if T[b].k not in ("id",) and T[b].t != ",": return
                b += 1
            b += 1
        if not (T[b].t in ("TriangulationError", "InternalError") and T[b + 1].t == "::" and T[b + 2].t in ("internal", "new") and T[b + 3].t == "("): return
        if T[i - 1].t not in ("(", ","): return
        e = T[b + 3].m
        for k in range(i + 1, b - 1):
            if T[k].t == "_": f.ed(T[k].s, T[k].e, f"vp_{k - i}")
        f.ed(T[b].s, T[b].s, (f"-> (vp_e: {s.err_ty(f, i, T[b].t)}) ensures vp_e is InternalError {{ " if T[b + 2].t == "internal" else "-> (vp_e: _) { "))
        f.ed(T[e].e, T[e].e, " }")
    nfor = 0
    def err_ty(s, f, i, n):
        """the type of an error made at token i: as the function around it declares it, if it is of that name"""
        T = f.T; best = None
        for it in f.all():
            if it.kind == "fn" and it.o is not None and it.o < i < it.c: best = it
        if best is not None:
            j = best.k + 2
            if T[j].t == "<": j = f.angle(j)
            j = T[j].m + 1
            if T[j].t == "->" and T[j + 1].t == "Result" and T[j + 2].t == "<":
                e = f.angle(j + 2) - 1; k = j + 3
                while k < e and T[k].t != ",": k = f.angle(k) if T[k].t == "<" else T[k].m + 1 if T[k].t in ("(", "[") else k + 1
                if k < e and T[k + 1].t == n: return f.src(k + 1, e)
        return s.enum_ty(n)
    def enum_ty(s, n):
        for rel, f in s.files.values():
            for it in f.all():
                if it.kind == "enum" and it.name == n:
                    j = it.k + 2
                    if f.T[j].t != "<": return n
                    e = f.angle(j); k = 1
                    while j < e - 1:
                        j = f.angle(j + 1) if f.T[j + 1].t == "<" else j + 1
                        if f.T[j].t == ",": k += 1
                    return n + "<" + ", ".join("_" * k) + ">"
        return "_"
    def generic(s, f):
        T = f.T
        rewrite_index(f, 0, len(T), s.mut_names)
        i = 0
        gone = [(a, b) for a, b, t, _ in f.edits if b > a and t == ""]
        while i < len(T):
            g = [b for a, b in gone if a <= T[i].s < b]
            if g:
                while i < len(T) and T[i].s < g[0]: i += 1
                continue
            t = T[i].t
            def seq(*w): return all(i + n < len(T) and T[i + n].t == x for n, x in enumerate(w))
            if seq("num_traits", "::", "real", "::", "Real"): f.ed(T[i].s, T[i + 4].e, "crate::vp::Real"); i += 5; continue
            if seq("ops", "::", "Deref", "<", "Target", "=", "[") and T[T[i + 6].m + 1].t == ">":
                f.ed(T[i].s, T[i + 6].e, "crate::vp::VpSlice<Elem="); f.ed(T[T[i + 6].m].s, T[T[i + 6].m].e, ""); i += 7; continue
            if seq(".", "iter", "(", ")", ".", "map", "(", "|") and [x.t for x in T[T[i + 6].m + 1:T[i + 6].m + 5]] == [".", "sum", "(", ")"]:
                e = T[i + 6].m; b = i + 8
                while T[b].t != "|": b += 1
                st = chain_start(T, i - 1); f.ed(T[st].s, T[st].s, "crate::vp::vp_sum("); f.ed(T[i].s, T[i + 6].e, ", "); f.ed(T[b + 1].s, T[b + 1].s, "{ "); f.ed(T[e - 1].e, T[e - 1].e, " }"); f.ed(T[e + 1].s, T[e + 4].e, ""); i = b; continue
            if seq(".", "try_into", "(", ")", ".", "unwrap_or_else", "("):
                st = chain_start(T, i - 1); e = T[i + 6].m
                f.ed(T[st].s, T[st].s, ("{ " if T[st - 1].t == "|" else "") + "crate::vp::unwrap_or_else(crate::vp::do_try_into("); f.ed(T[i].s, T[i + 6].e, "), "); f.ed(T[e].e, T[e].e, " }" if T[st - 1].t == "|" else "")
                i += 7; continue
            if seq("let", "[") and T[T[i + 1].m + 1].t == "=":      # let [a, b] = e;
                c = T[i + 1].m; q = c + 2; ns = [x.t for x in T[i + 2:c] if x.t != ","]
                while T[q].t != ";": q = T[q].m + 1 if T[q].t in ("(", "[", "{") else q + 1
                if all(x.isidentifier() for x in ns):
                    f.ed(T[i + 1].s, T[c].e, "vp_arr"); f.ed(T[q].e, T[q].e, "".join(f" let {x} = vp_arr[{n}];" for n, x in enumerate(ns))); i = c; continue
            if T[i].k == "id" and t in s.gats and T[i - 1].t == "::" and seq(t, "<") and T[i + 2].t.startswith("'") and T[i + 3].t == ">": f.ed(T[i + 1].s, T[i + 3].e, ""); i += 4; continue
            if seq("error", "::", "Error"): f.ed(T[i].s, T[i + 2].e, "crate::vp::Error"); i += 3; continue
            if seq("use", "smallvec"): 
                j = i
                while T[j].t != ";": j += 1
                f.ed(T[i].s, T[j].e, "use crate::vp::SmallVec;"); i = j; continue
            if seq("use", "backtrace") or seq("use", "rand") or seq("use", "zot"):
                j = i
                while T[j].t != ";": j += 1
                f.ed(T[i].s, T[j].e, ""); i = j; continue
            if t == "clone" and T[i - 1].t == "." and seq("clone", "(", ")"): f.ed(T[i].s, T[i].e, "vp_clone"); i += 3; continue
            if T[i].k == "id" and t in s.consts and T[i - 1].t == "::" and T[i + 1].t != "(": f.ed(T[i].e, T[i].e, "()")
            if seq("match", "&", "mut"): s.guarded(f, i)
            if t == "for" and T[i - 1].t in ("{", "}", ";") and T[i + 1].t != "<": s.for_loop(f, i)
            if t in ("|", "||"): s.error_closure(f, i)
            if t == "Iterator" and T[i - 1].t != "::" and not s.in_use(f, i): f.ed(T[i].s, T[i].e, "crate::vp::VpIterator")
            if seq(".", "next", "(", ")"): f.ed(T[i + 1].s, T[i + 1].e, "vp_next")
            if seq(".", "map", "(", "Into", "::", "into", ")"): f.ed(T[i + 1].s, T[i + 6].e, "vp_map_into()"); i += 7; continue
            if seq(".", "chain", "(", "iter", "::", "once", "("):
                f.ed(T[i + 1].s, T[i + 6].e, "vp_chain_once("); f.ed(T[T[i + 6].m].s, T[T[i + 2].m].e, ")"); i += 7; continue
            if t == "(" and T[i + 2].t == ".." and T[i].m == i + 4 and all(T[i + 5 + n].t == w for n, w in enumerate((".", "collect", "(", ")"))):
                f.ed(T[i].s, T[i + 8].e, f"crate::vp::range_vec({T[i + 1].t}, {T[i + 3].t})"); i += 9; continue
            if T[i].k == "id" and all(i + 1 + n < len(T) and T[i + 1 + n].t == w for n, w in enumerate(("[", "..", "]", ".", "shuffle", "(", "&", "mut", "rand", "::", "thread_rng", "(", ")", ")"))):
                f.edits = [x for x in f.edits if not (T[i].s <= x[0] <= T[i + 3].e)]
                f.ed(T[i].s, T[i + 14].e, f"crate::vp::shuffle(&mut {t})"); i += 15; continue
            if t in ("map_err",) and seq("map_err", "(") and T[T[i + 1].m - 1].k == "id" and T[T[i + 1].m - 1].t[0].isupper() and T[T[i + 1].m - 2].t == "::":
                q = f.src(i + 2, T[i + 1].m)
                f.ed(T[i + 2].s, T[T[i + 1].m - 1].e, f"|vp_e| -> (vp_r: {s.err_ty(f, i, q.split('::')[-2])}) ensures vp_r == {q}(vp_e) {{ {q}(vp_e) }}".replace('Self', 'VpS' if any(a <= i < b for a, b in getattr(f, 'freed', [])) else 'Self')); i = T[i + 1].m; continue
            if t == "const" and T[i + 2].t == ":" and T[i + 3].t == "&" and T[i + 4].t == "str": f.ed(T[i + 3].e, T[i + 3].e, "'static ")
            if seq(".", "get_unchecked", "("): f.ed(T[i + 1].s, T[i + 1].e, "vp_get_unchecked"); i += 3; continue
            if t == "NonZeroUsize" and not s.in_use(f, i): f.ed(T[i].s, T[i].e, "crate::vp::NonZeroUsize"); i += 1; continue
            if seq("pub", "(", "crate", ")"): f.ed(T[i + 1].s, T[i + 3].e, ""); i += 4; continue
            if T[i].k == "id" and i + 1 < len(T) and T[i + 1].t == "!" and T[i + 2].t in ("(", "["):
                c = T[i + 2].m
                if t in ("debug_assert", "debug_assert_eq", "debug_assert_ne"):
                    e = c + 1 if T[c + 1].t == ";" else c
                    f.edits = [x for x in f.edits if not (T[i].s <= x[0] < T[e].e)]
                    f.ed(T[i].s, T[e].e, ""); i = c + 1; continue
                if t == "format":
                    f.edits = [x for x in f.edits if not (T[i].s <= x[0] < T[c].e)]
                    f.ed(T[i].s, T[c].e, "crate::vp::message()"); i = c + 1; continue
                if t == "smallvec": f.ed(T[i].s, T[i + 1].e, "crate::vp::SmallVec::vp_from_vec(vec!"); f.ed(T[c].e, T[c].e, ")")
            if t == "#" and T[i + 1].t == "[":      # attributes left inside bodies
                z = f.squash(i, T[i + 1].m + 1)
                if z.startswith("#[cfg(") and "_debugging" in z and "not(" not in z:
                    # drop the statement that follows
                    j = T[i + 1].m + 1
                    st = j
                    if T[j].t == "{": j = T[j].m
                    else:
                        while T[j].t not in (";", ",", "}"): j = T[j].m + 1 if T[j].t in ("(", "[", "{") else j + 1
                        if T[j].t == "}": j -= 1
                    f.edits = [x for x in f.edits if not (T[i].s <= x[0] < T[j].e)]
                    f.ed(T[i].s, T[j].e, ""); i = j + 1; continue
            i += 1

def lex_loose(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        k = m.lastgroup
        if k not in ("ws", "lc", "bc"): out.append(Tok(k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out
