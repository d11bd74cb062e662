"""Translate Charm++ interface (.ci) files, including structured-dagger bodies, to C++ for the simulated runtime."""
import os
import re
import sys


class CiError(Exception):
    pass


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c in "\"'":
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            out.append(s[i : j + 1])
            i = j + 1
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            out.append(" ")
            i = j + 2
        else:
            out.append(c)
            i += 1
    return "".join(out)


class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def peek(self, t):
        self.ws()
        if not self.s.startswith(t, self.i):
            return False
        if t[-1].isalnum() or t[-1] == "_":
            e = self.i + len(t)
            return e >= len(self.s) or not (self.s[e].isalnum() or self.s[e] == "_")
        return True

    def accept(self, t):
        if self.peek(t):
            self.i += len(t)
            return True
        return False

    def expect(self, t):
        if not self.accept(t):
            raise CiError(f"expected {t!r} at {self.s[self.i:self.i+60]!r}")

    def ident(self):
        self.ws()
        m = re.compile(r"[A-Za-z_]\w*").match(self.s, self.i)
        if not m:
            raise CiError(f"identifier expected at {self.s[self.i:self.i+60]!r}")
        self.i = m.end()
        return m.group(0)

    def until(self, t):
        j = self.s.find(t, self.i)
        if j < 0:
            raise CiError(f"{t!r} not found")
        r = self.s[self.i : j]
        self.i = j + len(t)
        return r.strip()

    def balanced(self, a, b):
        """Text between the matching delimiters a..b that start here."""
        self.expect(a)
        st, d, i, s = self.i, 1, self.i, self.s
        while d:
            if i >= len(s):
                raise CiError("unbalanced " + a)
            c = s[i]
            if c in "\"'":
                i += 1
                while s[i] != c:
                    i += 2 if s[i] == "\\" else 1
            elif c == a:
                d += 1
            elif c == b:
                d -= 1
            i += 1
        self.i = i
        return s[st : i - 1]

    def eof(self):
        self.ws()
        return self.i >= len(self.s)


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def parse_params(s):
    ps = []
    for t in split_top(s):
        if t == "void":
            continue
        m = re.match(r"^(.*?[\w>&*\s])\b(\w+)\s*\[(.*)\]$", t, re.S)
        if m:
            ps.append({"k": "arr", "t": m.group(1).strip(), "n": m.group(2), "len": m.group(3).strip()})
            continue
        m = re.match(r"^(.*?)\s*\*\s*(\w*)$", t, re.S)
        if m:
            ps.append({"k": "msg", "t": m.group(1).strip(), "n": m.group(2) or "m"})
            continue
        m = re.match(r"^(.*?)\s*&\s*(\w*)$", t, re.S) or re.match(r"^(.*?[\w>])\s+(\w+)$", t, re.S)
        if m:
            ps.append({"k": "val", "t": re.sub(r"^const\s+", "", m.group(1).strip()), "n": m.group(2) or f"a{len(ps)}"})
            continue
        ps.append({"k": "val", "t": t, "n": f"a{len(ps)}"})
    return ps


def parse_file(path):
    with open(path, encoding="utf-8") as f:
        p = P(strip_comments(f.read()))
    mods = []
    while not p.eof():
        if p.accept(";"):
            continue
        main = p.accept("mainmodule")
        if not main:
            p.expect("module")
        m = {"name": p.ident(), "main": main, "includes": [], "readonly": [], "extern": [], "messages": [], "chares": []}
        q = P(p.balanced("{", "}"))
        while not q.eof():
            if q.accept(";"):
                continue
            if q.accept("include"):
                m["includes"].append(q.until(";").strip().strip('"'))
            elif q.accept("readonly"):
                t = q.until(";")
                mm = re.match(r"^(.*?)\s*(\w+)$", t, re.S)
                m["readonly"].append((mm.group(1).strip(), mm.group(2)))
            elif q.accept("extern"):
                q.expect("module")
                m["extern"].append(q.until(";"))
            elif q.accept("message"):
                n = q.ident()
                if q.peek("{"):
                    if q.balanced("{", "}").strip():
                        raise CiError("variable-size messages are not supported")
                m["messages"].append(n)
            elif q.accept("mainchare") or q.accept("chare"):
                m["chares"].append(parse_chare(q, dim=0, main="mainchare" in q.s[: q.i].split("}")[-1]))
            elif q.accept("array"):
                q.ws()
                d = q.balanced("[", "]").strip()
                m["chares"].append(parse_chare(q, dim=int(d[0])))
            elif q.accept("initnode") or q.accept("initproc"):
                q.until(";")
            else:
                raise CiError(f"unsupported construct at {q.s[q.i:q.i+60]!r}")
        mods.append(m)
    return mods


def parse_chare(q, dim, main=False):
    q.ws()
    if q.peek("["):
        q.balanced("[", "]")
    c = {"name": q.ident(), "dim": dim, "main": main, "entries": []}
    if q.accept(":"):
        q.until("{")
        q.i -= 1
    b = P(q.balanced("{", "}"))
    while not b.eof():
        if b.accept(";"):
            continue
        b.expect("entry")
        attrs = set()
        b.ws()
        if b.peek("["):
            attrs = {a.strip() for a in b.balanced("[", "]").split(",")}
        b.accept("void")
        name = b.ident()
        ps = parse_params(b.balanced("(", ")"))
        b.ws()
        body = b.balanced("{", "}") if b.peek("{") else None
        c["entries"].append({"name": name, "params": ps, "attrs": attrs, "body": body, "ctor": name == c["name"]})
    return c


# ---- structured dagger ----
def parse_when(p):
    """After 'when': list of (entry, ref, params)."""
    out = []
    while True:
        n = p.ident()
        p.ws()
        ref = p.balanced("[", "]") if p.peek("[") else None
        out.append((n, ref, parse_params(p.balanced("(", ")"))))
        if not p.accept(","):
            return out


def parse_stmts(s):
    p, out = P(s), []
    while not p.eof():
        st = parse_stmt(p)
        if st:
            out.append(st)
    return out


def parse_stmt(p):
    if p.accept(";"):
        return None
    if p.peek("{"):
        return ("block", parse_stmts(p.balanced("{", "}")))
    for kw in ("serial", "atomic"):
        if p.accept(kw):
            p.ws()
            if p.peek('"'):
                p.i = p.s.index('"', p.i + 1) + 1
            return ("serial", p.balanced("{", "}"))
    if p.accept("when"):
        ws = parse_when(p)
        p.ws()
        body = parse_stmt(p)
        return ("when", ws, body)
    if p.accept("if"):
        c = p.balanced("(", ")")
        a = parse_stmt(p)
        b = parse_stmt(p) if p.accept("else") else None
        return ("if", c, a, b)
    if p.accept("while"):
        c = p.balanced("(", ")")
        return ("while", c, parse_stmt(p))
    if p.accept("for"):
        c = p.balanced("(", ")")
        return ("for", c, parse_stmt(p))
    if p.accept("forall"):
        v = p.balanced("[", "]").strip()
        r = p.balanced("(", ")")
        return ("forall", v, r, parse_stmt(p))
    if p.accept("overlap"):
        return ("overlap", parse_stmts(p.balanced("{", "}")))
    if p.accept("case"):
        return ("case", parse_stmts(p.balanced("{", "}")))
    raise CiError(f"unsupported statement at {p.s[p.i:p.i+80]!r}")


def whens_in(stmts):
    out = set()
    for s in stmts:
        if s is None:
            continue
        if s[0] == "when":
            out |= {w[0] for w in s[1]}
            out |= whens_in([s[2]])
        elif s[0] in ("block", "overlap", "case"):
            out |= whens_in(s[1])
        elif s[0] == "if":
            out |= whens_in([s[2], s[3]])
        elif s[0] in ("while", "for"):
            out |= whens_in([s[2]])
        elif s[0] == "forall":
            out |= whens_in([s[3]])
    return out


class Gen:
    def __init__(self, mods):
        self.mods = mods
        self.n = 0
        self.ids = {}
        self.ents = {}
        cid = 1
        for m in mods:
            for c in m["chares"]:
                self.ids[c["name"]] = cid
                cid += 1
                wh = set()
                for e in c["entries"]:
                    e["ast"] = parse_stmts(e["body"]) if e["body"] is not None else None
                    if e["ast"] is not None:
                        wh |= whens_in(e["ast"])
                c["whens"] = wh
                for k, e in enumerate(c["entries"]):
                    e["ep"] = self.ids[c["name"]] * 1000 + k + 1
                    e["struct"] = f"EPM_{c['name']}_{e['name']}" + ("" if not any(x is not e and x["name"] == e["name"] for x in c["entries"]) else f"_{k}")
                    self.ents[(c["name"], e["name"])] = e
                    e["kind"] = "K_CTOR" if e["ctor"] else "K_SDAG" if e["ast"] is not None else "K_WHEN" if e["name"] in wh else "K_PLAIN"
                missing = wh - {e["name"] for e in c["entries"]}
                if missing:
                    raise CiError(f"when on undeclared entries {missing}")

    def ptype(self, p):
        return {"arr": f"const {p['t']} *", "msg": f"{p['t']} *", "val": f"const {p['t']} &"}[p["k"]]

    def sig(self, e):
        return ", ".join(self.ptype(p) + p["n"] for p in e["params"])

    def decl(self, m):
        o = [f"#ifndef _DECL_{m['name']}_H_", f"#define _DECL_{m['name']}_H_", '#include "charm++.h"', "#include <memory>"]
        o += [f'#include "{i}"' for i in m["includes"]]
        o += [f'#include "{i}.decl.h"' for i in m["extern"]]
        for g in m["messages"]:
            o += [f"class {g};", f"class CMessage_{g} : public CkMessage {{ public: static void pup(PUP::er &) {{}} }};"]
        for c in m["chares"]:
            n = c["name"]
            o += [f"class {n};"]
            o += [f"struct CkIndex_{n} {{"]
            for e in c["entries"]:
                if e["ctor"]:
                    continue
                o += [f"  static int {e['name']}({', '.join(self.ptype(p) for p in e['params'])}) {{ return {e['ep']}; }}"]
                if e["params"] and e["params"][0]["k"] != "msg":
                    o += [f"  static int idx_{e['name']}() {{ return {e['ep']}; }}"]
                o += [f"  static int redn_wrapper_{e['name']}(void *) {{ return {e['ep']}; }}"]
            o += ["};"]
            base = "  int _arr = -1, _x = 0, _y = 0, _z = 0; bool _bcast = {b};\n  void pup(PUP::er &p) {{ p | _arr; p | _x; p | _y; p | _z; p | _bcast; }}"
            meths = [f"  void {e['name']}({self.sig(e)}) const;" for e in c["entries"] if not e["ctor"]]
            o += [f"class CProxyElement_{n} {{ public:", base.format(b="false")] + meths + ["};"]
            ctor = [e for e in c["entries"] if e["ctor"]]
            o += [f"class CProxy_{n} {{ public:", base.format(b="true" if c["dim"] else "false")] + meths
            if c["dim"]:
                for e in ctor:
                    s = self.sig(e)
                    s = s + ", " if s else ""
                    o += [f"  static CProxy_{n} ckNew({s}int n0, int n1 = 1, int n2 = 1);", f"  static CProxy_{n} ckNew({s}const CkArrayOptions &o);"]
                o += [f"  CProxyElement_{n} operator[](const CkArrayIndex3D &i) const {{ CProxyElement_{n} e; e._arr = _arr; e._x = i.x; e._y = i.y; e._z = i.z; return e; }}"]
                o += [f"  CProxyElement_{n} operator()(int x, int y = 0, int z = 0) const {{ return (*this)[CkArrayIndex3D(x, y, z)]; }}"]
                o += ["  CkArrayID ckGetArrayID() const { CkArrayID a; a.id = _arr; return a; }"]
            o += ["};"]
            if c["dim"]:
                o += [f"class CProxySection_{n} {{ public:", "  std::shared_ptr<csim::Section> _s;", "  void pup(PUP::er &) {}"] + meths
                o += [f"  static CProxySection_{n} ckNew(const CkArrayID &a, int x0, int x1, int dx, int y0, int y1, int dy, int z0, int z1, int dz);"]
                o += [f"  static CProxySection_{n} ckNew(const CkArrayID &a, const std::vector<CkArrayIndex3D> &v);"]
                o += ["  template <class T> static void contribute(const std::vector<T> &v, CkReduction::reducerType t, CkSectionInfo &c, const CkCallback &cb) { csim_section_contribute(v.data(), v.size() * sizeof(T), t, c, cb); }"]
                o += ["  static void contribute(size_t n, const void *d, CkReduction::reducerType t, CkSectionInfo &c, const CkCallback &cb) { csim_section_contribute(d, n, t, c, cb); }"]
                o += ["  static void contribute(CkSectionInfo &c, const CkCallback &cb) { csim_section_contribute(nullptr, 0, CkReduction::nop, c, cb); }"]
                o += ["  static void csim_section_contribute(const void *d, size_t n, CkReduction::reducerType t, CkSectionInfo &c, const CkCallback &cb);", "};"]
            o += [f"class CBase_{n} : public csim::ChareBase<CProxy_{n}> {{ public: CBase_{n}() {{}} CBase_{n}(CkMigrateMessage *m) : csim::ChareBase<CProxy_{n}>(m) {{}} }};"]
            sd = " ".join(f"void _sd_{e['name']}(csim::Msg *);" for e in c["entries"] if e["ast"] is not None)
            o += [f"#define {n}_SDAG_CODE public: {sd} static const int _csim_has_sdag = 1; private: public:"]
        o += ["#endif"]
        return "\n".join(o) + "\n"

    def defs(self, m):
        o = ["#include <utility>", "#include <type_traits>"]
        regs = []
        for t, n in m["readonly"]:
            o += [f"extern {t} {n};"]
            regs += [f"csim::register_readonly((void *)&{n}, sizeof({n}));"]
        for c in m["chares"]:
            n, cid = c["name"], self.ids[c["name"]]
            for e in c["entries"]:
                ps = e["params"]
                o += [f"struct {e['struct']} : csim::Msg {{"]
                for p in ps:
                    if p["k"] == "arr":
                        o += [f"  std::vector<{p['t']}> {p['n']};"]
                    elif p["k"] == "msg":
                        o += [f"  {p['t']} *{p['n']} = nullptr;"]
                    else:
                        o += [f"  {p['t']} {p['n']};"]
                cl = "".join(f" if (r->{p['n']}) r->{p['n']} = new {p['t']}(*r->{p['n']});" for p in ps if p["k"] == "msg" and p["t"] != "CkArgMsg")
                o += [f"  csim::Msg *clone() const override {{ auto r = new {e['struct']}(*this);{cl} return r; }}", "};"]
                # build from arguments
                o += [f"static {e['struct']} *mk_{e['struct']}({self.sig(e)}) {{", f"  auto _q = new {e['struct']};"]
                for i, p in enumerate(ps):
                    if p["k"] == "arr":
                        o += [f"  if ({p['len']} > 0) _q->{p['n']}.assign({p['n']}, {p['n']} + ({p['len']}));"]
                    else:
                        o += [f"  _q->{p['n']} = {p['n']};"]
                    if i == 0 and p["k"] == "val":
                        o += [f"  _q->refnum = csim::ref_of({p['n']});"]
                o += ["  return _q;", "}"]
                # wrap a callback message
                o += [f"static csim::Msg *fm_{e['struct']}(void *v) {{"]
                if len(ps) == 1 and ps[0]["k"] == "msg":
                    o += [f"  auto q = new {e['struct']}; q->{ps[0]['n']} = ({ps[0]['t']} *)v; return q;"]
                elif not ps:
                    o += [f"  return new {e['struct']};"]
                else:
                    o += [f"  auto q = new {e['struct']}; CkReductionMsg *r = (CkReductionMsg *)v; char *d = r ? r->data.data() : nullptr; size_t left = r ? r->data.size() : 0; (void)d; (void)left;"]
                    sizes = {p["len"] for p in ps if p["k"] == "arr"}
                    arr = [p for p in ps if p["k"] == "arr"]
                    for p in ps:
                        if p["k"] == "val" and p["n"] in sizes:
                            o += [f"  q->{p['n']} = (int)(left / sizeof({arr[0]['t']}));"]
                        elif p["k"] == "arr":
                            o += [f"  q->{p['n']}.assign(({p['t']} *)d, ({p['t']} *)(d + left));"]
                        elif p["k"] == "val":
                            o += [f"  if constexpr (std::is_trivially_copyable<{p['t']}>::value) {{ if (left >= sizeof({p['t']})) {{ memcpy((void *)&q->{p['n']}, d, sizeof({p['t']})); d += sizeof({p['t']}); left -= sizeof({p['t']}); }} }}"]
                    if ps[0]["k"] == "val":
                        o += [f"  q->refnum = csim::ref_of(q->{ps[0]['n']});"]
                    o += ["  return q;"]
                o += ["}"]
                if e["ctor"]:
                    continue
                args = ", ".join(p["n"] for p in ps)
                o += [f"void CProxyElement_{n}::{e['name']}({self.sig(e)}) const {{ csim::send(_arr, _x, _y, _z, {e['ep']}, mk_{e['struct']}({args})); }}"]
                if c["dim"]:
                    o += [f"void CProxy_{n}::{e['name']}({self.sig(e)}) const {{ csim::broadcast(_arr, {e['ep']}, mk_{e['struct']}({args})); }}"]
                    o += [f"void CProxySection_{n}::{e['name']}({self.sig(e)}) const {{"]
                    o += [f"  {e['struct']} *b = mk_{e['struct']}({args});"]
                    for p in ps:
                        if p["k"] == "msg":
                            o += [f"  csim::set_cookie({p['n']}, _s->id);"]
                    o += [f"  for (size_t i = 0; i < _s->e.size(); i++) csim::send(_s->array, _s->e[i].x, _s->e[i].y, _s->e[i].z, {e['ep']}, i + 1 == _s->e.size() ? b : b->clone());", "}"]
                else:
                    o += [f"void CProxy_{n}::{e['name']}({self.sig(e)}) const {{ csim::send(_arr, 0, 0, 0, {e['ep']}, mk_{e['struct']}({args})); }}"]
            if c["dim"]:
                for e in c["entries"]:
                    if e["ctor"]:
                        s = self.sig(e)
                        s = s + ", " if s else ""
                        a = ", ".join(p["n"] for p in e["params"])
                        a2 = a + ", " if a else ""
                        o += [f"CProxy_{n} CProxy_{n}::ckNew({s}int n0, int n1, int n2) {{ CProxy_{n} p; p._arr = csim::new_array({cid}, mk_{e['struct']}({a}), n0, n1, n2); return p; }}"]
                        o += [f"CProxy_{n} CProxy_{n}::ckNew({s}const CkArrayOptions &o) {{ return ckNew({a2}o.n[0], o.n[1], o.n[2]); }}"]
                o += [f"CProxySection_{n} CProxySection_{n}::ckNew(const CkArrayID &a, const std::vector<CkArrayIndex3D> &v) {{ CProxySection_{n} p; p._s = csim::new_section(a.id, v); return p; }}"]
                o += [f"CProxySection_{n} CProxySection_{n}::ckNew(const CkArrayID &a, int x0, int x1, int dx, int y0, int y1, int dy, int z0, int z1, int dz) {{", "  std::vector<CkArrayIndex3D> v;", "  for (int x = x0; x <= x1; x += dx) for (int y = y0; y <= y1; y += dy) for (int z = z0; z <= z1; z += dz) v.push_back(CkArrayIndex3D(x, y, z));", "  return ckNew(a, v);", "}"]
                o += [f"void CProxySection_{n}::csim_section_contribute(const void *d, size_t nb, CkReduction::reducerType t, CkSectionInfo &c, const CkCallback &cb) {{ csim::Where w; csim::section_contribute(w, c, d, nb, t, cb); }}"]
            for e in c["entries"]:
                if e["ast"] is not None:
                    o += [f"void {n}::_sd_{e['name']}(csim::Msg *_m0) {{"]
                    o += self.bind(e, e["params"], "_m0")
                    for s in e["ast"]:
                        o += self.emit(c, s, 1)
                    o += ["  delete _m0;", "}"]
            # type registration
            ct = [e for e in c["entries"] if e["ctor"]]
            o += [f"struct _csim_ops_{n} {{"]
            o += ["  static void construct(void *mem, csim::Msg *m) {"]
            if ct:
                e = ct[0]
                o += [f"    auto q = ({e['struct']} *)m; (void)q;"]
                vals = e["params"]
                if len(vals) == 1 and vals[0]["k"] == "val":
                    T = vals[0]["t"]
                    o += [f"    csim::construct_from<{n}, {T}>(mem, q->{vals[0]['n']});"]
                else:
                    o += [f"    new (mem) {n}({', '.join(('q->' + p['n'] + ('.data()' if p['k'] == 'arr' else '')) if p['k'] != 'val' else 'std::move(q->' + p['n'] + ')' for p in vals)});"]
            o += ["  }"]
            o += [f"  template <class T> static void mig(void *mem) {{ if constexpr (std::is_constructible<T, CkMigrateMessage *>::value) {{ CkMigrateMessage *mm = nullptr; new (mem) T(mm); }} else csim_no_migration(); }}"]
            o += ["  static void csim_no_migration() { CkAbort(\"no migration constructor\"); }"]
            o += [f"  static void destroy(void *mem) {{ (({n} *)mem)->~{n}(); }}", f"  static void pup(void *mem, PUP::er &p) {{ (({n} *)mem)->pup(p); }}", "};"]
            regs += [f"csim::register_type({cid}, csim::ChareType{{\"{n}\", sizeof({n}), &_csim_ops_{n}::construct, &_csim_ops_{n}::mig<{n}>, &_csim_ops_{n}::destroy, &_csim_ops_{n}::pup, std::is_same<decltype(&{n}::pup), void ({n}::*)(PUP::er &)>::value}});"]
            for e in c["entries"]:
                inv = "nullptr"
                if e["kind"] == "K_SDAG":
                    inv = f"[](void *o, csim::Msg *m) {{ (({n} *)o)->_sd_{e['name']}(m); }}"
                elif e["kind"] == "K_PLAIN":
                    a = ", ".join(("q->" + p["n"] + ".data()") if p["k"] == "arr" else ("q->" + p["n"]) for p in e["params"])
                    inv = f"[](void *o, csim::Msg *m) {{ auto q = ({e['struct']} *)m; (void)q; (({n} *)o)->{e['name']}({a}); delete m; }}"
                regs += [f"csim::register_entry(csim::Entry{{{e['ep']}, {cid}, \"{e['name']}\", csim::{e['kind']}, {inv}, &fm_{e['struct']}}});"]
        o += [f"namespace {{ struct CsimReg_{m['name']} {{ CsimReg_{m['name']}() {{"] + ["  " + r for r in regs] + [f"}} }} csim_reg_{m['name']}; }}"]
        return "\n".join(o) + "\n"

    def bind(self, e, params, var):
        """Bind the formal parameters of a when (or of the entry itself) to the message's fields, by position."""
        o = []
        for p, d in zip(params, e["params"]):
            if d["k"] == "arr":
                o += [f"  {d['t']} *{p['n']} = (({e['struct']} *){var})->{d['n']}.data(); (void){p['n']};"]
            elif d["k"] == "msg":
                o += [f"  {d['t']} *{p['n']} = (({e['struct']} *){var})->{d['n']}; (void){p['n']};"]
            else:
                o += [f"  {d['t']} &{p['n']} = (({e['struct']} *){var})->{d['n']}; (void){p['n']};"]
        return o

    def emit(self, c, s, ind):
        if s is None:
            return []
        k = s[0]
        if k == "serial":
            return ["[&]() {", s[1], "}();"]
        if k == "block":
            return ["{"] + [x for t in s[1] for x in self.emit(c, t, ind)] + ["}"]
        if k == "when":
            o, names = ["{"], []
            for n, ref, ps in s[1]:
                e = self.ents[(c["name"], n)]
                self.n += 1
                v = f"_m{self.n}"
                names.append((v, e, ps))
                o += [f"csim::Msg *{v} = csim::wait((void *)this, {e['ep']}, {'true' if ref else 'false'}, {'csim::ref_of((int)(' + ref + '))' if ref else '0'});"]
            for v, e, ps in names:
                o += self.bind(e, ps, v)
            o += self.emit(c, s[2], ind + 1)
            o += [f"delete {v};" for v, _, _ in names]
            return o + ["}"]
        if k == "if":
            o = [f"if ({s[1]}) {{"] + self.emit(c, s[2], ind + 1) + ["}"]
            if s[3]:
                o += ["else {"] + self.emit(c, s[3], ind + 1) + ["}"]
            return o
        if k == "while":
            return [f"while ({s[1]}) {{"] + self.emit(c, s[2], ind + 1) + ["}"]
        if k == "for":
            return [f"for ({s[1]}) {{"] + self.emit(c, s[2], ind + 1) + ["}"]
        if k == "overlap":
            self.n += 1
            o = ["{", f"std::vector<std::function<void()>> _f{self.n};"]
            f = f"_f{self.n}"
            for t in s[1]:
                o += [f"{f}.push_back([&]() {{"] + self.emit(c, t, ind + 1) + ["});"]
            return o + [f"csim::run_parallel((void *)this, std::move({f}));", "}"]
        if k == "forall":
            lo, rest = s[2].split(":", 1)
            hi, st = split_top(rest)
            self.n += 1
            f = f"_f{self.n}"
            return ["{", f"std::vector<std::function<void()>> {f};", f"for (int _i = ({lo}); _i <= ({hi}); _i += ({st})) {f}.push_back([&, _i]() {{ int {s[1]} = _i; (void){s[1]};"] + self.emit(c, s[3], ind + 1) + ["});", f"csim::run_parallel((void *)this, std::move({f}));", "}"]
        if k == "case":
            self.n += 1
            v = f"_c{self.n}"
            ws = [t for t in s[1] if t[0] == "when"]
            if len(ws) != len(s[1]) or any(len(t[1]) != 1 or t[1][0][1] for t in ws):
                raise CiError("unsupported case statement")
            es = [self.ents[(c["name"], t[1][0][0])] for t in ws]
            o = ["{", f"csim::Msg *{v} = nullptr;", f"int {v}w = csim::wait_any((void *)this, {{{', '.join(str(e['ep']) for e in es)}}}, &{v});"]
            for i, (t, e) in enumerate(zip(ws, es)):
                o += [f"if ({v}w == {i}) {{"] + self.bind(e, t[1][0][2], v) + self.emit(c, t[2], ind + 1) + ["}"]
            return o + [f"delete {v};", "}"]
        raise CiError(k)


def translate(files, outdir):
    mods = []
    for f in files:
        mods += parse_file(f)
    mods.sort(key=lambda m: not m["main"])
    g = Gen(mods)
    os.makedirs(outdir, exist_ok=True)
    for m in mods:
        with open(os.path.join(outdir, m["name"] + ".decl.h"), "w", encoding="utf-8") as f:
            f.write(g.decl(m))
        with open(os.path.join(outdir, m["name"] + ".def.h"), "w", encoding="utf-8") as f:
            f.write(g.defs(m))
    return g


if __name__ == "__main__":
    translate(sys.argv[2:], sys.argv[1])
