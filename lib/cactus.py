"""Generated Cactus thorns on a simulated flesh: parse the .ccl files, build, and turn a seed into a script of scheduled actions."""
import concurrent.futures as cf
import os
import re
import shutil

import crun
import vlib

SIM = os.path.join(vlib.VERIF, "sim", "cactus")
EXT = {
    "ADMBase": {"metric": "gxx gxy gxz gyy gyz gzz", "curv": "kxx kxy kxz kyy kyz kzz", "lapse": "alp", "shift": "betax betay betaz", "dtshift": "dtbetax dtbetay dtbetaz", "dtlapse": "dtalp"},
    "TmunuBase": {"stress_energy_scalar": "eTtt", "stress_energy_vector": "eTtx eTty eTtz", "stress_energy_tensor": "eTxx eTxy eTxz eTyy eTyz eTzz"},
    "Grid": {"coordinates": "x y z"},
}
KEYS = "LANG|OPTIONS|READS|WRITES|SYNC|STORAGE|TRIGGERS|INVALIDATES"


def nocomment(s):
    return re.sub(r"(?m)#.*$", "", s).replace("\\\n", " ")


class Thorn:
    def __init__(self, d):
        self.dir, self.name = d, os.path.basename(d)
        rd = lambda f: open(os.path.join(d, f), encoding="utf-8").read()
        s = nocomment(rd("interface.ccl"))
        self.impl = re.search(r"(?im)^\s*implements\s*:\s*(\w+)", s).group(1)
        self.inherits = re.search(r"(?im)^[ \t]*inherits[ \t]*:(.*)$", s).group(1).replace(",", " ").split()
        self.groups = {}
        for m in re.finditer(r"(?is)\bCCTK_REAL\s+(\w+)\s+type\s*=\s*GF\b([^{}]*(?:'[^']*')?[^{}]*)\{([^{}]*)\}", re.sub(r"parities=\{[^}]*\}", "", s)):
            tl = re.search(r"(?i)timelevels\s*=\s*(\d+)", m.group(2))
            self.groups[m.group(1)] = {
                "vars": [v for v in re.split(r"[\s,]+", m.group(3)) if v],
                "tl": int(tl.group(1)) if tl else 1,
                "ckpt": not re.search(r'(?i)checkpoint\s*=\s*"no"', m.group(2)),
                "rhs": (re.search(r'(?i)\brhs\s*=\s*"(\w+)"', m.group(2)) or [None, None])[1],
            }
        self.params, self.uses = {}, {}
        sect = None
        s = nocomment(rd("param.ccl"))
        pos = 0
        tok = re.compile(r'(?i)\b(shares)\s*:\s*(\w+)|\b(restricted|private|global)\s*:|\bUSES\s+(?:CCTK_)?(INT|REAL|BOOLEAN|KEYWORD|STRING)\s+(\w+)|\bEXTENDS\s+\w+\s+\w+\s*"[^"]*"\s*\{[^}]*\}|\b(?:CCTK_)?(INT|REAL|BOOLEAN|KEYWORD|STRING)\s+(\w+)\s*"[^"]*"[^{]*\{[^}]*\}\s*(\S+)')
        for m in tok.finditer(s, pos):
            if m.group(1):
                sect = m.group(2)
            elif m.group(3):
                sect = None
            elif m.group(4):
                self.uses[m.group(5)] = sect
            elif m.group(6):
                self.params[m.group(7)] = (m.group(6).upper(), m.group(8).strip('"'))
        self.items, self.storage = [], []
        self.schedule(nocomment(rd("schedule.ccl")))
        mk = nocomment(rd("src/make.code.defn"))
        self.srcs = re.search(r"SRCS\s*=(.*?)(?:\n\s*\n|\Z)", mk.replace("\\\n", " "), re.S).group(1).split()

    def schedule(self, s):
        """A recursive-descent reading of schedule.ccl; 'if' conditions are kept as text."""
        i, conds = 0, []
        while i < len(s):
            m = re.compile(r"\s*").match(s, i)
            i = m.end()
            if i >= len(s):
                break
            m = re.compile(r"(?i)STORAGE\s*:([^\n]*)").match(s, i)
            if m:
                self.storage += re.findall(r"(\w+(?:::\w+)?)\s*\[(\d+)\]", m.group(1))
                i = m.end()
                continue
            m = re.compile(r"(?i)if\s*\(").match(s, i)
            if m:
                j, n = m.end(), 1
                while n:
                    n += {"(": 1, ")": -1}.get(s[j], 0)
                    j += 1
                c = s[m.end() : j - 1]
                m = re.compile(r"\s*\{").match(s, j)
                conds.append(c)
                i = m.end()
                continue
            if s[i] == "}":
                conds.pop()
                i += 1
                continue
            m = re.compile(r'(?is)schedule\s+(group\s+)?(\w+)\s+([^{]*)\{(.*?)\}\s*"[^"]*"').match(s, i)
            at = m and re.search(r"(?i)\b(at|in)\s+(\w+)", m.group(3))
            if not at:
                raise vlib.Broken(f"{self.name}: schedule.ccl is not valid near: {s[i:i+120]!r}")
            i = m.end()
            it = {"thorn": self.name, "impl": self.impl, "group": bool(m.group(1)), "name": m.group(2), "bin": at.group(2), "conds": list(conds), "as": m.group(2), "before": [], "after": []}
            mods = m.group(3)
            for k, v in re.findall(r"(?i)\b(as|before|after)\s+(\([^)]*\)|\w+)", mods):
                v = v.strip("()").replace(",", " ").split()
                if k.lower() == "as":
                    it["as"] = v[0]
                else:
                    it[k.lower()] += v
            body = re.split(rf"(?im)^\s*({KEYS})\s*:", "\n" + m.group(4))
            for k, v in zip(body[1::2], body[2::2]):
                it.setdefault(k.upper(), []).extend(x for x in re.split(r"[\s,]+(?![^(]*\))", v.strip()) if x)
            self.items.append(it)


def cname(s):
    return re.sub(r"\W", "_", s)


class Model:
    def __init__(self, dirs, params):
        self.thorns = [Thorn(d) for d in dirs]
        self.x = any(t.srcs and t.srcs[0].endswith(".cxx") for t in self.thorns)
        self.vars, self.gid, self.par = [], {}, {}
        for t in self.thorns:
            for g, i in t.groups.items():
                self.add(t.impl, g, i["vars"], i["tl"], i["ckpt"])
            for n, (ty, v) in t.params.items():
                self.par[(t.impl.lower(), n)] = (ty, str(params.get(n, v)))
        sx = "X" if self.x else ""
        for im, gs in EXT.items():
            for g, vs in gs.items():
                self.add(im + (sx if im != "Grid" else ""), g, vs.split(), 1, im == "ADMBase")
        self.adm, self.tmunu = "ADMBase" + sx, "TmunuBase" + sx
        self.index = {(v["impl"].lower(), v["name"].lower()): k for k, v in enumerate(self.vars)}
        self.funcs = []
        self.items = []
        for t in self.thorns:
            env = {n: self.val(t, n) for n in list(t.params) + list(t.uses)}
            for it in t.items:
                ok = True
                for c in it["conds"]:
                    try:
                        ok = ok and bool(eval(c.replace("&&", " and ").replace("||", " or "), {"CCTK_EQUALS": lambda a, b: a == b, "CCTK_Equals": lambda a, b: a == b}, env))  # pylint: disable=eval-used
                    except NameError as e:
                        raise vlib.Broken(f"{t.name}: schedule.ccl uses a parameter that is not declared: {c}") from e
                if not ok:
                    continue
                it = dict(it)
                it["rd"] = self.clauses(t, it, "READS")
                it["wr"] = self.clauses(t, it, "WRITES")
                it["sync"] = [v for x in it.get("SYNC", []) for v in self.resolve(t, x)]
                opt = " ".join(it.get("OPTIONS", [])).lower()
                it["mode"] = "once" if re.search(r"meta|global|level", opt) else "local"
                if it["bin"].upper() == "STARTUP":
                    it["mode"] = "once"
                self.items.append(it)
                if not it["group"] and it["name"] not in self.funcs:
                    self.funcs.append(it["name"])

    def add(self, impl, g, vs, tl, ckpt):
        gi = self.gid.setdefault((impl.lower(), g.lower()), len(self.gid))
        for v in vs:
            self.vars.append({"impl": impl, "group": g, "name": v, "gi": gi, "tl": tl, "ckpt": ckpt})

    def val(self, t, n):
        im = t.impl if n in t.params else t.uses[n]
        if (im.lower(), n) not in self.par:
            raise vlib.Broken(f"{t.name}: param.ccl uses {im}::{n}, which no thorn declares")
        ty, v = self.par[(im.lower(), n)]
        return int(v) if ty == "INT" else float(v) if ty == "REAL" else v

    def resolve(self, t, x):
        if "::" in x:
            ims, n = [x.split("::")[0]], x.split("::")[1]
        else:
            ims, n = [t.impl] + t.inherits, x
        for im in ims:
            g = self.gid.get((im.lower(), n.lower()))
            if g is not None:
                return [k for k, v in enumerate(self.vars) if v["gi"] == g]
            if (im.lower(), n.lower()) in self.index:
                return [self.index[(im.lower(), n.lower())]]
        raise vlib.Broken(f"{t.name}: schedule.ccl names {x}, which is no variable or group of {ims}")

    def clauses(self, t, it, key):
        out = {}
        for x in it.get(key, []):
            m = re.fullmatch(r"([\w:]+?)(?:\((\w+)\))?", x)
            if not m:
                raise vlib.Broken(f"{t.name}: cannot read {key} clause {x!r} of {it['name']}")
            for v in self.resolve(t, m.group(1)):
                out[v] = (m.group(2) or "default").lower()
        return out

    # ---------------------------------------------------------------- build
    def headers(self, t, d):
        os.makedirs(d, exist_ok=True)
        common = "const int *cctk_lsh = cctkGH->cctk_lsh, *cctk_ash = cctkGH->cctk_ash, *cctk_gsh = cctkGH->cctk_gsh, *cctk_lbnd = cctkGH->cctk_lbnd, *cctk_ubnd = cctkGH->cctk_ubnd, *cctk_bbox = cctkGH->cctk_bbox, *cctk_nghostzones = cctkGH->cctk_nghostzones, *cctk_levfac = cctkGH->cctk_levfac; const int cctk_iteration = cctkGH->cctk_iteration, cctk_dim = 3; const CCTK_REAL cctk_time = cctkGH->cctk_time, cctk_delta_time = cctkGH->cctk_delta_time; const CCTK_REAL *cctk_delta_space = cctkGH->cctk_delta_space, *cctk_origin_space = cctkGH->cctk_origin_space; (void)cctk_lsh; (void)cctk_ash; (void)cctk_gsh; (void)cctk_lbnd; (void)cctk_ubnd; (void)cctk_bbox; (void)cctk_nghostzones; (void)cctk_levfac; (void)cctk_iteration; (void)cctk_dim; (void)cctk_time; (void)cctk_delta_time; (void)cctk_delta_space; (void)cctk_origin_space; "
        ptr = lambda v, c: f"{'const ' if c else ''}CCTK_REAL *CCTK_RESTRICT {self.vars[v]['name']} = cctkGH->data[{v}]; (void){self.vars[v]['name']}; "
        gfx = lambda v, c: f"const Loop::GFx<{'const ' if c else ''}CCTK_REAL> {self.vars[v]['name']}{{cctkGH->data[{v}], cctkGH}}; (void){self.vars[v]['name']}; "
        o = ['#include "cctk.h"', '#ifdef __cplusplus\n#include "loop_device.hxx"\n#endif']
        acc = {}
        for it in self.items:
            if it["thorn"] == t.name and not it["group"]:
                a = acc.setdefault(it["name"], {})
                for v in it["rd"]:
                    a.setdefault(v, True)
                for v in it["wr"]:
                    a[v] = False
        own = {v: False for im in [t.impl] + t.inherits for v, w in enumerate(self.vars) if w["impl"].lower() == im.lower()}
        for f, a in list(acc.items()) + [(None, own)]:
            sfx = "_" + f if f else ""
            if f:
                o.append(f"#ifdef __cplusplus\nextern \"C\"\n#endif\nvoid {f}(CCTK_ARGUMENTS);" if not any(i["name"] == f and i["bin"].upper() == "STARTUP" for i in self.items) else "")
            o.append(f"#define DECLARE_CCTK_ARGUMENTS{sfx} {common}" + "".join(ptr(v, c) for v, c in a.items()))
            o.append(f"#define DECLARE_CCTK_ARGUMENTSX{sfx} {common}const Loop::GridDescBaseDevice grid(cctkGH); (void)grid; " + "".join(gfx(v, c) for v, c in a.items()))
        with open(os.path.join(d, "cctk_Arguments.h"), "w", encoding="utf-8") as fh:
            fh.write("#ifndef SIM_ARGS\n#define SIM_ARGS\n" + "\n".join(o) + "\n#endif\n")
        decl, mac = [], []
        for n in sorted(list(t.params) + [u for u in t.uses]):
            im = t.impl if n in t.params else t.uses[n]
            if im.lower() in ("admbase", "admbasex"):
                continue
            self.val(t, n)
            ty = self.par[(im.lower(), n)][0]
            c = {"INT": "CCTK_INT", "REAL": "CCTK_REAL", "BOOLEAN": "CCTK_INT"}.get(ty, "CCTK_STRING")
            decl.append(f"SIM_C {c} simpar_{im.lower()}_{n};")
            mac.append(f"{c if c == 'CCTK_STRING' else 'const ' + c} {n} = simpar_{im.lower()}_{n}; (void){n}; ")
        with open(os.path.join(d, "cctk_Parameters.h"), "w", encoding="utf-8") as fh:
            fh.write("#ifndef SIM_PARS\n#define SIM_PARS\n#include \"cctk.h\"\n" + "\n".join(decl).replace("SIM_C ", "SIM_C ") + "\n#define DECLARE_CCTK_PARAMETERS " + "".join(mac) + "\n#endif\n")

    def table(self, d):
        o = [f"#define NVAR {len(self.vars)}", f"#define NGRP {len(self.gid)}", "static const struct { const char *impl, *group, *name; int gi, tl; } VARS[] = {"]
        o += [f'{{"{v["impl"]}", "{v["group"]}", "{v["name"]}", {v["gi"]}, {v["tl"]}}},' for v in self.vars] + ["};"]
        o += [f"void {f}();" for f in self.funcs]
        o += ["static const struct { const char *name; void (*f)(); } FUNCS[] = {"] + [f'{{"{f}", (void (*)()){f}}},' for f in self.funcs] + ["};"]
        for (im, n), (ty, v) in sorted(self.par.items()):
            c = {"INT": "int", "REAL": "double", "BOOLEAN": "int"}.get(ty, "const char *")
            v = {"yes": "1", "no": "0", "true": "1", "false": "0"}.get(v.lower(), v) if ty == "BOOLEAN" else f'"{v}"' if c.startswith("const") else v
            o.append(f"{c} simpar_{im}_{n} = {v};")
        o.append("static const struct { const char *name, *thorn; const void *p; int type; } PARS[] = {")
        for t in self.thorns:
            o += [f'{{"{n}", "{t.name}", &simpar_{t.impl.lower()}_{n}, 0}},' for n in t.params]
        o.append("{0, 0, 0, 0}};")
        with open(os.path.join(d, "sim_table.h"), "w", encoding="utf-8") as fh:
            fh.write("\n".join(o) + "\n")

    def build(self, out):
        bd = out + ".d"
        os.makedirs(bd)
        inc = os.path.join(SIM, "include")
        jobs = []
        for t in self.thorns:
            hd = os.path.join(bd, "inc_" + t.name)
            self.headers(t, hd)
            for s in t.srcs:
                p = os.path.join(t.dir, "src", s)
                if not os.path.isfile(p):
                    raise vlib.Broken(f"{t.name}: make.code.defn lists {s}, which was not generated")
                cxx = s.endswith((".cxx", ".cc", ".cpp"))
                fl = ["g++", "-std=gnu++17"] if cxx else ["gcc", "-std=gnu99", "-fopenmp", "-fsanitize=thread", "-Werror=implicit-function-declaration"]
                jobs.append((p, fl + ["-O1", "-g", "-march=native", "-w", f'-DCCTK_THORNSTRING="{t.name}"', "-I" + hd, "-I" + inc, "-I" + os.path.join(t.dir, "src"), "-c", p, "-o", os.path.join(bd, f"{t.name}@{s}.o")]))
        self.table(bd)
        fl = os.path.join(SIM, "flesh.c")
        jobs.append((fl, ["gcc", "-std=gnu99", "-O1", "-g", "-w", "-I" + bd, "-I" + inc, "-c", fl, "-o", os.path.join(bd, "__flesh.o")]))
        jobs.append((crun.RT, ["gcc", "-O2", "-g", "-w", "-c", crun.RT, "-o", os.path.join(bd, "__rt.o")]))
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(max_workers=vlib.NCPU) as ex:
            for (p, c), r in zip(jobs, ex.map(lambda j: vlib.run(j[1]), jobs)):
                if r.returncode:
                    if p in (fl, crun.RT):
                        raise vlib.HarnessError(r.stdout.decode()[-2500:])
                    raise vlib.Broken(f"generated thorn code does not compile against its own declarations: {os.path.basename(p)}\n{r.stdout.decode()[-1500:]}")
        r = vlib.run(["g++", "-no-pie", "-o", out] + [j[1][-1] for j in jobs] + ["-Wl,--wrap=" + w for w in crun.WRAPS] + ["-lm", "-ldl"])
        if r.returncode:
            raise vlib.Broken("the thorns do not link (a scheduled function is not defined, or a needed function is not provided):\n" + r.stdout.decode()[-1500:])
        shutil.rmtree(bd, ignore_errors=True)
        return out

    # ---------------------------------------------------------------- schedule
    def bin_items(self, b, extra=()):
        its = [i for i in self.items if i["bin"].lower() in ({b.lower()} if not b.lower().startswith("cctk_") else {b.lower(), b.lower()[5:]}) or "cctk_" + i["bin"].lower() == b.lower()]
        return list(extra) + its

    def order(self, its, pick):
        """One order the BEFORE/AFTER clauses allow; pick chooses among the items that are ready."""
        names = [i["as"].lower() for i in its]
        alt = [i["name"].lower() for i in its]
        pre = [set() for _ in its]
        for a, i in enumerate(its):
            for b in range(len(its)):
                if a == b:
                    continue
                if names[b] in [x.lower() for x in i["after"]] or (alt[b] == names[b] and alt[b] in [x.lower() for x in i["after"]]):
                    pre[a].add(b)
                if names[b] in [x.lower() for x in i["before"]]:
                    pre[b].add(a)
        done, out = set(), []
        while len(out) < len(its):
            ready = [k for k in range(len(its)) if k not in done and pre[k] <= done]
            if not ready:
                raise vlib.Broken("the schedule has a cycle: " + ", ".join(names[k] for k in range(len(its)) if k not in done))
            k = pick(ready)
            done.add(k)
            out.append(its[k])
        return out

    def script(self, case, W):
        """The linear script of one run.  case: decomp, pad, fill, comps, devs (pick numbers that leave the listed order), seed, recover, failreg."""
        L = []
        picks = [0]
        devs = set(case.get("devs", []))
        q = lambda *a: vlib.derive(case.get("seed", 0), *a)

        def pick(ready):
            n = picks[0]
            picks[0] += 1
            return ready[q("pick", n) % len(ready)] if n in devs else ready[0]

        PS, CR, PE = ("ODESolvers_PostStep", "ODESolvers_RHS", None) if self.x else ("MoL_PostStep", "MoL_CalcRHS", "MoL_PseudoEvolution")
        sim = lambda name, op, after=(), before=(): {"group": True, "name": name, "as": name, "op": op, "after": list(after), "before": list(before), "sync": [], "rd": {}, "wr": {}}
        setadm = self.adm + "_SetADMVars"
        extra = {
            "CCTK_INITIAL": [sim(self.adm + "_PostInitial", [f"adm {self.adm}", f"tmunu {self.tmunu} {self.adm}"])],
            PS: [sim(setadm, []), sim(self.tmunu + "_SetTmunuVars" if self.x else "SetTmunu", [f"tmunu {self.tmunu} {self.adm}"], after=[setadm])],
        }
        orders = {}
        RB = [] if self.x else ["MoL_PostRHS", "MoL_RHSBoundaries"]
        for b in ["STARTUP", "MoL_Register", "Driver_BoundarySelect", "BASEGRID", "CCTK_INITIAL", PS, CR] + RB + ([PE] if PE else []) + ["CCTK_ANALYSIS", "PARAMCHECK", "CCTK_POSTINITIAL", "CCTK_PRESTEP", "CCTK_POSTSTEP"]:
            orders[b] = self.order(self.bin_items(b, extra.get(b, ())), pick)
        known = {b.lower() for b in orders} | {b.lower()[5:] for b in orders if b.startswith("CCTK_")}
        for it in self.items:
            if it["bin"].lower() not in known:
                raise vlib.Broken(f"{it['thorn']}: {it['name']} is scheduled in {it['bin']}, a bin that is never run")
        val = {}  # CarpetX: which parts of a variable are valid
        nocomp, cur = [0], [None]
        rhs_of = {}
        if self.x:
            for t in self.thorns:
                for g, i in t.groups.items():
                    if i["rhs"]:
                        for a, b in zip(self.resolve(t, t.impl + "::" + g), self.resolve(t, t.impl + "::" + i["rhs"])):
                            rhs_of[a] = b
        else:
            for t in self.thorns:
                if "evol_variables" in t.groups and "evol_variables_rhs" in t.groups:
                    for a, b in zip(self.resolve(t, t.impl + "::evol_variables"), self.resolve(t, t.impl + "::evol_variables_rhs")):
                        rhs_of[a] = b
        evol, rhs = sorted(rhs_of), sorted(rhs_of.values())
        aux = [k for k, v in enumerate(self.vars) if v["group"].lower() == "aux_variables" and any(k in i["wr"] for i in self.items)]
        adm = [k for k, v in enumerate(self.vars) if v["impl"] == self.adm and any(k in i["wr"] for i in self.items)]
        dump = evol + aux + adm
        st = lambda vs: " ".join(str(v) for v in vs)

        def comps():
            n = 1
            for c in cur[0]:
                n *= len(c) - 1
            o = list(range(n))
            if case.get("comps"):
                r = q("comp", nocomp[0])
                nocomp[0] += 1
                for i in range(n - 1, 0, -1):
                    j = r % (i + 1)
                    r //= i + 1
                    o[i], o[j] = o[j], o[i]
            return st(o)

        def sync(vs):
            vs = list(vs)
            if not vs:
                return
            if self.x:
                b = [v for v in vs if not val.get(v, {}).get("bnd")]
                if b:
                    L.append("bc " + st(b))
                for v in vs:
                    val[v] = {"int": True, "bnd": True, "ghost": True}
            L.append("sync " + st(vs))

        def run(b):
            for it in orders[b]:
                if "op" in it:
                    for o in it["op"]:
                        L.append(o)
                        if o.startswith(("adm", "tmunu")):
                            im = o.split()[1]
                            for k, v in enumerate(self.vars):
                                if v["impl"] == im:
                                    val[k] = {"int": True, "bnd": True, "ghost": True}
                    continue
                if it["group"]:
                    if it["name"].lower() == "applybcs":
                        L.append("applybcs")
                    else:
                        raise vlib.Broken(f"{it['thorn']}: schedules group {it['name']}, which no thorn provides")
                    continue
                if self.x:
                    need = []
                    for v, r in it["rd"].items():
                        s = val.get(v, {})
                        if r != "boundary" and not s.get("int") and r != "default":
                            raise vlib.Broken(f"{it['name']} reads {self.vars[v]['name']}({r}) before anything wrote it, in an order the schedule allows")
                        if r in ("everywhere", "default") and s.get("int") and not (s.get("bnd") and s.get("ghost")):
                            need.append(v)
                    sync(need)
                for v, r in it["wr"].items():
                    if v not in it["rd"] and r in ("everywhere", "interior"):
                        L.append(f"spoil {2 if r == 'everywhere' else 4} nan {v}")
                fi = self.funcs.index(it["name"])
                L.append(f"once {fi}" if it["mode"] == "once" else f"call {fi} {comps()}")
                if self.x:
                    for v, r in it["wr"].items():
                        s = dict(val.get(v, {}))
                        if r == "everywhere":
                            s = {"int": True, "bnd": True, "ghost": True}
                        elif r == "boundary":
                            s["bnd"] = True
                        else:
                            s = {"int": True, "bnd": False, "ghost": False}
                            L.append(f"spoil 1 nan {v}")
                        val[v] = s
                sync(it["sync"])

        def output():
            if self.x:
                sync([v for v in dump if val.get(v, {}).get("int") and not (val[v].get("bnd") and val[v].get("ghost"))])
            L.append("dump " + st(dump))

        def startup(first):
            cur[0] = (case.get("decomp") if first or not case.get("decomp2") else case["decomp2"]) or W["decomp1"]
            L.append("decomp " + " ".join(f"{len(c) - 1} {st(c)}" for c in cur[0]))
            L.append("build")
            val.clear()
            for k, v in enumerate(self.vars):
                if v["impl"] == "Grid":
                    val[k] = {"int": True, "bnd": True, "ghost": True}
            L.append("coords Grid")
            if self.x:
                for a, b in rhs_of.items():
                    L.append(f"reg {a} {b}")
            run("STARTUP")
            run("PARAMCHECK")
            run("MoL_Register")
            L.append("nevol")
            if case.get("presync"):
                L.append("presync")
                run("Driver_BoundarySelect")
            run("BASEGRID")

        g = W["grid"]
        L.append(f"grid {' '.join(str(n + 2 * g['ng']) for n in g['n'])} {g['ng']} {st(g['org'])} {st(g['dx'])} {g['dt']}")
        L.append("pad " + st(case.get("pad") or [0, 0]))
        L.append(f"seed {q('loop') if case.get('shuffle') else 0}")
        L.append(f"fill {case.get('fill', '0')}")
        if case.get("failreg") is not None:
            L.append(f"failreg {case['failreg']}")
        startup(True)
        L.append("time 0 0")
        run("CCTK_INITIAL")
        run(PS)
        run("CCTK_POSTINITIAL")
        if PE:
            run(PE)
        run("CCTK_ANALYSIS")
        output()
        for it in range(1, g["iters"] + 1):
            if case.get("recover") == it:
                L.append("ckpt " + st(k for k, v in enumerate(self.vars) if v["ckpt"]))
                L.append("crash")
                startup(False)
                L.append(f"time {it - 1} {(it - 1) * g['dt']!r}")
                L.append("recover")
                for k, v in enumerate(self.vars):
                    if v["ckpt"]:
                        val[k] = {"int": True, "bnd": True, "ghost": True}
                run(PS)
            rot = [k for k, v in enumerate(self.vars) if v["tl"] > 1 and k not in rhs_of]
            if rot:
                L.append(f"spoil 2 {case.get('stale', '0')} " + st(rot))
            run("CCTK_PRESTEP")
            L.append("save")
            t0 = (it - 1) * g["dt"]
            for a, b, c, last in ((0.5, 0.0, 0.5, 0), (0.0, 1.0, 1.0, 1)):
                if not self.x:
                    L.append("spoil 2 0.0 " + st(rhs))
                    L.append("spoil 0 nan " + st(rhs))
                for b2 in [CR] + RB:
                    run(b2)
                L.append(f"stage {a} {b} {last}")
                if self.x:
                    ok = all(val.get(v, {}).get("bnd") for v in rhs)
                    L.append(f"spoil {0 if ok else 1} nan " + st(evol))
                    for v in evol:
                        val[v] = {"int": True, "bnd": ok, "ghost": False}
                else:
                    L.append("spoil 0 nan " + st(evol))
                L.append(f"time {it} {t0 + c * g['dt']!r}")
                run(PS)
            run("CCTK_POSTSTEP")
            if PE:
                run(PE)
            run("CCTK_ANALYSIS")
            output()
        return "\n".join(L) + "\n", dump, picks[0]
