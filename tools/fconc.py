"""Rewrites "do concurrent" loops so that the simulator decides the order and the interleaving of their iterations.

gfortran executes these loops in order. The Fortran standard allows any order: each loop becomes an OpenMP loop over a permutation that the
simulator draws. A variable that the loop body defines and that is local to the procedure gets a copy per iteration, as the standard's rules for
variables of unspecified locality imply.
"""
import re, subprocess


def preprocess(src, defs):
    p = subprocess.run(["gfortran", "-cpp", "-E", "-P"] + defs + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr)
    return p.stdout


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for c in s:
        d += c in "([" 
        d -= c in ")]"
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def close_paren(s, i):
    d = 0
    for k in range(i, len(s)):
        d += s[k] == "("
        d -= s[k] == ")"
        if d == 0:
            return k
    return -1


def code(l):
    """The line without comment and character literals."""
    out, q = "", ""
    for c in l:
        if q:
            if c == q:
                q = ""
            out += "_"
        elif c in "'\"":
            q = c
            out += "_"
        elif c == "!":
            break
        else:
            out += c
    return out.rstrip()


def join(lines):
    """Continuation lines joined to one (directives are left alone)."""
    out, buf = [], None
    for l in lines:
        c = code(l)
        if buf is not None:
            if not c.strip():
                if l.strip():
                    continue
                continue
            t = c.strip()
            t = t[1:] if t.startswith("&") else t
            buf += t
            if buf.endswith("&"):
                buf = buf[:-1]
            else:
                out.append(buf)
                buf = None
        elif c.endswith("&") and not l.strip().startswith("!") and "'" not in l and '"' not in l:
            buf = c[:-1]
        else:
            out.append(l)
    return out


def unchain(lines):
    """One statement per line."""
    out = []
    for l in lines:
        c = code(l)
        if ";" not in c or l.lstrip().startswith(("!", "#")):
            out.append(l)
            continue
        at = 0
        for k in [k for k in range(len(c)) if c[k] == ";"] + [len(c)]:
            if l[at:k].strip():
                out.append(l[at:k])
            at = k + 1
    return out


DO = re.compile(r"^\s*(\w+\s*:)?\s*do\b(?!\s*=)", re.I)
END = re.compile(r"^\s*end\s*do\b", re.I)
CONC = re.compile(r"^(\s*)(\w+\s*:)?\s*do\s+concurrent\s*\(", re.I)
PROC = re.compile(r"^\s*((pure|elemental|impure|recursive|module)\s+)*([\w*()= ]+\s+)?(subroutine|function|program)\s+\w+", re.I)
DECL = re.compile(r"^\s*(integer|real|logical|complex|character|double\s+precision)\b(.*?)::(.*)$", re.I)
DECL0 = re.compile(r"^\s*(integer|real|logical|complex|double\s+precision)(\s*\([^)]*\))?\s+(\w.*)$", re.I)


def locals_of(lines, at):
    """Scalars and explicit-shape arrays declared in the procedure around line `at`."""
    a = at
    while a > 0 and not (PROC.match(code(lines[a])) and not re.match(r"^\s*end\b", code(lines[a]), re.I)):
        a -= 1
    dummies = set()
    m = re.search(r"(subroutine|function)\s+\w+\s*\((.*?)\)", code(lines[a]), re.I)
    if m:
        dummies = {x.strip().lower() for x in m.group(2).split(",")}
    res = {}
    for l in lines[a:at]:
        c = code(l)
        m = DECL.match(c)
        if m:
            attr, names = m.group(2).lower(), m.group(3)
        else:
            m = DECL0.match(c)
            if not m:
                continue
            attr, names = "", m.group(3)
        if re.search(r"intent|allocatable|pointer|target|parameter|save|external", attr):
            continue
        dim = "dimension" in attr
        for n in split_top(names):
            mm = re.match(r"\s*(\w+)\s*(\(.*\))?", n)
            if not mm or mm.group(1).lower() in dummies:
                continue
            shp = mm.group(2)
            if shp and ":" in shp:
                continue
            res[mm.group(1).lower()] = bool(shp) or dim
    return res


PURE = re.compile(r"^(\s*(?:(?:recursive|impure|module)\s+)*)(pure|elemental)\b(?=.*\b(?:subroutine|function)\s+\w+)", re.I)


def unpure(l):
    """A procedure that need not be pure any more."""
    while not l.lstrip().startswith("!") and PURE.match(l):
        m = PURE.match(l)
        if m.group(2).lower() == "elemental":
            return l if re.search(r"\bimpure\b", l, re.I) else re.sub(r"(?i)\belemental\b", "impure elemental", l, count=1)
        l = m.group(1) + l[m.end():].lstrip() if m.group(1).strip() else m.group(1) + l[m.end():].lstrip()
    return l


def rewrite(text, pure="enclosing"):
    """pure: what becomes of pure procedures, which cannot ask the simulator for an order: "enclosing": those with a concurrent loop are not
    declared pure any more, "all": none is, "keep": they stay pure and their loops run in order"""
    lines = join(unchain(text.split("\n")))
    if pure == "all":
        lines = [unpure(l) for l in lines]
    n = 0
    i = 0
    while i < len(lines):
        m = CONC.match(code(lines[i]))
        if not m:
            i += 1
            continue
        a = i
        while a > 0 and not (PROC.match(code(lines[a])) and not re.match(r"^\s*end\b", code(lines[a]), re.I)):
            a -= 1
        if re.match(r"^\s*((recursive|module)\s+)*(pure|elemental)\b", lines[a], re.I):
            if pure == "keep":
                i += 1
                continue
            lines[a] = unpure(lines[a])
        l = code(lines[i])
        o = m.end() - 1
        e = close_paren(l, o)
        head = l[o + 1:e]
        locality = l[e + 1:]
        depth, j = 0, i
        while j < len(lines):
            c = code(lines[j])
            if DO.match(c) and not re.match(r"^\s*do\s*=", c, re.I):
                depth += 1
            elif END.match(c):
                depth -= 1
                if depth == 0:
                    break
            j += 1
        if j >= len(lines):
            raise RuntimeError("no end of do concurrent")
        body = lines[i + 1:j]
        decl = ""
        if "::" in head:
            decl, head = head.split("::", 1)
        idx, mask = [], None
        for part in split_top(head):
            mm = re.match(r"^\s*(\w+)\s*=([^=].*)$", part)
            if mm and len(split_top(mm.group(2), ":")) >= 2:
                r = split_top(mm.group(2), ":")
                idx.append((mm.group(1), r[0], r[1], r[2] if len(r) > 2 else "1"))
            else:
                mask = part
        loc = locals_of(lines, i)
        iv = {x[0].lower() for x in idx}
        priv, viacall = set(), set()
        shared = {x.strip().lower() for mm in re.finditer(r"\bshared\s*\(([^)]*)\)", locality, re.I) for x in mm.group(1).split(",")}
        for mm in re.finditer(r"\blocal\s*\(([^)]*)\)", locality, re.I):
            priv |= {x.strip().lower() for x in mm.group(1).split(",")}
        linit = set()
        for mm in re.finditer(r"\blocal_init\s*\(([^)]*)\)", locality, re.I):
            linit |= {x.strip().lower() for x in mm.group(1).split(",")}
        for b in body:
            c = code(b)
            w = set()
            mm = re.match(r"^\s*(?:if\s*\(.*\)\s*)?(\w+)\s*(\(.*\))?\s*=(?!=)", c)
            if mm:
                idxs = set(re.findall(r"\w+", (mm.group(2) or "").lower()))
                if not (mm.group(2) and idxs & iv):
                    w.add(mm.group(1).lower())
            mm = re.match(r"^\s*(?:\w+\s*:)?\s*do\s+(\w+)\s*=", c, re.I)
            if mm:
                w.add(mm.group(1).lower())
            mm = re.search(r"\bcall\b(.*)$", c, re.I)
            if mm and "(" in mm.group(1):
                k = mm.group(1).index("(")
                for arg in split_top(mm.group(1)[k + 1:close_paren(mm.group(1), k)]):
                    if re.fullmatch(r"\s*\w+\s*", arg):
                        viacall.add(arg.strip().lower())
            priv |= {x for x in w if x in loc}
        priv -= shared | linit
        linit |= {x for x in viacall if x in loc} - priv - shared - iv     # may be an input of the call as well as its result
        ro = {x for x in priv if x not in iv}
        clauses = []
        pv = sorted(ro | ({x[0].lower() for x in idx} if not decl else set()))
        if pv:
            clauses.append("private(%s)" % ", ".join(pv))
        if linit:
            clauses.append("firstprivate(%s)" % ", ".join(sorted(linit)))
        p = "vsim%d_" % n
        n += 1
        new = ["block", "integer :: %sk, %sn, %sm, %sid" % (p, p, p, p)]
        if decl:
            new.append("%s :: %s" % (decl.strip(), ", ".join(x[0] for x in idx)))
            clauses.append("private(%s)" % ", ".join(x[0] for x in idx))
        new.append("integer :: " + ", ".join("%sl%d, %su%d, %ss%d, %sc%d" % (p, q, p, q, p, q, p, q) for q in range(len(idx))))
        new.append("%sn = 1" % p)
        for q, (v, a, b, s) in enumerate(idx):
            new += ["%sl%d = %s" % (p, q, a), "%su%d = %s" % (p, q, b), "%ss%d = %s" % (p, q, s),
                    "%sc%d = max(0, (%su%d - %sl%d + %ss%d) / %ss%d)" % (p, q, p, q, p, q, p, q, p, q), "%sn = %sn * %sc%d" % (p, p, p, q)]
        new.append("call vsim_conc(%sn, %sid)" % (p, p))
        new.append("!$omp parallel do schedule(runtime) private(%sm)" % p)
        for c in clauses:
            new[-1] += " &\n!$omp& " + c
        new.append("do %sk = 0, %sn - 1" % (p, p))
        new.append("call vsim_iter(%sid, %sk, %sm)" % (p, p, p))
        for q, (v, a, b, s) in enumerate(idx):
            new += ["%s = %sl%d + mod(%sm, %sc%d) * %ss%d" % (v, p, q, p, p, q, p, q), "%sm = %sm / %sc%d" % (p, p, p, q)]
        if mask:
            new.append("if (.not. (%s)) cycle" % mask)
        new += body + ["enddo", "!$omp end parallel do", "end block"]
        lines[i:j + 1] = new
        i += 1
    return "\n".join(lines) + "\n", n
