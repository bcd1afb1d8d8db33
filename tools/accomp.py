"""Rewrites OpenACC directives into OpenMP target directives, so that the simulated device can run the annotated loops with separate memory and
with their iterations in any order. (gcc's own OpenACC code for the host runs every loop in order, in one thread.)

Every OpenACC parallel loop may legally be executed as a league of teams of threads over its iterations: that is what it becomes. Data clauses
keep their meaning (present-or-... is the default of both models). Directives this file does not know make it give up.
"""
import re

MAPS = {"copy": "tofrom", "pcopy": "tofrom", "present_or_copy": "tofrom", "copyin": "to", "pcopyin": "to", "present_or_copyin": "to",
        "copyout": "from", "pcopyout": "from", "present_or_copyout": "from", "create": "alloc", "pcreate": "alloc", "present_or_create": "alloc",
        "present": "alloc", "no_create": "alloc"}
EXITMAPS = {"copyout": "from", "delete": "delete", "detach": "release"}
DROP = {"gang", "worker", "vector", "seq", "auto", "independent", "num_gangs", "num_workers", "vector_length", "default", "device_type",
        "tile", "self", "finalize", "if_present", "private_"}
SCHED = "schedule(runtime)"


class GiveUp(RuntimeError):
    pass


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for c in s:
        d += c in "(["
        d -= c in ")]"
        if c == sep and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def clauses(s):
    out, i = [], 0
    while i < len(s):
        if s[i] in " \t,":
            i += 1
            continue
        m = re.match(r"[A-Za-z_]\w*", s[i:])
        if not m:
            raise GiveUp("clause: " + s[i:])
        name = m.group(0).lower()
        i += m.end()
        k = i
        while k < len(s) and s[k] in " \t":
            k += 1
        arg = None
        if k < len(s) and s[k] == "(":
            d, e = 0, k
            while e < len(s):
                d += s[e] == "("
                d -= s[e] == ")"
                if d == 0:
                    break
                e += 1
            if e >= len(s):
                raise GiveUp("unbalanced: " + s)
            arg = s[k + 1:e].strip()
            i = e + 1
        out.append((name, arg))
    return out


def base(var):
    return re.match(r"\s*(\w+)", var).group(1)


LANG = ["cxx"]


def queue(arg):
    return "vsim_q_[(%s) & 63]" % (arg or "0")


def convert(cl, kind):
    """kind: loop (a parallel loop), target, data, enter, exit, update, inner"""
    r = []
    for name, arg in cl:
        if name in ("async", "wait"):
            if LANG[0] == "cxx" and kind in ("loop", "target", "enter", "exit", "update") and (name == "async" or arg):
                r += ["depend(inout: %s)" % queue(a) for a in split_top(arg or "0")]
                if name == "async" and kind in ("loop", "target"):
                    r.append("nowait")
            continue
        if name in ("private", "firstprivate"):
            if kind in ("loop", "target", "inner"):
                r.append("%s(%s)" % (name, ", ".join(base(v) for v in split_top(arg))))
        elif name == "reduction":
            if kind in ("loop", "inner"):
                r.append("reduction(%s)" % arg)
        elif name == "collapse":
            r.append("collapse(%s)" % arg)
        elif name == "if":
            if kind != "inner":
                r.append("if(%s)" % arg)
        elif kind == "exit" and name in EXITMAPS:
            r.append("map(%s: %s)" % (EXITMAPS[name], arg))
        elif kind == "update" and name in ("self", "host"):
            r.append("from(%s)" % arg)
        elif kind == "update" and name == "device":
            r.append("to(%s)" % arg)
        elif name in MAPS and kind in ("loop", "target", "data", "enter"):
            r.append("map(%s: %s)" % (MAPS[name], re.sub(r"^\s*(readonly|zero)\s*:", "", arg)))
        elif name == "deviceptr":
            r.append("is_device_ptr(%s)" % arg)
        elif name in DROP:
            pass
        else:
            raise GiveUp("clause " + name)
    return r


def directive(text):
    """OpenACC directive text (after the sentinel) -> (OpenMP text or None to drop, text of the matching end or None)."""
    t = " ".join(text.split())
    m = re.match(r"(end\s+)?(parallel\s+loop|kernels\s+loop|serial\s+loop|enter\s+data|exit\s+data|host_data|parallel|kernels|serial|loop|data|update|"
                 r"routine|wait|atomic|init|shutdown|cache)\b(.*)$", t, re.I)
    if not m:
        raise GiveUp("directive " + t)
    end, name, rest = bool(m.group(1)), " ".join(m.group(2).lower().split()), m.group(3).strip()
    if name == "wait":
        q = [c[1] for c in clauses("wait" + rest) if c[0] == "wait" and c[1]]
        return "taskwait" + ("" if not q else " " + " ".join("depend(inout: %s)" % queue(a) for a in split_top(q[0]))) if LANG[0] == "cxx" else None
    if name in ("routine", "init", "shutdown", "cache"):
        return None
    if name == "atomic":
        return ("end atomic" if end else "atomic " + rest)
    loop = "target teams distribute parallel %s"
    if end:
        return {"parallel loop": "end " + loop, "kernels loop": "end " + loop, "serial loop": "end target", "parallel": "end target teams",
                "kernels": "end target", "serial": "end target", "data": "end target data", "host_data": "end target data", "loop": None}[name]
    cl = clauses(rest)
    names = [c[0] for c in cl]
    if name in ("parallel loop", "kernels loop"):
        if "seq" in names:
            return "target " + " ".join(convert([c for c in cl if c[0] != "collapse"], "target"))
        return " ".join([loop, SCHED] + convert(cl, "loop"))
    if name == "serial loop":
        return " ".join(["target"] + convert([c for c in cl if c[0] not in ("reduction", "collapse")], "target"))
    if name == "parallel":
        return " ".join(["target teams"] + convert(cl, "target"))
    if name in ("kernels", "serial"):
        return " ".join(["target"] + convert(cl, "target"))
    if name == "loop":
        return ("LOOP", cl)
    if name == "data":
        return " ".join(["target data"] + convert(cl, "data"))
    if name == "host_data":
        return "target data use_device_ptr(%s)" % dict(cl).get("use_device", "")
    if name == "enter data":
        return " ".join(["target enter data"] + convert(cl, "enter"))
    if name == "exit data":
        return " ".join(["target exit data"] + convert(cl, "exit"))
    if name == "update":
        return " ".join(["target update"] + convert(cl, "update"))
    raise GiveUp("directive " + t)


def cxx(text):
    LANG[0] = "cxx"
    out, n = [], 0
    lines = text.split("\n")
    i = 0
    context = None        # the construct a loop directive would belong to
    while i < len(lines):
        l = lines[i]
        m = re.match(r"^(\s*)#\s*pragma\s+acc\b(.*)$", l)
        if re.match(r"^\s*#\s*pragma\s+omp\b", l):       # not enabled in an OpenACC build
            while l.rstrip().endswith("\\") and i + 1 < len(lines):
                out.append("")
                i += 1
                l = lines[i]
            out.append("")
            i += 1
            continue
        if not m:
            out.append(l)
            i += 1
            continue
        body, k = m.group(2), 1
        while body.rstrip().endswith("\\") and i + k < len(lines):
            body = body.rstrip()[:-1] + " " + lines[i + k]
            k += 1
        body = re.sub(r"//.*$|/\*.*?\*/", "", body).strip()
        d = directive(body)
        n += 1
        if isinstance(d, tuple):
            d = orphan(d[1], context, "for")
        else:
            context = body.split()[0] if "loop" not in body.split()[:2] and body.split()[0] in ("parallel", "kernels") else context if body.split()[0] not in ("data",) else None
        out.append("#pragma omp " + (d % "for" if "%s" in d else d) if d else "")
        out += [""] * (k - 1)
        i += k
    if "vsim_q_[" in "".join(out):
        out.insert(0, 'extern "C" char vsim_q_[64];')
    return "\n".join(out), n


def orphan(cl, context, word):
    """A loop directive inside of a parallel or kernels region; elsewhere the loop is simply left in order."""
    if "seq" in [c[0] for c in cl]:
        return None
    if context == "parallel":
        return " ".join(["distribute parallel " + word, SCHED] + convert(cl, "inner"))
    if context == "kernels" and "independent" in [c[0] for c in cl]:
        return " ".join(["teams distribute parallel " + word, SCHED] + convert(cl, "inner"))
    return None


def fortran(text):
    LANG[0] = "fortran"
    out, n = [], 0
    lines = text.split("\n")
    i = 0
    context = None
    while i < len(lines):
        m = re.match(r"^\s*!\$acc\b(.*)$", lines[i], re.I)
        if not m:
            if not re.match(r"^\s*!\$(omp\b|\s)", lines[i], re.I):      # not enabled in an OpenACC build
                out.append(lines[i])
            i += 1
            continue
        body, k = m.group(1).strip(), 1
        while body.endswith("&") and i + k < len(lines):
            nx = re.sub(r"^\s*!\$acc\s*&?", "", lines[i + k], flags=re.I).strip()
            body = body[:-1] + " " + nx
            k += 1
        d = directive(body)
        n += 1
        w = body.lower().split()
        if isinstance(d, tuple):
            cl = [(a, b) for a, b in d[1]]
            d = orphan(cl, context, "do")
        elif w[0] in ("parallel", "kernels"):
            context = w[0] if len(w) < 2 or not w[1].startswith("loop") else None
        elif w[0] == "end":
            context = None
        if d:
            d = d % "do" if "%s" in d else d
            cur = "!$omp"
            for word in d.split(" "):
                if len(cur) + len(word) > 100:
                    out.append(cur + " &")
                    cur = "!$omp&"
                cur += " " + word
            out.append(cur)
        i += k
    return "\n".join(out), n


def undent(text):
    return re.sub(r"(?m)^[ \t]+#", "#", text)
