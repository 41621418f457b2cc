"""C28 markup of units shows every exponent where it belongs"""
import re
from symq.harness import harness

SUP = {c: str(i) for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}
NUMBER = r"[0-9]+(?:\.[0-9]+)?(?:e[+-]?[0-9]+)?"


def split(s, sep):
    """split at `sep` outside parentheses"""
    out, depth, cur, i = [], 0, "", 0
    while i < len(s):
        if s[i] == "(":
            depth += 1
        elif s[i] == ")":
            depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append(cur)
            cur = ""
            i += len(sep)
            continue
        cur += s[i]
        i += 1
    return out + [cur]


def strip(s):
    """without one pair of parentheses around the whole"""
    if s.startswith("(") and s.endswith(")"):
        d = 0
        for i, c in enumerate(s):
            d += (c == "(") - (c == ")")
            if d == 0 and i < len(s) - 1:
                return s
        return s[1:-1]
    return s


def braces(s):
    """{..}{..} -> list of the groups, None when malformed"""
    out, depth, cur = [], 0, ""
    for c in s:
        depth += (c == "{") - (c == "}")
        if depth < 0 or depth == 0 and c != "}":
            return None
        if depth == 1 and c == "{":
            cur = ""
        elif depth == 0:
            out.append(cur)
        else:
            cur += c
    return None if depth else out


def read(text, style, symbols, font=None, mult=None, paren=False, multi=False):
    """independent reader: rendering -> {symbol: exponent} (multi: sorted pairs), or None when malformed"""
    sep = {"string": "*", "unicode": "·", "latex": "{\\cdot}", "html": "&sdot;"}[style] if mult is None else mult
    if style == "latex":
        m = re.fullmatch(r"\$\\%s\{(.*)\}\$" % (font or "mathrm"), text)
        if not m:
            return None
        text = m.group(1)
        if paren:
            m = re.fullmatch(r"\\left\((.*)\\right\)", text)
            if not m:
                return None
            text = m.group(1)
        num, den = text, ""
        if text.startswith("\\frac"):
            g = braces(text[5:])
            if g is None or len(g) != 2:
                return None
            num, den = g
    else:
        if style == "html":
            if font:
                m = re.fullmatch(font.replace("%s", "(.*)"), text)
                if not m:
                    return None
                text = m.group(1)
            if paren:
                if strip(text) == text:
                    return None
                text = strip(text)
            text = text.replace("</sup>", "\x02").replace("<sup>", "\x01")
        if style == "string":
            text = text.replace("**", "\x01")
        parts = split(text, "/")
        if len(parts) > 2:
            return None
        num, den = parts if len(parts) == 2 else (parts[0], "")
    if style == "string":
        num, den = num.replace("**", "\x01"), den.replace("**", "\x01")
    out, pairs = {}, []
    for sign, group in ((1, num), (-1, strip(den) if den not in symbols else den)):
        if not group or sign == 1 and group == "1" and den:
            continue
        if group == "dimensionless" and not den:
            continue
        items = split(group, sep)
        if sign == -1 and len(items) > 1 and strip(den) == den:
            return None         # a/b*c means something else
        for it in items:
            for sym in sorted(symbols, key=len, reverse=True):
                if not it.startswith(sym):
                    continue
                e = it[len(sym):]
                if style == "unicode" and e and all(c in SUP for c in e):
                    e = "".join(SUP[c] for c in e)
                elif e:
                    m = re.fullmatch({"string": "\x01(%s)", "unicode": r"\^(%s)", "latex": r"\^\{(%s)\}", "html": "\x01(%s)\x02"}[style] % NUMBER, e)
                    if not m or style == "unicode" and m.group(1).isdigit():
                        return None
                    e = m.group(1)
                else:
                    e = "1"
                if e == "1" and it != sym or sym in out and not multi:
                    return None
                if float(e) == int(float(e)) and "e" not in e and not e.isdigit():
                    return None     # 2.0 is written 2
                out[sym] = sign * float(e)
                pairs.append((sym, out[sym]))
                break
            else:
                return None
    return sorted(pairs) if multi else out


def units(env):
    A, B = env.bases()
    a = env.pq.UnitQuantity("alpha", env.real("k1", pos=True) * A, symbol="al", u_symbol="α")
    b = env.pq.UnitQuantity("beta", env.real("k2", pos=True) * A / B, symbol="be", u_symbol="β", aliases=["betas"])
    return A, B, a, b


def render(env, d, style, **k):
    M = env.pq.markup
    if k:
        return {"latex": M.format_units_latex, "html": M.format_units_html}[style](d, **k)
    return getattr(d, style)


STYLES = ["string", "unicode", "latex", "html"]


def check(env, d, want, uni, label, styles=STYLES):
    """all renderings of d show exactly want = {unit: exponent}"""
    cfg = env.pq.markup.config
    keep = cfg.use_unicode
    for on in uni:
        cfg.use_unicode = on
        w = {(u.u_symbol if on else u.symbol): float(e) for u, e in want if e != 0}
        for s in styles:
            env.check(read(render(env, d, s), s, set(w)) == w, "%s:%s:%s" % (label, s, "unicode" if on else "ascii"))
        t = str(d)
        env.check(t == (d.unicode if on else d.string), label + ":str")
    cfg.use_unicode = keep


@harness("C28", third=[None, 1, -2], max_paths=8000)
def products(env, third):
    """two and three units with every small exponent"""
    A, B, a, b = units(env)
    e1, e2 = env.int("e1", -3, 3, text=True), env.int("e2", -3, 3, text=True)
    q = a ** e1 * b ** e2
    want = [(a, int(e1)), (b, int(e2))]
    if third:
        q = q * A ** third
        want.append((A, third))
    check(env, q.dimensionality, want, [False, True], "product")


@harness("C28", hundreds=[(0, 2), (3, 5), (6, 7), (8, 9)], sign=[1, -1], thorough={"hundreds": [(i, i) for i in range(10)]})
def integers(env, hundreds, sign):
    """every whole exponent up to three digits"""
    A, B, a, b = units(env)
    e = sign * (100 * env.choice("h", list(range(hundreds[0], hundreds[1] + 1))) + 10 * env.choice("t", list(range(10))) + env.choice("o", list(range(10))))
    check(env, (a ** e * b).dimensionality, [(a, e), (b, 1)], [True], "whole")
    check(env, (b ** -2 * a ** e).dimensionality, [(a, e), (b, -2)], [False], "whole", STYLES[1:])
    if e:
        check(env, (a ** e).dimensionality, [(a, e)], [True], "alone", STYLES[:2])


@harness("C28", sign=[1, -1], whole=[0, 1, 2, 7, 10, 25, 120], other=[1, -1, 2.5, 0])
def decimals(env, sign, whole, other):
    """decimal exponents, whatever digits they have; floats that are whole are shown as such"""
    A, B, a, b = units(env)
    f = env.choice("f", [0.5, 0.25, 0.75, 0.125, 1 / 3, 0.1, 0.2, 0.05, 0.01, 0.001, 0.0, 0.10101, 0.99, 1e-5, 1e-7])
    e = sign * (whole + f)
    if not e:
        return env.reach("zero")
    if abs(e) == 1 and isinstance(e, float):
        pass
    d = (a ** e * b ** other if other else a ** e).dimensionality
    check(env, d, [(a, e), (b, other)] if other else [(a, e)], [False, True], "decimal")


@harness("C28", alike=["unicode", "constant", "both", "three", "builtin"], uni=[False, True])
def lookalikes(env, alike, uni):
    """different units that are written the same are all shown"""
    pq = env.pq
    A, B, a, b = units(env)
    k = env.real("k3", pos=True)
    C = pq.UnitConstant
    us = [a, {"unicode": lambda: pq.UnitQuantity("gamx", k * A, symbol="gax", u_symbol="α"), "constant": lambda: C("gamx", k * A, symbol="al", u_symbol="γ"),
              "both": lambda: C("gamx", k * B, symbol="al", u_symbol="α"), "three": lambda: C("gamx", k * B, symbol="al", u_symbol="α"),
              "builtin": lambda: C("gamx", k * A, symbol="m")}[alike]()]
    if alike == "three":
        us.append(C("delx", k * B ** 2, symbol="al", u_symbol="α"))
    if alike == "builtin":
        us[0] = pq.meter
    us.append(b)
    es = [env.choice("e%d" % i, [1, -1, 2, -2] if i < 2 else [1, -1]) for i in range(len(us))]
    q = us[0] ** es[0]
    for u, e in list(zip(us, es))[1:]:
        q = q * u ** e
    cfg = pq.markup.config
    cfg.use_unicode = uni
    want = sorted(((u.u_symbol if uni else u.symbol), float(e)) for u, e in zip(us, es))
    for s in STYLES:
        env.check(read(render(env, q.dimensionality, s), s, {w for w, _ in want}, multi=True) == want, "alike:" + s)


OPTS = {"latex": [{"font": "mathit"}, {"font": "mathtt", "paren": True}, {"mult": ""}, {"paren": True}, {"mult": "\\\\times", "paren": True}, {}, {"mult": " ~ "}, {"mult": " @@ ", "paren": True}],
        "html": [{"font": "<i>%s</i>"}, {"font": '<span style="color: #0000a0">%s</span>', "paren": True}, {"mult": "*"}, {"paren": True}, {"mult": "&middot;", "paren": True}, {}, {"mult": " x "}, {"mult": " &times; ", "paren": True}]}


@harness("C28", style=["latex", "html"], opt=list(range(8)), uni=[False, True])
def options(env, style, opt, uni):
    """font, multiplication sign and parentheses change nothing else"""
    A, B, a, b = units(env)
    e1, e2 = env.int("e1", -2, 2, text=True), env.int("e2", -2, 2, text=True)
    d = (a ** e1 * b ** e2 * A ** 10 / B ** 2.5).dimensionality
    k = dict(OPTS[style][opt])
    env.pq.markup.config.use_unicode = uni
    w = {(u.u_symbol if uni else u.symbol): float(int(e)) if u is not B else -2.5 for u, e in ((a, e1), (b, e2), (A, 10), (B, -3)) if e != 0}
    if style == "latex" and k.get("mult") == "":
        k["mult"] = "~"
    m = k.get("mult")
    if m is not None and style == "latex":
        m = "{%s}" % m.replace("\\\\", "\\")
    r = render(env, d, style, **k) if k else getattr(d, style)
    env.check(read(r, style, set(w), font=k.get("font"), mult=m, paren=k.get("paren", False)) == w, "options")
    env.pq.markup.config.use_unicode = False


CH = 8


@harness("C28", part=list(range(CH)))
def every_unit(env, part):
    """every built-in unit at whole and decimal exponents, alone and in a quotient"""
    reg = env.registry()
    us = {}
    for n in sorted(reg):
        us.setdefault(reg[n].name, reg[n])
    names = sorted(us)
    x = env.real("x", lo=1, hi=2)
    env.check(x > 0, "input")
    plain = [n for n in names if env.dims(us[n]) and not us[n].symbol.startswith("(") and not us[n].u_symbol.startswith("(")]
    for i, n in enumerate(plain[part::CH]):
        u = us[n]
        v = us[plain[(i * 37 + part * 11 + 5) % len(plain)]]
        for e in (1, 2, -1, -12, 0.5, 10.5):
            check(env, (u ** e).dimensionality, [(u, e)], [False, True], "unit:" + n)
        if v.name != n and v.symbol != u.symbol and v.u_symbol != u.u_symbol:
            check(env, (u ** 2 / v ** 3).dimensionality, [(u, 2), (v, -3)], [False, True], "quotient:" + n)


class Named:
    """how a compound unit shows in one rendering"""
    def __init__(self, symbol, u_symbol):
        self.symbol, self.u_symbol = symbol, u_symbol


COMP = {"string": "(pc/cm**3)", "unicode": "(pc/cm³)", "latex": "(pc/cm^{3})", "html": "(pc/cm<sup>3</sup>)"}


@harness("C28", e=[1, 2, -1, 0.5], other=[None, 1, -1, -2], third=[0, 1, -1])
def compound(env, e, other, third):
    """compound units stay whole"""
    pq = env.pq
    A, B, a, b = units(env)
    c = pq.CompoundUnit("pc/cm**3")
    q = c ** e
    want = {"(pc/cm**3)": float(e)}
    if other:
        q, want["al"] = q * a ** other, float(other)
    if third:
        q, want["be"] = q * b ** third, float(third)
    d = q.dimensionality
    x = env.real("x", lo=1, hi=2)
    env.check(x > 0, "input")
    for s in STYLES:
        t = render(env, d, s)
        # replace the rendering of the compound by a plain symbol before reading
        env.check(t.count(COMP[s]) == 1, "whole:" + s)
        t = t.replace(COMP[s], "CCC")
        w = {("CCC" if n.startswith("(") else n): v for n, v in want.items()}
        if s == "latex" and "\\frac" not in t and "/" in t:
            m = re.fullmatch(r"\$\\mathrm\{([^/]*)/([^/]*)\}\$", t)
            env.check(m is not None, "quotient:latex")
            if not m:
                continue
            t = "$\\mathrm{\\frac{%s}{%s}}$" % m.groups()
        env.check(read(t, s, set(w)) == w, "compound:" + s)


CNAMES = ["m*kg", "m*s*kg", "m*kg/s**2", "m**2*s", "1/s**2", "kg/(m*s)", "m**0.5/s", "m**12*s**-1*kg", "ft*lb*h/s", "2*m"]


def typeset(name, style, mult):
    """a compound name in one rendering, token by token"""
    out, i = "", 0
    for t in re.findall(r"\*\*-?[0-9.]+|\*|[^*]+", name):
        if t == "*":
            out += mult
        elif t.startswith("**"):
            e = t[2:]
            out += {"string": t, "unicode": "".join({v: k for k, v in SUP.items()}[c] for c in e) if e.isdigit() else "^" + e,
                    "latex": "^{%s}" % e, "html": "<sup>%s</sup>" % e}[style]
        else:
            out += t
    return "(" + out + ")"


@harness("C28", cname=CNAMES, e=[1, 2, -1], other=[None, 1, -2], opt=[None, "mult", "paren", "font"], uni=[False, True],
         filt=lambda cname, e, other, opt, uni: opt is None or (other is not None and "-" not in cname))
def compound_names(env, cname, e, other, opt, uni):
    """whatever operators the name of a compound unit has, all of them are typeset, and it stays whole"""
    pq = env.pq
    A, B, a, b = units(env)
    q = pq.CompoundUnit(cname) ** e
    w = {"CCC": float(e)}
    pq.markup.config.use_unicode = uni
    if other:
        q, w["α" if uni else "al"] = q * a ** other, float(other)
    d = q.dimensionality
    x = env.real("x", lo=1, hi=2)
    env.check(x > 0, "input")
    for s in STYLES if opt is None else ["latex", "html"]:
        if s == "unicode" and "-" in cname:
            continue
        k = {} if opt is None else {"mult": {"mult": {"latex": r"\\times", "html": "&middot;"}[s]}, "paren": {"paren": True},
                                    "font": {"font": {"latex": "mathit", "html": "<i>%s</i>"}[s]}}[opt]
        if opt == "mult":
            k = {"mult": k["mult"]}
        t = render(env, d, s, **k) if k else getattr(d, s)
        m = {"string": "*", "unicode": "·", "latex": "{\\cdot}", "html": "&sdot;"}[s]
        if opt == "mult":
            m = {"latex": "{\\times}", "html": "&middot;"}[s]
        c = typeset(cname, s, m)
        if uni and t.count(c) == 0 and s != "unicode":
            # (its whole exponents as in its unicode name)
            c = typeset(re.sub(r"\*\*([0-9]+)(?![.0-9])", lambda g: "".join({v: k for k, v in SUP.items()}[i] for i in g.group(1)), cname), s, m)
        env.check(t.count(c) == 1, "whole:" + s)
        t = t.replace(c, "CCC")
        env.check(s == "string" or "*" not in t, "operators:" + s)
        if s == "latex" and "\\frac" not in t and "/" in t:
            t = re.sub(r"\{([^/{}]*)/([^/]*)\}(?=\$)", r"{\\frac{\1}{\2}}", t)
        got = read(t, s, set(w), mult=m if opt == "mult" else None, paren=bool(k.get("paren")), font=k.get("font"))
        env.check(got == w, "compound:" + s)
    pq.markup.config.use_unicode = False


@harness("C28", how=["add", "mul", "div", "compare", "rescale", "simplified", "lookup", "power", "constructor"], first=[False, True])
def switch(env, how, first):
    """quantities made before and after switching unicode on or off are interchangeable"""
    pq = env.pq
    cfg = pq.markup.config
    A, B, a, b = units(env)
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    cfg.use_unicode = first
    c = pq.CompoundUnit("al/be**2")
    p = pq.Quantity(x, a * c)
    texts = (p.dimensionality.latex, p.dimensionality.html)
    cfg.use_unicode = not first
    c2 = pq.CompoundUnit("al/be**2")
    q = pq.Quantity(y, a * c2)
    env.check(p.dimensionality == q.dimensionality, "same-units")
    X, Y = env.vals(x), env.vals(y)
    if how == "add":
        env.eq(env.vals(p + q), [i + j for i, j in zip(X, Y)], how, scale=[env.absum(i, j) for i, j in zip(X, Y)])
        env.check((p + q).dimensionality == p.dimensionality, "units")
    elif how == "mul":
        r = p * q
        env.check(sorted(env.dims(r).values()) == [2, 2], "units")
        env.eq(env.vals(r), [i * j for i, j in zip(X, Y)], how)
    elif how == "div":
        r = p / pq.Quantity(1.0, a * c2)
        env.check(not env.dims(r), "units")
        env.eq(env.vals(r), X, how)
    elif how == "compare":
        env.check(bool((p == pq.Quantity(x, a * c2)).all()), "equal")
    elif how == "rescale":
        r = p.rescale(q.units)
        env.check(r.dimensionality == q.dimensionality, "units")
        env.eq(env.vals(r), X, how)
    elif how == "simplified":
        s1 = p.simplified
        cfg.use_unicode = first
        s2 = p.simplified
        env.check(s1.dimensionality == s2.dimensionality, "units")
        env.eq(env.vals(s1), env.vals(s2), how)
    elif how == "lookup":
        for u in (a, b, A):
            env.check(pq.unit_registry[u.symbol] is u and pq.unit_registry[u.name] is u, "lookup")
    elif how == "power":
        r = p ** 2
        env.check(sorted(env.dims(r).values()) == [2, 2], "units")
    else:
        r = pq.Quantity(y, "al**2/be")
        env.check(env.dims(r) == {"alpha": 2, "beta": -1}, "units")
    cfg.use_unicode = first
    env.check((p.dimensionality.latex, p.dimensionality.html) == texts, "text-restored")
    env.check(cfg.use_unicode is first, "switch")
    cfg.use_unicode = False


@harness("C28", shape=[(), (2,)], uni=[False, True], kind=["quantity", "uncertain", "unit", "format"])
def printed(env, shape, uni, kind):
    """a printed quantity is its magnitude followed by its units"""
    pq, np = env.pq, env.np
    A, B, a, b = units(env)
    e = env.choice("e", [1, 2, -1, 10, 0.5])
    v = 2.5 if shape == () else [2.5, 4.0]
    u = a ** e / b
    pq.markup.config.use_unicode = uni
    want = u.dimensionality.unicode if uni else u.dimensionality.string
    m = "2.5" if shape == () else "[2.5 4. ]"
    if kind == "unit":
        t = str(a)
        env.check(t == ("1 α (alpha)" if uni else "1 al (alpha)"), "unit")
    elif kind == "uncertain":
        t = str(pq.UncertainQuantity(v, u, 0.5 if shape == () else [0.5, 0.5]))
        env.check(t.split("\n")[0] == m + " " + want, "uncertain")
        env.check(want in t.split("\n")[1], "uncertainty")
    elif kind == "format":
        if shape == ():
            env.check("{:.2f}".format(pq.Quantity(v, u)) == "2.50 " + want, "format")
        else:
            env.check("{}".format(pq.Quantity(v, u)) == m + " " + want, "format")
    else:
        env.check(str(pq.Quantity(v, u)) == m + " " + want, "quantity")
    pq.markup.config.use_unicode = False


from symq import many  # noqa: E402
many.register("C28")
