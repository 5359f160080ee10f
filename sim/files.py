"""Contents of dump and case files, their damage, and what they mean.

The meaning of a file is computed here independently of the package:
`ref_dump` and `ref_case` return ("data", content), ("invalid", reason) if
the text holds a row that cannot be interpreted or lacks what is needed, or
("unknown", reason) if the text is so unlike either format that nothing is
claimed.
"""
import math
import os
import random
import re

DUMP_HEAD = ("#    s        x        y     Ue/Vinf    Dstar     Theta      Cf"
             "       H       H*        P         m          K          tau"
             "         Di\n")
STRICT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")


NOTES = [" \u03b1 = 2\u00b0", " naïve", " für \u6d41\u308c", " #2"]


# --------------------------------------------------------------------------
# XFOIL dump files
# --------------------------------------------------------------------------
def make_dump(spec):
    """Return the text of an intact dump file."""
    rng = random.Random(f"dump:{spec['seed']}")
    nu, nl, nw = spec["upper"], spec["lower"], spec["wake"]
    wide = spec.get("wide", False)
    rows = []
    s = 0.0
    n = nu + nl
    u = [rng.uniform(0.01, 2.5) for _ in range(nu)]
    low = [-rng.uniform(0.01, 2.5) for _ in range(nl)]
    if spec.get("tiny"):
        u[-1] = 1e-5
    if spec.get("zero"):
        u[-1] = 0.0
    speeds = u + low

    def num(w, d, v):
        return f"{v:.{d + 7}E}".rjust(w + 11) if wide else f"{v:{w}.{d}f}"

    for i in range(n):
        dm = rng.uniform(0, 0.08)
        h = rng.uniform(1.0, 8.0)
        x = rng.uniform(-0.2, 1.2)
        vals = [(10, 5, s), (9, 5, x), (9, 5, rng.uniform(-0.3, 0.3)),
                (9, 5, speeds[i]), (10, 6, dm*h), (10, 6, dm),
                (10, 6, rng.uniform(0, 0.05) if rng.random() < 0.9 else 0.0),
                (10, 4, h), (10, 4, rng.uniform(1.2, 2.0)),
                (9, 5, dm*speeds[i]**2), (9, 5, dm*h*speeds[i]),
                (9, 5, dm*rng.uniform(1, 2)*speeds[i]**3)]
        rows.append("".join(num(*v) for v in vals))
        s += rng.uniform(0.002, 0.2)
    for i in range(nw):
        dm = rng.uniform(0.001, 0.08)
        h = rng.uniform(1.0, 3.0)
        vals = [(10, 5, s), (9, 5, 1 + i*0.1), (9, 5, rng.uniform(-.1, .1)),
                (9, 5, rng.uniform(0.1, 1.2)), (10, 6, dm*h), (10, 6, dm),
                (10, 6, 0.0), (10, 4, h)]
        rows.append("".join(f"{v:{w}.{d}f}" for w, d, v in vals))
        s += rng.uniform(0.002, 0.5)
    text = "\n".join(rows)
    if spec.get("end", True):
        text += "\n"
    if spec.get("head", True):
        text = DUMP_HEAD.rstrip("\n") + spec.get("note", "") + "\n" + text
    if spec.get("crlf"):
        text = text.replace("\n", "\r\n")
    return text


def _lines(text):
    """Split into lines as text files are; None if lone returns occur."""
    body = text.replace("\r\n", "\n")
    if "\r" in body:
        return None
    return body.split("\n")


def _number(tok):
    """Return (value, is plainly a number) or None."""
    try:
        v = float(tok)
    except ValueError:
        return None
    return v


DUMP_COLS = ["s", "x", "y", "u_e", "delta_d", "delta_m", "c_f", "shape_d",
             "shape_k", "mom", "mass", "ke"]


def ref_dump(text):
    """Return the meaning of the text of a dump file."""
    lines = _lines(text)
    if lines is None:
        return ("unknown", "lone carriage return")
    air, wake = [], []
    for k, line in enumerate(lines):
        if line.startswith("#") and k == 0:
            continue
        if line.strip() == "":
            continue
        toks = line.split()
        if toks[0].startswith("#"):
            return ("unknown", f"comment in line {k}")
        vals = [_number(t) for t in toks]
        if any(v is None for v in vals) or len(vals) not in (8, 12):
            return ("invalid", f"line {k}: {line[:140]!r}")
        if len(vals) == 12:
            if wake:
                return ("invalid", f"airfoil row after the wake: line {k}")
            air.append(vals)
        else:
            wake.append(vals)
    if not air:
        return ("invalid", "no airfoil rows")
    if any(not math.isfinite(v) for r in air + wake for v in r):
        return ("unknown", "not a finite number")
    first = [i for i, r in enumerate(air) if r[3] < 0]
    if not first:
        return ("invalid", "no lower surface")
    if first[0] == 0:
        return ("invalid", "no upper surface")
    up = [list(r) for r in reversed(air[:first[0]])]
    lo = [list(r) for r in air[first[0]:]]
    for r in lo:
        for c in (3, 10, 11):
            r[c] = -r[c]
    if up[0][3] == 0:
        stag = list(up[0])
        lo.insert(0, list(stag))
        alt_x = stag[1]
    else:
        a, b = up[0], lo[0]
        f = a[3]/(a[3] + b[3])
        stag = [f*q + (1 - f)*p for p, q in zip(a, b)]
        stag[3] = 0.0
        alt_x = abs((1 - f)*a[1] - f*b[1])
        up.insert(0, list(stag))
        lo.insert(0, list(stag))
    s0 = stag[0]
    for r in up:
        r[0] = s0 - r[0]
    for r in lo:
        r[0] = r[0] - s0
    w0 = wake[0][0] if wake else 0.0
    for r in wake:
        r[0] = r[0] - w0
    return ("data", {"upper": up, "lower": lo, "wake": wake, "alt_x": alt_x,
                     "scale": max(abs(v) for r in air + wake for v in r
                                  if math.isfinite(v))})


def view_dump(reader):
    """Return everything the reader reports, as lists."""
    import numpy as np

    def lst(a):
        return [float(v) for v in np.asarray(a, dtype=float).ravel()]
    out = {}
    for side in ("upper", "lower", "wake"):
        n = getattr(reader, side + "_count")()
        out[side + "_count"] = n
        names = ["s", "x", "y", "u_e", "delta_d", "delta_m", "shape_d"]
        if side != "wake":
            names += ["delta_k", "shape_k", "c_f", "mass_defect",
                      "mom_defect", "ke_defect"]
        for name in names:
            out[f"{name}_{side}"] = lst(getattr(reader, f"{name}_{side}")())
        cols = ["s", "x", "y", "u_e_rel", "delta_d", "delta_m", "shape_d"]
        if side != "wake":
            cols += ["c_f", "shape_k", "mass_defect", "mom_defect",
                     "ke_defect"]
        out[side + "_stations"] = [
            [float(getattr(getattr(reader, side)(i), c)) for c in cols]
            for i in range(n)]
    out["filename"] = os.path.basename(str(reader.filename))
    out["name"] = str(reader.name)
    out["u_ref"] = float(reader.u_ref)
    out["other"] = [float(reader.alpha), float(reader.c),
                    float(reader.reynolds), float(reader.n_trans),
                    float(reader.x_trans_upper), float(reader.x_trans_lower)]
    return out


def _near(a, b, tol):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol


def compare_dump(ref, view):
    """Return None or what differs between reference and reader."""
    scale = ref["scale"]
    for side in ("upper", "lower", "wake"):
        rows = ref[side]
        if view[side + "_count"] != len(rows):
            return (f"{view[side + '_count']} stations instead of "
                    f"{len(rows)} on side {side}")
        cols = {"s": 0, "x": 1, "y": 2, "u_e": 3, "delta_d": 4,
                "delta_m": 5, "shape_d": 7}
        if side != "wake":
            cols.update(c_f=6, shape_k=8, mom_defect=9, mass_defect=10,
                        ke_defect=11)
        for name, c in cols.items():
            got = view[f"{name}_{side}"]
            if len(got) != len(rows):
                return f"{name}_{side} has {len(got)} values"
            for i, (g, row) in enumerate(zip(got, rows)):
                w = row[c]
                stag = side != "wake" and i == 0
                tol = 1e-12*abs(w)
                if c == 0 or stag:
                    tol = 1e-11*scale
                fac = view["u_ref"] if name == "u_e" else 1.0
                if _near(g, w*fac, tol*max(fac, 1.0)):
                    continue
                if stag and name == "x" and _near(g, ref["alt_x"], tol):
                    continue
                return f"{name}_{side}[{i}] is {g!r} instead of {w!r}"
        if side != "wake":
            for i, row in enumerate(rows):
                w = row[8]*row[5]
                if i > 0 and not _near(view[f"delta_k_{side}"][i], w,
                                       1e-11*abs(w)):
                    return (f"delta_k_{side}[{i}] is "
                            f"{view[f'delta_k_{side}'][i]!r} instead of {w!r}")
            order = [0, 1, 2, 3, 4, 5, 7, 6, 8, 10, 9, 11]
        else:
            order = [0, 1, 2, 3, 4, 5, 7]
        for i, row in enumerate(rows):
            for g, c in zip(view[side + "_stations"][i], order):
                w = row[c]
                stag = side != "wake" and i == 0
                tol = 1e-11*scale if c == 0 or stag else 1e-12*abs(w)
                if not _near(g, w, tol) and not (
                        stag and c == 1 and _near(g, ref["alt_x"], tol)):
                    return (f"station {side}({i}) column {DUMP_COLS[c]} is "
                            f"{g!r} instead of {w!r}")
    return None


# --------------------------------------------------------------------------
# Stanford cases
# --------------------------------------------------------------------------
def make_case(spec):
    """Return the text of an intact case file."""
    rng = random.Random(f"case:{spec['seed']}")
    cid = spec["case"]
    si = cid[0] == "1"
    n, nsm = spec["stations"], spec["smooth"]
    out = ["# " + spec.get("title", "Simulated flow"),
           f"{rng.choice(['IDENT', 'ident'])} = {cid}"]
    nu = round(rng.uniform(0.14, 0.16), 6) if si \
        else round(rng.uniform(1.5e-4, 1.7e-4), 9)
    nu_txt = f"{nu:.6f}" if si else f"{nu:.9f}"
    out += [f"{rng.choice(['V', 'v'])} = {nu_txt}", "", "# Summary data",
            "# X     UI      DUI   THETA    H      HS      G       CF     "
            "CFLT      CFE    BETA"]
    st = []
    x = rng.uniform(0.2, 2.0)
    for _ in range(n):
        ui = round(rng.uniform(10, 40) if si else rng.uniform(30, 150), 2)
        th = round(rng.uniform(0.1, 2.5) if si else rng.uniform(0.03, 0.6), 3)
        h = round(rng.uniform(1.3, 2.2), 3)
        hs = round(rng.uniform(1.6, 1.8), 3)
        g = round(rng.uniform(5, 16), 3)
        cf = round(rng.uniform(5e-4, 4e-3), 5)
        x = round(x, 3)
        dui = round(rng.uniform(-8, 8), 3)
        st.append((x, ui, dui, th, h, hs, g, cf))
        out.append(f"{x:.3f}  {ui:.2f}  {dui:.3f}  {th:.3f}  {h:.3f}  "
                   f"{hs:.3f}  {g:7.3f}  {cf:.5f}  "
                   f"{cf + rng.uniform(-1e-4, 1e-4):.5f}  "
                   f"{cf + rng.uniform(-1e-4, 1e-4):.5f}  "
                   f"{rng.uniform(-0.5, 7):.3f}")
        x += rng.uniform(0.05, 0.6)
    out += ["", "# Edge velocity plot", "# X    UI      DUI"]
    x = rng.uniform(0.1, 0.5)
    for _ in range(nsm):
        out.append(f"{x:.2f}  {rng.uniform(10, 120):.2f}  "
                   f"{rng.uniform(-8, 8):.2f}")
        x += rng.uniform(0.05, 0.5)
    if spec["blocks"] < 4:
        return _finish(out, spec)
    out += ["", "# Stations summary",
            "# X      US      UI       V      THETA    DELS    ENTH     CLTH"
            "      H        G       HS     RTHETA   RDELS"]
    more = []
    for (x, ui, _dui, th, h, hs, g, cf) in st:
        us = round(ui*math.sqrt(0.5*cf), 3)
        dels, enth = round(h*th, 4), round(hs*th, 4)
        clth = round(rng.uniform(10, 170)*th/2 + 1, 4)
        ln = 0.01 if si else 1/12
        nus = nu*1e-4 if si else nu
        rt = round(ui*th*ln/nus, 1)
        rd = round(ui*dels*ln/nus, 1)
        more.append((us, clth))
        out.append(f"{x:.4f}  {us:.3f}  {ui:.3f}  {nu_txt}  {th:.4f}  "
                   f"{dels:.4f}  {enth:.4f}  {clth:.4f}  {h:.4f}  {g:.4f}  "
                   f"{hs:.4f}  {rt:.1f}  {rd:.1f}")
    if spec["blocks"] < 5:
        return _finish(out, spec)
    for i, ((x, ui, _dui, th, h, hs, g, cf), (us, clth)) in enumerate(
            zip(st, more)):
        out += ["", f"# Station {i + 1} data",
                "# Y+     U+      Y     U/UI    Y/CD    UDEF"]
        y = 0.0
        ln = 0.01 if si else 1/12
        nus = nu*1e-4 if si else nu
        for k in range(1 + rng.randrange(spec["samples"])):
            uu = 0.0 if k == 0 else round(rng.uniform(0.4, 1.0), 4)
            y = round(y, 4)
            out.append(f"{y*ln*us/nus:8.1f}  {uu*ui/us:.2f}   {y:.4f}  "
                       f"{uu:.4f}  {y/clth:.4f}  {(1 - uu)*ui/us:.2f}")
            y += rng.uniform(0.01, 0.3)
    return _finish(out, spec)


def _finish(out, spec):
    text = "\n".join(out)
    if spec.get("end", True):
        text += "\n"
    if spec.get("crlf"):
        text = text.replace("\n", "\r\n")
    return text


def ref_case(text, case):
    """Return the meaning of the text of a case file."""
    lines = _lines(text)
    if lines is None:
        return ("unknown", "lone carriage return")
    blocks = []
    head = False
    for k, line in enumerate(lines):
        if line.startswith("#"):
            if not head:
                blocks.append([])
            head = True
        elif line.strip() == "":
            continue
        else:
            head = False
            if not blocks:
                return ("unknown", "text before the first heading")
            blocks[-1].append((k, line))
    if len(blocks) < 3:
        return ("invalid", f"only {len(blocks)} blocks")
    m = v = None
    seen = []
    for k, line in blocks[0]:
        parts = [p.strip() for p in line.split("=")]
        seen.append(parts[0].lower())
        if parts[0].lower() == "ident" and len(parts) > 1:
            m = parts[1]
        if parts[0].lower() == "v" and len(parts) > 1:
            v = parts[1]
    if seen.count("ident") > 1 or seen.count("v") > 1:
        return ("unknown", "identifier or viscosity given twice")
    if m is not None and m != case:
        return ("invalid", f"identifier is {m!r}")
    if v is None or m is None:
        return ("unknown", "no identifier or viscosity")
    nu = _number(v)
    if nu is None:
        return ("invalid", f"viscosity {v!r}")
    si = case[:1] == "1"
    ft, inch = (1.0, 0.01) if si else (0.3048, 0.3048/12)
    nufac = 1e-4 if si else 0.3048**2

    def table(block, ncol):
        out = []
        for k, line in block:
            vals = [_number(t) for t in line.split()]
            if len(vals) != ncol or any(q is None for q in vals):
                return ("invalid", f"line {k}: {line[:140]!r}")
            odd.append(any(not math.isfinite(q) for q in vals))
            out.append(vals)
        return out

    odd = [not math.isfinite(nu)]
    tabs = []
    cols = [None, 11, 3, 13]
    for i, b in enumerate(blocks[1:], 1):
        t = table(b, cols[i] if i < 4 else 6)
        if isinstance(t, tuple):
            return t
        tabs.append(t)
    summ, smooth = tabs[0], tabs[1]
    n = len(summ)
    out = {"nu_ref": nu*nufac, "n": n,
           "x_smooth": [r[0]*ft for r in smooth],
           "u_e_smooth": [r[1]*ft for r in smooth],
           "du_e_smooth": [r[2] for r in smooth]}
    inf = math.inf
    if len(tabs) > 2 and len(tabs[2]) != n:
        return ("invalid", f"{len(tabs[2])} rows for {n} stations")
    if len(tabs) > 3 and len(tabs) - 3 != n:
        return ("invalid", f"{len(tabs) - 3} profiles for {n} stations")
    if any(odd):
        return ("unknown", "not a finite number")
    rows = []
    for i, r in enumerate(summ):
        d = {"x": r[0]*ft, "u_e": r[1]*ft, "du_e": r[2],
             "delta_m": r[3]*inch, "shape_d": r[4], "shape_k": r[5],
             "shape_eq": r[6], "c_f": r[7], "c_f_lt": r[8], "c_f_exp": r[9],
             "beta_eq": r[10], "nu": inf, "delta_c": inf, "re_delta_m": inf,
             "re_delta_d": inf}
        d["delta_d"] = d["shape_d"]*d["delta_m"]
        d["delta_k"] = d["shape_k"]*d["delta_m"]
        d["u_star"] = d["u_e"]*math.sqrt(0.5*d["c_f"]) if d["c_f"] >= 0 \
            else math.nan
        if len(tabs) > 2:
            q = tabs[2][i]
            d.update(x=q[0]*ft, u_star=q[1]*ft, u_e=q[2]*ft, nu=q[3]*nufac,
                     delta_m=q[4]*inch, delta_d=q[5]*inch, delta_k=q[6]*inch,
                     delta_c=q[7]*inch, shape_d=q[8], shape_eq=q[9],
                     shape_k=q[10], re_delta_m=q[11], re_delta_d=q[12])
        for c in ("y_plus", "u_plus", "y", "u", "y_c", "u_defect"):
            d[c] = []
        if len(tabs) > 3:
            for p in tabs[3 + i]:
                for c, val in zip(("y_plus", "u_plus", "y", "u", "y_c",
                                   "u_defect"),
                                  (p[0], p[1], p[2]*inch, p[3]*d["u_e"],
                                   p[4], p[5])):
                    d[c].append(val)
        rows.append(d)
    out["rows"] = rows
    out["raw"] = (si, tabs)
    return ("data", out)


def _given(case_si, srow, trow, prow=None):
    """
    Return what is given more than once: for every such number, its column,
    the value expected from the other numbers, and the tolerance, both in
    the units of the file.
    """
    ft, inch = (1.0, 0.01) if case_si else (0.3048, 0.3048/12)
    nufac = 1e-4 if case_si else 0.3048**2
    s, t = srow, trow
    if prow is None:
        wall = s[1]*math.sqrt(0.5*s[7]) if s[7] >= 0 else math.nan
        re = s[1]*ft*inch/(t[3]*nufac) if t[3] else math.nan
        return [(0, s[0], 2e-3/ft), (2, s[1], 6e-2/ft), (4, s[3], 2e-3/inch),
                (8, s[4], 2e-3), (10, s[5], 2e-3), (9, s[6], 2e-3),
                (5, s[4]*s[3], 5e-3/inch), (6, s[5]*s[3], 5e-3/inch),
                (12, re*t[5], 5.0), (11, re*t[4], 5.0), (1, wall, 5e-3/ft)]
    if not (t[1] and t[3] and t[7]):
        return []
    p = prow
    return [(0, p[2]*inch*t[1]*ft/(t[3]*nufac), 1.0), (4, p[2]/t[7], 0.5),
            (1, t[2]*p[3]/t[1], 0.5), (5, (t[2] - t[2]*p[3])/t[1], 0.5)]


def conflicts(ref):
    """
    Return the largest ratio of difference and tolerance in a case, and
    where it is; the ratio is None if it cannot be said.
    """
    si, tabs = ref["raw"]
    worst, where = 0.0, "nothing given twice"
    if len(tabs) < 3:
        return worst, where
    for i, (s, t) in enumerate(zip(tabs[0], tabs[2])):
        sets = [(t, _given(si, s, t), f"summary of station {i}")]
        if len(tabs) > 3:
            sets += [(p, _given(si, s, t, p), f"sample {k} of station {i}")
                     for k, p in enumerate(tabs[3 + i])]
        for row, given, text in sets:
            if not given:
                return None, text
            for col, want, tol in given:
                if not math.isfinite(want):
                    return None, text
                r = abs(row[col] - want)/tol
                if r > worst:
                    worst, where = r, (f"{text}, column {col}: {row[col]!r} "
                                       f"for {want!r}")
    return worst, where


def contradict(data, op):
    """
    Return the case with one of its numbers changed: one that is given more
    than once set "fac" tolerances off what the others say ("given"), or any
    one scaled ("scale"); "mend" makes what follows from it agree again.
    """
    try:
        lines = data.decode("utf8").split("\n")
    except UnicodeDecodeError:
        return data
    si = op["si"]
    blocks, head = [], False
    for k, line in enumerate(lines):
        if line.startswith("#"):
            if not head:
                blocks.append([])
            head = True
        elif line.strip():
            head = False
            if blocks:
                blocks[-1].append(k)
    try:
        tabs = [[(k, [float(v) for v in lines[k].split()]) for k in b]
                for b in blocks[1:]]
    except ValueError:
        return data
    if len(tabs) < 3 or not tabs[0] or len(tabs[2]) != len(tabs[0]):
        return data
    put = {}

    def change(k, row, col, val):
        row[col] = val
        put.setdefault(k, {})[col] = val

    n = len(tabs[0])
    i = min(n - 1, int(op["st"]*n))
    ks, s = tabs[0][i]
    kt, t = tabs[2][i]
    profile = tabs[3 + i] if len(tabs) > 3 + i else []
    if op["do"] == "scale":
        tab = {"s": (ks, s), "t": (kt, t)}.get(op["row"])
        if tab is None:
            if not profile:
                return data
            tab = profile[min(len(profile) - 1, int(op["sm"]*len(profile)))]
        col = op["col"] % len(tab[1])
        change(tab[0], tab[1], col, tab[1][col]*(1 + op["fac"]))
    elif op["row"] == "t":
        col, want, tol = _given(si, s, t)[op["col"] % 11]
        val = want + op["fac"]*tol
        if not math.isfinite(val) or val < 0 <= want:
            val = want + abs(op["fac"])*tol
        change(kt, t, col, val)
    else:
        if not profile:
            return data
        kp, p = profile[min(len(profile) - 1, int(op["sm"]*len(profile)))]
        col, want, tol = _given(si, s, t, p)[op["col"] % 4]
        val = want + op["fac"]*tol
        if val < 0 <= want and col != 5:
            val = want + abs(op["fac"])*tol
        change(kp, p, col, val)
    if op.get("mend"):
        done = set(put.get(kt, {}))
        for col, want, _tol in _given(si, s, t):
            if col in (11, 12) and col not in done and math.isfinite(want):
                change(kt, t, col, want)
        for kp, p in profile:
            done = set(put.get(kp, {}))
            for col, want, _tol in _given(si, s, t, p):
                if col not in done:
                    change(kp, p, col, want)
    for k, cols in put.items():
        ends = "\r" if lines[k].endswith("\r") else ""
        toks = lines[k].split()
        for col, val in cols.items():
            if math.isfinite(val):
                toks[col] = repr(val)
        lines[k] = "  ".join(toks) + ends
    return "\n".join(lines).encode()


def gen_contradiction(rng, si):
    """Return one change of a number of a case."""
    op = {"do": rng.choice(["given", "given", "given", "scale"]), "si": si,
          "st": rng.choice([0.0, 0.999, round(rng.random(), 4)]),
          "sm": rng.choice([0.0, 0.999, round(rng.random(), 4)]),
          "row": rng.choice(["t", "t", "p"]), "col": rng.randrange(44),
          "mend": rng.random() < 0.75}
    if op["do"] == "scale":
        op["row"] = rng.choice(["s", "t", "p"])
        op["fac"] = rng.choice([-0.5, -0.1, -0.01, -1e-3, -1e-5, 1e-5, 1e-4,
                                1e-3, 0.01, 0.05, 0.1, 1.0, 9.0])
    else:
        op["fac"] = rng.choice([-1, 1])*rng.choice(
            [0.5, 0.9, 0.995, 0.999, 1.001, 1.001, 1.005, 1.1, 1.5, 3.0,
             100.0])
    return op


CASE_COLS = ["x", "u_e", "du_e", "delta_d", "delta_m", "delta_k", "delta_c",
             "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt", "c_f_exp",
             "beta_eq", "u_star", "nu", "re_delta_d", "re_delta_m"]
CASE_PROF = ["y_plus", "u_plus", "y", "u", "y_c", "u_defect"]


def view_case(reader):
    """Return everything the reader reports, as lists."""
    import numpy as np

    def lst(a):
        return [float(v) for v in np.asarray(a, dtype=float).ravel()]
    n = reader.station_count()
    out = {"n": n, "case": str(reader.case),
           "nu_ref": float(reader.nu_ref)}
    for c in ("x_smooth", "u_e_smooth", "du_e_smooth"):
        out[c] = lst(getattr(reader, c)())
    for c in CASE_COLS:
        out[c] = lst(getattr(reader, c)())
    out["prof"] = [[lst(getattr(reader, c)(i)) for c in CASE_PROF]
                   for i in range(n)]
    out["stations"] = [[float(getattr(reader.station(i), c))
                        for c in CASE_COLS] for i in range(n)]
    out["station_prof"] = [[lst(getattr(reader.station(i), c))
                            for c in CASE_PROF] for i in range(n)]
    out["samples"] = [int(reader.station(i).sample_count())
                      for i in range(n)]
    return out


def compare_case(ref, view):
    """Return None or what differs between reference and reader."""
    def same(g, w):
        if g == w or (g != g and w != w):
            return True
        return abs(g - w) <= 1e-12*abs(w)
    if view["n"] != ref["n"]:
        return f"{view['n']} stations instead of {ref['n']}"
    if not same(view["nu_ref"], ref["nu_ref"]):
        return f"nu_ref is {view['nu_ref']!r} instead of {ref['nu_ref']!r}"
    for c in ("x_smooth", "u_e_smooth", "du_e_smooth"):
        if len(view[c]) != len(ref[c]):
            return f"{c} has {len(view[c])} values instead of {len(ref[c])}"
        for i, (g, w) in enumerate(zip(view[c], ref[c])):
            if not same(g, w):
                return f"{c}[{i}] is {g!r} instead of {w!r}"
    for k, c in enumerate(CASE_COLS):
        for i, row in enumerate(ref["rows"]):
            for what, g in ((f"{c}[{i}]", view[c][i] if i < len(view[c])
                             else None),
                            (f"station({i}).{c}", view["stations"][i][k])):
                if g is None or not same(g, row[c]):
                    return f"{what} is {g!r} instead of {row[c]!r}"
    for i, row in enumerate(ref["rows"]):
        if view["samples"][i] != len(row["y"]):
            return (f"station {i} has {view['samples'][i]} samples instead "
                    f"of {len(row['y'])}")
        for k, c in enumerate(CASE_PROF):
            for where in ("prof", "station_prof"):
                got = view[where][i][k]
                if len(got) != len(row[c]):
                    return f"{c} of station {i} has {len(got)} values"
                for j, (g, w) in enumerate(zip(got, row[c])):
                    if not same(g, w):
                        return (f"{c}[{j}] of station {i} is {g!r} instead "
                                f"of {w!r}")
    return None


# --------------------------------------------------------------------------
# damage
# --------------------------------------------------------------------------
def damage(data, ops):
    """Return data (bytes) after the given damage."""
    for op in ops:
        n = len(data)
        do = op["do"]
        if n == 0:
            break
        if do in ("given", "scale"):
            data = contradict(data, op)
            continue
        pos = min(n - 1, int(op.get("at", 0)*n))
        if do == "trunc":
            data = data[:pos]
        elif do == "flip":
            data = (data[:pos] + bytes([data[pos] ^ (1 << op["bit"])])
                    + data[pos + 1:])
        elif do == "byte":
            data = data[:pos] + bytes([op["val"]]) + data[pos + 1:]
        elif do == "zero":
            m = min(op["len"], n - pos)
            data = data[:pos] + b"\0"*m + data[pos + m:]
        elif do == "lose":
            data = data[:pos] + data[pos + op["len"]:]
        elif do == "dup":
            data = (data[:pos] + data[pos:pos + op["len"]] + data[pos:])
        elif do == "append":
            data = data + op["text"].encode()
        else:
            lines = data.split(b"\n")
            k = min(len(lines) - 1, int(op["at"]*len(lines)))
            if do == "last":            # last line with content
                k = len(lines) - 1
                while k > 0 and not lines[k].strip():
                    k -= 1
                lines[k] = lines[k].replace(op["old"].encode(),
                                            op["new"].encode(), 1)
            elif do == "drop_line":
                del lines[k]
            elif do == "dup_line":
                lines.insert(k, lines[k])
            elif do == "swap_line":
                j = (k + 1) % len(lines)
                lines[k], lines[j] = lines[j], lines[k]
            elif do == "cut_line":
                lines[k] = lines[k][:int(op["col"]*len(lines[k]))]
            elif do == "join_line" and k + 1 < len(lines):
                lines[k:k + 2] = [lines[k] + lines[k + 1]]
            elif do == "insert_line":
                lines.insert(k, op["text"].encode())
            elif do == "token":
                toks = lines[k].split(b" ")
                full = [i for i, t in enumerate(toks) if t.strip()]
                if full:
                    i = full[int(op["tok"]*len(full)) % len(full)]
                    if op["text"] is None:
                        del toks[i]
                    else:
                        toks[i] = op["text"].encode()
                    lines[k] = b" ".join(toks)
            data = b"\n".join(lines)
    return data


TOKENS = ["******", "nan", "inf", "-inf", "1e400", "x", "1,5", "-", "#", "# ",
          "1.0-100", "--1", "0x10", "1_0", "\u0661", None, "0.0", "-1.0",
          "1.0 2.0", "NaN", "=", "9.9999", "0.1.2", "''"]


def gen_damage(rng, lines_only=False):
    """Return one kind of damage."""
    do = rng.choice(["trunc", "trunc", "flip", "flip", "flip", "byte", "zero",
                     "lose", "dup", "append", "drop_line", "dup_line",
                     "swap_line", "cut_line", "join_line", "insert_line",
                     "token", "token", "token", "last"])
    op = {"do": do, "at": round(rng.random(), 7)}
    if rng.random() < 0.15:
        op["at"] = rng.choice([0.0, 0.99999, 0.9999999])
    if do == "flip":
        op["bit"] = rng.randrange(8)
    elif do == "byte":
        op["val"] = rng.choice([0, 10, 13, 32, 35, 45, 46, 48, 57, 128, 255,
                                rng.randrange(256)])
    elif do in ("zero", "lose", "dup"):
        op["len"] = rng.choice([1, 2, 8, 64, 512, 4096])
    elif do == "append":
        op["text"] = rng.choice(["\n", "x", "1.0", "\n\n", "# ", "0.0 " * 12,
                                 "\n" + "0.1 "*8, "#\n"])
    elif do == "last":
        op["old"] = rng.choice(["3 ", "0 ", "5", " ", ".", "1 "])
        op["new"] = rng.choice(["# ", "#", "x", " # "])
    elif do == "cut_line":
        op["col"] = round(rng.random(), 4)
    elif do == "insert_line":
        op["text"] = rng.choice(["", " ", "# note", "#note", "end", "0 0 0",
                                 "1.0 2.0 # 3.0", "1 "*6, "1 "*11])
    elif do == "token":
        op["tok"] = round(rng.random(), 4)
        op["text"] = rng.choice(TOKENS)
    return op


def gen_dump_spec(rng):
    spec = {"kind": "dump", "seed": rng.randrange(10**9),
            "upper": rng.choice([1, 2, 5, 12, 30, 70]),
            "lower": rng.choice([1, 2, 5, 12, 30, 70]),
            "wake": rng.choice([0, 0, 1, 2, 8, 24])}
    if rng.random() < 0.1:
        # as many stations and as long a wake as the largest settings give
        spec[rng.choice(["upper", "lower"])] = rng.choice([150, 260, 400])
        spec["wake"] = rng.choice([0, 60, 150])
    for key, p in (("zero", 0.2), ("tiny", 0.1), ("wide", 0.15),
                   ("crlf", 0.12)):
        if rng.random() < p:
            spec[key] = True
    if rng.random() < 0.2:
        spec["head"] = False
    elif rng.random() < 0.15:
        spec["note"] = rng.choice(NOTES)
    if rng.random() < 0.2:
        spec["end"] = False
    return spec


def gen_case_spec(rng, case):
    n = rng.choice([1, 2, 3, 6, 13])
    spec = {"kind": "case", "case": case, "seed": rng.randrange(10**9),
            "stations": n, "smooth": rng.choice([1, 2, 5, 15, n, n]),
            "blocks": rng.choice([3, 4, 5, 5, 5]),
            "samples": rng.choice([1, 3, 10, 30])}
    if rng.random() < 0.1:
        spec.update(rng.choice([{"samples": 120}, {"samples": 260},
                                {"stations": 32}, {"smooth": 90}]))
    if rng.random() < 0.15:
        spec["title"] = "Measured" + rng.choice(NOTES)
    if rng.random() < 0.12:
        spec["crlf"] = True
    if rng.random() < 0.2:
        spec["end"] = False
    return spec


def make(spec):
    """Return the bytes of an intact file."""
    if spec["kind"] == "real":
        with open(spec["path"], "rb") as f:
            return f.read()
    return (make_dump(spec) if spec["kind"] == "dump"
            else make_case(spec)).encode()


def meaning(data, kind, case=None):
    """Return the meaning of the bytes of a file."""
    try:
        text = data.decode("utf8")
    except UnicodeDecodeError as exc:
        k = data.rfind(b"\n", 0, exc.start) + 1
        if data[k:k + 1] == b"#" or (kind == "case" and data.count(
                b"#", 0, exc.start) < 2):
            return ("unknown", "undecodable heading")
        return ("invalid", "undecodable row")
    odd = [c for c in text if (c < " " and c not in "\t\r\n") or c > "~"]
    if all(c.isprintable() for c in odd):
        # nothing is made of the text of headings
        rest = re.sub("^#.*", "", text, flags=re.MULTILINE)
        odd = [c for c in rest if c > "~"]
    res = ref_dump(text) if kind == "dump" else ref_case(text, case)
    if odd and res[0] == "data":
        return ("unknown", f"characters {odd[:3]!r}")
    return res
