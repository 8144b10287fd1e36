"""C14: reading recorded motions from AT2 and SMC files."""

import os
import pathlib
import tempfile

import numpy as np

from pystrata import motion, tools

ASSUMPTIONS = ["AT2 headers have the sample count and the time step as their first two columns",
               "SMC files are corrected accelerograms in the published fixed-width layout"]

VALUES = [0.0, 0.233833e-6, -0.377832e-6, 0.5, -1.25, 12.5, -123.4567, 1e-30, 9.999999]


def scratch():
    d = os.environ.get("MC_WORK") or tempfile.gettempdir()
    return pathlib.Path(d) / f"motion-{os.getpid()}"


def series(n, kind):
    if kind == "mixed":
        return [VALUES[i % len(VALUES)] for i in range(n)]
    if kind == "negative":
        return [-0.001 * (i + 1) for i in range(n)]
    return [0.01 * i for i in range(n)]


def verify(ch, m, path, desc, dt, vals, scale, tol):
    ch.op()
    ch.check(isinstance(m, motion.TimeSeriesMotion), "a time series motion")
    ch.same(str(m.filename), str(path), "file name")
    ch.same(m.description, desc, "description")
    ch.close(m.time_step, dt, "time step", rtol=1e-6)
    exp = np.array(vals, float) * scale
    ch.close(m.accels, exp, "accelerations", rtol=1e-9, atol=tol * abs(scale))
    ch.close(m.times, np.arange(len(vals)) * dt, "times", rtol=1e-6)
    n = 1
    while n < len(vals):
        n *= 2
    ch.close(m.freqs, np.arange(n // 2 + 1) / (n * dt), "frequencies", rtol=1e-6)
    ch.close(m.pga, np.max(np.abs(exp)), "pga", rtol=1e-9, atol=1e-9 * abs(scale))
    ch.close(m.calc_time_series()[: len(vals)], exp, "time series", rtol=1e-9, scale="max", atol=1e-12 * abs(scale) + tol)
    ch.state(len(vals), dt, scale, m.pga)


class Bare:
    """0 as `0.`, 0.5 as `.5`, -1.25 as `-1.25`, small numbers as `.2E-06`."""

    def format(self, v):
        if v and abs(v) < 1e-3:
            m, e = f"{v:.6e}".split("e")
            return f"{float(m) / 10:.7f}E{int(e) + 1:+03d}".replace("0.", ".", 1)
        t = f"{v:.6f}".rstrip("0")
        return t if t in ("0.", "-0.") else t.replace("0.", ".", 1) if t.lstrip("-").startswith("0.") else t


def at2(ch):
    n = ch.all("n", list(range(1, 24)))
    per = ch.choose("per line", [5, 8, 1, 7])
    fmt = ch.choose("format", ["{:15.6E}", "{:15.7e}", "  {:.9f}", "{:.12g} ", "{:#.6g} ", "{:+.5E} ", "bare"])
    kind = ch.choose("values", ["mixed", "negative", "ramp"])
    dt = ch.choose("dt", [0.01, 0.005, 0.0200, 1.0])
    head = ch.choose("header", ["{n:4d}    {dt:6.4f}    NPTS, DT", "{n} {dt}", " {n}   {dt:.4E}  NPTS, DT"])
    tail = ch.choose("end of file", ["newline", "none", "blank lines"])
    desc = ch.choose("description", ["KOBE 01/16/95 2046, NISHI-AKASHI, 090 (CUE)", "", "  spaced  text "])
    scale = ch.choose("scale", [None, 1.0, 2.5, -1.0, 0, 0.101972])
    eol = ch.choose("line end", ["\n", "\r\n"])
    if fmt == "bare":  # as Fortran list-directed output: no digit before or after the point
        fmt = Bare()
    vals = [float(fmt.format(v)) for v in series(n, kind)]
    lines = ["PEER NGA STRONG MOTION DATABASE RECORD", desc, "ACCELERATION TIME HISTORY IN UNITS OF G",
             head.format(n=n, dt=dt)]
    for i in range(0, n, per):
        lines.append("".join(" " + fmt.format(v) if isinstance(fmt, Bare) or "E" not in fmt and "e" not in fmt else fmt.format(v)
                             for v in vals[i:i + per]))
    text = eol.join(lines) + {"newline": eol, "none": "", "blank lines": eol + eol + "  " + eol}[tail]
    path = scratch().with_suffix(".AT2")
    path.write_bytes(text.encode())
    arg = ch.choose("path", [str, lambda p: p])(path)
    try:
        m = motion.TimeSeriesMotion.load_at2_file(arg) if scale is None else \
            motion.TimeSeriesMotion.load_at2_file(arg, scale)
        verify(ch, m, path, desc.strip(), dt, vals, 1.0 if scale is None else scale, 0)
        ch.check(path.read_bytes() == text.encode(), "file is unchanged")
    finally:
        path.unlink()


def smc(ch):
    n = ch.all("n", list(range(1, 26)))
    n_com = ch.all("comments", [0, 1, 3])
    kind = ch.choose("values", ["full width", "mixed", "ramp"])
    sps = ch.choose("samples per second", [200.0, 100.0, 50.0, 1.0])
    scale = ch.choose("scale", [None, 1.0, 1 / 980.665, -2.0, 3])
    station = ch.choose("station", ["station = VA: Reston; Fire Station #25   component= 360",
                                    "station =X  component=UP", "station = A = B component= 90 deg"])
    eol = ch.choose("line end", ["\n", "\r\n"])
    extra = ch.choose("after the data", ["", "trailer line"])
    com = ch.choose("comment text", ["| remark", "|", "12345678901234567890"])
    # full width: no blanks between the columns
    pool = {"full width": [-1234.5678, -9.999e-05, 12345.6789, -0.1234567], "mixed": [0.5, -0.25, 0.0, 1e-5, -12.0],
            "ramp": [0.01 * i for i in range(30)]}[kind]
    fields = []
    for i in range(n):
        v = pool[i % len(pool)]
        s = f"{v:10.4f}" if kind != "full width" else ("%.4f" % v if abs(v) > 1 else "%.3E" % v)
        s = s.rjust(10)
        if len(s) > 10:
            s = s[:10]
        fields.append(s)
    if kind == "full width":
        fields = [{0: "-1234.5678", 1: "-9.999E-05", 2: "12345.6789", 3: "-0.1234567"}[i % 4] for i in range(n)]
    vals = [float(s) for s in fields]
    ints = [-32768] * 48
    ints[15], ints[16] = n_com, n
    floats = [1.7e38] * 50
    floats[1] = sps
    lines = ["2 CORRECTED ACCELEROGRAM", "*", "2555b", "     2011  08  23    1751 MINERAL, VA", "Moment Mag= 5.80",
             station, "epicentral dist =    121.4", "inst type=K2", "*", "*", "*"]
    for i in range(0, 48, 8):
        lines.append("".join(f"{v:10d}" for v in ints[i:i + 8]))
    for i in range(0, 50, 5):
        lines.append("".join(f"{v:15.7E}" for v in floats[i:i + 5]))
    lines += [com] * n_com
    for i in range(0, n, 8):
        lines.append("".join(fields[i:i + 8]))
    if extra:
        lines.append(extra)
    text = eol.join(lines) + eol
    path = scratch().with_suffix(".smc")
    path.write_bytes(text.encode())
    try:
        m = motion.TimeSeriesMotion.load_smc_file(str(path)) if scale is None else \
            motion.TimeSeriesMotion.load_smc_file(str(path), scale)
        st, co = station[len("station ="):].rsplit("component=", 1)
        verify(ch, m, path, f"{st.strip()}; {co.strip()}", 1 / sps, vals, 1.0 if scale is None else scale, 0)
    finally:
        path.unlink()


def uncorrected(ch):
    """Uncorrected records and truncated files are refused, not misread."""
    how = ch.all("file", ["uncorrected", "short data", "no data"])
    lines = ["1 UNCORRECTED ACCELEROGRAM" if how == "uncorrected" else "2 CORRECTED ACCELEROGRAM"] + ["*"] * 4 + \
        ["station = A   component= 1"] + ["*"] * 5
    ints = [0] * 48
    ints[16] = 12
    lines += ["".join(f"{v:10d}" for v in ints[i:i + 8]) for i in range(0, 48, 8)]
    lines += ["".join(f"{100.0:15.7E}" for _ in range(5)) for _ in range(10)]
    k = {"uncorrected": 12, "short data": 8, "no data": 0}[how]
    lines += ["".join(f"{0.5:10.4f}" for _ in range(min(8, k - i))) for i in range(0, k, 8)]
    path = scratch().with_suffix(".smc")
    path.write_text("\n".join(lines) + "\n")
    try:
        m = motion.TimeSeriesMotion.load_smc_file(str(path))
    except Exception:
        ch.op()
        ch.state(how)
        return
    finally:
        path.unlink()
    ch.fail(f"{how}: read as {m.accels!r}")


def fixed_width(ch):
    """The fixed-width reader takes columns by position, across lines."""
    n = ch.all("n", list(range(0, 8)))
    width = ch.all("width", [1, 4, 10])
    per = ch.all("per line", [1, 2, 3, 8])
    parser = ch.all("parser", [int, str, tools.to_str])
    cols = [str((i * 7 + 1) % 10).rjust(width) if width > 1 else str(i % 10) for i in range(n)]
    lines = ["".join(cols[i:i + per]) + "\n" for i in range(0, n, per)] + ["rest\n"]
    got = tools.parse_fixed_width(n * [(width, parser)], lines)
    ch.op()
    ch.same(list(got), [parser(c) for c in cols], "values")
    ch.check(lines == ["rest\n"], f"lines left: {lines}")
    ch.state(got)


SECTIONS = [("at2", at2, dict(quick=3, thorough=4)), ("smc", smc, dict(quick=3, thorough=5)),
            ("uncorrected", uncorrected, 0), ("fixed_width", fixed_width, 0)]
