"""C29: generic velocity profiles: Kamai et al. (2016), and profiles of the National Crustal Model."""

import gzip
import io
import json
import pathlib
import shutil
import tempfile
import email.message
import urllib.error
import urllib.request
import urllib.response
import warnings

import numpy as np

from pystrata import generic, tools

ASSUMPTIONS = ["depths ascend from the surface", "the service is replaced by a stand-in that answers with the enumerated content"]

COEF = {"california": (0.25, 104, 0.22, 166, 53, -0.00388, 0.0002, 0.195), "japan": (0.2, 40, 0.25, 260, 28, -0.00296, 0, 0.4)}


def kea16(ch):
    region = ch.all("region", ["california", "japan", "California", "Japan", "taiwan", ""])
    vs30 = ch.all("vs30", [250, 250.0, 400.0, 760, 850, 200.0, 1100])
    depth = ch.all("depth", [("#array", np.array([0, 1.5, 10.0, 30.0, 200.0])), ("#list", [0.0, 5.0]), ("#one", [20.0]), ("#scalar", 12.5),
                             ("#int", 30), ("#fine", np.arange(0, 100, 0.5))])[1]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            df = generic.kea16_profile(depth, vs30, region)
        except ValueError:
            ch.check(region.lower() not in COEF, f"region {region} is known")
            ch.op()
            return
    ch.check(region.lower() in COEF, f"region {region} is not known")
    ch.check(any(issubclass(x.category, UserWarning) for x in w) == (not 250 <= vs30 <= 850), "warning outside of the range")
    b = COEF[region.lower()]
    a0, a1, a2 = b[0] * vs30 + b[1], b[2] * vs30 + b[3], b[4] * np.exp(b[5] * vs30)
    z = np.atleast_1d(depth).astype(float)
    ch.close(df["vs_median"].to_numpy(), [a0 + a1 * np.log((d + a2) / a2) for d in z], "median velocity", rtol=1e-10)
    ch.close(df["std_vs_ln_units"].to_numpy(), np.full(len(z), b[6] * vs30 + b[7]), "standard deviation", rtol=1e-12)
    ch.close(df.index.to_numpy(), z, "depth", rtol=1e-12)
    ch.same((df.index.name, list(df.columns)), ("depth", ["vs_median", "std_vs_ln_units"]), "columns")
    ch.op()
    ch.state(region.lower(), vs30, z)


def mean_stress(depth, uw, wt, k0):
    out, total = [], 0.0
    n = len(depth)
    for i in range(n):
        h = depth[i + 1] - depth[i] if i < n - 1 else 0.0
        mid = depth[i] + h / 2
        u = 9.81 * max(mid - wt, 0.0)
        out.append((total + uw[i] * h / 2 - u) * (1 + 2 * k0) / 3)
        total += uw[i] * h
    return out


def stress(ch):
    n = ch.all("layers", [1, 2, 3, 5])
    depth, z = [], 0.0
    for i in range(n):
        depth.append(z)
        z += ch.choose(f"h{i}", [5.0, 0.5, 40, 1000.0])
    uw = [ch.choose(f"uw{i}", [18.0, 15.5, 24, 31.0, 9.0]) for i in range(n)]
    wt = ch.choose("water table", [3.0, 0, 1e5, 5.0, 21.0])
    k0 = ch.choose("k0", [None, 0.3, 1.0, 0.5])
    conv = ch.choose("as", [list, np.array, tuple])
    d, u = conv(depth), conv(uw)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = tools.calc_mean_eff_stress(d, u, wt) if k0 is None else tools.calc_mean_eff_stress(d, u, wt, k0)
    e = mean_stress(depth, uw, wt, 0.5 if k0 is None else k0)
    ch.close(got, e, "mean effective stress", rtol=1e-3, atol=1e-3)  # weight of water: 9.81 or 9.80665
    ch.check(bool([x for x in w if issubclass(x.category, UserWarning)]) == any(x < 10 or x > 30 for x in uw), "warning of unusual weights")
    ch.same((list(d), list(u)), (depth, uw), "arguments unchanged")
    ch.op()
    ch.state(e)


def response(depth, vs, rho, wt, n=1, status="sucess"):
    one = dict(location=dict(latitude=1.0, longitude=2.0, water_table_depth=wt), profile=dict(vs=vs, density=rho, vp=[2 * v for v in vs]))
    other = dict(location=dict(latitude=9.0, longitude=9.0, water_table_depth=-1.0), profile=dict(vs=[1.0] * len(vs), density=[1.0] * len(vs)))
    return dict(status=status, request=dict(depths=dict(depth_vector=depth)), response=dict(results=([one] + [other])[:n]))


def merge(depth, vs, uw, tol):
    """Layers of nearly the velocity of the first of their group."""
    n = len(depth)
    h = [depth[i + 1] - depth[i] if i < n - 1 else 0.0 for i in range(n)]
    out = []
    i = 0
    while i < n:
        j = i
        while j + 1 < n and abs(vs[j + 1] - vs[i]) / vs[i] <= tol:
            j += 1
        hs, vv, uu = h[i:j + 1], vs[i:j + 1], uw[i:j + 1]
        if sum(hs) > 0:
            out.append((depth[i], sum(hs) / sum(a / b for a, b in zip(hs, vv)), sum(a * b for a, b in zip(hs, uu)) / sum(hs)))
        else:
            out.append((depth[i], vv[0], uu[0]))
        i = j + 1
    return out


VS = [400.0, 403.5, 407.0, 415.0, 700, 694.0, 2500.0]  # never just at a tolerance
RHO = [1850.0, 1900, 2100.0, 2000.0, 2300.0, 2310.0, 2700]


def ncm(ch):
    n = ch.all("layers", [1, 2, 4, 7])
    how = ch.all("file", ["plain", "gz", "plain named gz", "fetched gz", "fetched plain"])
    kw = ch.choose("simplify", [{}, dict(simplify=True), dict(simplify=True, simplify_tol=0.01), dict(simplify=True, simplify_tol=0.2),
                                dict(simplify=True, simplify_tol=0), dict(simplify=False, simplify_tol=0.2), dict(simplify=True, simplify_tol=10.0)])
    depth, z = [], 0.0
    for i in range(n):
        depth.append(z)
        z += ch.choose(f"h{i}", [5, 2.5, 100.0, 0.25])
    vs = [ch.choose(f"v{i}", [VS[i], 400, 900.0, 404.02, 396.02]) for i in range(n)]
    rho = [ch.choose(f"rho{i}", [RHO[i], 1700.0]) for i in range(n)]
    wt = ch.choose("water table", [12.0, 0, 300.0])
    results = ch.choose("results", [1, 2])
    as_path = ch.choose("path", [str, pathlib.Path])
    data = response(depth, vs, rho, wt, results)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="mc29"))
    try:
        f = tmp / ("n.json.gz" if how in ("gz", "plain named gz") else "n.json")
        if how.startswith("fetched"):
            with net(data) as urls:
                k = {} if how == "fetched gz" else dict(gzip_output=False)
                generic.fetch_ncm_profile(37.5, -122.25, as_path(f), depth_start=0, depth_step=5, depth_end=100, **k)
            check_url(ch, urls, "37.5,-122.25", "0,5,100")
            raw = f.read_bytes()
            ch.check((raw[:2] == b"\x1f\x8b") == (how == "fetched gz"), "compressed as asked for")
        elif how == "gz":
            f.write_bytes(gzip.compress(json.dumps(data).encode()))
        else:
            f.write_text(json.dumps(data))
        df, got_wt = generic.load_ncm_profile(as_path(f), **kw)
    finally:
        shutil.rmtree(tmp)
    uw = [r * 9.81 / 1000 for r in rho]
    rows = list(zip(depth, vs, uw))
    if kw.get("simplify"):
        rows = merge(depth, vs, uw, kw.get("simplify_tol", 0.02))
    d = [r[0] for r in rows]
    ch.close(df["depth"].to_numpy(), d, "depth", rtol=1e-12)
    ch.close(df["vel_shear"].to_numpy(), [r[1] for r in rows], "velocity", rtol=1e-9)
    ch.close(df["unit_wt"].to_numpy(), [r[2] for r in rows], "unit weight", rtol=1e-3)
    # the groups keep the total thickness except for what is merged with the half-space
    ch.close(df["thickness"].to_numpy(), np.r_[np.diff(d), 0], "thickness", rtol=1e-12, atol=1e-9)
    ch.close(df["mean_eff_stress"].to_numpy(), mean_stress(d, [r[2] for r in rows], wt, 0.5), "mean effective stress", rtol=2e-3, atol=1e-3)
    ch.close(got_wt, wt, "water table", rtol=0)
    ch.same(list(df.index), list(range(len(rows))), "index")
    ch.op(2)
    ch.state(rows, wt)


class Handler(urllib.request.BaseHandler):
    handler_order = 1

    def https_open(self, req):
        return self.opened(req)

    http_open = https_open


OPENER = urllib.request.OpenerDirector()
OPENER.add_handler(Handler())


class net:
    """Stand-in for the network."""

    def __init__(self, data, error=None):
        self.data, self.error, self.urls = data, error, []

    def __enter__(self):
        real, self.urls = urllib.request.urlopen, []
        opener = urllib.request._opener

        def opened(url, *a, **k):
            url = url if isinstance(url, str) else url.full_url
            self.urls.append(url)
            if self.error:
                raise self.error
            return urllib.response.addinfourl(io.BytesIO(json.dumps(self.data).encode()), email.message.Message(), url, 200)

        # However the request is made
        names = [(urllib.request, "urlopen")] + [(generic, k) for k, v in vars(generic).items() if v is real]
        for m, k in names:
            setattr(m, k, opened)
        Handler.opened = staticmethod(opened)
        urllib.request.install_opener(OPENER)

        def restore():
            for m, k in names:
                setattr(m, k, real)
            urllib.request.install_opener(opener)

        self.restore = restore
        return self.urls

    def __exit__(self, *a):
        self.restore()


def check_url(ch, urls, loc, depths):
    from urllib.parse import parse_qs, unquote, urlparse

    ch.same(len(urls), 1, "one request")
    u = urlparse(urls[0])
    q = parse_qs(u.query)
    ch.same((u.netloc, u.path), ("earthquake.usgs.gov", "/ws/nshmp/ncm/geophysical"), "service")
    num = lambda s: [float(x) for x in unquote(s).split(",")]
    ch.same(num(q["location"][0]), num(loc), "location")
    ch.same(num(q["depths"][0]), num(depths), "depths")


def fetch(ch):
    status = ch.all("status", ["sucess", "success", "error", None, "missing"])
    fail = ch.all("network", [False, True])
    exists = ch.all("file exists", [False, True])
    lat, lon = ch.all("site", [(37.5, -122.0), (-10, 5.25)])
    args = ch.all("depths", [((), "0,5,10000"), ((10,), "10,5,10000"), ((0, 2.5), "0,2.5,10000"), ((1, 2, 3), "1,2,3")])
    data = response([0, 5], [300.0, 500.0], [1800.0, 1900.0], 3.0, status=status)
    if status == "missing":
        del data["status"]
    err = urllib.error.HTTPError("u", 500, "m", {}, None) if fail else None
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="mc29"))
    try:
        f = tmp / "out"
        if exists:
            f.write_text("before")
        good = not fail and status in ("sucess", "success")
        try:
            with net(data, err) as urls:
                generic.fetch_ncm_profile(lat, lon, f, *args[0])
            ch.check(good, "failures are reported")
        except urllib.error.HTTPError:
            ch.check(fail, "no failure of the network")
        except RuntimeError:
            ch.check(not fail and not good, "no failure reported by the service")
        check_url(ch, urls, f"{lat},{lon}", args[1])
        if good:
            ch.same(json.loads(gzip.decompress(f.read_bytes())), data, "stored response")
        else:
            ch.same(f.read_text() if f.exists() else None, "before" if exists else None, "file untouched after a failure")
        ch.same([x.name for x in tmp.iterdir()], ["out"] if good or exists else [], "files")
    finally:
        shutil.rmtree(tmp)
    ch.op()
    ch.state(status, fail, exists)


def empty(ch):
    data = response([0.0], [300.0], [1800.0], 3.0, n=0)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="mc29"))
    try:
        (tmp / "f").write_text(json.dumps(data))
        try:
            generic.load_ncm_profile(tmp / "f")
        except ValueError:
            ch.op()
            return
        ch.fail("a response without results is refused")
    finally:
        shutil.rmtree(tmp)


SECTIONS = [("kea16", kea16, 0), ("stress", stress, {"quick": 3, "thorough": 4}), ("ncm", ncm, {"quick": 2, "thorough": 3}), ("fetch", fetch, 0), ("empty", empty, 0)]
