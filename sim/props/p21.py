"""Files of other programs, and what the options of open() ask for.

The file is written by the netCDF4 package from a description; the code under
test never sees anything but the file.  Expected contents follow from the
description and the options.
"""
import datetime, gc, warnings
from props.exprbase import *
import files

ID = "P21"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("one case = a NetCDF file written by another program from a seeded description (dimensions with coordinate variables of several conventions, dates relative to seeded references in several calendars, packed and "
        "masked variables, auxiliary variables, strings, scalars, groups), seeded options of open(), and seeded requests under seeded memory limits and library or disk faults; non-trivial if a variable of the file was read; "
        "distinct by scenario")
STATE_MEASURE = "distinct (reader, file format, options, classes of the axes, kind of decoding, fault, outcome) tuples"
REAL = ["pygeode.formats (open, netcdf, netcdf4, cfmeta)", "libnetcdf and HDF5", "views and chunked evaluation"]
STUB = ["the program that wrote the file (the netCDF4 package)", "disk: system calls of the libraries fail as planned (simio)", "return codes of libnetcdf calls (LibProxy)", "reads of the netCDF4 package (VarProxy)", "memory limit",
        "contents of uninitialised memory"]
ASSUMPTIONS = ["the netCDF4 package writes what it is told", "a file that was opened without an error is not changed afterwards"]
PROBES = ["time-axis", "foreign-calendar", "climatology", "packed", "masked", "packed-coordinate", "auxiliary", "noncoordinate-axis", "strings", "scalar", "groups", "dimtypes", "namemap", "varlist", "value-override", "no-cfmeta",
          "unlimited", "open-raised", "read-raised", "refused", "multi-read-request"]

FORMATS = ["NETCDF4", "NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET"]
CAL = {"standard": "std", "gregorian": "std", "proleptic_gregorian": "std", None: "std", "365_day": "m365", "noleap": "m365", "360_day": "m360"}
UNITS = {"days": ["days", "day", "d", "Days"], "hours": ["hours", "hour", "hr", "hrs", "h"], "minutes": ["minutes", "minute", "min", "mins"], "seconds": ["seconds", "second", "sec", "secs", "s"]}
SEC = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}


# ------------------------------------------------------------------ description of a file
def gen_coord(rng, name, n, fmt):
    """A coordinate variable: raw numbers, attributes and what they mean."""
    k = rng.pick(["lat", "lon", "pres", "time", "time", "time", "axis", "plain", "plain", "none", "none"])
    if k == "time" and name == "latitude":
        k = "lat"
    if k == "none":
        return None
    up = rng.chance(0.7)
    c = {"k": k, "dt": rng.pick(["f8", "f8", "f4", "i4", "i2"]), "atts": {}}
    A = c["atts"]
    step = rng.randint(1, 6)
    v = [rng.randint(-20, 20) + 0] * n
    for i in range(1, n):
        v[i] = v[i - 1] + rng.randint(1, step)
    if not up and k != "time":
        v = [-x for x in v]
    if c["dt"][0] == "f":
        v = [x + rng.pick([0.0, 0.25, 0.5]) * (rng.chance(0.3)) for x in v]
    if k == "lat":
        f = rng.randrange(3)
        if f == 0:
            A["units"] = "degrees_north"
            if rng.chance(0.3):
                A["axis"] = "Y"
        elif f == 1:
            A["standard_name"] = "latitude"
            A["units"] = rng.pick(["degrees", "degrees_north", "degree_north"])
        else:
            A["long_name"] = rng.pick(["latitude", "Latitude"])
    elif k == "lon":
        f = rng.randrange(3)
        if f == 0:
            A["units"] = "degrees_east"
            if rng.chance(0.3):
                A["axis"] = "X"
        elif f == 1:
            A["standard_name"] = "longitude"
            A["units"] = rng.pick(["degrees", "degrees_east", "degree_east"])
        else:
            A["long_name"] = rng.pick(["longitude", "Longitude"])
    elif k == "pres":
        m = min(v)
        v = [x - m + 1 for x in v]
        f = rng.randrange(3)
        if f == 0:
            A["units"] = rng.pick(["hPa", "mbar"])
        elif f == 1:
            A["standard_name"], A["units"] = "air_pressure", rng.pick(["hPa", "mbar"])
        else:
            A["standard_name"], A["units"] = "air_pressure", "Pa"
        if rng.chance(0.5):
            A["positive"] = "down"
    elif k == "axis":
        A["axis"] = rng.pick("XYZT")
        if rng.chance(0.5):
            A["units"] = rng.pick(["m", "1", "level"])
        A["long_name"] = "generic"
    elif k == "plain":
        if rng.chance(0.5):
            A["units"] = rng.pick(["m", "1", "degrees", "days"])
        if rng.chance(0.4):
            A["standard_name"] = rng.pick(["projection_y_coordinate", "height", "grid_latitude"])
            if rng.chance(0.4):
                A["long_name"] = rng.pick(["latitude", "longitude"])
        elif rng.chance(0.4):
            A["long_name"] = rng.pick(["level index", "cross-track", "ensemble member"])
    else:
        cal = rng.pick(["standard", "standard", "gregorian", "proleptic_gregorian", None, "365_day", "noleap", "360_day", "julian"])
        u = rng.pick(["days", "days", "hours", "minutes", "seconds"])
        y = rng.pick([1, 4, 1582, 1800, 1900, 1904, 1979, 2000, 2001, 2096, 0 if CAL.get(cal) in ("m365", "m360") else 1970])
        m, d = rng.pick([(1, 1), (1, 1), (2, 28), (3, 1), (12, 30), (7, 15)])
        t = rng.pick([(0, 0, 0), (0, 0, 0), (6, 0, 0), (12, 30, 0), (23, 59, 30), (0, 30, 0), (0, 0, 45), (18, 0, 10)])
        mul = {"days": 1, "hours": rng.pick([1, 6, 24]), "minutes": rng.pick([1, 30, 720]), "seconds": rng.pick([1, 90, 3600])}[u]
        if y == 0:
            m, d, mul = 1, 1, 1
            v = [abs(x) for x in range(n)]
        v = [(abs(v[0]) + x - v[0]) * mul for x in v]
        if u != "days":
            v = [int(x) for x in v]
        if c["dt"] == "f4":
            c["dt"] = "f8"
        if c["dt"] == "i2" and max(v) > 30000:
            c["dt"] = "i4"
        if c["dt"][0] == "i":
            v = [int(x) for x in v]
            if len(set(v)) < n:
                v = [v[0] + i for i in range(n)]
        form = rng.randrange(9)
        if y == 0 and form in (7, 8):
            form = 1
        if t != (0, 0, 0) and (form in (0, 2, 8) or form == 7 and t[2]):
            form = 3
        c.update(cal=cal, u=u, ref=[y, m, d] + list(t), form=form)
        A["units"] = "%s since %s" % (rng.pick(UNITS[u]), date_text(c["ref"], form))
        if cal is not None:
            A["calendar"] = cal
        f = rng.randrange(4)
        if f == 0 or (A["units"].split()[0] not in ("days", "hours", "minutes", "seconds") and f == 3 and name.lower() != "time"):
            A["standard_name"] = "time"
        elif f == 1:
            A["long_name"] = rng.pick(["time", "Time"])
        elif f == 2:
            A["axis"] = "T"
        if f == 1 and rng.chance(0.3):
            A["axis"] = "T"
    if c["dt"][0] == "i":
        v = [int(round(x)) for x in v]
        if len(set(v)) < n:
            v = sorted(set(v))[:1] * 0 + [v[0] + i for i in range(n)]
    c["v"] = v
    if k in ("lat", "lon", "plain", "time", "pres") and c["dt"] in ("i2", "i4") and rng.chance(0.2):
        c["scale"] = rng.pick([0.5, 0.01, 2.0]) if k != "time" else 2.0
        if rng.chance(0.5) and k != "pres":
            c["offset"] = rng.pick([10.0, 3.0])
    if rng.chance(0.3):
        A["comment"] = "made elsewhere"
    return c


def date_text(ref, form):
    y, m, d, H, M_, S = ref
    if form == 0:
        return "%d-%02d-%02d" % (y, m, d)
    if form == 1:
        return "%04d-%02d-%02d %02d:%02d:%02d" % tuple(ref)
    if form == 2:
        return "%d-%d-%d" % (y, m, d)
    if form == 3:
        return "%d-%d-%d %d:%d:%d" % tuple(ref)
    if form == 4:
        return "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(ref)
    if form == 5:
        return "%04d-%02d-%02d %02d:%02d:%02d.0" % tuple(ref)
    if form == 6:
        return "%04d-%02d-%02dT%02d:%02d:%02dZ" % tuple(ref)
    if form == 7:
        return "%04d-%02d-%02d %02d:%02d" % (y, m, d, H, M_)
    return "%04d-%02d-%02d UTC" % (y, m, d)


INTS = ["i2", "i4", "i1"]
NAMES = ["T", "U", "pr", "zg", "flag", "q"]
DNAMES = ["x", "y", "lat", "lon", "time", "level", "t2", "station", "rlat", "latitude", "member"]


def gen_var(rng, dims, fmt, name):
    nd = rng.pick([0, 1, 1, 2, 2, 2, 3, 3])
    ds = rng.sample(range(len(dims)), min(nd, len(dims)))
    ul = [i for i in ds if dims[i].get("unl")]
    if ul and not fmt == "NETCDF4":
        ds.remove(ul[0])
        ds.insert(0, ul[0])
    types = ["f8", "f4", "f4"] + INTS + (["u1", "u2", "u4"] if fmt == "NETCDF4" else [])
    v = {"n": name, "d": ds, "dt": rng.pick(types), "seed": rng.randrange(1 << 31), "atts": {}}
    if rng.chance(0.5):
        lo = 0 if v["dt"][0] == "u" else -9
        if rng.chance(0.6):
            v["fill"] = rng.pick([-9, -1, 0, 99, 1e20] if v["dt"][0] == "f" else [99, 0, 7] if v["dt"][0] == "u" else [-9, 0, 99])
        if rng.chance(0.4):
            v["miss"] = rng.pick([[5], [5, 3], [-9, 5]]) if lo else [5]
            if rng.chance(0.3):
                v["missdt"] = "f8"
            if v["dt"][0] == "f" and rng.chance(0.4):
                v["miss"], v["missdt"] = rng.pick([[0.1], [-999.9], [1e20, 0.3]]), rng.pick(["f8", v["dt"]])
                v["special"] = True      # (occurs in the data)
    if rng.chance(0.4):
        if rng.chance(0.8):
            v["scale"] = rng.pick([0.5, 0.1, 10.0, -2.0])
        if rng.chance(0.7):
            v["offset"] = rng.pick([100.0, -3.5, 273.15])
        v["sdt"] = rng.pick(["f4", "f8"])
    if rng.chance(0.5):
        v["atts"]["units"] = rng.pick(["K", "m s-1", "1"])
    if rng.chance(0.5):
        v["atts"]["long_name"] = rng.pick(["some field", "Temp\u00e9rature"])
    if rng.chance(0.3):
        v["atts"]["level"] = rng.pick([3, 2.5, [1, 2, 3]])
    return v


def gen(rng, tier):
    fmt = rng.pick(FORMATS)
    nd = rng.randint(1, 4)
    names = rng.sample(DNAMES, nd)
    if "lat" in names and "latitude" in names or "lon" in names and "rlat" in names:
        names = names[:1]
        nd = 1
    dims = []
    for n in names:
        L = rng.pick([1, 2, 3, 3, 4, 5, 7])
        c = gen_coord(rng, n, L, fmt)
        if c and n in ("lat", "lon") and rng.chance(0.5):
            c["atts"] = dict((k, x) for k, x in c["atts"].items())
        dims.append({"n": n, "len": L, "c": c})
    if rng.chance(0.4):
        dims[rng.randrange(len(dims))]["unl"] = True
    sc = {"fmt": fmt, "dims": dims, "vars": [], "reader": rng.pick(["netcdf", "netcdf4"]), "gatts": {}, "opts": {}}
    if rng.chance(0.5):
        sc["gatts"]["title"] = "from elsewhere"
    if rng.chance(0.3):
        sc["gatts"]["nums"] = [1, 2]
    nm = rng.sample(NAMES, rng.randint(1, 3))
    for n in nm:
        sc["vars"].append(gen_var(rng, dims, fmt, n))
    for d in dims:
        if d["n"] == "station":
            d["c"] = None
    # auxiliary variables of one dimension
    for i, d in enumerate(dims):
        if rng.chance(0.35):
            for k in range(rng.randint(1, 2)):
                a = {"n": "aux%d%d" % (i, k), "d": [i], "dt": rng.pick(["f8", "f4", "i4"]), "seed": rng.randrange(1 << 31), "atts": {}, "aux": True}
                if rng.chance(0.2):
                    a["fill"] = 0
                sc["vars"].append(a)
    if rng.chance(0.2):
        i = rng.randrange(nd)
        sc["vars"].append({"n": rng.pick(["site", "site_id"]), "d": [i], "str": rng.pick(["char", "vlen"] if fmt == "NETCDF4" else ["char"]), "seed": rng.randrange(1 << 31), "atts": {}, "dt": "S", "aux": rng.chance(0.5)})
    for v in sc["vars"]:
        if not v.get("aux") and rng.chance(0.6):
            refs = [a["n"] + ("_name" if a.get("str") == "char" else "") for a in sc["vars"] if a.get("aux") and a is not v and not (a["d"][0] not in v["d"] and rng.chance(0.9))]
            refs += [d["n"] for i, d in enumerate(dims) if i in v["d"] and rng.chance(0.2)]
            if refs:
                v["atts"][rng.pick(["coordinates", "coordinates", "ancillary_variables"])] = " ".join(refs)
    if fmt == "NETCDF4" and rng.chance(0.1):
        sc["groups"] = [rng.randrange(2) for _ in sc["vars"]]
        sc["reader"] = "netcdf4"
    else:
        gen_opts(rng, sc)
    vs = expected(sc)
    sc["reqs"] = []
    for _ in range(rng.randint(1, 5)):
        i = rng.randrange(len(sc["vars"]))
        if i not in vs:
            continue
        r = dict(gen_request(rng, vs[i], 0), var=i)
        if rng.chance(0.15):
            r.update(gen_fault(rng, sc["reader"]))
        sc["reqs"].append(r)
    if rng.chance(0.15):
        sc["fault"] = gen_fault(rng, sc["reader"])
    return sc


def gen_fault(rng, reader):
    k = rng.randint(0, 25)
    if reader == "netcdf4":
        if rng.chance(0.5):
            return {"nc4": [k // 8]}
        return {"disk": [["open", rng.randint(0, 1), rng.pick(["EACCES", "EMFILE"]), 0]]}
    if rng.chance(0.3):
        return {"disk": [["open", rng.randint(0, 1), rng.pick(["EACCES", "EMFILE", "EIO"]), 0]]}
    return {"lib": [[k, rng.pick([-31, -33, -51, -57, -101, 5])]]}


def gen_opts(rng, sc):
    o, dims = sc["opts"], sc["dims"]
    if rng.chance(0.15):
        o["cfmeta"] = False
    if rng.chance(0.3):
        o["dimtypes"] = {}
        for d in rng.sample(dims, rng.randint(1, min(2, len(dims)))):
            k = rng.pick(["inst", "cls", "tuple", "func", "time", "pres", "bad"])
            t = {"k": k, "cls": rng.pick(["Lat", "Lon", "XAxis", "Height", "Pres"]), "name": rng.pick([d["n"], "new_" + d["n"]])}
            if k == "bad" and not rng.chance(0.2):
                continue
            if k in ("inst", "pres"):
                t["v"] = [rng.randint(1, 9) * 10.0 + 100 * i for i in range(d["len"])]
            if k == "time":
                t["u"], t["ref"] = rng.pick(["days", "hours"]), [rng.pick([1979, 2000]), rng.randint(1, 12), 1]
                t["tc"] = rng.pick(["std", "m365"])
            o["dimtypes"][d["n"]] = t
        if not o["dimtypes"]:
            del o["dimtypes"]
    vn = [fname(v) for v in sc["vars"]]
    if rng.chance(0.25):
        o["namemap"] = {}
        for n in rng.sample(vn + [d["n"] for d in dims], rng.randint(1, 2)):
            o["namemap"][n] = "my_" + n
    if rng.chance(0.25):
        o["varlist"] = rng.sample(vn, rng.randint(1, len(vn))) + (["nosuch"] if rng.chance(0.2) else [])
    if rng.chance(0.2):
        o["value_override"] = {}
        k = rng.randrange(3)
        if k == 0:
            v = rng.pick([v for v in sc["vars"] if not v.get("str")] or [None])
            if v:
                o["value_override"][v["n"]] = rng.randrange(1 << 31)
        elif k == 1:
            d = rng.pick(dims)
            if d["c"] and d["c"]["k"] != "time":
                o["value_override"][d["n"]] = [rng.randint(1, 9) + 10 * i for i in range(d["len"])]
        else:
            o["value_override"]["nosuch"] = [1]
        if not o["value_override"]:
            del o["value_override"]


def fname(v):
    """the name the dataset knows a variable under"""
    return v["n"]


def raw_of(sc, v, seed=None):
    rng = np.random.RandomState((v["seed"] if seed is None else seed) & 0xffffffff)
    shape = [sc["dims"][i]["len"] for i in v["d"]]
    if v.get("str"):
        return np.array(["".join(chr(97 + int(c)) for c in rng.randint(0, 26, int(rng.randint(1, 6)))) for _ in range(int(np.prod(shape)))], object).reshape(shape)
    if v["dt"][0] == "f":
        x = np.round(rng.randint(-10, 10, shape) * rng.choice([1, 1, 0.25], shape), 2)
        if v.get("special"):
            x = np.where(rng.rand(*shape) < 0.3, rng.choice(v["miss"], shape), x)
        return x.astype(v["dt"])
    if v["dt"][0] == "u":
        return rng.randint(0, 12, shape).astype(v["dt"])
    return rng.randint(-10, 12, shape).astype(v["dt"])


def write(sc, path):
    import netCDF4
    f = netCDF4.Dataset(path, "w", format=sc["fmt"])
    try:
        for g in sorted(set(sc["groups"])) if "groups" in sc else [None]:
            G = f if g is None else f.createGroup("g%d" % g)
            for k, x in sc["gatts"].items():
                G.setncattr(k, np.array(x, "i4") if isinstance(x, list) else x)
            vs = [v for i, v in enumerate(sc["vars"]) if g is None or sc["groups"][i] == g]
            for i, d in enumerate(sc["dims"]):
                G.createDimension(d["n"], None if d.get("unl") else d["len"])
            for d in sc["dims"]:
                c = d["c"]
                if c:
                    w = G.createVariable(d["n"], c["dt"], (d["n"],))
                    w.set_auto_maskandscale(False)
                    for k, x in c["atts"].items():
                        w.setncattr(k, x)
                    for k, a in (("scale", "scale_factor"), ("offset", "add_offset")):
                        if k in c:
                            w.setncattr(a, c[k])
                    w[:] = np.array(c["v"], c["dt"])
            for v in vs:
                dn = [sc["dims"][i]["n"] for i in v["d"]]
                x = raw_of(sc, v)
                if v.get("str") == "char":
                    n = max(len(s) for s in x.ravel())
                    G.createDimension(v["n"] + "_name_strlen", n)
                    w = G.createVariable(v["n"] + "_name", "S1", dn + [v["n"] + "_name_strlen"])
                    y = np.zeros(x.shape + (n,), "S1")
                    for i in np.ndindex(*x.shape):
                        for j, ch in enumerate(x[i]):
                            y[i + (j,)] = ch.encode()
                    w.set_auto_chartostring(False)
                    w[:] = y
                elif v.get("str"):
                    w = G.createVariable(v["n"], str, dn)
                    w[:] = x
                else:
                    kw = {"fill_value": np.array(v["fill"], v["dt"])} if "fill" in v else {}
                    w = G.createVariable(v["n"], v["dt"], dn, **kw)
                    w.set_auto_maskandscale(False)
                    if "miss" in v:
                        m = np.array(v["miss"], v.get("missdt", v["dt"]))
                        w.setncattr("missing_value", m if m.size > 1 else m[0])
                    if "scale" in v:
                        w.setncattr("scale_factor", np.array(v["scale"], v["sdt"])[()])
                    if "offset" in v:
                        w.setncattr("add_offset", np.array(v["offset"], v["sdt"])[()])
                    w[...] = x
                for k, a in v["atts"].items():
                    w.setncattr(k, np.array(a, "i4") if isinstance(a, list) else a)
    finally:
        f.close()


# ------------------------------------------------------------------ what is expected
def decoded(sc, v, cf=True):
    """(values, tolerance) of a variable as the options present it"""
    o = sc["opts"].get("value_override", {})
    x = raw_of(sc, v, o.get(v["n"]))
    if v.get("str") or not cf or not (set(v) & set(["fill", "miss", "scale", "offset"])):
        return x, 0.0
    m = np.zeros(x.shape, bool)
    for f in ([v["fill"]] if "fill" in v else []) + v.get("miss", []):
        m |= x == (np.array(f, v["dt"]) if x.dtype.kind == "f" else f)
    y = x.astype(float)
    sdt = v.get("sdt", "f8")
    s, t = float(np.array(v.get("scale", 1.0), sdt)), float(np.array(v.get("offset", 0.0), sdt))
    tol = 0.0
    if "scale" in v or "offset" in v:
        y = y * s + t
        tol = 4e-6 * (20 * abs(s) + abs(t))
    return np.where(m, np.nan, y), tol


def isstr(v):
    return bool(v.get("str"))


def expected(sc):
    """index -> LA (values as presented) of the variables that are asked for"""
    out = {}
    cf = sc["opts"].get("cfmeta", True)
    for i, v in enumerate(sc["vars"]):
        if isstr(v) and v["str"] == "char" and not cf:
            continue
        x, t = decoded(sc, v, cf)
        out[i] = LA([{"c": "nam", "n": sc["dims"][k]["n"], "v": list(range(sc["dims"][k]["len"]))} for k in v["d"]], x)
    return out


def exp_axis(sc, d):
    """The axis a dimension is to become: {cls, v, name, atts, dates?, noyear?} (cls None: not checked)"""
    pg = pygeode_()
    o, c = sc["opts"], d["c"]
    cf = o.get("cfmeta", True)
    t = o.get("dimtypes", {}).get(d["n"])
    ov = o.get("value_override", {}).get(d["n"])
    name = d["n"]
    if c:
        vals = [float(x) for x in np.array(c["v"] if ov is None else ov, c["dt"] if ov is None else float)]
        dec = [x * c.get("scale", 1.0) + c.get("offset", 0.0) for x in vals]
        ratts = dict(c["atts"])
    else:
        vals = dec = [float(x) for x in range(d["len"])]
        ratts = {}
    e = {"name": name, "atts": {}}
    if t is not None:
        k = t["k"]
        if c and ("scale" in c or "offset" in c):
            e["anyv"] = True          # (raw or decoded: not said)
        if k == "inst":
            e.update(cls=getattr(pg, t["cls"]) if t["cls"] != "XAxis" else pg.axis.XAxis, v=t["v"], name=t["name"])
            e.pop("anyv", None)
        elif k == "pres":
            e.update(cls=pg.Pres, v=t["v"], name=t["name"])
            e.pop("anyv", None)
        elif k == "cls":
            e.update(cls=axc(t["cls"]), v=vals)
            e["atts"] = ratts
        elif k == "func":
            e.update(cls=axc(t["cls"]), v=vals, name=t["name"])
        elif k == "tuple":
            e.update(cls=pg.NamedAxis, v=vals, name=t["name"])
        elif k == "time":
            e.update(cls={"std": pg.StandardTime, "m365": pg.ModelTime365}[t["tc"]], v=None, name=t["name"])
            if not e.get("anyv"):
                e["dates"] = [M.to_days(t["tc"], *t["ref"]) * 86400.0 + x * SEC[t["u"]] for x in vals]
            if any(x != int(x) and t["u"] == "days" and x * 4 != int(x * 4) for x in vals):
                raise Invalid("odd times")
    elif not c:
        e.update(cls=None if cf else pg.axis.DummyAxis, v=vals)
    elif not cf:
        e.update(cls=pg.NamedAxis, v=vals, atts=ratts)
    elif c["k"] == "time" and c["cal"] in CAL:
        tc = CAL[c["cal"]]
        r = c["ref"]
        sec = r[3] * 3600 + r[4] * 60 + r[5]
        e["cls"] = {"std": pg.StandardTime, "m365": pg.ModelTime365, "m360": pg.ModelTime360}[tc]
        y = r[0] or 400
        e["dates"] = [M.to_days(tc, y, r[1], r[2]) * 86400.0 + sec + x * SEC[c["u"]] for x in dec]
        e["v"] = None
        e["tc"] = tc
        if r[0] == 0:
            L = {"m365": 365, "m360": 360}[tc]
            e["clim"] = all(x - e["dates"][0] + (e["dates"][0] - M.to_days(tc, 400, 1, 1) * 86400.0) < L * 86400 for x in e["dates"])
            e["dates"] = [x - M.to_days(tc, 400, 1, 1) * 86400.0 for x in e["dates"]]     # since the start of the year 0
        drop = ("units", "calendar", "axis")
        e["atts"] = dict((k, x) for k, x in ratts.items() if k not in drop)
    else:
        k = c["k"]
        A = c["atts"]
        st = A.get("standard_name", A.get("long_name", d["n"])).lower()
        u = A.get("units", "")
        cls = {"X": pg.axis.XAxis, "Y": pg.axis.YAxis, "Z": pg.axis.ZAxis, "T": pg.axis.TAxis}.get(A.get("axis"), pg.NamedAxis)
        if st == "latitude" or u == "degrees_north":
            cls = pg.Lat
        if st == "longitude" or u == "degrees_east":
            cls = pg.Lon
        if st == "air_pressure" or u in ("hPa", "mbar"):
            cls = pg.Pres
            if u == "Pa":
                dec = [x / 100.0 for x in dec]
        e.update(cls=cls, v=dec)
        drop = ["axis"] if cls is not pg.NamedAxis else []
        if issubclass(cls, (pg.Lat, pg.Lon, pg.Pres)):
            drop += ["units", "positive"]
        if k == "time":
            drop += ["calendar", "units", "axis"]     # (a calendar that isn't known: dates can't be told)
            e["cls"] = None
            e["anyv"] = True
        e["atts"] = dict((k, x) for k, x in A.items() if k not in drop)
    nm = o.get("namemap", {})
    if e["name"] in nm:
        e["name"] = nm[e["name"]]
    return e


def pygeode_():
    import pygeode
    return pygeode


def axc(n):
    pg = pygeode_()
    return getattr(pg, n, None) or getattr(pg.axis, n)


def real_opts(sc):
    pg = pygeode_()
    o = sc["opts"]
    kw = {}
    if "cfmeta" in o:
        kw["cfmeta"] = o["cfmeta"]
    for k in ("namemap", "varlist"):
        if k in o:
            kw[k] = copy.deepcopy(o[k])
    if "value_override" in o:
        kw["value_override"] = dict((n, raw_of(sc, [v for v in sc["vars"] if v["n"] == n][0], x) if not isinstance(x, list) else x) for n, x in o["value_override"].items())
    for n, t in o.get("dimtypes", {}).items():
        k = t["k"]
        D = kw.setdefault("dimtypes", {})
        if k == "inst":
            D[n] = axc(t["cls"])(np.array(t["v"]), name=t["name"])
        elif k == "pres":
            D[n] = (pg.Pres, {"values": np.array(t["v"]), "name": t["name"]})
        elif k == "cls":
            D[n] = axc(t["cls"])
        elif k == "tuple":
            D[n] = (pg.NamedAxis, {"name": t["name"]})
        elif k == "func":
            def f(a, t=t):
                return axc(t["cls"])(a.values, name=t["name"])
            D[n] = f
        elif k == "time":
            D[n] = [{"std": pg.StandardTime, "m365": pg.ModelTime365}[t["tc"]], {"units": t["u"], "startdate": {"year": t["ref"][0], "month": t["ref"][1], "day": t["ref"][2]}, "name": t["name"]}]
        else:
            D[n] = pg.Lat(np.arange(99.))
    return kw


def validate(sc):
    names = [d["n"] for d in sc["dims"]] + [v["n"] for v in sc["vars"]]
    if len(set(names)) < len(names):
        raise Invalid("names")
    o = sc["opts"]
    en = [exp_axis(sc, d)["name"] for d in sc["dims"] if o.get("dimtypes", {}).get(d["n"], {}).get("k") != "bad"]
    if len(set(en)) < len(en):
        raise Invalid("axis names")
    for v in sc["vars"]:
        if v.get("str") and len(v["d"]) != 1:
            raise Invalid("strings")
        if isstr(v) and v["n"] in o.get("value_override", {}):
            raise Invalid("strings")
    for d in sc["dims"]:
        c = d["c"]
        if c and len(c["v"]) != d["len"]:
            raise Invalid("coordinate")
        if d["n"] in o.get("namemap", {}) and o.get("dimtypes", {}).get(d["n"], {}).get("name", d["n"]) != d["n"]:
            raise Invalid("which name?")
        if c and c["k"] != "time" and d["n"].lower() == "time" and "since" in c["atts"].get("units", ""):
            raise Invalid("a time after all")
        if c and c["k"] == "time" and "T" == c["atts"].get("axis") and 0:
            raise Invalid("")


def execute(sc, ctx):
    import pygeode as pg
    validate(sc)
    W = world.World(ctx)
    W.install_allocator()
    D = files.Disk(ctx)
    path = "in.nc"
    try:
        write(sc, path)
        L = files.proxy_lib(ctx)
        N = files.Nc4Seam(ctx)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _execute(sc, ctx, W, D, L, N, path)
    finally:
        W.uninstall()


def _execute(sc, ctx, W, D, L, N, path):
    import pygeode as pg
    o = sc["opts"]
    cf = o.get("cfmeta", True)
    grp = "groups" in sc

    def run(f, s, what):
        before = sum(ctx.faults.values())
        D.arm(s.get("disk", []))
        L.n, L.plan = 0, dict((k, c) for k, c in s.get("lib", []))
        N.n, N.plan = 0, dict((k, 1) for k in s.get("nc4", []))
        out = err = None
        try:
            out = f()
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
        reads = max(L.n, N.n)
        L.plan, N.plan = {}, {}
        D.settle()
        fired = sum(ctx.faults.values()) - before
        ctx.log(what, "raised" if err else "ok", fired)
        return out, err, fired, reads

    anybad = [n for n, t in o.get("dimtypes", {}).items() if t["k"] == "bad"]
    bad = [n for n in anybad if any(n in [sc["dims"][k]["n"] for k in v["d"]] for v in sc["vars"])]
    W.limit(1 << 22)
    kw = real_opts(sc)
    ds = None
    for attempt in (0, 1):
        s = sc.get("fault", {}) if attempt == 0 else {}
        got, err, fired, _ = run(lambda: pg.open(path, format=sc["reader"], **kw), s, "open")
        gc.collect()
        if bad and not fired:
            ctx.check(err is not None, "not-refused", lambda: "an axis of another length was accepted for %s" % bad)
            ctx.probe("refused")
            return
        if anybad and not fired:
            return
        if err is not None:
            ctx.check(fired, "failed-without-a-fault", lambda: "opening with %s: %s" % (short(o), err))
            ctx.probe("open-raised")
            got = None
            continue
        if ds is None:
            ds = got
        if not sc.get("fault"):
            break
        check_contents(sc, ctx, got, cf, grp)
    check_contents(sc, ctx, ds, cf, grp, True)
    vs = expected(sc)
    nm = o.get("namemap", {})
    for j, r in enumerate(sc["reqs"]):
        v = sc["vars"][r["var"]]
        if r["var"] not in vs:
            raise Invalid("no such request")
        G = ds["g%d" % sc["groups"][r["var"]]] if grp else ds
        n = nm.get(v["n"], v["n"])
        x = [y for y in G.vars if y.name == n]
        if not x:
            continue
        x, la = x[0], vs[r["var"]]
        want, idx = expected_request(r, la)
        if r["kind"] == "call_i" and any(b is not x.axes[int(k)] and b.has_alias(x.axes[int(k)].name) for k in r["ix"] for b in x.axes):
            continue            # (two axes answer to this name)
        W.limit(r["limit"])
        what = "request %d (%s of %s)" % (j, r["kind"], v["n"])
        got, err, fired, reads = run(lambda: do_request(r, x, la, ctx), r, what)
        if err is not None:
            ctx.check(fired, "failed-without-a-fault", lambda: "%s: %s" % (what, err))
            ctx.probe("read-raised")
        else:
            match(ctx, sc, v, got, want, cf, what)
            ctx.trivial = False
            if reads > 1:
                ctx.probe("multi-read-request")
        ctx.state(sc["reader"], sc["fmt"], sorted(o), [k for k in ("fill", "miss", "scale", "str") if k in v], r["kind"], bool(fired), bool(err))
    # all of it once more, without faults
    W.limit(sc["reqs"][0]["limit"] if sc["reqs"] else 1 << 22)
    check_contents(sc, ctx, ds, cf, grp, True)


def match(ctx, sc, v, got, want, cf, what):
    if isstr(v):
        g = np.asarray(got)
        ok = g.shape == want.shape and all(str(a) == b for a, b in zip(g.ravel(), want.ravel()))
        ctx.check(ok, "wrong-value", lambda: "%s: %s, expected %s" % (what, short(g), short(want)))
        return
    compare(ctx, got, want, what, rtol=0, atol=decoded(sc, v, cf)[1])


def check_contents(sc, ctx, ds, cf, grp, values=False):
    """Variables, axes and attributes of an opened dataset."""
    o = sc["opts"]
    nm = o.get("namemap", {})
    vl = o.get("varlist", [])
    exp = expected(sc)
    if grp:
        ctx.probe("groups")
        ctx.check(isinstance(ds, dict) and sorted(ds) == sorted(set("g%d" % g for g in sc["groups"])), "wrong-groups", lambda: "opened %s" % short(ds))
    Gs = sorted(set(sc["groups"])) if grp else [None]
    for g in Gs:
        G = ds["g%d" % g] if grp else ds
        mine = [i for i in range(len(sc["vars"])) if g is None or sc["groups"][i] == g]
        for k, x in sc["gatts"].items():
            ctx.check(k in G.atts and files.att_equal(G.atts[k], x), "lost-attribute", lambda: "global attribute %s is %s, expected %s" % (k, short(G.atts.get(k)), short(x)))
        have = [x.name for x in G.vars]
        ctx.check(len(set(have)) == len(have), "wrong-names", lambda: "variables %s" % have)
        usable = set()
        for i in mine:
            v = sc["vars"][i]
            if i not in exp:      # (characters, as they are)
                usable.add(nm.get(v["n"] + "_name", v["n"] + "_name"))
                continue
            n = nm.get(v["n"], v["n"])
            usable.add(n)
            if isstr(v):
                usable.add(nm.get(v["n"] + "_name", v["n"] + "_name"))
            x = [y for y in G.vars if y.name == n]
            if not x:
                if vl and v["n"] not in vl:
                    continue
                # attached to an axis?
                host = axis_with(sc, G, v, v["n"], n)
                mayaux = len(v["d"]) == 1 and any(v["n"] in (w["atts"].get("coordinates", "") + " " + w["atts"].get("ancillary_variables", "")).replace("_name", "").split() for w in sc["vars"])
                used = any(sc["dims"][v["d"][0]]["n"] in [sc["dims"][k]["n"] for k in sc["vars"][m]["d"]] for m in mine if m != i) if v["d"] else False
                ctx.check(mayaux, "missing-variable", lambda: "no variable %s in %s" % (n, have))
                hosts = [w for m in mine for w in G.vars if w.name == nm.get(sc["vars"][m]["n"], sc["vars"][m]["n"]) and v["d"][0] in sc["vars"][m]["d"]]
                if vl and not hosts:
                    continue        # (nothing of that dimension was asked for)
                ctx.check(host is not None, "missing-variable", lambda: "auxiliary variable %s is in no axis (%s), nor a variable (%s)" % (n, [(a.name, list(a.auxarrays)) for a in G.axes], have))
                ctx.probe("auxiliary")
                if values:
                    match(ctx, sc, v, np.asarray(host), exp[i].arr, cf, "auxiliary array %s" % n)
                continue
            x = x[0]
            ctx.check(not vl or v["n"] in vl, "wrong-names", lambda: "%s was not asked for" % n)
            ctx.check(len(x.axes) == len(v["d"]), "wrong-axes", lambda: "%s has axes %s" % (n, [a.name for a in x.axes]))
            for ax, k in zip(x.axes, v["d"]):
                check_axis(sc, ctx, ax, sc["dims"][k], n, cf)
            for k, a in v["atts"].items():
                if k in ("coordinates", "ancillary_variables") or (isstr(v)):
                    continue
                ctx.check(k in x.atts and files.att_equal(x.atts[k], a), "lost-attribute", lambda: "attribute %s of %s is %s, expected %s" % (k, n, short(x.atts.get(k)), short(a)))
            if not isstr(v):
                if cf:
                    ctx.check(x.units == v["atts"].get("units", ""), "wrong-units", lambda: "%s has units %r, its attributes are %s" % (n, x.units, v["atts"]))
                for k, a in (("fill", "_FillValue"), ("miss", "missing_value"), ("scale", "scale_factor"), ("offset", "add_offset")):
                    if k in v and not cf:
                        ctx.check(a in x.atts, "lost-attribute", lambda: "attribute %s of %s, with cfmeta=False" % (a, n))
                    if k in v and cf:
                        ctx.check(a not in x.atts, "stale-attribute", lambda: "%s is decoded and still has attribute %s" % (n, a))
            if values:
                with ctx.sut("reading %s" % n):
                    got = x.get()
                match(ctx, sc, v, got, exp[i].arr, cf, n)
                ctx.log("var", n, digest_array(got) if not isstr(v) else [str(q) for q in np.ravel(got)])
            if "scale" in v:
                ctx.probe("packed")
            if "fill" in v or "miss" in v:
                ctx.probe("masked")
            if isstr(v):
                ctx.probe("strings")
            if not v["d"]:
                ctx.probe("scalar")
        extra = [n for n in have if n not in usable]
        ctx.check(not extra, "wrong-names", lambda: "unexpected variables %s (expected %s)" % (extra, sorted(usable)))
        if vl:
            order = [n for n in have]
            want = [nm.get(n, n) for n in vl if nm.get(n, n) in have]
            ctx.check(order == want, "wrong-order", lambda: "variables %s, varlist %s" % (order, vl))
    for k, p in (("dimtypes", "dimtypes"), ("namemap", "namemap"), ("varlist", "varlist"), ("value_override", "value-override"), ("cfmeta", "no-cfmeta")):
        if k in o:
            ctx.probe(p)


def axis_with(sc, G, v, *names):
    for a in G.axes:
        if len(a) == sc["dims"][v["d"][0]]["len"]:
            for n in names + (v["n"] + "_name",):
                if n in a.auxarrays:
                    return a.auxarrays[n]
    return None


def check_axis(sc, ctx, ax, d, what, cf):
    pg = pygeode_()
    e = exp_axis(sc, d)
    c = d["c"]
    w = "%s: axis %s" % (what, ax.name)
    ctx.check(ax.name == e["name"], "wrong-axis-name", lambda: "%s is to be called %s" % (w, e["name"]))
    ctx.check(len(ax) == d["len"], "wrong-axes", lambda: "%s has length %d" % (w, len(ax)))
    if e["cls"] is not None:
        ctx.check(type(ax) is e["cls"] or (e["cls"] is pg.axis.DummyAxis and isinstance(ax, e["cls"])) or "clim" in e, "wrong-axis-class", lambda: "%s is a %s, expected %s" % (w, type(ax).__name__, e["cls"].__name__))
    if isinstance(ax, pg.axis.NonCoordinateAxis):
        ctx.probe("noncoordinate-axis")
    if "dates" in e:
        ctx.probe("time-axis")
        if e.get("tc") in ("m365", "m360"):
            ctx.probe("foreign-calendar")
        if "clim" in e:
            L = {"m365": 365, "m360": 360}[e["tc"]]
            aux = ax.auxarrays
            z = np.zeros(d["len"])
            f = lambda k: np.asarray(aux.get(k, z))
            got = []
            for y, m, dd, h, mi, s in zip(f("year"), f("month"), f("day"), f("hour"), f("minute"), f("second")):
                got.append(M.doy(e["tc"], 400, int(m), int(dd)) * 86400.0 - 86400 + h * 3600 + mi * 60 + s + (0 if e["clim"] else y * L * 86400.0))
            ctx.check(("year" not in aux) == e["clim"], "wrong-dates", lambda: "%s: relative to the year 0, dates %s, climatology %s" % (w, short(got), "year" not in aux))
            if e["clim"]:
                ctx.probe("climatology")
        else:
            got = world.axis_coord(ax)
        ctx.check(len(got) == len(e["dates"]) and np.allclose(got, e["dates"], rtol=0, atol=0.51), "wrong-dates", lambda: "%s (%s): %s, expected %s" % (w, c and c["atts"], short(got), short(e["dates"])))
    elif e.get("v") is not None and not e.get("anyv") and not (isinstance(ax, pg.axis.NonCoordinateAxis)):
        got = [float(x) for x in ax.values]
        ctx.check(np.allclose(got, e["v"], rtol=1e-6, atol=1e-6), "wrong-coordinates", lambda: "%s: %s, expected %s" % (w, short(got), short(e["v"])))
    if c and ("scale" in c or "offset" in c) and cf:
        ctx.probe("packed-coordinate")
    if d.get("unl"):
        ctx.probe("unlimited")
    for k, a in e["atts"].items():
        if k not in ax.atts and k == "units" and getattr(ax, "units", None) == a:
            continue
        ctx.check(k in ax.atts and files.att_equal(ax.atts[k], a), "lost-attribute", lambda: "attribute %s of %s is %s, expected %s" % (k, w, short(ax.atts.get(k)), short(a)))


def shrinks(sc):
    for i in range(len(sc["reqs"])):
        c = copy.deepcopy(sc)
        del c["reqs"][i]
        yield c
    for k in list(sc["opts"]):
        c = copy.deepcopy(sc)
        del c["opts"][k]
        yield c
    if "fault" in sc:
        c = copy.deepcopy(sc)
        del c["fault"]
        yield c
    if "groups" in sc:
        c = copy.deepcopy(sc)
        del c["groups"]
        yield c
    for i in range(len(sc["vars"])):
        if len(sc["vars"]) > 1:
            c = copy.deepcopy(sc)
            del c["vars"][i]
            if "groups" in c:
                del c["groups"][i]
            c["reqs"] = [dict(r, var=r["var"] - (r["var"] > i)) for r in c["reqs"] if r["var"] != i]
            yield c
        for k in ("fill", "miss", "scale", "offset"):
            if k in sc["vars"][i]:
                c = copy.deepcopy(sc)
                del c["vars"][i][k]
                yield c
        for k in sc["vars"][i]["atts"]:
            c = copy.deepcopy(sc)
            del c["vars"][i]["atts"][k]
            yield c
    for i, d in enumerate(sc["dims"]):
        if d["c"]:
            c = copy.deepcopy(sc)
            c["dims"][i]["c"] = None
            yield c
            for k in ("scale", "offset"):
                if k in d["c"]:
                    c = copy.deepcopy(sc)
                    del c["dims"][i]["c"][k]
                    yield c
        if d.get("unl"):
            c = copy.deepcopy(sc)
            del c["dims"][i]["unl"]
            yield c
        if not any(i in v["d"] for v in sc["vars"]) and len(sc["dims"]) > 1 and not sc["opts"]:
            c = copy.deepcopy(sc)
            del c["dims"][i]
            for v in c["vars"]:
                v["d"] = [k - (k > i) for k in v["d"]]
            yield c
    for i, r in enumerate(sc["reqs"]):
        for k in ("lib", "disk", "nc4"):
            if k in r:
                c = copy.deepcopy(sc)
                del c["reqs"][i][k]
                yield c
        if r["kind"] != "get":
            c = copy.deepcopy(sc)
            for k in ("sl", "ix", "form"):
                c["reqs"][i].pop(k, None)
            c["reqs"][i]["kind"] = "get"
            yield c
