"""C30: a processed exposure has one row for each spot, labelled with its own device, position and expected place."""
from dv.engine import contract
from dv.stubs import PureUf, eqt
from dv.term import Unsupported, const
from dv import term

SM, PF = "desimeter.spotmatch", "desimeter.processfvc"


class Fake(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class quiet(object):
    def __enter__(self):
        import contextlib
        import io
        self.c = contextlib.redirect_stdout(io.StringIO())
        self.c.__enter__()

    def __exit__(self, *a):
        self.c.__exit__(*a)


class patched(object):
    """names of a module replaced for a while"""

    def __init__(self, m, **k):
        self.d, self.k = m.__dict__, k

    def __enter__(self):
        self.old = {k: self.d[k] for k in self.k if k in self.d}
        self.d.update(self.k)

    def __exit__(self, *a):
        for k in self.k:
            if k in self.old:
                self.d[k] = self.old[k]
            else:
                del self.d[k]


LOG = Fake(**{k: (lambda *a, **q: None) for k in ("info", "debug", "warning", "error", "critical")})


class Table(object):
    """contract of an astropy table: columns of equal length; selections of rows are copies; rows removed; columns set, renamed"""
    np = None

    def __init__(self, c=()):
        self.c = {k: self.col(v) for k, v in dict(c).items()}

    def col(self, v):
        return v.copy() if hasattr(v, "copy") and not isinstance(v, list) else Table.np.array(v)

    def __len__(self):
        return len(next(iter(self.c.values()))) if self.c else 0

    @property
    def dtype(self):
        return Fake(names=tuple(self.c))

    @property
    def colnames(self):
        return list(self.c)
    columns = colnames

    def keys(self):
        return list(self.c)

    def __contains__(self, k):
        return k in self.c

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.c[k]
        t = Table()
        t.c = {q: v[k].copy() for q, v in self.c.items()}
        return t

    def __setitem__(self, k, v):
        if self.c and k in self.c and not hasattr(v, "__len__"):
            self.c[k][:] = v
            return
        v = self.col(v)
        if self.c and len(v) != len(self):
            raise ValueError("column of another length")
        self.c[k] = v

    def copy(self):
        return Table(self.c)

    def remove_column(self, k):
        del self.c[k]

    def add_column(self, v, name=None, **k):
        self[name] = v

    def remove_rows(self, rows):
        n = len(self)
        gone = {int(i) % n for i in rows}
        for q in self.c:
            self.c[q] = self.c[q][[i for i in range(n) if i not in gone]]

    def rename_column(self, a, b):
        if b in self.c and b != a:
            raise KeyError(b)
        self.c = {b if k == a else k: v for k, v in self.c.items()}


class Files(object):
    """text files in memory; numbers are written as tokens, which read back as the same numbers when enough decimals were asked for"""

    def __init__(self):
        self.files, self.tokens = {}, {}

    def format(self, t, spec):
        import re
        if t.op == "c":
            v = t.val
            return format(int(v) if v == int(v) and not spec.endswith("f") else float(v), spec)
        d = re.search(r"\.(\d+)[fFeEgG]$", spec)
        k = "@%d" % len(self.tokens)
        self.tokens[k] = (t, int(d.group(1)) if d else 17 if spec == "" else 0)
        return k

    def open(self, name, mode="r", *a, **k):
        import io
        if "r" in mode:
            return io.StringIO(self.files[name])
        return Written(self.files, name)

    def number(self, s):
        s = str(s).strip()
        if s in self.tokens:
            return self.tokens[s][0]
        return float(s)

    def lines(self, name):
        return [l.split() for l in self.files[name].splitlines() if l.split()]

    def __enter__(self):
        term.T.__format__, self.old = lambda t, spec: self.format(t, spec), term.T.__format__
        return self

    def __exit__(self, *a):
        term.T.__format__ = self.old


class Written(object):
    def __init__(self, files, name):
        self.files, self.name = files, name
        files[name] = ""

    def write(self, t):
        self.files[self.name] += t
        return len(t)

    def writelines(self, ts):
        for t in ts:
            self.write(t)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def camera(np, f):
    def there(x, y):
        if not hasattr(x, "__len__"):
            return f(x, y)
        r = [f(p, q) for p, q in zip(x, y)]
        return np.array([p[0] for p in r]), np.array([p[1] for p in r])
    return there


ROWS = ((100, 1, "FIF"), (100, 4, "FIF"), (0, 0, "POS"), (200, 2, "GIF"), (100, 5, "FIF"), (200, 3, "GIF"), (8, 0, "POS"), (-1, 0, "GIF-T"), (9, 0, "ETC"))
ORDERS = ((0, 1, 2, 3, 4, 5, 6, 7, 8), (8, 7, 6, 5, 4, 3, 2, 1, 0), (3, 0, 6, 1, 8, 5, 2, 4, 7))


def metrology(ctx, order):
    np = ctx.np
    rows = [ROWS[i] for i in order]
    X, Y = ctx.arr("metrology x", 9, 1, 420), ctx.arr("metrology y", 9, 1, 420)
    t = Table({"LOCATION": np.array([r[0] for r in rows]), "PINHOLE_ID": np.array([r[1] for r in rows]), "DEVICE_TYPE": np.array([r[2] for r in rows]), "X_FP": X, "Y_FP": Y,
               "DEVICE_ID": np.array(["M%05d" % max(r[0], 0) for r in rows]), "PETAL_LOC": np.array([r[0] // 100 for r in rows]), "DEVICE_LOC": np.array([r[0] % 100 for r in rows]),
               "BUS_ID": np.array([r[0] + 3 for r in rows])})
    return rows, X, Y, t


def centre(rows, X, Y, loc):
    k = [i for i in range(len(rows)) if rows[i][0] == loc]
    return sum(X[i] for i in k) / len(k), sum(Y[i] for i in k) / len(k)


def matcher_files(ctx, fs, rows, X, Y, f, names, targets, mine=True):
    """the files given to the matching program hold what it is documented to be given"""
    def at(name, tok, want, digits=3):
        ctx.eq(name, fs.number(tok), want, tol=1e-9)
        ctx.true(name + ": decimals", fs.tokens[tok][1] >= digits if tok in fs.tokens else True)
    fid = [i for i in range(9) if rows[i][2] in ("FIF", "GIF")]
    if "targets" in names:
        want = [(l, f(x, y), 4) for l, x, y in targets] + [(l, f(*centre(rows, X, Y, l)), 8) for l in (100, 200)]
        got = fs.lines(names["targets"])
        ctx.true("targets and fiducials", sorted((int(float(g[0])), int(g[5])) for g in got) == sorted((w[0], w[2]) for w in want))
        for l, p, flag in want:
            g = [g for g in got if int(float(g[0])) == l]
            if len(g) == 1:
                at("target x", g[0][1], p[0])
                at("target y", g[0][2], p[1])
    if "references" in names:
        want = {(rows[i][0], {1: 515, 2: 1027, 3: 259, 4: 771}[rows[i][1]]): f(X[i], Y[i]) for i in fid if rows[i][1] in (1, 2, 3, 4)}
        got = {(int(g[0]), int(g[4])): g for g in fs.lines(names["references"])}
        ctx.true("reference pinholes", sorted(want) == sorted(got) and all(g[6] == "pinhole" for g in got.values()))
        for k in set(want) & set(got):
            at("reference x", got[k][1], want[k][0])
            at("reference y", got[k][2], want[k][1])
    if "centers" in names:
        want = [(rows[i][0], f(X[i], Y[i]), 4) for i in range(9) if rows[i][2] == "POS"] + [(l, f(*centre(rows, X, Y, l)), 8) for l in (100, 200)]
        got = fs.lines(names["centers"])
        ctx.true("devices", sorted((int(g[0]), int(g[5])) for g in got) == sorted((w[0], w[2]) for w in want))
        for l, p, flag in want:
            g = [g for g in got if int(g[0]) == l]
            if len(g) == 1:
                at("device x", g[0][1], p[0])
                at("device y", g[0][2], p[1])
    if "fiducials" in names:
        got = fs.lines(names["fiducials"])
        want = [(l, 0) for l in (100, 200)] + [(rows[i][0], rows[i][1]) for i in fid if rows[i][1] <= 4]
        ctx.true("fiducial pattern", sorted((int(g[0]), int(g[5])) for g in got) == sorted(want))
        ctx.true("kind of spot", all(int(g[6]) == (8 if int(g[5]) == 0 else 2) for g in got))
        for g in got:
            l, p = int(g[0]), int(g[5])
            k = [i for i in fid if rows[i][:2] == (l, p)]
            c = centre(rows, X, Y, l)
            at("offset x", g[1], X[k[0]] - c[0] if k else 0)
            at("offset y", g[2], Y[k[0]] - c[1] if k else 0)


LINES = ("0 @0 @1 12.5 4 0.25 positioner", "100 @2 @3 13.5 8 0.5 fiducial", "100 @4 @5 13 2 0.125 pinhole", "not a line", "-1 @6 @7 12 0 0 unknown", "100 @8 @9 13 2 0.75 pinhole",
         "8 @10 @11 12.25 4 0.5 positioner", "200 @12 @13 12.5 8 0.5 fiducial", "200 @14 @15 12 2 1.5 pinhole")
OUT = ((0, 1, 2, 3, 4, 5, 6, 7, 8), (8, 7, 6, 5, 4, 3, 2, 1, 0), (4, 0), (2, 8, 1, 6, 5, 7, 0), (3,))


@contract("matches_read", [SM + ".spotmatch", SM + "._write_spotmatch_fiducial_config_file", SM + "._write_spotmatch_targets_file", SM + "._write_spotmatch_device_centers_file",
                           SM + "._write_spotmatch_measured_pos_file", SM + "._write_spotmatch_reference_pos_file"], crosscheck=False, max_paths=600, samples=(6, 80))
def matches(ctx):
    """generic positions, 3 spots, metrology rows in the sampled orders, the matching program standing for anything: it is given every spot once under its own number, the expected places and fiducial
    centres seen through the camera, the pinholes with their codes, all files and the radii in the units it expects; what it reports is returned row by row with the device of its location, fiducial
    centres as pinhole 99 and their pinholes from 10; a failure is reported, except that an old version is run again without the option it does not know"""
    m = ctx.mod(SM)
    if not ctx.symbolic:
        return shipped_matches(ctx, m)
    np = ctx.np
    Table.np = np
    rows, X, Y, mt = metrology(ctx, ctx.choice("order", ORDERS))
    x, y = ctx.arr("xpix", 3, 0, 6000), ctx.arr("ypix", 3, 0, 6000)
    default, given = PureUf("camera", 2), PureUf("given camera", 2)
    own = ctx.flag("camera given")
    cam = Fake(fp2fvc=camera(np, given))
    expected = ctx.flag("expected given")
    ex, ey, el = (ctx.arr("expected x", 2, -420, 420), ctx.arr("expected y", 2, -420, 420), np.array([8, 0])) if expected else (None, None, None)
    out = ctx.choice("reported", OUT)
    history = ctx.choice("program", ("works", "old", "fails", "old fails")) if out == OUT[0] and not own else "works"
    fs = Files()
    cmds, seen = [], []
    inputs = {}

    # (tokens of the report are named apart from those of the inputs)
    def run(cmd):
        fs.tokens.update({"~%d" % i: (ctx.real("reported %d" % i, 0, 6000), 3) for i in range(16)})
        cmds.append(cmd)
        w = cmd.split()
        if w[0] != "match_positions":
            raise Unsupported("another program")
        opt = {a: b for a, b in zip(w[1::2], w[2::2])}
        seen.append(opt)
        if history.startswith("old") and "-positioner_reach" in opt:
            return 1, "unexpected command-line argument [ -positioner_reach ]"
        if history.endswith("fails"):
            return 3, "no"
        inputs.update(fs.files)
        fs.files[opt["-reduced_pos_file"]] = "\n".join(LINES[i].replace("@", "~") for i in out) + "\n"
        return 0, "done"
    F = Fake(read=lambda *a: Fake(fp2fvc=camera(np, default)), read_jsonfile=lambda *a: Fake(fp2fvc=camera(np, default)))
    m.__dict__.update(Table=Table, load_metrology=lambda: mt.copy(), FVC2FP=F, fvc2fp_filename=lambda: "camera.json", open=fs.open, float=fs.number, _compute_pixel_scale=lambda c: 0.0625,
                      shutil=Fake(which=lambda n: "/bin/" + n), subprocess=Fake(getstatusoutput=run), os=Fake(path=Fake(join=lambda *a: "/".join(a))), tempfile=Fake(gettempdir=lambda: "/scratch"))
    keep = ctx.snapshot(x, y)
    k = dict(expected_x_fp=ex, expected_y_fp=ey, expected_location=el, match_radius_pixels=55)
    if own:
        k["fvc2fp"] = cam
    with fs, quiet():
        if history.endswith("fails"):
            ctx.raises("failure reported", RuntimeError, m.spotmatch, x, y, **k)
            return
        res = m.spotmatch(x, y, **k)
    ctx.unchanged("spots kept", keep, x, y)
    ctx.true("runs", len(cmds) == (2 if history == "old" else 1) and ("-positioner_reach" in seen[0]) and (history != "old" or "-positioner_reach" not in seen[-1]))
    opt = seen[-1]
    ctx.true("same options", all(seen[0][q] == opt[q] for q in opt))
    ctx.true("options", float(opt["-exp_pixel_scale"]) == .0625 and float(opt["-match_radius"]) == 55 and (opt["-image_rows"], opt["-image_cols"]) == ("6000", "6000")
             and (opt["-target_x_dir"], opt["-target_y_dir"], opt["-fid_x_dir"], opt["-fid_y_dir"], opt["-target_x0"], opt["-target_y0"]) == ("1", "1", "-1", "1", "0", "0"))
    ctx.true("reach", abs(float(seen[0]["-positioner_reach"]) - 6.6 / .0625) < 1e-3)
    fs.files = inputs
    names = {"targets": opt["-target_pos_file"], "fiducials": opt["-fiducial_config_file"]}
    targets = [(int(l), p, q) for l, p, q in zip(el, ex, ey)] if expected else [(rows[i][0], X[i], Y[i]) for i in range(9) if rows[i][2] == "POS"]
    matcher_files(ctx, fs, rows, X, Y, given if own else default, names, targets)
    matcher_files(ctx, fs, rows, X, Y, default, {"references": opt["-reference_pos_file"], "centers": opt["-device_centers_file"]}, None)
    got = fs.lines(opt["-measured_pos_file"])
    ctx.true("every spot once", len(got) == 3 and [int(g[3]) for g in got] == [1, 2, 3])
    for i in range(min(3, len(got))):
        ctx.eq("spot", [fs.number(got[i][0]), fs.number(got[i][1])], [x[i], y[i]])
        ctx.true("decimals", all(fs.tokens[t][1] >= 3 for t in got[i][:2]))
    lines = [LINES[i].split() for i in out if i != 3]
    ctx.true("one row for each line", len(res) == len(lines) or (not lines and len(res["LOCATION"]) == 0))
    pin = {}
    for i, l in enumerate(lines):
        loc = int(l[0])
        ctx.true("location", int(res["LOCATION"][i]) == loc)
        ctx.eq("values", [res["XPIX"][i], res["YPIX"][i], res["FLAG"][i], res["ERR"][i]], [fs.tokens["~" + l[1][1:]][0], fs.tokens["~" + l[2][1:]][0], float(l[4]), float(l[5])])
        ctx.true("kind", str(res["SPOTMATCH_DEVICE_TYPE"][i]) == l[6])
        if loc >= 0:
            want = [(mt[c][q]) for c in ("DEVICE_TYPE", "DEVICE_ID", "DEVICE_LOC", "PETAL_LOC") for q in range(9) if rows[q][0] == loc]
            ctx.true("device", all(any(res[c][i] == mt[c][q] for q in range(9) if rows[q][0] == loc) for c in ("DEVICE_TYPE", "DEVICE_ID", "DEVICE_LOC", "PETAL_LOC")))
        pin.setdefault((loc, l[6]), []).append(int(res["PINHOLE_ID"][i]))
    for (loc, kind), v in pin.items():
        centre_seen = (loc, "fiducial") in pin
        ctx.true("pinhole numbers", v == ([99] if kind == "fiducial" else list(range(10, 10 + len(v))) if kind == "pinhole" and centre_seen else [0] * len(v)))


METRO = []


def shipped():
    if not METRO:
        from desimeter.io import load_metrology
        METRO.append(load_metrology())
    return METRO[0].copy()


class scratch(object):
    """a directory of its own, where the temporary files go too"""

    def __enter__(self):
        import tempfile
        self.old = tempfile.tempdir
        self.d = tempfile.mkdtemp()
        tempfile.tempdir = self.d
        return self.d

    def __exit__(self, *a):
        import shutil
        import tempfile
        tempfile.tempdir = self.old
        shutil.rmtree(self.d)


class Program(object):
    """stand-in of match_positions: reads the files it is given; spots around the centre of a fiducial are its pinholes (one alone: the centre), others go to the nearest target within the radius, one for each; a row
    for the centre of each fiducial seen; rows in a random order"""

    def __init__(self, r):
        self.r, self.calls = r, []

    def __call__(self, cmd):
        import numpy as np
        w = cmd.split()
        opt = dict(zip(w[1::2], w[2::2]))
        rows = lambda k: [l.split() for l in open(opt[k]) if l.split()]
        targets, spots, refs, cents = rows("-target_pos_file"), rows("-measured_pos_file"), rows("-reference_pos_file"), rows("-device_centers_file")
        self.calls.append((opt, targets, spots, refs, cents, rows("-fiducial_config_file")))
        X = np.array([[float(s[0]), float(s[1])] for s in spots])
        t4 = [t for t in targets if int(t[5]) == 4]
        T = np.array([[float(t[1]), float(t[2])] for t in t4])
        from scipy.spatial import cKDTree
        t8 = [t for t in targets if int(t[5]) == 8]
        d, i = cKDTree(np.array([[float(t[1]), float(t[2])] for t in t8])).query(X)
        out, pins = [], {}
        for k in np.where(d < 11)[0]:
            pins.setdefault(int(float(t8[i[k]][0])), []).append(k)
        done = set(sum(pins.values(), []))
        for loc, ks in pins.items():
            c = X[ks].mean(axis=0)
            out.append("%d %.3f %.3f 12.0 8 0.1 fiducial" % (loc, c[0], c[1]))
            out += [] if len(ks) == 1 else ["%d %.3f %.3f 13.0 2 0.2 pinhole" % (loc, X[k, 0], X[k, 1]) for k in ks]
        free = [k for k in range(len(X)) if k not in done]
        d, i = cKDTree(T).query(X[free])
        taken = set()
        for q in np.argsort(d):
            if d[q] < float(opt["-match_radius"]) and i[q] not in taken:
                taken.add(i[q])
                out.append("%d %.3f %.3f 12.5 4 %.3f positioner" % (int(float(t4[i[q]][0])), X[free[q], 0], X[free[q], 1], d[q]))
            else:
                out.append("-1 %.3f %.3f 12.5 0 0.0 unknown" % (X[free[q], 0], X[free[q], 1]))
        self.r.shuffle(out)
        with open(opt["-reduced_pos_file"], "w") as f:
            f.write("".join(l + "\n" for l in out))
        return 0, "ok"


def sky(r, share):
    """a focal plane: pinholes of most fiducials, positioners off their centres"""
    import numpy as np
    m = shipped()
    fif = (m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF")
    locs = np.unique(m["LOCATION"][fif])
    locs = locs[locs != 4321]                      # (its five pinholes are closer to each other than the fifth neighbour kept)
    some = r.permutation(locs)[:r.randint(60, len(locs) + 1)]
    fid = m[fif & np.isin(m["LOCATION"], some)]
    pos = m[m["DEVICE_TYPE"] == "POS"]
    pos = pos[r.uniform(size=len(pos)) < share]
    return m, fid, pos


def shipped_matches(ctx, m):
    """the shipped metrology and camera: what the stand-in program reports is what is returned"""
    import numpy as np
    r = ctx.seed()
    metro, fid, pos = sky(r, .1)
    from desimeter.transform.fvc2fp import FVC2FP
    from desimeter.io import fvc2fp_filename
    cam = FVC2FP.read(fvc2fp_filename())
    true = FVC2FP.read(fvc2fp_filename())
    own = ctx.flag("camera given")
    if own:
        true.offset_x += 4e-4
        true.scale *= 1.0002
    ex, ey = np.array(pos["X_FP"]) + r.uniform(-5, 5, len(pos)), np.array(pos["Y_FP"]) + r.uniform(-5, 5, len(pos))
    x, y = true.fp2fvc(ex, ey)
    fx, fy = true.fp2fvc(np.array(fid["X_FP"]), np.array(fid["Y_FP"]))
    X, Y = np.append(x + r.uniform(-.4, .4, len(x)), fx), np.append(y + r.uniform(-.4, .4, len(x)), fy)
    o = r.permutation(len(X))
    X, Y = X[o], Y[o]
    p = Program(r)
    with scratch(), quiet(), patched(m, load_metrology=shipped, subprocess=Fake(getstatusoutput=p), shutil=Fake(which=lambda n: "/bin/" + n)):
        res = m.spotmatch(X, Y, ex, ey, np.array(pos["LOCATION"]), match_radius_pixels=20, fvc2fp=true if own else None)
    opt, targets, spots, refs, cents, pattern = p.calls[-1]
    ctx.true("one run", len(p.calls) == 1)
    ctx.true("every spot under its number", [int(s[3]) for s in spots] == list(range(1, len(X) + 1)))
    ctx.eq("spots", [[float(s[0]) for s in spots], [float(s[1]) for s in spots]], [X, Y], tol=5.1e-4)
    h = 1e-2
    a, b = (true if own else cam).fvc2fp(np.array([3000., 3000 + h, 3000.]), np.array([3000., 3000., 3000 + h]))
    ctx.eq("pixel", float(opt["-exp_pixel_scale"]), abs((a[1] - a[0]) * (b[2] - b[0]) - (a[2] - a[0]) * (b[1] - b[0]))**.5 / h, tol=1e-5)
    where = {int(l): (u, v) for l, u, v in zip(pos["LOCATION"], x, y)}
    t4 = {int(t[0]): (float(t[1]), float(t[2])) for t in targets if int(t[5]) == 4}
    ctx.true("targets", sorted(t4) == sorted(where))
    ctx.eq("target pixels", [t4[k] for k in sorted(where) if k in t4], [where[k] for k in sorted(where) if k in t4], tol=6e-4)
    pin = {}
    mt = {}
    for i, l in enumerate(metro["LOCATION"]):
        mt.setdefault(int(l), []).append(i)
    n = {}
    for row in res:
        loc, kind = int(row["LOCATION"]), str(row["SPOTMATCH_DEVICE_TYPE"])
        n[kind] = n.get(kind, 0) + 1
        if loc >= 0:
            want = metro[mt[loc][0]]
            ctx.true("device", (str(row["DEVICE_ID"]), str(row["DEVICE_TYPE"]), int(row["PETAL_LOC"]), int(row["DEVICE_LOC"])) == (str(want["DEVICE_ID"]), str(want["DEVICE_TYPE"]), int(want["PETAL_LOC"]),
                                                                                                                                    int(want["DEVICE_LOC"])))
            ctx.true("can bus", int(row["BUS_ID"]) == int(want["BUS_ID"]))
        else:
            ctx.true("unknown", str(row["DEVICE_ID"]) == "unknown" and str(row["DEVICE_TYPE"]) == "unknown")
        if kind == "positioner":
            ctx.le("its own spot", float(np.hypot(row["XPIX"] - where[loc][0], row["YPIX"] - where[loc][1])), 20.)
        pin.setdefault((loc, kind), []).append(int(row["PINHOLE_ID"]))
    ctx.true("all positioners", n.get("positioner", 0) + n.get("unknown", 0) == len(pos) and n.get("fiducial", 0) == len(set(fid["LOCATION"])))
    ctx.true("pinhole numbers", all(v == ([99] if k == "fiducial" else list(range(10, 10 + len(v))) if k == "pinhole" else [0] * len(v)) for (l, k), v in pin.items()))


@contract("exposures_with_matching_program", [PF + ".fvc_proc", SM + ".spotmatch", PF + ".get_expected_pos"], kind="bounded", samples=(5, 60))
def with_program(ctx):
    """whole exposures of the shipped focal plane through a camera moved, scaled and rotated, matched by the stand-in program: one row for each spot and fiducial centre; positions of the fibers
    recovered; fibers carry their own expected position, fiducial centres the mean of their pinholes, everything else neither"""
    exposure(ctx, True)


@contract("exposures_processed", [PF + ".fvc_proc", PF + ".get_spots_list", PF + ".get_expected_pos", PF + ".preproc", "desimeter.findfiducials.findfiducials"], kind="bounded", samples=(7, 80))
def without_program(ctx):
    """whole exposures of the shipped focal plane through a camera moved, scaled and rotated: the file written has one row for each spot in order; positions recovered; each pinhole and fiber under
    its own label with its own expected position; spots further than the matching distance from any expected position stay unlabelled"""
    exposure(ctx, False)


def exposure(ctx, program):
    import numpy as np
    from astropy.table import Table as T
    from desimeter.transform.fvc2fp import FVC2FP
    from desimeter.transform.xy2qs import xy2qs
    from desimeter.io import fvc2fp_filename
    m = ctx.mod(PF)
    r = ctx.seed()
    metro, fid, pos = sky(r, .3)
    true = FVC2FP.read(fvc2fp_filename())
    true.offset_x += r.uniform(-1, 1) * 3e-4
    true.offset_y += r.uniform(-1, 1) * 3e-4
    true.scale *= 1 + r.uniform(-1, 1) * 2e-4
    true.rotation += r.uniform(-1, 1) * 1e-4
    n = len(pos)
    given = r.choice(["none", "xy", "exp", "qs"])
    far = r.uniform(size=n) < .02
    turb = given != "none" and r.uniform() < .6
    reach = 2.
    wanted = np.array([pos["X_FP"], pos["Y_FP"]]) + (r.uniform(-1, 1, (2, n)) * 2 if given != "none" else 0)
    x = wanted + r.uniform(-.3, .3, (2, n))
    x[:, far] += 4.1                                  # (further than the matching distance from any expected place)
    fx = np.array([fid["X_FP"], fid["Y_FP"]])
    fp = np.append(fx, x, axis=1)
    what = [("fid", int(l), int(p)) for l, p in zip(fid["LOCATION"], fid["PINHOLE_ID"])] + [("pos", int(l), 0) for l in pos["LOCATION"]]
    # no spot within two millimetres of a pinhole or a millimetre of another spot
    from scipy.spatial import cKDTree
    near = cKDTree(fx.T).query(x.T)[0] < 2
    keep = np.append(np.ones(fx.shape[1], bool), ~near)
    o = np.where(keep)[0]
    o = o[r.permutation(len(o))]
    u, v = true.fp2fvc(fp[0][o], fp[1][o])
    what = [what[i] for i in o]
    fp = fp[:, o]
    p = Program(r)
    with scratch() as d, quiet():
        T({"XPIX": u, "YPIX": v, "COUNTS": r.uniform(1e4, 1e5, len(u))}).write(d + "/spots.csv")
        a = ["-i", d + "/spots.csv", "-o", d + "/new/out.csv", "--make-directory", "--max-match-distance", str(reach), "--output-transform", d + "/new/tx.json"]
        if given != "none":
            t = T({"PETAL_LOC": pos["PETAL_LOC"], "DEVICE_LOC": pos["DEVICE_LOC"], "DEVICE_ID": pos["DEVICE_ID"]})
            if given == "qs":
                q, s = xy2qs(wanted[0], wanted[1])
                t["EXP_Q_0"], t["EXP_S_0"] = q, s
            else:
                for c, k in zip("XY", (0, 1)):
                    t[c + ("_FP" if given == "xy" else "_FP_EXP")] = wanted[k]
            t = t[r.permutation(len(t))]
            t.write(d + "/expected.csv")
            a += ["--expected-positions", d + "/expected.csv"]
            if turb:
                a.append("--turbulence-correction-with-pol")
        if program:
            a += ["--use-spotmatch", "--spotmatch-match-radius-pixels", "13.5"]
            import desimeter.spotmatch as sm
            with patched(sm, load_metrology=shipped, subprocess=Fake(getstatusoutput=p), shutil=Fake(which=lambda n: "/bin/" + n)):
                code = m.fvc_proc(m.get_parser().parse_args(a), LOG)
        else:
            code = m.fvc_proc(m.get_parser().parse_args(a), LOG)
        ctx.true("success", code == 0)
        out = T.read(d + "/new/out.csv")
        cam = FVC2FP.read_jsonfile(d + "/new/tx.json")
    X, Y = cam.fvc2fp(u, v)
    ctx.le("camera recovered", float(np.max(np.hypot(X - fp[0], Y - fp[1]))), 5e-3)
    X, Y = cam.fvc2fp(np.array(out["XPIX"]), np.array(out["YPIX"]))
    placed = (np.array(out["X_FP_EXP"]) != 0) & (np.array(out["PINHOLE_ID"]) == 0) & turb
    ctx.eq("positions", [out["X_FP"][~placed], out["Y_FP"][~placed]], [X[~placed], Y[~placed]], tol=1e-9)
    shift = np.hypot(out["X_FP"] - X, out["Y_FP"] - Y)[placed]
    ctx.true("corrected by the turbulence only", bool(np.all(shift < 1)) and (not turb or np.all(shift > 0)))
    pins = {}
    for l, q, X, Y in zip(metro["LOCATION"], metro["PINHOLE_ID"], metro["X_FP"], metro["Y_FP"]):
        pins[(int(l), int(q))] = (X, Y)
    mean = {l: np.mean([v for k, v in pins.items() if k[0] == l], axis=0) for l in set(k[0] for k in pins)}
    want = {int(l): tuple(w) for l, w in zip(pos["LOCATION"], wanted.T)}
    if given == "none":
        want = {l: xy for (l, q), xy in pins.items() if q == 0}
    dev = {int(l): str(i) for l, i in zip(metro["LOCATION"], metro["DEVICE_ID"])}
    cols = [np.array(out[c]) for c in ("LOCATION", "PINHOLE_ID", "X_FP_EXP", "Y_FP_EXP", "X_FP_METRO", "Y_FP_METRO", "XPIX", "YPIX", "X_FP", "Y_FP")]
    ids = [str(i) for i in out["DEVICE_ID"]]
    tol = 1e-6 if given != "qs" else 2e-2          # (the curved coordinates are stored for the nominal surface)
    if not program:
        places = [(int(l), a, b) for l, q, a, b in zip(metro["LOCATION"], metro["PINHOLE_ID"], metro["X_FP"], metro["Y_FP"]) if q == 0] if given == "none" else [(l,) + e for l, e in want.items()]
        free = [i for i, w in enumerate(what) if w[0] == "pos"]
        dist, which = cKDTree([q[1:] for q in places]).query(fp.T)
        ctx.true("rows in order", len(out) == len(u))
        ctx.eq("pixels", [out["XPIX"], out["YPIX"]], [u, v], tol=1e-9)
        for i, (kind, loc, q) in enumerate(what):
            row = [c[i] for c in cols]
            if kind == "fid":
                ctx.true("pinhole", (int(row[0]), int(row[1])) == (loc, q))
                ctx.eq("place of a pinhole", row[2:6], list(pins[(loc, q)]) * 2, tol=1e-9)
                continue
            ctx.true("no pinhole", int(row[1]) == 0)
            if int(row[0]) >= 0:
                ctx.true("own device", (int(row[0]) == loc or given == "none") and ids[i] == dev[int(row[0])])
                e = want[int(row[0])]
                ctx.eq("expected place", row[2:4], list(e), tol=tol)
                ctx.lt("within reach", float(np.hypot(fp[0][i] - e[0], fp[1][i] - e[1])), reach + .05)
            else:
                # unlabelled only when nothing is near or another spot is nearer
                ctx.true("labelled when near", dist[i] > reach - .05 or places[which[i]][0] < 0 or any(which[k] == which[i] and dist[k] < dist[i] + .01 for k in free if k != i))
                ctx.eq("no expected place", row[2:4], [0, 0], tol=1e-12)
        near = [i for i, w in enumerate(what) if w[0] == "pos"]
        ctx.true("most are near", sum(cols[0][i] == what[i][1] for i in near) > .8 * len(near))
        return
    own = {(round(a, 3), round(b, 3)): w for a, b, w in zip(u, v, what)}
    seen = set()
    for i in range(len(out)):
        loc, q = int(cols[0][i]), int(cols[1][i])
        row = [c[i] for c in cols]
        if q == 99:
            ctx.eq("centre of a fiducial", row[2:6], list(mean[loc]) * 2, tol=1e-9)
            ctx.le("measured centre", float(np.hypot(row[8] - mean[loc][0], row[9] - mean[loc][1])), .02)
        elif loc < 0 or q > 0:
            ctx.eq("no place", row[2:6], [0] * 4, tol=1e-12)
        else:
            ctx.eq("expected place of a fiber", row[2:4], list(want[loc]), tol=tol)
            ctx.true("device of a fiber", ids[i] == dev[loc])
            ctx.true("its spot", (round(row[6], 3), round(row[7], 3)) in own and loc not in seen)
            seen.add(loc)
    ctx.true("fibers found", len(seen) > .8 * sum(w[0] == "pos" for w in what))
    ctx.true("centres found", int(np.sum(cols[1] == 99)) == len(set(fid["LOCATION"])))



def arguments(m, *a):
    return m.get_parser().parse_args(["-i", "in.csv", "-o", "out.csv", "--no-bias"] + list(a))


class Nans(object):
    """numpy, with undefined numbers known by their place"""

    def __init__(self, np, bad):
        self.np, self.bad = np, bad

    def __getattr__(self, k):
        return getattr(self.np, k)

    def isnan(self, a):
        return self.np.array([any(v is b for b in self.bad) for v in a])


EXPECTED = ((11, 0), (12, 0), (20, 1), (13, 0), (20, 4))       # location, pinhole
EXPORD = ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 3, 1))


@contract("expected_positions", [PF + ".get_expected_pos"], crosscheck=False, max_paths=600, samples=(120, 1000))
def expected(ctx):
    """whatever the columns of the table (focal plane, expected focal plane, curved coordinates) and with or without a location, generic contents, three orders: exactly the fibers are expected, in
    order, each at its own place (undefined curved coordinates far outside or undefined) under petal times 1000 plus device; without a table they are those of the metrology"""
    m = ctx.mod(PF)
    given = ctx.choice("columns", ("none", "focal plane", "expected", "both", "curved"))
    order = ctx.choice("order", EXPORD)
    loc, pin = ctx.flag("location"), ctx.flag("pinhole")
    rows = [EXPECTED[i] for i in order]
    bad = ctx.choice("undefined", ((), (1,), (0, 4))) if given == "curved" else ()
    if not ctx.symbolic:
        import numpy as np
        from astropy.table import Table as T
        r = ctx.seed()
        q, s = r.uniform(0, 360, 5), r.uniform(10, 400, 5)
        a = [r.uniform(-400, 400, 5) for i in range(4)]
        np_ = np
        TT = T
    else:
        np_ = ctx.np
        Table.np = np_
        q, s = ctx.arr("Q", 5, -400, 400), ctx.arr("S", 5, 1, 420)
        a = [ctx.arr(k, 5, -420, 420) for k in ("x", "y", "x expected", "y expected")]
        TT = Table
    t = TT({"PETAL_LOC": np_.array([3] * 5), "DEVICE_LOC": np_.array([x[0] for x in rows])})
    if loc:
        t["LOCATION"] = np_.array([x[0] + 5000 for x in rows])
    if pin or given == "none":
        t["PINHOLE_ID"] = np_.array([x[1] for x in rows])
    if given in ("none", "focal plane", "both"):
        t["X_FP"], t["Y_FP"] = a[0], a[1]
    if given in ("expected", "both"):
        t["X_FP_EXP"], t["Y_FP_EXP"] = a[2], a[3]
    if given == "curved":
        t["EXP_Q_0"], t["EXP_S_0"] = q, s
    calls = []
    if ctx.symbolic:
        f = camera(np_, PureUf("curved", 2))

        def conv(*p, **k):
            k = dict(zip(("q", "s"), p), **k)
            u = f(k["q"], k["s"])
            n = Nans(np_, [u[0][i] for i in bad])
            m.__dict__["np"] = n
            return u
        m.__dict__.update(Table=Fake(read=lambda n, **k: t.copy()), load_metrology=lambda: t.copy(), qs2xy=conv)
        out = m.get_expected_pos(Fake(expected_positions=None if given == "none" else "expected.csv"), LOG)
    else:
        from desimeter.transform.xy2qs import qs2xy
        if given == "curved":
            t["EXP_Q_0"][list(bad)] = np.nan
        with scratch() as d, quiet(), patched(m, load_metrology=lambda: t.copy()):
            t.write(d + "/e.fits")
            out = m.get_expected_pos(Fake(expected_positions=None if given == "none" else d + "/e.fits"), LOG)
        f = lambda u, v: qs2xy(u, v)
    kept = [i for i in range(5) if rows[i][1] == 0 or not (pin or given == "none")]
    ctx.true("the fibers", len(out) == len(kept))
    x, y = (a[2], a[3]) if given == "expected" else f(q, s) if given == "curved" else (a[0], a[1])
    ctx.true("locations", [int(l) for l in out["LOCATION"]] == [rows[i][0] + (5000 if loc else 3000) for i in kept])
    for n, i in enumerate(kept):
        if i in bad:
            ctx.true("undefined place is far outside", not any(abs(float(out[c][n])) < 1e4 for c in ("X_FP", "Y_FP")))
            continue
        ctx.eq("place", [out["X_FP"][n], out["Y_FP"][n]], [x[i], y[i]], tol=1e-9)


SPOTS = ((11, 4), (-1, 0), (20, 4), (20, 1), (-1, 0), (30, 4), (-1, 0))        # what is found of each spot: location, pinhole
MATCH = ((2, 0, -1), (0, 1, 2), (-1, -1, -1), (1, -1, 0), (-1, 2, 1))          # expected place nearest to each spot not yet labelled
BIG = 10**9


@contract("spots_labelled", [PF + ".fvc_proc", PF + ".preproc", PF + ".get_spots_list"], crosscheck=False, max_paths=2000, samples=(0, 0))
def labelled(ctx):
    """generic positions and distances over the contracts of the finding of fiducials, the camera fit, the match, the turbulence correction and the field model: what is written is the table of spots
    in order; the camera is fitted once to these spots with the options given; spots without a label and nearer to their match than the limit get its location, device and place, the others nothing;
    fiducials keep their label and have their metrology as expected place; the turbulence correction replaces the positions of the spots matched to an expected place only; sky coordinates are those
    of the final positions; with fewer than three fiducials or a number of spots out of the limits nothing is written"""
    if not ctx.symbolic:
        return
    m = ctx.mod(PF)
    np = ctx.np
    Table.np = np
    n = 7
    x, y = ctx.arr("xpix", n, 0, 6000), ctx.arr("ypix", n, 0, 6000)
    few = ctx.flag("few fiducials")
    labels = [((l, 1) if few and l == 11 else (l, p)) for l, p in SPOTS]
    turb = ctx.choice("turbulence", ("no", "gp", "polynomial"))
    sky = ctx.flag("field model")
    options = ctx.choice("options", ((), ("--fixed-scale",), ("--zbfit", "--fixed-rotation"), ("--input-transform", "given.json", "--pinhole-max-separation-mm", "1.25"))) if turb == "no" and not sky else ()
    limits = ctx.choice("limits", ((), ("--min-spots", "7", "--max-spots", "7"), ("--min-spots", "8"), ("--max-spots", "6"))) if turb == "no" and not sky and not options else ()
    which = ctx.choice("nearest", MATCH if turb == "no" and not sky and not options else MATCH[::3]) if not few and limits in ((), ("--min-spots", "7", "--max-spots", "7")) else MATCH[1]
    a = list(options + limits) + ["--max-match-distance", "2", "--output-transform", "tx.json"]
    if turb != "no":
        a += ["--expected-positions", "expected.csv", "--turbulence-correction" + ("-with-pol" if turb == "polynomial" else "")]
    if sky:
        a += ["--field-model", "fm.json"]
    args = arguments(m, *a)
    dist = [ctx.real("distance %d" % i, 0, 50) if w >= 0 else BIG for i, w in enumerate(which)]
    ex, ey = ctx.arr("expected x", 3, 1, 420), ctx.arr("expected y", 3, 1, 420)
    mx, my = ctx.arr("metrology x", n, 1, 420), ctx.arr("metrology y", n, 1, 420)
    et = Table({"LOCATION": np.array([5, 6, 7]), "PETAL_LOC": np.array([0, 1, 2]), "DEVICE_LOC": np.array([5, 6, 7]), "DEVICE_ID": np.array(["M5", "M6", "M7"]), "DEVICE_TYPE": np.array(["POS"] * 3),
                "X_FP": ex, "Y_FP": ey, "PINHOLE_ID": np.array([0, 0, 0])})
    written, fits, found, saved, corrections = [], [], [], [], []
    f, g, h = Positive(ctx, "camera"), Positive(ctx, "corrected"), PureUf("sky", 2)

    class Spots(Table):
        def write(self, name, **k):
            written.append((name, self))

    def find(spots, input_transform=None, pinhole_max_separation_mm=1.5, **k):
        found.append((input_transform, pinhole_max_separation_mm))
        spots["LOCATION"] = np.array([l for l, p in labels])
        spots["PETAL_LOC"] = np.array([l // 1000 for l, p in labels])
        spots["DEVICE_LOC"] = np.array([l % 1000 for l, p in labels])
        spots["PINHOLE_ID"] = np.array([p for l, p in labels])
        return spots

    class Camera(object):
        def fit(self, spots, metrology=None, update_spots=False, zbfit=True, fixed_scale=False, fixed_rotation=False):
            fits.append((spots, metrology, zbfit, fixed_scale, fixed_rotation))
            ctx.true("spots updated", update_spots is True)
            spots["X_FP"], spots["Y_FP"] = camera(np, f)(spots["XPIX"], spots["YPIX"])
            for c, v in (("X_FP_METRO", mx), ("Y_FP_METRO", my)):
                spots[c] = np.array([v[i] if labels[i][1] > 0 else 0 for i in range(n)])

        def write_jsonfile(self, name):
            saved.append((name, self))
    tx = Camera()
    free = [i for i in range(n) if labels[i][0] < 0]

    def match(x1, y1, x2, y2, remove_duplicates=True):
        p = [f(x[i], y[i]) for i in free]
        if len(x1) != 3 or len(x2) != 3:
            raise Unsupported("%d spots matched to %d places" % (len(x1), len(x2)))
        ctx.eq("spots matched", list(x1) + list(y1) + list(x2) + list(y2), [q[0] for q in p] + [q[1] for q in p] + list(ex) + list(ey))
        ctx.true("one spot for each place", remove_duplicates is True)
        return np.array(list(which)), np.array(dist)

    def correct(kind):
        def go(u, v, U, V):
            corrections.append((kind, list(u), list(v), list(U), list(V)))
            r = [g(p, q) for p, q in zip(u, v)]
            return np.array([p[0] for p in r]), np.array([p[1] for p in r])
        return go
    model = Fake(fp2radec=camera(np, h))
    table = Spots({"XPIX": x, "YPIX": y})
    m.__dict__.update(Table=Fake(read=lambda name, **k: table if name == "in.csv" else et.copy()), findfiducials=find, FVC2FP=Fake(read_jsonfile=lambda n: tx, read=lambda n: tx), load_metrology=lambda: et.copy(),
                      match_same_system=match, correct=correct("gp"), correct_with_pol=correct("polynomial"), FieldModel=Fake(fromjson=lambda s: model), open=lambda *a: _open(), fvc2fp_filename=lambda: "default.json",
                      np=Reported(np))
    with quiet():
        code = m.fvc_proc(args, LOG)
    if limits in (("--min-spots", "8"), ("--max-spots", "6")):
        ctx.true("number of spots", not written)
        return
    if few:
        ctx.true("too few fiducials", code == 13 and not written)
        return
    ctx.true("written", code == 0 and len(written) == 1 and written[0][0] == "out.csv" and len(written[0][1]) == n)
    if len(fits) != 1 or len(found) != 1:
        raise Unsupported("%d fits" % len(fits))
    ctx.true("finding of the fiducials", found[0] == (("given.json", 1.25) if "--input-transform" in options else (None, 1.5)))
    ctx.true("options of the fit", [bool(v) for v in fits[0][2:]] == ["--zbfit" in options, "--fixed-scale" in options, "--fixed-rotation" in options] and fits[0][1] is None)
    ctx.true("fit saved", len(saved) == 1 and saved[0][0] == "tx.json" and saved[0][1] is tx)
    out = written[0][1]
    ctx.eq("pixels", list(out["XPIX"]) + list(out["YPIX"]), list(x) + list(y))
    matched = {}
    for k, i in enumerate(free):
        if which[k] >= 0 and bool(dist[k] < 2):
            matched[i] = which[k]
    if turb != "no":
        ctx.true("correction asked for", len(corrections) == 1 and corrections[0][0] == turb)
        if len(corrections) == 1:
            us = sorted(matched)
            kind, u, v, U, V = corrections[0]
            ctx.true("spots corrected", len(u) == len(us))
            if len(u) == len(us):
                p = [f(x[i], y[i]) for i in us]
                ctx.eq("corrected from", u + v + U + V, [q[0] for q in p] + [q[1] for q in p] + [ex[matched[i]] for i in us] + [ey[matched[i]] for i in us])
    else:
        ctx.true("no correction", not corrections)
    for i in range(n):
        p = f(x[i], y[i])
        l, q = labels[i]
        if i in matched:
            k = matched[i]
            if turb != "no":
                p = g(*p)
            ctx.true("label of a fiber", (int(out["LOCATION"][i]), int(out["PINHOLE_ID"][i]), int(out["PETAL_LOC"][i]), int(out["DEVICE_LOC"][i]), str(out["DEVICE_ID"][i]).strip(), str(out["DEVICE_TYPE"][i]))
                     == (5 + k, 0, k, 5 + k, "M%d" % (5 + k), "POS"))
            ctx.eq("expected place of a fiber", [out["X_FP_EXP"][i], out["Y_FP_EXP"][i]], [ex[k], ey[k]])
        else:
            ctx.true("label", (int(out["LOCATION"][i]), int(out["PINHOLE_ID"][i])) == (l, q) and str(out["DEVICE_ID"][i]).strip() == "None")
            ctx.eq("expected place", [out["X_FP_EXP"][i], out["Y_FP_EXP"][i]], [mx[i], my[i]] if q > 0 else [0, 0])
        ctx.eq("position", [out["X_FP"][i], out["Y_FP"][i]], list(p))
        if sky:
            ctx.eq("sky", [out["RA"][i], out["DEC"][i]], list(h(*p)))


class Positive(object):
    """an arbitrary function of its arguments, away from the axes"""

    def __init__(self, ctx, name):
        self.ctx, self.name, self.known = ctx, name, []

    def __call__(self, u, v):
        for a, b, r in self.known:
            if eqt(a, u) and eqt(b, v):
                return r
        k = len(self.known)
        r = self.ctx.real("%s x%d" % (self.name, k), 1, 420), self.ctx.real("%s y%d" % (self.name, k), 1, 420)
        self.known.append((u, v, r))
        return r


class _open(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def read(self):
        return "{}"


class Reported(object):
    """numpy, statistics that are only reported having any value"""

    def __init__(self, np):
        self.np = np

    def __getattr__(self, k):
        return getattr(self.np, k)

    def mean(self, a, *r, **k):
        return 0.125

    def sqrt(self, a):
        return 0.125


FIRST = ((100, 99), (8, 0), (100, 10), (200, 99), (-1, 0), (300, 99), (100, 11))
SECOND = ((0, 0), (100, 99), (-1, 0), (200, 10), (300, 99), (8, 0), (200, 99), (-1, 0))
METRO2 = ((100, 1, "FIF"), (100, 4, "FIF"), (0, 0, "POS"), (200, 2, "GIF"), (300, 3, "FIF"), (8, 0, "POS"), (200, 3, "GIF"), (-1, 0, "GIF-T"), (100, 5, "FIF"))


@contract("spots_labelled_by_program", [PF + ".fvc_proc"], crosscheck=False, max_paths=600, samples=(0, 0))
def by_program(ctx):
    """generic positions over the contract of the matching program (matches_read): the camera is fitted to the fibers and centres it found, each centre with the mean of its pinholes; the program then
    gets the same spots, that camera and the expected places; each fiber has the expected place of its own location, each fiducial centre the mean of its pinholes as expected place and metrology,
    pinholes and unlabelled spots nothing, and each row its position through the fitted camera (corrected for turbulence where there is an expected place)"""
    if not ctx.symbolic:
        return
    m = ctx.mod(PF)
    np = ctx.np
    Table.np = np
    o1, o2, o3 = ctx.choice("order of the first report", ((0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1, 0))), ctx.choice("order", ORDER8), ctx.choice("order of the metrology", ORDERS)
    few = ctx.flag("few") if o1[0] == 0 else False
    turb = ctx.flag("turbulence")
    first = [((-1, 0) if few and FIRST[i][0] == 300 else FIRST[i]) for i in o1]
    second = [SECOND[i] for i in o2]
    rows = [METRO2[i] for i in o3]
    x, y = ctx.arr("xpix", 4, 0, 6000), ctx.arr("ypix", 4, 0, 6000)
    x1, y1 = ctx.arr("first xpix", 7, 0, 6000), ctx.arr("first ypix", 7, 0, 6000)
    x2, y2 = ctx.arr("second xpix", 8, 0, 6000), ctx.arr("second ypix", 8, 0, 6000)
    X, Y = ctx.arr("metrology x", 9, 1, 420), ctx.arr("metrology y", 9, 1, 420)
    ex, ey = ctx.arr("expected x", 3, 1, 420), ctx.arr("expected y", 3, 1, 420)
    mt = Table({"LOCATION": np.array([q[0] for q in rows]), "PINHOLE_ID": np.array([q[1] for q in rows]), "DEVICE_TYPE": np.array([q[2] for q in rows]), "X_FP": X, "Y_FP": Y})
    et = Table({"LOCATION": np.array([8, 9, 0]), "X_FP": ex, "Y_FP": ey})
    a = ["--use-spotmatch", "--spotmatch-match-radius-pixels", "33", "--expected-positions", "expected.csv"] + (["--turbulence-correction"] if turb else [])
    args = arguments(m, *a)
    calls, fits, written, given = [], [], [], []
    f, g = Positive(ctx, "camera"), Positive(ctx, "corrected")

    class Spots(Table):
        def write(self, name, **k):
            written.append((name, self))

        def __getitem__(self, k):
            r = Table.__getitem__(self, k)
            if isinstance(r, Table):
                t = Spots()
                t.c = r.c
                return t
            return r

    def program(xpix, ypix, expected_x_fp=None, expected_y_fp=None, expected_location=None, verbose=0, match_radius_pixels=70, fvc2fp=None):
        calls.append((list(xpix), list(ypix), expected_x_fp, expected_y_fp, expected_location, match_radius_pixels, fvc2fp))
        u, v, l = ((x1, y1, first), (x2, y2, second))[min(len(calls), 2) - 1]
        return Spots({"LOCATION": np.array([q[0] for q in l]), "XPIX": u, "YPIX": v, "PINHOLE_ID": np.array([q[1] for q in l])})

    class Camera(object):
        def fit(self, spots, metrology=None, update_spots=False, zbfit=True, fixed_scale=False, fixed_rotation=False):
            fits.append(([int(q) for q in spots["LOCATION"]], [int(q) for q in spots["PINHOLE_ID"]], list(spots["XPIX"]), list(spots["YPIX"]), metrology.copy()))

        def fvc2fp(self, u, v, *a, **k):
            return camera(np, f)(u, v)
    tx = Camera()

    def correct(u, v, U, V):
        given.append((list(u), list(v), list(U), list(V)))
        r = [g(p, q) for p, q in zip(u, v)]
        return np.array([p[0] for p in r]), np.array([p[1] for p in r])
    table = Spots({"XPIX": x, "YPIX": y})
    m.__dict__.update(Table=Fake(read=lambda name, **k: table if name == "in.csv" else et.copy()), spotmatch=program, FVC2FP=Fake(read_jsonfile=lambda n: tx, read=lambda n: tx), load_metrology=lambda: mt.copy(),
                      correct=correct, fvc2fp_filename=lambda: "default.json", get_expected_pos=lambda a, l: et.copy())
    real = np.mean
    sq = np.sqrt
    m.__dict__["np"] = Root(np)
    with quiet():
        code = m.fvc_proc(args, LOG)
    if few:
        ctx.true("too few fiducials", code == 13 and not written)
        return
    if len(calls) != 2 or len(fits) != 1:
        raise Unsupported("%d matches, %d fits" % (len(calls), len(fits)))
    c = calls[0]
    ctx.eq("spots given", c[0] + c[1], list(x) + list(y))
    ctx.true("first match", c[2] is None and c[3] is None and c[4] is None and calls[0][5] == calls[1][5] == 33)
    kept = [i for i in range(7) if first[i][1] in (0, 99)]
    fl, fpn, fx, fy, fm = fits[0]
    ctx.true("fitted spots", fl == [first[i][0] for i in kept] and fpn == [first[i][1] for i in kept])
    ctx.eq("fitted pixels", fx + fy, [x1[i] for i in kept] + [y1[i] for i in kept])
    mean = {l: centre(rows, X, Y, l) for l in (100, 200, 300)}
    for l in (100, 200, 300):
        k = [i for i in range(len(fm)) if int(fm["LOCATION"][i]) == l]
        ctx.true("one centre for each fiducial", [int(fm["PINHOLE_ID"][i]) for i in k] == [99])
        if len(k) == 1:
            ctx.eq("centre of the pinholes", [fm["X_FP"][k[0]], fm["Y_FP"][k[0]]], list(mean[l]))
    ctx.eq("second match", calls[1][0] + calls[1][1] + list(calls[1][2]) + list(calls[1][3]), fx + fy + list(ex) + list(ey))
    ctx.true("with the fitted camera", calls[1][6] is tx and [int(q) for q in calls[1][4]] == [8, 9, 0])
    ctx.true("written", code == 0 and len(written) == 1 and len(written[0][1]) == 8)
    out = written[0][1]
    ctx.true("labels", [(int(p), int(q)) for p, q in zip(out["LOCATION"], out["PINHOLE_ID"])] == second)
    ctx.true("corrections", len(given) == (1 if turb else 0))
    place = {8: (ex[0], ey[0]), 0: (ex[2], ey[2])}
    for i, (l, q) in enumerate(second):
        p = f(x2[i], y2[i])
        if turb and q == 0 and l in place:
            p = g(*p)
        ctx.eq("pixels", [out["XPIX"][i], out["YPIX"][i]], [x2[i], y2[i]])
        ctx.eq("position", [out["X_FP"][i], out["Y_FP"][i]], list(p))
        w = place[l] if q == 0 and l in place else mean[l] if q == 99 else (0, 0)
        ctx.eq("expected place of a row", [out["X_FP_EXP"][i], out["Y_FP_EXP"][i]], list(w))
        if q == 99 or q == 10 or l < 0:
            ctx.eq("metrology of a fiducial", [out["X_FP_METRO"][i], out["Y_FP_METRO"][i]], list(w))
    if turb and given:
        k = [i for i in range(8) if second[i][0] in place and second[i][1] == 0]
        q = [f(x2[i], y2[i]) for i in k]
        ctx.eq("corrected from", sum(given[0], []), [p[0] for p in q] + [p[1] for p in q] + [place[second[i][0]][0] for i in k] + [place[second[i][0]][1] for i in k])


ORDER8 = ((0, 1, 2, 3, 4, 5, 6, 7), (7, 6, 5, 4, 3, 2, 1, 0), (3, 6, 0, 5, 2, 1, 7, 4))


class Root(object):
    """numpy, roots (only reported here) having any value"""

    def __init__(self, np):
        self.np = np

    def __getattr__(self, k):
        return getattr(self.np, k)

    def sqrt(self, a):
        return 0.125


@contract("images_selected", [PF + ".get_spots_list", PF + ".preproc", PF + ".fvc_proc", PF + ".process_fvc", PF + ".get_outfilename"], kind="bounded", samples=(40, 400))
def images(ctx):
    """files of one to twelve images, alone or mixed with other extensions: the image asked for, the last one, the only one, or each of a sequence is searched for spots with the thresholds given,
    the bias subtracted once from each; each image of a sequence has its own file; exposures whose number of spots is out of the limits are not written, the others are"""
    import numpy as np
    import os
    import fitsio
    from astropy.table import Table as T
    m = ctx.mod(PF)
    r = ctx.seed()
    k = ctx.choice("case", ("only", "named", "last", "sequence", "default"))
    n = 1 if k == "only" else int(r.choice([1, 2, 3, 9, 10, 11, 12]))
    names = ["F%04d" % i for i in range(n)]
    if r.uniform() < .5:
        names = [names[i] for i in r.permutation(n)]
    extra = [] if k == "only" else [e for e in ("SPOTS", "DATA", "FLATX") if r.uniform() < .5]
    images = {e: np.round(r.uniform(0, 1000, (3, 4))) for e in names + extra}
    bias = np.round(r.uniform(0, 50, (3, 4))) if r.uniform() < .5 else None
    counts, calls = {}, []
    number = {e: int(r.randint(1, 6)) for e in images}
    lo, hi = ((2, 4) if r.uniform() < .3 else (None, None))

    def detect(fvcimage, min_counts_per_pixel=500, min_counts_per_spot=500, nsig=7, psf_sigma=1., **q):
        image = fvcimage
        calls.append((np.array(image), min_counts_per_pixel, min_counts_per_spot, psf_sigma))
        hit = [e for e in images if np.array_equal(image, images[e] - (0 if bias is None else bias))]
        q = number[hit[0]] if hit else 3
        return T({"XPIX": np.full(q, float(np.sum(image))), "YPIX": np.arange(q) + .5})
    with scratch() as d, quiet(), patched(m, detectspots=detect):
        order = names + extra if r.uniform() < .5 else extra + names
        with fitsio.FITS(d + "/i.fits", "rw") as fx:
            if k != "only":
                fx.write(None)
            for e in order:
                fx.write(images[e], extname=e)
        a = ["-i", d + "/i.fits", "-o", d + "/o.csv", "--nomatch", "--min-counts-per-pixel", "321", "--min-counts", "654", "--fvc-psf-sigma", "1.75"]
        if bias is not None:
            fitsio.write(d + "/bias.fits", bias)
            a += ["--bias", d + "/bias.fits"]
        else:
            a += ["--no-bias"]
        if lo is not None:
            a += ["--min-spots", str(lo), "--max-spots", str(hi)]
        pick = names[r.randint(n)]
        a += {"named": ["--extname", pick], "last": ["--extname", "last"], "sequence": ["--sequence"]}.get(k, [])
        want = {"named": [pick], "last": [max(names)], "sequence": names, "only": names, "default": ["F0000"]}[k]
        ctx.true("success", m.fvc_proc(m.get_parser().parse_args(a), LOG) == 0)
        ctx.true("images searched", len(calls) == len(want))
        for c, e in zip(calls, want):
            ctx.true("image, bias subtracted", np.array_equal(c[0], images[e] - (0 if bias is None else bias)))
            ctx.true("thresholds", c[1:] == (321., 654., 1.75))
        real = {f.lower(): f for f in os.listdir(d) if f.startswith("o") and f.endswith(".csv")}
        files = sorted(real)
        good = [e for e in want if lo is None or lo <= number[e] <= hi]
        named = {("o-%s.csv" % e.lower() if k == "sequence" else "o.csv"): e for e in good}
        ctx.true("files written", files == sorted(named))
        for f, e in named.items():
            if f in files:
                t = T.read(d + "/" + real[f])
                ctx.true("its spots", len(t) == number[e] and np.all(t["XPIX"] == np.sum(images[e] - (0 if bias is None else bias))))
        ctx.true("refused", m.fvc_proc(m.get_parser().parse_args(["-i", d + "/i.fits", "-o", d + "/x.txt"]), LOG) != 0 and not os.path.exists(d + "/x.txt"))
        t = T({"XPIX": [1., 2.]})
        t.write(d + "/s.csv")
        ctx.true("table of spots", list(m.process_fvc(d + "/s.csv")["XPIX"]) == [1., 2.])


@contract("processing_from_a_session", [PF + ".process_fvc", PF + ".get_outfilename"], samples=(0, 0), crosscheck=False)
def session(ctx):
    """one image processed in this environment or in a process of its own: the table of that image is returned, a previous result only when it is not to be overwritten, nothing after a failure (not even an older result); other
    files are refused"""
    if not ctx.symbolic:
        return
    import os
    m = ctx.mod(PF)
    kind = ctx.choice("file", ("fvc-1.fits", "fvc-2.fits.fz", "a.csv", "a.txt"))
    there, over, own, fails = [ctx.flag(k) for k in ("result exists", "overwrite", "subprocess", "fails")]
    name = "/data/20200101/" + kind
    ran, written = [], {}
    answer = object()

    def isfile(f):
        return there or f in written

    def process(i, o):
        ran.append(i)
        if not fails:
            written[o] = "new"
        return 3 if fails else 0

    def call(cmd, **k):
        cmd = cmd.split() if isinstance(cmd, str) else list(cmd)
        ctx.true("program", os.path.basename(cmd[0]) == "desi_fvc_proc")
        a = m.get_parser().parse_args(cmd[1:])
        return process(a.infile, a.outfile)

    def proc(args, log):
        return process(args.infile, args.outfile)
    path = Fake(**{k: getattr(os.path, k) for k in ("basename", "split", "join", "splitext", "dirname", "exists")})
    path.isfile = path.exists = isfile
    sub = Fake(call=call, run=lambda c, **k: Fake(returncode=call(c)))
    with quiet(), patched(m, os=Fake(path=path, environ={}), subprocess=sub, fvc_proc=proc, Table=Fake(read=lambda f, **k: (f, written.get(f, "old")))):
        if kind == "a.txt":
            ctx.raises("refused", (SystemExit, ValueError, RuntimeError), lambda: m.process_fvc(name, overwrite=over, use_subprocess=own))
            return
        t = m.process_fvc(name, overwrite=over, use_subprocess=own)
    if kind == "a.csv":
        ctx.true("the table given", t == (name, "old") and not ran)
        return
    if there and not over:
        ctx.true("previous result", t is not None and t[1] == "old" and not ran)
    else:
        ctx.true("that image, once", ran == [name])
        ctx.true("its table", t is None if fails else t is not None and t[1] == "new")
    if t is not None:
        ctx.true("named after the image", os.path.basename(t[0]) == kind.split(".")[0] + ".csv" and t[0] != name)
