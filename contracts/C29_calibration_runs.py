"""C29: a calibration run fits exactly the moves selected and reports exactly what was fitted."""
from dv.engine import contract
from dv.stubs import PureUf, eqt
from dv.term import Unsupported, const

H, PS, FL = "desimeter.posparams.fithandler", "desimeter.posparams.posmoveselection", "desimeter.posparams.flags"
STATIC = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y"]
DYNAMIC = ["SCALE_T", "SCALE_P"]
ALL = STATIC + DYNAMIC


class Fake(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class quiet(object):
    def __enter__(self):
        import contextlib
        import io
        self.c = contextlib.redirect_stdout(io.StringIO())
        self.c.__enter__()

    def __exit__(self, *a):
        self.c.__exit__(*a)


def silent(*a, **k):
    pass


class Table(object):
    """contract of an astropy table: columns of equal length; selections of rows are copies; rows sorted by a column, removed; columns renamed, removed"""
    np = None

    def __init__(self, c=()):
        self.c = {k: self.col(v) for k, v in dict(c).items()}
        if len({len(v) for v in self.c.values()}) > 1:
            raise ValueError("columns of different lengths")

    def col(self, v):
        return v.copy() if hasattr(v, "copy") and not isinstance(v, list) else Table.np.array(v)

    def __len__(self):
        return len(next(iter(self.c.values()))) if self.c else 0

    @property
    def dtype(self):
        return Fake(names=tuple(self.c))

    @property
    def colnames(self):
        return list(self.c)
    columns = colnames

    def keys(self):
        return list(self.c)

    def __contains__(self, k):
        return k in self.c

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.c[k]
        t = Table()
        t.c = {q: v[k].copy() for q, v in self.c.items()}
        return t

    def __setitem__(self, k, v):
        v = self.col(v)
        if self.c and len(v) != len(self):
            raise ValueError("column of another length")
        self.c[k] = v

    def copy(self):
        return Table(self.c)

    def order(self, o):
        for q in self.c:
            self.c[q] = self.c[q][list(o)]

    def sort(self, keys):
        keys = [keys] if isinstance(keys, str) else list(keys)
        self.order(sorted(range(len(self)), key=lambda i: tuple(self.c[k][i] for k in keys)))

    def remove_rows(self, rows):
        n = len(self)
        rows = list(rows)
        if len(rows) == n and all(isinstance(b, bool) or type(b).__name__ in ("bool_", "bool") for b in rows):
            gone = {i for i in range(n) if rows[i]}
        else:
            gone = {int(i) % n for i in rows}
        self.order([i for i in range(n) if i not in gone])

    def remove_column(self, k):
        del self.c[k]

    def rename_column(self, a, b):
        if b in self.c and b != a:
            raise KeyError(b)
        self.c = {b if k == a else k: v for k, v in self.c.items()}


def handler(ctx):
    """the module over the contract of astropy tables"""
    Table.np = ctx.np
    m = ctx.mod(H)
    m.__dict__.update(Table=Table, Time=Fake(now=lambda: Fake(iso="now")), join=None)
    return m


class Note(str):
    """a note of which only the presence of keywords is known"""

    def __new__(cls, name, has):
        s = str.__new__(cls, name)
        s.has = has
        return s

    def __str__(self):
        return self

    def find(self, k, *a):
        if a:
            raise Unsupported("find")
        return 3 if self.has(k) else -1

    def __contains__(self, k):
        return self.has(k)

    def count(self, k, *a):
        return 1 if self.has(k) else 0

    def _no(self, *a, **k):
        raise Unsupported("note")
    __getitem__ = __iter__ = split = startswith = endswith = index = lower = upper = __add__ = _no


SELECTIONS = (("arc", (("arc",),)), ("arc & use=True", (("arc", "use=True"),)), ("arc|grid", (("arc",), ("grid",))), (" arc&use=True | grid ", (("arc", "use=True"), ("grid",))),
              ("arc & | grid & use=True", (("arc",), ("grid", "use=True"))))


@contract("notes_selected", [PS + ".posmove_selection", PS + ".get_matches"], crosscheck=False)
def notes(ctx):
    """exactly the rows are kept whose note contains every keyword of one of the alternatives, in order; without a selection all are (3 rows, every presence of every keyword)"""
    if not ctx.symbolic:
        import numpy as np
        from astropy.table import Table as T
        m = ctx.mod(PS)
        r = ctx.seed()
        words = ["arc calibration", "use_desimeter=True", "grid", "a", "1", "park"]
        alt = [[words[r.randint(6)] for _ in range(r.randint(1, 4))] for _ in range(r.randint(1, 4))]
        text = "|".join((" & ", "&", " &")[r.randint(3)].join(a) for a in alt)
        note = [" ; ".join(words[k] for k in range(6) if r.uniform() < .4) or "-" for _ in range(r.randint(1, 30))]
        t = T({"LOG_NOTE": note, "I": np.arange(len(note))})
        with quiet():
            got = m.posmove_selection(t, text)
            every = m.posmove_selection(t, None)
        ctx.true("rows kept", list(got["I"]) == [i for i, s in enumerate(note) if any(all(w in s for w in a) for a in alt)])
        ctx.true("all rows", list(every["I"]) == list(range(len(note))) and list(t["I"]) == list(range(len(note))))
        return
    m = ctx.mod(PS)
    np = ctx.np
    Table.np = np
    text, alt = ctx.choice("selection", SELECTIONS)
    words = sorted({w for a in alt for w in a})
    n = 2 if len(words) > 2 else 3
    has = [{w: ctx.flag("%s in note %d" % (w, i)) for w in words} for i in range(n)]

    def knows(i):
        def f(k):
            if k not in has[i]:
                ctx.true("keyword of the selection", False)
                raise Unsupported("keyword %r" % k)
            return has[i][k]
        return f
    payload = ctx.arr("payload", n, 0, 1)
    t = Table({"I": np.arange(n), "V": payload})
    import numpy
    o = numpy.empty(n, dtype=object)
    for i in range(n):
        o[i] = Note("note%d" % i, knows(i))
    t.c["LOG_NOTE"] = o
    m.__dict__["np"] = Unique(np)
    with quiet():
        got = m.posmove_selection(t, text)
    want = [i for i in range(n) if any(all(has[i][w] for w in a) for a in alt)]
    ctx.true("rows kept", [int(i) for i in got["I"]] == want)
    ctx.eq("their columns", list(got["V"]), [payload[i] for i in want])
    ctx.true("without a selection", m.posmove_selection(t, None) is t or [int(i) for i in m.posmove_selection(t, None)["I"]] == list(range(n)))


class Unique(object):
    """numpy; the set of notes that is only printed is not needed"""

    def __init__(self, np):
        self.np = np

    def __getattr__(self, k):
        if k == "unique":
            return lambda a, **kw: list(a)
        return getattr(self.np, k)


COLS = (("posintT", "POS_T"), ("posintP", "POS_P"), ("ptlX", "X_PTL"), ("ptlY", "Y_PTL"), ("gearT", "GEAR_CALIB_T"), ("gearP", "GEAR_CALIB_P"), ("recent_rehome", "RECENT_REHOME"),
        ("sequence_id", "SEQUENCE_ID"))


@contract("columns_become_arguments", [H + "._select_by_index"], crosscheck=False)
def columns(ctx):
    """each argument of the fit is the list of its own column over exactly the rows asked for (generic table)"""
    m = handler(ctx) if ctx.symbolic else ctx.mod(H)
    np = ctx.np
    n = ctx.choice("rows", (1, 3, 5))
    a, b = ctx.choice("from", (0, 1, 2)), ctx.choice("to", (1, 3, 5))
    if not a < b <= n:
        return
    cols = {k: ctx.arr(k, n, -200, 200) for _, k in COLS}
    more = dict(cols, EXPOSURE_ID=np.array([7] * n), DATE_SEC=np.array([10. * i for i in range(n)]))
    if ctx.symbolic:
        t = Table(more)
    else:
        from astropy.table import Table as T
        t = T(more)
    data, sub = m._select_by_index(t, start=a, final=b)
    ctx.true("arguments", sorted(data) == sorted(k for k, _ in COLS))
    for k, c in COLS:
        ctx.true("lists", isinstance(data[k], list) and len(data[k]) == b - a)
        ctx.eq("column", data[k], [cols[c][i] for i in range(a, b)])
        ctx.eq("rows", list(sub[c]), [cols[c][i] for i in range(a, b)])


ENABLED = ((1, 1, 1, 1, 1), (1, 0, 1, 1, 0), (0, 1, 1, 0, 1), (0, 0, 0, 0, 0), (1, 1, 0, 1, 1), (0, 0, 0, 1, 0))
MOVES = ((1, 2, 3, 4, 5), (7, 7, 8, 8, 8), (0, 0, 0, 0, 0), (5, 3, 3, 9, 5), (2, 1, 2, 1, 0), (10, 10, 10, 11, 10), (-1, -2, -1, 0, -1))


@contract("rows_filtered", [H + "._apply_filters", H + "._ctrl_not_enabled", H + "._no_move_performed", H + "._np_diff_with_prepend"], crosscheck=False)
def filtered(ctx):
    """of five rows with generic content, exactly those remain whose control was enabled and in which a move was made since the previous such row: one for each value of the counter of moves"""
    m = handler(ctx) if ctx.symbolic else ctx.mod(H)
    np = ctx.np
    en, mv = ctx.choice("enabled", ENABLED), ctx.choice("counter of moves", MOVES)
    v = ctx.arr("content", 5, 0, 1)
    if ctx.symbolic:
        t = Table({"CTRL_ENABLED": np.array([bool(e) for e in en]), "TOTAL_MOVE_SEQUENCES": np.array(mv), "V": v, "I": np.arange(5), "POS_ID": np.array(["M1"] * 5)})
    else:
        from astropy.table import Table as T
        t = T({"CTRL_ENABLED": [bool(e) for e in en], "TOTAL_MOVE_SEQUENCES": list(mv), "V": v, "I": list(range(5)), "POS_ID": ["M1"] * 5})
    m._apply_filters(t, printf=silent)
    rows = [int(i) for i in t["I"]]
    ctx.true("enabled rows", all(en[i] for i in rows) and len(set(rows)) == len(rows))
    ctx.true("one row for each value of the counter", sorted(mv[i] for i in rows) == sorted({mv[i] for i in range(5) if en[i]}))
    ctx.eq("rows kept together", list(t["V"]), [v[i] for i in rows])
    ctx.true("rows kept together", [int(k) for k in t["TOTAL_MOVE_SEQUENCES"]] == [mv[i] for i in rows])


EXPOSURES = ((5, 5, 5, 5), (1, 2, 3, 4), (9, 9, 2, 2), (3, 1, 3, 1), (7, 8, 7, 2), (12, 3, 3, 12))


@contract("sequences_are_exposures", [H + "._sequences_of_consistent_posintTP"], crosscheck=False)
def sequences(ctx):
    """rows get the same index exactly when they come from the same exposure; the indices count from zero"""
    m = handler(ctx) if ctx.symbolic else ctx.mod(H)
    if ctx.symbolic:
        e = ctx.choice("exposures", EXPOSURES)
    else:
        r = ctx.seed()
        e = [int(k) for k in r.randint(0, 12, r.randint(1, 40))]
    s = m._sequences_of_consistent_posintTP({"EXPOSURE_ID": ctx.np.array(e)})
    n = len(e)
    ctx.true("same exposure, same index", len(s) == n and all((s[i] == s[j]) == (e[i] == e[j]) for i in range(n) for j in range(i)))
    ctx.true("count from zero", sorted({int(k) for k in s}) == list(range(len(set(e)))))


class Find(object):
    def __init__(self, np):
        self.np = np

    def __getattr__(self, k):
        if k == "argwhere":
            return lambda mask: self.np.array([[i] for i in range(len(mask)) if mask[i]])
        if k == "searchsorted":
            raise Unsupported(k)
        return getattr(self.np, k)


@contract("first_row_at_a_time", [H + "._row_idx_for_time"], crosscheck=False)
def at_time(ctx):
    """for sorted times and any date: the first row at or after it, the first row before all, the last row after all"""
    m = handler(ctx) if ctx.symbolic else ctx.mod(H)
    n = ctx.choice("rows", (1, 2, 4))
    t = [ctx.real("t0", 0, 100)]
    for i in range(1, n):
        t.append(t[-1] + ctx.real("step %d" % i, 0, 10))
    d = ctx.real("date", -50, 200)
    if ctx.symbolic:
        m.__dict__["np"] = Find(ctx.np)
    elif ctx.flag("date of a row"):
        d = t[ctx.choice("row", (0, 1, 2, 3)) % n]
    Table.np = ctx.np
    got = m._row_idx_for_time(Table({"DATE_SEC": ctx.np.array(t)}), d)
    ctx.true("a row", isinstance(got, int) and 0 <= got < n)
    if got > 0:
        ctx.lt("the one before is earlier", t[got - 1], d)
    if got < n - 1:
        ctx.le("not earlier", d, t[got])


@contract("windows", [H + "._define_cases"], crosscheck=False, max_paths=4000)
def windows(ctx):
    """any rows at up to four dates (in order; sampled: six) and any window: each date but the first ends the shortest window that starts at an earlier date and holds more than the wanted rows; where
    there is none it is left out, except that the last then starts at the first row; no window twice"""
    m = handler(ctx) if ctx.symbolic else ctx.mod(H)
    k = ctx.choice("dates", (2, 3, 4) if ctx.symbolic else (2, 3, 4, 6))
    n = 100
    number = ctx.real if ctx.symbolic else ctx.integer          # the code only subtracts and compares them
    steps = [number("rows between %d" % i, 0, 15) for i in range(k)]
    w = number("window", 1, 40)
    idx = [steps[0]]
    for s in steps[1:]:
        idx.append(idx[-1] + s)
    dates = [100. * i for i in range(k)]

    class Rows(object):
        def sort(self, key):
            ctx.true("sorted by time", key == "DATE_SEC" or key == ["DATE_SEC"])

        def __len__(self):
            return n

        def __getitem__(self, c):
            if c == "POS_ID":
                return ["M1"] * n
            raise Unsupported("column %s" % c)
    m.__dict__["_row_idx_for_time"] = lambda table, d: idx[dates.index(d)]
    got = m._define_cases(Rows(), list(dates), w, printf=silent)
    want = []
    for j in range(1, k):
        start = None
        for i in range(j - 1, -1, -1):
            if idx[j] - idx[i] > w:
                start = i
                break
        if start is None:
            if j < k - 1:
                continue
            start = 0
        if not any(ctx_same(idx[start], a) and ctx_same(idx[j], b) for a, b in want):
            want.append((idx[start], idx[j]))
    ctx.true("number of windows", len(got) == len(want))
    for g, (a, b) in zip(got, want):
        ctx.eq("window", [g["start_idx"], g["final_idx"]], [a, b])


def ctx_same(a, b):
    return bool(a == b)


@contract("one_date", [H + "._define_cases"], crosscheck=False)
def one_date(ctx):
    """when all moves fall in one period: every window holds the wanted number of rows (all of them if there are fewer), every row is in some window, and no window is there twice"""
    m = handler(ctx) if ctx.symbolic else ctx.mod(H)
    n, w = ctx.choice("rows", (1, 2, 5, 6, 7, 12, 30)), ctx.choice("window", (1, 2, 3, 5, 6, 7, 30, 1000))

    class Rows(object):
        def sort(self, k):
            pass

        def __len__(self):
            return n

        def __getitem__(self, c):
            if c == "POS_ID":
                return ["M1"] * n
            raise Unsupported("column %s" % c)
    with quiet():
        got = [(int(c["start_idx"]), int(c["final_idx"])) for c in m._define_cases(Rows(), [5.], w, printf=silent)]
    ctx.true("rows of the table", all(0 <= a <= b < n for a, b in got))
    ctx.true("at least the wanted number", all(b - a + 1 >= min(n, w) for a, b in got))
    ctx.true("every row", {i for a, b in got for i in range(a, b + 1)} == set(range(n)))
    ctx.true("no window twice", len(set(got)) == len(got))


@contract("fits_are_reported", [H + "._process_cases", H + "._select_by_index", H + "._mode_suffix"], crosscheck=False)
def processed(ctx):
    """generic measurements in any of the sampled orders, up to three windows: each window is fitted once with its own rows in order of time, the nominal values, mode, default bounds and nothing else
    held; its row reports the dates, the number of points and the values, errors (roots of the variances) and covariances of its own fit, under the names of the mode"""
    if not ctx.symbolic:
        return                                 # the real table is exercised by calibration_run
    m = handler(ctx)
    np = ctx.np
    n = 5
    order = ctx.choice("order of the rows", ((0, 1, 2, 3, 4), (3, 1, 4, 0, 2), (4, 3, 2, 1, 0)))
    cases = ctx.choice("windows", (((0, 4),), ((0, 2), (1, 4)), ((0, 1), (2, 2), (0, 4))))
    mode = ctx.choice("mode", ("static", "dynamic"))
    reject = ctx.flag("outlier rejection")
    drift = ctx.choice("drifting sequences of each window", (((), (), ()), ((1,), (1,), (1,)), ((0, 1, 10, 100), (0, 1, 10, 100), (0, 1, 10, 100)), ((), (1,), (1, 10)), ((10,), (1,), ())))
    cols = {k: ctx.arr(k, n, -200, 200) for _, k in COLS}
    t = Table(cols)
    t["DATE_SEC"] = [10. * i for i in range(n)]
    t["DATE"] = ["day %d" % i for i in range(n)]
    t["POS_ID"] = ["M00001"] * n
    t.order(order)
    names = [ALL + ["EPSILON_%s_%d" % (a, s) for s in e for a in "TP"] for e in drift]
    keys = STATIC if mode == "static" else DYNAMIC
    nominal, bounds = {"nominal": 1}, {"bounds": 2}
    calls = []

    def fit_params(**k):
        i = len(calls)
        p = {q: ctx.real("%s of window %d" % (q, i), 1, 2) for q in names[i]}
        p["FLAGS"] = (0, 4, 1)[i]
        cov = {}
        for a in range(8):
            for b in range(a + 1):
                on = ALL[a] in keys and ALL[b] in keys
                name = "COV.%s.%s" % ((ALL[a], ALL[b]) if (a + b) % 2 else (ALL[b], ALL[a]))
                cov[name] = ctx.real("%s of window %d" % (name, i), 1, 2) if on else 0.
        rms, used = ctx.real("rms %d" % i, 1, 2), 100 + i
        calls.append((k, p, cov, rms, used))
        return p, cov, rms, used
    m.__dict__["fitter"] = Fake(fit_params=fit_params, default_bounds=bounds, static_keys=list(STATIC), dynamic_keys=list(DYNAMIC), all_keys=list(ALL))
    m.__dict__["_dict_str"] = lambda d: ""
    with quiet():
        out = m._process_cases(t, [{"start_idx": a, "final_idx": b} for a, b in cases], mode, nominal, printf=silent, outlier_rejection=reject)
    if len(calls) != len(cases):
        raise Unsupported("%d fits" % len(calls))
    ctx.true("one row for each window", len(out) == len(cases))
    S = "_" + mode.upper()
    for i, (a, b) in enumerate(cases):
        k, p, cov, rms, used = calls[i]
        ctx.true("arguments", k["mode"] == mode and k["nominals"] == nominal and k["bounds"] == bounds and not k["keep_fixed"] and bool(k.get("outlier_rejection", False)) is reject
                 and set(k) <= {c for c, _ in COLS} | {"mode", "nominals", "bounds", "keep_fixed", "outlier_rejection"})
        for c, q in COLS:
            ctx.eq("rows of the window", k[c], [cols[q][r] for r in range(a, b + 1)])
        ctx.eq("values", [out[q + S][i] for q in names[i]], [p[q] for q in names[i]])
        ctx.eq("rms", out["FIT_ERROR" + S][i], rms)
        ctx.true("dates", (out["DATA_START_DATE"][i], out["DATA_END_DATE"][i], out["DATA_START_DATE_SEC"][i], out["DATA_END_DATE_SEC"][i])
                 == ("day %d" % a, "day %d" % b, 10. * a, 10. * b))
        ctx.true("counts and flags", (int(out["NUM_POINTS"][i]), int(out["NUM_POINTS_IN_FIT" + S][i]), int(out["FLAGS"][i])) == (b - a + 1, used, p["FLAGS"]))
        ctx.true("positioner", out["POS_ID"][i] == "M00001")
        for x in range(8):
            for y in range(x + 1):
                A, B = ALL[x], ALL[y]
                v = cov["COV.%s.%s" % (A, B)] if "COV.%s.%s" % (A, B) in cov else cov["COV.%s.%s" % (B, A)]
                if A == B:
                    e = out["ERR." + A + S][i]
                    ctx.eq("error", e * e, v)
                    ctx.le("error", 0, e)
                    continue
                have = [q for q in ("COV.%s%s.%s%s" % (A, S, B, S), "COV.%s%s.%s%s" % (B, S, A, S)) if q in out.colnames]
                ctx.true("covariances reported once", len(have) == (1 if A in keys and B in keys else 0))
                if have:
                    ctx.eq("covariance", out[have[0]][i], v)


class Spread(object):
    """numpy, with the contract of numpy.std: a value that is not negative, the same for the same numbers"""

    def __init__(self, ctx):
        self.ctx, self.np, self.seen = ctx, ctx.np, []

    def std(self, a, **k):
        if k:
            raise Unsupported("options of std")
        return self([v for v in a])

    def __call__(self, a):
        for b, s in self.seen:
            if len(a) == len(b) and all(eqt(p, q) for p, q in zip(a, b)):
                return s
        s = self.ctx.real("spread %d" % len(self.seen), 0, 6)
        self.seen.append((list(a), s))
        return s

    def __getattr__(self, k):
        return getattr(self.np, k)


P_VALUES = ((90., 90., 90., 90.), (90., 90., 90., 120.), (150., 150., 150., 150.), (170., 170., 170., 170.), (160., 160., 160., 160.))
T_VALUES = ((0., 10., 20., 30.), (0., 5., 10., 15.), (0., 5., 10., 20.), (-90., 30., 0., 10.))


@contract("stuck_in_theta", [FL + ".eval_move_flags"], crosscheck=False, max_paths=3000)
def stuck(ctx):
    """theta is reported stuck exactly when it could be tested (four points or more at one phi of at most 160 over 20 degrees of theta) and in no such test the scatter of the positions exceeds 0.1"""
    m = ctx.mod(FL)
    np = ctx.np
    if ctx.symbolic:
        groups = ctx.choice("groups", (1, 2))
        p, t = [], []
        for g in range(groups):
            q = ctx.choice("phi %d" % g, P_VALUES)
            p += [v + 3 * g for v in q] if q[0] < 150 else list(q)
            t += ctx.choice("theta %d" % g, T_VALUES)
        n = len(p)
        x, y = list(ctx.arr("x", n, -6, 6)), list(ctx.arr("y", n, -6, 6))
        spread = Spread(ctx)
        m.__dict__["np"] = spread
    else:
        r = ctx.seed()
        n = r.randint(1, 30)
        p = [float(v) for v in r.choice([10., 90., 130., 159.9, 160., 161., 175.], r.randint(1, 4))]
        p = [p[r.randint(len(p))] for _ in range(n)]
        t = [float(v) for v in r.uniform(-1, 1, n) * r.choice([8, 10.5, 100])]
        s = r.choice([1e-3, .05, .1, 1])
        x, y = [float(v) for v in r.uniform(-s, s, n)], [float(v) for v in r.uniform(-s, s, n)]
        # groups move differently
        k = {v: r.choice([0, .1, 1, 1]) for v in set(p)}
        x, y = [a * k[v] for a, v in zip(x, p)], [a * k[v] for a, v in zip(y, p)]
    with quiet():
        got = m.eval_move_flags(t, p, x, y)
    tested = moving = False
    for v in sorted(set(p)):
        i = [j for j in range(n) if p[j] == v]
        if len(i) < 4 or v > 160 or max(t[j] for j in i) - min(t[j] for j in i) < 20:
            continue
        tested = True
        k = len(i)
        var = 0
        for c in (x, y):
            if ctx.symbolic:
                s = spread([c[j] for j in i])
                var = var + s * s
                continue
            mean = sum(c[j] for j in i) / k
            var = var + sum((c[j] - mean)**2 for j in i) / k
        if ctx.symbolic:
            if ctx.known(var > ctx.lit("0.01")) or ctx.decide(var > ctx.lit("0.01")):
                moving = True
        else:
            if abs(var - .01) < 1e-9:
                return
            moving |= var > .01
    ctx.true("flag", int(got) == (m.movemask.THETA_STUCK if tested and not moving else 0))


def moves(r, n, seqs, home, petal, true=None):
    """a csv file of moves: rows in any order, with rows to leave out"""
    import datetime
    import numpy as np
    from astropy.table import Table as T
    s = np.sort(np.concatenate([np.arange(seqs), r.randint(0, seqs, n - seqs)]))
    t, p = r.uniform(-150, 150, n), r.uniform(20, 150, n)
    x, y = r.uniform(-200, 200, n), r.uniform(-200, 200, n)
    off = np.zeros((seqs, 2))
    if true is not None:
        import desimeter.transform.pos2ptl as A
        import desimeter.transform.ptl2fp as B
        off = np.where(np.isin(np.arange(seqs), home)[:, None], 0, r.uniform(-5, 5, (seqs, 2)))
        u, v = A.int2ptl(t + off[s, 0], p + off[s, 1], true["LENGTH_R1"], true["LENGTH_R2"], true["OFFSET_T"], true["OFFSET_P"], true["OFFSET_X"], true["OFFSET_Y"])
        x, y = B.ptl2fp(petal, u, v)[:2]
    when = datetime.datetime(2021, 3, 1) + datetime.timedelta(days=int(r.randint(300)))
    gaps = np.cumsum(r.uniform(.001, 1, n))
    dates = [(when + datetime.timedelta(days=float(g) * 4 / gaps[-1])).isoformat() for g in gaps]
    same = r.uniform(size=n) < (.15 if true is None else 0)
    count = 50 + np.cumsum(np.where(same, 0, r.randint(1, 4, n)))
    on = r.uniform(size=n) < (.9 if true is None else 2)
    note = [("arc calibration", "grid ; arc calibration", "other", "grid")[k] for k in r.randint(0, 4, n)] if true is None else ["arc calibration"] * n
    yes, no = (("True", "False"), ("yes", "no"), ("1", "0"), ("TRUE", "FALSE"))[r.randint(4)]
    t = T(dict(DATE=dates, POS_ID=["M00%03d" % 17] * n, POS_T=t, POS_P=p, X_FP=x, Y_FP=y, CTRL_ENABLED=[yes if k else no for k in on], TOTAL_MOVE_SEQUENCES=count, PETAL_LOC=[petal] * n,
               PETAL_ID=[petal + 2] * n, DEVICE_LOC=[88] * n, EXPOSURE_ID=3000 + 7 * s, LOG_NOTE=note, RECENT_REHOME=np.isin(s, home).astype(int), GEAR_CALIB_T=r.uniform(.9, 1, n),
               GEAR_CALIB_P=r.uniform(.9, 1, n)))
    if true is not None:
        t.remove_columns(["GEAR_CALIB_T", "GEAR_CALIB_P"])
    return t, off, when


class scratch(object):
    def __enter__(self):
        import tempfile
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d)


@contract("calibration_run", [H + ".run_best_fits", H + "._read", H + "._make_petal_xy", H + "._make_sec_from_epoch", H + "._str2bool"], kind="bounded", samples=(60, 1200))
def calibration_run(ctx):
    """whole runs on sampled files with the fit replaced by one that records its arguments: the rows fitted are those selected by the notes, enabled and moved, in order of time, in the windows of the
    given dates; drifting sequences keep one number in all windows; the static fits start from the defaults (or from the best fits of the rows after a rehoming, when there are others), the dynamic
    fits from the median of the best static fits; the report has one row for each window with the values of both"""
    import numpy as np
    from astropy.table import Table as T
    import dateutil.parser
    m = ctx.mod(H)
    r = ctx.seed()
    seqs = r.randint(1, 14)
    n = r.randint(60, 160)
    mixed = r.uniform() < .5 and seqs > 1
    home = [s for s in range(seqs) if r.uniform() < .5 or s == 0] if mixed else list(range(seqs))
    petal = int(r.randint(0, 10))
    t, _, _ = moves(r, n, seqs, home, petal)
    t = t[r.permutation(n)]
    text, words = ((None, [()]), ("arc", [("arc",)]), ("grid & arc | other", [("grid", "arc"), ("other",)]))[r.randint(3)]
    force = bool(r.uniform() < .2)
    reject = bool(r.uniform() < .5)
    period, window, q = r.choice([.3, .9, 2., 30.]), int(r.choice([3, 8, 20, 50, 500])), r.choice([.01, .3, .6, 1.])
    calls = []
    real = m.fitter.fit_params

    def fit_params(posintT=None, **k):
        i = len(calls)
        p = {c: float(v) for c, v in zip(ALL, r.uniform(1, 2, 8))}
        p["FLAGS"] = 0
        if k["mode"] == "static":
            for s in sorted({s for s, h in zip(k["sequence_id"], k["recent_rehome"]) if not h}):
                p["EPSILON_T_%d" % s], p["EPSILON_P_%d" % s] = r.uniform(-9, 9), r.uniform(-9, 9)
        keys = STATIC if k["mode"] == "static" else DYNAMIC
        cov = {"COV.%s.%s" % (a, b): float(r.uniform(1, 2)) if a in keys and b in keys else 0. for a in ALL for b in ALL}
        for a in ALL:
            for b in ALL:
                cov["COV.%s.%s" % (b, a)] = cov["COV.%s.%s" % (a, b)]
        rms = float(r.uniform(0, 1))
        calls.append((dict(k, posintT=posintT, nominals=dict(k["nominals"])), p, cov, rms))
        return p, cov, rms, len(posintT) - 1
    default = repr((m.fitter.default_values, m.fitter.default_bounds))
    with scratch() as d:
        t.write(d + "/in.csv")
        m.fitter.fit_params = fit_params
        try:
            with quiet():
                m.run_best_fits("M00017", d + "/in.csv", float(period), window, d, q, printf=silent, log_note_selection=text, force_recent_rehome=force, outlier_rejection=reject)
                out = T.read(d + "/M00017_paramfits.csv")
        except RuntimeError as e:
            none = not force and not any(h and any(all(w in s for w in a) for a in words) for h, s in zip(t["RECENT_REHOME"], t["LOG_NOTE"]))
            ctx.true("refused only without any move after a rehoming", none and "RECENT_REHOME" in str(e))
            return
        finally:
            m.fitter.fit_params = real
    ctx.true("defaults kept", repr((m.fitter.default_values, m.fitter.default_bounds)) == default)
    # the rows wanted, in order of time, identified by their POS_T
    sel = [i for i in range(n) if any(all(w in t["LOG_NOTE"][i] for w in a) for a in words)]
    ids = {e: k for k, e in enumerate(sorted({int(t["EXPOSURE_ID"][i]) for i in sel}))}
    on = [i for i in sel if str(t["CTRL_ENABLED"][i]).lower() in ("true", "yes", "1")]
    nc = len({int(t["TOTAL_MOVE_SEQUENCES"][i]) for i in on})
    if nc < 10:
        ctx.true("too few rows", len(calls) == 0 and list(out["FLAGS"]) == [m.movemask.INVALID_AFTER_FILTER])
        return
    by = {float(t["POS_T"][i]): i for i in range(n)}
    rehomed = {i: bool(force or t["RECENT_REHOME"][i]) for i in range(n)}
    # among rows without a move in between any one may be kept: learn it from the calls
    used = sorted({by[round(v, 12)] if round(v, 12) in by else by[min(by, key=lambda w: abs(w - v))] for c in calls for v in c[0]["posintT"]}, key=lambda i: t["DATE"][i])
    ctx.true("rows selected and enabled", all(i in on for i in used))
    ctx.true("one row for each move", len({int(t["TOTAL_MOVE_SEQUENCES"][i]) for i in used}) == len(used))
    sec = {i: dateutil.parser.parse(t["DATE"][i]).timestamp() for i in on}
    some_home = [i for i in used if rehomed[i]]
    statics = [c for c in calls if c[0]["mode"] == "static"]
    dynamics = [c for c in calls if c[0]["mode"] == "dynamic"]
    k = len(dynamics)
    first = statics[:-k] if k else []
    final = statics[-k:] if k else []
    ctx.true("one row for each window", len(out) == k)
    kept = {}
    for i in used:
        kept[int(t["TOTAL_MOVE_SEQUENCES"][i])] = i

    def rows(c):
        """rows of a call"""
        got = [by[min(by, key=lambda w: abs(w - v))] for v in c[0]["posintT"]]
        ctx.true("in order of time", all(t["DATE"][a] < t["DATE"][b] for a, b in zip(got, got[1:])))
        for name, col in (("posintT", "POS_T"), ("posintP", "POS_P"), ("gearT", "GEAR_CALIB_T"), ("gearP", "GEAR_CALIB_P")):
            ctx.eq("columns", c[0][name], [t[col][i] for i in got], tol=1e-12)
        ctx.true("rehoming", [bool(v) for v in c[0]["recent_rehome"]] == [rehomed[i] for i in got])
        ctx.true("sequences", [int(v) for v in c[0]["sequence_id"]] == [ids[int(t["EXPOSURE_ID"][i])] for i in got])
        X = ctx.mod("desimeter.transform.ptl2fp").fp2ptl(petal, np.array([t["X_FP"][i] for i in got]), np.array([t["Y_FP"][i] for i in got]))
        ctx.eq("petal coordinates", [c[0]["ptlX"], c[0]["ptlY"]], [X[0], X[1]], tol=1e-9)
        ctx.true("nothing held, own bounds", not c[0]["keep_fixed"] and c[0]["bounds"] == m.fitter.default_bounds and bool(c[0].get("outlier_rejection")) is reject)
        return got

    def check(cs, of):
        """the windows of these rows (of: in order of time, up to rows after the last date, which no window reaches)"""
        got = [rows(c) for c in cs]
        times = [sec[i] for i in of]
        move = lambda i: int(t["TOTAL_MOVE_SEQUENCES"][i])
        for g in got:
            first_pass = cs is first
            there = {move(i) for i in g}
            for c in {move(i) for i in on}:
                same = [i for i in on if move(i) == c]
                if all(sec[g[0]] < sec[i] < sec[g[-1]] for i in same) and (not first_pass or all(rehomed[i] for i in same)):
                    ctx.true("no move of the window left out", c in there)
        ctx.true("windows are runs of the rows", all(g == of[of.index(g[0]):of.index(g[0]) + len(g)] for g in got if g[0] in of))
        return got
    got = check(final, used)
    for a, b in zip(got, check(dynamics, used)):
        ctx.true("the same windows", a == b)
    if first:
        g0 = check(first, some_home)
        ctx.true("only moves after a rehoming first", all(rehomed[i] for g in g0 for i in g))
    ctx.true("a first pass only when there are other moves", bool(first) == (not all(rehomed[i] for i in used)) or len(used) < nc)
    plain = dict(m.fitter.default_values)

    def close(a, b):
        return set(a) == set(b) and all(abs(a[x] - b[x]) < 1e-9 for x in b)

    def best(cs, base):
        rms = [c[3] for c in cs]
        lim = np.percentile(rms, q * 100)
        good = [c[1] for c in cs if c[3] <= lim]
        res = dict(base)
        for x in {x for c in cs for x in c[1] if x != "FLAGS"}:
            v = [g[x] for g in good if x in g] or [c[1][x] for c in cs if x in c[1]]
            res[x] = float(np.median(v))
        return res
    start = best(first, plain) if first else plain
    ctx.true("static fits start from", all(close(c[0]["nominals"], plain) for c in first) and all(close(c[0]["nominals"], start) for c in final))
    then = best(final, plain)
    ctx.true("dynamic fits start from", all(close(c[0]["nominals"], then) for c in dynamics))
    order = sorted(range(k), key=lambda i: sec[got[i][-1]])
    ends = [float(v) for v in out["DATA_END_DATE_SEC"]]
    ctx.true("rows in order of time", ends == sorted(ends))
    for i in range(k):
        hit = [j for j in range(k) if abs(out["LENGTH_R1_STATIC"][j] - final[i][1]["LENGTH_R1"]) < 1e-9]
        ctx.true("a row for each window", len(hit) == 1)
        if len(hit) != 1:
            continue
        j = hit[0]
        row = out[j]
        for S, c in (("_STATIC", final[i]), ("_DYNAMIC", dynamics[i])):
            ctx.eq("values", [row[x + S] for x in c[1] if x != "FLAGS"], [c[1][x] for x in c[1] if x != "FLAGS"], tol=1e-12)
            ctx.eq("rms", row["FIT_ERROR" + S], c[3], tol=1e-12)
            ctx.true("points", row["NUM_POINTS_IN_FIT" + S] == len(got[i]) - 1)
            ctx.eq("errors", [row["ERR." + x + S]**2 for x in ALL], [c[2]["COV.%s.%s" % (x, x)] for x in ALL], tol=1e-9)
            keys = STATIC if S == "_STATIC" else DYNAMIC
            for a in keys:
                for b in keys:
                    x = "COV.%s%s.%s%s" % (a, S, b, S)
                    if a != b and x in out.colnames:
                        ctx.eq("covariances", row[x], c[2]["COV.%s.%s" % (a, b)], tol=1e-12)
        ctx.true("row", row["NUM_POINTS"] == len(got[i]) and row["POS_ID"] == "M00017" and row["FLAGS"] == 0 and (row["PETAL_LOC"], row["PETAL_ID"], row["DEVICE_LOC"]) == (petal, petal + 2, 88))
        ctx.true("dates", row["DATA_START_DATE"] == t["DATE"][got[i][0]] and row["DATA_END_DATE"] == t["DATE"][got[i][-1]])


@contract("true_calibration_reported", [H + ".run_best_fits"], kind="bounded", samples=(3, 40))
def true_run(ctx):
    """runs with the real fit on noiseless files of a known positioner: the reported static values are the true ones, the scales one, drifts included"""
    from astropy.table import Table as T
    m = ctx.mod(H)
    r = ctx.seed()
    true = dict(LENGTH_R1=r.uniform(2.8, 3.2), LENGTH_R2=r.uniform(2.8, 3.2), OFFSET_T=r.uniform(-170, 170), OFFSET_P=r.uniform(-10, 10), OFFSET_X=r.uniform(-150, 150),
                OFFSET_Y=r.uniform(-150, 150))
    seqs = r.randint(1, 4)
    t, off, _ = moves(r, 60, seqs, [0], int(r.randint(10)), true)
    if sum(t["RECENT_REHOME"]) < 15:
        return
    t = t[r.permutation(60)]
    with scratch() as d:
        t.write(d + "/in.csv")
        with quiet():
            m.run_best_fits("M00017", d + "/in.csv", 1000, 1000, d, .05, printf=silent)
            out = T.read(d + "/M00017_paramfits.csv")
    ctx.true("one window", len(out) == 1)
    for S in ("_STATIC", "_DYNAMIC"):
        for k, v in true.items():
            if k.startswith(("OFFSET_T", "OFFSET_P")):
                ctx.angle_eq("true value", out[k + S][0], v, tol=.2 if seqs > 1 else .02)
            else:
                ctx.eq("true value", out[k + S][0], v, tol=1e-3)
        for s in range(1, seqs):
            for i, a in enumerate("TP"):
                ctx.angle_eq("drift", out["EPSILON_%s_%d%s" % (a, s, S)][0], off[s, i], tol=.2)
        ctx.eq("scales", [out["SCALE_T" + S][0], out["SCALE_P" + S][0]], [1, 1], tol=2e-3)
