R2T = "py/desimeter/transform/radec2tan.py"
XY2TP = "py/desimeter/transform/xy2tp.py"
P2P = "py/desimeter/transform/pos2ptl.py"
P2F = "py/desimeter/transform/ptl2fp.py"
RSZN = "py/desimeter/transform/rszn_lookups.py"
ZB = "py/desimeter/transform/zhaoburge.py"
TRIG = "py/desimeter/trig.py"

seed("c01-lonlat-pole-clip", "C01", R2T,
"    return  arctan2d(xyz[1],xyz[0]) , arcsind(xyz[2])  # degrees",
"    return  arctan2d(xyz[1],xyz[0]) , arcsind(np.clip(xyz[2],-0.9999999,0.9999999))  # degrees (numerical safety)",
"a direction within about 90 arcsec of a pole of the target frame",
"latitudes are clipped close to the poles: conversions are no longer rotations there and do not invert",
"""
from desimeter.transform.radec2tan import radec2eclip, eclip2radec
worst = 0
for lon in (10., 130., 300.):
    for lat in (89.99, 89.999, -89.995, 45.):
        ra, dec = eclip2radec(lon, lat)
        l2, b2 = radec2eclip(ra, dec)
        worst = max(worst, abs(b2 - lat))
print("worst latitude error (deg)", worst)
sys.exit(1 if worst > 1e-6 else 0)
""")

seed("c02-depth-floor", "C02", R2T,
"    z = np.sqrt(1-x**2-y**2)\n    xyz = rh",
"    z = np.sqrt(np.maximum(1-x**2-y**2, 0.5)) # avoid nan\n    xyz = rh",
"a tangent-plane radius above 0.707",
"tangent plane to sky is no longer the inverse of sky to tangent plane",
"""
from desimeter.transform.radec2tan import hadec2xy, xy2hadec
x = np.array([0.01, 0.2, 0.5]); y = np.array([0.02, -0.3, 0.7])
x2, y2 = hadec2xy(*xy2hadec(x, y, 12., 31.), 12., 31.)
e = max(np.max(np.abs(x2 - x)), np.max(np.abs(y2 - y)))
print("worst error", e)
sys.exit(1 if e > 1e-9 else 0)
""")

seed("c04-tiny-misalignment", "C04", R2T,
"    if norme > 0 :", "    if norme > 1e-6 : # avoid dividing by a tiny number",
"a polar misalignment below 0.2 arcsec",
"tiny misalignments are ignored: the matrix does not carry the mount pole onto the celestial pole",
"""
from desimeter.transform.radec2tan import *
me, ma = 0.15, 0.05
m = compute_polar_misalignment_rotation_matrix(me_arcsec=me, ma_arcsec=ma)
p1 = getXYZ(*altaz2hadec(alt=LATITUDE - me / 3600., az=ma / 3600.))
p2 = getXYZ(*altaz2hadec(alt=LATITUDE, az=0.))
e = np.max(np.abs(m.dot(p1) - p2)) * 206265
print("pole missed by (arcsec)", e)
sys.exit(1 if e > 1e-3 else 0)
""")

seed("c05-refraction-floor", "C05", R2T,
"    return alt + REFRACTION_AT_30DEG_ELEVATION/3600.*tand(30.)/tand(alt)  # deg , refraction per point in field",
"    return alt + REFRACTION_AT_30DEG_ELEVATION/3600.*tand(30.)/tand(np.minimum(alt,89.))  # deg , refraction per point in field",
"an altitude within one degree of the zenith",
"refraction does not vanish at the zenith (it stays at 0.8 arcsec)",
"""
from desimeter.transform.radec2tan import apply_refraction
a = np.array([88.5, 89.2, 89.7, 89.99])
d = (apply_refraction(a) - a) * 3600
print(d)
sys.exit(1 if not np.all(np.diff(d) < -0.1) or d[-1] > 0.02 else 0)
""")

seed("c06-put360-single-turn", "C06", TRIG,
"    return degrees % 360\n", "    return np.where(np.asarray(degrees) < 0, np.asarray(degrees)+360., degrees)[()] # faster than a modulo\n",
"an angle more than one turn away from 0..360",
"angle normalisation leaves multi-turn angles out of range",
"""
from desimeter.trig import put360
bad = 0
for a in (10., -10., 725., -400., 360.):
    v = float(put360(a))
    if not (0 <= v < 360) or abs((v - a) / 360 - round((v - a) / 360)) > 1e-9:
        print(a, v); bad = 1
sys.exit(bad)
""")

seed("c07-sort-priority", "C07", XY2TP,
("            options.sort(key=lambda x: x['closeness_fail'])  # secondary sort\n            options.sort(key=lambda x: x['range_fail'])  # primary sort",),
("            options.sort(key=lambda x: x['range_fail'])  # secondary sort\n            options.sort(key=lambda x: x['closeness_fail'])  # primary sort",),
"a guess for theta, and one arm configuration that violates the limits but is closer to the guess than the valid one",
"an out-of-limits configuration near the guess is preferred over a valid one: a reachable target is reported unreachable",
"""
from desimeter.transform.xy2tp import xy2tp, tp2xy
bad = 0
rng = np.random.RandomState(3)
for _ in range(4000):
    r = [3., 3.]
    ranges = [[-180., 180.], [0., 175.]]
    tp = [rng.uniform(-170, 170), rng.uniform(5, 170)]
    xy = tp2xy(tp, r)
    g = rng.uniform(-180, 180)
    out, un = xy2tp(xy, r, ranges, t_guess=g, t_guess_tol=30.)
    if un:
        bad += 1
        continue
    q = tp2xy(out, r)
    if abs(q[0] - xy[0]) + abs(q[1] - xy[1]) > 1e-6:
        bad += 1
print("bad", bad)
sys.exit(1 if bad else 0)
""")

seed("c08-guess-frame", "C08", P2P,
"        t_ext_guess = int2ext(t_int_guess, t_offset)", "        t_ext_guess = _to_numpy(t_int_guess)",
"a theta guess together with an angular mounting offset comparable with the guess tolerance",
"the internal guess is used as an external angle: the inverse conversion returns the other arm configuration",
"""
from desimeter.transform.pos2ptl import int2loc, loc2int
rng = np.random.RandomState(5)
bad = 0
for _ in range(300):
    t, p = rng.uniform(-150, 150), rng.uniform(-15, 15)
    off = rng.choice([-80., -45., 45., 80.])
    x, y = int2loc(t, p, 3., 3., off, 0.)
    t2, p2, un = loc2int(x, y, 3., 3., off, 0., t_int_guess=t, t_guess_tol=1.)
    if un[0] or abs(t2[0] - t) > 1e-5 or abs(p2[0] - p) > 1e-5:
        bad += 1
print("bad", bad)
sys.exit(1 if bad > 5 else 0)
""")

seed("c09-exact-turns", "C09", P2P,
"    exact_circle = natural_delta % 360 == 0\n", "    exact_circle = (natural_delta % 360 == 0)&(np.abs(natural_delta)<=720)\n",
"three or more whole turns with the opposite direction requested",
"a whole turn requested in the opposite direction is returned as no travel",
"""
from desimeter.transform.pos2ptl import delta_angle
bad = 0
for n in (1, 2, 3, 4, -1, -3):
    for d in (1, -1):
        v = delta_angle(10., 10. + 360. * n, direction=d)[0]
        if abs(v - d * abs(n) * 360) > 1e-9:
            print(n, d, v); bad = 1
sys.exit(bad)
""")

seed("c10-contiguous-petals", "C10", P2F,
"        ii = np.where(spots['PETAL_LOC']==petal)[0]\n", "        ii = np.where(spots['PETAL_LOC']==petal)[0]\n        ii = slice(ii[0],ii[-1]+1) # a slice is faster than indices\n",
"a table in which the spots of different petals are interleaved",
"spots get the alignment of another petal when the table is not grouped by petal",
"""
from astropy.table import Table
from desimeter.transform.ptl2fp import apply_ptl2fp, ptl2fp
pet = np.array([3, 1, 3, 7, 1, 9])
x = np.linspace(100, 300, 6); y = np.linspace(-80, 90, 6); z = np.zeros(6)
t = Table(dict(PETAL_LOC=pet, X_PTL=x, Y_PTL=y, Z_PTL=z))
t = apply_ptl2fp(t)
e = 0
for i in range(6):
    a = ptl2fp(pet[i], x[i], y[i], z[i])
    e = max(e, abs(a[0][0] - t['X_FP'][i]), abs(a[1][0] - t['Y_FP'][i]))
print(e)
sys.exit(1 if e > 1e-9 else 0)
""")

seed("c11-clamped-arc", "C11", RSZN,
"    return np.interp(s, S, R, left=oob, right=oob)", "    return np.interp(s, S, R, left=oob)",
"an arc length beyond the end of the table",
"an out-of-range arc length is silently clamped instead of being flagged",
"""
from desimeter.transform import rszn_lookups as L
v = [L.s2r(L.S[-1] + 1.), L.s2n(L.S[-1] + 5.), L.s2z(1e4)]
print(v)
sys.exit(0 if np.all(np.isnan(v)) else 1)
""")

seed("c12-term-sign", "C12", ZB,
"        result =  0.5*getZ(18,x,y)+0.5*getZ(20,x,y), -0.5*getZ(19,x,y)+0.5*getZ(21,x,y), 'S26'  # n/a",
"        result =  0.5*getZ(18,x,y)+0.5*getZ(20,x,y), 0.5*getZ(19,x,y)+0.5*getZ(21,x,y), 'S26'  # n/a",
"use of the seldom used distortion term 24",
"term 24 is no longer a gradient",
"""
from desimeter.transform.zhaoburge import getZhaoBurgeTerm
bad = 0
h = 1e-5
for k in range(27):
    for x, y in ((0.3, 0.2), (-0.5, 0.4), (0.1, -0.7)):
        f = lambda u, v: getZhaoBurgeTerm(k, np.array([u]), np.array([v]))
        curl = (np.sum(f(x + h, y)[1]) - np.sum(f(x - h, y)[1]) - np.sum(f(x, y + h)[0]) + np.sum(f(x, y - h)[0])) / (2 * h)
        if abs(curl) > 1e-4:
            print(k, x, y, curl); bad = 1
sys.exit(bad)
""")

FV = "py/desimeter/transform/fvc2fp.py"
SC = "py/desimeter/simplecorr.py"
FM = "py/desimeter/fieldmodel.py"

seed("c13-one-axis-convergence", "C13", FV,
"            dmax = max(np.max(np.abs(dx2-dx)), np.max(np.abs(dy2-dy)))",
"            dmax = np.max(np.abs(dx2-dx))",
"points of the focal plane whose x distortion has converged (e.g. on the axis of a radial distortion) while y has not",
"the inversion stops too early: pixels and focal plane do not undo each other",
"""
from desimeter.transform.fvc2fp import FVC2FP
t = FVC2FP()
t.xfvc_scale, t.yfvc_scale, t.xfvc_offset, t.yfvc_offset = -3000., 3000., 3000., 3000.
t.scale, t.rotation, t.offset_x, t.offset_y = 1., 0., 0., 0.
t.zbpolids, t.zbcoeffs = np.array([9]), np.array([0.01])
x, y = np.zeros(3), np.array([100., 250., 400.])
X, Y = t.fvc2fp(*t.fp2fvc(x, y))
e = np.max(np.hypot(X - x, Y - y))
print("round trip error (mm)", e)
sys.exit(1 if e > 1e-6 else 0)
""")

seed("c14-rotation-by-sine", "C14", SC,
"        self.rot_deg = arctan2d(p[1], p[0])",
"        self.rot_deg = np.rad2deg(np.arcsin(np.clip(p[1], -1., 1.)))",
"a rigid fit of points related by a rotation of more than a quarter turn",
"the rigid fit returns the supplementary angle",
"""
from desimeter.simplecorr import SimpleCorr
from desimeter.trig import rot2deg
r = np.random.RandomState(1)
x, y = r.uniform(-1, 1, (2, 12))
w = 0
for a in (10., 80., 130., -170.):
    u, v = rot2deg(a).dot(np.array([x, y]))
    s = SimpleCorr()
    s.fit(x, y, u + 0.1, v - 0.2, solid=True)
    X, Y = s.apply(x, y)
    w = max(w, np.max(np.hypot(X - u - 0.1, Y - v + 0.2)))
print("worst", w)
sys.exit(1 if w > 1e-9 else 0)
""")

seed("c15-rotation-in-range", "C15", FM,
"        tx.rot_deg = params['rot_deg']", "        tx.rot_deg = params['rot_deg'] % 360.",
"a correction with a negative rotation angle",
"a reloaded guide-star correction does not have the saved parameters and does not write the same text",
"""
from desimeter.fieldmodel import TanCorr
w = 0
for a in (0., 1.5, -0.01):
    t = TanCorr()
    t.rot_deg = a
    s = TanCorr.fromjson(t.tojson())
    w = max(w, abs(s.rot_deg - t.rot_deg), float(s.tojson() != t.tojson()))
print("worst", w)
sys.exit(1 if w > 1e-12 else 0)
""")

seed("c22-single-wrap", "C22", FM,
"    ha = ha%360.\n    ha[ha>180.] -= 360.",
"    ha = ha*1.\n    ha[ha>180.] -= 360.\n    ha[ha<-180.] += 360.",
"sidereal time and right ascension more than one and a half turns apart (right ascension or sidereal time outside 0..360)",
"the rate is not periodic in the hour angle",
"""
from desimeter.fieldmodel import dfieldrotdt_empirical_model as f
w = 0
for ra, lst in ((10., 30.), (350., 5.), (-200., 380.), (-359., 355.)):
    w = max(w, abs(f(ra, 30., lst) - f(ra % 360, 30., lst % 360)))
print("worst", w)
sys.exit(1 if w > 1e-9 else 0)
""")

seed("c21-added-values", "C21", "py/desimeter/bitmask.py",
"                mask |= self._bits[name].mask", "                mask += self._bits[name].mask",
"a combination of names in which a name is repeated",
"the value of the combination is not the bitwise or",
"""
from desimeter.posparams.posflags_mask import posflags_mask as m
n = m.names()
bad = 0
for c, want in (([0, 1], None), ([2, 3, 2], None), ([1, 1], None), ([5, 0, 5, 1], None)):
    v = 0
    for i in c:
        v |= int(m[n[i]])
    bad += int(m.mask("|".join(n[i] for i in c))) != v
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c21-known-bits-only", "C21", "py/desimeter/bitmask.py",
"            while 2**bitnum <= mask:", "            top = max(x for x in self._bits.keys() if isinstance(x, int))\n            while 2**bitnum <= mask and bitnum <= top + 8:",
"a mask with an undefined bit far above the highest defined one",
"the undefined bit is not reported",
"""
from desimeter.posparams.movemask import movemask as m
bad = 0
for v in (1, 5, 33, 2**12 + 1, 2**20, 2**40 + 2):
    want = [k for k in range(v.bit_length()) if v >> k & 1]
    bad += len(m.names(v)) != len(want)
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c25-spaces-inside-range", "C25", "py/desimeter/util.py",
"        sub = sub.replace(' ','')", "        sub = sub.strip(' ').replace(': ',':').replace('- ','-')",
"a range written with a space before the separator, or with spaces around '..'",
"a well-formed list is refused",
"""
from desimeter.util import parse_fibers
bad = 0
for s, want in (("1: 4", [1, 2, 3]), (" 7 , 2 - 4", [7, 2, 3]), ("1 .. 3,9", [1, 2, 9])):
    try:
        bad += list(parse_fibers(s)) != want
    except SystemExit:
        bad += 1
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c25-stale-labels", "C25", "py/desimeter/findfiducials.py",
["            spots.add_column(Column(np.zeros(nspots,dtype=int)),name=k)\n    spots[\"LOCATION\"][:]=-1",
 "    spots[\"PETAL_LOC\"][:]=-1\n    spots[\"DEVICE_LOC\"][:]=-1\n    spots[\"PINHOLE_ID\"][:]=0\n"],
["            spots.add_column(Column(np.zeros(nspots,dtype=int) - (k!='PINHOLE_ID')),name=k)\n    spots[\"LOCATION\"][:]=-1",
 "    spots[\"PINHOLE_ID\"][:]=0\n"],
"a table of spots that already carries labels",
"spots that are not matched keep the petal and device numbers of an earlier labelling",
"""
from astropy.table import Table
from desimeter import io
from desimeter.findfiducials import findfiducials
from desimeter.transform.fvc2fp import FVC2FP
m = io.load_metrology()
m = m[(m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF")]
x, y = FVC2FP.read_jsonfile(io.fvc2fp_filename()).fp2fvc(np.array(m["X_FP"]), np.array(m["Y_FP"]))
t = Table({"XPIX": np.append(x, [2950., 3010.]), "YPIX": np.append(y, [3030., 3000.])})
t = findfiducials(t)
t["XPIX"][:8] += 300.
t = findfiducials(t)
off = t["LOCATION"] < 0
bad = int(np.sum((t["PETAL_LOC"][off] != -1) | (t["DEVICE_LOC"][off] != -1)))
print("unmatched", int(np.sum(off)), "stale", bad)
sys.exit(1 if bad else 0)
""")

seed("c17-second-claim-only", "C17", "py/desimeter/match.py",
"                    indices_2[jj[kk[1:]]] = -1", "                    indices_2[jj[kk[-1]]] = -1",
"an entry of the second catalog that is the nearest of three or more entries of the first",
"two entries of the first catalog are matched to the same entry of the second",
"""
from desimeter.match import match_same_system
r = np.random.RandomState(3)
bad = 0
for t in range(20):
    x2, y2 = r.uniform(0, 100, (2, 6))
    x1, y1 = np.append(x2, x2[2] + np.array([0.4, -0.5, 0.7])), np.append(y2, y2[2] + np.array([0.3, 0.2, -0.6]))
    i, d = match_same_system(x1, y1, x2, y2)
    j = i[i >= 0]
    bad += len(set(j)) != len(j)
print("one-to-one broken", bad)
sys.exit(1 if bad else 0)
""")

seed("c17-smallest-key", "C17", "py/desimeter/match_positioners.py",
"    m = (ind >= 0) & (ind < len(a))", "    m = (ind > 0) & (ind < len(a))",
"the smallest key of the first list being present in the second",
"the pair of the smallest key is not returned",
"""
from desimeter.match_positioners import match
bad = 0
for a, b in (([5, 2, 9], [9, 5, 7]), ([3, 8, 1, 4], [8, 1, 6]), ([7, 6], [1, 6, 7])):
    a, b = np.array(a), np.array(b)
    i, j = match(a, b)
    bad += len(i) != len(set(a) & set(b))
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c19-short-chords", "C19", "py/desimeter/circles.py",
"    ok = (denom!=0)", "    ok = (np.abs(denom)>1e-3)",
"points gathered on a short arc of a circle of small radius",
"intersections of the bisectors of short chords are replaced by chord midpoints, so that a good circle is refused",
"""
from desimeter.circles import fit_circle
bad = 0
for n in (6, 9, 14):
    for r in (1.2, 3., 4.5):
        for arc in (0.12, 0.5, 3.):
            p = 0.7 + np.linspace(0, arc, n)
            try:
                x, y, q = fit_circle(2 + r * np.cos(p), -5 + r * np.sin(p))
                bad += abs(q - r) > 1e-4 or np.hypot(x - 2, y + 5) > 1e-4
            except ValueError:
                bad += 1
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c19-relative-outlier", "C19", "py/desimeter/circles.py",
"(res[worst] < minerr) :", "(res[worst] < minerr*r) :",
"an outlier between 0.1 mm and 0.1 times the radius away from the circle",
"the outlier is kept and biases the circle",
"""
from desimeter.circles import robust_fit_circle
bad = 0
for r in (1.5, 3., 4.5):
    for off in (0.12, 0.2, 1.):
        p = 0.7 + np.linspace(0, 6, 14)
        q = np.full(14, r)
        q[4] += off
        x, y, s, ok = robust_fit_circle(2 + q * np.cos(p), -5 + q * np.sin(p))
        bad += list(np.where(~ok)[0]) != [4] or abs(s - r) > 1e-6
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c19-four-points", "C19", "py/desimeter/circles.py",
"    i2=(i1+nn//2-1)%nn", "    i2=(i1+(nn-3)//2)%nn",
"exactly four points",
"for four points every chord has no length and the centre is not found",
"""
from desimeter.circles import _fast_fit_circle
bad = 0
for n in range(4, 16):
    p = 0.7 + np.linspace(0, 5, n)
    x, y, q = _fast_fit_circle(2 + 3 * np.cos(p), -5 + 3 * np.sin(p))
    bad += abs(q - 3) > 1e-6 or np.hypot(x - 2, y + 5) > 1e-6
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c18-rows-and-columns", "C18", "py/desimeter/detectspots.py",
["        i0=index//n1", "        i1=index%n1"], ["        i0=index//n0", "        i1=index%n0"],
"an image with different numbers of rows and columns",
"the peaks of a rectangular image are measured at the wrong place",
"""
from desimeter.detectspots import detectspots, psf
bad = 0
for n0, n1 in ((60, 60), (50, 70), (80, 40)):
    ii, jj = np.mgrid[0:n0, 0:n1]
    im = 30000. * psf(ii, jj, 20.3, 30.2, 1.) + 10 + np.random.RandomState(1).normal(0, 3, (n0, n1))
    im += 30000. * psf(ii, jj, 11.4, 13.7, 1.)
    try:
        t = detectspots(im)
        ok = len(t) == 2 and abs(t["XPIX"][np.argmax(t["YPIX"])] - 20.3) < 0.05 and abs(np.max(t["YPIX"]) - 30.2) < 0.05
    except Exception:
        ok = False
    bad += not ok
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c18-removed-duplicate", "C18", "py/desimeter/detectspots.py",
"if counts[bad]<counts[index_to_remove] : index_to_remove=bad", "if counts[bad]<counts[index_to_remove] and xpix[bad]<xpix[index_to_remove] : index_to_remove=bad",
"two detections of a same spot, the faintest first in the list and on the right",
"the brightest detection of the pair is removed",
"""
import desimeter.detectspots as m
bad = 0
r = np.random.RandomState(3)
ii, jj = np.mgrid[0:40, 0:40]
for k in range(4):
    im = r.normal(10, 3, (40, 40))
    p = {(12, 20): (0.6, 0.4, 6000.), (13, 21 - 2): (-0.4, 0.9, 30000.)} if k % 2 else {(12, 19): (0.2, 0.6, 6000.), (13, 20): (0.3, -0.3, 30000.)}
    for (a, b) in p:
        im[a, b] = 30000.
    im[30, 30] = 20000.
    keep = m.gaussian_convolve, m.fitcentroid
    m.gaussian_convolve = lambda im, s=1.: im * 1.
    seq = iter([p[q] for q in sorted(p)] + [(0., 0., 9000.)])

    def fit(stamp, **kw):
        y, x, c = next(seq)
        return x, y, 1., 1., c
    m.fitcentroid = fit
    t = m.detectspots(im)
    m.gaussian_convolve, m.fitcentroid = keep
    bad += 30000. not in list(t["COUNTS"])
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c18-derivative-width", "C18", "py/desimeter/detectspots.py",
"    return -a*0.25*2/np.sqrt(np.pi)*(erf(a*(i1+0.5-xc))-erf(a*(i1-0.5-xc)))*(np.exp(", "    return -a*a*0.25*np.sqrt(8/np.pi)*(erf(a*(i1+0.5-xc))-erf(a*(i1-0.5-xc)))*(np.exp(",
"a spot width other than one pixel",
"the derivative of the profile with the row is not its derivative",
"""
from desimeter.detectspots import psf, dpsfdyc, dpsfdxc
bad = 0
for s in (0.7, 1., 1.6):
    for y in (3.2, 5.6):
        h = 1e-5
        d = (psf(4., 5., 5.3, y + h, s) - psf(4., 5., 5.3, y - h, s)) / 2 / h
        bad += abs(d - dpsfdyc(4., 5., 5.3, y, s)) > 1e-6
        d = (psf(4., 5., 5.3 + h, y, s) - psf(4., 5., 5.3 - h, y, s)) / 2 / h
        bad += abs(d - dpsfdxc(4., 5., 5.3, y, s)) > 1e-6
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c24-predicted-elsewhere", "C24", "py/desimeter/turbulence.py",
"            xturb, yturb = turb[:len(predict_at[0])], turb[len(predict_at[0]):]", "            xturb, yturb = turb[:len(data)], turb[-len(predict_at[0]):]",
"prediction of the gradient model at more places than there are data",
"the x offsets are given for another number of places than asked",
"""
from desimeter.turbulence import solve_gradwavefront
r = np.random.RandomState(0)
bad = 0
for n, q in ((9, 9), (9, 4), (6, 12)):
    d = np.zeros(n, dtype=[(k, "f8") for k in ("x", "y", "dx", "dy")])
    d["x"], d["y"] = r.uniform(-100, 100, (2, n))
    d["dx"], d["dy"] = r.normal(size=(2, n)) * 0.005
    u, v, _ = solve_gradwavefront(d, predict_at=tuple(r.uniform(-100, 100, (2, q))), fix_covar=True)
    bad += len(u) != q or len(v) != q
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c24-noise-scale", "C24", "py/desimeter/turbulence.py",
"            covar -= np.eye(len(data))*res.x[0]**2", "            covar -= np.eye(len(data))*res.x[1]**2/scale_covar**2",
"a covariance scale other than 1 (pixels of the camera instead of mm)",
"the noise is not removed from the covariance used to smooth the offsets",
"""
from desimeter.turbulence import solve_independent
r = np.random.RandomState(0)
bad = 0
for sc in (1, 2, 13.):
    n = 12
    d = np.zeros(n, dtype=[(k, "f8") for k in ("x", "y", "dx", "dy")])
    d["x"], d["y"] = r.uniform(-100, 100, (2, n)) * sc
    d["dx"], d["dy"] = r.normal(size=(2, n)) * 0.005 * sc
    u, v, res = solve_independent(d, fix_covar=True, scale_covar=sc)
    K = (0.005 * sc) ** 2 * np.exp(-((d["x"][:, None] - d["x"]) ** 2 + (d["y"][:, None] - d["y"]) ** 2) / 2 / (50. * sc) ** 2)
    w = K @ np.linalg.solve(K + (0.005 * sc) ** 2 * np.eye(n), d["dx"])
    bad += np.abs(u - w).max() > 1e-8 * sc
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c24-quartic-gradient", "C24", "py/desimeter/turbulence.py",
"            polys[cnt, N:] = i2 * x**i1 * y**(i2 - 1 + (i2 == 0))", "            polys[cnt, N:] = np.minimum(i2, 3) * x**i1 * y**(i2 - 1 + (i2 == 0))",
"polynomials of degree four or more",
"one of the quartic vectors is not the gradient of a potential",
"""
from desimeter.turbulence import getpoly
bad = 0
for nd in range(1, 6):
    x, y = np.array([0., 1.3, -2.]), np.array([0.5, -1.1, 0.])
    p, k = getpoly(x, y, ndeg=nd), 0
    for d in range(1, nd + 1):
        for j in range(d + 1):
            f = lambda u, v: u ** j * v ** (d - j)
            g = np.concatenate([(f(x + 1e-5, y) - f(x - 1e-5, y)) / 2e-5, (f(x, y + 1e-5) - f(x, y - 1e-5)) / 2e-5])
            bad += np.abs(g - p[k]).max() > 1e-5
            k += 1
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

C26H = """
import contextlib, io
import desimeter.posparams.fitter as F
import desimeter.transform.pos2ptl as P
L = lambda v: [float(a) for a in v]
def fit(*a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return F.fit_params(*a, **k)[0]
p = dict(LENGTH_R1=3.1, LENGTH_R2=2.9, OFFSET_T=70., OFFSET_P=5., OFFSET_X=200., OFFSET_Y=-40.)
"""

seed("c26-gear-of-the-previous-move", "C26", "py/desimeter/posparams/fitter.py",
"        dp_int /= gearP[1:]", "        dp_int /= gearP[:-1]",
"gear calibrations that change in the course of the measurements (dynamic mode)",
"the phi scale is that of the calibration before, not of the one in place at the move",
C26H + """
r = np.random.RandomState(0)
n = 20
t, q = r.uniform(-70, 70, n), r.uniform(40, 140, n)
gt, gp = np.full(n, 0.9), np.where(np.arange(n) < 9, 0.6, 1.)
ct = np.concatenate([[0.], np.cumsum(np.diff(t) * gt[1:] / 0.8)])
cp = np.concatenate([[0.], np.cumsum(np.diff(q) * gp[1:] / 0.7)])
x, y = P.int2ptl(t, q, p["LENGTH_R1"], p["LENGTH_R2"], p["OFFSET_T"], p["OFFSET_P"], p["OFFSET_X"], p["OFFSET_Y"])
nom = dict(F.default_values); nom.update(p)
b = fit(L(ct), L(cp), L(x), L(y), L(gt), L(gp), [True] * n, [1] * n, mode="dynamic", nominals=nom)
print(b)
sys.exit(1 if abs(b["SCALE_T"] - 0.8) > 0.002 or abs(b["SCALE_P"] - 0.7) > 0.002 else 0)
""")

seed("c26-small-drift", "C26", "py/desimeter/posparams/fitter.py",
"                bounds[k]=(-200.,200)", "                bounds[k]=bounds['OFFSET_P']",
"a second sequence without rehoming, with a drift beyond 30 degrees",
"the drift is limited to the bounds of the phi offset, and the calibration is wrong",
C26H + """
t = np.concatenate([np.linspace(-150, 150, 12), np.full(12, 10.)])
q = np.concatenate([np.full(12, 135.), np.linspace(20, 160, 12)])
bad = 0
for drift in (10., 45.):
    e = np.array([0.] * 24 + [drift] * 24)
    tt, qq = np.tile(t, 2), np.tile(q, 2)
    x, y = P.int2ptl(tt, qq, p["LENGTH_R1"], p["LENGTH_R2"], p["OFFSET_T"] + e, p["OFFSET_P"], p["OFFSET_X"], p["OFFSET_Y"])
    b = fit(L(tt), L(qq), L(x), L(y), [1.] * 48, [1.] * 48, [True] * 24 + [False] * 24, [1] * 24 + [2] * 24)
    bad += abs(b["EPSILON_T_2"] - drift) > 0.05 or abs(b["OFFSET_T"] - 70) > 0.05
print("wrong", bad)
sys.exit(1 if bad else 0)
""")

seed("c26-sequence-shifted", "C26", "py/desimeter/posparams/fitter.py",
"        sequence_id   = sequence_id[1:]", "        sequence_id   = sequence_id[:-1]",
"two sequences with different drifts in dynamic mode",
"the move across the change of sequence is compared with the drift of the wrong sequence",
C26H + """
r = np.random.RandomState(1)
n = 16
t, q = r.uniform(-70, 70, n), r.uniform(40, 140, n)
seq = [1] * 8 + [2] * 8
e = np.where(np.array(seq) == 2, 25., 0.)
ct = np.concatenate([[0.], np.cumsum(np.diff(t) / 0.8)])
cp = np.concatenate([[0.], np.cumsum(np.diff(q) / 0.7)])
x, y = P.int2ptl(t, q, p["LENGTH_R1"], p["LENGTH_R2"], p["OFFSET_T"] + e, p["OFFSET_P"], p["OFFSET_X"], p["OFFSET_Y"])
nom = dict(F.default_values); nom.update(p); nom.update(EPSILON_T_2=25., EPSILON_P_2=0.)
b = fit(L(ct), L(cp), L(x), L(y), [1.] * n, [1.] * n, [True] * 8 + [False] * 8, seq, mode="dynamic", nominals=nom)
print(b)
sys.exit(1 if abs(b["SCALE_T"] - 0.8) > 0.002 or abs(b["SCALE_P"] - 0.7) > 0.002 else 0)
""")

C03H = """
import desimeter.transform.radec2tan as R
from desimeter.trig import getXYZ
def worst(tel, mjd, lst, **o):
    r = np.random.RandomState(0)
    ra, dec = tel[0] + r.uniform(-1, 1, 20), tel[1] + r.uniform(-1, 1, 20)
    x, y = R.radec2tan(ra, dec, *tel, mjd, lst, 0.1, **o)
    a, b = R.tan2radec(x, y, *tel, mjd, lst, 0.1, **o)
    return np.linalg.norm(getXYZ(a, b) - getXYZ(ra, dec), axis=0).max() * 206265
"""

seed("c03-pointing-without-astropy", "C03", "py/desimeter/transform/radec2tan.py",
"""    if aberration :
        tel_ra,tel_dec = apply_aberration(tel_ra,tel_dec,mjd, use_astropy)

    tel_ha = lst_deg - tel_ra""", """    if aberration :
        tel_ra,tel_dec = apply_aberration(tel_ra,tel_dec,mjd)

    tel_ha = lst_deg - tel_ra""",
"the option use_astropy",
"the pointing gets the approximate aberration, the stars the one of astropy",
C03H + """
w = [worst((150., 20.), mjd, 160., use_astropy=True) for mjd in (58800., 58900., 59000.)]
print("worst", w)
sys.exit(1 if max(w) > 0.05 else 0)
""")

seed("c03-tabulated-both-ways", "C03", "py/desimeter/transform/radec2tan.py",
"            polar_misalignment_matrix = get_hardcoded_polmis_rotmat(inverse=True)", "            polar_misalignment_matrix = get_hardcoded_polmis_rotmat(inverse=bool(ME_ARCSEC>0))",
"the tabulated misalignment matrices",
"the way back applies the misalignment once more instead of undoing it",
C03H + """
w = [worst((150., 20.), 58800., 160., use_hardcoded_polmis_rotmat=q) for q in (False, True)]
print("worst", w)
sys.exit(1 if max(w) > 0.05 else 0)
""")

C23H = """
from desimeter.fieldmodel import FieldModel
def model(**k):
    f = FieldModel()
    f.ra, f.dec, f.mjd, f.lst, f.hexrot_deg, f.adc1, f.adc2 = 150., 20., 59000., 160., 1.1, 20., 340.
    for a in k:
        setattr(f, a, k[a])
    return f
def worst(f):
    r = np.random.RandomState(0)
    q, p = 400 * np.sqrt(r.uniform(0, 1, 50)), r.uniform(0, 6.28, 50)
    x, y = q * np.cos(p), q * np.sin(p)
    a, b = f.radec2fp(*f.fp2radec(x, y))
    return np.hypot(a - x, b - y).max() * 1000
"""

seed("c23-aberration-always", "C23", "py/desimeter/fieldmodel.py",
"        x_tan,y_tan = radec2tan(ra,dec,self.ra,self.dec,mjd=self.mjd,lst_deg=self.lst,hexrot_deg = self.hexrot_deg, precession = self.precession, aberration = self.aberration, polar_misalignment = self.polar_misalignment)\n        x_tan,y_tan = self.tancorr_sky2inst",
"        x_tan,y_tan = radec2tan(ra,dec,self.ra,self.dec,mjd=self.mjd,lst_deg=self.lst,hexrot_deg = self.hexrot_deg, precession = self.precession, polar_misalignment = self.polar_misalignment)\n        x_tan,y_tan = self.tancorr_sky2inst",
"a field model with aberration switched off",
"the way to the focal plane applies aberration although the model has none",
C23H + """
w = [worst(model(aberration=a)) for a in (True, False)]
print("micrometres", w)
sys.exit(1 if max(w) > 1 else 0)
""")

seed("c23-rotation-before-scales", "C23", "py/desimeter/fieldmodel.py",
"        xy=rot_matrix.dot(scale_matrix.dot(np.array([x,y])))", "        xy=scale_matrix.dot(rot_matrix.dot(np.array([x,y])))",
"unequal scales together with a rotation of the field",
"the inverse correction applies rotation and scales in the order of the correction itself",
C23H + """
w = [worst(model(sxx=a, syy=b, fieldrot_zp_deg=t)) for a, b, t in ((1.01, 1.01, 3.), (1.01, 0.99, 0.), (1.01, 0.995, 0.2))]
print("micrometres", w)
sys.exit(1 if max(w) > 1 else 0)
""")

C20H = """
import logging; logging.disable(50)
import desimeter.fiberassign as F
from desimeter.transform.radec2tan import xy2hadec
from desimeter.trig import getXYZ
def targets(tile_ra, tile_dec):
    r = np.random.RandomState(0)
    q, p = np.deg2rad(1.5 * np.sqrt(r.uniform(0, 1, 100))), r.uniform(0, 6.28, 100)
    h, d = xy2hadec(q * np.cos(p), q * np.sin(p), -tile_ra, tile_dec)
    return np.append(-h, tile_ra), np.append(d, tile_dec)
"""

seed("c20-dispersion-frozen-late", "C20", "py/desimeter/fiberassign.py",
"    zd = np.minimum(zd, 60.) # saturate zenith angle\n    t = np.tan(np.deg2rad(zd))", "    t = np.minimum(np.tan(np.deg2rad(zd)), 2.) # saturate\n    t = np.abs(t)",
"a zenith distance above 60 degrees",
"the dispersion angle goes on increasing up to 63.4 degrees",
C20H + """
a, b = F.pm_zd2deltaadc(np.array([60., 61., 65., 80.])), F.pm_zd2deltaadc(60.)
print(a)
sys.exit(1 if np.max(np.abs(a - b)) > 1e-6 else 0)
""")

seed("c20-single-pointing-step", "C20", "py/desimeter/fiberassign.py",
"""    for _ in range(2) :

        xtan,ytan = radec2tan(np.array([tile_ra]),np.array([tile_dec]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_0,yfp_0   = tan2fp(xtan,ytan,adc1,adc2) #mm
        #log.info("Temp tile center in FP coordinates = {},{} mm".format(xfp_0[0],yfp_0[0]))

        # numeric derivative
        eps = 1./3600. #
        xtan,ytan = radec2tan(np.array([tile_ra+eps]),np.array([tile_dec]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_dra,yfp_dra   = tan2fp(xtan,ytan,adc1,adc2) #mm
        xtan,ytan = radec2tan(np.array([tile_ra]),np.array([tile_dec+eps]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_ddec,yfp_ddec   = tan2fp(xtan,ytan,adc1,adc2) #mm
        dxdra=(xfp_dra[0]-xfp_0[0])/eps
        dydra=(yfp_dra[0]-yfp_0[0])/eps
        dxddec=(xfp_ddec[0]-xfp_0[0])/eps
        dyddec=(yfp_ddec[0]-yfp_0[0])/eps
        J=[[dxdra,dxddec],[dydra,dyddec]]

        # solve linear system to get tile RA Dec at center of fov
        Jinv=np.linalg.inv(J)
        X=Jinv.dot([xfp_0[0],yfp_0[0]])
        dra=X[0]
        ddec=X[1]

        # apply offset to telescope pointing
        tel_ra += dra
        tel_dec += ddec

    # verify""", """    for _ in range(2) :

        xtan,ytan = radec2tan(np.array([tile_ra]),np.array([tile_dec]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_0,yfp_0   = tan2fp(xtan,ytan,adc1,adc2) #mm
        if np.hypot(xfp_0[0],yfp_0[0])<0.01 : break # converged

        # numeric derivative
        eps = 1./3600. #
        xtan,ytan = radec2tan(np.array([tile_ra+eps]),np.array([tile_dec]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_dra,yfp_dra   = tan2fp(xtan,ytan,adc1,adc2) #mm
        xtan,ytan = radec2tan(np.array([tile_ra]),np.array([tile_dec+eps]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_ddec,yfp_ddec   = tan2fp(xtan,ytan,adc1,adc2) #mm
        dxdra=(xfp_dra[0]-xfp_0[0])/eps
        dydra=(yfp_dra[0]-yfp_0[0])/eps
        dxddec=(xfp_ddec[0]-xfp_0[0])/eps
        dyddec=(yfp_ddec[0]-yfp_0[0])/eps
        J=[[dxdra,dxddec],[dydra,dyddec]]

        # solve linear system to get tile RA Dec at center of fov
        Jinv=np.linalg.inv(J)
        X=Jinv.dot([xfp_0[0],yfp_0[0]])
        dra=X[0]
        ddec=X[1]

        # apply offset to telescope pointing
        tel_ra += dra
        tel_dec += ddec

    # verify""",
"a tile at high declination with a large shift of the corrector",
"the pointing stops with the tile centre up to ten micrometres off the focal plane centre",
C20H + """
w = []
for dec, ha in ((10., 5.), (78., 35.), (79.5, -45.)):
    ra, d = targets(100., dec)
    for a in (0., 60., 120., 180., 240., 300.):
        x, y = F.fiberassign_radec2xy_cs5(ra, d, 100., dec, 59300., ha, 0., adc1=a, adc2=a + 170., to_platemaker=False)
        w.append(np.hypot(x[-1], y[-1]) * 1000)
print("micrometres", max(w))
sys.exit(1 if max(w) > 1 else 0)
""")

seed("c20-zero-angle-is-none", "C20", "py/desimeter/fiberassign.py",
"""    assert(ra.size == dec.size)

    # LST from HA
    lst=tile_ha+tile_ra

    if ( (adc1 is None) and (adc2 is not None) ) or ( (adc1 is not None) and (adc2 is None) ) :
        raise ValueError("either set both adc angles or none")

    if adc1 is None :
""", """    assert(ra.size == dec.size)

    # LST from HA
    lst=tile_ha+tile_ra

    if ( (adc1 is None) and (adc2 is not None) ) or ( (adc1 is not None) and (adc2 is None) ) :
        raise ValueError("either set both adc angles or none")

    if not adc1 :
""",
"a first corrector angle of exactly zero",
"given corrector angles are replaced by the default ones on the way to the focal plane",
C20H + """
w = []
for a1 in (20., 0.):
    ra, d = targets(100., 30.)
    x, y = F.fiberassign_radec2xy_cs5(ra, d, 100., 30., 59300., 40., 0.1, adc1=a1, adc2=150.)
    a, b = F.fiberassign_cs5_xy2radec(x, y, 100., 30., 59300., 40., 0.1, adc1=a1, adc2=150.)
    X, Y = F.fiberassign_radec2xy_cs5(ra, d, 100., 30., 59300., 40., 0.1, adc1=a1 + 1e-7, adc2=150.)
    w.append(np.hypot(x - X, y - Y).max() * 1000)
print("micrometres between angles 0 and 1e-7", w)
sys.exit(1 if max(w) > 1 else 0)
""")

seed("c20-flat-assumes-platemaker", "C20", "py/desimeter/fiberassign.py",
"xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fieldrot,adc1=adc1,adc2=adc2,from_platemaker=from_platemaker, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)",
"xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fieldrot,adc1=adc1,adc2=adc2,from_platemaker=bool(from_platemaker or adc1 is None), use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)",
"flattened coordinates not from platemaker, default corrector angles",
"the platemaker transform is undone although it was not applied",
C20H + """
w = []
for k in ({}, dict(adc1=20., adc2=150.)):
    for pm in (True, False):
        ra, d = targets(100., 30.)
        x, y = F.fiberassign_radec2xy_flat(ra, d, 100., 30., 59300., 40., 0.1, to_platemaker=pm, **k)
        a, b = F.fiberassign_flat_xy2radec(x, y, 100., 30., 59300., 40., 0.1, from_platemaker=pm, **k)
        w.append(np.linalg.norm(getXYZ(a, b) - getXYZ(ra, d), axis=0).max() * 206265)
print("arcsec", w)
sys.exit(1 if max(w) > 0.1 else 0)
""")

seed("c16-polar-axis-remembered", "C16", "py/desimeter/transform/radec2tan.py",
['''def compute_polar_misalignment_rotation_matrix(me_arcsec,ma_arcsec) :
''', '''    ha1,dec1=altaz2hadec(alt=LATITUDE-me_arcsec/3600.,az=ma_arcsec/3600.)
''', '''        polar_misalignment_rotation = np.eye(3)

    return polar_misalignment_rotation
'''],
['''_polar_misalignment_rotations = {}

def compute_polar_misalignment_rotation_matrix(me_arcsec,ma_arcsec) :
''', '''    key = (int(np.round(me_arcsec)),int(np.round(ma_arcsec)))
    if key in _polar_misalignment_rotations :
        return _polar_misalignment_rotations[key]

    ha1,dec1=altaz2hadec(alt=LATITUDE-me_arcsec/3600.,az=ma_arcsec/3600.)
''', '''        polar_misalignment_rotation = np.eye(3)

    _polar_misalignment_rotations[key] = polar_misalignment_rotation
    return polar_misalignment_rotation
'''],
"two misalignments which agree to the arcsecond, one after the other",
"the rotation matrix of the second is that of the first",
"""
import desimeter.transform.radec2tan as R
f = R.compute_polar_misalignment_rotation_matrix
f(41.6, 12.4)
a = f(42.4, 11.6)
x = R.getXYZ(*R.altaz2hadec(alt=R.LATITUDE - 42.4 / 3600., az=11.6 / 3600.))
err = np.linalg.norm(a.dot(x) - R.getXYZ(*R.altaz2hadec(alt=R.LATITUDE, az=0.))) * 206265
print("pole displaced by arcsec", err)
sys.exit(1 if err > 0.1 else 0)
""")

seed("c16-corrector-coefficients-remembered", "C16", "py/desimeter/transform/tan2fp/raytracefit.py",
['''        dadc_array = self.adc2-self.adc1
        sorted_indices''', '''        dadc_arg   = delta_angles_adc(adc1, adc2)

        scale    = interp1d''', '''        return scale,rotation,offset_x,offset_y,zbcoeffs

    def tan2fp'''],
['''        dadc_arg   = delta_angles_adc(adc1, adc2)
        if getattr(self, "_last_angle", None) is not None and np.all(np.abs(self._last_angle-dadc_arg)<0.5) :
            return self._last_coeffs # within the accuracy of the encoders

        dadc_array = self.adc2-self.adc1
        sorted_indices''', '''        scale    = interp1d''', '''        self._last_angle = dadc_arg
        self._last_coeffs = scale,rotation,offset_x,offset_y,zbcoeffs
        return scale,rotation,offset_x,offset_y,zbcoeffs

    def tan2fp'''],
"two calls whose corrector angle difference differs by less than half a degree",
"the second call uses the distortion of the first",
"""
from desimeter.transform.tan2fp import raytracefit as T
x, y = np.array([0.01, -0.02]), np.array([0.02, 0.005])
a = T.tan2fp(x, y, 30., 150.)
T.tan2fp(x, y, 30., 150.45)
T.tan2fp(x, y, 30., 100.)
T.tan2fp(x, y, 30., 150.45)
b = T.tan2fp(x, y, 30., 150.)
err = max(np.max(np.abs(a[0] - b[0])), np.max(np.abs(a[1] - b[1]))) * 1000
print("micrometres between two identical calls", err)
sys.exit(1 if err > 1e-6 else 0)
""")

seed("c16-design-matrix-kept", "C16", "py/desimeter/simplecorr.py",
"""        v = np.concatenate([x2, y2])
        A = np.zeros((2*n, 4))
        A[0:n, 0] = x1
        A[n:, 0]  = y1
        A[0:n, 1] = -y1
        A[n:, 1]  = x1
        A[0:n, 2] = 1
        A[n:, 2]  = 0
        A[0:n, 3] = 0
        A[n:, 3]  = 1

        ATv = A.T.dot(v)
        ATA = A.T.dot(A)
        p = np.linalg.solve(ATA, ATv)
""", """        v = np.concatenate([x2, y2])
        A = getattr(self, "_design", None)
        if A is None or len(A) != 2*n or A[0, 0] != x1[0] or A[-1, 0] != y1[-1] :
            A = np.zeros((2*n, 4))
            A[0:n, 0] = x1
            A[n:, 0]  = y1
            A[0:n, 1] = -y1
            A[n:, 1]  = x1
            A[0:n, 2] = 1
            A[n:, 2]  = 0
            A[0:n, 3] = 0
            A[n:, 3]  = 1
            self._design = A

        ATv = A.T.dot(v)
        ATA = A.T.dot(A)
        p = np.linalg.solve(ATA, ATv)
""",
"an object fitted twice, the two sets of points sharing the ends",
"the second fit uses the design matrix of the first",
"""
from desimeter.simplecorr import SimpleCorr
r = np.random.RandomState(1)
x, y = r.normal(size=9), r.normal(size=9)
X, Y = x.copy(), y.copy()
X[3:5] += 1.3
Y[3:5] -= 0.7
used, new = SimpleCorr(), SimpleCorr()
used.fit_rotoff(x, y, x + 1, y)
used.fit_rotoff(X, Y, X, Y + 2)
new.fit_rotoff(X, Y, X, Y + 2)
err = abs(used.dx - new.dx) + abs(used.dy - new.dy) + abs(used.rot_deg - new.rot_deg)
print("difference between the fit of a used and of a new object", err)
sys.exit(1 if err > 1e-9 else 0)
""")


RTF = "py/desimeter/transform/tan2fp/raytrace/RT185v2.py"
seed("c27-side-of-the-normal", "C27", RTF,
"""        perpsign = np.sign(dotproduct(normal, kinput))
""",
"""        perpsign = np.sign(w)                              # normals point upwards
""",
"a ray that meets a steep surface from the other side of its tangent plane than its vertical direction suggests",
"such a ray leaves the lens on the side it came from",
"""
import desimeter.transform.tan2fp.raytrace.RT185v2 as R
R.Nsurfs, R.Nrays, R.Nglasses = 3, 1, 0
R.Oarray = np.zeros((4, R.OFINAL))
R.OhasPoly = ["", False, False, False]
R.OglassNames[:] = ["", "1.0", "1.5", ""]
R.RwaveNames[:] = ["", "F"]
R.Rarray = np.zeros((2, 4, R.RFINAL))
c, x = 0.01, 95.0
R.Oarray[1, R.OCURVE] = c
R.Rarray[1, 1, R.Rx] = x
R.Rarray[1, 1, R.Rz] = c * x**2 / (1 + np.sqrt(1 - c**2 * x**2))
w = 0.2
d = np.array([np.sqrt(1 - w**2), 0, w])
R.Rarray[1, 1, [R.Ru, R.Rv, R.Rw]] = d
n = R.getNormal(1, 1)
code = R.redirect(1, 1)
o = R.Rarray[1, 1, [R.Ru, R.Rv, R.Rw]]
print("incidence", d.dot(n), "after refraction", o.dot(n))
sys.exit(0 if code == R.OK and d.dot(n) * o.dot(n) > 0 else 1)
""")

seed("c27-other-sheet", "C27", RTF,
"""    elif sheetMorePositive<1.0 and rMorePositive>0.0:  # else maybe this is our winner. 
""",
"""    elif rMorePositive>0.0:  # the nearer one is on the other sheet: this is our winner. 
""",
"a ray of which both intersections ahead are on the far half of the conic",
"the ray is stopped at a point that is not on the lens surface instead of being reported as missing it",
"""
import desimeter.transform.tan2fp.raytrace.RT185v2 as R
R.Nsurfs, R.Nrays = 2, 1
R.Oarray = np.zeros((3, R.OFINAL))
R.OhasPoly = ["", False, False]
R.Rarray = np.zeros((2, 3, R.RFINAL))
R.Oarray[1, R.OCURVE] = 0.01
R.Rarray[1, 1, [R.Rx, R.Ry, R.Rz]] = -300, 0, 150
R.Rarray[1, 1, R.Ru] = 0.8
R.Rarray[1, 1, R.Rw] = 0.0
R.Rarray[1, 1, R.Rv] = 0.0
R.Rarray[1, 1, R.Ru] = 1.0
code = R.intercept(1, 1)
p = R.Rarray[1, 1, [R.Rx, R.Ry, R.Rz]]
print("code", code, "position", p)
sys.exit(0 if code == R.MISS and p[0] == -300 else 1)
""")

seed("c27-wavelength-of-the-group", "C27", RTF,
"""        wavename = RwaveNames[iray]         # numbering 1...Nrays
""",
"""        wavename = RwaveNames[1]            # numbering 1...Nrays; a group of rays is monochromatic
""",
"a ray table with several wavelengths, traced without being steered as one group",
"all rays are refracted with the index at the wavelength of the first one",
"""
import os, io, contextlib
import desimeter.transform.tan2fp.raytrace.RT185v2 as R
os.chdir(os.path.dirname(os.path.abspath(R.__file__)))
with contextlib.redirect_stdout(io.StringIO()):
    R.getOpticsCSV("DESI-ADC-2.OPT.CSV")
    R.getRaysCSV("DESI-ADC-2.RAY.CSV", 672)
    R.getMediaCSV("DESI-ADC-2.MED.CSV")
glass = [j for j in range(1, R.Nsurfs + 1) if R.OglassNames[j]][0]
names = R.MwaveNames
for i in range(1, 4):
    R.RwaveNames[i] = names[i]
n = [R.findRefraction(i, glass) for i in (1, 2, 3)]
print("indices of three wavelengths", n)
sys.exit(0 if len(set(n)) == 3 else 1)
""")

seed("c27-polynomials-of-the-last-table", "C27", RTF,
"""    del OhasPoly[:]                           # empty the host list
    OhasPoly.append("base=1")                 # 1-based to match jsurf
    for jsurf in range(1, Nsurfs+1):          # jsurf = 1, 2, ...Nsurfs
""",
"""    known = len(OhasPoly) - 1                 # surfaces looked at already
    if known > Nsurfs:
        del OhasPoly[:]                       # empty the host list
        known = -1
    if known < 0:
        OhasPoly.append("base=1")             # 1-based to match jsurf
        known = 0
    for jsurf in range(known+1, Nsurfs+1):    # jsurf = 1, 2, ...Nsurfs
""",
"two prescriptions read one after another, the second with as many surfaces as the first but other aspheres",
"the aspheric terms of the second prescription are ignored",
"""
import os, io, contextlib, tempfile, shutil
import desimeter.transform.tan2fp.raytrace.RT185v2 as R
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, "a.OPT.CSV"), "w") as f:
        f.write(" 2 , title\\nindex ,Type ,Z ,Curvature ,A4\\n ,Lens ,10 ,0.001 ,\\n ,Lens ,20 ,0.001 ,\\n")
    with open(os.path.join(d, "b.OPT.CSV"), "w") as f:
        f.write(" 2 , title\\nindex ,Type ,Z ,Curvature ,A4\\n ,Lens ,10 ,0.001 ,1e-9\\n ,Lens ,20 ,0.001 ,\\n")
    with contextlib.redirect_stdout(io.StringIO()):
        R.getOpticsCSV(os.path.join(d, "a.OPT.CSV"))
        R.getOpticsCSV(os.path.join(d, "b.OPT.CSV"))
finally:
    shutil.rmtree(d)
print("polynomials", R.OhasPoly)
sys.exit(0 if R.OhasPoly[1:] == [True, False] else 1)
""")

FVC2FP = "py/desimeter/transform/fvc2fp.py"
seed("c28-held-at-zero", "C28", ZB,
"    p0 = np.array([1.0,0.0,0.0,0.0])\n    p  = minimize(",
"    fixed_scale = fixed_scale or None # free unless given\n    fixed_rotation = fixed_rotation or None\n    p0 = np.array([1.0,0.0,0.0,0.0])\n    p  = minimize(",
"a rotation held at exactly zero",
"the rotation is fitted instead of held",
"""
from desimeter.transform.zhaoburge import transform, fit_scale_rotation_offset
r = np.random.RandomState(3)
x, y = r.uniform(-.7, .7, (2, 50))
xp, yp = transform(x, y, 1.01, .02, .01, -.02)
got = [fit_scale_rotation_offset(x, y, xp, yp, fixed_rotation=q)[1] for q in (0., .02)]
print("rotations", got)
sys.exit(0 if got == [0., .02] else 1)
""")

seed("c28-way-back-by-negation", "C28", "py/desimeter/transform/dm2pm.py",
"        _ , self.pm2dm_zbcoeffs = fitZhaoBurge(rxpm, rypm, rxdm, rydm, polids=self.zbpolids)",
"        self.pm2dm_zbcoeffs = -self.dm2pm_zbcoeffs # small distortions: the inverse is the opposite",
"distortions large enough for the second order to matter (0.3 mm here)",
"the way back is only a first order inverse of the fitted transform",
"""
from desimeter.transform.dm2pm import DM2PM
r = np.random.RandomState(3)
x, y = r.uniform(-290, 290, (2, 300))
u, v = x * 1.002 + .3, y * 1.002 - .4
t = DM2PM(); t.fit(x, y, u, v)
a, b = t.pm2dm(u, v)
e = np.max(np.hypot(a - x, b - y))
print("way back (mm)", e)
sys.exit(1 if e > 5e-4 else 0)
""")

seed("c28-average-in-the-wrong-row", "C28", "py/desimeter/averagecoord.py",
"            indices=indices[indices_1]",
"            indices=indices_1",
"three exposures, a spot of the first lost in the second, all others found in the third",
"averages are written in the rows of other spots",
"""
import io, contextlib
from astropy.table import Table
from desimeter.averagecoord import average_coordinates
x, y = [a.ravel() * 50. for a in np.mgrid[0:6, 0:6]]
x = x + np.arange(36) % 5; y = y + np.arange(36) % 7
t = lambda keep: Table({"X": x[keep], "Y": y[keep]})
a = np.arange(36)
with contextlib.redirect_stdout(io.StringIO()):
    r = average_coordinates([t(a), t(a[a != 4]), t(a)], "X", "Y")
e = np.max(np.hypot(r["X"] - x, r["Y"] - y))
print("moved by", e)
sys.exit(1 if e > 1e-4 else 0)
""")

seed("c28-setups-by-difference", "C28", "py/desimeter/transform/tan2fp/raytracefit.py",
"        adc12=(np.array(table['ADC1'])+1000*np.array(table['ADC2']))",
"        adc12=np.array(table['ADC2'])-np.array(table['ADC1']) # only the difference matters for the distortion",
"two pairs of corrector angles with the same difference",
"rays of different corrector setups are fitted together under the angles of the first",
"""
import io, contextlib
from astropy.table import Table
from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
r = np.random.RandomState(1)
n = 120
x, y = r.uniform(-.018, .018, (2, n))
k = np.arange(n) % 2
t = Table({"ADC1": np.where(k, 0., 30.), "ADC2": np.where(k, 60., 90.), "X_TAN": x, "Y_TAN": y, "X_FP": x * 420 / .027 + k * .5, "Y_FP": y * 420 / .027})
f = TAN2FP_RayTraceFit()
with contextlib.redirect_stdout(io.StringIO()):
    f.fit(t)
print("setups", f.adc1, f.adc2)
sys.exit(0 if len(f.adc1) == 2 else 1)
""")

FH = "py/desimeter/posparams/fithandler.py"
FHDATA = """
import os, io, contextlib, tempfile, shutil, datetime
from astropy.table import Table
import desimeter.posparams.fithandler as H
def table(n, **k):
    r = np.random.RandomState(5)
    t0 = datetime.datetime(2021, 3, 1)
    t = Table(dict(DATE=[(t0 + datetime.timedelta(hours=i)).isoformat() for i in range(n)], POS_ID=["M00017"] * n, POS_T=r.uniform(-150, 150, n), POS_P=r.uniform(20, 150, n),
        X_FP=r.uniform(-9, 9, n), Y_FP=r.uniform(-9, 9, n), CTRL_ENABLED=["True"] * n, TOTAL_MOVE_SEQUENCES=np.arange(n) + 5, PETAL_LOC=[3] * n, PETAL_ID=[3] * n, DEVICE_LOC=[88] * n,
        EXPOSURE_ID=[7] * n, LOG_NOTE=["arc"] * n, RECENT_REHOME=[1] * n))
    for c in k:
        t[c] = k[c]
    return t
calls = []
def fit(**k):
    calls.append(k)
    p = {c: 1. for c in H.fitter.all_keys}; p["FLAGS"] = 0
    if k["mode"] == "static":
        for s in {s for s, h in zip(k["sequence_id"], k["recent_rehome"]) if not h}:
            p["EPSILON_T_%d" % s] = p["EPSILON_P_%d" % s] = 0.
    return p, {}, .1, len(k["posintT"])
H.fitter.fit_params = fit
def run(t, period=1000., window=1000, **k):
    d = tempfile.mkdtemp()
    try:
        t.write(d + "/in.csv")
        with contextlib.redirect_stdout(io.StringIO()):
            return H.run_best_fits("M00017", d + "/in.csv", period, window, d, .05, **k)
    finally:
        shutil.rmtree(d)
"""
seed("c29-keyword-at-the-start", "C29", "py/desimeter/posparams/posmoveselection.py",
'            ok[i] &= (str(table["LOG_NOTE"][i]).find(keyword)>=0)',
'            ok[i] &= (str(table["LOG_NOTE"][i]).find(keyword)>0)',
"a note that starts with the keyword",
"moves whose note starts with a wanted keyword are left out of the calibration",
FHDATA + """
run(table(40, LOG_NOTE=["arc calibration"] * 20 + ["an arc"] * 20), log_note_selection="arc")
print("rows", len(calls[0]["posintT"]))
sys.exit(0 if len(calls[0]["posintT"]) == 40 else 1)
""")

seed("c29-sequences-of-the-window", "C29", FH,
"    data['sequence_id'] = subtable['SEQUENCE_ID'].tolist() # SEQUENCE_ID column was set by  _sequences_of_consistent_posintTP(table)",
"    data['sequence_id'] = _sequences_of_consistent_posintTP(subtable)",
"several windows that do not all contain the same exposures",
"the same exposure has different drift parameters in different windows (and different exposures the same)",
FHDATA + """
n = 96
run(table(n, EXPOSURE_ID=100 + np.arange(n) // 12, RECENT_REHOME=(np.arange(n) // 12 % 2 == 0).astype(int)), period=1., window=20)
seen = {}
for c in calls:
    for p, s in zip(c["posintT"], c["sequence_id"]):
        seen.setdefault(round(p, 6), set()).add(s)
print("numbers of each move", sorted({len(v) for v in seen.values()}))
sys.exit(0 if all(len(v) == 1 for v in seen.values()) else 1)
""")

seed("c29-moves-before-enabled", "C29", FH,
"        bad_row_funcs = [_ctrl_not_enabled, _no_move_performed]",
"        bad_row_funcs = [_no_move_performed, _ctrl_not_enabled]",
"a row with control disabled followed by an enabled one with the same count of moves",
"the enabled row is left out, because the disabled one before it has the same count",
FHDATA + """
n = 30
c = np.arange(n) + 5
c[13:] -= 1
run(table(n, TOTAL_MOVE_SEQUENCES=c, CTRL_ENABLED=["False" if i == 12 else "True" for i in range(n)]))
print("rows", len(calls[0]["posintT"]))
sys.exit(0 if len(calls[0]["posintT"]) == n - 1 else 1)
""")

seed("c29-moving-in-the-last-group", "C29", "py/desimeter/posparams/flags.py",
"        moving |= (rms_xy>0.1) # this is super arbitrary",
"        moving = (rms_xy>0.1) # this is super arbitrary",
"theta scanned at two phi angles, with small motion only at the larger one",
"a positioner that moves in theta is reported stuck",
"""
import io, contextlib
from desimeter.posparams.flags import eval_move_flags
t = [0., 20., 40., 60.] * 2
p = [90.] * 4 + [150.] * 4
x = [0., 1., 2., 3.] + [0., .01, .02, .03]
with contextlib.redirect_stdout(io.StringIO()):
    f = eval_move_flags(t, p, x, [0.] * 8)
print("flags", f)
sys.exit(0 if f == 0 else 1)
""")

PFV, SPM = "py/desimeter/processfvc.py", "py/desimeter/spotmatch.py"
PFDATA = """
import io, os, shutil, tempfile, contextlib
import numpy as np
from astropy.table import Table
from desimeter import processfvc as P
from desimeter.io import load_metrology, fvc2fp_filename
from desimeter.transform.fvc2fp import FVC2FP
class Log:
    def __getattr__(self, k): return lambda *a, **q: None
d = tempfile.mkdtemp()
def process(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        return P.fvc_proc(P.get_parser().parse_args(list(a) + ["-o", d + "/out.csv", "--no-bias"]), Log())
def finish(ok):
    shutil.rmtree(d)
    sys.exit(0 if ok else 1)
"""

seed("c30-fiducials-corrected", "C30", PFV,
'selection=(spots["LOCATION"]>=0)&(spots["X_FP_EXP"]!=0)&(spots["Y_FP_EXP"]!=0) # matched',
'selection=(spots["LOCATION"]>=0) # matched',
"the turbulence correction with expected positions, and fiducials in the exposure (they have no expected position at that point)",
"fiducials are taken as displaced to the centre of the focal plane and spoil the correction of the fibers around them",
PFDATA + """
m = load_metrology()
fid = m[(m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF")]
pos = m[(m["DEVICE_TYPE"] == "POS") & (m["PETAL_LOC"] == 3)][:150]
u, v = FVC2FP.read(fvc2fp_filename()).fp2fvc(np.append(fid["X_FP"], pos["X_FP"]), np.append(fid["Y_FP"], pos["Y_FP"]))
Table({"XPIX": u, "YPIX": v, "COUNTS": np.ones(len(u))}).write(d + "/in.csv")
pos["X_FP"] += np.random.RandomState(1).uniform(-.02, .02, 150)
pos["PETAL_LOC", "DEVICE_LOC", "LOCATION", "DEVICE_ID", "X_FP", "Y_FP"].write(d + "/e.csv")
code = process("-i", d + "/in.csv", "--expected-positions", d + "/e.csv", "--turbulence-correction-with-pol")
t = Table.read(d + "/out.csv")[:len(fid)]
e = np.max(np.hypot(t["X_FP"] - fid["X_FP"], t["Y_FP"] - fid["Y_FP"]))
print("fiducials displaced by", e)
finish(code == 0 and e < .01)
""")

seed("c30-device-zero-unknown", "C30", SPM,
'    matched_index   = np.where(res["LOCATION"]>=0)[0]',
'    matched_index   = np.where(res["LOCATION"]>0)[0]',
"the positioner at location 0 (petal 0, device 0)",
"its spot comes back without device",
PFDATA + """
from desimeter import spotmatch as S
os.environ["PATH"] = d + ":" + os.environ["PATH"]
tempfile.tempdir = d
with open(d + "/match_positions", "w") as f:
    f.write("#!/bin/sh\\nwhile [ $# -gt 0 ]; do if [ \\"$1\\" = -reduced_pos_file ]; then printf '0 1000.5 2000.5 12 4 0.1 positioner\\\\n1 1100.5 2000.5 12 4 0.1 positioner\\\\n' > \\"$2\\"; fi; shift; done\\n")
os.chmod(d + "/match_positions", 0o755)
with contextlib.redirect_stdout(io.StringIO()):
    r = S.spotmatch(np.array([1000.5, 1100.5]), np.array([2000.5, 2000.5]))
print(list(r["DEVICE_ID"]), list(r["DEVICE_TYPE"]))
finish(list(r["DEVICE_TYPE"]) == ["POS", "POS"])
""")

seed("c30-last-image-missed", "C30", PFV,
"                for i in range(len(tmp_extnames)):",
"                for i in range(len(tmp_extnames)-1):",
"the last image asked for, of a file that has no other named extension than the images",
"the image before the last one is processed",
PFDATA + """
import fitsio
P.detectspots = lambda image, **k: Table({"XPIX": [float(image[0, 0])], "YPIX": [0.]})
with contextlib.redirect_stdout(io.StringIO()):
    with fitsio.FITS(d + "/i.fits", "rw") as fx:
        fx.write(None)
        for i in range(3):
            fx.write(np.full((2, 2), i + 1.), extname="F%04d" % i)
code = process("-i", d + "/i.fits", "--nomatch", "--extname", "last")
x = Table.read(d + "/out.csv")["XPIX"][0]
print("image", x)
finish(code == 0 and x == 3)
""")

seed("c30-petal-factor", "C30", PFV,
'expected_pos["LOCATION"] = np.array(expected_pos["PETAL_LOC"])*1000+np.array(expected_pos["DEVICE_LOC"])',
'expected_pos["LOCATION"] = np.array(expected_pos["PETAL_LOC"])*10000+np.array(expected_pos["DEVICE_LOC"])',
"a table of expected positions without a location column, and a petal other than the first",
"the fibers of nine petals get locations of no device",
PFDATA + """
Table({"PETAL_LOC": [0, 4], "DEVICE_LOC": [11, 12], "X_FP": [1., 2.], "Y_FP": [1., 2.]}).write(d + "/e.csv")
t = P.get_expected_pos(P.get_parser().parse_args(["-i", "a", "-o", "b", "--expected-positions", d + "/e.csv"]), Log())
print(list(t["LOCATION"]))
finish(list(t["LOCATION"]) == [11, 4012])
""")

seed("c30-place-of-the-other", "C30", PFV,
'            indices_of_expected_pos = indices_of_expected_pos[is_matched]\n',
'            indices_of_expected_pos = indices_of_expected_pos[indices_of_expected_pos>=0][:np.sum(is_matched)]\n',
"a spot whose nearest expected place is further than the matching distance, before spots that are matched",
"the spots after it get the expected place and device of their neighbours in the list",
PFDATA + """
m = load_metrology()
fid = m[(m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF")]
pos = m[m["DEVICE_TYPE"] == "POS"][[100, 300, 500, 700]]
x, y = np.array(pos["X_FP"]), np.array(pos["Y_FP"])
x[1] += 4.
u, v = FVC2FP.read(fvc2fp_filename()).fp2fvc(np.append(fid["X_FP"], x), np.append(fid["Y_FP"], y))
Table({"XPIX": u, "YPIX": v, "COUNTS": np.ones(len(u))}).write(d + "/in.csv")
pos["PETAL_LOC", "DEVICE_LOC", "LOCATION", "DEVICE_ID", "X_FP", "Y_FP"].write(d + "/e.csv")
code = process("-i", d + "/in.csv", "--expected-positions", d + "/e.csv", "--max-match-distance", "2")
t = Table.read(d + "/out.csv")[len(fid):]
want = [int(l) for l in pos["LOCATION"]]
want[1] = -1
print(list(t["LOCATION"]), want)
finish(code == 0 and [int(l) for l in t["LOCATION"]] == want)
""")

FMD = """
import tempfile, os
from astropy.table import Table
from desimeter.fieldmodel import FieldModel
from desimeter.transform.gfa2fp import gfa2fp
d = tempfile.mkdtemp()
def finish(ok):
    import shutil
    shutil.rmtree(d)
    sys.exit(0 if ok else 1)
def catalog(**c):
    n = len(c["ra"])
    c.setdefault("xcentroid", np.arange(n) * 10.)
    c.setdefault("ycentroid", np.arange(n) * 10.)
    c.setdefault("petal_loc", np.zeros(n, int))
    Table(c).write(d + "/c.csv", overwrite=True)
    return d + "/c.csv"
def model(ra=100., dec=60., lst=110., hexrot=0.1):
    f = FieldModel()
    f.ra, f.dec, f.mjd, f.lst, f.hexrot_deg, f.adc1, f.adc2 = ra, dec, 59000., lst, hexrot, 20., 70.
    return f
def exposure(f, petals=(0, 2, 3, 5, 7, 8)):
    x, y, p, ra, de = [], [], [], [], []
    for q in petals:
        for u, v in ((300., 200.), (1800., 300.), (1000., 900.)):
            a, b = f.fp2radec(*gfa2fp(q, np.array([u]), np.array([v])))
            x.append(u); y.append(v); p.append(q); ra.append(a[0]); de.append(b[0])
    return Table({"xcentroid": x, "ycentroid": y, "petal_loc": p, "ra_gaia": ra, "dec_gaia": de})
"""
FMF = "py/desimeter/fieldmodel.py"

seed("c31-motion-along-the-parallel", "C31", FMF,
"pmra / 3600e3 / cosd(catalog['dec_gaia'])",
"pmra / 3600e3",
"a star with a proper motion in right ascension, far from the celestial equator and from the epoch of the catalog",
"its catalog position at the date of the exposure is wrong",
FMD + """
f = model()
f.read_guide_stars_catalog(catalog(ra=[100.], dec=[70.], ra_gaia=[100.], dec_gaia=[70.], pmra=[50.], pmdec=[0.], ref_epoch=[2000.]))
t = FieldModel(); t.mjd = 51544.5 + 20 * 365.25
c = t.read_guide_stars_catalog(d + "/c.csv", 10.)
want = 100 + 50e-3 * 20 / 3600 / np.cos(np.deg2rad(70))
print(c["ra_gaia_with_pm"][0] - want)
finish(abs(c["ra_gaia_with_pm"][0] - want) < 1e-8)
""")

seed("c31-separation-per-axis", "C31", FMF,
"dr = np.hypot(match_dra, match_ddec)",
"dr = np.maximum(np.abs(match_dra), np.abs(match_ddec))",
"a star measured further than the separation from its catalog position in a diagonal direction, but not along either axis",
"the bad match is used in the field model",
FMD + """
f = model()
c = f.read_guide_stars_catalog(catalog(ra=[10., 20 + 1.6 / 3600], dec=[0., 1.6 / 3600], ra_gaia=[10., 20.], dec_gaia=[0., 0.]))
print(list(c["ra"]))
finish(len(c) == 1)
""")

seed("c31-date-of-the-first-star", "C31", FMF,
"""        if "mjd_obs" in catalog.dtype.names :
            self.mjd = np.mean(catalog["mjd_obs"])
            log""",
"""        if "mjd_obs" in catalog.dtype.names and self.mjd is None :
            self.mjd = np.mean(catalog["mjd_obs"])
            log""",
"a model which already has a date (header, previous exposure) reading a catalog with the dates of the stars",
"proper motions and the model are for another date",
FMD + """
f = model()
c = f.read_guide_stars_catalog(catalog(ra=[10.], dec=[0.], ra_gaia=[10.], dec_gaia=[0.], mjd_obs=[60000.25]))
print(f.mjd)
finish(f.mjd == 60000.25)
""")

seed("c31-no-hexapod-rotation", "C31", FMF,
"        if hexrot_deg is not None :\n",
"        if hexrot_deg :\n",
"a hexapod angle of exactly zero given to a model that had another one",
"the field model keeps the angle of the previous exposure",
FMD + """
t = model(hexrot=0.)
f = model(hexrot=0.4)
f.fit_tancorr(exposure(t), hexrot_deg=0.)
print(f.hexrot_deg, f.fieldrot_zp_deg)
finish(f.hexrot_deg == 0. and min(f.fieldrot_zp_deg % 360, -f.fieldrot_zp_deg % 360) < 1e-3)
""")

seed("c31-one-iteration", "C31", FMF,
"for _ in range(3) : # loop",
"for _ in range(1) : # loop",
"a telescope an arc minute off the pointing asked for, at high declination",
"rotation of the field and positions of the model are wrong by tenths of arcseconds",
FMD + """
t = model(dec=75.)
f = model(ra=100 + 60 / 3600. / np.cos(np.deg2rad(75.)), dec=75 - 60 / 3600.)
f.fit_tancorr(exposure(t))
a, b = f.fp2radec(np.array([0., 390.]), np.array([390., 0.]))
A, B = t.fp2radec(np.array([0., 390.]), np.array([390., 0.]))
e = np.max(np.hypot((a - A) * np.cos(np.deg2rad(b)), b - B)) * 3600
print("arcsec", e)
finish(e < .05)
""")

seed("c31-corrector-ignored", "C31", FMF,
"xfp,yfp = tan2fp(x1,y1,self.adc1,self.adc2)",
"xfp,yfp = tan2fp(x1,y1,0.,0.)",
"dispersion corrector angles that differ from each other",
"the field rotation reported is that of another state of the corrector",
FMD + """
f = model()
f.adc1, f.adc2 = 0., 90.
g = f.compute_fieldrot()
from desimeter.transform.tan2fp import tan2fp
from desimeter.transform.radec2tan import hadec2xy
h = np.arange(4) * np.pi / 2
x, y = np.append(0, np.deg2rad(np.cos(h))), np.append(0, np.deg2rad(np.sin(h)))
ra, de = f.fp2radec(*tan2fp(x, y, f.adc1, f.adc2))
u, v = hadec2xy(f.lst - ra, de, f.lst - ra[0], de[0])
want = np.mean(np.rad2deg(np.arctan2((y * u - x * v)[1:], (x * u + y * v)[1:])))
print(g, want)
finish(abs(g - want) < 1e-3)
""")

seed("c31-petal-of-the-catalog", "C31", FMF,
"                x,y = gfa2fp(petal,x_gfa[ii],y_gfa[ii])\n                x_fp[ii]  = x\n                y_fp[ii]  = y\n",
"                x,y = gfa2fp(petal,x_gfa[ii],y_gfa[ii])\n                x_fp[ii]  = x\n                y_fp[ii]  = np.sort(y)\n",
"two stars of the same petal which are not in the order of their focal plane ordinate",
"their positions are exchanged in part",
FMD + """
f = model()
x, y, p = np.array([100., 1900., 1000.]), np.array([900., 100., 500.]), np.array([3, 3, 0])
a, b = f.all_gfa2fp(x, y, p)
w = [gfa2fp(q, np.array([u]), np.array([v])) for q, u, v in zip(p, x, y)]
u, v = f.all_gfa2fp(x[[1, 0, 2]], y[[1, 0, 2]], p[[1, 0, 2]])
finish(np.allclose(a, [k[0][0] for k in w]) and np.allclose(b, [k[1][0] for k in w]) and np.allclose(v, [w[i][1][0] for i in (1, 0, 2)]))
""")
