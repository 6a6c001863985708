"""Edits of /repo that keep its behaviour (a helper extracted, statements
reordered, a loop rewritten, an equivalent library call): the checks must stay
quiet on them.  `python3 tools/runrefactors.py [NAME…]` applies each one to a
scratch copy, runs the tests and every check, and reports the alarms and the
proofs lost.  No check reads this file."""

P = "py/desimeter/"
R = {}

R["trig"] = [
 (P + "trig.py", "    return np.sqrt(np.sum(xyz**2,axis=0))",
                 "    squares = xyz*xyz\n    return np.sqrt(squares.sum(axis=0))"),
 (P + "trig.py", "    return np.array([cosd(lon)*cosd(lat), sind(lon)*cosd(lat), sind(lat)])",
                 "    clat = cosd(lat)\n    z = sind(lat)\n    y = clat*sind(lon)\n    x = clat*cosd(lon)\n    return np.array([x, y, z])"),
 (P + "trig.py", "    return np.arctan2(y, x)*R2D)" if False else "    return put360(np.arctan2(y, x)*R2D)",
                 "    angle = R2D*np.arctan2(y, x)\n    return put360(angle)"),
 (P + "trig.py", "    x = cosd(a1) + cosd(a2)\n    y = sind(a1) + sind(a2)\n    return arctan2d(y, x)",
                 "    s1, c1 = sincosd(a1)\n    s2, c2 = sincosd(a2)\n    return arctan2d(s1+s2, c1+c2)"),
 (P + "trig.py", "    return degrees % 360", "    return np.mod(degrees, 360)"),
 (P + "time.py", "    theta = c[0] + (c[1] * t0) + t**2*(c[2] - t/ c[3] )",
                 "    c0, c1, c2, c3 = c\n    theta = c0 + c1*t0 + (c2 - t/c3)*t**2"),
]

R["radec2tan_helpers"] = [
 (P + "transform/radec2tan.py", '''        # rotate
        if use_hardcoded_polmis_rotmat:
            polar_misalignment_matrix = get_hardcoded_polmis_rotmat(inverse=False)
        else:
            polar_misalignment_matrix = compute_polar_misalignment_rotation_matrix(me_arcsec=ME_ARCSEC,ma_arcsec=MA_ARCSEC)
''', '''        # rotate
        polar_misalignment_matrix = _polmis_matrix(use_hardcoded_polmis_rotmat)
'''),
 (P + "transform/radec2tan.py", '''        if use_hardcoded_polmis_rotmat:
            polar_misalignment_matrix = get_hardcoded_polmis_rotmat(inverse=False)
        else:
            polar_misalignment_matrix = compute_polar_misalignment_rotation_matrix(me_arcsec=ME_ARCSEC,ma_arcsec=MA_ARCSEC)
''', '''        polar_misalignment_matrix = _polmis_matrix(use_hardcoded_polmis_rotmat)
'''),
 (P + "transform/radec2tan.py", '''        if use_hardcoded_polmis_rotmat:
            polar_misalignment_matrix = get_hardcoded_polmis_rotmat(inverse=True)
        else:
            polar_misalignment_matrix = compute_polar_misalignment_rotation_matrix(me_arcsec=-ME_ARCSEC,ma_arcsec=-MA_ARCSEC)
''', '''        polar_misalignment_matrix = _polmis_matrix(use_hardcoded_polmis_rotmat, inverse=True)
'''),
 (P + "transform/radec2tan.py", '''def radec2tan(ra,dec,''', '''def _polmis_matrix(hardcoded, inverse=False) :
    # the polar misalignment matrix or its inverse
    if hardcoded :
        return get_hardcoded_polmis_rotmat(inverse=inverse)
    sign = -1 if inverse else 1
    return compute_polar_misalignment_rotation_matrix(me_arcsec=sign*ME_ARCSEC,ma_arcsec=sign*MA_ARCSEC)

def _rotate_hadec(matrix,ha,dec) :
    return getLONLAT(matrix.dot(getXYZ(ha,dec)))

def _refracted(ha,dec) :
    alt,az = hadec2altaz(ha,dec)
    return altaz2hadec(apply_refraction(alt),az)

def radec2tan(ra,dec,'''),
 (P + "transform/radec2tan.py", '''    # alt,az
    alt,az = hadec2altaz(ha,dec)
    tel_alt,tel_az = hadec2altaz(tel_ha,tel_dec)

    # apply refraction
    alt = apply_refraction(alt)
    tel_alt = apply_refraction(tel_alt)

    # convert back to ha,dec
    ha,dec  = altaz2hadec(alt,az)
    tel_ha,tel_dec  = altaz2hadec(tel_alt,tel_az)
''', '''    # refraction
    tel_ha,tel_dec = _refracted(tel_ha,tel_dec)
    ha,dec = _refracted(ha,dec)
'''),
 (P + "transform/radec2tan.py", "        ha,dec = getLONLAT(polar_misalignment_matrix.dot(getXYZ(ha,dec)))\n",
   "        ha,dec = _rotate_hadec(polar_misalignment_matrix,ha,dec)\n"),
 (P + "transform/radec2tan.py", "        ha,dec  = getLONLAT(polar_misalignment_matrix.dot(getXYZ(ha,dec)))\n",
   "        ha,dec  = _rotate_hadec(polar_misalignment_matrix,ha,dec)\n"),
]

R["radec2tan_pointing"] = [
 (P + "transform/radec2tan.py", '''    if precession :
        tel_ra,tel_dec = apply_precession_from_icrs(tel_ra, tel_dec, mjd, use_astropy)
    if aberration :
        tel_ra,tel_dec = apply_aberration(tel_ra,tel_dec,mjd, use_astropy)
''', '''    tel_ra,tel_dec = _apparent(tel_ra,tel_dec,mjd,precession,aberration,use_astropy)
'''),
 (P + "transform/radec2tan.py", '''    if precession :
        ra,dec = apply_precession_from_icrs(ra, dec, mjd, use_astropy)
        tel_ra,tel_dec = apply_precession_from_icrs(tel_ra, tel_dec, mjd, use_astropy)


    if aberration :
        ra,dec = apply_aberration(ra,dec,mjd, use_astropy)
        tel_ra,tel_dec = apply_aberration(tel_ra,tel_dec,mjd, use_astropy)
''', '''    ra,dec = _apparent(ra,dec,mjd,precession,aberration,use_astropy)
    tel_ra,tel_dec = _apparent(tel_ra,tel_dec,mjd,precession,aberration,use_astropy)
'''),
 (P + "transform/radec2tan.py", '''def radec2tan(ra,dec,''', '''def _apparent(ra,dec,mjd,precession,aberration,use_astropy) :
    if precession :
        ra,dec = apply_precession_from_icrs(ra, dec, mjd, use_astropy)
    if aberration :
        ra,dec = apply_aberration(ra,dec,mjd, use_astropy)
    return ra,dec

def radec2tan(ra,dec,'''),
 (P + "transform/radec2tan.py", '''    # hexapod rotation
    shex,chex = sincosd(hexrot_deg)

    return chex*x-shex*y , +shex*x+chex*y
''', '''    # hexapod rotation
    hexrot = rot2deg(hexrot_deg)
    x_tan,y_tan = hexrot.dot(np.array([x,y]))
    return x_tan,y_tan
'''),
 (P + "transform/radec2tan.py", "getNormalized, sincosd)", "getNormalized, sincosd, rot2deg)"),
]

R["radec2tan_small"] = [
 (P + "transform/radec2tan.py", '''    tmp = rd.dot(rh.dot(xyz))
    x=tmp[1]
    y=-tmp[0]
    return x,y
''', '''    south,east,_ = (rd @ rh).dot(xyz)
    return east,-south
'''),
 (P + "transform/radec2tan.py", '''    z = np.sqrt(1-x**2-y**2)
    xyz = rh.dot(rd.dot(np.array([-y,x,z])))
    return getLONLAT(xyz)
''', '''    r2 = x**2+y**2
    z = np.sqrt(1-r2)
    tangent = np.array([-y,x,z])
    return getLONLAT(rh.dot(rd.dot(tangent)))
'''),
 (P + "transform/radec2tan.py", '''    daprev = 0.
    for _ in range(2) :
        da   = apply_refraction(alt) - alt
        dda  = da-daprev
        alt = alt - dda # not in place: alt can be an array of the caller
        daprev = da
    return alt
''', '''    first  = apply_refraction(alt) - alt
    alt = alt - first
    second = apply_refraction(alt) - alt
    return alt - (second - first)
'''),
 (P + "transform/radec2tan.py", '''    if isinstance(ra_eclip, float):
        apexXYZ   = getXYZ(apexlon,0.)
    else :
        apexXYZ   = getXYZ(apexlon*np.ones(ra_eclip.shape), np.zeros(ra_eclip.shape))
    targetXYZ = getXYZ(ra_eclip,dec_eclip)

    if len(targetXYZ.shape) > 1 :
        VxT = np.cross(apexXYZ, targetXYZ, axis=0)
        TxVxT = np.cross(targetXYZ,VxT, axis=0)
    else :
       VxT       = np.cross(apexXYZ, targetXYZ)
       TxVxT     = np.cross(targetXYZ, VxT)
''', '''    apexXYZ   = getXYZ(apexlon+0*ra_eclip, 0*dec_eclip)
    targetXYZ = getXYZ(ra_eclip,dec_eclip)

    VxT   = np.cross(apexXYZ, targetXYZ, axis=0)
    TxVxT = np.cross(targetXYZ, VxT, axis=0)
'''),
 (P + "transform/radec2tan.py", '''    ct=np.cos(theta)
    st=np.sin(theta)
    u=axis
    uut=np.outer(u,u)
    uxx=np.array([[0,-u[2],u[1]],[u[2],0,-u[0]],[-u[1],u[0],0]])
    return ct*np.eye(axis.size)+st*uxx+(1-ct)*uut
''', '''    st=np.sin(theta)
    ct=np.cos(theta)
    x,y,z=axis
    uxx=np.array([[0,-z,y],[z,0,-x],[-y,x,0]])
    parallel=np.outer(axis,axis)
    return parallel+ct*(np.eye(3)-parallel)+st*uxx
'''),
 (P + "transform/radec2tan.py", '''    norme = np.sqrt(np.sum(cross**2))
    if norme > 0 :
        polar_misalignment_rotation = rotation_matrix(cross/norme,np.arcsin(norme))
    else :
        polar_misalignment_rotation = np.eye(3)

    return polar_misalignment_rotation
''', '''    norme = np.sqrt(cross.dot(cross))
    if norme == 0 :
        return np.eye(3)
    return rotation_matrix(cross/norme,np.arcsin(norme))
'''),
 (P + "transform/radec2tan.py", '''    xyz_ecliptic  = getXYZ(lon,lat)
    xyz_precessed = np.dot(vecZ(deltaELON), xyz_ecliptic)
    lon,lat = getLONLAT(xyz_precessed)
    return eclip2radec(lon,lat)
''', '''    xyz_precessed = vecZ(deltaELON).dot(getXYZ(lon,lat))
    return eclip2radec(*getLONLAT(xyz_precessed))
'''),
 (P + "transform/radec2tan.py", '''    x = - cha * cdec * slat + sdec * clat
    y = - sha * cdec
    z = cha * cdec * clat + sdec * slat
    r = np.hypot(x, y)
    az  = arctan2d(y,x)
    alt = np.rad2deg(np.arctan2(z,r)) # in -90..90 (arctan2d would wrap below horizon values)
    return alt,az
''', '''    south = cha * cdec
    z = south * clat + sdec * slat
    x = sdec * clat - south * slat
    y = - sha * cdec
    alt = np.rad2deg(np.arctan2(z, np.sqrt(x**2+y**2)))
    return alt, arctan2d(y,x)
'''),
]

R["radec2tan_precession"] = [
 (P + "transform/radec2tan.py", '''        # precession
        years = (mjd-ICRS_MJD)/DAYS_PER_YEAR
        ra2, dec2 = apply_precession(ra, dec, years)
''', '''        # precession
        ra2, dec2 = apply_precession(ra, dec, _years_since_icrs(mjd))
'''),
 (P + "transform/radec2tan.py", '''        # precession
        years = (ICRS_MJD-mjd)/DAYS_PER_YEAR
        ra2, dec2 = apply_precession(ra, dec, years)
''', '''        # precession
        ra2, dec2 = apply_precession(ra, dec, -_years_since_icrs(mjd))
'''),
 (P + "transform/radec2tan.py", '''def apply_precession_from_icrs(''', '''def _years_since_icrs(mjd) :
    return (mjd-ICRS_MJD)/DAYS_PER_YEAR

def apply_precession_from_icrs('''),
 (P + "transform/radec2tan.py", '''    ra2,dec2 = apply_aberration(ra,dec,mjd,use_astropy)
    return getLONLAT(2*getXYZ(ra,dec)-getXYZ(ra2,dec2))
''', '''    xyz  = getXYZ(ra,dec)
    xyz2 = getXYZ(*apply_aberration(ra,dec,mjd,use_astropy))
    return getLONLAT(xyz+(xyz-xyz2))
'''),
 (P + "transform/radec2tan.py", '''    elon = mean + 1.915*sind(anom) + 0.020*sind(2*anom)
    return put360(elon);
''', '''    center = 0.020*sind(2*anom) + 1.915*sind(anom)
    return put360(mean + center)
'''),
]

R["pos2ptl_loop"] = [
 (P + "transform/pos2ptl.py", '''    for i in range(n):
        # Note: int2ext(a,b) returns a length-1 array, not scalar
        ext_ranges = [[float(int2ext(_default_t_int_range[0], t_offset[i])[0]),
                       float(int2ext(_default_t_int_range[1], t_offset[i])[0])],
                      [float(int2ext(_default_p_int_range[0], p_offset[i])[0]),
                       float(int2ext(_default_p_int_range[1], p_offset[i])[0])]]
        tp_ext, unreach = xy2tp.xy2tp(xy=[x_loc[i], y_loc[i]],
                                     r=[r1[i], r2[i]],
                                     ranges=ext_ranges,
                                     t_guess=t_guess[i],
                                     t_guess_tol=t_guess_tol[i],
                                     )
        t_ext.append(tp_ext[0])
        p_ext.append(tp_ext[1])
        unreachable.append(unreach)
''', '''    for x, y, a, b, to, po, guess, tol in zip(x_loc, y_loc, r1, r2, t_offset, p_offset, t_guess, t_guess_tol):
        ext_ranges = [_ext_range(_default_t_int_range, to), _ext_range(_default_p_int_range, po)]
        (t, p), unreach = xy2tp.xy2tp(xy=[x, y], r=[a, b], ranges=ext_ranges,
                                      t_guess=guess, t_guess_tol=tol)
        t_ext.append(t)
        p_ext.append(p)
        unreachable.append(unreach)
'''),
 (P + "transform/pos2ptl.py", '''def ext2loc(t_ext,''', '''def _ext_range(int_range, offset):
    # Note: int2ext(a,b) returns a length-1 array, not scalar
    return [float(int2ext(u, offset)[0]) for u in int_range]

def ext2loc(t_ext,'''),
]

R["pos2ptl_small"] = [
 (P + "transform/pos2ptl.py", '''    q = np.arctan2(y_ptl, x_ptl)
    r = np.hypot(x_ptl, y_ptl)
    s = xy2qs.r2s(r)
    x_flat = s * np.cos(q)
    y_flat = s * np.sin(q)
    return x_flat, y_flat
''', '''    s = xy2qs.r2s(np.hypot(x_ptl, y_ptl))
    return _polar2xy(s, np.arctan2(y_ptl, x_ptl))
'''),
 (P + "transform/pos2ptl.py", '''    q = np.arctan2(y_flat, x_flat)
    s = np.hypot(x_flat, y_flat)
    r = xy2qs.s2r(s)
    x_ptl = r * np.cos(q)
    y_ptl = r * np.sin(q)
    return x_ptl, y_ptl
''', '''    r = xy2qs.s2r(np.hypot(x_flat, y_flat))
    return _polar2xy(r, np.arctan2(y_flat, x_flat))
'''),
 (P + "transform/pos2ptl.py", '''def ptl2flat(x_ptl,''', '''def _polar2xy(r, q):
    return r * np.cos(q), r * np.sin(q)

def ptl2flat(x_ptl,'''),
 (P + "transform/pos2ptl.py", '''    u_offset = _to_numpy(u_offset) # so that minus sign works in next line
    u_loc = _add_offset(u_flat, -u_offset)
    return u_loc
''', '''    return _to_numpy(u_flat) - _to_numpy(u_offset)
'''),
 (P + "transform/pos2ptl.py", '''    t = np.radians(t_ext)
    t_plus_p = t + np.radians(p_ext)
    r1 = _to_numpy(r1)
    r2 = _to_numpy(r2)
    x_loc = r1 * np.cos(t) + r2 * np.cos(t_plus_p)
    y_loc = r1 * np.sin(t) + r2 * np.sin(t_plus_p)
    return x_loc, y_loc
''', '''    r1 = _to_numpy(r1)
    r2 = _to_numpy(r2)
    t = np.deg2rad(t_ext)
    elbow = t + np.deg2rad(p_ext)
    y_loc = r1 * np.sin(t) + r2 * np.sin(elbow)
    x_loc = r1 * np.cos(t) + r2 * np.cos(elbow)
    return x_loc, y_loc
'''),
 (P + "transform/pos2ptl.py", '''    zero_dir = direction == 0
    direction[zero_dir] = np.sign(natural_delta)[zero_dir]
    opposites = direction != np.sign(natural_delta)
    delta_u = natural_delta.copy()
    delta_u[opposites] = delta_u[opposites] % (direction[opposites] * 360)
    exact_circle = natural_delta % 360 == 0
    delta_u[exact_circle] = np.abs(natural_delta[exact_circle]) * direction[exact_circle]
    return delta_u
''', '''    natural_sign = np.sign(natural_delta)
    direction = np.where(direction == 0, natural_sign, direction)
    delta_u = natural_delta.copy()
    opposites = direction != natural_sign
    delta_u[opposites] = natural_delta[opposites] % (360 * direction[opposites])
    full_turns = natural_delta % 360 == 0
    delta_u[full_turns] = direction[full_turns] * np.abs(natural_delta[full_turns])
    return delta_u
'''),
 (P + "transform/pos2ptl.py", '''    if t_int_guess is None:
        t_ext_guess = None
    else:
        t_ext_guess = int2ext(t_int_guess, t_offset)
    t_ext, p_ext,''', '''    t_ext_guess = None if t_int_guess is None else int2ext(t_int_guess, t_offset)
    t_ext, p_ext,'''),
 (P + "transform/pos2ptl.py", '''    if len(L) != n:
        L = [L[0]]*n
    return L''', '''    if len(L) == n:
        return L
    return [L[0] for _ in range(n)]'''),
 (P + "transform/pos2ptl.py", '''    u_flat = _add_offset(u_loc, u_offset)
    return u_flat
''', '''    return _add_offset(u_loc, u_offset)
'''),
]

R["xy2tp"] = [
 (P + "transform/xy2tp.py", '''    inner += numeric_contraction
    outer -= numeric_contraction
    HYPOT = hypot
    if hypot >= outer:
        HYPOT = outer
    elif hypot <= inner:
        HYPOT = inner
    X = HYPOT*math.cos(angle)
    Y = HYPOT*math.sin(angle)
''', '''    HYPOT = _clamp(hypot, inner + numeric_contraction, outer - numeric_contraction)
    X = math.cos(angle)*HYPOT
    Y = math.sin(angle)*HYPOT
'''),
 (P + "transform/xy2tp.py", '''    arccos_arg = max(arccos_arg, -1.0) # deal with slight numeric errors where arccos_arg comes back like -1.0000000000000002
    arccos_arg = min(arccos_arg, +1.0) # deal with slight numeric errors where arccos_arg comes back like +1.0000000000000002
    P = math.acos(arccos_arg)
''', '''    # deal with slight numeric errors where arccos_arg comes back like 1.0000000000000002
    P = math.acos(_clamp(arccos_arg, -1.0, 1.0))
'''),
 (P + "transform/xy2tp.py", '''def xy2tp(xy,''', '''def _clamp(value, low, high):
    if value >= high:
        return high
    if value <= low:
        return low
    return value

def xy2tp(xy,'''),
]

R["xy2tp_options"] = [
 (P + "transform/xy2tp.py", '''            options.sort(key=lambda x: x['closeness'])  # tertiary sort
            options.sort(key=lambda x: x['closeness_fail'])  # secondary sort
            options.sort(key=lambda x: x['range_fail'])  # primary sort
            TP = options[0]['TP']
            range_fail = options[0]['range_fail']
''', '''            best = min(options, key=lambda x: (x['range_fail'], x['closeness_fail'], x['closeness']))
            TP = best['TP']
            range_fail = best['range_fail']
'''),
 (P + "transform/xy2tp.py", '''            center_TP = opt['TP']
            TP_alts = [[center_TP[0] + wrap, center_TP[1]] for wrap in [-360.0, 360.0]]
            for TP_alt in TP_alts:
                TP_alt, range_fail_alt = _wrap_TP_into_ranges(TP_alt, ranges)
                options.append({'TP':TP_alt, 'range_fail':range_fail_alt})
''', '''            t_center, p_center = opt['TP']
            for wrap in (-360.0, 360.0):
                TP_alt, range_fail_alt = _wrap_TP_into_ranges([t_center + wrap, p_center], ranges)
                options.append({'TP':TP_alt, 'range_fail':range_fail_alt})
'''),
 (P + "transform/xy2tp.py", '''    TP = [None, None]
    unreachable = False
    for i in [0, 1]:
        range_min, range_max = min(ranges[i]), max(ranges[i])
        TP[i], range_fail = _wrap_into_range(tp[i], range_min, range_max)
        unreachable |= range_fail
    return TP, unreachable
''', '''    t, t_fail = _wrap_into_range(tp[0], min(ranges[0]), max(ranges[0]))
    p, p_fail = _wrap_into_range(tp[1], min(ranges[1]), max(ranges[1]))
    return [t, p], t_fail or p_fail
'''),
 (P + "transform/xy2tp.py", '''    new = angle
    unreachable = False
    if new < range_min: # try +360 phase wrap
        new += math.floor((range_max - new)/360.0)*360.0
        if new < range_min:
            new = range_min
            unreachable = True
    elif new > range_max: # try -360 phase wrap
        new -= math.floor((new - range_min)/360.0)*360.0
        if new > range_max:
            new = range_max
            unreachable = True
    return new, unreachable
''', '''    if angle < range_min: # try +360 phase wrap
        new = angle + 360.0*math.floor((range_max - angle)/360.0)
        return (range_min, True) if new < range_min else (new, False)
    if angle > range_max: # try -360 phase wrap
        new = angle - 360.0*math.floor((angle - range_min)/360.0)
        return (range_max, True) if new > range_max else (new, False)
    return angle, False
'''),
]

R["xy2qs"] = [
 (P + "transform/xy2qs.py", '''    r = np.hypot(x, y)
    s = r2s(r)
    q = arctan2d(y, x)
    return q, s
''', '''    return arctan2d(y, x), r2s(np.hypot(x, y))
'''),
 (P + "transform/xy2qs.py", '''    r = r if isinstance(r, np.ndarray) else np.array(r)
''', '''    r = np.asarray(r)
'''),
 (P + "transform/xy2qs.py", '''    pol = np.poly1d(c)
    s = 400.*pol(r/400.)
    return s
''', '''    u = r/400.
    return np.polyval(c, u)*400.
'''),
 (P + "transform/xy2qs.py", '''    qrad = np.radians(q)
    u = s*np.cos(qrad)
    v = s*np.sin(qrad)
    return u, v
''', '''    return s*cosd(q), s*sind(q)
'''),
]

R["ptl2fp"] = [
 (P + "transform/ptl2fp.py", '''def apply_ptl2fp(spots) :
    petal_alignment_dict = get_petal_alignment_data()
''', '''def _rigid_motion(params) :
    Translation = np.array([params["Tx"],params["Ty"],params["Tz"]])
    Rotation = Rxyz(params["alpha"],params["beta"],params["gamma"])
    return Rotation, Translation[:,None]

def apply_ptl2fp(spots) :
    petal_alignment_dict = get_petal_alignment_data()
'''),
 (P + "transform/ptl2fp.py", '''        params = petal_alignment_dict[petal]
        Rotation = Rxyz(params["alpha"],params["beta"],params["gamma"])
        Translation = np.array([params["Tx"],params["Ty"],params["Tz"]])
        xyzfp[:,ii] = Rotation.dot(xyzptl[:,ii]) + Translation[:,None]
''', '''        Rotation, Translation = _rigid_motion(petal_alignment_dict[petal])
        xyzfp[:,ii] = Rotation.dot(xyzptl[:,ii]) + Translation
'''),
 (P + "transform/ptl2fp.py", '''    params = get_petal_alignment_data()[petal_loc]
    Rotation = Rxyz(params["alpha"],params["beta"],params["gamma"])
    Translation = np.array([params["Tx"],params["Ty"],params["Tz"]])
    xyzfp = Rotation.dot(xyzptl) + Translation[:,None]

    return xyzfp[0],xyzfp[1],xyzfp[2]
''', '''    Rotation, Translation = _rigid_motion(get_petal_alignment_data()[petal_loc])
    xyzfp = Rotation @ xyzptl + Translation

    return tuple(xyzfp)
'''),
 (P + "transform/ptl2fp.py", '''    params = get_petal_alignment_data()[petal_loc]
    Rotation = Rxyz(params["alpha"],params["beta"],params["gamma"])
    Translation = np.array([params["Tx"],params["Ty"],params["Tz"]])
    xyz_ptl = Rotation.T.dot(xyz_fp - Translation[:,None])
''', '''    Rotation, Translation = _rigid_motion(get_petal_alignment_data()[petal_loc])
    xyz_ptl = Rotation.T.dot(xyz_fp - Translation)
'''),
 (P + "transform/ptl2fp.py", '''    Rz = np.array([
        [np.cos(angle), -np.sin(angle), 0.0],
        [np.sin(angle), np.cos(angle),  0.0],
        [0.0,           0.0,            1.0]
    ])
    return Rz
''', '''    c, s = np.cos(angle), np.sin(angle)
    return np.array([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]])
'''),
]

R["ptl2fp_loop"] = [
 (P + "transform/ptl2fp.py", '''        ii = np.where(spots['PETAL_LOC']==petal)[0]
''', '''        ii = np.flatnonzero(spots['PETAL_LOC']==petal)
'''),
 (P + "transform/ptl2fp.py", '''    # local petal coordinates 'PTL'
    xyzptl = np.zeros((3,nspot))
    xyzptl[0] = spots['X_PTL']
    xyzptl[1] = spots['Y_PTL']
    xyzptl[2] = spots['Z_PTL']

    # global focal plane coordinates 'FP'
    xyzfp = np.zeros((3,nspot))
''', '''    # global focal plane coordinates 'FP'
    xyzfp = np.zeros((3,nspot))

    # local petal coordinates 'PTL'
    xyzptl = np.zeros((3,nspot))
    for row, name in enumerate(['X_PTL','Y_PTL','Z_PTL']) :
        xyzptl[row] = spots[name]
'''),
 (P + "transform/ptl2fp.py", '''    spots['X_FP'] = xyzfp[0]
    spots['Y_FP'] = xyzfp[1]
    spots['Z_FP'] = xyzfp[2]

    return spots
''', '''    for name, values in zip(['X_FP','Y_FP','Z_FP'], xyzfp) :
        spots[name] = values
    return spots
'''),
]

R["gfa2fp"] = [
 (P + "transform/gfa2fp.py", '''    global _gfa_transforms
    if _gfa_transforms is None:
        metrology = io.load_metrology()
        _gfa_transforms = fit_gfa2fp(metrology)

    log = get_logger()
    if petal_loc not in _gfa_transforms:
        log.error('PETAL_LOC {} GFA metrology missing'.format(petal_loc))

    xfp, yfp = _gfa_transforms[petal_loc].apply(xgfa, ygfa)

    return xfp, yfp
''', '''    return _get_transform(petal_loc).apply(xgfa, ygfa)
'''),
 (P + "transform/gfa2fp.py", '''    global _gfa_transforms
    if _gfa_transforms is None:
        metrology = io.load_metrology()
        _gfa_transforms = fit_gfa2fp(metrology)

    log = get_logger()
    if petal_loc not in _gfa_transforms:
        log.error('PETAL_LOC {} GFA metrology missing'.format(petal_loc))

    xgfa, ygfa = _gfa_transforms[petal_loc].apply_inverse(xfp, yfp)

    return xgfa, ygfa
''', '''    return _get_transform(petal_loc).apply_inverse(xfp, yfp)
'''),
 (P + "transform/gfa2fp.py", '''def gfa2fp(petal_loc,''', '''def _get_transform(petal_loc):
    global _gfa_transforms
    if _gfa_transforms is None:
        _gfa_transforms = fit_gfa2fp(io.load_metrology())
    if petal_loc not in _gfa_transforms:
        get_logger().error('PETAL_LOC {} GFA metrology missing'.format(petal_loc))
    return _gfa_transforms[petal_loc]

def gfa2fp(petal_loc,'''),
 (P + "transform/gfa2fp.py", '''            #- measure norm of plane
            x01 =  np.array( [ xfp[1]-xfp[0], yfp[1]-yfp[0], zfp[1]-zfp[0] ] )
            x01 /= np.sqrt(np.sum(x01**2))
            x12 =  np.array( [ xfp[2]-xfp[1], yfp[2]-yfp[1], zfp[2]-zfp[1] ] )
            x12 /= np.sqrt(np.sum(x12**2))
            norm_vector= np.cross(x01,x12)
''', '''            #- measure norm of plane
            xyz = np.array([xfp, yfp, zfp])
            side = [xyz[:,i+1]-xyz[:,i] for i in range(2)]
            x01, x12 = [v/np.sqrt(np.sum(v**2)) for v in side]
            norm_vector= np.cross(x01,x12)
'''),
]

R["match"] = [
 (P + "match.py", '''        unique_indices_2 = np.unique(indices_2)
        n_duplicates = np.sum(indices_2>=0)-np.sum(unique_indices_2>=0)
        if n_duplicates > 0 :
            for i2 in unique_indices_2 :
                jj=np.where(indices_2==i2)[0]
                if jj.size>1 :
                    kk=np.argsort(distances[jj])
                    indices_2[jj[kk[1:]]] = -1
''', '''        for i2 in np.unique(indices_2) :
            jj=np.flatnonzero(indices_2==i2)
            if jj.size<=1 : continue
            nearest=jj[np.argmin(distances[jj])]
            indices_2[jj[jj!=nearest]] = -1
'''),
 (P + "match.py", '''    xy1=np.array([x1,y1]).T
    xy2=np.array([x2,y2]).T
    tree2 = KDTree(xy2)
    distances,indices_2 = tree2.query(xy1,k=1)
''', '''    tree2 = KDTree(np.column_stack([x2,y2]))
    distances,indices_2 = tree2.query(np.column_stack([x1,y1]),k=1)
'''),
 (P + "match.py", '''        if np.sum(ii) > 1 :
            log.warning("{} duplicates for i2={}".format(np.sum(ii),i2))
            indices_2[ii]=-1
''', '''        n_claims = np.sum(ii)
        if n_claims <= 1 :
            continue
        log.warning("{} duplicates for i2={}".format(n_claims,i2))
        indices_2[ii]=-1
'''),
 (P + "match.py", '''        all_matched = (np.sum(indices_2>=0)==x1.size)
        if all_matched :
''', '''        if np.all(indices_2>=0) :
'''),
 (P + "match.py", '''    all_matched = False
    log.debug("match''', '''    log.debug("match'''),
]

R["match_triangles"] = [
 (P + "match.py", '''    triangle_index=0
    for i in range(nn) :
        tx[0]=x[i]
        ty[0]=y[i]
        for j in range(i+1,nn) :
            tx[1]=x[j]
            ty[1]=y[j]
            for k in range(j+1,nn) :
                # x y of vertices
                tx[2]=x[k]
                ty[2]=y[k]
                length2=np.array([(tx[1]-tx[0])**2+(ty[1]-ty[0])**2,(tx[2]-tx[1])**2+(ty[2]-ty[1])**2,(tx[0]-tx[2])**2+(ty[0]-ty[2])**2])
                #r=np.sqrt(np.max(length2)/np.min(length2)) # ratio of longest to shortest side
                tk[triangle_index]=ordering[[i,j,k]]
                txyz[triangle_index,0]=np.sqrt(np.max(length2)/np.min(length2)) # ratio of longest to shortest side
                txyz[triangle_index,1]=((tx[1]-tx[0])*(tx[2]-tx[0])+(ty[1]-ty[0])*(ty[2]-ty[0]))/np.sqrt( ((tx[1]-tx[0])**2+(ty[1]-ty[0])**2)*((tx[2]-tx[0])**2+(ty[2]-ty[0])**2)) # cos of angle of first vertex
                txyz[triangle_index,2]=(tx[1]-tx[0])/np.sqrt((tx[1]-tx[0])**2+(ty[1]-ty[0])**2) # cos of angle of first side
                triangle_index += 1
    return tk,txyz
''', '''    for triangle_index,ijk in enumerate(itertools.combinations(range(nn),3)) :
        ijk=list(ijk)
        tx=x[ijk]
        ty=y[ijk]
        dx01,dy01=tx[1]-tx[0],ty[1]-ty[0]
        dx02,dy02=tx[2]-tx[0],ty[2]-ty[0]
        l01=dx01**2+dy01**2
        l02=dx02**2+dy02**2
        length2=np.array([l01,(tx[2]-tx[1])**2+(ty[2]-ty[1])**2,l02])
        tk[triangle_index]=ordering[ijk]
        txyz[triangle_index,0]=np.sqrt(np.max(length2)/np.min(length2)) # ratio of longest to shortest side
        txyz[triangle_index,1]=(dx01*dx02+dy01*dy02)/np.sqrt(l01*l02) # cos of angle of first vertex
        txyz[triangle_index,2]=dx01/np.sqrt(l01) # cos of angle of first side
    return tk,txyz
'''),
 (P + "match.py", "    tx=np.zeros(3)\n    ty=np.zeros(3)\n\n", ""),
 (P + "match.py", "import numpy as np\n", "import itertools\nimport numpy as np\n"),
]

R["match_positioners"] = [
 (P + "match_positioners.py", '''    lens = [len(r) for r in res]
    m1 = np.repeat(np.arange(len(x1), dtype='i4'), lens)
    if sum([len(r) for r in res]) == 0:
        m2 = m1.copy()
    else:
        m2 = np.concatenate([r for r in res if len(r) > 0])
    d12 = np.sqrt(np.sum((xx1[m1, :]-xx2[m2, :])**2, axis=1))
    return m1, m2, d12
''', '''    pairs = [(i, j) for i, r in enumerate(res) for j in r]
    m1 = np.array([p[0] for p in pairs], dtype='i4')
    m2 = np.array([p[1] for p in pairs], dtype=int)
    d12 = np.hypot(*(xx1[m1]-xx2[m2]).T)
    return m1, m2, d12
'''),
 (P + "match_positioners.py", '''    sa = np.argsort(a)
    if len(np.unique(a)) != len(a):
        raise ValueError('All keys in a must be unique.')
    ind = np.searchsorted(a[sa], b)
    m = (ind >= 0) & (ind < len(a))
    matches = a[sa[ind[m]]] == b[m]
    m[m] &= matches
    return sa[ind[m]], np.flatnonzero(m)
''', '''    if len(np.unique(a)) != len(a):
        raise ValueError('All keys in a must be unique.')
    order = np.argsort(a)
    ind = np.searchsorted(a[order], b)
    found = np.flatnonzero(ind < len(a))
    ia = order[ind[found]]
    same = a[ia] == b[found]
    return ia[same], found[same]
'''),
 (P + "match_positioners.py", '''    okdistance = np.array([d0 < a0
                           for (d0, a0) in zip(dmf, metrarmlen[mm])], dtype=bool)
''', '''    okdistance = dmf < metrarmlen[mm]
'''),
 (P + "match_positioners.py", '''    for i, j in zip(mm, mf):
        score_matrix[i, j] = 1
''', '''    score_matrix[mm, mf] = 1
'''),
 (P + "match_positioners.py", '''    assignment = linear_sum_assignment(-score_matrix)
    score = np.sum([score_matrix[i, j] for (i, j) in zip(*assignment)])
    return assignment + (score,)
''', '''    rows, cols = linear_sum_assignment(score_matrix, maximize=True)
    return rows, cols, np.sum(score_matrix[rows, cols])
'''),
]

R["circles"] = [
 (P + "circles.py", '''    num   = (ny[i2]*mx[i2]-nx[i2]*my[i2]-ny[i2]*mx[i1]+nx[i2]*my[i1])
    denom = (ny[i2]*nx[i1]-nx[i2]*ny[i1])
    ok = (denom!=0)
    s1 = np.zeros(nn)
    s1[ok] = num[ok]/denom[ok]
''', '''    nx2,ny2 = nx[i2],ny[i2]
    denom = ny2*nx-nx2*ny
    num   = ny2*(mx[i2]-mx)-nx2*(my[i2]-my)
    s1 = np.zeros(nn)
    crossing = np.flatnonzero(denom)
    s1[crossing] = num[crossing]/denom[crossing]
'''),
 (P + "circles.py", '''    xc=mx[i1]+nx[i1]*s1[i1]
    yc=my[i1]+ny[i1]*s1[i1]
''', '''    xc=mx+nx*s1
    yc=my+ny*s1
'''),
 (P + "circles.py", '''    if use_median :
        xc=np.median(xc)
        yc=np.median(yc)
        r=np.median(np.hypot(x-xc, y-yc))
    else :
        xc=np.mean(xc)
        yc=np.mean(yc)
        r=np.mean(np.hypot(x-xc, y-yc))

    return xc,yc,r
''', '''    average = np.median if use_median else np.mean
    xc=average(xc)
    yc=average(yc)
    return xc,yc,average(np.hypot(x-xc, y-yc))
'''),
 (P + "circles.py", '''    if (r < 1.0) or (r > 5.0):
        raise ValueError('Bad circle fit')

    def calc_R''', '''    if not (1.0 <= r <= 5.0):
        raise ValueError('Bad circle fit')

    def calc_R'''),
]

R["circles_robust"] = [
 (P + "circles.py", '''    ok=np.repeat(True,x.size)
    for _ in range(12) :
        xc,yc,r = _fast_fit_circle(x[ok],y[ok],use_median=True)
        print(xc,yc,r)
        radii = np.hypot(x-xc, y-yc)
        res = np.abs(radii-r)
        rms = 1.483*np.median(res)
        worst = np.argmax(res)
        if (res[worst] < nsig*rms) or (res[worst] < minerr) :
            break
        ok[worst]=False
''', '''    ok=np.ones(x.size,dtype=bool)
    iteration=0
    while iteration < 12 :
        iteration += 1
        xc,yc,r = _fast_fit_circle(x[ok],y[ok],use_median=True)
        print(xc,yc,r)
        res = np.abs(np.hypot(x-xc, y-yc)-r)
        worst = res.argmax()
        threshold = max(nsig*1.483*np.median(res), minerr)
        if res[worst] < threshold :
            break
        ok[worst]=False
'''),
]

R["zhaoburge"] = [
 (P + "transform/zhaoburge.py", '''    for polid, coeff in zip(polids,coeffs):
        zbx, zby, _ = getZhaoBurgeTerm(polid, x, y)
        dx += coeff*zbx
        dy += coeff*zby

    return dx, dy
''', '''    for i in range(min(len(polids), len(coeffs))):
        term = getZhaoBurgeTerm(polids[i], x, y)
        dx = dx + coeffs[i]*term[0]
        dy = dy + coeffs[i]*term[1]

    return dx, dy
'''),
 (P + "transform/zhaoburge.py", '''    x = x + offset_x
    y = y + offset_y
    xx = (x*np.cos(rotation) - y*np.sin(rotation))*scale # + offset_x
    yy = (x*np.sin(rotation) + y*np.cos(rotation))*scale # + offset_y
''', '''    c = scale*np.cos(rotation)
    s = scale*np.sin(rotation)
    xo = x + offset_x
    yo = y + offset_y
    yy = s*xo + c*yo
    xx = c*xo - s*yo
'''),
 (P + "transform/zhaoburge.py", '''    if n > 1:
       return int(n*factorial(n-1))
    else:
       return 1
''', '''    result = 1
    while n > 1:
        result = int(result*n)
        n = n-1
    return result
'''),
 (P + "transform/zhaoburge.py", '''    m = nm[1]    # B&W
    if m==0:
        return 1.
    if m>0:
        return np.cos(m*theta)
    m = np.abs(m)         # note this abs() function
    return np.sin(m*theta)
''', '''    m = nm[1]    # B&W
    if m<0:
        return np.sin(-m*theta)
    return np.cos(m*theta) if m>0 else 1.
'''),
 (P + "transform/zhaoburge.py", '''    rnorm = np.sqrt(xnorm*xnorm + ynorm*ynorm)
    angle = np.arctan2(ynorm,xnorm)
    return getZernRadial(nm,rnorm) * getZernAngular(nm,angle)
''', '''    angle = np.arctan2(ynorm,xnorm)
    return getZernAngular(nm,angle) * getZernRadial(nm, np.hypot(xnorm,ynorm))
'''),
 (P + "transform/zhaoburge.py", '''    A = H.T.dot(H)
    b = H.T.dot(np.concatenate([dx, dy]))
    coeffs = np.linalg.solve(A, b)
''', '''    target = np.concatenate([dx, dy])
    coeffs = np.linalg.solve(H.T @ H, H.T @ target)
'''),
 (P + "transform/zhaoburge.py", '''        expon = int(n-2*i)
        sign = 1 if i%2 == 0 else -1
        numer = sign * factorial(n-i)
        denom = factorial(i) * factorial(halfsum-i) * factorial(halfdif-i)
        coef = numer / denom
        term = coef*np.power(rnorm, expon)
        result = result + term
    return result
''', '''        denom = factorial(i) * factorial(halfsum-i) * factorial(halfdif-i)
        coef = (-1)**i * factorial(n-i) / denom
        result += coef*np.power(rnorm, int(n-2*i))
    return result
'''),
]

R["fvc2fp"] = [
 (P + "transform/fvc2fp.py", '''        dx = dy = 0.0
        for _ in range(20):
            dx2, dy2 = getZhaoBurgeXY(self.zbpolids, self.zbcoeffs, rxfp-dx, ryfp-dy)
            dmax = max(np.max(np.abs(dx2-dx)), np.max(np.abs(dy2-dy)))
            dx, dy = dx2, dy2
            if dmax < 1e-12:
                break
        rxfp -= dx
        ryfp -= dy

        #- Then apply inverse scale, rotation, offset
        rxfp /= self.scale
        ryfp /= self.scale

        xx = (rxfp*np.cos(-self.rotation) - ryfp*np.sin(-self.rotation))
        yy = (rxfp*np.sin(-self.rotation) + ryfp*np.cos(-self.rotation))

        xx -= self.offset_x
        yy -= self.offset_y

        xpix, ypix = self._expand_xyfvc(xx, yy)

        return xpix, ypix
''', '''        dx, dy = self._distortion(rxfp, ryfp)

        #- Then apply inverse scale, rotation, offset
        rxfp = (rxfp-dx)/self.scale
        ryfp = (ryfp-dy)/self.scale

        c = np.cos(self.rotation)
        s = np.sin(self.rotation)
        xx =  c*rxfp + s*ryfp - self.offset_x
        yy = -s*rxfp + c*ryfp - self.offset_y

        return self._expand_xyfvc(xx, yy)

    def _distortion(self, rxfp, ryfp):
        dx = dy = 0.0
        niter = 0
        dmax = np.inf
        while niter < 20 and dmax >= 1e-12:
            dx2, dy2 = getZhaoBurgeXY(self.zbpolids, self.zbcoeffs, rxfp-dx, ryfp-dy)
            dmax = max(np.max(np.abs(dx2-dx)), np.max(np.abs(dy2-dy)))
            dx, dy = dx2, dy2
            niter += 1
        return dx, dy
'''),
 (P + "transform/fvc2fp.py", '''        params['xfvc_scale'] = self.xfvc_scale
        params['yfvc_scale'] = self.yfvc_scale
        params['xfvc_offset'] = self.xfvc_offset
        params['yfvc_offset'] = self.yfvc_offset
        params['scale'] = self.scale
        params['rotation'] = self.rotation
        params['offset_x'] = self.offset_x
        params['offset_y'] = self.offset_y
''', '''        for name in ['xfvc_scale', 'yfvc_scale', 'xfvc_offset', 'yfvc_offset',
                     'scale', 'rotation', 'offset_x', 'offset_y']:
            params[name] = getattr(self, name)
'''),
 (P + "transform/fvc2fp.py", '''        if params['version'] == '1' :
            tx.scale = params['scale']
            tx.rotation = params['rotation']
            tx.offset_x = params['offset_x']
            tx.offset_y = params['offset_y']
            tx.zbpolids = np.array([2,  5,  6,   9,  20,  28, 29,  30],dtype=int)
            tx.zbcoeffs = np.asarray(params['zbcoeffs']).astype(float)
        elif params['version'] == '2' :
            tx.scale = params['scale']
            tx.rotation = params['rotation']
            tx.offset_x = params['offset_x']
            tx.offset_y = params['offset_y']
            tx.zbpolids = np.asarray(params['zbpolids'])
            tx.zbcoeffs = np.asarray(params['zbcoeffs']).astype(float)
        else :
            raise RuntimeError("don't know version {}".format(params['version']))
''', '''        version = params['version']
        if version not in ('1', '2') :
            raise RuntimeError("don't know version {}".format(version))
        if version == '1' :
            tx.zbpolids = np.array([2,  5,  6,   9,  20,  28, 29,  30],dtype=int)
        else :
            tx.zbpolids = np.asarray(params['zbpolids'])
        tx.zbcoeffs = np.asarray(params['zbcoeffs']).astype(float)
        for name in ('scale', 'rotation', 'offset_x', 'offset_y') :
            setattr(tx, name, params[name])
'''),
]

R["fvc2fp_fit"] = [
 (P + "transform/fvc2fp.py", '''        if fixed_rotation :
            fixed_rotation_value = self.rotation
            log.info("Use fixed rotation = {:5.4f}".format(fixed_rotation_value))
        else :
            fixed_rotation_value = None
''', '''        fixed_rotation_value = self.rotation if fixed_rotation else None
        if fixed_rotation :
            log.info("Use fixed rotation = {:5.4f}".format(fixed_rotation_value))
'''),
 (P + "transform/fvc2fp.py", '''        self.scale = res[0]
        self.rotation = res[1]
        self.offset_x = res[2]
        self.offset_y = res[3]
        if zbfit :
            self.zbpolids = res[4]
            self.zbcoeffs = res[5]
''', '''        self.scale, self.rotation, self.offset_x, self.offset_y = res[:4]
        if zbfit :
            self.zbpolids, self.zbcoeffs = res[4:]
'''),
 (P + "transform/fvc2fp.py", '''            iifid = (spots['LOCATION']>0) & (spots['PINHOLE_ID']>0)
            fidspots_pinloc = (spots['LOCATION']*10 + spots['PINHOLE_ID'])[iifid]
            metro_pinloc = metrology['LOCATION']*10 + metrology['PINHOLE_ID']

            ii = np.argsort(np.argsort(fidspots_pinloc))
            jj = np.argsort(metro_pinloc)
            kk = jj[ii]
''', '''            iifid = (spots['LOCATION']>0) & (spots['PINHOLE_ID']>0)
            metro_pinloc = np.asarray(metrology['LOCATION']*10 + metrology['PINHOLE_ID'])
            fidspots_pinloc = np.asarray((spots['LOCATION']*10 + spots['PINHOLE_ID'])[iifid])

            jj = np.argsort(metro_pinloc)
            kk = jj[np.searchsorted(metro_pinloc[jj], fidspots_pinloc)]
'''),
]

R["raytracefit"] = [
 (P + "transform/tan2fp/raytracefit.py", '''        scale    = interp1d(dadc_array,self.scale[sorted_indices],'cubic')(dadc_arg)
        rotation = interp1d(dadc_array,self.rotation[sorted_indices],'cubic')(dadc_arg)
        offset_x = interp1d(dadc_array,self.offset_x[sorted_indices],'cubic')(dadc_arg)
        offset_y = interp1d(dadc_array,self.offset_y[sorted_indices],'cubic')(dadc_arg)
        zbcoeffs = np.zeros(self.zbcoeffs.shape[1])
        for i in range(self.zbcoeffs.shape[1]) :
            zbcoeffs[i] = interp1d(dadc_array,self.zbcoeffs[sorted_indices,i],'cubic')(dadc_arg)

        return scale,rotation,offset_x,offset_y,zbcoeffs
''', '''        def at_dadc(values) :
            return interp1d(dadc_array,values[sorted_indices],'cubic')(dadc_arg)

        zbcoeffs = np.array([at_dadc(column) for column in self.zbcoeffs.T])
        return at_dadc(self.scale),at_dadc(self.rotation),at_dadc(self.offset_x),at_dadc(self.offset_y),zbcoeffs
'''),
 (P + "transform/tan2fp/raytracefit.py", '''        for _ in range(20):
            dx2, dy2 = getZhaoBurgeXY(self.zbpolids, zbcoeffs, rrxfp-dx, rryfp-dy)
            dmax = max(np.max(np.abs(dx2-dx)), np.max(np.abs(dy2-dy)))
            dx, dy = dx2, dy2
            if dmax < 1e-12:
                break

        rrxfp -= dx
        rryfp -= dy

        #- Then apply inverse scale, roation, offset
        rrxfp /= scale
        rryfp /= scale

        rxx = (rrxfp*np.cos(-rotation) - rryfp*np.sin(-rotation))
        ryy = (rrxfp*np.sin(-rotation) + rryfp*np.cos(-rotation))

        rxx -= offset_x
        ryy -= offset_y
''', '''        for _ in range(20):
            px, py = dx, dy
            dx, dy = getZhaoBurgeXY(self.zbpolids, zbcoeffs, rrxfp-px, rryfp-py)
            if max(np.max(np.abs(dx-px)), np.max(np.abs(dy-py))) < 1e-12:
                break

        #- Then apply inverse scale, roation, offset
        ux = (rrxfp-dx)/scale
        uy = (rryfp-dy)/scale
        cr, sr = np.cos(rotation), np.sin(rotation)
        rxx = cr*ux + sr*uy - offset_x
        ryy = cr*uy - sr*ux - offset_y
'''),
 (P + "transform/tan2fp/raytracefit.py", '''    if ((adc1 - adc2) % 360) == 0:
        return adc1 % 360
    return average_angles_deg(adc1+90, adc2-90)
''', '''    aligned = (adc1 - adc2) % 360 == 0
    return adc1 % 360 if aligned else average_angles_deg(adc1+90, adc2-90)
'''),
 (P + "transform/tan2fp/raytracefit.py", '''    global raytracefit_instance
    if raytracefit_instance is None :
        filename = resource_files('desimeter').joinpath('data/raytrace-tan2fp.json')
        raytracefit_instance = TAN2FP_RayTraceFit.read_jsonfile(filename=filename)
    return raytracefit_instance
''', '''    global raytracefit_instance
    if raytracefit_instance is not None :
        return raytracefit_instance
    filename = resource_files('desimeter').joinpath('data/raytrace-tan2fp.json')
    raytracefit_instance = TAN2FP_RayTraceFit.read_jsonfile(filename=filename)
    return raytracefit_instance
'''),
]

R["dm2pm"] = [
 (P + "transform/dm2pm.py", '''        rx,ry   = self._reduce_xy(x,y)
        dx,dy = getZhaoBurgeXY(self.zbpolids,self.dm2pm_zbcoeffs,rx,ry)
        x2,y2   = self._expand_xy(rx+dx,ry+dy)
        return x2,y2
''', '''        return self._distort(self.dm2pm_zbcoeffs, x, y)

    def _distort(self, coeffs, x, y):
        rx,ry = self._reduce_xy(x,y)
        dx,dy = getZhaoBurgeXY(self.zbpolids,coeffs,rx,ry)
        return self._expand_xy(rx+dx,ry+dy)
'''),
 (P + "transform/dm2pm.py", '''        rx,ry   = self._reduce_xy(x,y)
        dx,dy = getZhaoBurgeXY(self.zbpolids,self.pm2dm_zbcoeffs,rx,ry)
        x2,y2   = self._expand_xy(rx+dx,ry+dy)
        return x2,y2
''', '''        return self._distort(self.pm2dm_zbcoeffs, x, y)
'''),
]

R["simplecorr"] = [
 (P + "simplecorr.py", '''        params['dx'] = self.dx
        params['dy'] = self.dy
        params['sxx'] = self.sxx
        params['syy'] = self.syy
        params['sxy'] = self.sxy
        params['rot_deg'] = self.rot_deg
        params['nmatch'] = self.nmatch
        params['rms'] = self.rms
        return json.dumps(params)
''', '''        for name in self._fields :
            params[name] = getattr(self, name)
        return json.dumps(params)
'''),
 (P + "simplecorr.py", '''        tx.dx = params['dx']
        tx.dy = params['dy']
        tx.sxx = params['sxx']
        tx.syy = params['syy']
        tx.sxy = params['sxy']
        tx.rot_deg = params['rot_deg']
        tx.nmatch = params['nmatch']
        tx.rms = params['rms']
        return tx
''', '''        for name in cls._fields :
            setattr(tx, name, params[name])
        return tx
'''),
 (P + "simplecorr.py", '''class SimpleCorr(object):
''', '''class SimpleCorr(object):

    _fields = ('dx', 'dy', 'sxx', 'syy', 'sxy', 'rot_deg', 'nmatch', 'rms')
'''),
 (P + "simplecorr.py", '''        H=np.zeros((3,self.nmatch))
        H[0] = 1.
        H[1] = x1
        H[2] = y1
        A = H.dot(H.T)
        Ai = np.linalg.inv(A)
        ax = Ai.dot(np.sum(x2*H,axis=1))
        x2p = ax[0] + ax[1]*x1 + ax[2]*y1 # x2p = predicted x2 from x1 (=x1 after telescope pointing offset)
        ay = Ai.dot(np.sum(y2*H,axis=1))
        y2p = ay[0] + ay[1]*x1 + ay[2]*y1 # y2p = predicted y2 from y1
''', '''        H = np.vstack([np.ones(self.nmatch), x1, y1])
        Ai = np.linalg.inv(H.dot(H.T))
        ax = Ai.dot(H.dot(x2))
        ay = Ai.dot(H.dot(y2))
        x2p = ax.dot(H)
        y2p = ay.dot(H)
'''),
 (P + "simplecorr.py", '''        xy=scale_matrix.dot(rot_matrix.dot(np.array([x,y])))
        return xy[0]+self.dx,xy[1]+self.dy
''', '''        xs,ys = (scale_matrix @ rot_matrix).dot(np.array([x,y]))
        return self.dx+xs,self.dy+ys
'''),
]

R["simplecorr_rotoff"] = [
 (P + "simplecorr.py", '''        A = np.zeros((2*n, 4))
        A[0:n, 0] = x1
        A[n:, 0]  = y1
        A[0:n, 1] = -y1
        A[n:, 1]  = x1
        A[0:n, 2] = 1
        A[n:, 2]  = 0
        A[0:n, 3] = 0
        A[n:, 3]  = 1

        ATv = A.T.dot(v)
        ATA = A.T.dot(A)
        p = np.linalg.solve(ATA, ATv)

        self.rot_deg = arctan2d(p[1], p[0])
        self.dx = p[2]
        self.dy = p[3]
        self.sxx = 1.
        self.syy = 1.
        self.sxy = 0.
''', '''        one, zero = np.ones(n), np.zeros(n)
        A = np.column_stack([np.concatenate([x1, y1]), np.concatenate([-y1, x1]),
                             np.concatenate([one, zero]), np.concatenate([zero, one])])
        ca, sa, dx, dy = np.linalg.solve(A.T.dot(A), A.T.dot(v))

        self.sxx = self.syy = 1.
        self.sxy = 0.
        self.dx, self.dy = dx, dy
        self.rot_deg = arctan2d(sa, ca)
'''),
]

R["rszn"] = [
 (P + "transform/rszn_lookups.py", '''    return np.interp(r, R, S, left=oob, right=oob)
''', '''    return _lookup(r, R, S)
'''),
 (P + "transform/rszn_lookups.py", '''    return np.interp(s, S, R, left=oob, right=oob)
''', '''    return _lookup(s, S, R)
'''),
 (P + "transform/rszn_lookups.py", '''    return np.interp(r, R, Z, left=oob, right=oob)
''', '''    return _lookup(r, R, Z)
'''),
 (P + "transform/rszn_lookups.py", '''    return np.interp(z, Z[::-1], R[::-1], left=oob, right=oob)
''', '''    return _lookup(-z, -Z, R)
'''),
 (P + "transform/rszn_lookups.py", '''def r2s(r):
''', '''def _lookup(value, xs, ys):
    return np.interp(value, xs, ys, left=oob, right=oob)

def r2s(r):
'''),
]

R["detectspots_psf"] = [
 (P + "detectspots.py", '''def psf(i0,i1,xc,yc,sigma):
    a=1/(np.sqrt(2)*sigma)
    return 0.25*(erf(a*(i1+0.5-xc))-erf(a*(i1-0.5-xc)))*(erf(a*(i0+0.5-yc))-erf(a*(i0-0.5-yc)))
''', '''def _pixel_integral(i,c,a):
    return erf(a*(i+0.5-c))-erf(a*(i-0.5-c))

def psf(i0,i1,xc,yc,sigma):
    a=1/(np.sqrt(2)*sigma)
    return 0.5*_pixel_integral(i1,xc,a) * 0.5*_pixel_integral(i0,yc,a)
'''),
 (P + "detectspots.py", '''    hw=int(3*sigma)
    x2d=np.tile(np.arange(-hw,hw+1),(2*hw+1,1))
    kernel = np.exp(-(x2d**2+x2d.T**2)/2./sigma**2)
    kernel /= np.sum(kernel)
''', '''    hw=int(3*sigma)
    x1d=np.arange(-hw,hw+1)
    g=np.exp(-x1d**2/(2.*sigma**2))
    kernel=np.outer(g,g)
    kernel=kernel/kernel.sum()
'''),
 (P + "detectspots.py", '''    xc=np.sum(x1d*np.sum(stamp,axis=0))/norm
    yc=np.sum(x1d*np.sum(stamp,axis=1))/norm
''', '''    yc=np.dot(stamp.sum(axis=1),x1d)/norm
    xc=np.dot(stamp.sum(axis=0),x1d)/norm
'''),
]

R["detectspots_fit"] = [
 (P + "detectspots.py", '''    ii0 = np.tile(np.arange(n0),(n1,1)).T
    ii1 = np.tile(np.arange(n1),(n0,1))
''', '''    ii0,ii1 = np.indices((n0,n1))
'''),
 (P + "detectspots.py", '''        H=np.array([mod,flux*dmoddx,flux*dmoddy]).reshape(3,n0*n1)
        B=((stamp-flux*mod).reshape(n0*n1)*H).sum(axis=1)
        A=H.dot(H.T)
        Ai=np.linalg.inv(A)
        delta=Ai.dot(B)
        val=np.max(np.abs(delta[1:]))
        if val>0.2:
            delta *= (0.2/val) # limiting range
''', '''        H=np.array([mod.ravel(),flux*dmoddx.ravel(),flux*dmoddy.ravel()])
        residuals=(stamp-flux*mod).ravel()
        Ai=np.linalg.inv(H.dot(H.T))
        delta=Ai.dot(H.dot(residuals))
        step=max(abs(delta[1]),abs(delta[2]))
        if step>0.2:
            delta = delta*(0.2/step) # limiting range
'''),
]

R["findfiducials"] = [
 (P + "findfiducials.py", '''        pinhole_ids = np.zeros(x1.size,dtype=int)
        matched=(indices_2>=0)
        pinhole_ids[matched] = metrology_pinhole_ids[indices_2[matched]]
''', '''        matched=(indices_2>=0)
        pinhole_ids = np.where(matched, metrology_pinhole_ids[indices_2], 0)
'''),
 (P + "findfiducials.py", '''    spots["LOCATION"][:]=-1
    spots["PETAL_LOC"][:]=-1
    spots["DEVICE_LOC"][:]=-1
    spots["PINHOLE_ID"][:]=0
''', '''    for k in ['LOCATION','PETAL_LOC','DEVICE_LOC'] :
        spots[k][:]=-1
    spots["PINHOLE_ID"][:]=0
'''),
 (P + "findfiducials.py", '''    ii=(spots["LOCATION"]>=0)
    spots["PETAL_LOC"][ii]=spots["LOCATION"][ii]//1000
    spots["DEVICE_LOC"][ii]=spots["LOCATION"][ii]%1000
''', '''    ii=np.where(spots["LOCATION"]>=0)[0]
    petal,device=np.divmod(spots["LOCATION"][ii],1000)
    spots["PETAL_LOC"][ii]=petal
    spots["DEVICE_LOC"][ii]=device
'''),
 (P + "findfiducials.py", '''        ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
        mx=np.mean(metrology_pinholes_table["XPIX"][ii])
        my=np.mean(metrology_pinholes_table["YPIX"][ii])
        k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
        central_pinholes.append(ii[k])
''', '''        ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
        px=metrology_pinholes_table["XPIX"][ii]
        py=metrology_pinholes_table["YPIX"][ii]
        central_pinholes.append(ii[np.argmin((px-np.mean(px))**2+(py-np.mean(py))**2)])
'''),
]

R["fiberassign_tune"] = [
 (P + "fiberassign.py", '''    # start with pointing = tile center
    tel_ra=tile_ra+0.
    tel_dec=tile_dec+0.

    # tune telescope pointing given ADC angle
    # in order to fp coordinates of tile RA and DEC, it's not zero because of the ADC angles
    for _ in range(2) :

        xtan,ytan = radec2tan(np.array([tile_ra]),np.array([tile_dec]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_0,yfp_0   = tan2fp(xtan,ytan,adc1,adc2) #mm
        #log.info("Temp tile center in FP coordinates = {},{} mm".format(xfp_0[0],yfp_0[0]))

        # numeric derivative
        eps = 1./3600. #
        xtan,ytan = radec2tan(np.array([tile_ra+eps]),np.array([tile_dec]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_dra,yfp_dra   = tan2fp(xtan,ytan,adc1,adc2) #mm
        xtan,ytan = radec2tan(np.array([tile_ra]),np.array([tile_dec+eps]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp_ddec,yfp_ddec   = tan2fp(xtan,ytan,adc1,adc2) #mm
        dxdra=(xfp_dra[0]-xfp_0[0])/eps
        dydra=(yfp_dra[0]-yfp_0[0])/eps
        dxddec=(xfp_ddec[0]-xfp_0[0])/eps
        dyddec=(yfp_ddec[0]-yfp_0[0])/eps
        J=[[dxdra,dxddec],[dydra,dyddec]]

        # solve linear system to get tile RA Dec at center of fov
        Jinv=np.linalg.inv(J)
        X=Jinv.dot([xfp_0[0],yfp_0[0]])
        dra=X[0]
        ddec=X[1]

        # apply offset to telescope pointing
        tel_ra += dra
        tel_dec += ddec
''', '''    tel_ra,tel_dec = _tune_pointing(tile_ra,tile_dec,tile_mjd,lst,adc1,adc2,use_hardcoded_polmis_rotmat)
''', "all"),
 (P + "fiberassign.py", '''def fiberassign_radec2xy_cs5(''', '''def _tune_pointing(tile_ra,tile_dec,tile_mjd,lst,adc1,adc2,use_hardcoded_polmis_rotmat) :
    """Telescope pointing for which the tile center is at X=0,Y=0 given the ADC angles"""

    # start with pointing = tile center
    tel_ra=tile_ra+0.
    tel_dec=tile_dec+0.

    def center(ra,dec) :
        xtan,ytan = radec2tan(np.array([ra]),np.array([dec]),tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
        xfp,yfp   = tan2fp(xtan,ytan,adc1,adc2) #mm
        return np.array([xfp[0],yfp[0]])

    eps = 1./3600.
    for _ in range(2) :
        xy = center(tile_ra,tile_dec)
        # numeric derivative
        J = np.column_stack([(center(tile_ra+eps,tile_dec)-xy)/eps,
                             (center(tile_ra,tile_dec+eps)-xy)/eps])
        # solve linear system to get tile RA Dec at center of fov
        dra,ddec = np.linalg.inv(J).dot(xy)
        # apply offset to telescope pointing
        tel_ra += dra
        tel_dec += ddec
    return tel_ra,tel_dec

def fiberassign_radec2xy_cs5('''),
]

R["fiberassign_small"] = [
 (P + "fiberassign.py", '''    if ( (adc1 is None) and (adc2 is not None) ) or ( (adc1 is not None) and (adc2 is None) ) :
        raise ValueError("either set both adc angles or none")

    if adc1 is None :
        adc1,adc2 =  pm_get_adc_angles(tile_ha,tile_dec)
''', '''    if (adc1 is None) != (adc2 is None) :
        raise ValueError("either set both adc angles or none")
    if adc2 is None :
        adc1,adc2 =  pm_get_adc_angles(tile_ha,tile_dec)
''', "all"),
 (P + "fiberassign.py", '''    ok = (~(np.isnan(ha*dec*xfp_mm*yfp_mm)))&(xfp_mm**2+yfp_mm**2>10**2)
    x2,y2=hadec2xy(ha[ok],dec[ok],tel_ha,tel_dec) # rad
    norm=np.sqrt((xfp_mm[ok]**2+yfp_mm[ok]**2)*(x2**2+y2**2))
    return np.rad2deg(np.arctan2(np.mean((yfp_mm[ok]*x2-xfp_mm[ok]*y2)/norm),np.mean((xfp_mm[ok]*x2+yfp_mm[ok]*y2)/norm)))
''', '''    r2_mm = xfp_mm**2+yfp_mm**2
    ok = (~(np.isnan(ha*dec*xfp_mm*yfp_mm)))&(r2_mm>10**2)
    x1,y1=xfp_mm[ok],yfp_mm[ok]
    x2,y2=hadec2xy(ha[ok],dec[ok],tel_ha,tel_dec) # rad
    norm=np.hypot(x1,y1)*np.hypot(x2,y2)
    mean_sin=np.mean((y1*x2-x1*y2)/norm)
    mean_cos=np.mean((x1*x2+y1*y2)/norm)
    return np.rad2deg(np.arctan2(mean_sin,mean_cos))
'''),
 (P + "fiberassign.py", '''    drot = tile_fieldrot-tmp_fieldrot
    s,c = sincosd(drot)
    xfp = c * tmp_xfp - s * tmp_yfp
    yfp = s * tmp_xfp + c * tmp_yfp
''', '''    xfp,yfp = rot2deg(tile_fieldrot-tmp_fieldrot).dot(np.array([tmp_xfp,tmp_yfp]))
'''),
 (P + "fiberassign.py", "from desimeter.trig import sincosd\n", "from desimeter.trig import sincosd, rot2deg\n"),
 (P + "fiberassign.py", '''    dadc = pm_zd2deltaadc(zd)
    adc1 = psi + dadc/2.
    adc2 = psi - dadc/2.
    return adc1, adc2
''', '''    half = pm_zd2deltaadc(zd)/2.
    return psi + half, psi - half
'''),
]

R["fieldmodel_tancorr"] = [
 (P + "fieldmodel.py", '''        t2t = TanCorr()
        t2t.dha  = 0. # because already included in self.ra
        t2t.ddec = 0. # because already included in self.dec
        # dilatation params
        t2t.sxx = self.sxx
        t2t.syy = self.syy
        t2t.sxy = self.sxy
        # rotation params
        t2t.rot_deg = self.fieldrot_zp_deg
        return t2t.apply(x_tan,y_tan)
''', '''        return self._tancorr().apply(x_tan,y_tan)

    def _tancorr(self) :
        # pointing offsets are 0 because already included in self.ra, self.dec
        t2t = TanCorr()
        for name in ('sxx','syy','sxy') :
            setattr(t2t, name, getattr(self, name))
        t2t.rot_deg = self.fieldrot_zp_deg
        return t2t
'''),
 (P + "fieldmodel.py", '''        t2t = TanCorr()
        t2t.dha  = 0. # because already included in self.ra
        t2t.ddec = 0. # because already included in self.dec
        # dilatation params
        t2t.sxx = self.sxx
        t2t.syy = self.syy
        t2t.sxy = self.sxy
        # rotation params
        t2t.rot_deg = self.fieldrot_zp_deg
        return t2t.apply_inverse(x_tan,y_tan)
''', '''        return self._tancorr().apply_inverse(x_tan,y_tan)
'''),
 (P + "fieldmodel.py", '''        x_tan,y_tan = fp2tan(x_fp,y_fp,self.adc1,self.adc2)
        x_tan,y_tan = self.tancorr_inst2sky(x_tan,y_tan) # correction
        ra,dec = tan2radec(x_tan,y_tan,self.ra,self.dec,mjd=self.mjd,lst_deg=self.lst,hexrot_deg = self.hexrot_deg, precession = self.precession, aberration = self.aberration, polar_misalignment = self.polar_misalignment)
        return ra,dec
''', '''        x_tan,y_tan = self.tancorr_inst2sky(*fp2tan(x_fp,y_fp,self.adc1,self.adc2))
        return tan2radec(x_tan,y_tan,self.ra,self.dec,**self._settings())

    def _settings(self) :
        return dict(mjd=self.mjd,lst_deg=self.lst,hexrot_deg=self.hexrot_deg,precession=self.precession,
                    aberration=self.aberration,polar_misalignment=self.polar_misalignment)
'''),
 (P + "fieldmodel.py", '''        x_tan,y_tan = radec2tan(ra,dec,self.ra,self.dec,mjd=self.mjd,lst_deg=self.lst,hexrot_deg = self.hexrot_deg, precession = self.precession, aberration = self.aberration, polar_misalignment = self.polar_misalignment)
        x_tan,y_tan = self.tancorr_sky2inst(x_tan,y_tan) # correction
        x_fp,y_fp   = tan2fp(x_tan,y_tan,self.adc1,self.adc2)
        return x_fp,y_fp
''', '''        x_tan,y_tan = radec2tan(ra,dec,self.ra,self.dec,**self._settings())
        x_tan,y_tan = self.tancorr_sky2inst(x_tan,y_tan) # correction
        return tan2fp(x_tan,y_tan,self.adc1,self.adc2)
'''),
]

R["fieldmodel_fit"] = [
 (P + "fieldmodel.py", '''        x1t=x1+0.
        y1t=y1+0.
        ha,dec = xy2hadec(x1,y1,0,0)
        for _ in range(4):
            x1t,y1t  = hadec2xy(ha,dec,self.dha,self.ddec)
            dx = np.mean(x2-x1t)
            dy = np.mean(y2-y1t)
            self.dha  -= np.rad2deg(dx)
            self.ddec -= np.rad2deg(dy)
        x1t,y1t  = hadec2xy(ha,dec,self.dha,self.ddec)
''', '''        ha,dec = xy2hadec(x1,y1,0,0)
        x1t,y1t  = hadec2xy(ha,dec,self.dha,self.ddec)
        for _ in range(4):
            self.dha  -= np.rad2deg(np.mean(x2-x1t))
            self.ddec -= np.rad2deg(np.mean(y2-y1t))
            x1t,y1t  = hadec2xy(ha,dec,self.dha,self.ddec)
'''),
 (P + "fieldmodel.py", '''        phi = np.arange(4)*np.pi/2.
        x1 = np.append(0., np.deg2rad(np.cos(phi)))
        y1 = np.append(0., np.deg2rad(np.sin(phi)))
''', '''        one_deg = np.deg2rad(1.)
        phi = np.arange(4)*np.pi/2.
        x1 = np.concatenate([[0.], one_deg*np.cos(phi)])
        y1 = np.concatenate([[0.], one_deg*np.sin(phi)])
'''),
 (P + "fieldmodel.py", '''    min_val = -1.5
    max_val = 1.5
    rotation_rate_arcsec_per_min[rotation_rate_arcsec_per_min<min_val] = min_val
    rotation_rate_arcsec_per_min[rotation_rate_arcsec_per_min>max_val] = max_val

    if scalar :
        return rotation_rate_arcsec_per_min[0]
    else :
        return rotation_rate_arcsec_per_min
''', '''    rate = np.clip(rotation_rate_arcsec_per_min, -1.5, 1.5)
    return rate[0] if scalar else rate
'''),
 (P + "fieldmodel.py", '''    ha = ha%360.
    ha[ha>180.] -= 360.
''', '''    ha = np.mod(ha, 360.)
    ha = np.where(ha>180., ha-360., ha)
'''),
 (P + "fieldmodel.py", '''        det = self.sxx*self.syy - self.sxy**2
        scale_matrix = np.array([[self.syy,-self.sxy],[-self.sxy,self.sxx]])/det
        rot_matrix = rot2deg(-self.rot_deg)
        # mirror order of apply
        xy=rot_matrix.dot(scale_matrix.dot(np.array([x,y])))
        ha,dec = xy2hadec(xy[0],xy[1],self.dha,self.ddec)
        return hadec2xy(ha,dec,0,0)
''', '''        scale_matrix = np.array([[self.sxx,self.sxy],[self.sxy,self.syy]])
        # mirror order of apply
        xt,yt = rot2deg(self.rot_deg).T.dot(np.linalg.inv(scale_matrix).dot(np.array([x,y])))
        ha,dec = xy2hadec(xt,yt,self.dha,self.ddec)
        return hadec2xy(ha,dec,0,0)
'''),
]

R["fitter_failures"] = [
 (P + "posparams/fitter.py", '''        print("WARNING: positioner not moving in one axis")
        flags |= movemask['FAILED_FIT']
        best_params = {"FLAGS": flags}
        covariance_dict = dict()
        rms_of_residuals = 0.
        return best_params, covariance_dict, rms_of_residuals, 0
''', '''        print("WARNING: positioner not moving in one axis")
        return _failed_fit(flags, 0)
'''),
 (P + "posparams/fitter.py", '''        flags |= movemask['FAILED_FIT']
        best_params = {"FLAGS": flags}
        covariance_dict = dict()
        rms_of_residuals = 0.
        return best_params, covariance_dict, rms_of_residuals, 0
''', '''        return _failed_fit(flags, 0)
'''),
 (P + "posparams/fitter.py", '''            flags |= movemask['FAILED_FIT']
            best_params = {"FLAGS": flags}
            covariance_dict = dict()
            rms_of_residuals = 0.
            return best_params, covariance_dict, rms_of_residuals, npts
''', '''            return _failed_fit(flags, npts)
'''),
 (P + "posparams/fitter.py", '''def fit_params(''', '''def _failed_fit(flags, npts):
    return {"FLAGS": flags | movemask['FAILED_FIT']}, dict(), 0., npts

def fit_params('''),
 (P + "posparams/fitter.py", '''        dx = 0
''' if False else '''    def compute_rms_of_residuals(params):
        x_exp, y_exp = expected_xy(params)
        err_x = x_exp - x_flat
        err_y = y_exp - y_flat
        sumsq = np.sum(err_x**2 + err_y**2)
        return (sumsq / n_pts)**0.5
''', '''    def compute_rms_of_residuals(params):
        x_exp, y_exp = expected_xy(params)
        sumsq = np.sum((x_exp - x_flat)**2 + (y_exp - y_flat)**2)
        return np.sqrt(sumsq / n_pts)
'''),
 (P + "posparams/fitter.py", '''    angle %= 360
    if angle > 180:
        angle -= 360
    return angle
''', '''    wrapped = angle % 360
    return wrapped - 360 if wrapped > 180 else wrapped
'''),
]

R["fitter_outliers"] = [
 (P + "posparams/fitter.py", '''        x_flat = np.delete(x_flat,worst)
        y_flat = np.delete(y_flat,worst)
        xerr_flat = np.delete(xerr_flat,worst)
        yerr_flat = np.delete(yerr_flat,worst)
        t_int = np.delete(t_int,worst)
        p_int = np.delete(p_int,worst)
        sequence_id   = np.delete(sequence_id,worst)
        recent_rehome = np.delete(recent_rehome,worst)
''', '''        keep = np.arange(len(x_flat)) != worst
        x_flat, y_flat = x_flat[keep], y_flat[keep]
        xerr_flat, yerr_flat = xerr_flat[keep], yerr_flat[keep]
        t_int, p_int = t_int[keep], p_int[keep]
        sequence_id, recent_rehome = sequence_id[keep], recent_rehome[keep]
'''),
 (P + "posparams/fitter.py", '''            dt_int = np.delete(dt_int,worst)
            dp_int = np.delete(dp_int,worst)
            measured_t_int_0 = np.delete(measured_t_int_0,worst)
            measured_p_int_0 = np.delete(measured_p_int_0,worst)
''', '''            dt_int, dp_int = dt_int[keep], dp_int[keep]
            measured_t_int_0, measured_p_int_0 = measured_t_int_0[keep], measured_p_int_0[keep]
'''),
 (P + "posparams/fitter.py", '''        dist = np.sqrt( (x_exp - x_flat)**2 + (y_exp - y_flat)**2 )
''', '''        dist = np.hypot(x_exp - x_flat, y_exp - y_flat)
'''),
 (P + "posparams/fitter.py", '''    for key1 in params_to_fit :
        index1 = param_idx[key1]
        for key2 in params_to_fit :
            index2 = param_idx[key2]
            if index2>=index1 : # only store the terms once
                covariance_dict["COV.{}.{}".format(key1,key2)]=covariance[index1,index2]
''', '''    for index1,key1 in enumerate(params_to_fit) :
        for index2 in range(index1,len(params_to_fit)) : # only store the terms once
            covariance_dict["COV.{}.{}".format(key1,params_to_fit[index2])]=covariance[index1,index2]
'''),
 (P + "posparams/fitter.py", '''    param_idx = {key:params_to_fit.index(key) for key in params_to_fit}
''', '''    param_idx = {key:i for i,key in enumerate(params_to_fit)}
'''),
]

R["bitmask"] = [
 (P + "bitmask.py", '''            bitnum = 0
            while 2**bitnum <= mask:
                if (2**bitnum & mask):
                    if bitnum in self._bits.keys():
                        names.append(self._bits[bitnum].name)
                    else:
                        names.append('UNKNOWN' + str(bitnum))
                bitnum += 1
''', '''            for bitnum in range(mask.bit_length()):
                if not (mask >> bitnum) & 1:
                    continue
                known = bitnum in self._bits
                names.append(self._bits[bitnum].name if known else 'UNKNOWN' + str(bitnum))
'''),
 (P + "bitmask.py", '''            mask = 0
            for name in name_or_num.split('|'):
                mask |= self._bits[name].mask
            return mask
''', '''            masks = [self._bits[name].mask for name in name_or_num.split('|')]
            return functools.reduce(operator.or_, masks, 0)
'''),
 (P + "bitmask.py", '''            bitnums = [x for x in self._bits.keys() if isinstance(x, int)]
            for bitnum in sorted(bitnums):
                names.append(self._bits[bitnum].name)
''', '''            names.extend(self._bits[b].name for b in sorted(b for b in self._bits if isinstance(b, int)))
'''),
 (P + "bitmask.py", "class BitMask(object):", "import functools\nimport operator\n\nclass BitMask(object):"),
]

R["util"] = [
 (P + "util.py", '''        match = False
        for symbol in [':','..','-']:
            if not match and symbol in sub:
                tmp = sub.split(symbol)
                if (len(tmp) == 2) and tmp[0].isdigit() and tmp[1].isdigit() :
                    match = True
                    for f in range(int(tmp[0]),int(tmp[1])) :
                        fibers.append(f)

        if not match:
            print("parsing error. Didn't understand {}".format(sub))
            import sys
            sys.exit(1)
''', '''        limits = _range_limits(sub)
        if limits is None :
            print("parsing error. Didn't understand {}".format(sub))
            sys.exit(1)
        fibers.extend(range(*limits))
'''),
 (P + "util.py", '''def parse_fibers(''', '''def _range_limits(text) :
    for symbol in (':','..','-') :
        parts = text.split(symbol)
        if len(parts)==2 and all(part.isdigit() for part in parts) :
            return int(parts[0]),int(parts[1])
    return None

def parse_fibers('''),
 (P + "util.py", "import numpy as np\n", "import sys\nimport numpy as np\n"),
 (P + "io.py", '''    focus_params = header["FOCUS"]
    if isinstance(focus_params,str) :
        focus_params = focus_params.split(",")
    elif not isinstance(focus_params,tuple) :
        message="header['FOCUS']={} is not a str nor a tuple".format(focus_params)
        log.error(message)
        raise ValueError(message)
    if len(focus_params) != 6 :
        message="I expected 6 coefficient in header['FOCUS']={}".format(focus_params)
        log.error(message)
        raise ValueError(message)
''', '''    def refuse(message) :
        log.error(message)
        raise ValueError(message)

    focus_params = header["FOCUS"]
    if not isinstance(focus_params,(str,tuple)) :
        refuse("header['FOCUS']={} is not a str nor a tuple".format(focus_params))
    if isinstance(focus_params,str) :
        focus_params = focus_params.split(",")
    if len(focus_params) != 6 :
        refuse("I expected 6 coefficient in header['FOCUS']={}".format(focus_params))
'''),
]

R["turbulence"] = [
 (P + "turbulence.py", '''    polys = np.zeros((((ndeg + 1) * (ndeg + 2)) // 2 - 1, N * 2))  # []
    cnt = 0
    for deg in range(1, ndeg + 1):
        for j in range(deg + 1):
            i1, i2 = j, deg - j
            # notice the i1==0 i2==0 are there to prevent 0**(-1)
            # these are dF/dx dF/dy of the polynomial
            polys[cnt, :N] = i1 * x**(i1 - 1 + (i1 == 0)) * y**i2
            polys[cnt, N:] = i2 * x**i1 * y**(i2 - 1 + (i2 == 0))
            cnt += 1
    return polys
''', '''    powers = [(i1, deg - i1) for deg in range(1, ndeg + 1) for i1 in range(deg + 1)]
    polys = np.zeros((len(powers), N * 2))
    for row, (i1, i2) in zip(polys, powers):
        # these are dF/dx dF/dy of the polynomial
        row[:N] = i1 * x**max(i1 - 1, 0) * y**i2
        row[N:] = i2 * x**i1 * y**max(i2 - 1, 0)
    return polys
'''),
 (P + "turbulence.py", '''    xdist = (x1[None, :] - x2[:, None])/ll
    ydist = (y1[None, :] - y2[:, None])/ll
    gauss = aa**2*np.exp(-(xdist**2+ydist**2)/2)
    n1 = len(x1)
    n2 = len(x2)
    covar = np.empty((n2*2, n1*2), dtype='f4')
    covar[:n2, :n1] = (1-xdist*xdist)*gauss
    covar[n2:, :n1] = -xdist*ydist*gauss
    covar[:n2, n1:] = -xdist*ydist*gauss
    covar[n2:, n1:] = (1-ydist*ydist)*gauss
    return covar
''', '''    xdist = (x1[None, :] - x2[:, None])/ll
    ydist = (y1[None, :] - y2[:, None])/ll
    gauss = aa**2*np.exp(-0.5*(xdist**2+ydist**2))
    n2, n1 = gauss.shape
    cross = -xdist*ydist*gauss
    covar = np.empty((n2*2, n1*2), dtype='f4')
    covar[:n2, :n1] = gauss*(1-xdist**2)
    covar[n2:, n1:] = gauss*(1-ydist**2)
    covar[:n2, n1:] = cross
    covar[n2:, :n1] = cross
    return covar
'''),
 (P + "turbulence.py", '''    covar += np.diag(np.full(covar.shape[0], sigma**2))
''', '''    diagonal = np.arange(covar.shape[0])
    covar[diagonal, diagonal] += sigma**2
'''),
 (P + "turbulence.py", '''    if not rq:
        covar = aa**2*np.exp(-dist2/2)
    else:
        covar = aa**2*(1+dist2/(2*alpha))**(-alpha)
    return covar
''', '''    if rq:
        return aa**2*(1+dist2/(2*alpha))**(-alpha)
    return aa**2*np.exp(-dist2/2)
'''),
]

R["turbulence_pol"] = [
 (P + "turbulence.py", '''        for ndeg in range(maxndeg, 0, -1):
            xpred, ypred, norm, polys = predictor(curx,
''', '''        for ndeg in reversed(range(1, maxndeg + 1)):
            xpred, ypred, norm, polys = predictor(curx,
'''),
 (P + "turbulence.py", '''        dxpred[i] = lastx
        dypred[i] = lasty
        bestdegs[i] = bestdeg
    return x - dxpred, y - dypred
''', '''        dxpred[i], dypred[i] = lastx, lasty
        bestdegs[i] = bestdeg
    xcor = x - dxpred
    ycor = y - dypred
    return xcor, ycor
'''),
 (P + "turbulence.py", '''        curxcen, curycen = x[i], y[i]
        curx = x[xids] - curxcen
        cury = y[xids] - curycen
        tofit = xids != i
        curdx = dx[xids]
        curdy = dy[xids]
''', '''        tofit = xids != i
        curdx, curdy = dx[xids], dy[xids]
        curx = x[xids] - x[i]
        cury = y[xids] - y[i]
'''),
]

R["guide_stars"] = [
 (P + "fieldmodel.py", '''        dr = np.hypot(match_dra, match_ddec)
        selection = (dr<max_sep_arcsec) # arcsec
        if np.sum(selection)==0 :
''', '''        selection = self._close(match_dra, match_ddec, max_sep_arcsec)
        if not np.any(selection) :
'''),
 (P + "fieldmodel.py", '''        return catalog[:][selection]

''', '''        return catalog[selection]

    @staticmethod
    def _close(dx, dy, limit) :
        return np.sqrt(dx**2 + dy**2) < limit

'''),
 (P + "fieldmodel.py", '''            dra  = (cur_year - ref_epoch) * pmra / 3600e3 / cosd(catalog['dec_gaia'])
            ddec = (cur_year - ref_epoch) * pmdec / 3600e3
''', '''            years = cur_year - ref_epoch
            ddec = years * pmdec / 3600e3
            dra  = years * pmra / (3600e3 * cosd(catalog['dec_gaia']))
'''),
 (P + "fieldmodel.py", '''        x_gfa    = x_gfa[selection]
        y_gfa    = y_gfa[selection]
        x_fp     = x_fp[selection]
        y_fp     = y_fp[selection]
''', '''        x_fp, y_fp = x_fp[selection], y_fp[selection]
'''),
 (P + "fieldmodel.py", '''        for _ in range(3) : # loop because change of pointing induces a rotation of the field
''', '''        iteration = 0
        while iteration < 3 : # loop because change of pointing induces a rotation of the field
            iteration += 1
'''),
 (P + "fieldmodel.py", '''        petals = np.unique(petal_loc)
''', '''        petals = sorted(set(petal_loc))
'''),
 (P + "fieldmodel.py", '''                x,y = gfa2fp(petal,x_gfa[ii],y_gfa[ii])
                x_fp[ii]  = x
                y_fp[ii]  = y
            except KeyError:
                log.warning("missing metrology")
''', '''                x_fp[ii], y_fp[ii] = gfa2fp(petal,x_gfa[ii],y_gfa[ii])
            except KeyError:
                log.warning("missing metrology of petal {}".format(petal))
                continue
'''),
]
