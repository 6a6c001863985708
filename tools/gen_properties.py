"""Writes /verif/properties.jsonl (kept as a script so that long texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=["py/desimeter/"+f for f in files],
                     mechanism=[dict(name=n, where="py/desimeter/"+w) for n, w in mech],
                     observe_at=list(observe))))

prop("C01", "Celestial frame changes are exact rotations with exact inverses",
 "Converting a sky direction between spherical and Cartesian form, between equatorial and ecliptic coordinates, between hour-angle/declination and altitude/azimuth, or precessing it by any number of years, is a rotation of the sphere: angular separations between any two directions are preserved. Each conversion followed by its counterpart (including precession forward then back to the same date) returns the original direction. Returned longitudes, azimuths and hour angles lie in 0..360 degrees and latitudes, altitudes and declinations in -90..90.",
 ["inputs"], "every direction on the sphere (away from the coordinate poles where the longitude is undefined), every precession interval, scalars and arrays of any length",
 "test_precession compares a handful of points with astropy at arcsecond level; no test checks separations, the inverse pairs over the whole sphere, or ranges.",
 ["transform/radec2tan.py", "trig.py"],
 [("getXYZ/getLONLAT", "trig.py, transform/radec2tan.py"), ("radec2eclip/eclip2radec", "transform/radec2tan.py"), ("apply_precession", "transform/radec2tan.py"), ("hadec2altaz/altaz2hadec", "transform/radec2tan.py")],
 ["desimeter.transform.radec2tan"])

prop("C02", "Tangent-plane projection is invertible, distance-true and correctly oriented",
 "For every telescope pointing, projecting a direction within 90 degrees of the pointing onto the tangent plane and back returns the same direction, and every tangent-plane point of radius below one survives the opposite round trip. The projected radius is the sine of the angular distance to the pointing, the pointing itself lands at the origin, a star at larger hour angle has positive x and a star at larger declination has positive y.",
 ["inputs"], "every pointing (not exactly at the pole), every target direction in the forward hemisphere, every (x,y) with x^2+y^2<1",
 "test_hadec2xy uses one pointing and a few targets; the sign and inverse relations must hold over a four-parameter continuum.",
 ["transform/radec2tan.py"],
 [("hadec2xy", "transform/radec2tan.py"), ("xy2hadec", "transform/radec2tan.py")],
 ["desimeter.transform.radec2tan.hadec2xy", "desimeter.transform.radec2tan.xy2hadec"])

prop("C03", "Sky to tangent plane and back returns the same sky position",
 "For any pointing, date, sidereal time and hexapod angle, and for any combination of the precession, aberration, polar-misalignment and tabulated-matrix options, converting sky coordinates in the field of view to tangent-plane coordinates and back with the same conditions returns the same sky position to better than 0.05 arcsec (pointing at least 20 degrees above the horizon). The pointing itself maps to the origin, and changing the hexapod angle rotates the tangent-plane result rigidly by that angle in both directions. An array result equals the element-by-element scalar results.",
 ["inputs", "configurations"], "all pointings at altitude above 20 deg and at least a field radius away from the pole, all dates 2000-2040, all sidereal times and hexapod angles, all targets within 1.7 degrees, all option combinations",
 "test_tan2radec checks one pointing and one date with default options; the steps (precession, aberration, misalignment, refraction) must be applied in mirror order under every option combination.",
 ["transform/radec2tan.py"],
 [("radec2tan", "transform/radec2tan.py"), ("tan2radec", "transform/radec2tan.py")],
 ["desimeter.transform.radec2tan.radec2tan", "desimeter.transform.radec2tan.tan2radec"])

prop("C04", "Polar misalignment correction is a rotation, and its tabulated form agrees",
 "The polar-misalignment correction is, for any elevation and azimuth misalignment, a proper rotation that carries the mount's pole onto the celestial pole along the shortest arc, and the identity when there is no misalignment; negating both misalignments gives the inverse to second order. The tabulated matrices used in operations are proper rotations, inverse of each other and equal to the computed ones to 1e-8. Rotating about an axis by an angle leaves the axis fixed and turns perpendicular vectors by exactly that angle.",
 ["inputs"], "every misalignment of up to a few degrees, every unit axis and angle",
 "test_polar_misalignment only checks the amplitude for the one built-in misalignment.",
 ["transform/radec2tan.py"],
 [("compute_polar_misalignment_rotation_matrix", "transform/radec2tan.py"), ("get_hardcoded_polmis_rotmat", "transform/radec2tan.py"), ("rotation_matrix", "transform/radec2tan.py")],
 ["desimeter.transform.radec2tan"])

prop("C05", "Refraction and aberration corrections are physical and can be undone",
 "Refraction always raises the altitude of an object above the horizon, by 79 arcsec at 30 degrees and decreasing monotonically to zero at the zenith, and removing it after applying it returns the original altitude to better than 0.05 arcsec above 20 degrees altitude. Annual aberration moves any direction by at most 20.6 arcsec towards the Earth's apex, along the great circle through it, by an amount proportional to the sine of the distance to the apex; undoing it returns the original direction to better than 0.01 arcsec away from the poles.",
 ["inputs"], "every altitude from 20 to 90 degrees; every direction and every date 2000-2040",
 "test_refraction and test_aberration sample a few values and loosely compare amplitudes with astropy.",
 ["transform/radec2tan.py"],
 [("apply_refraction/undo_refraction", "transform/radec2tan.py"), ("compute_aberration, apply_aberration/undo_aberration", "transform/radec2tan.py"), ("getSunLon", "transform/radec2tan.py")],
 ["desimeter.transform.radec2tan"])

prop("C06", "Angle arithmetic stays in range and is correct modulo a full turn",
 "Every angle normalisation returns an angle congruent to its input modulo 360 degrees inside its documented range (0..360, or -180..180 for the offset of a positioner), including sidereal time for any date. The mean of two directions is the bisector of the smaller arc between them and does not depend on adding full turns or swapping the arguments. The mean atmospheric-corrector angle and the corrector angle difference are unchanged when full turns are added to either of two distinct corrector angles, and turn by the same amount (or not at all) when both correctors are rotated together.",
 ["inputs"], "every finite angle including negative and multi-turn values, every pair of directions that are not opposite",
 "The wrap-around cases form a continuum around each multiple of 360 degrees; the tests use a few angles in the first turn.",
 ["trig.py", "time.py", "transform/tan2fp/raytracefit.py", "posparams/fitter.py"],
 [("put360, arctan2d, average_angles_deg", "trig.py"), ("mjd2lst", "time.py"), ("average_angles_adc, delta_angles_adc", "transform/tan2fp/raytracefit.py"), ("wrap_at_180", "posparams/fitter.py")],
 ["desimeter.trig", "desimeter.time.mjd2lst"])

prop("C07", "Positioner inverse kinematics reproduces every reachable point",
 "For any arm lengths and angle limits, whenever the solver reports a target as reachable the returned pair of angles lies within the limits and places the arms on the target; whenever the target lies outside the arms' annulus it is reported unreachable and the angles point the arms at the nearest reachable point (if that respects the limits). If some pair of angles within limits that include phi between 0 and 180 and a full turn of theta reaches the target, the target is reported reachable. A guess for theta selects, among valid configurations within the tolerance, the one closest to the guess, and angles handed to the solver are wrapped only by whole turns.",
 ["inputs"], "every target, every pair of positive arm lengths, every interval of angle limits, every guess and tolerance",
 "test_xy2tp runs fixed grids with nominal arms and default limits; the wrap, reflection and limit logic branches over a continuum of inputs.",
 ["transform/xy2tp.py", "transform/pos2ptl.py"],
 [("xy2tp/tp2xy", "transform/xy2tp.py"), ("_wrap_into_range", "transform/xy2tp.py"), ("loc2ext/ext2loc", "transform/pos2ptl.py")],
 ["desimeter.transform.xy2tp.xy2tp"])

prop("C08", "Positioner, petal and curved-surface coordinate conversions invert each other",
 "Internal/external angles and local/petal-flat positions are exact inverses of each other for scalar, list or array offsets, and the composite conversions (internal angles to petal position and back, to local position and back) equal the chain of their steps and return the original angles when reachable. Conversion between petal cartesian and flattened coordinates, and between focal-plane x,y and polar angle/arc length (or u,v), preserves the polar angle and round-trips to within 10 micrometres over the whole 420 mm radius, with the polar angle reported in 0..360 degrees.",
 ["inputs"], "every position out to 420 mm radius, every calibration (arm lengths, angular and positional offsets), scalar or vector arguments",
 "test_pos2ptl compares fixed tables; it does not cover the continuum of offsets nor the whole focal-plane radius.",
 ["transform/pos2ptl.py", "transform/xy2qs.py"],
 [("int2ext/ext2int, loc2flat/flat2loc, ptl2flat/flat2ptl, int2ptl/ptl2int", "transform/pos2ptl.py"), ("xy2qs/qs2xy, r2s/s2r, xy2uv/uv2xy", "transform/xy2qs.py")],
 ["desimeter.transform.pos2ptl", "desimeter.transform.xy2qs"])

prop("C09", "Signed positioner travel honours the requested direction",
 "The signed travel between two positioner angles always differs from the plain difference by a whole number of turns, has the requested sense of rotation (or none if there is no travel), equals the plain difference when no direction is requested or when the plain difference already has the requested sense, and otherwise is the shortest travel in the requested sense within one turn; exact whole turns keep their number of turns. This holds elementwise for scalars, lists and arrays.",
 ["inputs"], "every pair of finite angles and every direction flag",
 "test_pos2ptl checks a table of examples; the modulo logic has cases at every multiple of 360 degrees and for each sign combination.",
 ["transform/pos2ptl.py"],
 [("delta_angle", "transform/pos2ptl.py")],
 ["desimeter.transform.pos2ptl.delta_angle"])

prop("C10", "Placing petals in the focal plane is a rigid motion applied per petal",
 "Converting petal coordinates to focal-plane coordinates preserves all distances and handedness, and converting back with the same z returns the original point exactly, for every petal. Converting a table of spots gives each spot exactly the result of converting it with its own petal's alignment, whatever the order or mixture of petals, and when z is omitted it is taken from the nominal focal surface at that radius.",
 ["inputs", "configurations"], "every petal alignment (any angles and offsets), every point, every ordering and subset of petals in a table",
 "No test exercises these conversions at all.",
 ["transform/ptl2fp.py"],
 [("Rx, Ry, Rz, Rxyz", "transform/ptl2fp.py"), ("ptl2fp/fp2ptl/apply_ptl2fp", "transform/ptl2fp.py")],
 ["desimeter.transform.ptl2fp"])

prop("C11", "Focal-surface lookups are mutually inverse and flag out-of-range input",
 "Each pair of lookups between radius, arc length, sag and nutation angle on the nominal focal surface inverts the other over the whole tabulated range, in every composite combination. The lookups are monotonic and continuous, reproduce the table at its nodes, and return not-a-number outside the tabulated range.",
 ["inputs"], "every value in (and outside) the tabulated range of each of the four quantities",
 "No test calls these lookups.",
 ["transform/rszn_lookups.py"],
 [("r2s/s2r, r2z/z2r, r2n/n2r and composites", "transform/rszn_lookups.py")],
 ["desimeter.transform.rszn_lookups"])

prop("C12", "Distortion basis is curl-free or divergence-free and its fits are exact",
 "Every gradient-type distortion term is the gradient of a potential (zero curl) and every rotation-type term is divergence-free, everywhere in the unit disc; each term has the same normalisation and the terms are mutually orthogonal within each family over the unit disc. The distortion is linear in its coefficients and independent of the order in which terms are listed. Fitting the distortion to displacements that it can represent recovers the coefficients, and a fit never leaves a residual correlated with any fitted term.",
 ["inputs"], "every point of the plane, every term, every coefficient vector, every set of fit points that determines the coefficients",
 "The tests only check that a full transform fits one data set; a wrong factor or index in a seldom-used term is invisible to them.",
 ["transform/zhaoburge.py"],
 [("getZernRadial/getZernAngular/convertNolltoBW", "transform/zhaoburge.py"), ("getZhaoBurgeTerm/getZhaoBurgeXY", "transform/zhaoburge.py"), ("fitZhaoBurge", "transform/zhaoburge.py")],
 ["desimeter.transform.zhaoburge"])

prop("C13", "Distorted plane transforms can be inverted everywhere in the field",
 "Camera-pixel to focal-plane and tangent-plane to focal-plane conversions, for any scale, rotation, offset and moderate distortion and for any setting of the atmospheric corrector, are inverted by the opposite conversion to better than a nanometre (shipped models: everywhere in the field of view). Rotating both corrector prisms by the same angle and rotating the input by that angle rotates the output by that angle. The two directions of the platemaker map undo each other to better than 5 micrometres over the focal plane.",
 ["inputs", "configurations"], "every point in the field, every pair of corrector angles including multi-turn values, every transform parameter set with distortion gradient below 0.39",
 "The tests round-trip a grid for one parameter set; convergence of the fixed-point inversion and equality of forward and inverse conventions must hold for all parameters.",
 ["transform/fvc2fp.py", "transform/tan2fp/raytracefit.py", "transform/dm2pm.py", "transform/zhaoburge.py"],
 [("FVC2FP.fvc2fp/fp2fvc", "transform/fvc2fp.py"), ("TAN2FP_RayTraceFit.tan2fp/fp2tan", "transform/tan2fp/raytracefit.py"), ("DM2PM.dm2pm/pm2dm", "transform/dm2pm.py"), ("transform", "transform/zhaoburge.py")],
 ["desimeter.transform.fvc2fp.FVC2FP", "desimeter.transform.tan2fp", "desimeter.transform.dm2pm.DM2PM"])

prop("C14", "Fitted planar corrections recover the true map and apply/undo exactly",
 "Fitting a planar correction to points related by any orientation-preserving affine map (non-degenerate, including pure translation, half turn or a previously used object) recovers that map exactly, whatever the number of points; in the rigid mode any rotation plus offset is recovered with unit scale. The inverse application undoes the application exactly, and with noise the affine fit is the least-squares solution. The guide-star correction is likewise undone exactly by its inverse, and its fit recovers the scales, the rotation (including none) and, to second order in the size of the correction, the pointing offset; the guide-camera pixel to focal-plane conversion and its inverse undo each other.",
 ["inputs", "histories"], "every affine map with positive determinant, every non-collinear point set of any size, fresh or reused correction objects",
 "test_corr fits a few fixed maps with generic angles; special angles, zero rotation and object reuse hit separate branches.",
 ["simplecorr.py", "fieldmodel.py", "transform/gfa2fp.py"],
 [("SimpleCorr.fit/fit_rotoff/apply/apply_inverse", "simplecorr.py"), ("TanCorr.fit/apply/apply_inverse", "fieldmodel.py"), ("gfa2fp/fp2gfa/fit_gfa2fp", "transform/gfa2fp.py")],
 ["desimeter.simplecorr.SimpleCorr", "desimeter.fieldmodel.TanCorr", "desimeter.transform.gfa2fp"])

prop("C15", "Saved calibrations reload as the same transform",
 "Every calibration or model object that can be written to JSON (camera transform, ray-trace transform, platemaker map, field model, planar corrections) can be read back, in memory and through a file, and the reloaded object has the same parameters and gives identical results for every conversion. Writing, reading and writing again produces the same text, and older-format camera files keep their meaning.",
 ["inputs", "histories"], "every parameter set, every choice of distortion terms, every option flag carried by a model",
 "test_json and test_fm_io check one object each; two classes have no reload test at all.",
 ["transform/fvc2fp.py", "transform/tan2fp/raytracefit.py", "transform/dm2pm.py", "fieldmodel.py", "simplecorr.py"],
 [("tojson/fromjson", "transform/fvc2fp.py, transform/dm2pm.py, transform/tan2fp/raytracefit.py, fieldmodel.py, simplecorr.py")],
 ["tojson/fromjson of each class"])

prop("C16", "Conversions leave the caller's data alone and do not depend on earlier calls",
 "No coordinate conversion, fit or detection modifies the arrays, lists or parameter dictionaries passed to it (apart from the columns a table-update function documents). Calling any conversion again with the same arguments gives the same result whatever other calls were made in between, including calls with other transforms, petals, corrector angles or calibration data.",
 ["inputs", "histories"], "every argument array, every interleaving of calls",
 "Tests never compare an argument before and after a call, and each runs in a single fixed call order.",
 ["transform/radec2tan.py", "transform/pos2ptl.py", "transform/fvc2fp.py", "transform/tan2fp/raytracefit.py", "findfiducials.py", "posparams/fitter.py", "fieldmodel.py", "simplecorr.py", "match.py"],
 [("array arguments", "transform/*.py"), ("module-level caches", "findfiducials.py, transform/gfa2fp.py, transform/ptl2fp.py, transform/tan2fp/*.py"), ("default parameter dictionaries", "posparams/fitter.py")],
 ["all public conversions"])

prop("C17", "Catalog matching is one-to-one, nearest-neighbour and index-correct",
 "When two catalogs in the same coordinate system are matched, every entry of the first gets its nearest entry of the second, unless a closer entry of the first claims it, in which case it is marked unmatched (negative index, infinite distance); no entry of the second is used twice. Pattern matching under translation and dilatation returns, for patterns whose triangles all differ in shape, a one-to-one assignment equal to the true correspondence whatever the shift, the scale and the order of entries. Key matching returns exactly the index pairs whose keys are equal, and radius matching exactly the pairs within the radius.",
 ["inputs"], "every pair of catalogs of any sizes and any order, every shift and positive scale factor, every key list",
 "The tests match small fixed catalogs that differ by a fixed transformation.",
 ["match.py", "match_positioners.py"],
 [("match_same_system", "match.py"), ("match_arbitrary_translation_dilatation, compute_triangles_with_fixed_orientation", "match.py"), ("match, match2d, solve_assignment", "match_positioners.py")],
 ["desimeter.match", "desimeter.match_positioners"])

prop("C18", "Spot profile, centroid and detection are consistent with the pixel grid",
 "The pixel-integrated spot profile is a true probability per pixel: non-negative, factorised, summing to one over the plane, symmetric under exchange of axes, and its position derivatives are the exact derivatives used in the fit. The fitted centroid of a noiseless spot equals its true position and flux for any sub-pixel position, and detection reports each isolated spot once, at its position with the centre of the first pixel at (0,0), with x along columns and y along rows, also when spots lie close to the image edge.",
 ["inputs"], "every sub-pixel position, flux and width; every placement of spots in an image",
 "test_detectspots looks at two fixed images with spots far from the edges.",
 ["detectspots.py"],
 [("psf, dpsfdxc, dpsfdyc", "detectspots.py"), ("fitcentroid_gaussian, fitcentroid_barycenter", "detectspots.py"), ("gaussian_convolve, detectspots", "detectspots.py")],
 ["desimeter.detectspots"])

prop("C19", "Circle fits recover the true circle and reject only outliers",
 "Fitting points lying on a circle returns the true centre and radius, whatever the number of points (at least four), their spacing and the starting phase, and equivariantly under translation and rotation of the points; radii outside the plausible range of an arm are refused with an error. The robust fit also returns the true circle in presence of a single outlier among ten or more points, and flags only that point.",
 ["inputs"], "every centre, every radius between 1 and 5 mm, every set of at least four distinct phases, every outlier position",
 "test_circles fits a single circle geometry.",
 ["circles.py"],
 [("_fast_fit_circle", "circles.py"), ("fit_circle", "circles.py"), ("robust_fit_circle", "circles.py")],
 ["desimeter.circles"])

prop("C20", "Fiber-assignment design transforms match the requested geometry",
 "For any tile centre, date, hour angle, requested field rotation and corrector setting, computing focal-plane positions of targets and converting them back returns the targets to better than 0.1 arcsec, in both the cartesian and the flattened coordinates, with and without the conversion to platemaker coordinates. The realised field rotation (mean direction from sky to focal plane of the targets more than 10 mm from the centre) equals the requested one, the tile centre falls at the focal-plane centre within a micrometre (before the conversions to platemaker and flattened coordinates, which have offsets of 12 and 4 micrometres of their own), and giving only one corrector angle is refused. The corrector angles derived from the pointing are the parallactic angle plus and minus half the dispersion angle, the latter frozen beyond 60 degrees zenith distance.",
 ["inputs", "configurations"], "every tile at declination -30..80, hour angle within 60 degrees and altitude above 20 degrees, every requested field rotation of up to a few degrees, every corrector setting",
 "test_fiberassign_radec2xy checks a single tile.",
 ["fiberassign.py"],
 [("fiberassign_radec2xy_cs5/fiberassign_cs5_xy2radec and flat variants", "fiberassign.py"), ("pm_zd, pm_psi, pm_zd2deltaadc, pm_get_adc_angles", "fiberassign.py"), ("_measure_fieldrot_deg", "fiberassign.py")],
 ["desimeter.fiberassign"])

prop("C21", "Bit masks and names are inverse of each other",
 "Every bit name, bit number and mask value convert into each other consistently for every mask definition; the names decoded from a mask are exactly the names of its set bits in increasing order (unknown bits being reported as such), and combining names gives the bitwise or of their values. The positioner flag definitions have distinct names and bits.",
 ["inputs", "configurations"], "every mask definition and every non-negative mask value",
 "No test covers the mask utility.",
 ["bitmask.py", "posparams/movemask.py"],
 [("BitMask.names/mask/bitnum/bitname", "bitmask.py"), ("movemask", "posparams/movemask.py")],
 ["desimeter.bitmask.BitMask", "desimeter.posparams.movemask.movemask"])

prop("C22", "Field-rotation rate is bounded, periodic and shape-consistent",
 "The predicted field-rotation rate is always between -1.5 and 1.5 arcsec per minute, depends on sidereal time and right ascension only through the hour angle modulo a full turn, and refuses any declination beyond 90 degrees in absolute value. A scalar call equals the corresponding element of an array call, and shifting sidereal time and right ascension together changes nothing.",
 ["inputs"], "every right ascension, declination and sidereal time, scalars and arrays",
 "test_fieldrot evaluates a few pointings; saturation, wrap-around and error handling are not reached.",
 ["fieldmodel.py"],
 [("dfieldrotdt_empirical_model, dfieldrotdt", "fieldmodel.py")],
 ["desimeter.fieldmodel.dfieldrotdt"])

prop("C23", "Field model sky/focal-plane conversions are mutually inverse",
 "For any field model (pointing, date, sidereal time, hexapod and corrector angles, scale and rotation corrections and option flags), converting focal-plane coordinates to the sky and back returns the original coordinates to better than one micrometre, in either order. Applying the sky-to-instrument plane correction after the instrument-to-sky one is the identity.",
 ["inputs", "configurations"], "every field model with scale corrections within a few percent and altitude above 30 degrees, every point within 400 mm",
 "test_fm and test_tancorr use one model with default options.",
 ["fieldmodel.py"],
 [("FieldModel.fp2radec/radec2fp", "fieldmodel.py"), ("tancorr_inst2sky/tancorr_sky2inst", "fieldmodel.py")],
 ["desimeter.fieldmodel.FieldModel"])

prop("C24", "Turbulence model uses true gradients and a symmetric covariance",
 "The turbulence correction models displacements as the gradient of a potential: its polynomial basis vectors are exact gradients, its covariances are symmetric and consistent with that, and a displacement field inside the polynomial space is removed completely. Stationary points with undefined measurements never influence the correction of the others, nor the points whose residual exceeds the given limit, and the returned mask flags exactly the points used; the Gaussian-process correction with a fixed covariance is the conditional mean given the measurements (so that it does not depend on the order of the points), and a field without displacement yields no correction.",
 ["inputs"], "every set of positions and displacements, every polynomial degree, every pattern of undefined entries",
 "No test imports the turbulence code.",
 ["turbulence.py"],
 [("getpoly", "turbulence.py"), ("covariance and predictor", "turbulence.py"), ("correct_with_pol, correct_using_stationary", "turbulence.py")],
 ["desimeter.turbulence"])

prop("C25", "Identifier and range parsing keeps its documented meaning",
 "A fiber list expands to exactly the listed integers with ranges excluding their upper end, in order, for every mixture of separators; the hexapod rotation is the sixth focus parameter converted from arcseconds to degrees whatever its header type, and malformed headers are refused. Pinholes labelled by the fiducial finder carry a petal number and device number that recombine to the location, unmatched spots are labelled as such, and no pinhole label is used twice in one fiducial.",
 ["inputs"], "every well-formed fiber list string, every header form, every set of spots",
 "Only one end-to-end image is used in the tests; the parsers are untested.",
 ["util.py", "io.py", "findfiducials.py"],
 [("parse_fibers", "util.py"), ("read_hexrot_deg", "io.py"), ("findfiducials", "findfiducials.py")],
 ["desimeter.util.parse_fibers", "desimeter.io.read_hexrot_deg", "desimeter.findfiducials.findfiducials"])

prop("C26", "Positioner calibration fit recovers the true calibration",
 "Given noiseless measurements generated by a positioner with known arm lengths, offsets and gear scales inside the bounds, the calibration fit returns those parameters (static mode: the six static ones and the drift of each sequence without rehoming; dynamic mode: the two scales, for moves whose measured and expected angles stay within half a turn of each other), with the theta offset in -180..180, parameters held fixed (any subset leaving something to fit) returned unchanged up to full turns of the theta offset, zero variance for them, and each fitted parameter within its own bounds. Points rejected as outliers no longer count. The nominals, bounds and measurements given, and the defaults used by later fits, are not altered by a fit.",
 ["inputs", "histories"], "every calibration inside the bounds, every well-spread sequence of commanded angles, every subset of fixed parameters",
 "There is no test of the positioner calibration fit.",
 ["posparams/fitter.py"],
 [("fit_params", "posparams/fitter.py"), ("wrap_at_180", "posparams/fitter.py")],
 ["desimeter.posparams.fitter.fit_params"])

prop("C27", "Traced rays obey geometric optics and the fast model reproduces the trace",
 "In the ray tracer behind the tangent-plane to focal-plane model: every surface's frame is the rotation by its tilt, pitch and roll; entering and leaving it restores positions and directions; a ray moves forwards along itself to the nearest point ahead on the sheet of the surface through its vertex (conic, or conic plus polynomial), or fails and stays; mirrors reverse the component of the direction along the normal, lenses obey Snell's law with the indices of the media table (total reflection reported exactly when the law has no solution), directions stay unit vectors; apertures and spider legs stop exactly the rays they cover; a trace visits the surfaces in order and stops at the first failure, and only rays that reach the last surface count. The fast tan2fp model agrees with the mean of the traced rays of the shipped prescription within 6 micrometres over the field of view and corrector angles in -100..100 degrees.",
 ["inputs"], "every surface, ray, medium and aperture; every prescription; every direction in the field of view with any pair of corrector angles",
 "No test runs the ray tracer or compares the fast model with it.",
 ["transform/tan2fp/raytrace/RT185v2.py", "transform/tan2fp/raytracefit.py"],
 [("conicIntercept", "transform/tan2fp/raytrace/RT185v2.py"), ("redirect", "transform/tan2fp/raytrace/RT185v2.py"), ("runOneRay", "transform/tan2fp/raytrace/RT185v2.py"), ("getNine", "transform/tan2fp/raytrace/RT185v2.py")],
 ["desimeter.transform.tan2fp.raytrace.RT185v2.runOneRay"])

prop("C28", "Plate fits pair the right points and recover the true transform",
 "Fitting the camera transform to identified spots uses exactly the fiducial pinholes seen, each paired with the metrology of its own location and pinhole whatever the order of the rows, and minimises the summed squared distance between transformed and measured points over scale, rotation and offset; held parameters keep their value; the fit recovers the true transform (to 0.1 micrometre without new distortion, 3 micrometres with distortion terms up to 5e-4) and the updated spots carry their own positions and metrology. The dm-to-platemaker transform fits each direction from its own source to its own target; the ray-trace transform fits each pair of corrector angles on its own rays; averaging exposures aligns every later table on the first using the pairs found so far and averages exactly the spots found in all of them, leaving the rest and its inputs unchanged.",
 ["inputs", "histories"], "every set of spots and metrology rows in any order, every subset of held parameters, every number of tables and corrector setups",
 "The tests fit one stored spot list, unshuffled, and look at the residuals only.",
 ["transform/fvc2fp.py", "transform/zhaoburge.py", "transform/dm2pm.py", "transform/tan2fp/raytracefit.py", "averagecoord.py"],
 [("FVC2FP.fit", "transform/fvc2fp.py"), ("fit_scale_rotation_offset", "transform/zhaoburge.py"), ("DM2PM.fit", "transform/dm2pm.py"), ("average_coordinates", "averagecoord.py")],
 ["desimeter.transform.fvc2fp.FVC2FP.fit"])

prop("C29", "Calibration runs fit the selected moves and report what was fitted",
 "A calibration run over the recorded moves of a positioner fits exactly the moves selected (notes containing all keywords of one alternative, control enabled, one for each count of moves), in order of time, with their own angles, positions, gear scales, rehoming state and a drift number per exposure that is the same in all windows; each date ends the shortest window that starts at an earlier date and holds more than the wanted moves; static fits start from the defaults, or from the best fits of the moves after a rehoming when there are others, dynamic fits from the median of the best static fits; the report has one row for each window with the dates, counts, values, errors and covariances of its own static and dynamic fits; theta is reported stuck exactly when it could be tested and never moved. Whatever the number of sequences and windows, the run ends with a report.",
 ["inputs", "histories"], "every table of moves in any order, every selection, window, period and quantile, every number of exposures and drifting sequences",
 "There is no test of the calibration runs, move selection or flags.",
 ["posparams/fithandler.py", "posparams/posmoveselection.py", "posparams/flags.py"],
 [("run_best_fits", "posparams/fithandler.py"), ("_process_cases", "posparams/fithandler.py"), ("_define_cases", "posparams/fithandler.py"), ("posmove_selection", "posparams/posmoveselection.py"), ("eval_move_flags", "posparams/flags.py")],
 ["desimeter.posparams.fithandler.run_best_fits"])

prop("C30", "Processed exposures label each spot with its own device and expected place",
 "Processing an exposure writes one row for each spot of the image or table asked for (the named, last, only, or each image of a sequence in its own file; bias subtracted once). Fiducial pinholes keep the label found for them; every other spot gets the location, device and expected place of the nearest expected fiber when this is nearer than the matching distance, no two spots the same one, and otherwise stays unlabelled with no expected place. Expected fibers are those of the given table (focal plane or curved coordinates, undefined ones matching nothing, location = petal x 1000 + device) or of the metrology. Positions are those of the camera fitted to the fiducials of this exposure; the turbulence correction changes only those of spots with an expected place; fiducials have their metrology as expected place. With the external matching program, it is given every spot, the targets, fiducial centres and pinholes in camera pixels, and the rows it reports come back with the device of their location (location 0 is a positioner), fiducial centres with the mean of their pinholes as place, pinholes and unlabelled spots with none. With fewer than three fiducials nothing is written. A call from a session returns the table of that image, or nothing after a failure; an earlier result only unless told to overwrite it.",
 ["inputs", "histories"], "every list of spots in any order, every table of expected positions, every number of images, every answer of the matching program",
 "There is no test of the exposure processing; the test of the matching program is skipped when it is not installed.",
 ["processfvc.py", "spotmatch.py", "findfiducials.py"],
 [("fvc_proc", "processfvc.py"), ("get_expected_pos", "processfvc.py"), ("get_spots_list", "processfvc.py"), ("spotmatch", "spotmatch.py")],
 ["desimeter.processfvc.fvc_proc"])

prop("C31", "Field models use the matched guide stars at their date and recover pointing",
 "Reading a catalog of guide stars returns, in order, exactly the stars measured within the given separation (on the sky, also across zero right ascension) of their catalog position, moved by its proper motion, along the parallel and the meridian, to the mean date of the exposure; unknown motions count as none; without stars, columns or a needed date it is an error. Fitting the field model then uses all the stars of the petals with a metrology, each through its own petal, and only these, with the date, sidereal time and hexapod angle given (an argument, then what the model has, then the catalog or the date) and the options of the model: the model ends with the pointing, scales and rotation with which the stars were seen, their number and residual, and predicts the sky position of any point of the focal plane. The field rotation reported is the angle from the axes of the instrument, corrector included, to west and north on the sky. The hexapod angle of an exposure is the sixth focus coefficient of its header in arcseconds, whether the header holds a tuple or a text.",
 ["inputs", "configurations"], "every catalog and number of stars, every pointing error up to arc minutes, every set of petals, every date and combination of options",
 "No test reads a catalog or fits a field model from guide stars.",
 ["fieldmodel.py", "transform/gfa2fp.py", "io.py"],
 [("FieldModel.read_guide_stars_catalog", "fieldmodel.py"), ("read_hexrot_deg", "io.py"), ("FieldModel.fit_tancorr", "fieldmodel.py"), ("FieldModel.all_gfa2fp", "fieldmodel.py"), ("FieldModel.compute_fieldrot, fieldrot", "fieldmodel.py")],
 ["desimeter.fieldmodel.FieldModel"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
