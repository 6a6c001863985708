NA = {}
CLAIMS["C01"] = ("proof", "All obligations discharged for every direction and every date: exact rotation, inverse, range and array/scalar agreement contracts of the frame-change functions. The longitude claims hold where a longitude is defined (not exactly at a pole).")
CLAIMS["C02"] = ("proof", "All obligations discharged for every pointing and direction (precondition: within 90 degrees of the pointing).")
CLAIMS["C04"] = ("proof", "All obligations discharged for every misalignment in +-0.5 degree and every axis and angle. The second-order inverse is additionally sampled (bounded contract, not counted).")
CLAIMS["C05"] = ("proof", "All obligations discharged: refraction for every altitude (round trip on 20..90 degrees by interval bisection over the whole interval), aberration for every direction and date.")
CLAIMS["C06"] = ("proof", "All obligations discharged for every angle (mean of directions: not exactly opposite; corrector angles coinciding only up to rounding modulo a turn are the excluded degenerate case).")
CLAIMS["C07"] = ("proof", "All obligations discharged for every target, arms and limits without a guess, and for the reflected configuration; the selection among candidates by a guess is a bounded contract (not counted).")
CLAIMS["C08"] = ("proof", "All obligations discharged: exact offset inverses, composites equal their chains, inverse through the contract of the solver, flattening angle-preserving and 10 micrometre round trip over the whole radius (interval bisection); the guess variant and petal composite are additionally sampled (bounded).")
CLAIMS["C09"] = ("proof", "All obligations discharged for every pair of angles and direction, scalars and vectors of up to two elements in every combination (elementwise code, so length is immaterial).")
CLAIMS["C10"] = ("proof", "All obligations discharged for every petal alignment (any angles and offsets), point and table of spots (orders and mixtures of petals enumerated over the petal ids; rows of one petal are elementwise code).")
CLAIMS["C11"] = ("proof", "All obligations discharged over every interval of the shipped table (piecewise linear interpolation of the real table rows), every composite and every out-of-range value.")
CLAIMS["C12"] = ("proof", "All obligations discharged: curl/divergence, normalisation and orthogonality as exact polynomial identities of the executed terms; linearity, order independence and normal equations of the fit for symbolic data. Recovery of coefficients through numpy.linalg.solve is additionally sampled (bounded, not counted).")
CLAIMS["C14"] = ("proof", "All obligations discharged: exact recovery of every orientation-preserving affine map and rigid map by the fits for point sets of arbitrary length (symbolic sequences), least squares, exact inverses (planar, guide star with the projection replaced by its C02 contract, guide camera). The guide-star fit and the guide-camera metrology fit are bounded contracts (not counted).")
CLAIMS["C15"] = ("proof", "All obligations discharged for every parameter value, every option flag and the listed numbers of terms and configurations (the lists are copied elementwise), in memory and through files; json itself replaced by its contract (a faithful store of trees of numbers and text). Shipped files are checked exhaustively; identical sky conversions of reloaded field models are additionally sampled (bounded, not counted).")
CLAIMS["C13"] = ("proof", "All obligations discharged for arrays of any length, any scale, rotation, offset, corrector angles and any distortion of gradient below 0.39 and size below 0.22 (ray trace: 0.25 and 0.125), every iteration count of the inversion; the distortion is replaced by that contract and interp1d by a fixed function. The shipped models are shown to satisfy it everywhere on the disc needed (exhaustive grid plus derivative bound, finite contracts). Echo22 (legacy approximate polynomial) is outside the claim.")
CLAIMS["C21"] = ("proof", "All obligations discharged: decoding of every natural number for every definition and combination of any number of names by loop invariants on the real loops; the shipped positioner and move flags exhaustively. Random definitions are additionally sampled (bounded, not counted).")
CLAIMS["C22"] = ("proof", "All obligations discharged for every right ascension, declination and sidereal time and every mixture of scalars and arrays (elementwise code, arrays of up to two elements).")
CLAIMS["C25"] = ("proof", "All obligations discharged for fiber lists of any number of entries and any numbers (loop invariants on the real loops, entries abstracted to digit runs, ranges and anything else; empty lists and spelling sampled) and for every hexapod header form. The pinhole labels of findfiducials are a bounded contract on synthetic images (not counted).")
CLAIMS["C17"] = ("proof", "All obligations discharged for catalogs and key lists of any length (nearest neighbour once: loop invariant on the real loop over the claimed entries, KDTree query by its contract; key match: argsort, unique, searchsorted by their contracts) and for the invariance of the triangle features (three points). The assignment of whole patterns (patterns whose triangles all differ in shape), radius match and positioner assignment are bounded contracts (not counted).")
CLAIMS["C19"] = ("proof", "All obligations discharged for any number (at least four; ten for the robust fit) of distinct points of a circle in any order: arrays of symbolic size described by their generic element, index arithmetic modulo the size by linear integer reasoning, reductions by their contracts (mean of equal values, median of a majority), the minimiser by its contract (does not increase the sum of squares). An outlier is a point further than the minimum error (0.1 mm) from the circle; the accuracy of the floating-point result is sampled in the same runs.")

CLAIMS["C18"] = ("proof", "Proved for every pixel, position, width and window: the profile is a probability (erf by its monotony), its window sums telescope, its symmetries and its exact derivatives; for every stamp size the true position is the fixed point of the Gauss-Newton iteration (normal equations with the residual zero); for images of any size a peak is exactly a pixel above the threshold not below its neighbours, and the stamp, position and flux of each peak are read at its own place, edges included. Bounded: the convergence of the five Gauss-Newton steps from the peak pixel, the Gaussian convolution kernel, and the detection end to end on sampled images (size, position, edge distance, flux stated in the contracts).")
CLAIMS["C24"] = ("proof", "Proved: the polynomial rows are the exact gradients of the monomials (degrees 1 to 6, any points); a field of the space is predicted exactly without the point itself (least squares by contract); the loop of the local correction over any number of points by an invariant; the gradient covariance is the exact mixed second derivative of a Gaussian covariance and symmetric, for any pair of points; the predictions are the conditional means (linear solvers by contract, two or three generic points: every entry is a pair expression); for any number of stationary points, some undefined, only defined points within the residual limit are used and flagged. Bounded: the rational quadratic variant, the accuracy of the solvers, the fit of the covariance parameters, and the tables read from files.")
CLAIMS["C29"] = ("proof", "Each step under contract, over the contract of an astropy table and of the fit (C26): selection by notes for any presence of any keyword in the notes (forms of the selection enumerated), filters and sequences (enumerated patterns, generic contents), first row at a date (generic times), windows for any number of moves between up to four dates and any window (six sampled), arguments of the fit, the report of up to three windows with generic values and any pattern of drifting sequences, stuck flag over the contract of the standard deviation. Bounded: whole runs on sampled files with a recording fit (selection, order, windows as runs of rows, starting values, quantile, report), and with the real fit on noiseless files. When all moves fall in one period the windows are only required to hold the wanted number of moves and to cover them all. Reading and writing csv is astropy's.")
CLAIMS["C28"] = ("proof", "The real fits run over the contracts of what they call (the minimiser of scipy, the linear fit of the distortion terms C12, the plane similarity fit C12, the nearest-neighbour match C17, an astropy table): what is minimised, which points are paired, what is held, what is stored and what is written in the spots are postconditions, for generic positions and parameters; orders of the rows (five of each, all crossed), corrector setups and match histories (up to four tables) are enumerated, not arbitrary. That the minimiser reaches the minimum, hence the recovery of the true transform, is sampled on the real code with the shipped metrology (all fiducials or a random subset, random order), not proved. Statistics that are only reported are outside.")
CLAIMS["C27"] = ("proof", "Each law is a postcondition of the function that implements it, for every input (frames and their rotations, roots of the quadratic, conic interception over the contract of the roots, sags and their exact slopes, normals, reflection, refraction, apertures, spiders of one or two legs, media table, steering, corrector rolls), callers over the contracts of their callees; the sequence of surfaces by a loop invariant for any number of surfaces; Newton steps on polynomial surfaces stay on the ray whatever the surface returns. Bounded: that these steps reach the surface (mild aspheres), the collection of the good rays (tables of 4), and the agreement of the fast model with the trace of the shipped prescription (40 random directions and corrector angles per quick run), which also covers the reading of the three tables.")
CLAIMS["C26"] = ("proof", "The whole of fit_params under contract, for any number of points (a generic point; dynamic mode: a generic pair of successive points), every subset of fixed parameters and every history of up to the twenty rejections the code allows: what is minimised is exactly the weighted squared residual of the arm model with these parameters (kinematics, petal mapping and direction by the contracts proved in C06-C10), over all the points not rejected, each parameter with its own bounds; drifts of up to two sequences; what is returned, covariances included. That scipy.optimize.minimize then reaches the minimum, and that it is unique (recovery of the true calibration within 0.02 degrees and a micron), is sampled on the real code in the same runs, not proved.")
CLAIMS["C03"] = ("proof", "The real radec2tan and tan2radec run over the contracts of their steps (C01, C02, C04, C05): for every pointing, star, date, sidereal time, hexapod angle and combination of the five options each step is undone in mirror order with the same date, constants and pointing, star and pointing get the same conversions, the hexapod angle is a rigid rotation and the pointing the origin. The size of the round trip error is proved from tighter bounds of the inexact steps (refraction over 18 to 90 degrees by interval bisection, aberration, misalignment matrices), whose sum is below 0.005 arcsec. That a generic star stands for each element of an array rests on the element-wise contracts of the steps. With use_astropy the inverse of astropy's precession is assumed, and its aberration is undone to first order as in C05 (sampled).")
CLAIMS["C23"] = ("proof", "The real FieldModel and TanCorr run over the contracts of their steps (tangent-plane projection C02, sky to tangent plane C03, tangent plane to focal plane C13, each an opaque pair of inverse maps for equal parameters): for every model and its flags both directions use the same pointing, date, angles and flags, the tangent-plane correction is undone exactly for every scale, shear and rotation, and the sum of the error budgets of the steps (0.005 arcsec through the largest plate scale, plus the distortion tolerance) is below one micrometre. Within those contracts nothing is bounded; the real chain is additionally sampled.")
CLAIMS["C20"] = ("proof", "Zenith distance, parallactic and corrector angles proved from the geometry of the sphere for every pointing. The real transforms run over the contracts of their steps (opaque pairs of inverse maps: C03, C13, C12, C08): the realised rotation is the requested one exactly, the way back removes the rotation first and returns the targets exactly when the natural rotation of the field does not depend on position, and to 0.025 arcsec when it changes by less than 0.005 of a turn of the coordinates; the tuning of the pointing is a Newton iteration whose residual is below a micrometre for any focal plane model within 0.002 of linear. These two numbers, and the whole chain, are sampled on the real code (bounded contract, not counted); the projection to the tangent plane used in measuring the rotation is C02.")
CLAIMS["C16"] = ("proof", "Frames inferred from the current source for every function of the package, function by function (a caller uses the inferred contract of the callee; all branches, loops to a fixed point): every public conversion, fit and detection modifies nothing it is given beyond the documented columns and attributes, whatever it stores in module level state, function attributes or default values depends on no argument, no random number and no earlier content (a table of remembered results may depend on its key), fits use nothing earlier fits left in the object, and none draws from the shared random generator. The effects of library functions are trusted from a table. Outside: plotting, the command line programs, the message log. The real functions are also run on sampled arguments and histories, alone, after others and after nearby calls.")
CLAIMS["C30"] = ("proof", "The real processing, expected positions and interface to the matching program run over the contracts of what they call (finding of fiducials C25, camera fit C28, match C17, turbulence C24, field model C23, astropy tables, the external program: any report): for generic positions and distances, seven spots with every outcome of the match in five patterns, tables with every kind of columns, reports in sampled orders, what each callee is given and what is written are postconditions. Text written to and read from the program's files keeps its numbers when three decimals or more are asked for (rounding is outside). Bounded: whole exposures of the shipped focal plane with the real fiducial search, fit and match, with and without a stand-in of the program (its reading of the files is ours, from the documentation; the real program is not available), and the selection of images in real FITS files.")
CLAIMS["C31"] = ("proof", "The real reading of catalogs and fit of the field model run over the contracts of what they call (astropy tables and dates, the planar fit C14 idealised as exact for the stars used, radec2tan C03, fp2tan C13, gfa2fp C14): for generic catalogs of one and two stars with every column pattern, which stars are kept, their carried positions and the date are postconditions; for three stars on every pattern of petals with and without metrology, what is compared with what, precedence of dates, sidereal times and angles, and the fitted pointing are. Bounded: catalogs in real files, whole fits of simulated exposures (pointing errors to an arc minute, noise) and the field rotation against a computation on the sphere.")
