FZ="src/zernpy/calculations/fit_zernike_pols.py"
CN="src/zernpy/calculations/calc_psfs_numba.py"; PR="src/zernpy/props/properties.py"; IM="src/zernpy/utils/intmproc.py"
p("C01","OSA, Noll and Fringe indices follow their published definitions",
 "For every valid pair of azimuthal order m and radial order n (|m| <= n, n - |m| even, n up to 54) the index functions return exactly the OSA/ANSI index (n(n+2)+m)/2, the Noll index of Noll (1976) and the Fringe / Univ. of Arizona index, as plain integers. Each of the three numberings therefore identifies one polynomial only: indices of one radial order (for Fringe, of one n+|m|) fill their own block, and sine and cosine terms take the prescribed places in it.",
 I,"every valid order pair (m, n) with 0 <= n <= 54","the tests compare a few dozen listed pairs; the sign and modulo rules of the Noll and Fringe schemes differ per residue class of n and sign of m",
 [ZP],[("closed formulas for the three indices",ZP+": get_osa_index, get_noll_index, get_fringe_index")],obs=["returned index values"])
p("C02","Index conversions invert each other and reject anything out of range",
 "Converting an index to its orders and back, or between the OSA, Noll and Fringe numberings, returns the polynomial it started from for every index of a supported polynomial (n up to 54), always as plain integers. An index which belongs to no polynomial in the supported range (negative, below the first index of its scheme, not an integer, or beyond the searched orders) raises ValueError: it is never answered with the orders or the index of some other polynomial.",
 I,"every OSA index 0..1539, Noll index 1..1540, every Fringe index of a polynomial with n <= 54, and all integers outside these ranges within the stated bounds","the tests convert some small indices; the searches over the orders can stop too early, mix up schemes or fall through for particular indices only",
 [ZP],[("search over the orders",ZP+": index2orders"),("converters with type and range checks",ZP+": osa2noll, noll2osa, osa2fringe, fringe2osa")])
p("C03","A polynomial is created exactly from the valid specifications, consistently",
 "Creating a polynomial succeeds exactly for: a valid pair of integer orders (|m| <= n, n - |m| even, 0 <= n <= 54), an OSA index 0..1539, a Noll index 1..1540 or a Fringe index of a polynomial with n <= 54, each under any of its documented keyword names; everything else (also wrong types, unknown keywords, none or more than two keywords) raises ValueError. Whichever way it is specified, the created object reports the same orders and the same three indices of one and the same polynomial, and instances do not influence each other.",
 I,"every integer value of the orders and indices within the stated bounds, every documented keyword combination, and every other keyword combination of size up to 3","the tests create some tens of polynomials; the acceptance region is two-dimensional and every alternative keyword has its own branch",
 [ZP],[("constructor validation",ZP+": ZernPol.__init__"),("getters",ZP+": get_indices, get_mn_orders")])
p("C04","Polynomials compare by OSA index, equality means the same polynomial",
 "For any two polynomials p == q holds exactly if they have the same orders, p > q (and q < p) exactly if the OSA index of p is larger, and p != q is the negation of p == q, no matter by which index they were created. Comparing with an object that is no Zernike polynomial raises ValueError.",
 I,"every pair of polynomials with n <= 54","tests compare a few pairs; the relation ranges over all pairs",
 [ZP],[("comparison operators",ZP+": __gt__, __eq__")])
p("C05","Radial values equal the Zernike radial polynomial for all orders and radii",
 "For every polynomial with n <= 54 and every radius r in [0, 1], the default calculation of the radial function equals R_n^|m|(r) = sum_k (-1)^k (n-k)! / (k! ((n+|m|)/2-k)! ((n-|m|)/2-k)!) r^(n-2k). The exact-equation route gives the same values for n <= 40, and for higher orders returns zeros of the shape of the input together with a warning.",
 I,"every order pair with n <= 54, every real radius in [0, 1], both calculation routes","tests sample radii for some orders and compare routes that share their tables; each order has a separately written formula or recurrence branch",
 [ZP,CZ,FP],[("tabulated low orders and recurrence",CZ+": radial_polynomial"),("coefficient recurrence",CZ+": radial_polynomial_coeffs; "+FP),("factorial equation",CZ+": radial_polynomial_eq"),("route selection",ZP+": radial, polynomial_value")])
p("C06","Radial derivative values equal the derivative of the radial polynomial",
 "For every polynomial with n <= 54 and every radius r in [0, 1], the default calculation of the radial derivative equals d/dr R_n^|m|(r). The exact-equation route gives the same values for n <= 38 (including r = 0), and for higher orders returns zeros of the shape of the input together with a warning.",
 I,"every order pair with n <= 54, every real radius in [0, 1], both calculation routes","tests compare selected radii, orders and only routes against each other; each order has its own tabulated formula",
 [ZP,CZ,FP],[("tabulated derivatives and recurrence",CZ+": radial_derivative"),("coefficients of the derivative",CZ+": radial_polynomial_coeffs_dr; "+FP),("factorial equation",CZ+": radial_derivative_eq")])
p("C07","Angular function, its derivative, norm and product follow the definition",
 "For every polynomial (n <= 54) and angle theta in [0, 2 pi] the angular function is cos(m theta) for m >= 0 and sin(|m| theta) for m < 0, its reported derivative is the derivative of that function, and the normalisation factor is sqrt(n+1) for m = 0 and sqrt(2(n+1)) otherwise. The polynomial value is normalisation * radial function * angular function.",
 I,"every order pair with n <= 54, every radius in [0, 1] and angle in [0, 2 pi]","tests sample angles for few polynomials; sign, factor and branch per sign of m",
 [ZP,CZ],[("angular function and derivative",CZ+": triangular_function, triangular_derivative"),("normalisation",CZ+": normalization_factor"),("product",ZP+": polynomial_value")])
p("C08","Scalars, lists and arrays give elementwise the same values, inputs intact",
 "Every value method (polynomial, radial, angular function and both derivatives) returns for a list, tuple or array of any shape the array, of the same shape, of the values it returns for the single elements, and it accepts integers like floats. Any radius outside [0, 1] - in whatever position of the input - raises ValueError, radius and angle arrays of different shapes raise ValueError, angles outside [0, 2 pi] only produce a warning; the arrays passed in are never modified.",
 I,"every array content within the stated shapes (1-D and 2-D), scalar / list / tuple / array / int inputs, all orders of the listed set with both calculation routes","tests use ascending arrays inside the domain; in-place arithmetic or a check of selected elements is invisible to them",
 [ZP,CZ],[("input checks",ZP+": _check_radii, _check_angles"),("elementwise formulas",CZ)])
p("C09","Evaluating polynomials is free of history: no call changes later results",
 "The value computed for a polynomial, radius and angle does not depend on which polynomials, methods, routes, radii or inputs were evaluated before, on the same or other instances, and results returned earlier are not changed by later calls, and changing a given or a returned array afterwards changes no later result. Orders and indices of a polynomial never change after creation.",
 ["histories","inputs"],"every sequence of up to the stated number of evaluation calls (value, radial, derivative; both routes) on polynomials of the listed orders, for every radius","tests call each method once; shared coefficient tables or returned internal buffers only show up in particular call sequences",
 [ZP,CZ,FP],[("coefficient tables and generation",FP),("stateless formulas",CZ),("instance state",ZP+": ZernPol")],
 [("slow-calculation warning flag","shows a warning once per instance",ZP)])
p("C10","Sums of polynomials are the linear combination on points and surfaces",
 "The sum over given coefficients and polynomials equals sum_i c_i Z_i(r, theta) at every requested point, for scalars, lists and equally shaped arrays; as a surface, entry [j, k] is the sum at radius r[j] and angle theta[k] for any numbers of radii and angles. Different lengths, an empty list or an entry that is no Zernike polynomial raise ValueError, and inputs are not modified.",
 I,"every real coefficient (zero and negative included), every radius and angle, the listed sets of up to 3 polynomials, grids wider than high, higher than wide and square","tests check a few coefficients; the surface route switches the loop order by grid shape and skips zero coefficients",
 [ZP],[("pointwise and surface sums",ZP+": sum_zernikes, _sum_zernikes_meshgrid"),("surface generation",ZP+": gen_zernikes_surface")])
p("C11","Generated polar grids cover the whole unit disk without leaving it",
 "For every radius step in (0, 0.5] and angle step in (0, pi] the generated vectors start at 0, increase without a gap larger than the step, and end at 1 and 2 pi (up to rounding) without ever exceeding them; other steps raise ValueError. The equally sized mesh has the requested number (at least 4) of evenly spaced radii and angles over [0, 1] and [0, 2 pi], and generated surfaces come with exactly these vectors.",
 I,"every real step within the stated range (number of points bounded), every step outside of it, every number of points within the bound","tests use default steps, for which the clipping of the last element does not matter",
 [ZP],[("grid generation",ZP+": gen_polar_coordinates, gen_equal_polar_mesh, gen_zernikes_surface")])
p("C12","A generated phase image carries the sum at each pixel's polar coordinates",
 "For any width and height, each pixel of the generated phase image holds the sum of the polynomials with the given amplitudes at the polar coordinates of this pixel: the radius is the distance to the centre pixel (height//2, width//2) divided by 1 + min(width, height)//2, the angle is counted counter-clockwise from the positive x (column) direction with rows pointing downwards. Pixels farther away than this radius are exactly zero and the image has the shape (height, width).",
 I,"every real amplitude, image sizes within the stated bound, square and not, odd and even","tests look at single images by fitting them, where orientation, centre or amplitude slips cancel out",
 [ZP],[("pixel loop",ZP+": generate_phases_image")])
p("C13","Cropping selects the pixels inside the circle and their polar coordinates",
 "Cropping a phase image marks exactly the pixels within the requested fraction of the inscribed circle, plus the border tolerance in units of that radius: 0.055 if both sizes are even or the sizes differ by one, else (and always with the strict option) 0.001. It returns, for exactly these pixels, the phase together with the polar coordinates it has in that circle: radii within [0, 1] rounded to 4 digits (scaled so that the largest is 1 where the tolerance lets a pixel lie outside of the unit circle), angles in [0, 2 pi) counted counter-clockwise. Warnings about the image are suppressed when requested. The input image is not modified, and images that are not 2-D or smaller than 3 pixels and crop fractions outside [0.5, 1] raise ValueError.",
 I,"every pixel value, image shapes within the stated bound (odd, even, non-square), strict and not, every crop fraction in [0.5, 1] on the listed shapes","tests crop a few large images through fitting and never look at the mask or coordinates",
 [FZ,ZP],[("mask and coordinates",FZ+": crop_phases_img"),("cropped image returned",ZP+": fit_polynomials")])
p("C14","Fitting recovers the coefficients of any combination of the polynomials",
 "Fitting polynomials to phases that are an exact linear combination of them (given as an image or as vectors with their coordinates) returns the coefficients of that combination in the order of the polynomials, rounded to the requested digits; for arbitrary phases the result is the least-squares solution. The optional cropped image equals the input inside the circle and zero outside, the inputs are not modified, repeated or missing polynomials raise ValueError and vectors that are not 1-D raise TypeError.",
 I,"every real coefficient vector and every real phase content within the stated sizes, the listed sets of polynomials in any order","tests fit random images and compare loosely; order, sign and rounding slips for particular polynomial sets escape",
 [FZ,ZP],[("design matrix and least squares",FZ+": fit_zernikes"),("public wrappers",ZP+": fit_polynomials, fit_polynomials_vectors")])
p("C15","The generated set holds every polynomial up to the order once, in OSA order",
 "For every maximum order the generated tuple holds exactly all polynomials with radial order up to it, the k-th one having OSA index k. Negative orders raise ValueError; a non-integer order is converted with a warning.",
 I,"every maximum order 0..54 (symbolic within blocks), every negative order in the bound","tests generate one or two orders",
 [ZP],[("generation",ZP+": generate_polynomials")])
p("C16","Names belong to their polynomial; text shows the orders and indices",
 "Every polynomial with n <= 7 has a conventional full and short name of its own (no two share one), names of the terms with -m and m describe the same aberration with the same level (only the direction differs: vertical / horizontal, oblique, etc.), and polynomials with n > 7 have an empty name. The text form of a named polynomial begins with its full name and states its n, m, OSA, Noll and Fringe numbers.",
 I,"every polynomial with n <= 54","tests look up a few names",
 [ZP,PR],[("name tables",PR),("lookup and text",ZP+": get_polynomial_name, __str__")])
p("C17","Physical PSF properties are accepted exactly in the documented ranges",
 "Setting physical properties succeeds exactly for 0 < NA <= 1.7, wavelength > 0 and 0 < pixel size <= wavelength/(4 NA), together with one numeric coefficient per polynomial; anything else raises ValueError (text instead of a number: ValueError or TypeError). After success exactly the given values are in effect and the wave number is 2 pi / wavelength of the wavelength given in this very call, whatever was set before.",
 ["inputs","histories"],"every real NA, wavelength, pixel size and coefficient within the bounds, after any previous valid setting","tests set one or two typical property sets; the pixel limit couples three inputs",
 [PS],[("validation and derived wave number",PS+": set_physical_props"),("getters",PS+": k, NA, wavelength, pixel_size")])
p("C18","Calculation properties and kernel sizes are validated and always odd",
 "Setting calculation properties succeeds exactly for kernel size >= 3, at least 20 radius and 36 angle points, and makes exactly these values effective, except that an even kernel size becomes the next odd one; other values raise ValueError. The suggested kernel size is always an odd number of at least 3.",
 I,"every integer triple within the bounds; every NA, wavelength, pixel size within the valid range for every polynomial order class","tests use default values; even sizes and limits are not covered",
 [PS,CP],[("validation",PS+": set_calculation_props"),("estimation",CP+": get_kernel_size")])
p("C19","PSF integration weights sum to one and follow their quadrature rules",
 "For any numbers of integration points (even number of angle points) the PSF intensity of the unaberrated pupil at the origin is 1 up to the quadrature error bound, and the numeric PSF value equals the squared modulus of the composite trapezoidal (radius, endpoints once, nodes within [0, 1]) and composite Simpson (angle, 0 to 2 pi) sum of the diffraction integrand exp(i(alpha Z(p, phi) - r p cos(phi - theta))) p, divided by pi^2. The same holds for the sum of several polynomials.",
 ["inputs","configurations"],"every real amplitude, distance and angle for the listed polynomials and numbers of nodes; every integrand value (left symbolic)","tests compare kernels to each other (same quadrature), so a wrong weight or a node counted twice cancels out or stays within tolerance",
 [CP],[("radius and angle integrals",CP+": diffraction_integral_r, radial_integral, get_psf_point_r and variants")])
p("C20","The PSF kernel samples the intensity at pixel positions, normalised to 1",
 "Every kernel entry is the PSF intensity at the optical coordinate k*NA*distance of this pixel to the centre pixel and at its polar angle, with all phase amplitudes divided by the wavelength; the kernel is square with the requested odd size, non-negative, and normalised to a maximum of 1 when requested. The kernel of the piston from the plain calculation is the Airy pattern 4 (J1(x)/x)^2 with 1 in the centre, and a kernel cut off where the intensity at its border still exceeds 5 % of the maximum triggers a warning unless suppressed.",
 ["inputs","configurations"],"every NA, wavelength, pixel size and coefficient in the bounds, for the listed kernel sizes, symbolic point intensities","tests compute a few kernels and compare them to themselves or stored values with mirror-symmetric polynomials",
 [CP,PS],[("kernel loops",CP+": get_psf_kernel, get_psf_kernel_comp"),("interface",PS+": calculate_psf_kernel")])
p("C21","Accelerated and plain PSF calculations agree for every polynomial up to n=10",
 "The accelerated (compiled) calculation uses for every polynomial with n <= 10 and all radii and angles the same polynomial values, and with the same settings yields the same kernel as the plain one, for one or several polynomials (the piston alone excepted, for which the plain calculation uses the Airy formula and the accelerated one the same integral as for all others). For higher orders it raises ValueError instead of using wrong values.",
 I,"every order pair with n <= 10, every radius, angle and coefficient; small kernels and integration grids","the tests compare selected polynomials; each order has its own branch in a second copy of the formulas",
 [CN,CP,PS],[("duplicated formulas",CN),("reference",CP)])
p("C22","Cropping a kernel removes exactly the border with negligible intensity",
 "Cropping a calculated kernel with a threshold removes outer frames as long as the whole frame (all four borders) is below the threshold share of the maximum, and nothing else: the result is the central part of the original with odd size, its values unchanged, and reported kernel size equal to it. A kernel too small to crop stays as it is. For a croppable kernel thresholds outside (0, 0.5) raise ValueError and leave everything unchanged.",
 I,"every real kernel content and threshold for the listed kernel sizes","tests crop a single kernel and check its size",
 [PS],[("frame removal",PS+": crop_kernel")])
p("C23","Saving and loading a PSF restores everything and never overwrites silently",
 "A PSF saved to a JSON file and read by another instance restores the kernel, NA, wavelength, pixel size, kernel size, integration settings, polynomials and coefficients that were in effect, whether given as Python or NumPy numbers. An existing file is replaced only when overwriting is requested, otherwise it stays byte-identical and a warning is given, and saving before a kernel was calculated gives a warning that it holds no calculated kernel.",
 ["histories","inputs"],"every real property value, coefficient and kernel content, single and several polynomials and Airy, saving into a folder or file path, given as string or path, overwrite on and off, existing or not","tests save and load one kernel with default settings",
 [PS,CP],[("serialisation",CP+": save_psf, read_psf"),("interface",PS+": save_json, read_json")])
p("C24","Convolution applies the normalised kernel with reflected borders",
 "Convolving an image returns an image of the same shape and data type with every pixel equal (within one grey level for integer images) to the kernel-weighted sum of its neighbourhood divided by the kernel sum (a true convolution: the kernel is flipped) with reflected borders, optionally rescaled (non-negative images) so that its maximum equals that of the original. A constant image stays constant, and the input image and the kernel are not modified.",
 I,"every pixel value and every non-negative kernel within the stated sizes, float and integer images","tests convolve one image and look at its shape or plots",
 [CP,PS],[("convolution",CP+": convolute_img"),("interface",PS+": convolute_img")])
p("C25","Parallel computation returns the sequential results in order, in any schedule",
 "Whatever the order in which the worker processes run and finish, the parallel manager returns one result per parameter set, in the order of the parameter sets, equal to calling the function directly (a function that does not raise); repeated computations with updated parameters never return results of an earlier round. A function that is not callable and an empty list of parameters raise TypeError, fewer parameters than workers ValueError, and an unusable number of workers gives a warning and uses half of the processors. Several managers do not interfere, workers stop after closing, and the PSF calculations built on it return the same values as the sequential ones, before, during and after the workers are active.",
 ["schedules","histories","inputs"],"every interleaving of worker completion within the stated numbers of workers, parameters and rounds, every numeric parameter value","tests run the manager on one machine schedule at most, most of it is not tested at all",
 [IM,CP,PS],[("worker loop and queues",IM+": IndiWorker, DispenserManager"),("parallel PSF routines",CP)])
p("C26","A PSF object is created only from polynomials and starts uncomputed",
 "A PSF is created from one Zernike polynomial or a non-empty list or tuple of different ones, and anything else raises ValueError. Before properties are set and the kernel is calculated it reports no calculated kernel, and its kernel is the neutral single point 1.0 (a convolution with it returns the image, cropping changes nothing and saving warns); each instance has its own state.",
 ["inputs","histories"],"every polynomial with n <= 54, sequences of up to three, and listed non-polynomials; every order of up to the stated number of calls","tests create PSFs with one polynomial",
 [PS],[("construction and state",PS+": ZernPSF.__init__")])
p("C27","Random phases are those of the returned polynomials and amplitudes",
 "For every outcome of the random generator the returned image is the phase image of exactly the returned polynomials and (rounded) amplitudes with the requested size, the polynomials are all those up to the requested order in OSA order, every amplitude lies within [-1.5, 1.5] and at least one is at least 0.08 in magnitude (amplitudes are rounded to the requested 1 or more digits, only the replaced one, when all were too small, is not).",
 I,"every outcome of the random choices and amplitudes within the stated order and image sizes","tests see one random draw per run",
 [ZP],[("random selection and image",ZP+": generate_random_phases")])
p("C28","Plots show the surface at its own polar coordinates",
 "Plotting a sum or a single polynomial draws, in 2-D, the surface over exactly the angle and radius vectors it was calculated on and, in 3-D, at x = r cos(theta), y = r sin(theta), with the given colour map and optional colour bar; a single profile has the name of the polynomial as its title. The default plots use the sum of the given polynomials with the given coefficients (1.0 for a single one). Plotting on a given figure clears it first and returns the same figure, and inconsistent arguments raise ValueError. The plot of a PSF draws its stored kernel, that of the sample convolution the sample disk and its convolution with the kernel.",
 I,"every surface value, radius and angle vector and coefficient within the stated sizes, 2-D and 3-D","no test looks at what is plotted",
 [PL,ZP],[("plotting helpers",PL),("interface",ZP+": plot_profile, plot_sum_zernikes_on_fig")])
p("C29","Warnings appear exactly when documented and silencing them changes nothing",
 "A PSF object warns exactly when: a coefficient exceeds ten wavelengths in absolute value; the size set for the kernel is below the estimated one; calculation settings are given, or a kernel is calculated, without physical properties; more than 500 radius and more than 400 angle points are requested; the largest intensity on the border of a calculated kernel exceeds 5 % of its maximum. Fitting an image warns for sizes that are not square or not odd. Angles outside of [0, 2 pi] and maximum orders above 30 warn and still give the right values. Suppressing the warnings silences them and changes no result: kernel, its size, settings, coefficients and cropped image are the same.",
 ["inputs","histories"],"every coefficient, wavelength, kernel size, number of integration points and border intensity within the bounds, every image shape in the bound","tests switch the warnings off and compare nothing with and without",
 [PS,CP,ZP,FZ],[("settings and calculation warnings",PS+": ZernPSF.set_physical_props, set_calculation_props, calculate_psf_kernel"),("kernel border warning",CP+": get_psf_kernel, get_psf_kernel_zerns; "+CN),("image warnings",FZ+": crop_phases_img")])
p("C30","The sample disk is round, bright inside and dark outside",
 "The sample disk of a radius (below 1 counts as 1) and maximum intensity is a square image with side 4 round(radius) + 1 (unsigned 8 bit up to a maximum of 255, else unsigned 16 bit). Pixels at the same distance of the centre have the same value. The value is the maximum in the centre and up to a quarter of the radius, never above it, does not increase with the distance, is at least 99 % of the maximum (up to one grey level) within half of the radius and 0 from 1.25 radii on.",
 I,"every radius within the bound (symbolic real) with listed maxima, every integer maximum up to 65535 on listed radii","tests only look at one disk in a plot",
 [CP],[("sample image",CP+": get_bumped_circle")])
p("C31","PSF settings take effect as a whole and only the last accepted ones count",
 "The kernel of a PSF object is calculated with exactly the physical and calculation properties accepted last, whatever was set, refused, calculated, cropped or convolved before on it or on other objects of the same polynomials. A refused call (ValueError) changes none of its properties. An explicitly set kernel size is used also without physical properties, and calculating again gives the same kernel with the same settings. Sequences of polynomials or coefficients are taken over when they are given: changing them afterwards changes neither the kernel nor the stored properties.",
 ["inputs","histories"],"every pair of successive calls with any values in the bounds, valid or not, with calculation, cropping or convolution in between","tests set properties once per object; leftovers of refused or earlier calls show only in histories",
 [PS],[("settings",PS+": ZernPSF.set_physical_props, set_calculation_props"),("calculation and cropping",PS+": ZernPSF.calculate_psf_kernel, crop_kernel")])
p("C32","Acceleration is optional and preparing it changes nothing else",
 "Without numba every kernel equals the one of the plain calculation, and a warning says so exactly when acceleration was asked for (accelerated=True) and warnings are not suppressed. With numba acceleration is used exactly unless it is switched off (accelerated None means automatic, used if numba is there). Precompilation (force_get_psf_compilation) returns two calculated PSF objects, one of a single and one of several polynomials, or None with a warning when numba is missing; it warns exactly when the version of numba is older than 0.57.1 or cannot be read; and it changes no other PSF object nor what later ones calculate.",
 ["inputs","histories"],"every value of the physical properties and pixel intensities within the bounds, every choice of acceleration, normalisation and suppression, listed versions","tests only run with numba installed and look at one version",
 [PS,CP],[("choice of calculation",CP+": get_psf_kernel, get_psf_kernel_zerns; "+PS+": ZernPSF.calculate_psf_kernel"),("precompilation",PS+": force_get_psf_compilation")])
p("C33","A slow evaluation is announced once per polynomial",
 "A polynomial warns about the slow default calculation exactly at the first call of its value or radial function with an order above 50, or of its radial derivative with an order above 48; later calls of the same object say nothing more, other objects and calls of the exact equation do not use the warning up, and lower orders never warn. The exact equation warns at every call beyond its limit (order 40, derivative 38) and never within it. The values do not depend on any of this.",
 ["inputs","histories"],"every radius and angle, every sequence of the stated number of calls on two objects","tests evaluate no such history and look at no warnings",
 [ZP],[("evaluation",ZP+": ZernPol.polynomial_value, radial, radial_dr")])
