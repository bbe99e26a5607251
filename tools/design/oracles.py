"""What decides each property: (method, oracle, why beyond the tests)."""
O = {
"C01": ("The index functions run on symbolic integers m, n (one query block for all 1540 order pairs).", "closed formulas of OSA (n(n+2)+m)/2, Noll (with the case split by n mod 4 and the sign of m) and Fringe (1+(n+|m|)/2)^2 - 2|m| + [m<0]"),
"C02": ("index2orders and the four converters run on a symbolic index; their search loops fork once per candidate and the solver prunes.", "inverse of the formulas of C01; out of range must end in ValueError on every path"),
"C03": ("ZernPol(...) runs with symbolic orders and indices, every documented keyword name, and every keyword set of up to 3 names.", "acceptance region as a formula; same orders and indices from each way of creation"),
"C04": ("All comparison operators on two polynomials with symbolic orders.", "order of the OSA formulas"),
"C05": ("radial() on a symbolic radius for each order; both sides become polynomials in r whose difference is bounded on [0, 1].", "factorial formula in exact integers"),
"C06": ("radial_dr() in the same way.", "derivative of the factorial formula"),
"C07": ("triangular functions, norms and polynomial_value on symbolic r and theta; sin / cos of multiples are expanded to polynomials in cos and sin of theta.", "cos(m theta), sin(|m| theta), their derivatives, sqrt(n+1), sqrt(2(n+1))"),
"C08": ("Every value method on symbolic arrays, lists, tuples and integers of several shapes; domain checks with the offending element anywhere.", "the same method on the single elements; copies of the inputs taken before the call"),
"C09": ("Sequences of evaluation calls on shared and fresh instances; the first result is compared to the repeated one and to the one kept.", "the value of the first call on a freshly loaded package (no other history)"),
"C10": ("sum_zernikes and surfaces with symbolic coefficients, radii, angles; every relation of grid height and width.", "sum of coefficient times value of the single polynomial"),
"C11": ("Grid generation with symbolic steps (np.arange with a symbolic number of points is forked by the number), equal meshes with a symbolic n.", "the conditions of the statement (gaps, ends, monotone)"),
"C12": ("generate_phases_image with symbolic amplitudes, sizes chosen by the solver.", "polar coordinates of each pixel computed independently; values by the formula of the polynomial"),
"C13": ("crop_phases_img with a symbolic fraction and symbolic pixels: each comparison of a pixel radius with the fraction forks.", "geometry of the inscribed circle, computed independently"),
"C14": ("fit_polynomials(_vectors) with symbolic coefficients or phases; lstsq on a concrete matrix and a symbolic right side is the linear map pinv(A) b.", "the coefficients put in; normal equations for arbitrary phases"),
"C15": ("generate_polynomials with a symbolic order (forked by the loop).", "OSA enumeration"),
"C16": ("Names and text for orders chosen by symbolic integers; all pairs.", "kind, level and direction of the aberration as in the literature, formulas of C01"),
"C17": ("set_physical_props with symbolic NA, wavelength, pixel size, coefficients, once and after another setting.", "the documented region as a formula; values and k read back"),
"C18": ("set_calculation_props with symbolic integers; get_kernel_size with symbolic physical properties (rounding and quotient atoms).", "acceptance region; parity and minimum"),
"C19": ("The radius and angle integrals with the pupil phase a free symbol at every node, and with the real polynomial and symbolic amplitude, radius and angle.", "the quadrature sums written out; closed value for a constant phase"),
"C20": ("get_psf_kernel and calculate_psf_kernel: completely for 3 x 3 (NA, wavelength, pixel size, coefficients symbolic), and with a free intensity per pixel for larger kernels.", "optical coordinates of every pixel, Airy formula, normalisation and border rule as formulas"),
"C21": ("The compiled functions' Python source on symbolic r, theta and as whole kernels next to the plain ones.", "the plain calculation and the factorial formula"),
"C22": ("crop_kernel with every kernel entry and the threshold symbolic: every frame decision forks.", "largest central part whose frame reaches the threshold"),
"C23": ("save_json and read_json of the real class with symbolic values through a JSON model and real files for paths and overwriting.", "state before saving"),
"C24": ("convolute_img with symbolic pixels and kernel entries (scipy.ndimage.convolve as the sum it documents).", "reflected convolution sum"),
"C25": ("IndiWorker, DispenserManager and the parallel PSF routines on the model of multiprocessing: the solver chooses the interleaving.", "direct calls of the function, deadlock freedom"),
"C26": ("Construction from symbolic orders and lists of objects; histories of operations chosen by the solver.", "acceptance rule; neutral kernel"),
"C27": ("generate_random_phases with a random generator whose outcomes are symbolic.", "image of C12 for the returned polynomials and amplitudes, bounds"),
"C28": ("Plot functions with symbolic surfaces, coordinates and coefficients on recorded drawings.", "x = r cos, y = r sin, surface of C10, options as given"),
"C29": ("Setters, kernel loops (free intensities at the pixels), fitting, angles and orders with the warnings recorded; each call twice, with and without suppression.", "the documented conditions as formulas; equality of the two results"),
"C30": ("get_bumped_circle with a symbolic radius or a symbolic maximum intensity.", "symmetry, monotony and threshold conditions of the statement"),
"C31": ("Two successive calls with symbolic arguments on one object, the accepted ones only on a twin; the kernel routines are replaced by recorders of their arguments.", "equality of the public properties and of the arguments of the kernel calculation of the two"),
"C32": ("The package is loaded without numba, with it, or with a stand-in that reports a given version; the point intensities are free symbolic values, the accelerated kernel routines recorders.", "the kernel of the plain calculation, exact counts of warnings, the routine that is called, and an untouched twin object after precompilation"),
"C33": ("Sequences of calls chosen by symbolic inputs on two objects of the same orders, symbolic radius and angle.", "a two-valued state per object (announced or not) that gives the exact number of warnings of each call; equal values of equal calls"),
}
