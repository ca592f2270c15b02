L = "c3/lib_linalg/"
prop("P17", "Dense decompositions and products satisfy their defining identities",
     "QR, RQ, singular value and truncated singular value decompositions, pseudo-inverses, least squares, Kronecker products, maximum-volume submatrix and skeleton "
     "selection satisfy their defining algebraic identities for every matrix shape and conditioning, and truncation discards exactly what the threshold allows.",
     I, "all shapes (square, tall, wide, 1xn), rank-deficient, graded, zero, tiny and huge matrices, strides and thresholds",
     "Tests decompose a few fixed or random square matrices.",
     [L + "linalg.c", L + "matrix_util.c"], [("LAPACK call conventions, leading dimensions, workspace sizes", L + "linalg.c"), ("maxvol pivoting and rank-one updates", L + "linalg.c")],
     ORA + "residuals of the defining identities evaluated independently (orthogonality, reconstruction, dominance, normal equations)", "sizes up to 24")
prop("P18", "Quadrature rules have their stated degree of exactness",
     "Every quadrature rule returns distinct points inside its interval and weights that integrate exactly all polynomials up to the degree of the rule, for every number of points.",
     I, "all point counts (Gauss-Legendre 1..230 incl. tabulated and computed branches, others up to 70), random intervals",
     "Tests integrate a few functions with one or two point counts.",
     ["c3/lib_quadrature/quadrature.c", "c3/lib_quadrature/legquadrules.c"], [("tabulated Gauss-Legendre rules and eigenvalue branch", "c3/lib_quadrature"), ("closed-form weights", "c3/lib_quadrature/quadrature.c")],
     ORA + "exactness on a full orthogonal polynomial basis up to the degree of the rule", "")
prop("P19", "The fast Fourier transform is the discrete Fourier transform",
     "For every power-of-two length the fast transform equals the defining sum, the inverse transform undoes it, strided variants touch only their strided elements, and "
     "inputs are left unchanged; other lengths are refused. The Chebyshev value-to-coefficient transform interpolates its input.",
     I, "all power-of-two lengths up to 512, strides 1..3, real, imaginary, complex and impulse inputs", "Tests compare a few lengths on one input family.",
     ["c3/lib_fft/fft.c"], [("recursive radix-2 butterfly with strides", "c3/lib_fft/fft.c")],
     ORA + "comparison with the defining sum in extended precision", "")
prop("P20", "Discrete tensor trains represent what their constructors and algebra state",
     "Element access, sums, products, scaling, inner products, norms, weighted sums, canonical-to-train conversion and orthogonalisation of discrete tensor trains agree with the "
     "full tensors; decomposition and rounding meet their error bound with no more rank than needed; cross approximation of a low-rank tensor reproduces it and never asks for an entry outside it.",
     I, "all dimensions >= 2, mode sizes (including 1 and unequal ones), ranks attainable for the mode sizes, tolerances", "The tensor modules have no running tests at all.",
     ["c3/lib_tensor/tensor.c", "c3/lib_tensdecomp/tensortrain.c", "c3/lib_tensdecomp/tt_multilinalg.c", "c3/lib_tensdecomp/cross.c", "c3/lib_tensdecomp/candecomp.c", "c3/lib_tensdecomp/tt_integrate.c"],
     [("core layout rank x mode x rank", "c3/lib_tensor/tensor.c"), ("left/right index sets of the cross sweep", "c3/lib_tensdecomp/cross.c")],
     ORA + "comparison with full tensors; singular values of every unfolding; range monitor on the entry callback", "full tensors up to a few thousand entries")
prop("P22", "Text, strings, arrays, files and random variates behave as specified",
     "Splitting, stripping and joining strings lose and invent nothing; numbers written as text, packed or raw bytes and arrays saved to files are read back unchanged (text: to 14 digits) and "
     "truncated or missing files are refused; array constructors produce exactly their sequences; random variates have the stated distribution.",
     I, "all strings incl. empty and separator-only ones, all finite doubles, array shapes, cut positions of a file, seeds", "Tests use a handful of literal strings and one file.",
     ["c3/lib_stringmanip/stringmanip.c", "c3/lib_array/array.c"], [("in-place editing of character buffers", "c3/lib_stringmanip/stringmanip.c"), ("number formats", "c3/lib_array/array.c")],
     ORA + "independent reference implementation of every operation; 7-sigma moment tests for random variates with fixed seeds", "")
FL = [F + x for x in ("functions.c", "linelm.c", "constelm.c", "kernels.c", "polynomials.c", "piecewisepoly.c", "fourier.c")]
prop("P11", "Univariate functions: evaluation, linear combinations and products are exact",
     "For every univariate function class, point, batched, strided and by-index evaluation agree with the definition of the class (nodal and element functions vanish outside their interval), and scaling, sign changes, "
     "sums, linear combinations, products, sums of products and Kronecker-type contractions are pointwise what their names say, also when the operands live on different grids. Operands are left unchanged.",
     I, "all eight function classes, all coefficient counts, intervals, grids (shared, nested, disjoint interior nodes), strides, zero and unit factors",
     "Tests check single calls on a few fixed functions; the dispatch layer multiplies classes, strides and operand combinations.",
     FL, [("class dispatch macros and fallbacks", F + "functions.c"), ("merging of two grids", F + "linelm.c"), ("product linearisation tables", F + "polynomials.c")],
     ORA + "independent reference evaluation of every class from its coefficients", "")
prop("P12", "Univariate calculus agrees with the definition of the function class",
     "Integrals, weighted integrals, inner products, norms and distances of univariate functions equal those of the represented function in the measure of its class; derivative functions, derivative values, second and periodic "
     "derivatives agree with the exact derivative (or the documented difference scheme on a grid).",
     I, "all classes offering the operation, all grids (uniform, graded, 2..100 nodes, odd and even counts), intervals, strides",
     "Tests integrate and differentiate a handful of smooth functions at loose tolerances.",
     FL, [("end-point and few-node branches of difference formulas", F + "linelm.c"), ("domain scaling of measures", F + "polynomials.c")],
     ORA + "closed-form integrals and derivatives of the reference model; exactness of difference schemes on polynomials of their order", "")
prop("P13", "Univariate approximation reproduces its space and honours its options",
     "Approximating a function that belongs to the chosen space reproduces it; adaptive approximation interpolates at its nodes, keeps the given nodes and the interval ends, refines until its criterion or resolution limit is met, and never evaluates outside the interval. "
     "Constant, linear, quadratic, cardinal and orthonormal-basis constructors produce functions with exactly these properties.",
     I, "all classes, intervals, node counts, tolerances, refinement limits, numbers of basis functions", "Tests approximate a few functions with default options.",
     FL, [("adaptive refinement recursion", F + "linelm.c"), ("cardinal functions with prescribed zeros", F + "constelm.c")],
     ORA + "reproduction of in-space functions, monitor on every requested evaluation point, orthonormality matrix", "")
prop("P14", "Parameter views and parameter gradients are consistent with evaluation",
     "Reading, writing and aliasing the parameters of a function is lossless and immediately visible in evaluation; padding keeps the function; gradients of values, norms and inner products with respect to parameters equal their exact derivatives in every calling form.",
     I, "all classes with parameters (moving kernel centres included), all parameter counts, points, batch sizes", "Tests compare a few finite differences for single classes.",
     FL + [C + "ft.c", C + "qmarray.c"], [("parameter layout", F + "functions.c")],
     ORA + "central differences, exact for parameters that enter linearly or quadratically", "")
prop("P16", "Regression objectives return the gradient of the value they return",
     "For every regression objective, parameterisation and data set the returned value is the stated misfit plus penalty and the returned gradient is its exact derivative, whether or not the gradient is requested and however data are batched; fitting never increases the objective.",
     I, "all regularisation types, function classes, parameter and data counts, penalties", "Tests check gradients for one structure at one random point.",
     [F + "functions.c", "c3/lib_superlearn"], [("objective composition", F + "functions.c")],
     ORA + "independent misfit, central differences (exact for quadratic objectives)", "")
prop("P27", "Maximum search returns an attained, maximal value inside the domain",
     "Searching the largest absolute value of a univariate function, or of an array of functions, returns an index, a location inside the domain (one of the candidate nodes when nodes are given) and the value attained there, and no point of the domain or candidate has a larger one.",
     I, "all classes with a maximum search, with and without candidate nodes, arrays with strides", "Tests look at one function per class.",
     FL + [F + "pivoting.c"], [("roots of the derivative and end points", F + "polynomials.c")],
     ORA + "exhaustive comparison with nodes, respectively a dense scan of the reference model", "")
prop("P15", "Optimizers stay in bounds, descend, and report the point they return",
     "Every optimizer evaluates the objective only inside the bounds, returns a point whose reported value is the objective there and is not worse than the start, respects its iteration budget, and reports its evaluation counts and history faithfully; "
     "strictly convex problems are solved to tolerance and exhaustive search returns the first best candidate. Line searches that succeed satisfy their stated decrease and curvature conditions, copies of an optimizer run identically, and stochastic epochs visit each training sample exactly once.",
     H, "convex, non-convex and linear objectives in 1..6 variables; all algorithm x line-search pairs; bounds active or not; history on or off; memory 1..40",
     "Tests run each algorithm from one start on a few functions; bound violations, lost evaluations and bad histories need a particular path of iterates.",
     ["c3/lib_optimization/optimization.c"], [("projected line searches and Wolfe zoom", "c3/lib_optimization/optimization.c"), ("ring of curvature pairs", "c3/lib_optimization/optimization.c"), ("history buffers", "c3/lib_optimization/optimization.c")],
     ORA + "the objective callback is the monitor: it records every visited point, counts calls and checks bounds; offline trace specification for stochastic epochs", "randomised exploration; projected quasi-Newton is not required to find constrained minimisers in more than one variable")
prop("P10", "Algebra and decompositions of function-valued matrices are pointwise correct",
     "Products of matrices of functions with numbers and with each other (plain, transposed, Kronecker, block structured), their integrals, norms, stacking and row or column access equal the pointwise matrix operation. "
     "QR, LQ, Gram-Schmidt, SVD and pivoted elimination return orthonormal or cardinal factors whose product is the input, also for dependent columns; pivots lie in the domain and inputs not documented as overwritten stay unchanged.",
     I, "all function classes offering the operation, shapes 1..4 x 1..4 (not only square), dependent and zero columns, scales 1e-2..1e3",
     "Tests use square arrays of two or three smooth functions; layout and rank-deficiency errors need particular shapes.",
     [C + "qmarray.c", C + "quasimatrix.c"], [("column-major storage of function arrays", C + "qmarray.c"), ("Householder sweeps with reflectors", C + "qmarray.c")],
     ORA + "dense matrix arithmetic on point values and exact quadrature of inner products", "")
prop("P06", "Cross approximation reproduces low-rank functions from in-domain samples",
     "Approximating a black-box function that has low rank in the chosen spaces, with fixed or adaptive ranks, yields a train equal to it; the requested ranks and the rank cap are respected, and the options object can be initialised and used again. "
     "The black box is only ever asked for points inside the box, is called in the form and component it was registered with, and batched, fiber and index evaluation through the function wrapper return exactly its values.",
     I, "2..6 dimensions, all wrapper forms, node and polynomial spaces and mixtures, homogeneous and heterogeneous ranks, given or default start points and candidate nodes",
     "Tests approximate a few smooth functions with default settings and look at one error number.",
     [C + "ft.c", C + "indmanage.c", F + "fwrap.c", F + "fapprox.c", "c3/lib_interface/approximate.c"],
     [("alternating sweeps over nested index sets", C + "ft.c"), ("left and right index sets", C + "indmanage.c"), ("fiber evaluation", F + "fwrap.c")],
     ORA + "the wrapped function is the monitor (range, component, count); result compared with the target", "generic targets: a sampling method may miss structure that vanishes on all sampled fibers; adaptive exactness is judged for equal inner ranks")
prop("P07", "Saved and serialised objects come back unchanged, and faults are reported",
     "Univariate functions of every class, arrays of functions, trains and arrays of trains written to a byte buffer, a binary file or text (17 digits or more) are read back with identical values, ranks, integrals and norms; the announced size is the size written and read, so objects can be concatenated. "
     "A file cut at any byte, a missing file, and a full or unwritable device are reported instead of yielding an object or a success.",
     H, "all function classes and mixtures, 1..5 dimensions, scales 1e-60..1e60, every cut position, text precisions 12..24 digits",
     "Tests round-trip one function per class and never cut a file or fill a device.",
     FL + [C + "qmarray.c", C + "quasimatrix.c", C + "ft.c"], [("size computation next to the writer", F + "functions.c"), ("length-prefixed files", C + "ft.c")],
     ORA + "bit-exact comparison of the reloaded object and of its re-serialisation; fault injection by truncation, /dev/full and missing paths", "text formats do not exist for kernels and Fourier series")
prop("P08", "Operations change only their target; copies are independent",
     "In any history of constructing, copying, combining, updating, evaluating and freeing functions and trains, an operation changes only the object it is documented to modify: all other live objects, its operands included, stay bit-identical and usable. "
     "A copy equals its source, shares nothing with it, and survives changes to and release of the source.",
     H, "histories of 4..18 operations over pools of up to 7 live objects, all function classes, 1..4 dimensions, operands coinciding with each other",
     "Tests use each object once; aliasing shows only when an object is used again after another was changed or freed.",
     FL + [C + "qmarray.c", C + "ft.c"], [("in-place updates and scratch buffers", C + "ft.c"), ("deep copies of every class", F + "functions.c")],
     ORA + "bit-exact snapshots of every live object after every step of a random history, under AddressSanitizer", "")
prop("P21", "Distributions, their transforms, samples and sensitivities are consistent",
     "Cumulative distribution and inverse of the normal distribution are each other's inverse over their whole range; densities built from a reference density and an affine map have the mean, covariance, log value and log derivatives of the mapped variable, and survive copying, saving and loading. "
     "Samples are the affine image of the standard ones, the Laplace approximation of a Gaussian log posterior recovers its mean and covariance, and variance-based sensitivity indices are the true variance decomposition of the function.",
     I, "arguments 1e-300..1-1e-16, 1..5 dimensions, general lower triangular maps, trains of random ranks over several measures",
     "No unit test covers this part; tail errors, lost transforms and wrong interactions need particular arguments.",
     ["c3/lib_probability/probability.c", "c3/lib_probability/probability_utils.c", C + "ft.c"], [("rational approximation of the inverse and its refinement", "c3/lib_probability/probability_utils.c"), ("affine transform of a reference density", "c3/lib_probability/probability.c")],
     ORA + "closed-form normal distributions, exact quadrature of the variance decomposition, byte-exact reload", "only lower triangular transforms are invertible in the library; sensitivities need two dimensions and positive variance")
prop("P24", "Differential operators and alternating products on trains are exact",
     "The Laplacian (including periodic and user supplied one-dimensional operators) and the variable-coefficient diffusion operator applied to a train equal the pointwise differential expression, in any number of dimensions. "
     "Products computed by alternating minimisation agree with the direct product within the requested accuracy, do not depend on the start, and leave operands unchanged.",
     I, "1..5 dimensions, ranks 1..4, polynomial and nodal functions, periodic grids that are uniform only up to rounding",
     "Tests apply the operators to one function in fixed dimension.",
     [C + "diffusion.c", C + "dmrg.c", C + "dmrgprod.c", C + "ft.c", F + "linelm.c"], [("block structure of the operator cores", C + "diffusion.c"), ("left and right partial products", C + "dmrg.c")],
     ORA + "pointwise derivatives of the reference model, direct product as specification for the alternating one", "alternating minimisation is judged for generic functions with two or more dimensions")
prop("P26", "Memoised evaluation calls the function once per point and returns its value",
     "A monitored function returns what the wrapped function returns; each distinct point is evaluated exactly once, repeated points are served from the store, and the stored points and values can be printed back completely. "
     "The underlying table and list keep every entry through any history of insertions, lookups and collisions.",
     H, "1..6 dimensions, up to hundreds of points with repeats and near-equal coordinates, tables from 1 slot up, signs and scales 1e-12..1e12",
     "Tests evaluate a few points once; lost or doubled entries need collisions and repeats.",
     [F + "monitoring.c", "c3/lib_stringmanip/stringmanip.c", F + "fwrap.c"], [("text key per point", "c3/lib_stringmanip/stringmanip.c"), ("chained buckets", F + "monitoring.c")],
     ORA + "the wrapped function counts its calls; a reference dictionary replays the history (exactly-once, no loss)", "keys carry 15 significant digits: points agreeing in all of them count as equal")
