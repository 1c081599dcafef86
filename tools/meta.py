"""Writes properties.jsonl and MANIFEST.json: the one place of their texts."""

import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
S = "src/sleplet/"
P = []


def prop(id_, title, statement, over, quantifier, why, files, mechanism, technique,
         note, state=(), observe=()):
    P.append(dict(id=id_, title=title, statement=statement, over=over,
                  quantifier=quantifier, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=state, observe=observe))


BOUND = (
    "The specification's invariants are decided exhaustively within its constants; the "
    "code is decided on the recorded executions only (cases enumerated by TLC plus random "
    "ones from VERIF_SEED), each judged by TLC. Trusted: TLC, pyssht/pys2let/libigl, and "
    "the harness's own oracles (scipy, quadrature). "
)

prop(
    "P01", "Slepian functions solve the concentration problem of their region",
    "For every bandlimit and every polar cap, polar gap, latitude-longitude box and mask, "
    "the Slepian functions computed are as many as there are harmonic coefficients, "
    "orthonormal over the sphere and orthogonal over the region, and the energy of each "
    "inside the region is its eigenvalue; the eigenvalues are sorted in descending order, "
    "lie between 0 and 1, and sum to the area of the region times L^2/(4 pi), of which the "
    "Shannon number is the nearest integer. Each function of a polar cap has a single order "
    "and L-|m| of them have order m, and asking for one order gives exactly that part of "
    "the family.",
    ["inputs", "configurations"],
    "All bandlimits, angles, gaps, orders and masks.",
    "The tests compare a handful of fixed regions with each other or with themselves; none "
    "evaluates the functions over the region, so a wrong matrix element, order, sign or "
    "area for other angles passes.",
    [S + "slepian/slepian_polar_cap.py", S + "slepian/slepian_limit_lat_lon.py",
     S + "slepian/slepian_arbitrary.py", S + "slepian/slepian_functions.py",
     S + "slepian_methods.py"],
    [("concentration matrices and eigensolvers", S + "slepian/"),
     ("area and Shannon number", S + "slepian/slepian_functions.py")],
    "TLA+ (EigenBasis) model checking, conformance of computed families by TLC",
    BOUND + "Inner products are evaluated with the harness's own quadrature and scipy's "
    "spherical harmonics; bandlimits up to 17.",
)
prop(
    "P02", "Saved results never change an answer",
    "Whatever was computed and saved before, in this process or an earlier one, for "
    "whatever other regions, bandlimits, orders and numbers of functions, computing the "
    "Slepian functions of a region gives all the eigenvalues and the leading "
    "Shannon-number functions which a computation without saved files gives, and so does "
    "computing the eigenfunctions of a mesh. Results saved for one region, bandlimit or "
    "mesh are never used for a different one. Once saved, results are used again instead "
    "of being computed again.",
    ["histories", "inputs"],
    "All histories of computations and of removals of saved files, over all regions which "
    "differ in any parameter.",
    "Each test computes one region once, most of them with whatever files earlier tests "
    "left; none compares a cold with a warm answer, or two regions of similar names.",
    [S + "slepian/slepian_polar_cap.py", S + "slepian/slepian_limit_lat_lon.py",
     S + "slepian/slepian_arbitrary.py", S + "meshes/mesh_slepian.py",
     S + "_mesh_methods.py", S + "_data/setup_pooch.py", S + "_string_methods.py"],
    [("location of the saved matrices", S + "slepian/slepian_functions.py"),
     ("saving and finding of files", S + "_data/setup_pooch.py")],
    "TLA+ (Store) model checking, replay of its histories into the code, judged by TLC",
    BOUND + "Histories of up to 4 computations over chosen sets of colliding candidates, "
    "in one and in several processes.",
    [("saved files", "eigensolutions by location", "user data folder")],
)
prop(
    "P03", "Interrupted or concurrent runs never spoil the saved results",
    "Whenever a run which computes Slepian functions or mesh eigenfunctions is killed, "
    "fails, or runs out of disk space, at any point, every later run succeeds and gives "
    "the answer of a computation without saved files. The same holds for any number of "
    "runs which compute the same results at the same time.",
    ["crash_points", "fault_sequences", "schedules"],
    "Every point between two file operations, every length of a partial write, every "
    "interleaving of two or more runs.",
    "No test interrupts a run or starts two of them.",
    [S + "_data/setup_pooch.py", S + "slepian/slepian_polar_cap.py",
     S + "slepian/slepian_limit_lat_lon.py", S + "slepian/slepian_arbitrary.py",
     S + "meshes/mesh_slepian.py", S + "_mesh_methods.py"],
    [("a file is written beside its location, then renamed", S + "_data/setup_pooch.py")],
    "TLA+ (Store) with crashes model checked; crash and fault injection at every file "
    "operation of the code, judged by TLC",
    BOUND + "A crash is the end of the process at a file operation (no power loss, no "
    "reordering of writes by the file system).",
    [("saved files", "eigensolutions by location", "user data folder")],
)
prop(
    "P04", "Precomputed files are looked up in the registry, then locally, then computed",
    "A file which the published registry lists is retrieved from there; otherwise a local "
    "file of that name is used if there is one; otherwise the result is computed and saved "
    "under that name. A registry which cannot be loaded never prevents the local file or "
    "the computation from being used, and the registry is asked for at most once per "
    "process.",
    ["fault_sequences", "histories"],
    "All combinations of listed, local and missing files, and all failures to load the "
    "registry, in all orders.",
    "One test asserts that the registry was loaded with a network; without one it cannot "
    "run, and no test covers the failure paths or the order of precedence.",
    [S + "_data/setup_pooch.py", S + "_mask_methods.py", S + "_mesh_methods.py",
     S + "slepian/slepian_polar_cap.py"],
    [("lazy load of the registry and order of the lookups", S + "_data/setup_pooch.py")],
    "TLA+ (Lookup) model checking, replay of its behaviours with a stand-in registry",
    BOUND + "The registry is a stand-in for the pooch object, local to the process.",
)
prop(
    "P05", "Parallel computation does not depend on the schedule and hides no failure",
    "For every number of workers and every interleaving of them, the eigenvalues, "
    "eigenvectors and matrices computed in parallel are those which one worker computes. "
    "Work is divided such that every index is assigned exactly once. When any worker "
    "fails, the failure reaches the caller, nothing is saved and no incomplete result is "
    "returned, and the shared memory is released in every case.",
    ["schedules", "fault_sequences", "configurations"],
    "All numbers of workers, all interleavings of their steps, and a failure of any worker "
    "at any step.",
    "The tests run whatever schedule occurs with four workers, and no worker of theirs "
    "fails.",
    [S + "_parallel_methods.py", S + "slepian/slepian_polar_cap.py",
     S + "slepian/slepian_arbitrary.py", S + "meshes/mesh_slepian.py"],
    [("chunks of indices", S + "_parallel_methods.py"),
     ("shared memory of the workers", S + "_parallel_methods.py")],
    "TLA+ (Workers) model checking of all interleavings, controlled schedules and "
    "injected failures in the code, judged by TLC",
    BOUND + "Schedules are controlled at the granularity of source lines of the workers.",
)
prop(
    "P06", "A region is identified from its parameters, or rejected",
    "Full longitudes with a colatitude range which starts at the north pole and ends before "
    "the south pole make a polar cap; otherwise any narrowed range makes a "
    "latitude-longitude box; otherwise a named mask makes an arbitrary region; otherwise "
    "there is no region and an error is raised. Angles outside their limits (colatitudes 0 to pi, "
    "longitudes 0 to 2 pi) are rejected. The default region of the command line follows "
    "the environment variables by the same rules, South America when none is set, and the "
    "name of a region is the same whenever its parameters are.",
    ["inputs", "configurations"],
    "All combinations of default, interior, limiting and invalid values of every parameter "
    "and environment variable.",
    "The tests try one region of each kind, not the combinations or the limits.",
    [S + "slepian/region.py", S + "_bool_methods.py", S + "_mask_methods.py",
     S + "_string_methods.py"],
    [("identification", S + "_bool_methods.py"), ("validation", S + "slepian/region.py")],
    "TLA+ (Regions) decision table enumerated by TLC and replayed into the code",
    BOUND,
)
prop(
    "P07", "A mask marks exactly the samples inside its region",
    "The mask of a polar cap, polar gap or latitude-longitude box marks exactly the grid "
    "samples inside, samples on the boundary included; a saved mask is used as it is, and "
    "rejected when it does not have the shape of the grid. Masking a signal keeps its "
    "samples inside the region and sets the others to zero, such that a region and its "
    "complement partition it, and plots hide exactly the samples outside. On a mesh the "
    "region is the set of the vertices inside the configured box, boundary included, and a "
    "face belongs to it exactly when all of its vertices do.",
    ["inputs", "configurations"],
    "All bandlimits, all angles on and between the samples, all masks.",
    "The tests check the shape of masks and that there is some difference in the mean of "
    "the masked signals.",
    [S + "_mask_methods.py", S + "plot_methods.py", S + "_mesh_methods.py",
     S + "plotting/_create_plot_mesh.py"],
    [("masks", S + "_mask_methods.py")],
    "TLA+ (Masks) model checking on an integer grid, its cases replayed into the code",
    BOUND,
)
prop(
    "P08", "Slepian decompositions are the inner products with the Slepian functions",
    "The Slepian coefficients of a signal are its inner products with the Slepian "
    "functions: sums over harmonic coefficients, integrals over the sphere, or, when a "
    "mask is given, integrals over the region divided by the eigenvalue; harmonic "
    "coefficients take precedence over a sampled field, and one of them is required. The "
    "reconstruction is the sum of the leading Shannon-number functions weighted by their "
    "coefficients, forward after inverse returns these coefficients, and both are linear. "
    "Ranks which are negative, not integers, or beyond the number of functions are rejected.",
    ["inputs", "configurations"],
    "All signals, regions, ranks, numbers of coefficients and combinations of given inputs.",
    "The tests compare the three methods on one signal within loose tolerances; precedence, "
    "ranks at the limits and conjugation on complex signals are not covered.",
    [S + "slepian/_slepian_decomposition.py", S + "slepian_methods.py",
     S + "_integration_methods.py"],
    [("decomposition", S + "slepian/_slepian_decomposition.py")],
    "TLA+ (Decomposition) exact Gaussian-integer model, its cases replayed into the code",
    BOUND,
)
prop(
    "P09", "Sifting convolution multiplies coefficients and translation follows from it",
    "The sifting convolution of two functions has as coefficients the products of the "
    "first's with the conjugates of the second's, truncated to the Shannon number where one "
    "is given, for single coefficient vectors and for a set of wavelets. Translation by a "
    "point is the sifting convolution with the Dirac delta at this point, on the sphere and "
    "for Slepian coefficients; translating a Dirac delta itself gives the delta there. "
    "Rotation by Euler angles is the rotation of the function on the sphere.",
    ["inputs"],
    "All coefficients, points, angles and truncations.",
    "The tests translate two functions to one point and compare them with each other.",
    [S + "_convolution_methods.py", S + "functions/coefficients.py",
     S + "functions/flm.py", S + "functions/fp.py"],
    [("sifting convolution", S + "_convolution_methods.py")],
    "TLA+ (Sifting) exact Gaussian-integer model, its cases replayed into the code",
    BOUND,
)
prop(
    "P10", "Wavelets tile their domain and reconstruct every signal",
    "For every bandlimit, wavelet parameter and minimum scale, the generating functions of "
    "the axisymmetric, Slepian and mesh wavelets are non-negative, are as many as the "
    "scaling function plus one for each scale, have the support of their scale, and their "
    "squares sum to one at every index. Hence wavelet analysis followed by synthesis "
    "returns the signal exactly, axisymmetric and Slepian alike, and each coefficient set "
    "is the convolution of the signal with its wavelet. A selected scale gives that "
    "wavelet or its coefficients.",
    ["inputs", "configurations"],
    "All bandlimits, parameters B > 1, minimum scales and signals.",
    "The tests reconstruct one signal for one choice of parameters.",
    [S + "wavelet_methods.py", S + "functions/axisymmetric_wavelets.py",
     S + "functions/slepian_wavelets.py", S + "meshes/mesh_slepian_wavelets.py",
     S + "functions/ridgelets.py"],
    [("kappas", S + "wavelet_methods.py"), ("transforms", S + "wavelet_methods.py")],
    "TLA+ (Wavelets) model checking of the tiling, conformance of the code's wavelets and "
    "transforms",
    BOUND,
)
prop(
    "P11", "Functions declared real have real fields and the declared spin",
    "A function, harmonic or Slepian, declares itself real only when its field on the sphere "
    "is real for all its parameters, hence a harmonic one when its coefficients have the "
    "Hermitian symmetry f(l,-m) = (-1)^m conj f(l,m), also with noise or smoothing and after a rotation; a "
    "convolution or translation, after which this symmetry is lost, leaves no function "
    "declared real which is not. A function has the spin which it was asked for, and no "
    "coefficient of a function of spin s lies at a degree below |s|, noise aside.",
    ["inputs", "configurations"],
    "All functions, bandlimits and parameters.",
    "The tests build the functions without looking at the symmetry of their coefficients.",
    [S + "functions/", S + "noise.py", S + "_data/create_earth_flm.py",
     S + "_data/create_wmap_flm.py"],
    [("declared reality and spin", S + "functions/coefficients.py")],
    "TLA+ (Reality) model checking of the symmetry's closure, conformance of coefficients",
    BOUND,
)
prop(
    "P12", "Noise is reproducible, has the requested level and keeps the signal",
    "Noise added to harmonic or mesh coefficients is the same for the same signal and "
    "requested signal-to-noise ratio in every run, has a standard deviation per coefficient "
    "of sqrt(10^(-SNR/10) P / n) for a signal of power P with n coefficients, and is that "
    "of a real field on the sphere. The noised function keeps its coefficients without "
    "noise, and the difference is the noise whose ratio to the signal in decibels is the "
    "reported one; without a requested ratio nothing is changed. Random signals have L^2 "
    "coefficients drawn from the given generator, whose parts are independent normal "
    "numbers of half the given variance.",
    ["inputs", "configurations"],
    "All functions, bandlimits and ratios.",
    "The tests check that the noised coefficients differ and the sign of one ratio.",
    [S + "noise.py", S + "functions/flm.py", S + "functions/fp.py",
     S + "meshes/mesh_harmonic_coefficients.py", S + "meshes/mesh_slepian_coefficients.py"],
    [("noise", S + "noise.py")],
    "TLA+ (Noise) model checking, recorded noisings judged by TLC",
    BOUND,
)
prop(
    "P13", "Hard thresholding zeroes exactly the pixels below the threshold",
    "Thresholding sets to zero exactly the values whose magnitude is below n sigma and "
    "keeps all others unchanged, those at the threshold included. Each set of axisymmetric, "
    "Slepian or mesh wavelet coefficients is thresholded in the spatial domain with the "
    "sigma of its own scale, the axisymmetric scaling function is left alone, and the given "
    "coefficients are not modified. The sigma of a scale is that of the noise times the "
    "norm of its wavelet, pointwise for Slepian wavelets.",
    ["inputs"],
    "All coefficients, thresholds (none, some or all pixels), scales and bandlimits.",
    "The tests do not call the thresholding of the sphere, and check neither which "
    "values survive nor the inputs afterwards.",
    [S + "noise.py"],
    [("thresholding", S + "noise.py")],
    "TLA+ (Threshold) exact model, its cases replayed into the code",
    BOUND,
)
prop(
    "P14", "Names identify the configuration",
    "Two functions of the same bandlimit which differ in an argument, region, noise level, "
    "smoothing or selected wavelet have different names, and two of the same configuration "
    "have the same name in every run. The name is the file name of the plot, hence one plot "
    "never stands for another. Names contain no characters which are special in a path.",
    ["inputs", "configurations"],
    "All pairs of configurations with regions of whole degrees, and arguments which are "
    "powers of ten from 10^-6 or multiples of 1/100.",
    "The tests compare a few literal strings.",
    [S + "_string_methods.py", S + "functions/", S + "meshes/", S + "plotting/",
     S + "slepian/region.py"],
    [("file names", S + "_string_methods.py")],
    "TLA+ (Names) injectivity over enumerated configurations, judged by TLC on the code's "
    "names",
    BOUND,
)
prop(
    "P15", "The functions on the sphere follow their definitions",
    "For every bandlimit and argument the coefficients of the harmonic functions are the "
    "defined ones: one unit coefficient for a spherical harmonic, sqrt((2l+1)/4 pi) at "
    "order zero for the Dirac delta, ones for the identity, exp(-l(l+1)/2 sigma^2) for the "
    "Gaussian, exp(-l^2/2 sl^2) exp(-m^2/2 sm^2) for the harmonic Gaussian, and the "
    "transforms of the defined fields for the elongated and squashed Gaussians. The Slepian "
    "functions are the selected eigenvector, the ones of the Slepian identity and the "
    "values of the Slepian functions at the point of the Slepian Dirac delta. Arguments "
    "given through the command line set exactly the parameters they are documented to set. "
    "Parameters given by name, in any order and number, are had as given, and all others "
    "have their defaults (on meshes too): scales B=3 from j_min=2 with the scaling "
    "function, spin 2, rank, degree and order 0, the widths and signal-to-noise ratios "
    "of the declarations.",
    ["inputs", "configurations"],
    "All functions, bandlimits and arguments.",
    "The tests construct the functions with their defaults and seldom look at the values.",
    [S + "functions/"],
    [("coefficients", S + "functions/")],
    "TLA+ (Functions) definitions enumerated by TLC, the code's coefficients judged by TLC",
    BOUND,
)
prop(
    "P16", "Invalid arguments are rejected and valid ones accepted",
    "Every function, mesh function, polar cap and region is constructed for arguments in "
    "their ranges, with finite coefficients, and raises a Python error for all others: a "
    "wrong number of extra arguments or any where the function takes none, fractional "
    "ones, bandlimits below one, degrees and orders beyond the bandlimit, ranks which are negative or not below "
    "the Shannon number or the number of mesh basis functions, wavelet scales which are "
    "negative or beyond the largest, wavelet parameters below two, negative minimum "
    "scales, angles out of their range, regions without any restriction, regions a "
    "function is not defined on and unknown meshes and masks. A decomposition without any signal, or "
    "of more coefficients than basis functions, is rejected too.",
    ["inputs", "configurations"],
    "All functions times all argument lists at, inside and beyond the limits.",
    "The tests do not construct most functions with an invalid argument.",
    [S + "functions/", S + "meshes/", S + "slepian/"],
    [("validation", S + "functions/"), ("validation of ranks", S + "meshes/")],
    "TLA+ (Arguments) decision table enumerated by TLC and replayed into the code",
    BOUND,
)
prop(
    "P17", "The sphere command plots what its arguments ask for",
    "The sphere command applies, in this order, the selected rotation or translation at the "
    "nearest grid point, the sifting convolution with the selected map, and the rotation of "
    "the Earth to the selected perspective, to the selected function with the given "
    "bandlimit, extra arguments, noise, smoothing and region, and passes the resulting "
    "field to the plot. The name of the plot records these operations and the annotation "
    "marks the translation unless turned off. Part, normalisation, upsampling and the "
    "amplitude of noisy plots are passed on as asked.",
    ["configurations", "inputs"],
    "All combinations of options.",
    "The tests do not run the command.",
    [S + "_scripts/plotting_on_sphere.py", S + "plot_methods.py"],
    [("pipeline", S + "_scripts/plotting_on_sphere.py")],
    "TLA+ (SphereCli) pipeline model, its command lines replayed, the plotted field "
    "matched by TLC",
    BOUND,
)
prop(
    "P18", "A plot of the sphere shows the field",
    "The surface plotted has the values of the selected part (real, imaginary, absolute "
    "value or sum) of the field upsampled to the plot resolution, each at the position of "
    "its sample on the unit sphere, closed at longitude 2 pi. Normalisation maps it "
    "linearly to the interval from 0 to 1, however small its values, unless it is constant; "
    "otherwise the colour range is symmetric about "
    "zero and follows the given amplitude; with a region exactly the samples outside are "
    "hidden. The file name records the resolution and the part.",
    ["inputs", "configurations"],
    "All fields, bandlimits, parts, regions and options.",
    "The tests check one plotted figure's type at most.",
    [S + "plotting/_create_plot_sphere.py", S + "plot_methods.py",
     S + "_plotly_methods.py"],
    [("plot", S + "plotting/_create_plot_sphere.py")],
    "TLA+ (SpherePlot) model of the figure, recorded figures judged by TLC",
    BOUND,
)
prop(
    "P19", "Mesh eigenfunctions and mesh Slepian functions are the spectral ones",
    "The basis functions of a mesh are orthonormal eigenvectors of its Laplacian with "
    "ascending eigenvalues, as many as requested. The mesh Slepian functions are "
    "orthonormal combinations of them, orthogonal over the region, with the energy in the "
    "region as eigenvalues, which are descending, between 0 and 1, and sum to the energy of "
    "the basis functions in the region; the Shannon number is the number of basis functions "
    "times the fraction of the vertices in the region, rounded.",
    ["inputs", "configurations"],
    "All meshes, regions and numbers of basis functions.",
    "The tests use one mesh with its fixed region and few functions.",
    [S + "_mesh_methods.py", S + "meshes/mesh.py", S + "meshes/mesh_slepian.py"],
    [("eigendecomposition", S + "_mesh_methods.py"),
     ("concentration matrix", S + "meshes/mesh_slepian.py")],
    "TLA+ (EigenBasis, MeshSpectrum) model checking, conformance of computed bases",
    BOUND,
)
prop(
    "P20", "Mesh transforms and mesh functions follow their definitions",
    "The coefficients of a field on a mesh are its sums against the basis functions, the "
    "inverse is the weighted sum of them, and forward after inverse returns the "
    "coefficients; the Slepian coefficients are the sums of products with the mesh Slepian "
    "functions over the mesh, over the region divided by the eigenvalue when a mask is "
    "asked for, or over coefficients, which take precedence. Each mesh function is the "
    "defined one, whether its parameters are named or extra arguments: the selected basis "
    "or Slepian function, the second component of the vertex normals, its Slepian "
    "coefficients, the selected wavelet and the coefficients at its scale.",
    ["inputs", "configurations"],
    "All meshes, fields, regions and arguments.",
    "The tests compare methods on one mesh within loose tolerances.",
    [S + "harmonic_methods.py", S + "slepian_methods.py", S + "meshes/",
     S + "_integration_methods.py"],
    [("transforms", S + "harmonic_methods.py"),
     ("decomposition", S + "meshes/_mesh_slepian_decomposition.py")],
    "TLA+ (MeshTransforms) exact integer model, its cases replayed into the code",
    BOUND,
)
prop(
    "P21", "The mesh command plots the selected mesh function",
    "The mesh command constructs the selected function of the selected mesh with the given "
    "extra arguments, noise, region and zoom, and plots its field on the faces and vertices "
    "of the mesh: each face has the mean of its vertices, faces outside the region are "
    "hidden for Slepian functions, and the view, the colour range and the file name follow "
    "the options.",
    ["configurations", "inputs"],
    "All combinations of meshes, functions and options.",
    "The tests do not run the command.",
    [S + "_scripts/plotting_on_mesh.py", S + "plotting/_create_plot_mesh.py",
     S + "_mesh_methods.py"],
    [("plot", S + "plotting/_create_plot_mesh.py")],
    "TLA+ (MeshPlot) model, its command lines replayed, recorded figures judged by TLC",
    BOUND,
)
prop(
    "P22", "Results are functions of their arguments",
    "Constructing the same function, region or mesh twice, transforming the same "
    "coefficients or drawing the same noise gives the same result in every order of calls, "
    "whatever was called before, whatever the caller then did with the results, and with "
    "whatever global random state, which no call changes. No call modifies the "
    "arrays, lists, regions, meshes or functions it is given (but translation and convolution "
    "withdraw the reality of their function).",
    ["histories"],
    "All histories of calls of the public API.",
    "Each test calls once and does not look at its inputs afterwards.",
    [S + "functions/", S + "noise.py", S + "slepian_methods.py", S + "wavelet_methods.py",
     S + "harmonic_methods.py", S + "plot_methods.py", S + "meshes/"],
    [("seeded generators", S + "noise.py")],
    "TLA+ (Purity) histories generated by TLC and replayed, digests judged by TLC",
    BOUND,
)
prop(
    "P23", "Earth and cosmic microwave background data are used faithfully",
    "The Earth's coefficients are the conjugates of the published ones up to the "
    "bandlimit, those of negative order being completed by symmetry, and smoothing "
    "by s multiplies those of degree l by exp(-(pi l / (s L))^2). The microwave background "
    "is a fixed realisation, the same at every bandlimit, whose variance at each degree l is "
    "2 pi / (l (l + 1)) times the published spectrum and which is zero below degree two. "
    "South America and Africa are the (smoothed) Earth, rotated such that the continent is "
    "at the north pole and set to zero outside of the continent: the samples within 40 and "
    "41 degrees of the pole where the unsmoothed Earth is not below sea level. This mask is "
    "the same for every use, by functions and by regions, in any order.",
    ["inputs", "configurations"],
    "All bandlimits and smoothings.",
    "The tests need the network for the data and check one smoothing by its mean.",
    [S + "_data/create_earth_flm.py", S + "_data/create_wmap_flm.py", S + "_smoothing.py",
     S + "functions/earth.py", S + "functions/south_america.py", S + "functions/africa.py",
     S + "_mask_methods.py"],
    [("loading", S + "_data/create_earth_flm.py"),
     ("rotation", S + "harmonic_methods.py")],
    "TLA+ (EarthData) exact model, synthetic data files replayed through the code",
    BOUND + "The data files are synthetic, as the published ones need the network.",
)
prop(
    "P24", "Changing the resolution does not change the signal",
    "Upsampling a field or coefficients for a plot gives the same function on a finer "
    "grid: the values at the samples shared by both grids are those of the coarse grid, "
    "and its harmonic coefficients are the given ones followed by zeros, for real, complex "
    "and spin fields. The plot resolution is the bandlimit times a power of two, 2^6 below 2, "
    "2^5 below 4, 2^4 below 8, 2^3 below 128, 2^2 below 512, 2 below 1024 and 1 from there, "
    "and the greatest amplitude of a function is that of its field at this resolution. The nearest grid point of an angle is a sample of the grid and no other "
    "sample is nearer.",
    ["inputs"],
    "All bandlimits, resolutions, fields and angles.",
    "The tests compare sizes of arrays.",
    [S + "harmonic_methods.py", S + "plot_methods.py"],
    [("zero padding", S + "harmonic_methods.py"),
     ("resolution and nearest grid point", S + "plot_methods.py")],
    "TLA+ (Resolution) model of grids, its cases replayed into the code",
    BOUND,
)


def main():
    drivers = {p.stem.upper() for p in (VERIF / "harness/drivers").glob("p*.py")}
    with (VERIF / "properties.jsonl").open("w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in p["mechanism"]],
                    "observe_at": list(p["observe"]) or ["the public API"],
                    "hook_needed": None,
                },
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./run.sh {p['id']}",
                "thorough_cmd": f"./run.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"], "level": "model_checking",
                "level_note": p["note"],
            }
            for p in P if p["id"] in drivers
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "the check of this property is not built yet"}
            for p in P if p["id"] not in drivers
        ],
        "notes": "No hooks in /repo: the checks observe the package from outside. "
                 "TLA+ with TLC, see DESIGN.md.",
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not claimed")


if __name__ == "__main__":
    main()
