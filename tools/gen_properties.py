"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, pathlib

S = "src/sleplet/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


p("C01", "Slepian functions solve the concentration problem of their region",
  "For every band-limit and every polar cap, double polar cap, latitude-longitude box or mask on the sphere, the Slepian functions returned are orthonormal band-limited fields whose eigenvalues lie in [0, 1], come in decreasing order, and each equal the fraction of the energy of their function that lies inside the region. "
  "Distinct functions are also orthogonal over the region, so that no band-limited field is better concentrated than the first one. "
  "Asking a polar cap for one order returns exactly the functions of that order, and the orders reported next to the complete set are the orders of the functions.",
  ["inputs", "configurations"],
  "all band-limits L, all opening angles, boxes and masks (also ones far from the defaults, tiny, touching the poles, wrapping the meridian), all orders of a polar cap",
  "the tests look at one polar cap and one box at L=16 and compare a function's energy with its eigenvalue to 1%; they sample neither other regions nor orthogonality nor the other eigenfunctions, and most need the network",
  ["slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py", "slepian/slepian_functions.py", "_slepian_arbitrary_methods.py", "_array_methods.py"],
  [("kernel matrix by Wigner-3j sums and eigendecomposition per order", "slepian/slepian_polar_cap.py"), ("compiled 6-loop kernel over Wigner-d products", "slepian/slepian_limit_lat_lon.py"), ("pairwise numerical integration over a mask", "slepian/slepian_arbitrary.py")],
  ["eigenvalues, eigenvectors, order, mask of the Slepian objects"])

p("C02", "Shannon number is the region's share of the sphere times L squared",
  "For every region type and band-limit the Shannon number equals the region's area divided by that of the sphere, times L squared, rounded to the nearest integer; a double polar cap counts both caps and a mask counts the solid angle of its pixels. "
  "It agrees with the sum of all eigenvalues to within rounding (within the accuracy of the pixel sum for a mask), and it is the number of functions that syntheses, analyses and saved solutions of that region are truncated to. "
  "On a mesh it is the share of vertices in the region times the number of basis functions, rounded.",
  ["inputs", "configurations"],
  "all regions, band-limits, masks, meshes and numbers of basis functions",
  "the tests compare N with the trace for two regions only; none uses a gap, a box off the defaults or a mesh with a different number of functions",
  ["slepian/slepian_functions.py", "slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py", "_slepian_arbitrary_methods.py", "_integration_methods.py"],
  [("area formula per region type", "slepian/slepian_functions.py"), ("pixel weights", "_integration_methods.py"), ("mesh Shannon number", "_slepian_arbitrary_methods.py")],
  ["N and eigenvalues of Slepian and mesh Slepian objects"])

p("C03", "Saved solutions are transparent: history never changes a result",
  "Whatever was solved before, in this process or in another one sharing the data folder, and whichever subset of the saved files of a solution exists, solving a region (on the sphere or on a mesh) returns the same Shannon number, eigenvalues, orders and functions as solving it with an empty data folder. "
  "Solutions of different regions, band-limits, meshes, numbers of basis functions or mask names are never confused with one another. "
  "Saving and reloading loses no precision.",
  ["histories", "configurations"],
  "all sequences of solves of nearby and far regions, with removal of arbitrary subsets of the saved files in between, in one or several processes",
  "each test solves one region in whatever data folder it finds; none checks that a reloaded solution equals a fresh one or that two nearby regions keep apart",
  ["slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py", "_mesh_methods.py", "meshes/mesh_slepian.py", "_data/setup_pooch.py", "_string_methods.py", "slepian/region.py"],
  [("file names built from region, L and N", "slepian/region.py"), ("load or recompute", "slepian/slepian_polar_cap.py"), ("save and look up", "_data/setup_pooch.py")],
  ["files of the data folder", "attributes of solved objects"],
  state=[("data folder", "saved eigenvalues, eigenvectors, orders, masks and mesh bases", "XDG data folder")])

p("C04", "A crash while saving never leaves a solution that is later trusted",
  "If the process dies, or the disk fails or fills up, at any moment while results are being computed and saved, the next attempt to solve the same region or mesh with that data folder succeeds and returns the correct result. "
  "A file appears under its final name only with its complete content.",
  ["crash_points", "fault_sequences"],
  "a kill, an I/O error or a full disk at every file-system step of saving (creation, every prefix of the data, between files, renames), for every kind of saved result",
  "no test interrupts anything: crash points are not reachable from a unit test",
  ["_data/setup_pooch.py", "slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py", "_mesh_methods.py", "meshes/mesh_slepian.py", "_mask_methods.py"],
  [("write to a temporary file and rename", "_data/setup_pooch.py"), ("recompute when a file of the set is missing", "slepian/slepian_polar_cap.py")],
  ["data folder after the crash", "result of the next solve"])

p("C05", "Results do not depend on the number of workers or their schedule",
  "The kernel matrices are filled by a pool of workers whose number is taken from the environment; for every number of workers, including one and more than there are rows, and every interleaving of their steps, the resulting solution is bit-for-bit the one a single worker computes. "
  "Every row of the work is handed out to exactly one worker.",
  ["schedules", "configurations"],
  "all worker counts and all interleavings of the worker threads, for polar caps, masks and meshes",
  "tests run with one worker count and whatever schedule the machine happens to produce, on one region",
  ["_parallel_methods.py", "slepian/slepian_polar_cap.py", "slepian/slepian_arbitrary.py", "meshes/mesh_slepian.py"],
  [("split of rows in chunks", "_parallel_methods.py"), ("shared-memory matrix written by threads", "slepian/slepian_arbitrary.py")],
  ["eigenvalues and eigenvectors", "order of row events per thread"])

p("C06", "A failing worker is reported, saves nothing wrong and leaks nothing",
  "If any step of the computation of a solution fails in a worker, or the shared memory it needs cannot be had, the caller gets an exception (or the correct result), never a silently wrong solution, and nothing incorrect is saved for later. "
  "Afterwards the same solve in the same process succeeds. "
  "Whether a solve succeeds or fails, no shared-memory block it created remains behind.",
  ["fault_sequences", "schedules"],
  "a fault at the k-th call of each numerical primitive or shared-memory operation used by the workers, for every k reached, for polar caps, masks and meshes",
  "no test injects a fault; the tests only run the success path",
  ["_parallel_methods.py", "slepian/slepian_polar_cap.py", "slepian/slepian_arbitrary.py", "meshes/mesh_slepian.py"],
  [("results of the pool are consumed so that exceptions surface", "slepian/slepian_polar_cap.py"), ("release in finally", "meshes/mesh_slepian.py")],
  ["exception or result of the constructor", "entries of /dev/shm", "data folder"])

p("C07", "Slepian analysis and synthesis are inner products and sums of the basis",
  "Analysing harmonic coefficients gives their inner products with the Slepian functions, exactly; analysing a field by integrating it over the sphere, or over the region divided by the eigenvalue, gives the corresponding quadrature of the field against the conjugate functions, and all three agree to quadrature accuracy for fields band-limited and spanned by well-concentrated functions. "
  "Synthesis gives the field that is the coefficient-weighted sum of the first N functions, so analysis undoes synthesis; both are linear and accept complex data, and as many coefficients are returned as asked for (N by default). "
  "Functions are evaluated at sample points exactly as the synthesis of their coefficients.",
  ["inputs", "configurations"],
  "all regions, band-limits, complex coefficient vectors, fields, masks and numbers of coefficients",
  "tests decompose Earth topography over two regions, and compare with tolerances of tens of percent; most need the network",
  ["slepian_methods.py", "slepian/_slepian_decomposition.py", "_integration_methods.py"],
  [("three decomposition methods chosen from the arguments", "slepian/_slepian_decomposition.py"), ("synthesis from the first N functions", "slepian_methods.py")],
  ["slepian_forward, slepian_inverse, compute_s_p_omega, choose_slepian_method"])

p("C08", "Wavelets tile the spectrum and reconstruct every signal exactly",
  "For every band-limit, dilation parameter and lowest scale, the generating functions are real, non-negative and their squares sum to one at every degree or rank. "
  "The axisymmetric wavelet transform of any coefficients followed by its inverse returns them, as do the Slepian wavelet transforms on the sphere and on meshes for the first N coefficients, with each wavelet coefficient being the signal scaled by the corresponding generating function (conjugated for a Slepian signal), or its conjugate for complex axisymmetric wavelets of one's own. "
  "Scales are dropped only when their wavelet is identically zero on the retained coefficients, so the scales keep their positions and the inverse stays exact for signals that vanish on some scale.",
  ["inputs", "configurations"],
  "all L, B, j_min, Shannon numbers and complex signals, including zero and sparse ones",
  "the tests check one B and j_min at L=16 and reconstruct a single Earth signal (network) to a loose tolerance",
  ["wavelet_methods.py", "_convolution_methods.py", "functions/axisymmetric_wavelets.py", "functions/slepian_wavelets.py", "meshes/mesh_slepian_wavelets.py", "functions/axisymmetric_wavelet_coefficients_earth.py", "functions/slepian_wavelet_coefficients_africa.py", "meshes/mesh_slepian_wavelet_coefficients.py"],
  [("forward and inverse transforms", "wavelet_methods.py"), ("generating functions from pys2let", "wavelet_methods.py")],
  ["create_kappas, the four transforms, wavelets/wavelet_coefficients attributes"])

p("C09", "Translation, convolution and rotation obey their algebra",
  "The sifting convolution of two coefficient sets is the product of the first with the conjugate of the second, coefficient by coefficient, cut at the Shannon number when one is given; translating a function by an angle pair multiplies its coefficients by the basis functions evaluated at that point (the nearest sample point for Slepian functions), so that translation is linear, leaves a Dirac delta a Dirac delta at the new point and commutes with convolution. "
  "Rotating a spherical function by Euler angles gives the coefficients of the rotated field, keeps the power of every degree, is undone by the inverse rotation, and rotating a Dirac delta agrees with translating it; Slepian functions refuse rotation. "
  "A function that has been convolved, also by a translation other than that of a delta, is treated as complex from then on.",
  ["inputs"],
  "all functions, Euler and translation angles, coefficient arrays of one or two dimensions and truncations, on the sphere and in Slepian space",
  "the tests translate Dirac deltas and Slepian functions to one angle and look at where the maximum is",
  ["_convolution_methods.py", "functions/coefficients.py", "functions/flm.py", "functions/fp.py", "slepian_methods.py"],
  [("sifting convolution", "_convolution_methods.py"), ("translation helper per family", "functions/flm.py"), ("rotation by Wigner-D", "functions/flm.py")],
  ["translate, convolve, rotate, reality"])

p("C10", "Noise has the requested SNR, is real-valued and adds to the signal exactly",
  "A function created with a noise level keeps its clean coefficients, and its coefficients equal the clean ones plus a noise whose measured signal-to-noise ratio is the reported one; the noise is the same for the same inputs, scales with the signal and with 10^(-SNR/20), has the spectrum of a real field for harmonic functions, and its expected power matches the requested SNR. "
  "Slepian and mesh noise are the corresponding analysis of such harmonic noise, and functions that consist of noise contain noise alone. "
  "The SNR of a pair of signals is ten times the decimal logarithm of their power ratio, and the noise standard deviations given per wavelet scale follow from the signal power and the wavelet's power.",
  ["inputs", "configurations"],
  "all functions, band-limits, SNRs (negative, zero, fractional, large), regions and meshes",
  "the tests compare SNRs before and after denoising for one region at one SNR, with a network-only data set",
  ["noise.py", "functions/flm.py", "functions/fp.py", "meshes/mesh_harmonic_coefficients.py", "meshes/mesh_slepian_coefficients.py", "functions/noise_earth.py", "functions/slepian_noise_africa.py", "functions/slepian_noise_south_america.py", "meshes/mesh_noise_field.py", "meshes/mesh_slepian_noise_field.py"],
  [("seeded Hermitian noise", "noise.py"), ("sigma from SNR", "noise.py"), ("noise added in the function classes", "functions/flm.py")],
  ["coefficients, snr, clean coefficients, compute_snr, compute_sigma_noise, sigma_j"])

p("C11", "Hard thresholding zeroes exactly the samples below the threshold",
  "Hard thresholding of a field keeps unchanged every sample whose magnitude reaches n_sigma times the noise level given for its scale (a number or a value per pixel) and sets every other one to zero. "
  "The harmonic variant leaves the scaling coefficients untouched and thresholds each wavelet scale with its own noise level, the Slepian and mesh variants threshold every scale, and the function variant a single signal; each returns the coefficients of the thresholded fields. "
  "With a zero threshold a signal that the basis represents comes back unchanged and with a huge one everything that is thresholded vanishes.",
  ["inputs"],
  "all coefficient arrays, noise levels (per scale, per pixel), n_sigma, regions and meshes",
  "the tests only check that denoising improves the SNR of one data set",
  ["noise.py"],
  [("threshold", "noise.py"), ("loops over the scales", "noise.py")],
  ["harmonic_hard_thresholding, slepian_wavelet_hard_thresholding, slepian_function_hard_thresholding, slepian_mesh_hard_thresholding"])

p("C12", "The mesh basis are the orthonormal lowest Laplacian eigenfunctions",
  "For every bundled mesh and every number of basis functions, the basis functions are orthonormal over the vertices, as many as asked for (a quarter of the vertices by default), and are eigenfunctions of the cotangent Laplacian of the mesh for the reported eigenvalues, which are non-negative, sorted, start with zero and are the smallest of the spectrum. "
  "Vertices and faces are those of the mesh file after the configured subdivision, every face refers to valid vertices, and the region contains exactly the vertices inside the box of its configuration.",
  ["inputs", "configurations"],
  "all bundled meshes and numbers of basis functions",
  "tests use one mesh (homer) with a fixed number of functions, and check orthonormality only",
  ["_mesh_methods.py", "meshes/mesh.py", "_mask_methods.py"],
  [("sparse eigensolver on the cotangent Laplacian", "_mesh_methods.py"), ("region from bounding box", "_mesh_methods.py")],
  ["Mesh attributes"])

p("C13", "Mesh transforms and mesh Slepian functions are faithful",
  "The mesh harmonic transform gives the inner products with the basis functions and its inverse their weighted sum, so each undoes the other on the span of the basis, for real and for complex fields. "
  "The mesh Slepian functions are orthonormal, sorted, and each eigenvalue is the share of the energy of its function inside the mesh region, as for distinct functions being orthogonal over it. "
  "The three mesh Slepian analyses (coefficients, whole mesh, region divided by the eigenvalue) compute the corresponding inner products and agree, synthesis sums the first N functions, and analysis undoes synthesis.",
  ["inputs", "configurations"],
  "all bundled meshes, numbers of basis functions, coefficient vectors and fields",
  "tests use one mesh and one field",
  ["harmonic_methods.py", "slepian_methods.py", "meshes/mesh_slepian.py", "meshes/_mesh_slepian_decomposition.py", "_integration_methods.py", "meshes/mesh_field.py", "meshes/mesh_slepian_field.py", "meshes/mesh_slepian_functions.py", "meshes/mesh_basis_functions.py"],
  [("mesh transforms", "harmonic_methods.py"), ("mesh Slepian decomposition", "meshes/_mesh_slepian_decomposition.py"), ("D matrix of the mesh region", "meshes/mesh_slepian.py")],
  ["mesh_forward, mesh_inverse, MeshSlepian, slepian_mesh_forward, slepian_mesh_inverse, coefficients of mesh functions"])

p("C14", "Regions are classified right and masks mark exactly their sample points",
  "A region is a polar cap, a latitude-longitude box or a mask according to which of its values differ from the defaults, a cap or box taking precedence over a mask, and a region without any restriction is refused; the same rules apply to the region described by environment variables in degrees. "
  "The mask of a region marks exactly the sample points inside it, bounds included, for both caps of a double cap, and a mask file is used as it is provided its shape matches the band-limit. "
  "A spherical or mesh function given a region has the harmonic content of its field set to zero outside of it (the South America functions and the Slepian ones, which carry their own region, excepted), and a face of a mesh belongs to the region exactly when all of its vertices do.",
  ["inputs", "configurations"],
  "all region values, band-limits, mask files, environment settings, functions and meshes",
  "the tests check the classification for a few combinations and no mask values",
  ["slepian/region.py", "_bool_methods.py", "_mask_methods.py", "functions/coefficients.py", "meshes/mesh_coefficients.py", "_vars.py"],
  [("classification", "_bool_methods.py"), ("mask creation", "_mask_methods.py"), ("masking of functions", "functions/coefficients.py")],
  ["Region, mask of Slepian objects, coefficients of masked functions"])

p("C15", "Invalid input is refused, valid input is accepted",
  "Angles of a region outside of the sphere or in the wrong order, a region without any restriction, a polar cap of zero size, orders and ranks that do not exist, wavelet scales outside of the allowed range, malformed extra arguments (wrong number, or any for functions that take none), harmonics whose order exceeds their degree, decompositions without data, masks of the wrong shape and unknown mask, region or function names all raise an exception that says so, whether given at construction or assigned later. "
  "Everything inside the documented ranges, limits included, is accepted and used as given, including the extra arguments of the functions, which set exactly the parameters they stand for. "
  "No invalid value is silently replaced by a valid one.",
  ["inputs"],
  "all constructors and parameters, values at, just inside, and just outside of each limit",
  "the tests check refusals for a handful of values of a few classes",
  ["slepian/region.py", "slepian/slepian_polar_cap.py", "slepian/_slepian_decomposition.py", "functions/slepian.py", "functions/spherical_harmonic.py", "functions/ridgelets.py", "functions/harmonic_gaussian.py", "functions/axisymmetric_wavelets.py", "functions/slepian_wavelets.py", "meshes/_mesh_slepian_decomposition.py", "meshes/mesh_basis_functions.py", "_validation.py", "_mask_methods.py"],
  [("pydantic validators with validate_assignment", "_validation.py"), ("extra argument parsing", "functions/slepian.py")],
  ["exceptions and attributes after construction"])

p("C16", "Names identify results: deterministic and free of collisions",
  "The names of functions, regions, angles and arguments, which name files and plots, are a function of the parameters alone, and differ whenever the parameters (angles to 1e-6, region, order, scale, noise, smoothing, band-limit, class) differ; the number of basis functions of a mesh is no part of the names of mesh functions. "
  "Angles that are rational multiples of pi, integer degrees and integers are written exactly, fractions keep numerator and denominator, and class names convert to snake case and back without ambiguity.",
  ["inputs"],
  "all parameter values: rational and irrational fractions, values above one, negative values, nearby angles, all classes",
  "the tests compare a few strings",
  ["_string_methods.py", "slepian/region.py", "functions/coefficients.py", "functions/slepian.py", "meshes/mesh_coefficients.py", "_class_lists.py"],
  [("rational approximation of values", "_string_methods.py"), ("details added to the names", "functions/coefficients.py")],
  ["name attributes, region endings, string helpers"])

p("C17", "Plots show the data: right values, right place, right scale",
  "The sphere plot samples exactly the given coefficients (spin and reality included) at a resolution at least the band-limit, shows the requested real part, imaginary part, sum or magnitude, closes the surface, and places each value at the direction it belongs to; pixels outside of a region that is given are left unseen and pixels inside are not changed. "
  "Normalisation maps the smallest value to 0 and the largest to 1, leaves fields that are constant (to 1e-5 of their size) constant and finite, does not depend on offset or scale, and with it off the colour range is symmetric and covers the largest value of the field that is given (or the amplitude that is asked for). "
  "Mesh plots show the field of the coefficients averaged onto the faces with the region masked in the same way, and the file name records the settings.",
  ["inputs", "configurations"],
  "all functions, plot types, amplitudes, resolutions, spins, regions, rotations/translations and meshes",
  "the tests cover two helpers; nothing checks what is drawn",
  ["plot_methods.py", "_plotly_methods.py", "plotting/_create_plot_sphere.py", "plotting/_create_plot_mesh.py", "_mesh_methods.py", "_mask_methods.py"],
  [("boosted inverse transform", "plot_methods.py"), ("normalisation", "plot_methods.py"), ("surface construction", "plotting/_create_plot_sphere.py"), ("mesh faces", "plotting/_create_plot_mesh.py")],
  ["figures handed to the viewer", "resolution, normalisation and amplitude helpers"])

p("C18", "The command line draws exactly what the library computes",
  "Running the sphere or mesh command with any function and combination of options draws the field that the library functions give for the same parameters: extra arguments, band-limit, smoothing, noise, region from the environment, convolution with another function, rotation, translation by the nearest grid point of the requested angles, plot type, normalisation, outline and range. "
  "Every function the library offers can be selected under its own name and unknown names or bad options end with an error. "
  "The name of the plot tells the options apart.",
  ["inputs", "configurations"],
  "all functions and meshes crossed with all options",
  "no test runs the commands",
  ["_scripts/plotting_on_sphere.py", "_scripts/plotting_on_mesh.py", "_class_lists.py", "plot_methods.py"],
  [("argument handling and coefficient dispatch", "_scripts/plotting_on_sphere.py"), ("mesh command", "_scripts/plotting_on_mesh.py"), ("class lists", "_class_lists.py")],
  ["figures and file names handed to the viewer, exit status"])

p("C19", "Each spherical function has the coefficients its definition says",
  "The Gaussian, squashed, elongated and harmonic Gaussians, Dirac delta, identity, spherical harmonics, ridgelets, axisymmetric wavelets and their Slepian and mesh counterparts have the coefficients of their definition for every band-limit and parameter value, the coefficients of a field given by a formula being the band-limited harmonic analysis of its samples. "
  "A function without noise that declares itself real has a conjugate-symmetric spectrum and a real field, and one that declares spin s has no content below degree s. "
  "Slepian functions, deltas, identities and wavelets selected by rank or scale are the corresponding members of the solved basis.",
  ["inputs", "configurations"],
  "all function classes, band-limits and parameters (widths, orders, scales, spins, ranks)",
  "the tests only check that a few of the functions can be built",
  ["functions/gaussian.py", "functions/squashed_gaussian.py", "functions/elongated_gaussian.py", "functions/harmonic_gaussian.py", "functions/dirac_delta.py", "functions/identity.py", "functions/spherical_harmonic.py", "functions/ridgelets.py", "functions/axisymmetric_wavelets.py", "functions/slepian.py", "functions/slepian_dirac_delta.py", "functions/slepian_identity.py", "functions/slepian_wavelets.py"],
  [("definitions", "functions/gaussian.py"), ("projection of grid functions", "harmonic_methods.py"), ("reality and spin flags", "functions/coefficients.py")],
  ["coefficients, reality, spin of functions"])

p("C20", "Earth and WMAP maps, continent masks and smoothing follow their data",
  "The Earth map is the first L squared of the published coefficients, completed to a real field, conjugated for the orientation convention and, if asked for, multiplied degree by degree with a Gaussian of the requested smoothing; the WMAP map is a fixed real Gaussian draw with the published spectrum, without monopole and dipole. "
  "Africa and South America are the land (height not negative) within 41 and 40 degrees of the pole after rotating the continent there, the same pixels being used for the map, the mask and the Slepian region, whether the mask is computed or found. "
  "Truncating to a lower band-limit gives the same low degrees (Earth and WMAP), and the continent functions and their Slepian, wavelet and noise versions are the stated transforms of these maps, restricted to their own region.",
  ["inputs", "configurations"],
  "all data sets of that format, band-limits and smoothing factors",
  "the tests need the data from the network and compare signal-to-noise ratios",
  ["_data/create_earth_flm.py", "_data/create_wmap_flm.py", "_smoothing.py", "_mask_methods.py", "harmonic_methods.py", "functions/earth.py", "functions/wmap.py", "functions/africa.py", "functions/south_america.py", "functions/slepian_africa.py", "functions/slepian_south_america.py", "functions/axisymmetric_wavelet_coefficients_africa.py", "functions/slepian_wavelet_coefficients_africa.py", "functions/noise_earth.py"],
  [("loading and symmetry completion", "_data/create_earth_flm.py"), ("smoothing", "_smoothing.py"), ("rotations and ranges of the continents", "_mask_methods.py")],
  ["coefficients of Earth, Wmap, Africa, SouthAmerica and derived functions; masks"])

p("C21", "Data lookup prefers the archive, then local files, then recomputation",
  "A file the archive lists is taken from the archive even if a local file of that name exists; a file it does not list is taken from the data folder when it is there, and otherwise reported missing so that it is computed and then saved there. "
  "The list of files of the archive is asked for at most once per process (threads whose first lookups coincide may each ask, and none of them goes by an unfinished answer), and when it cannot be reached local files and recomputation still work. "
  "A solution is loaded only if all of its files are available, and a failure to fetch a listed file is raised rather than replaced by something else.",
  ["histories", "fault_sequences", "configurations"],
  "all combinations of archive content, local content, network faults and order of lookups",
  "the tests query one known and one unknown name; without a network one of them fails",
  ["_data/setup_pooch.py", "_mask_methods.py", "slepian/slepian_polar_cap.py"],
  [("lazy registry and lookup order", "_data/setup_pooch.py")],
  ["returned paths, calls to the archive, results of solves"])

p("C22", "Computations are pure and repeatable",
  "No public computation changes the arrays or objects it is given, with the exception of the wavelet-scale thresholding functions, which work in place, and of the flag by which a function says that its field is real, which convolving clears; calling anything twice with the same inputs in a process gives bit-identical results, and results equal to rounding in another process, whatever else has been computed in between. "
  "The global random state and the process environment are neither used nor changed, and results do not depend on them.",
  ["histories", "inputs"],
  "all public functions and classes, in any order and number of repetitions",
  "tests call each function once and never look at its inputs afterwards",
  ["harmonic_methods.py", "slepian_methods.py", "wavelet_methods.py", "noise.py", "plot_methods.py", "_convolution_methods.py", "functions/coefficients.py", "meshes/mesh_coefficients.py", "_mask_methods.py"],
  [("results built in new arrays", "slepian_methods.py"), ("seeded private generators", "noise.py")],
  ["arguments before and after each call, repeated results, numpy random state, os.environ"])

p("C23", "Concurrent clients of one data folder all get sequential results",
  "Any number of threads and processes that solve overlapping regions, meshes and masks at the same time with one shared data folder each get the result they would have got alone, and the folder ends up with complete, loadable files of the right content. "
  "No client fails because of another one.",
  ["schedules", "histories"],
  "all interleavings of concurrent solves, loads and saves in threads and processes",
  "the tests are sequential",
  ["_data/setup_pooch.py", "slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py", "meshes/mesh_slepian.py", "_mesh_methods.py", "_parallel_methods.py"],
  [("atomic replacement of files", "_data/setup_pooch.py"), ("private shared-memory blocks", "_parallel_methods.py")],
  ["results of every client", "files of the data folder"])

p("C24", "Computations stay in bounds and finite",
  "The compiled kernel reads and writes only inside of its arrays and gives the same result in checked and in unchecked mode and whatever the number of compiled-code threads. "
  "No public computation on valid input performs an invalid floating-point operation (0/0, overflow, division by zero) or returns NaN or infinity, also at the limits of the parameter ranges (smallest band-limits, boxes touching poles and meridians, caps near the whole sphere, zero signals where defined).",
  ["inputs", "configurations", "schedules"],
  "all band-limits and regions, limit values included; all thread counts of the compiled kernel",
  "tests run compiled code unchecked, on interior parameter values",
  ["slepian/slepian_limit_lat_lon.py", "slepian/slepian_polar_cap.py", "noise.py", "plot_methods.py", "_integration_methods.py", "functions/ridgelets.py", "functions/elongated_gaussian.py"],
  [("index arithmetic of the kernel", "slepian/slepian_limit_lat_lon.py"), ("guards of singular cases", "slepian/slepian_limit_lat_lon.py")],
  ["bounds-checked run of the kernel, floating-point error state, returned arrays"])

p("C25", "Nothing but the data folder is touched, and the process stays as it was",
  "Importing the library and computing, plotting or running its commands creates, changes and deletes no file except for complete results in its data folder, where files that are not its own stay untouched and a result that is already saved is not written again; the package's own files, the working, home, cache and temporary folders stay as they are. "
  "Importing and computations that need no saved result use no network, the others ask no host but the archive; no program is started and nothing is printed on standard output. "
  "Settings that the whole process shares (floating-point error handling, warning filters, signal handlers, working folder, environment, root logger, locale, precision contexts, thread counts, default file permissions) stay as they were, and no open file, running thread, child process or shared-memory block remains after a call.",
  ["inputs", "histories", "configurations"],
  "all public functions, classes and commands, in any order, with and without saved results",
  "tests look at return values, run in the developer's own folders and do not notice what else a call leaves behind",
  ["_data/setup_pooch.py", "_parallel_methods.py", "_mesh_methods.py", "__init__.py", "slepian/slepian_arbitrary.py", "slepian/slepian_polar_cap.py", "meshes/mesh_slepian.py", "_mask_methods.py", "plotting/_create_plot_sphere.py"],
  [("saving under a partial name", "_data/setup_pooch.py"), ("release of the shared memory", "_parallel_methods.py")],
  ["audit events of the interpreter, system calls, folder contents, process-wide settings, open descriptors, threads"])

p("C26", "A field is the same at any resolution; random signals are as described",
  "Resampling coefficients at a resolution of at least their band-limit gives the values of the same band-limited function at the finer sample positions, for every band-limit, spin and reality: real-valued for a signal that is given as real, equal to the coarse samples where the grids share points, and analysing the finer field gives the coefficients back with nothing above the band-limit; a resolution below the band-limit is refused. "
  "The largest amplitude reported for a function is that of this field, and a field given by a formula is sampled at these positions and analysed with the spin and reality that are given. "
  "A random signal has L squared complex coefficients whose real and imaginary parts are independent normal draws with mean zero and half the requested variance each, taken from the given generator alone, in the same order for the same state of it.",
  ["inputs"],
  "all band-limits, resolutions, spins, real and complex signals of every size, generators and variances",
  "the tests check no resampled value and no statistics of a random signal",
  ["harmonic_methods.py", "plot_methods.py"],
  [("resampling", "harmonic_methods.py"), ("random signals", "harmonic_methods.py"), ("largest amplitude", "plot_methods.py")],
  ["the arrays returned, the state of the generator"])

p("C27", "The solutions of related regions are related as the regions are",
  "Solving the same cap as a polar cap and as a box of all longitudes gives the same energies and Shannon number; a double cap is the sum of a cap and its mirror image, and a region and the rest of the sphere add up to the whole, their eigenvalues being one minus those of the other. "
  "Turning a region in longitude, mirroring it, cutting it in two or enlarging it changes the solution accordingly: by the phases of the orders, by conjugation or the parity of degree plus order, as a sum of the parts, and with eigenvalues and Shannon numbers that never decrease; the same holds for masks that are turned by pixels, mirrored, complemented or cut. "
  "With a larger band-limit, or more basis functions of a mesh, the former solution is the restriction of the new one and the eigenvalues interlace.",
  ["inputs"],
  "all pairs of regions related by these transformations, all band-limits, masks, meshes and numbers of basis functions",
  "tests look at one region at a time and at few numbers of its solution",
  ["slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py", "slepian/slepian_arbitrary.py", "_slepian_arbitrary_methods.py", "meshes/mesh_slepian.py"],
  [("kernel of a box", "slepian/slepian_limit_lat_lon.py"), ("kernel of a cap", "slepian/slepian_polar_cap.py"), ("kernel of a mask", "slepian/slepian_arbitrary.py")],
  ["eigenvalues, functions and Shannon numbers of the pairs of solutions"])

p("C28", "Denoising and wavelet covariance follow their theory from end to end",
  "White noise of unit variance, analysed and taken through the wavelet transform and back to samples, has at every sample and scale the variance that the theory gives from the wavelets and the functions of the basis, on the sphere, for Slepian regions and on meshes; the noise levels offered for thresholding are its square root times the deviation of the noise of the requested SNR, which the noise that the library adds really has. "
  "Noising a signal, transforming, thresholding each scale with its level and transforming back gives the result of these steps carried out by definition; a real signal stays real, with zero levels nothing is removed, pure noise is removed up to the share that a normal distribution has above the threshold, and a noisy signal is nearer to the clean one than before when the noise dominates (in bases of a dozen functions or more).",
  ["inputs", "configurations"],
  "all band-limits, regions, meshes, wavelet parameters, SNRs and thresholds",
  "tests call each step on its own and never the chain of them",
  ["noise.py", "wavelet_methods.py", "slepian_methods.py", "functions/flm.py", "functions/fp.py", "meshes/mesh_slepian_coefficients.py"],
  [("noise levels per scale", "noise.py"), ("transforms", "wavelet_methods.py"), ("thresholding", "noise.py")],
  ["coefficients after each step of the chain, with those of an own chain"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P))
