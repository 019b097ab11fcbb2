import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**k):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if 'state' in k: k['state']=[dict(name='state',meaning=k['state'])]
    if 'observe_at' in k: k['observe_at']=[k['observe_at']]
    a.update(k)
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
S="src/sleplet/"
p("C01","Saved eigensolutions never change results",
"In every order in which polar-cap (full, gap, single-order), latitude-longitude, arbitrary-mask, mesh and mesh-Slepian objects are constructed against one shared data directory, each construction succeeds and yields the same Shannon number, mask, eigenvalues, orders and leading (Shannon-number-many) eigenfunctions (for a rectangle that is a polar cap, up to the choice of basis among equal eigenvalues) as the same construction in an empty data directory. What earlier constructions saved (for other angles, bandlimits, gap settings, meshes, basis sizes or masks) never leaks into a result, and repeating a construction returns the same values. What a construction solved it saves (but for the single-order polar cap), and repeating it leaves the saved files untouched: it is reused, not solved again.",
["histories","configurations"],"all sequences (to the explored depth) of constructions sharing one data directory, including the reload of what an earlier one saved, below and above the bandlimit (16) up to which all eigenvectors are kept",
"The tests construct each object once per temporary directory or rely on whatever the developer's data directory holds; no test compares a reload with a fresh computation or mixes regions that could share a file name.",
[S+"slepian/slepian_polar_cap.py",S+"slepian/slepian_limit_lat_lon.py",S+"slepian/slepian_arbitrary.py",S+"meshes/mesh_slepian.py",S+"_mesh_methods.py",S+"_mask_methods.py"],
[("polar cap save and reload","slepian_polar_cap.py _solve_eigenproblem*"),("lat-lon save and reload","slepian_limit_lat_lon.py _solve_eigenproblem"),("mesh eigendecomposition","_mesh_methods.py mesh_eigendecomposition"),("file naming","region.py, _create_matrix_location")],
state="files in the user data directory",observe_at="N, mask, eigenvalues, eigenvectors, order of the constructed objects")
p("C02","A run killed while saving never poisons later runs",
"If the process is killed, or a write fails, at any instant while eigensolutions or masks are being computed and saved, then a later run in the same data directory constructs the same object successfully with correct results. A failed write is reported to the caller as an exception, never as a silently accepted partial result.",
["crash_points","fault_sequences"],"every byte position at which a write can be cut short (kill or write error), every directory state between file-system operations, and repeated crashes, for each kind of saved object",
"No test interrupts a save; a torn .npy only appears after a crash or a full disk.",
[S+"slepian/slepian_polar_cap.py",S+"slepian/slepian_limit_lat_lon.py",S+"slepian/slepian_arbitrary.py",S+"meshes/mesh_slepian.py",S+"_mesh_methods.py",S+"_mask_methods.py",S+"_data/save_array.py"],
[("saving of eigensolutions","after each eigenproblem is solved"),("saving of masks","_mask_methods.py create_mask"),("detecting what has been saved","except TypeError around np.load")],
state="files in the user data directory",observe_at="the next construction")
p("C03","Data files: published copy, then local copy, then computed",
"A data file is taken from the published registry when the registry lists it, otherwise from the user data directory when it exists there, and is otherwise reported as absent so that it is computed; a failed download of a listed file raises rather than substituting other data. When the registry cannot be downloaded the local files are used from the first lookup onwards, and when it can, every lookup by every thread sees the complete registry.",
["fault_sequences","schedules","histories"],"all combinations of registry reachable or not, file listed or not, local copy present or not, download succeeding or failing, over all lookup sequences to the explored depth and all interleavings of two threads up to the preemption bound",
"The tests need the network for the registry and look up three file names sequentially once.",
[S+"_data/setup_pooch.py"],[("lazy registry","setup_pooch.py _lazy_load_registry"),("lookup order","setup_pooch.py find_on_pooch_then_local")],
state="module-level data source",observe_at="return value of the lookup")
p("C04","Parallel assembly is independent of schedule and worker count",
"For every number of workers (NCPU from 1 to beyond the matrix size) and every interleaving of the workers, the eigenvalues and eigenfunctions computed for polar caps, arbitrary regions and meshes equal those of the serial computation, and no shared-memory block is left behind. Every matrix row is assigned to exactly one worker.",
["schedules","configurations"],"all worker counts up to beyond the problem size and all thread interleavings up to the preemption bound at line granularity, for bounded problem sizes",
"Tests run one worker count with whatever schedule the OS picks.",
[S+"_parallel_methods.py",S+"slepian/slepian_polar_cap.py",S+"slepian/slepian_arbitrary.py",S+"meshes/mesh_slepian.py"],
[("row partition","_parallel_methods.py split_arr_into_chunks"),("shared memory","_parallel_methods.py create/attach/free/release"),("thread pools","_create_Dm_matrix, _create_D_matrix")],
state="shared-memory matrix, lazily filled field table",observe_at="eigenvalues/eigenvectors, /dev/shm")
p("C05","A failing worker surfaces and persists nothing",
"If any worker fails at any point while a Slepian matrix is being assembled, the construction raises instead of returning eigensolutions, nothing is saved to the data directory, and no shared-memory block is left behind. A later construction without the fault succeeds with correct results.",
["fault_sequences","schedules"],"every position (first to last elementary computation, each worker, for several worker counts) at which a computation inside the assembly of polar-cap, arbitrary and mesh matrices can fail",
"No test injects a failure; exceptions inside pool workers are dropped unless results are consumed.",
[S+"slepian/slepian_polar_cap.py",S+"slepian/slepian_arbitrary.py",S+"meshes/mesh_slepian.py",S+"_parallel_methods.py"],
[("thread pools","_create_Dm_matrix, _create_D_matrix"),("shared memory release","_parallel_methods.py")],
state="data directory, /dev/shm",observe_at="exception from the constructor, data directory, /dev/shm")
p("C06","Polar-cap Slepian functions solve the concentration problem",
"For every bandlimit, cap angle and polar-gap setting, the eigenfunctions are orthonormal over the sphere, orthogonal over the region, and each eigenvalue is the fraction of its function's energy inside the region; eigenvalues lie in [0, 1], are in decreasing order, and sum to the area fraction times L squared, which rounds to the Shannon number. Each function has the single spherical-harmonic order reported for it, every order from -(L-1) to L-1 occurs with all its L-|m| functions, and asking for one order gives exactly the functions of that order.",
["inputs","configurations"],"all bandlimits up to the bound (including both sides of 16), a grid of cap angles in (0, pi] (up to pi/2 with the polar gap), gap on/off and every single order",
"The tests use two caps at L=16 and compare with themselves; on this tree they cannot run without data files, and the matrix was identically zero unnoticed.",
[S+"slepian/slepian_polar_cap.py",S+"slepian/slepian_functions.py"],[("order-wise concentration matrix","_create_Dm_matrix, _dm_matrix_helper, _wigner3j"),("merging the orders","_solve_eigenproblem_from_scratch, _clean_evals_and_evecs")],
observe_at="N, eigenvalues, eigenvectors, order")
p("C07","Latitude-longitude Slepian functions solve the concentration problem",
"For every bandlimit and every valid rectangle of colatitudes and longitudes, the eigenfunctions are orthonormal over the sphere, orthogonal over the region, and each eigenvalue is the fraction of its function's energy inside the region; eigenvalues lie in [0, 1], are in decreasing order and sum to the area fraction times L squared, which rounds to the Shannon number. A rectangle that is a polar cap has the same eigenvalues as that polar cap.",
["inputs","configurations"],"all bandlimits up to the bound and all rectangles with corners on a grid of colatitudes and longitudes that includes the poles, the full ranges and rectangles touching only one of them",
"The tests use a single rectangle at L=16.",
[S+"slepian/slepian_limit_lat_lon.py",S+"slepian/slepian_functions.py"],[("sub-integrals","_slepian_integral"),("concentration matrix","_slepian_matrix")],observe_at="N, eigenvalues, eigenvectors")
p("C08","Arbitrary-mask Slepian functions solve the concentration problem",
"For every mask sampled on the grid of twice the bandlimit, the eigenfunctions are orthonormal over the sphere and diagonalise the mask-weighted inner product evaluated by the sampling quadrature, with the eigenvalues, in decreasing order, as their mask-weighted energies. The Shannon number is the quadrature area of the mask as a fraction of the sphere times L squared, rounded.",
["inputs"],"every boolean mask on the smallest grids (all 2^n of them up to symmetry of the enumeration bound) and all masks made of one or two rings, meridians or points on larger grids",
"The only masks in the tests are derived from a downloaded topography, and those tests do not run without the network.",
[S+"slepian/slepian_arbitrary.py",S+"_slepian_arbitrary_methods.py",S+"_integration_methods.py",S+"_mask_methods.py"],[("concentration matrix with conjugate symmetry shortcut","_matrix_helper"),("quadrature","_integration_methods.py"),("degenerate pairs","clean_evals_and_evecs")],observe_at="N, eigenvalues, eigenvectors")
p("C09","Mesh Laplacian basis and mesh Slepian functions are optimal",
"For every supplied mesh and every number of basis functions, the basis functions are the orthonormal eigenvectors of the mesh Laplacian with the smallest eigenvalues in increasing order. The mesh Slepian functions are orthonormal, diagonalise the energy inside the mesh region with the eigenvalues, in [0, 1] and decreasing order, as their region energies, and the Shannon number is the fraction of vertices in the region times the number of basis functions, rounded.",
["inputs","configurations"],"all six supplied meshes and all numbers of basis functions up to the bound",
"The tests check orthonormality of one mesh with one basis size.",
[S+"_mesh_methods.py",S+"meshes/mesh.py",S+"meshes/mesh_slepian.py",S+"_slepian_arbitrary_methods.py"],[("Laplacian eigenproblem","mesh_eigendecomposition"),("region","create_mesh_region"),("region matrix","MeshSlepian._create_D_matrix")],observe_at="Mesh and MeshSlepian attributes")
p("C10","Slepian transforms on the sphere invert each other",
"The forward Slepian transform from harmonic coefficients gives the inner products with the eigenfunctions, from a field the quadrature of the field against them over the whole sphere, and from a field with a mask the quadrature over the mask divided by the eigenvalue, for any requested number of coefficients; harmonic coefficients take precedence over a field and giving neither is an error. The inverse transform is the sum of the leading Shannon-number-many eigenfunctions weighted by the coefficients, is linear, ignores coefficients beyond the Shannon number, and forward after inverse returns the coefficients; choosing the method from a region builds the Slepian object of exactly that region.",
["inputs","configurations"],"all region kinds and bandlimits up to the bound, a complete basis of real and imaginary unit inputs (transforms are linear), every requested number of coefficients and every combination of given inputs",
"The tests compare a handful of coefficients of one map within loose tolerances, and most need downloaded data.",
[S+"slepian_methods.py",S+"slepian/_slepian_decomposition.py",S+"_integration_methods.py"],[("method selection","_slepian_decomposition.py"),("inverse","slepian_methods.py slepian_inverse, compute_s_p_omega")],observe_at="slepian_forward, slepian_inverse, choose_slepian_method")
p("C11","Mesh harmonic and Slepian transforms invert each other",
"On every mesh, the harmonic transform of real and complex fields is the orthogonal projection onto the mesh basis: forward after inverse returns the coefficients, energy is preserved, and inverse after forward is the projection. The mesh Slepian transform from Fourier coefficients, from a field, and from a field restricted to the region (divided by the eigenvalue) agree on band-limited fields for any requested number of coefficients, its inverse sums the leading Shannon-number-many Slepian functions, and all these transforms are linear.",
["inputs","configurations"],"all six meshes, all numbers of basis functions up to the bound, a complete basis of unit inputs, every requested number of coefficients and every combination of given inputs",
"The tests round-trip one random signal on one mesh.",
[S+"harmonic_methods.py",S+"slepian_methods.py",S+"meshes/_mesh_slepian_decomposition.py",S+"_integration_methods.py"],[("mesh transforms","harmonic_methods.py mesh_forward, mesh_inverse"),("decomposition","_mesh_slepian_decomposition.py")],observe_at="mesh_forward, mesh_inverse, slepian_mesh_forward, slepian_mesh_inverse")
p("C12","Wavelet transforms reconstruct every signal exactly",
"For every bandlimit, wavelet parameter and minimum scale, the squared generating functions sum to one at every degree, so that the inverse of the forward axisymmetric wavelet transform returns every harmonic signal, and that of the Slepian wavelet transform (on the sphere and on meshes) returns the leading Shannon-number-many coefficients of every signal. This includes signals on which some wavelet scales vanish, and the wavelet coefficient objects reconstruct the coefficients they were computed from.",
["inputs","configurations"],"all bandlimits, wavelet parameters and minimum scales up to the bound, and a complete basis of unit signals, all pairs of scales and signals vanishing on any set of scales",
"The tests reconstruct one dense map per transform, which has no vanishing scale and mostly needs downloaded data.",
[S+"wavelet_methods.py",S+"_convolution_methods.py",S+"functions/slepian_wavelets.py",S+"functions/axisymmetric_wavelets.py",S+"meshes/mesh_slepian_wavelets.py",S+"meshes/mesh_slepian_wavelet_coefficients.py"],[("generating functions","create_kappas"),("forward/inverse","wavelet_methods.py"),("Shannon truncation","slepian_wavelet_forward")],observe_at="public wavelet functions and wavelet classes")
p("C13","Noise has the requested power and is reproducible",
"The noise standard deviation is the one for which the expected noise power over the stated number of coefficients lies the requested number of decibels below the signal power, and the reported signal-to-noise ratio is ten times the decimal logarithm of the power ratio. Adding noise to a function keeps the noiseless coefficients available, changes the coefficients by noise that is proportional to that standard deviation, is the harmonic transform of a real field (on the sphere) and is identical on every run and independent of earlier random draws; a noise level of zero decibels is still noise, and no noise level means untouched coefficients; the levels used for denoising give the standard deviation of that noise in every wavelet scale (and, for Slepian wavelets, at every sample).",
["inputs","histories","configurations"],"all noise levels on a grid of positive, zero and negative decibels, bandlimits, signals and denominators up to the bound, in the harmonic, Slepian, mesh and mesh-Slepian setting, in any order of constructions",
"One test checks that noise changes one map; its level, symmetry and reproducibility are unchecked.",
[S+"noise.py",S+"functions/flm.py",S+"functions/fp.py",S+"meshes/mesh_harmonic_coefficients.py",S+"meshes/mesh_slepian_coefficients.py"],[("standard deviation","compute_sigma_noise"),("noise realisations","_create_noise, _create_mesh_noise"),("noised objects","_add_noise_to_signal")],observe_at="compute_snr, compute_sigma_noise, coefficients and snr of noised objects")
p("C14","Denoising keeps or zeroes each sample, and never alters its input",
"Hard thresholding of harmonic wavelets, Slepian wavelets, Slepian coefficients and mesh Slepian wavelets sets to zero exactly those field samples whose magnitude is below the number of sigmas times the sigma of that scale (and sample), keeps all others, and returns the coefficients of the result; the scaling-function coefficients are kept in the harmonic case. A zero threshold returns the same coefficients, one above every magnitude returns zeros, and no transform, denoising, wavelet or convolution function modifies the arrays it was given.",
["inputs","histories"],"all scales and threshold levels between consecutive sample magnitudes for bounded signals, and all orders of calling the functions on shared arrays",
"No test calls the thresholding functions.",
[S+"noise.py"],[("thresholding","_perform_hard_thresholding and the four public functions")],observe_at="returned coefficients and the argument arrays")
p("C15","Rotation, translation and convolution obey their algebra",
"Rotating a harmonic function by Euler angles moves its field accordingly: composition with the inverse rotation restores the coefficients and energy per degree is preserved. Translating places a Dirac delta exactly at the requested point, for a general function multiplies its coefficients by those of the delta (conjugated where the sifting convolution requires it), and convolution multiplies the first coefficients by the conjugate of the second up to the Shannon number. These operations never change the coefficients stored in the object, so every sequence of them gives the same results as each on a fresh object.",
["histories","inputs"],"all sequences of rotate, translate and convolve to the explored depth on one object, over a grid of angles that includes the poles and 2*pi, all built-in harmonic functions and Slepian functions",
"The tests translate two functions at one angle each and compare figures' coefficients once.",
[S+"functions/coefficients.py",S+"functions/flm.py",S+"functions/fp.py",S+"_convolution_methods.py",S+"slepian_methods.py"],[("rotation","Flm.rotate"),("translation","Coefficients.translate, _translation_helper"),("sifting convolution","sifting_convolution")],state="coefficients and reality flag of the object",observe_at="rotate, translate, convolve")
p("C16","Regions are identified, validated and masked correctly",
"Every combination of angles, gap and mask name is either classified as polar cap, limited latitude-longitude or arbitrary region, by the documented rule that explicit angles win over a mask name, or rejected; angles outside [0, pi] or [0, 2*pi] are rejected, and so are lower limits above the upper ones. The mask of a region at any resolution is true exactly at the sampling points inside the closed region (both caps for a polar gap), a stored mask of the wrong shape is refused, and the default region is the one described by the environment variables in degrees.",
["inputs","configurations"],"all combinations of boundary, interior and out-of-range values of the four angles, gap, mask name and environment variables, and all bandlimits up to the bound",
"The tests check a few angle combinations and two masks.",
[S+"slepian/region.py",S+"_bool_methods.py",S+"_mask_methods.py"],[("identification","Region._identify_region, _bool_methods.py"),("validation","Region field validators"),("masks","create_mask_region"),("environment","create_default_region")],observe_at="Region construction, Slepian objects' masks, chosen Slepian method")
p("C17","Function arguments: CLI integers, keywords and validation agree",
"For every function on the sphere and on meshes, passing the extra arguments as a list of integers yields the same object (coefficients, name, spin, reality) as passing the corresponding keywords, with the documented power-of-ten scaling of widths. Lists of the wrong length, arguments for functions that take none, and out-of-range values (degree, order, rank, wavelet scale, and spherical-cap parameters) are rejected with an error and never silently accepted, while every in-range value is accepted, where a scale of Slepian wavelet coefficients is in range when its wavelet does not vanish up to the Shannon number; the Africa and South America functions accept no other region. Different arguments give different names. Without arguments a function is the one of its published defaults: B=3, j_min=2 and the scaling function (spin 2 for ridgelets), rank, degree and order 0, sigma=10 and l_sigma=m_sigma=10, freq=0.1 with t_sigma=1, p_sigma=0.1 with t_sigma=1, and SNR 10 for noise of the Earth and on meshes, -5 for Slepian noise on meshes and -10 for Slepian noise on the sphere.",
["inputs","configurations"],"all 40 or so function classes, all list lengths from 0 to one beyond the number supported, and all argument values within and just outside their ranges for bounded sizes",
"The tests construct a few classes with default arguments.",
[S+"functions",S+"meshes",S+"slepian/slepian_polar_cap.py"],[("argument set-up","_setup_args of each class"),("validation","field validators and _validate_rank")],observe_at="constructed objects or raised errors")
p("C18","Built-in functions match their definitions and reality flags",
"The harmonic coefficients of every built-in function equal its documented definition at every bandlimit and parameter value: unit spherical harmonics, Dirac delta, Gaussian, harmonic Gaussian, squashed and elongated Gaussians, identity, axisymmetric wavelets, ridgelets, and the Slepian and mesh counterparts. A function is flagged real only if its field is real, so that transforms using the flag give the same field as those that do not, and the coefficients at a smaller bandlimit of a harmonically defined function are the truncation of those at a larger one.",
["inputs","configurations"],"all built-in functions, all bandlimits up to the bound, and grids of all parameters including every degree, order, scale and spin",
"The tests use the functions only as inputs.",
[S+"functions"],[("coefficients","_create_coefficients of each class"),("reality","_set_reality of each class")],observe_at="coefficients, reality, spin")
p("C19","Plots show the field they were given",
"A sphere plot shows at every grid point the requested part (real, imaginary, absolute value or sum) of the field, band-limited upsampled to the plot resolution unless switched off, closed in longitude, scaled linearly onto [0, 1] when normalised and otherwise unscaled with symmetric colour limits of the field's maximum magnitude or the given amplitude, and marks exactly the points outside the region; a mesh plot shows the average of each face's vertices likewise, marking the faces that are not entirely inside the region. Normalising a zero field shows one half everywhere and a non-zero constant one. The input field is not modified, the file name states resolution, plot type and normalisation, executing twice shows the same, annotations reach the figure, a field of the wrong size (when not upsampled) or an unknown plot type is refused, find_max_amplitude returns the largest magnitude of the part of the field as plotted, and the amplitude for noisy plots is the largest magnitude of the field without its noise (none when there is no noise).",
["inputs","configurations"],"all combinations of plot options for all built-in functions at bounded bandlimits, complete bases of small fields including constant, zero, tiny-amplitude and negative fields, all region kinds, and all resolutions around the table's boundaries",
"The tests only look at the resolution table and the nearest grid point.",
[S+"plotting/_create_plot_sphere.py",S+"plotting/_create_plot_mesh.py",S+"plot_methods.py",S+"_plotly_methods.py",S+"_mesh_methods.py"],[("field preparation","_prepare_field, _boost_field, _normalise_function"),("region marking","_set_outside_region_to_minimum"),("figure","execute")],observe_at="the figure handed to plotly and its file name")
p("C20","The command-line tools plot what their options say",
"For every combination of function, method and options, the sphere and mesh command-line tools plot the field obtained from the library by constructing that function with those arguments and applying exactly the requested rotation or translation (at the nearest grid point), convolution with the conjugate, truncation at the Shannon number and (for harmonic functions of the Earth) view of the Earth, with the colour range of the noiseless field when noised, under a file name that states the function and operation; a translation is annotated at its point unless switched off; every listed function name reaches its own class. Invalid names and arguments are refused without a plot.",
["inputs","configurations"],"all functions and methods the tools list, crossed with every option switched on alone and in pairs, at a small bandlimit",
"No test runs the command-line tools.",
[S+"_scripts/plotting_on_sphere.py",S+"_scripts/plotting_on_mesh.py",S+"_class_lists.py",S+"_string_methods.py"],[("dispatch","main, read_args"),("operations","plot, _rotation_helper, _translation_helper, _convolution_helper")],observe_at="figures handed to plotly, exit status")
p("C21","Data-derived functions and masks follow from their data file",
"Given the topography and power-spectrum files, the Earth, CMB, Africa, South America functions and masks, and their noised, wavelet and Slepian counterparts are those derived from the data for every bandlimit: the Earth coefficients are the file's, mapped to harmonic coefficients of a real field up to the bandlimit (smoothed when asked), Africa and South America are the rotated Earth restricted to land within the stated angle of the pole, and the CMB realisation has the file's power spectrum scaling and is reproducible. A missing data file is an error, never an empty result.",
["inputs","configurations","histories"],"all bandlimits up to the bound for a set of synthetic data files that excites every coefficient, all smoothing factors on a grid, with and without stored masks",
"These tests need downloaded files and do not run offline; where they run they use one real file, one bandlimit.",
[S+"_data/create_earth_flm.py",S+"_data/create_wmap_flm.py",S+"_mask_methods.py",S+"_smoothing.py",S+"functions"],[("Earth coefficients","create_earth_flm.py"),("CMB realisation","create_wmap_flm.py"),("land masks","_create_africa_mask, _create_south_america_mask"),("smoothing","apply_gaussian_smoothing")],observe_at="coefficients and masks")
p("C22","Concurrent runs sharing a data directory do not disturb each other",
"When several processes or threads construct regions, meshes or Slepian objects at the same time over one data directory, then in every interleaving of their operations on its files each construction succeeds with the results it would have alone, whether they build the same object or different ones, and afterwards the directory serves correct results to later runs. This also holds when the directory was left behind by a killed run.",
["schedules","histories","crash_points"],"all interleavings of the file-system operations of two (thorough: also three) processes, all schedules of two threads up to a preemption bound, from an empty directory and those a killed run leaves",
"The tests run in one process, one construction at a time, with every file already cached.",
[S+"_data/save_array.py",S+"_data/setup_pooch.py",S+"slepian",S+"meshes",S+"_mesh_methods.py",S+"_mask_methods.py"],[("checking and saving files","find_on_pooch_then_local, save_array, the constructors that cache"),("mesh basis","_mesh_methods.mesh_eigendecomposition"),("Slepian matrices","_slepian_arbitrary.py, slepian_polar_cap.py, slepian_limit_lat_lon.py")],state="files under the user data directory",observe_at="constructed objects, of these runs and later ones")
p("C23","Earlier work in the process never changes later results",
"What a construction, transform, wavelet, noise, plot or command gives depends only on its arguments (with the data files and the documented environment variables): after any other operations in the same process, in any order, it gives the same values, names and figures as in a new process, even when the caller has overwritten arrays it was given before. Results handed out earlier do not change either, and the process itself is left as it was found: random state and error handling of NumPy, environment, working directory, signal handlers, threads, child processes and open files.",
["histories","configurations"],"all ordered pairs of about 175 operations across the library chosen to be easily mistaken for each other (close angles, equal Shannon numbers, other bandlimits, scales, angles, environments), with results overwritten and operations repeated; thorough: triples",
"The tests run each function in few histories, and never compare it with a new process; state shared by mistake shows only for particular pairs.",
[S+"slepian",S+"functions",S+"meshes",S+"slepian_methods.py",S+"harmonic_methods.py",S+"wavelet_methods.py",S+"noise.py",S+"plot_methods.py",S+"plotting",S+"_scripts",S+"_data/setup_pooch.py"],[("transforms","slepian_methods.py, harmonic_methods.py"),("functions","functions/coefficients.py and its subclasses"),("meshes","meshes/mesh.py, meshes/mesh_coefficients.py"),("figures","plotting/_create_plot_sphere.py, plotting/_create_plot_mesh.py")],state="module-level state of the package and of the process",observe_at="values returned, attributes, figures, process state")
p("C24","Upsampling, Earth views and random signals are exact",
"Upsampling coefficients gives, at every resolution from the bandlimit upwards and for every spin, the values at that resolution's sampling points of the very function with those coefficients (as a real field when told that the signal is real), so that transforming them back returns the coefficients followed by zeros. The Africa and South America views of the Earth are the rotations of every set of coefficients by the Euler angles (44, 87, 341) and (54, 108, 63) degrees. A random signal consists of the given generator's normal variates and nothing else, scaled so that real and imaginary parts each have half the requested variance, and leaves the global random state alone. Selecting the non-zero wavelet coefficients keeps exactly the scales that do not vanish, in order. None of these changes its arguments.",
["inputs","configurations"],"all bandlimits and spins up to the bound, resolutions next to the bandlimit, double it and beyond, complete bases of coefficients (which decide every signal by linearity) real and complex, every pattern of vanishing entries, a grid of variances and seeds",
"The tests look at one padded length and one shape of the upsampled field.",
[S+"harmonic_methods.py",S+"wavelet_methods.py"],[("upsampling","invert_flm_boosted, _boost_coefficient_resolution"),("Earth views","rotate_earth_to_africa, rotate_earth_to_south_america"),("random signals","compute_random_signal"),("scales kept","find_non_zero_wavelet_coefficients")],observe_at="returned arrays")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P:
    jsonschema.validate(q,sch); assert len(q["title"])<=80
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
