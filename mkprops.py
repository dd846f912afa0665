#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements can be edited readably)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mechanism,state,observe_at,hook=None):
    P.append(dict(id=id,title=title,statement=" ".join(statement.split()),
        quantifier=dict(over=over,text=" ".join(qtext.split())),why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,mechanism=[dict(name=m,where=', '.join(files)) for m in mechanism],state=state,observe_at=observe_at,hook_needed=hook)))
S="src/tools21cm/"

prop("A01","Every lightcone slice interpolates its own two bracketing cubes",
"""For any collection of coeval cubes listed in any order, any requested redshift range and any line-of-sight axis,
slice k of a lightcone (scalar or velocity) equals the requested interpolation (linear in redshift, step at the midpoint, sigmoid, or a switch of each cell at its own redshift, those with the largest smoothed value first)
between slice (k mod N) along that axis of the two cubes whose redshifts most tightly enclose the slice's redshift.
The result does not depend on which cubes earlier slices used, on the order of the file list, or on how far apart in redshift neighbouring slices are,
and a slice lying exactly on a cube's redshift (the lowest and the highest one included) is that cube's slice.""",
["inputs","histories","configurations"],
"all file orders, all numbers of cubes (including several cubes between consecutive slices), all output grids, all three axes, all interpolations, dictionary / array / reading-function inputs",
"No test builds a lightcone; the incremental cube cache makes slice k depend on the history of earlier slices, which a handful of examples cannot cover.",
[S+"lightcone.py"],["make_lightcone","make_velocity_lightcone","_get_interp_slice","_get_slice"],
[dict(name="data_low/data_high",meaning="cached bracketing cubes carried from slice to slice"),dict(name="z_bracket_low/high",meaning="redshifts the cache claims to hold")],
["make_lightcone return value","calls of the user's reading function"])

prop("A02","Lightcone redshift grids step by one cell, stay in range; subvolumes cut exactly",
"""The redshifts of a lightcone start at the lowest requested redshift and advance by one box cell in comoving distance (or, for a frequency depth, end at the highest requested redshift and step by exactly one channel), strictly increase, and fill but never leave the range covered by the request and the input cubes.
A subvolume around a central redshift consists of the contiguous slices between the slices nearest to its two depth limits (one more only when an odd count is required), pairs them with exactly their own redshifts, reports the requested depth and field of view as its dimensions, and removes each slice's mean only if asked.
Requests that reach outside the lightcone, or that give both or neither of the depth parameters, are refused.""",
["inputs","configurations"],
"all redshift ranges, cell sizes, channel widths, truncations; all central redshifts, depths and parities of a subvolume",
"Tests never call these functions; the off-by-one, parity and truncation cases exist only for particular combinations of range, step and cell count.",
[S+"lightcone.py"],["_get_output_z","redshifts_at_equal_comoving_distance","redshifts_at_equal_frequncy_width","get_lightcone_subvolume"],[],
["return values of make_lightcone, redshifts_at_equal_*, get_lightcone_subvolume"])

prop("B01","Cluster labels are exactly the connected regions above the threshold",
"""Friends-of-friends labelling assigns label 0 to every cell below the threshold, gives two marked cells the same label if and only if they are joined by a chain of marked neighbours of the requested connectivity inside the (non-periodic) grid, and numbers the regions 1..n.
The returned size list has one entry per region equal to its cell count, so it sums to the number of marked cells, also when every or no cell is marked.
The built-in breadth-first search agrees with this for its own strict threshold and face connectivity, for every schedule of its queue.""",
["inputs","schedules"],"all 2D/3D boxes and thresholds, connectivities 1..ndim, queue schedules of the built-in search",
"The test looks at one sphere and compares a single size; merging/splitting errors and boundary cases (all marked, none marked, touching the edge) need all topologies.",
[S+"bubble_stats.py",S+"Friends_of_Friends.py"],["fof","FoF_search"],
[dict(name="out_map",meaning="labels assigned so far"),dict(name="q",meaning="BFS frontier")],["fof return value","FoF_search return value"])

prop("B02","Euler and Betti numbers agree with the cubical complex on all backends",
"""For every 3D field, threshold and connectivity, the Euler characteristic equals vertices - edges + faces - cubes of the periodic cubical complex spanned by the cells above the threshold (by the complementary cells for the non-face connectivities), and is the same for the Cython, Numba, pure Python and shared-memory parallel backends, for every number of workers.
Betti-0 and Betti-2 count the connected components of the marked and of the unmarked cells, and Betti-1 = Betti-0 + Betti-2 - Euler characteristic, also when any of them is passed in.""",
["inputs","schedules","configurations"],"all fields and shapes (including odd, flat and non-cubic), thresholds, neighbour conventions, backends, worker counts and task schedules",
"No test covers topology at all; agreement of four implementations over all fields and all worker schedules is a for-all statement.",
[S+"topology.py",S+"ViteBetti.py",S+"ViteBetti_cython.pyx"],["EulerCharacteristic","betti0/betti1/betti2","CubeMap*"],
[dict(name="cubemap",meaning="shared array of cell markers filled stage by stage")],["EulerCharacteristic/betti* return values","CubeMap* return value"])

prop("B03","Bubble-size distributions count each sample once, at its own size",
"""A mean-free-path size distribution accounts for every one of the requested rays exactly once, places a ray in the bin of the number of unit steps after which the region ends along it (the edge of the box ends a region), starts rays only from (or, if a point is given, exactly at) cells of the region, and scales radii by boxsize over grid size.
Spherical averaging assigns every cell the largest listed radius whose ball average reaches the threshold, and normalises to one.
Selecting the complement with the upper-limit option equals negating data and threshold, and an empty region of interest yields an all-zero distribution.""",
["inputs","configurations","schedules"],"all boxes, thresholds (closed), starting points, iteration counts and random draws",
"The two tests assert tautologies; the ray bookkeeping has to hold for every geometry and every random draw.",
[S+"bubble_stats.py",S+"mfp_np.py",S+"spa_np.py"],["mfp","mfp_from_point","averaged_mfp","spa","mfp3d/mfp2d","_ray3d","spa_np"],
[dict(name="rays",meaning="live ray positions/directions"),dict(name="num_sz",meaning="rays terminated per step")],["mfp/mfp_from_point/averaged_mfp/spa return values"])

prop("C01","Derived cosmological and simulation constants always match the primary ones",
"""After any sequence of setting cosmological parameters or the simulation box, every derived constant (Hubble constant, curvature-free dark energy, deceleration, critical and matter density, hydrogen density, mean brightness temperature, Hubble function) equals its defining formula of the current primary parameters and nothing else changes.
After selecting a supported box, box length, fine-grid size, mass, length, time and velocity conversion factors equal their formulas for that box and the cosmology in force, an unsupported box is refused, and unit conversions and their inverses use the factors in force and undo each other.""",
["histories","configurations"],"all sequences of set_* calls and box selections, in any order and repetition",
"Tests set one parameter set once and look at primary values; stale derived state only shows after particular orders of calls.",
[S+"const.py",S+"conv.py",S+"temperature.py",S+"usefuls.py"],["set_hubble_h","set_omega_matter","set_omega_lambda","set_omega_baryon","set_abundance_helium","set_sim_constants","gridpos_to_mpc","gridvel_to_kms","gridmass_to_msol","Mgrid_2_Msolar","Msolar_2_Mgrid"],
[dict(name="module constants",meaning="process-wide mutable cosmology and box constants")],["tools21cm.const.*","tools21cm.conv.*","mean_dt"])

prop("C02","Cosmological conversions follow the cosmology in force and undo each other",
"""Under every cosmology set so far, the conversions between redshift, comoving and luminosity distance, frequency, wavelength, angular size, physical and comoving length, age and halo mass/virial temperature give their defining formula or integral for the parameters in force, elementwise for scalars (integer ones included) and arrays alike.
Converting there and back returns the argument, and distance, frequency and age are strictly monotonic in redshift.""",
["inputs","histories","configurations"],"all redshifts, distances, frequencies, angles and masses, scalar or array, under every sequence of cosmology changes",
"Tests check single values in one cosmology; table-based inverses and per-type conversions go wrong only away from the tabulated cosmology or for other input types.",
[S+"cosmo.py"],["z_to_cdist","cdist_to_z","nu_to_z","z_to_nu","nu_to_cdist","luminosity_distance","angular_size","angular_size_comoving","deg_to_cdist","c_to_p","p_to_c","z_to_age","hubble_parameter","M_to_Tvir","Tvir_to_M"],
[dict(name="module constants",meaning="the cosmology in force"),dict(name="precalc_table_*",meaning="cached distance table used as the starting point of the inverse")],["return values of tools21cm.cosmo functions"])

prop("D01","Brightness temperature is local to each cell's own fields and redshift",
"""The differential brightness temperature of a cell is the mean temperature at that cell's redshift times its neutral fraction times its density contrast (times one minus the ratio of CMB to spin temperature in the full version), so fully ionised or empty cells are exactly zero and the result is linear in density and in neutral fraction.
In a lightcone the redshift of a cell is that of its slice along the chosen line-of-sight axis, one comoving cell per slice from the lowest redshift, for any axis.
The redshift is the given one, or otherwise the one in the name of the ionisation file, else of the density file, and a missing redshift is refused; the signal of haloes on a grid is the mean signal times the mass of each cell over the mean baryon mass of a cell in the cosmology given, in any unit.""",
["inputs","configurations"],"all fields (including fully ionised cells at any temperature), redshifts, axes, file or array inputs",
"The tests check only that the mean is positive; locality, axis handling and the ionised-cell limit are statements about all cells of all inputs.",
[S+"temperature.py"],["calc_dt","calc_dt_full","calc_dt_lightcone","_dt","_dt_full","mean_dt","calc_dt_halo"],[],["calc_dt* return values"])

prop("D02","Optical depth accumulates monotonically along each sightline",
"""The optical depth is independent of the order in which the redshift samples are listed, never decreases with redshift, starts from the fully ionised value at the lowest supplied redshift, increases over an interval by the trapezoidal contribution of exactly that interval's two samples (so it is zero where the gas is neutral and linear in the ionised fraction), and a value at redshift z never depends on samples above z.
The map version equals the one-dimensional version on every sightline.""",
["inputs","histories"],"all sample orders, spacings, ionisation histories, numbers of initial points, map shapes",
"One test checks monotonic length only for a constant history; the prefix and order properties quantify over all histories.",
[S+"tau.py"],["tau","tau_map"],[dict(name="tau0",meaning="running sum along the sightline")],["tau / tau_map return values"])

prop("E01","Binned power spectra average |FFT|^2 over exactly the modes of each bin",
"""For any real array in one to three dimensions (any even or odd, equal or unequal side lengths and box sizes), the n-dimensional power spectrum holds |DFT|^2 times cell volume squared over box volume with the zero mode at index n//2 of each axis, and a bin of the spherically averaged (or kper-kpar) spectrum is the plain average over exactly those modes whose wavenumber, computed with each axis' own length, lies in the bin, together with their number.
The cross spectrum is the real part of the product of the two transforms: symmetric, bilinear, and equal to the auto spectrum for equal inputs.
Relabelling axes together with box lengths, or shifting the periodic box, leaves binned results unchanged, the wavenumbers and bin edges handed out are those of the box, and the dimensionless spectrum is P(k) k^3 / 2 pi^2 of a finer spectrum interpolated at its wavenumbers.""",
["inputs","configurations"],"all arrays, shapes, box lengths, bin specifications (count or edges, linear or log), line-of-sight axes",
"Tests evaluate one cube with one bin choice and loose tolerances; off-by-one in mode centring or axis mix-ups show only for particular parities and unequal boxes.",
[S+"power_spectrum.py"],["power_spectrum_nd","cross_power_spectrum_nd","radial_average","power_spectrum_1d","power_spectrum_2d","cross_power_spectrum_1d","_get_k","_get_kbins","_get_dims","get_k","get_kbins","dimensionless_ps"],[],["return values of the power-spectrum functions"])

prop("E02","Angle-resolved power spectra put every mode in its own mu and k bin",
"""A (mu,k) bin of the angle-resolved power spectrum is the average over exactly the modes whose wavenumber and cosine to the chosen line-of-sight axis lie in the bin (cosine one belongs to the last bin), with the zero mode never contributing and the purely line-of-sight modes left out exactly when asked.
The k bins of the multipole expansion are Legendre-weighted sums over exactly the modes of each k bin and report their number, and summing mode counts over mu gives the spherical counts.""",
["inputs","configurations"],"all arrays, parities, unequal boxes, axes, mu/k bins, absolute or signed mu, exclusion on or off",
"Tests only check the ratio of an isotropic field to tens of percent.",
[S+"power_spectrum.py",S+"power_legendre.py"],["power_spectrum_mu","cross_power_spectrum_mu","mu_binning","_get_mu","_get_nonzero_idx","power_spectrum_multipoles"],[],["return values"])

prop("E03","Convolution and smoothing conserve the field and are translation-exact",
"""The FFT convolution equals the direct sum, centred on kernel cell n//2, for every shape, mode and boundary rule it offers, and the Gaussian and top-hat kernels are non-negative, sum to one and, except for even top-hat widths, are symmetric about the centre cell, so that periodic smoothing leaves constant fields unchanged, conserves the total, commutes with periodic shifts and is linear.
Smoothing along the frequency axis mixes only cells of the same sightline, and smoothing across the sky mixes only cells of the same slice, on whichever axis is declared the frequency axis (negative ones counted from the end) and with each slice's own width.
One-dimensional smoothing of a line returns as many samples as it was given, each the normalised weighted mean around it.""",
["inputs","configurations"],"all shapes (odd/even, unequal), kernel sizes, boundaries, axes, widths",
"Tests only check that smoothing reduces variance.",
[S+"smoothing.py",S+"fft_functions.py",S+"beam_convolve.py"],["fftconvolve","gauss_kernel","tophat_kernel","tophat_kernel_3d","smooth_with_kernel","smooth_coeval*","smooth_lightcone*","smooth_line","beam_convolve"],[],["return values"])

prop("E04","Bispectra, correlation functions and responses are the averages that define them",
"""The bispectrum at (k1, k2, k3) or at equal wavenumbers is the volume-normalised mean of the product of the three modes over all closed triangles of grid modes whose sides lie in the three shells (box lengths per axis, odd and even grids, windowed or not, serial or threaded), NaN where no triangle closes, so it does not depend on the order of the sides or on periodic shifts and goes with the cube of the field.
Correlation functions are the documented spherical transform of the binned power spectrum at the documented (or given) distances, and the Landy-Szalay estimate counts each pair of points once in its distance bin.
The integrated bispectrum and the power spectrum response are the (normalised) covariance of the sub-boxes' spectra and means over all sub-boxes of the cut.""",
["inputs","configurations"],"all shapes (odd, even, unequal), box sizes, shells, windows, point sets, cuts and numbers of workers",
"Tests compute one bispectrum and check only its shape; wrong triangles or misplaced modes give smooth plausible curves.",
[S+"bispectrum.py",S+"corr_function.py",S+"position_dependent_power_spectrum.py"],["Bispectrum","correlation_function","cross_correlation_function","ps_to_corr","landy_szalay_estimator","integrated_bispectrum*","power_spectrum_response"],[],["return values"])

prop("E05","Gaussian random fields have exactly the spectrum asked for in every mode",
"""For every 2D or 3D shape (odd, even, unequal sides) and box (one length or one per axis) every non-zero Fourier mode of a generated field is the same seeded noise times sqrt(P(k)) at that mode's own wavenumber, so that two fields of equal seed are each other's modes times the ratio of their spectra and box volumes, and averaged over draws each mode has zero mean, power P(k), and no correlation with other modes or other draws.
A field made like another takes the other's binned spectrum, interpolated linearly between the bins and zero outside them.
The seed fixes the field and is that of the global generator.""",
["inputs","configurations"],"all shapes, boxes, spectra and seeds",
"No test reads a spectrum from a generated field; modes given their neighbours' power are invisible in a binned spectrum.",
[S+"gaussian_random_field.py"],["make_gaussian_random_field","make_gaussian_random_field_like_field"],[dict(name="RNG",meaning="numpy's global generator")],["return values"])

prop("F01","Whatever is written to a data file is what any reader returns",
"""For every mesh shape (unequal sides included), bit depth, index order and file class, reading a file back through the matching reader, through the generic typed reader or through the mesh-size probe gives exactly the shape and values last written to that path (to the precision of the format), in the same index positions, and the redshift encoded in its name.
Physical-unit views are the raw values times the documented factor for the constants in force, so writing physical densities and reading them back returns them.
Dictionary files return every key and value written, in each supported format, and a failed or interrupted save leaves the previous version readable.""",
["histories","inputs","crash_points","configurations"],"all write/read sequences over several paths, all shapes, orders, precisions, classes and formats, save failures at any byte",
"No test touches a file.",
[S+"helper_functions.py",S+"density_file.py",S+"vel_file.py",S+"xfrac_file.py",S+"temper_file.py",S+"source_file.py",S+"read_files.py"],
["save_cbin/read_cbin","save_raw_binary/read_raw_binary","get_mesh_size","get_data_and_type","determine_filetype","XfracFile","DensityFile","ClumpingFile","VelocityFile","TemperFile","SourceFile","write_dictionary_data/read_dictionary_data"],
[dict(name="filesystem",meaning="path -> last complete content")],["reader return values"])

prop("F02","Redshift lookup interpolates between the true neighbouring files",
"""Listing redshifts returns the redshift encoded in the name of every matching file in the requested (optionally bracketed) range exactly once and in order, and refuses a bracket the files cannot provide.
A coeval cube (ionised fraction, density, velocity and what is derived from them) requested at redshift z is the stored cube when one exists at z and otherwise the linear interpolation in redshift of the nearest stored neighbours below and above z (coeval_dens_c2ray, as documented there, scales the next higher snapshot by ((1+z_high)/(1+z))^3 instead), whatever order the operating system lists the files in and whatever other files the directory holds.""",
["inputs","configurations","schedules"],"all directories, listing orders, requested redshifts (stored, between, near an end)",
"Needs directories of simulation output in adverse listing orders; there is no test.",
[S+"helper_functions.py",S+"usefuls.py",S+"read_files.py"],["get_xfrac_redshifts","get_dens_redshifts","determine_redshift_from_filename","get_zs_list","coeval_xfrac","coeval_dens","coeval_vel"],[],["return values"])

prop("F03","Halo catalogues keep exactly the selected haloes; gridding conserves mass",
"""Reading a halo catalogue keeps exactly the haloes that pass the mass cut (strictly inside the limits), in file order (all node files in node order) up to the requested maximum number, whatever the object held or failed to read before, counts what it kept, and gives masses, velocities and positions in the documented units, CubeP3M positions wrapped into the periodic box.
Gridding places each halo in the cell that contains its position in the periodic box (regardless of where the other haloes are), so the grid's total mass or number equals that of the catalogue and every cell holds the sum over exactly its own haloes.""",
["inputs","configurations"],"all catalogues, mass cuts, limits, positions including on cell faces and box edges, grid sizes, mass or number weighting",
"There is no test; dependence of one halo's cell on the other haloes is visible only for catalogues that do not fill the box.",
[S+"halo_list.py",S+"nbody_file.py"],["HaloRockstar","HaloCubeP3M*","Halo2Grid","halo_list_to_grid"],[],["halo list attributes","grid arrays"])

prop("G01","The uv-map cache resumes correctly after any interruption, in any mode",
"""Requesting uv maps for a set of redshifts returns, for every requested redshift, exactly the map a direct computation gives, together with everything already in the cache file, no matter whether it ran sequentially, in parallel or in chunks, with whatever worker count and checkpoint interval, and never recomputes a redshift that is already stored.
A run interrupted at any point leaves a readable cache file containing every redshift completed up to the last checkpoint, from which a later call continues to the same final content; a failed save loses nothing already saved.
A cache made with different observing parameters is refused and left untouched.""",
["histories","crash_points","schedules","fault_sequences","configurations"],"all sequences of requests, interruptions, save failures and parameter changes; all execution modes, worker counts and checkpoint intervals",
"No test covers it; interruptions and mode combinations form an unbounded set of histories.",
[S+"radio_telescope_noise.py",S+"read_files.py"],["get_uv_map_lightcone","read_dictionary_data","write_dictionary_data"],
[dict(name="uvs",meaning="in-memory cache"),dict(name="save_uvmap file",meaning="durable cache")],["get_uv_map_lightcone return value","cache file content"])

prop("G02","uv coverage counts every track sample and masks exactly unsampled modes",
"""The gridded uv coverage counts, in every cell, exactly the track samples of the antenna pairs that fall in it, averaged over the integrations: with mirrored baselines it is point-symmetric and depends only on the antenna differences (not on antenna order or a common shift), it adds up to the number of in-grid samples per integration, and every variant (per redshift, with a longest baseline, with gains, with antenna stamps, per baseline) describes the same tracks, whatever the worker count.
Applying the coverage to an image keeps exactly the Fourier modes with non-zero coverage: it is linear, idempotent, leaves a fully covered image unchanged and acts on every slice of a cube independently with that slice's own map.""",
["inputs","configurations"],"all antenna layouts, grid sizes, integration times, declinations; all images and masks",
"No test covers it.",
[S+"radio_telescope_layout.py",S+"radio_telescope_noise.py",S+"radio_telescope_calibration.py",S+"smoothing.py"],["get_uv_map","get_uv_daily_observation","grid_uv_tracks","earth_rotation_effect","get_uv_map_with_gains","get_full_uv_map_with_antenna_stamp","get_full_uv_lagrangian_with_antenna_stamp","apply_uv_response_on_image","apply_uv_response_on_coeval","make_uv_map_lightcone","convolve_uvmap","smooth_lightcone_uv_threshold"],[],["return values"])

prop("G03","Instrument noise follows the radiometer equation in every Fourier mode",
"""The system equivalent flux density is 2 k T_sys / A_eff from the given (or default) system temperature, station diameter and aperture efficiency, or the log-interpolated given table; the noise of a visibility is that over sqrt(2 bandwidth t_int), and kelvin and jansky images are converted into each other with the pixel's solid angle and the slice's frequency.
A noise map is real with zero mean and, in every Fourier mode, the power given by that visibility noise, the uv coverage (natural weighting divides by it, uniform does not, unsampled modes get nothing), the Blackman-Harris taper centred on the zero mode and the observing time, so that with the same random numbers it scales as SEFD/sqrt(bandwidth obs_time) whatever the integration time.
Noise cubes and lightcones are successive independent maps in mK, each with its own redshift, channel width and coverage, and applying coverages or tapers never changes the arrays given.""",
["inputs","configurations"],"all telescopes, coverages, grid sizes (odd and even), weightings, observing times, redshift lists, random numbers",
"No test covers it; wrong scalings and misplaced weights leave maps that look like noise.",
[S+"radio_telescope_noise.py",S+"radio_telescope_sensitivity.py",S+"power_spectrum_noise.py"],["noise_map","noise_cube_coeval","noise_cube_lightcone","noise_lightcone","apply_uv_response_noise","apply_uv_response","signal_window","get_SEFD","sigma_noise_radio","kelvin_jansky_conversion","noise_error_ps"],[dict(name="RNG",meaning="numpy's global generator")],["return values"])

prop("H01","Analysis calls never alter their inputs and repeat identically in any session",
"""Calling any deterministic analysis function leaves every array passed to it bit-for-bit unchanged, and calling it with equal arguments at any point of a session, after any other calls in any order, changes of the cosmology and box and back, and whatever the user has since written into the inputs or into results returned earlier, gives the result it gives in a fresh session with the same arrays and constants.
Functions that use random numbers do the same when the random generator is re-seeded, and calls that leave out a box size documented to default to the current box use the box in force at the call.""",
["histories","programs"],"all sequences of API calls sharing the same arrays",
"Tests call each function once on fresh data; aliasing and hidden state need sequences of calls on shared arrays.",
[S+"power_spectrum.py",S+"statistics.py",S+"smoothing.py",S+"bubble_stats.py",S+"identify_regions.py",S+"topology.py",S+"lightcone.py",S+"temperature.py",S+"angular_coordinates.py",S+"helper_functions.py"],["all public analysis functions"],
[dict(name="caller arrays",meaning="arrays shared between calls"),dict(name="hidden state",meaning="module globals, caches, RNG")],["arguments before/after","return values"])

prop("S01","Per-slice statistics act on each slice alone and combine exactly",
"""Subtracting the mean signal makes the mean of every slice perpendicular to the chosen axis zero and changes nothing else, overdensity and other per-slice operations use each slice's own mean, on any axis (negative ones counted from the end), and skewness, kurtosis and mass-weighted means equal their moment definitions.
Means and variances combined from parts equal those of the pooled data for every partition, and per-label statistics equal the statistics of exactly the cells carrying that label, for any label values.""",
["inputs","configurations"],"all arrays, axes, partitions, label maps",
"Tests use one random cube and default axis.",
[S+"statistics.py",S+"helper_functions.py",S+"superpixels.py"],["subtract_mean_signal","signal_overdensity","apply_func_along_los","skewness","kurtosis","mass_weighted_mean_xi","combined_mean_variance","apply_operator_labelled_data","superpixel_map","get_superpixel_means"],[],["return values"])

prop("S02","Region masks are exactly the cells on their side of the threshold",
"""Threshold-based identification marks exactly the cells on the documented side of its threshold (cells at the threshold included), the opposite upper-limit option marks the rest, and the threshold is the given one, the triangle threshold of the field's histogram, the median triangle threshold of its slices along the chosen axis, or (for two clusters) one that separates the clusters and is the one reported.
Two- and three-cluster identification assigns every cell to its nearest cluster centre and marks the lowest (or highest) cluster; a single-valued field is one region, and fixed and triangle masks do not depend on how cells are listed: permuting or reflecting the axes of the input permutes or reflects the mask.
Painting adds kernels around their positions in the periodic box and nothing else; spherical bubble models grow by one whole periodic ball at a time, centred on a neutral cell (non-overlapping ones touch no ionized cell, also across the boundary), stop at the target fraction, and leave the caller's cube alone.""",
["inputs","configurations","histories"],"all fields, thresholds, upper-limit choices, shapes, bubble centres, radii, kernels and orders of painting",
"Tests check a single two-valued example.",
[S+"identify_regions.py",S+"test_case.py"],["bubbles_from_fixed_threshold","bubbles_from_kmeans","bubbles_from_triangle3D","bubbles_from_triangle2D","threshold_kmeans","threshold_kmeans_3cluster","paint_kernel","spherical_bubble_model"],[],["return values"])

prop("V01","Redshift-space distortion moves signal along sightlines without losing any",
"""Redshift-space distortion moves signal only along the line of sight: with periodic boundaries the sum over every sightline is conserved, zero velocity returns the input exactly, a uniform velocity that corresponds to a whole number of cells rolls the box by that number in the direction of the velocity, and only the velocity component of the chosen axis matters.
Permuting the axes of the box together with the line-of-sight axis permutes the result, and without periodic boundaries only signal pushed over an end is lost.""",
["inputs","configurations"],"all boxes, velocities (also beyond a full box length), axes, particle numbers, redshifts (scalar or per slice)",
"There is no test of velocity distortion.",
[S+"pv_mpm.py"],["get_distorted_dt"],[dict(name="particles",meaning="positions and weights along a skewer")],["get_distorted_dt return value"])

prop("W01","Angular/frequency resampling of lightcones preserves content and its coordinates",
"""Converting a lightcone between comoving and observed (angle, frequency) coordinates returns evenly spaced channels or distance bins that start at the first slice and stay inside the input range, each the mean of the input slices nearest to it, on a field of the declared number of cells.
Every slice is resampled across the sky on its own: a constant stays that constant, the result is linear in the input and the same for both sky axes, a slice resampled to its own size is unchanged, and the sky beyond the box repeats the box periodically (cut to the central cells when cropping).
Padding repeats the box on every side, so its centre is the input, and no call changes its input.""",
["inputs","configurations"],"all shapes, redshift ranges, fields of view, channel widths, interpolation orders, paddings and cosmologies",
"There is no test.",
[S+"angular_coordinates.py"],["physical_lightcone_to_observational","observational_lightcone_to_physical","physical_slice_to_angular","angular_slice_to_physical","resample_slice","bin_lightcone_in_frequency","bin_lightcone_in_mpc","padding_lightcone"],[],["return values"])

prop("X01","Foreground filters pass exactly the modes they say, channel by channel",
"""The wedge (diabolo) and barrel filters hold, for every number of cells, box, angle and number of channels, the weight of each cell's own wavenumbers (zero inside the wedge or below the smallest transverse wavenumber, one or the sigmoid outside), and removing the wedge from an array of any shape multiplies every Fourier mode of the array by the filter's mean weight for that mode and its opposite and changes nothing else.
The rolling removal returns for every channel exactly what the tapered chunk centred on that channel (empty beyond the ends) has there after removing the modes inside the horizon wedge and buffer of the chunk's last channel, for odd and even chunk lengths, any matter density and independently of the cell size.
No filter amplifies a mode or changes its inputs.""",
["inputs","configurations"],"all shapes (odd, even, fewer channels than cells), boxes, angles, filter kinds, chunk lengths, thresholds and cosmologies",
"There is no test of foreground removal; displaced modes or chunks leave plausible maps.",
[S+"foreground_model.py"],["diabolo_filter","barrel_filter","remove_wedge_image","rolling_wedge_removal_lightcone"],[],["return values"])

prop("X02","Primary beams and foreground maps follow each channel's own redshift",
"""A primary-beam-corrected array is the array times, channel by channel, the circular beam of that channel's own redshift (or the one redshift given), centred at cell n/2 and falling with distance as the chosen profile for the station size or null given, on whichever axis is declared the frequency axis, for 2D and non-cubic arrays and any kind of list of redshifts, leaving the input alone.
Galactic synchrotron maps are one white random map coloured by the documented angular and frequency power law at each redshift, and extragalactic maps are the sum of all sources of their pixel, each a power law in frequency, both in mK for the pixel's solid angle.
Equal seeds give equal maps.""",
["inputs","configurations"],"all sizes, boxes, redshifts, axes, profiles, station sizes, nulls, seeds and cosmologies",
"There is no test of the beam or the foregrounds.",
[S+"primary_beam.py",S+"foreground_model.py"],["primary_beam","primary_beam_null","circular_beam","galactic_synch_fg","extragalactic_pointsource_fg"],[dict(name="RNG",meaning="numpy's global generator")],["return values"])

prop("B04","Size distributions measure every region by what it holds, in its own units",
"""A granulometry reports, for each radius, the share of the marked volume (cells above, or with the upper-limit option below, the threshold) that opening by a ball (disc) of that radius no longer contains but opening by the next smaller one does, where an opening is the union of all copies of the structure that fit in the region; the CDF reports the volumes left for the sizes asked.
A watershed distribution of separate balls (discs), down to single cells and up to the edges of the box, counts each region once at the radius of the ball (disc) of the same volume (area), in units of box size over grid size, in 2D and 3D, and an empty map yields an empty distribution.
Histograms of sizes or labels count each region once, in equal logarithmic bins spanning the sizes, scaled by the given resolution or box, normalised to one, and leave the inputs alone."""
,["inputs","configurations"],"all masks, shapes, structures (odd sides), thresholds, boxes, bins, size lists and label maps",
"There is no test of these functions.",
[S+"bubble_stats.py",S+"morph.py"],["granulometry_bsd","granulometry_CDF","watershed_bsd","binary_opening","dist_from_volumes","get_distribution","plot_fof_sizes"],[],["return values"])

prop("S03","Superpixel regions are whole superpixels below the threshold of their means",
"""SLIC gives every cell of a cube exactly one label, numbered from 0 without gaps, and stitching marks the superpixels whose mean lies below a threshold as a whole (or, when asked, the cells themselves), for any label values; when all means are equal nothing is marked.
The threshold is the middle of the bin that lies farthest from the line between the first bin and the peak of the histogram of the means when it has a single peak, and Otsu's threshold of the means otherwise.
Boundaries raise only cells where the label changes, each change being marked on one of its sides, to the given factor times the largest value.""",
["inputs","configurations"],"all fields, label maps, bins and options",
"Tests never stitch superpixels.",
[S+"superpixels.py",S+"identify_regions.py"],["slic_cube","stitch_using_histogram","stitch_superpixels","binary_stitch","superpixel_map","get_superpixel_means","boundaries","bubbles_from_slic"],[],["return values"])

prop("G04","Antenna layouts move between coordinate frames as rigid bodies",
"""Carrying antenna positions from the local east-north-up frame to the Earth-centred frame and on to the frame turned about the axis of the Earth moves the layout as a whole, for any site, so that distances between antennas and the place of the centre stay the same; longitude, latitude and height on the spherical Earth and Cartesian positions lead back to each other, and no conversion changes its input.
The named built-in layouts (in any case) have exactly the stations of their file, in every frame about the geodetic position of the array centre, unknown frames are refused, and given positions are used as they are.
Baselines are the differences of every ordered pair of antennas, once each and in the unit of the positions.""",
["inputs","configurations"],"all positions, sites, layouts, frames and units",
"Tests never check an antenna position.",
[S+"radio_telescope_layout.py"],["geographic_to_cartesian_coordinate_system","cartesian_to_geographic_coordinate_system","enu_to_ecef","ecef_to_xyz","get_SKA_Low_layout","subarray_type_to_antxyz","antenna_positions_to_baselines"],[],["return values"])

prop("L01","Luminosities, magnitudes and halo line maps are those of their own sources",
"""Apparent and absolute magnitudes are related by the distance modulus and the (1+z) correction of the cosmology given and undo each other; AB magnitudes give their flux density and luminosity, and a field of view its comoving area, for any unit and for numbers (square degrees), integers and arrays alike, without altering them.
Particle masses and particle numbers of an N-body box are those of the mean matter density of the cosmology given (by object or name in any case) and undo each other, for a halo of a given number of particles too.
Line-intensity maps (neutral hydrogen, the four [CII] calibrations) give every halo the emission of its own mass, redshift and options, put it whole into the cell of the periodic box it lies in, and depend on neither the units nor the order of the haloes.""",
["inputs","configurations"],"all sources, haloes, cosmologies, recipes, options and units",
"Tests never call them.",
[S+"astro_tools.py",S+"line_intensity.py",S+"nbody_tools.py",S+"nbody_file.py"],["FoV_cMpc2","mag_to_flux","Muv_to_muv","muv_to_Muv","Muv_to_L1500","M_HI_on_grid","L_CII_on_grid","ParticleMass_to_ParticleNumber","halo_mass_to_particle_number","particle_number_to_particle_mass","halo_list_to_grid"],[],["return values"])

prop("L02","Lyman-alpha opacity is of each cell's gas, averaged along its own sightline",
"""The line profile is the Voigt function of offset and damping at every scale, and the scattering cross-section has it for the Doppler width and damping of each temperature, so that its total strength is the same at all temperatures.
The optical depth of a cell is, cell by cell, proportional to its own neutral fraction and (fluctuating Gunn-Peterson) its own density contrast, with the proper density and expansion rate or path length of the redshift and cosmology given, for every option and unit, and leaves its inputs as they were.
The effective optical depth along a sightline is minus the logarithm of the mean transmission of the requested stretch of cells centred on each cell, periodic along the chosen axis (any of the three, result in the orientation of the input), a stretch given as a length counting the nearest whole number of cells.""",
["inputs","configurations"],"all fields, temperatures, frequencies, stretches, axes, units and cosmologies",
"Tests never call them.",
[S+"lyman_alpha_transmission.py"],["approximation_voigt_faddeeva","direct_voigt_profile","lyA_scattering_cross_section","tau_nu_lyA_FGPA","tau_nu_lyA","tau_nu_lyA_los"],[],["return values"])

prop("P01","Posterior summaries and plots show the weighted distribution they are given",
"""For any weighted samples or grid of probabilities, with any number of parameters (one included) and weights of any normalisation, the stored mean, covariance, widths and nested credible intervals are the moments and quantiles of the weighted distribution of each parameter, and the diagnostics against true values (z-score, rms, Mahalanobis distance, rank, coverage, entropy) follow from them; chain printouts and forest plots show the same numbers, each distribution under its own label.
A plotted slice of a box is the slice asked for on the axis asked for over the extent of the current box, and a plotted histogram counts every cell once in the bins asked for, for arrays and every kind of file, on linear and logarithmic scales.
None of these calls changes the samples, weights or boxes given.""",
["inputs","configurations","histories"],"all samples, weights, grids, true values, labels, boxes, axes, bins",
"Tests never call them.",
[S+"plotting.py"],["SampledDistribution","GriddedProbabilities","print_chain_stats","plot_forest","plot_slice","plot_hist"],[],["stored statistics","printed text","drawn artists"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))

import sys
try:
    import jsonschema
    sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p,sc)
        n=len([x for x in p["statement"].split(". ") if x.strip()])
        if n>3: print("too many sentences",p["id"],n)
except ImportError: pass
