"""H01: sessions of calls that share arrays, replayed from histories generated by TLC."""
import sys, pickle, hashlib, importlib
from rec import *
import time; time.sleep = lambda *_: None
import tools21cm as t2c
from tools21cm import const, conv, cosmo as cm, angular_coordinates as ac, helper_functions as hf, smoothing as sm, power_spectrum as ps, topology as tp, superpixels as sp, bubble_stats as bs
from tools21cm import radio_telescope_noise as rn, radio_telescope_layout as rl, radio_telescope_sensitivity as rs
import joblib; joblib.parallel_config(backend="threading", n_jobs=1)
out = Out(sys.argv[1])
t2c.set_verbose(False)
def inputs(ver):
    """the arrays a session shares, version ver; every array is passed as it is to the calls"""
    g = np.random.default_rng([SEED, 77, ver]); n = 8; S = {}
    S["dt"] = g.normal(size=(n, n, n)) * 20 + 15; S["dt2"] = g.normal(size=(n, n, n)) * 10
    S["xi"] = np.clip(g.beta(.3, .3, (n, n, n)), 0, 1); S["rho"] = g.random((n, n, n)) * 4e-31 + 1e-31; S["temp"] = g.random((n, n, n)) * 100 + 3
    S["mask"] = g.random((n, n, n)) < .35; S["imask"] = (g.random((n, n, n)) < .3).astype(int); S["f32"] = (g.normal(size=(n, n, n)) * 5).astype(np.float32)
    S["img"] = g.normal(size=(n, n)); S["cubeF"] = np.asfortranarray(g.normal(size=(n, n, n))); S["odd"] = g.normal(size=(5, 6, 7)); S["vel"] = g.normal(size=(3, n, n, n)) * 300; S["lc"] = g.normal(size=(n, n, 11)) * 10
    S["lcx"] = np.clip(g.random((n, n, 11)), 0, 1); S["zs"] = np.linspace(8., 8.6, 11); S["zs6"] = np.linspace(7.5, 9., 6); S["freqs"] = np.linspace(150., 147., 11); S["kern"] = np.abs(g.random((n, n))); S["kern3"] = np.abs(g.random((n, n, n)))
    S["uv"] = np.round(g.random((n, n)) * 6); S["labels"] = g.integers(0, 5, (n, n, n)); S["lab2"] = g.integers(0, 6, (n, n)); S["vec"] = g.normal(size=30); S["mus"] = g.random(4); S["vars"] = g.random(4); S["sizes"] = g.integers(1, 90, 40)
    S["ks"] = np.linspace(.05, 2, 9); S["pk"] = g.random(9); S["ant"] = g.normal(size=(6, 3)) * 300; S["win"] = np.hanning(n + 2)[1:-1]; S["idx"] = np.linspace(0, 7, 5); S["bins"] = np.linspace(.1, 1.5, 7)
    S["xi4"] = np.clip(g.random((6, 6, 6)), 0, 1); S["series"] = [np.full((4, 4, 4), float(v)) for v in g.random(4)]; S["mass"] = g.random(5) * 1e11 + 1e9; S["uvbox"] = np.round(g.random((n, n, 11)) * 4)
    S["boxd"] = [120., 120., 120.]; S["cubes"] = {8.0: g.normal(size=(4, 4, 4)), 8.2: g.normal(size=(4, 4, 4)), 8.5: g.normal(size=(4, 4, 4))}; S["uvd"] = {"%.3f" % z: np.round(g.random((n, n)) * 5) for z in S["zs"]}
    S["sefd"] = np.array([1000., 2500., 4000.]); S["nud"] = np.array([50., 150., 300.]); S["pts"] = g.integers(0, 8, (30, 3)); S["noise"] = g.normal(size=(n, n)) + 1j * g.normal(size=(n, n))
    return S
T = []
def f(name, fn, explicit=None, rand=False): T.append((name, fn, explicit, rand))
LB = lambda: conv.LB
# power spectra
f("power_spectrum_nd", lambda S: t2c.power_spectrum_nd(S["dt"]), lambda S: t2c.power_spectrum_nd(S["dt"], box_dims=LB()))
f("power_spectrum_1d", lambda S: t2c.power_spectrum_1d(S["dt"], kbins=4), lambda S: t2c.power_spectrum_1d(S["dt"], kbins=4, box_dims=LB()))
f("power_spectrum_1d_lin", lambda S: t2c.power_spectrum_1d(S["dt"], kbins=S["bins"], box_dims=120., return_n_modes=True))
f("power_spectrum_1d_win", lambda S: t2c.power_spectrum_1d(S["f32"], kbins=4, box_dims=S["boxd"], binning="linear", window=S["win"]))
f("cross_power_spectrum_1d", lambda S: t2c.cross_power_spectrum_1d(S["dt"], S["dt2"], kbins=4, return_n_modes=True), lambda S: t2c.cross_power_spectrum_1d(S["dt"], S["dt2"], kbins=4, return_n_modes=True, box_dims=LB()))
f("cross_power_spectrum_nd", lambda S: t2c.cross_power_spectrum_nd(S["dt"], S["dt"], 100.))
f("power_spectrum_mu", lambda S: t2c.power_spectrum_mu(S["dt"], los_axis=1, mubins=3, kbins=3), lambda S: t2c.power_spectrum_mu(S["dt"], los_axis=1, mubins=3, kbins=3, box_dims=LB()))
f("cross_power_spectrum_mu", lambda S: t2c.cross_power_spectrum_mu(S["dt"], S["dt2"], mubins=3, kbins=3, return_n_modes=True), lambda S: t2c.cross_power_spectrum_mu(S["dt"], S["dt2"], mubins=3, kbins=3, return_n_modes=True, box_dims=LB()))
f("power_spectrum_2d", lambda S: t2c.power_spectrum_2d(S["dt"], kbins=3))
f("multipoles", lambda S: t2c.power_spectrum_multipoles(S["dt"], kbins=3), lambda S: t2c.power_spectrum_multipoles(S["dt"], kbins=3, box_dims=LB()))
f("anisotropy_ratio", lambda S: t2c.anisotropy_ratio_r_mu(S["dt"], mubins=4, kbins=3), lambda S: t2c.anisotropy_ratio_r_mu(S["dt"], mubins=4, kbins=3, box_dims=LB()))
f("dimensionless_ps", lambda S: t2c.dimensionless_ps(S["dt"], kbins=4, box_dims=S["boxd"]))
f("radial_average", lambda S: t2c.radial_average(S["kern3"], S["boxd"], kbins=4))
f("mu_binning", lambda S: t2c.mu_binning(S["kern3"], mubins=3, kbins=S["bins"], box_dims=S["boxd"]))
f("mu_binning_weights", lambda S: t2c.mu_binning(S["kern3"], mubins=3, kbins=3, weights=S["rho"], box_dims=S["boxd"]))
f("apply_window", lambda S: t2c.apply_window(S["dt"], "blackmanharris"))
f("get_k", lambda S: t2c.get_k(S["dt"], S["boxd"]))
f("get_kbins", lambda S: t2c.get_kbins(4, S["boxd"], array=S["dt"]))





f("integrated_bispectrum", lambda S: t2c.integrated_bispectrum(S["dt"], Ncuts=2, kbins=2, verbose=False))
f("integrated_bispectrum_cross", lambda S: t2c.integrated_bispectrum_cross(S["dt"], S["dt2"], Ncuts=2, kbins=2, verbose=False))
f("power_spectrum_response", lambda S: t2c.power_spectrum_response(S["dt"], Ncuts=2, kbins=2, verbose=False))
# smoothing
f("smooth_gauss", lambda S: t2c.smooth_gauss(S["img"], fwhm=2.)); f("smooth_tophat", lambda S: t2c.smooth_tophat(S["img"], 3)); f("smooth_lanczos", lambda S: t2c.smooth_lanczos(S["img"], 3))
f("smooth_with_kernel", lambda S: t2c.smooth_with_kernel(S["img"], S["kern"])); f("smooth_line", lambda S: t2c.smooth_line(S["vec"], 5))
f("gauss_kernel", lambda S: t2c.gauss_kernel(8, fwhm=3.)); f("tophat_kernel", lambda S: t2c.tophat_kernel(8, 3)); f("tophat_kernel_3d", lambda S: t2c.tophat_kernel_3d(8, 3)); f("lanczos_kernel", lambda S: t2c.lanczos_kernel(8, 3)); f("get_beam_w", lambda S: t2c.get_beam_w(200., 8.))
f("smooth_coeval", lambda S: t2c.smooth_coeval(S["dt"], 8., verbose=False), lambda S: t2c.smooth_coeval(S["dt"], 8., box_size_mpc=LB(), verbose=False)); f("smooth_coeval_gauss", lambda S: t2c.smooth_coeval_gauss(S["f32"], 2., 1)); f("smooth_coeval_tophat", lambda S: t2c.smooth_coeval_tophat(S["dt"], 3, 0, verbose=False))
f("smooth_lightcone", lambda S: t2c.smooth_lightcone(S["lc"], S["zs"], verbose=False), lambda S: t2c.smooth_lightcone(S["lc"], S["zs"], box_size_mpc=LB(), verbose=False)); f("smooth_lightcone_gauss", lambda S: t2c.smooth_lightcone_gauss(S["lc"], np.full(11, 2.)))
f("smooth_lightcone_decreasing", lambda S: t2c.smooth_lightcone(S["lc"], S["zs"][::-1], box_size_mpc=90., verbose=False)); f("smooth_lightcone_tophat", lambda S: t2c.smooth_lightcone_tophat(S["lc"], S["zs"], np.full(11, .1), verbose=False))
f("interpolate2d", lambda S: t2c.interpolate2d(S["img"], S["idx"], S["idx"], order=1)); f("interpolate3d", lambda S: t2c.interpolate3d(S["dt"], S["idx"], S["idx"], S["idx"], order=2))
f("convolve_uvmap", lambda S: t2c.convolve_uvmap(S["img"], uv_map=S["uv"], verbose=False)); f("convolve_uvmap_coeval", lambda S: t2c.convolve_uvmap_coeval(S["dt"], 8., box_size_mpc=200., uv_map=S["uv"], verbose=False)); f("remove_baselines", lambda S: t2c.remove_baselines_from_uvmap(S["uv"], 8., max_baseline=.4, box_size_mpc=200.))
f("smooth_lightcone_uv_threshold", lambda S: t2c.smooth_lightcone_uv_threshold(S["lc"], S["uvbox"], threshold=1.)); f("beam_convolve", lambda S: t2c.beam_convolve(S["img"], 8., 200., max_baseline=300.)); f("smooth_gauss_3d", lambda S: t2c.smooth_gauss_3d(S["dt"], 2.))
# temperature
f("calc_dt", lambda S: t2c.calc_dt(S["xi"], S["rho"], 8.)); f("calc_dt_full", lambda S: t2c.calc_dt_full(S["xi"], S["rho"], S["temp"], 8.)); f("calc_dt_full_raw", lambda S: t2c.calc_dt_full(S["xi"], S["rho"], S["temp"], 8., correct=False)); f("calc_dt_lightcone", lambda S: t2c.calc_dt_lightcone(S["lcx"], S["lcx"] + 1., 7.))
f("calc_dt_full_lightcone", lambda S: t2c.calc_dt_full_lightcone(S["lcx"], S["lcx"] * 50 + 5, S["lcx"] + 1., 7.)); f("mean_dt", lambda S: t2c.mean_dt(S["zs"])); f("tau", lambda S: t2c.tau(np.linspace(1, 0, 6), S["zs6"])); f("tau_map", lambda S: t2c.tau_map(S["lcx"], S["zs"]))
# statistics
f("subtract_mean_signal", lambda S: t2c.subtract_mean_signal(S["lc"], 2)); f("subtract_mean_signal0", lambda S: t2c.subtract_mean_signal(S["dt"], 0)); f("signal_overdensity", lambda S: t2c.signal_overdensity(S["kern3"], 1)); f("apply_func_along_los", lambda S: t2c.apply_func_along_los(S["dt"], np.std, 2))
f("skewness", lambda S: t2c.skewness(S["dt"])); f("kurtosis", lambda S: t2c.kurtosis(S["dt"])); f("mass_weighted", lambda S: t2c.mass_weighted_mean_xi(S["xi"], S["rho"])); f("combined", lambda S: hf.combined_mean_variance(S["mus"], S["vars"], np.array([3, 4, 5, 6])))
f("apply_operator", lambda S: t2c.apply_operator_labelled_data(S["dt"], S["labels"], operator=np.mean, verbose=False)); f("superpixel_map", lambda S: t2c.superpixel_map(S["dt"], S["labels"], verbose=False)); f("superpixel_means", lambda S: sp.get_superpixel_means(S["dt"], S["labels"], verbose=False)); f("superpixel_sigmas", lambda S: sp.get_superpixel_sigmas(S["dt"], S["labels"], verbose=False))
f("binary_stitch", lambda S: t2c.binary_stitch(S["dt"], S["labels"], thres=10.)); f("see_label", lambda S: t2c.see_label(S["labels"], 2))
# regions and bubbles
f("fixed_threshold", lambda S: t2c.bubbles_from_fixed_threshold(S["dt"], 12.)); f("kmeans2", lambda S: t2c.threshold_kmeans(S["dt"]), rand=True); f("kmeans3", lambda S: t2c.threshold_kmeans_3cluster(S["dt"]), rand=True); f("triangle2D", lambda S: t2c.bubbles_from_triangle2D(S["dt"], nbins=32)); f("triangle3D", lambda S: t2c.bubbles_from_triangle3D(S["dt"], nbins=32))
f("fof", lambda S: t2c.fof(S["xi"])); f("FoF_search", lambda S: t2c.FoF_search(S["xi"], .5)); f("dist_from_volumes", lambda S: t2c.dist_from_volumes(S["sizes"], bins=6)); f("granulometry", lambda S: t2c.granulometry_CDF(S["mask"], sizes=np.arange(4), verbose=False))
f("spa", lambda S: t2c.spa(S["xi"], boxsize=50., nscales=4, verbose=False)); f("mfp", lambda S: t2c.mfp(S["xi"], boxsize=50., iterations=300, verbose=False, bins=5), rand=True); f("mfp_point", lambda S: t2c.mfp_from_point(S["mask"] * 1., [3, 3, 3], boxsize=50., iterations=200, verbose=False, bins=5), rand=True)
f("h_transform", lambda S: t2c.h_transform(S["kern3"], .2, verbose=False)); f("disk_structure", lambda S: bs.disk_structure(2)); f("rebin_bsd", lambda S: t2c.rebin_bsd(S["ks"], S["pk"], bins=4)); f("plot_fof_sizes", lambda S: t2c.plot_fof_sizes(S["sizes"], bins=6), lambda S: t2c.plot_fof_sizes(S["sizes"], bins=6, boxsize=LB()), rand=True)
f("Euler", lambda S: t2c.EulerCharacteristic(S["xi"], verbose=False)); f("betti0", lambda S: t2c.betti0(S["xi"])); f("betti1", lambda S: t2c.betti1(S["xi"], verbose=False)); f("betti2", lambda S: t2c.betti2(S["xi"])); f("Euler26", lambda S: t2c.EulerCharacteristic(S["imask"], neighbors=26, verbose=False))
f("percolation", lambda S: t2c.find_percolation_cluster(S["xi"])); f("box_count", lambda S: t2c.box_count_sliding(S["kern3"], 3, 2)); f("bubble_model", lambda S: t2c.spherical_bubble_model(10, .2, r=3), rand=True)
# random fields
f("grf", lambda S: t2c.make_gaussian_random_field([6, 6, 6], 50., lambda k: k ** -1.5), rand=True); f("grf_seeded", lambda S: t2c.make_gaussian_random_field([6, 6], 50., lambda k: k ** -1.5, random_seed=4)); f("grf_like", lambda S: t2c.make_gaussian_random_field_like_field(S["dt"], 50., kbins=4), rand=True); f("phase_shuffled", lambda S: t2c.fourier_phase_shuffled(S["dt"]), rand=True); f("amp_phase", lambda S: hf.real_to_fourier_amplitude_phase(S["dt"]))
# lightcones
f("make_lightcone", lambda S: t2c.make_lightcone(S["cubes"]), lambda S: t2c.make_lightcone(S["cubes"], box_length_mpc=LB())); f("make_lightcone_step", lambda S: t2c.make_lightcone(S["cubes"], interpolation="step", box_length_mpc=60.)); f("make_lightcone_cell", lambda S: t2c.make_lightcone(S["cubes"], interpolation="step_cell", box_length_mpc=60.), rand=True)
f("subvolume", lambda S: t2c.get_lightcone_subvolume(S["lc"], S["zs"], 8.3, depth_mpc=30., fov_Mpc=50., verbose=False)); f("z_cdist", lambda S: t2c.redshifts_at_equal_comoving_distance(8., 8.3, 40), lambda S: t2c.redshifts_at_equal_comoving_distance(8., 8.3, 40, box_length_mpc=LB())); f("z_freq", lambda S: t2c.redshifts_at_equal_frequncy_width(8., 8.5, 1.))
f("phys_to_obs", lambda S: t2c.physical_lightcone_to_observational(S["lc"], S["zs"], 3., 12., verbose=False), lambda S: t2c.physical_lightcone_to_observational(S["lc"], S["zs"], 3., 12., input_box_size_mpc=LB(), verbose=False)); f("obs_to_phys", lambda S: t2c.observational_lightcone_to_physical(S["lc"], S["freqs"], 2., verbose=False)); f("padding", lambda S: t2c.padding_lightcone(S["lc"], 2, verbose=False)); f("bin_freq", lambda S: ac.bin_lightcone_in_frequency(S["lc"], 8., 100., 2.)); f("bin_mpc", lambda S: ac.bin_lightcone_in_mpc(S["lc"], S["freqs"], 11.))
f("distorted", lambda S: t2c.get_distorted_dt(S["dt"], S["vel"], 8., num_particles=4)); f("distorted_z", lambda S: t2c.get_distorted_dt(S["dt2"], S["vel"], S["zs"][:8], los_axis=2, velocity_axis=2, num_particles=3))
# cosmology
f("cosmology", lambda S: [cm.z_to_cdist(S["zs"]), cm.cdist_to_z(9000.), cm.luminosity_distance(S["zs"]), cm.angular_size(100., 8.), cm.angular_size_comoving(10., 8.), cm.deg_to_cdist(1., 8.), cm.nu_to_cdist(S["freqs"]), cm.hubble_parameter(8.), cm.z_to_age(8.), cm.c_to_p(3., S["zs"]), cm.p_to_c(3., 8.)])
f("units", lambda S: [conv.gridpos_to_mpc(S["vec"]), conv.gridvel_to_kms(S["vec"], 8.), conv.gridmass_to_msol(S["mass"]), const.Hz(8.), cm.M_to_Tvir(S["mass"], 8.), cm.Tvir_to_M(S["temp"][0, 0], 8.)])
f("wavelengths", lambda S: [cm.nu_to_z(S["freqs"]), cm.z_to_nu(S["zs"]), cm.nu_to_wavel(S["freqs"])])
# interferometer
f("uv_map", lambda S: t2c.get_uv_daily_observation(8, 8., antxyz=S["ant"], total_int_time=1., int_time=600., verbose=False), lambda S: t2c.get_uv_daily_observation(8, 8., antxyz=S["ant"], total_int_time=1., int_time=600., boxsize=LB(), verbose=False)); f("from_antenna", lambda S: t2c.from_antenna_config(S["ant"], 8.)); f("rotation", lambda S: rl.earth_rotation_effect(S["ant"], 3, 100., 4.)); f("grid_uv", lambda S: t2c.grid_uv_tracks(S["ant"], 8., 8, boxsize=300.)); f("baselines", lambda S: t2c.antenna_positions_to_baselines(S["ant"]))
f("geo", lambda S: t2c.geographic_to_cartesian_coordinate_system(np.abs(S["ant"]) / 10)); f("enu", lambda S: t2c.enu_to_ecef(S["ant"], -26., 116., np.array([0., 0., 0.]))); f("ecef", lambda S: t2c.ecef_to_xyz(S["ant"], 116., np.array([1., 2., 3.])))
f("apply_uv", lambda S: t2c.apply_uv_response_on_image(S["img"], S["uv"])); f("apply_uv_noise", lambda S: t2c.apply_uv_response_noise(S["noise"], S["uv"])); f("apply_uv_briggs", lambda S: t2c.apply_uv_response_noise_briggs(S["noise"], S["uv"], robust=0.)); f("apply_uv_coeval", lambda S: t2c.apply_uv_response_on_coeval(S["dt"], 8., uv_map=S["uv"])); f("jansky", lambda S: t2c.jansky_2_kelvin(S["img"], 8., ncells=8), lambda S: t2c.jansky_2_kelvin(S["img"], 8., ncells=8, boxsize=LB())); f("kelvin", lambda S: t2c.kelvin_2_jansky(S["dt"], 8.), lambda S: t2c.kelvin_2_jansky(S["dt"], 8., boxsize=LB()))
f("sefd", lambda S: t2c.get_SEFD(S["freqs"])); f("sefd_table", lambda S: t2c.get_SEFD(150., sefd_data=S["sefd"], nu_data=S["nud"])); f("sigma_noise", lambda S: t2c.sigma_noise_radio(8., .1, 1000., 10., uv_map=S["uv"], verbose=False)); f("signal_window", lambda S: t2c.signal_window(8, "blackmanharris"))
f("noise_map", lambda S: t2c.noise_map(8, 8., .1, uv_map=S["uv"], N_ant=6, boxsize=200., verbose=False), rand=True); f("noise_coeval", lambda S: t2c.noise_cube_coeval(8, 8., depth_mhz=.1, uv_map=S["uv"], N_ant=6, verbose=False), lambda S: t2c.noise_cube_coeval(8, 8., depth_mhz=.1, uv_map=S["uv"], N_ant=6, verbose=False, boxsize=LB()), rand=True); f("noise_lightcone", lambda S: t2c.noise_lightcone(8, S["zs"], boxsize=200., save_uvmap=uvfile(S), verbose=False, n_jobs=1), rand=True)
f("noise_ps", lambda S: t2c.noise_coeval_power_spectrum_1d(8, 8., .1, kbins=3, boxsize=200., uv_map=S["uv"], N_ant=6), rand=True)
f("primary_beam", lambda S: t2c.primary_beam(S["dt"], 8., boxsize=300., verbose=False)); f("circular_beam", lambda S: t2c.circular_beam(8, 8., boxsize=400.)); f("galactic", lambda S: t2c.galactic_synch_fg(8., 8, 200., rseed=3)); f("galactic_r", lambda S: t2c.galactic_synch_fg(S["zs6"], 6, 200.), rand=True)

# small helpers
f("find_idx", lambda S: hf.find_idx(S["zs"], np.array([8.1, 8.33, 9.]))); f("interpolated", lambda S: hf.get_interpolated_array(S["vec"], 11, kind="linear")); f("slic", lambda S: t2c.slic_cube(S["kern3"], n_segments=8, verbose=False)); f("stitch", lambda S: t2c.stitch_superpixels(S["dt"], S["labels"], bins=10, verbose=False))
f("multi", lambda S: t2c.power_spectrum_2d(S["odd"], kbins=[3, 3], box_dims=[50., 60., 70.], binning="linear")); f("voigt", lambda S: t2c.approximation_voigt_faddeeva(S["vec"], .1))
f("halo_number", lambda S: t2c.particle_number_to_particle_mass(100., particle_total=64 ** 3)); f("calc_dt_halo", lambda S: t2c.calc_dt_halo(S["kern3"] * 1e9, 100., 8.))
# correlation functions, more bubble statistics, Lyman alpha, line intensities, magnitudes
from tools21cm import astro_tools as at, line_intensity as li, lyman_alpha_transmission as la, corr_function as cf, foreground_model as fg, radio_telescope_calibration as rc, power_spect_fast as pf
import astropy.units as un
f("corr", lambda S: t2c.correlation_function(S["dt"], rbins=4, kbins=4), lambda S: t2c.correlation_function(S["dt"], rbins=4, kbins=4, box_dims=LB())); f("xcorr", lambda S: t2c.cross_correlation_function(S["dt"], S["f32"], rbins=4, kbins=4, box_dims=120.))
f("ps_to_corr", lambda S: cf.ps_to_corr(S["pk"], S["ks"], rbins=3, box_dims=100., n_grid=8)); f("landy", lambda S: cf.landy_szalay_estimator(S["pts"], randoms=S["pts"][::-1] + .5, rbins=3, box_dims=50.))
f("bispectrum", lambda S: t2c.Bispectrum(S["odd"][:5, :5, :5], verbose=False).bispectrum_k(dk=.2, n_bins=3, verbose=False), lambda S: t2c.Bispectrum(S["odd"][:5, :5, :5], verbose=False).bispectrum_k(dk=.2, n_bins=3, box_dims=LB(), verbose=False))
f("averaged_mfp", lambda S: bs.averaged_mfp(S["xi"], boxsize=50., iterations=40, rays_per_point=5, verbose=False, n_jobs=1), rand=True)
f("granulometry_bsd", lambda S: bs.granulometry_bsd(S["xi"], boxsize=50., verbose=False, n_jobs=1)); f("watershed_bsd", lambda S: bs.watershed_bsd(S["xi4"], boxsize=50., verbose=False)); f("spa_np", lambda S: t2c.spa_np.spa_np(S["xi"], nscales=3, verbose=False) if hasattr(t2c.spa_np, "spa_np") else t2c.spa_np(S["xi"], nscales=3, verbose=False))
f("distribution", lambda S: bs.get_distribution(S["sizes"], bins=5, sizes=True)); f("slic_bubbles", lambda S: t2c.bubbles_from_slic(S["kern3"], n_segments=8, bins=6, verbose=False)); f("kmeans", lambda S: t2c.bubbles_from_kmeans(S["dt"]), rand=True)
f("stitch", lambda S: sp.stitch_using_histogram(S["kern3"], sp.get_superpixel_means(S["kern3"], S["labels"], verbose=False), S["labels"], bins=6, verbose=False)); f("n_pixels", lambda S: sp.get_superpixel_n_pixels(S["dt"], S["labels"], verbose=False)); f("snrs", lambda S: sp.get_superpixel_SNRs(data=S["dt"], labels=S["labels"]))
f("pixels", lambda S: sp.get_superpixel_pixels(S["dt"], S["labels"], verbose=False)); f("mean_estimate", lambda S: sp.mean_estimate(S["dt"], means=S["mus"], sigmas=S["vars"], n_pix=S["sizes"][:4])); f("combined_std", lambda S: sp.get_combined_mean_std(S["mus"], S["vars"], S["sizes"][:4]))
f("under_seg", lambda S: sp.under_segmentation_error(S["labels"], S["imask"], verbose=False)); f("boundaries", lambda S: sp.boundaries(S["img"], S["lab2"])); f("mass_volume", lambda S: [sp.xfrac_mass_estimate(S["dt"], 8.), sp.xfrac_volume_estimate(S["mask"])])
f("mags", lambda S: [at.mag_to_flux(S["mus"]), at.Muv_to_muv(S["mus"] - 20, 7.), at.muv_to_Muv(S["mus"] + 25, 7.), at.Muv_to_L1500(S["mus"] - 20), at.FoV_cMpc2(1., 7.)])
f("HI_grid", lambda S: li.M_HI_on_grid(7., S["mass"], S["pts"][:5].astype(float), 8., 4)); f("CII_grid", lambda S: li.L_CII_on_grid(7., S["mass"], S["pts"][:5].astype(float), 8., 4))
f("lya_sigma", lambda S: la.lyA_scattering_cross_section(S["mus"] * 1e12 + 2.46e15, 1e4 * un.K)); f("lya_gunn", lambda S: la.tau_nu_lyA_FGPA(6., S["xi"] * 1e-4, S["rho"] * 1e30)); f("lya_path", lambda S: la.tau_nu_lyA(6., S["xi"] * 1e-6, S["temp"] * un.K, .1 * un.Mpc))
f("lya_gunn_raw", lambda S: la.tau_nu_lyA_FGPA(6., S["xi"], S["kern3"])); f("lya_path_raw", lambda S: la.tau_nu_lyA(6., S["xi"], S["temp"], .1)); f("lya_los", lambda S: la.tau_nu_lyA_los(6., S["xi"], S["kern3"], los_len=3), lambda S: la.tau_nu_lyA_los(6., S["xi"], S["kern3"], los_len=3, box_len=200. / .6766 * un.Mpc))
f("pointsources", lambda S: fg.extragalactic_pointsource_fg(8., 8, 200., rseed=4)); f("diabolo", lambda S: fg.diabolo_filter(8., array=S["dt"]), lambda S: fg.diabolo_filter(8., array=S["dt"], boxsize=LB())); f("barrel", lambda S: fg.barrel_filter(8., array=S["dt"]), lambda S: fg.barrel_filter(8., array=S["dt"], boxsize=LB()))
f("wedge_image", lambda S: fg.remove_wedge_image(S["dt"], 8.)); f("wedge_given", lambda S: fg.remove_wedge_image(S["dt"], 8., filt=S["kern3"]))
f("fast_nd", lambda S: pf.power_spect_nd(S["dt"], 100., verbose=False)); f("fast_1d", lambda S: pf.power_spect_1d(S["dt"], kbins=4, box_dims=100., return_modes=True)); f("fast_2d", lambda S: pf.power_spect_2d(S["dt"], kbins=3, box_dims=100.)); f("fast_mu", lambda S: pf.power_spect_mu(S["dt"], kbins=3, mubins=3, box_dims=100.)); f("fast_dim", lambda S: pf.dimensional_power(S["f32"], kbins=4, box_dims=100.)); f("horizon", lambda S: pf.horizon_wedge_equation(8.))
f("beam_null", lambda S: importlib.import_module("tools21cm.primary_beam").primary_beam_null(8.)); f("jansky", lambda S: rs.kelvin_jansky_conversion(8, 8.), lambda S: rs.kelvin_jansky_conversion(8, 8., boxsize=LB()))
f("gain_ant", lambda S: rc.from_antenna_config_with_gains(S["ant"], 8.), rand=True); f("stamp_ant", lambda S: rc.from_antenna_config_with_antenna_stamp(S["ant"], 8.)); f("geo_back", lambda S: rl.cartesian_to_geographic_coordinate_system(S["ant"] * 1e4 + 3e6))
f("uv_map_old", lambda S: rn.get_uv_map(8, 8., subarray_type=S["ant"], total_int_time=1., int_time=600., verbose=False), lambda S: rn.get_uv_map(8, 8., subarray_type=S["ant"], total_int_time=1., int_time=600., boxsize=LB(), verbose=False)); f("subarray", lambda S: rl.subarray_type_to_antxyz(S["ant"], verbose=False))
f("slice_angular", lambda S: ac.physical_slice_to_angular(S["img"], 8., 100., .6, 5.)); f("slice_physical", lambda S: ac.angular_slice_to_physical(S["img"], 8., .6, 15., 90.)); f("resample", lambda S: ac.resample_slice(S["img"], 5, order=1))
f("vel_lightcone", lambda S: t2c.make_velocity_lightcone({z: S["vel"] * z for z in (8., 8.3)}, {8.: S["rho"], 8.3: S["rho"]}, z_high=8.2))
NAMES = [t[0] for t in T]
def uvfile(S):
    p = os.path.join(SCRATCH, "h01uv-%s.pkl" % hashlib.md5(pickle.dumps(S["uvd"])).hexdigest()[:12])
    if not os.path.exists(p): pickle.dump(S["uvd"], open(p + ".tmp%d" % os.getpid(), "wb")); os.replace(p + ".tmp%d" % os.getpid(), p)
    return p
def leaves(r):
    if r is None: return [("none", np.zeros(0))]
    if isinstance(r, dict): return [x for k in sorted(r, key=str) for x in leaves(r[k])]
    if isinstance(r, (list, tuple)) and not all(np.isscalar(x) for x in r): return [x for y in r for x in leaves(y)]
    if hasattr(r, "value") and hasattr(r, "unit"): r = r.value
    a = np.asarray(r)
    if a.dtype.kind == "c": return [(str(a.shape), np.concatenate([a.real.ravel(), a.imag.ravel()]))]
    if a.dtype.kind not in "biuf": return [("other:" + str(type(r).__name__), np.zeros(0))]
    return [(str(a.shape), a.astype(float).ravel())]
def digest(r):
    """shape and values; long results by a sample and sums that every value enters"""
    sh, v = [], []
    for s, a in leaves(r):
        sh.append(s)
        if a.size <= 24: v += list(a)
        else:
            w = np.sin(np.arange(1, a.size + 1) * 1.7) + 2; b = a[np.isfinite(a)]
            v += list(a[:: max(1, a.size // 12)][:12]) + [float(np.sum(np.abs(b))), float(np.sum(w[np.isfinite(a)] * b)), float(b.size)]
    return sh, [num(float(x)) for x in v]
def arrays(r):
    if isinstance(r, np.ndarray): yield r
    elif isinstance(r, (list, tuple)):
        for x in r: yield from arrays(x)
    elif isinstance(r, dict):
        for x in r.values(): yield from arrays(x)
def mark(S):
    h = hashlib.md5()
    for k in sorted(S):
        for a in ([S[k]] if isinstance(S[k], np.ndarray) else list(S[k].values()) if isinstance(S[k], dict) else S[k]):
            a = np.asarray(a); h.update(k.encode() + str((a.shape, a.dtype, a.flags.f_contiguous)).encode() + a.tobytes())
    return h.hexdigest()
def refill(S, P):
    """write the contents of P into the arrays of S (the same objects)"""
    for k in S:
        if isinstance(S[k], np.ndarray): np.copyto(S[k], P[k])
        elif isinstance(S[k], dict):
            for n in S[k]: np.copyto(S[k][n], P[k][n])
        else:
            for i in range(len(S[k])):
                if isinstance(S[k][i], np.ndarray): np.copyto(S[k][i], P[k][i])
                else: S[k][i] = P[k][i]
def setcfg(name, v):
    if name == "h": t2c.set_hubble_h(v / 1000.)
    elif name == "om": t2c.set_omega_matter(v / 1000.)
    else: conv.set_sim_constants(v)
def forked(fn):
    """run fn in a child of this process and return what it returns"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r); b = pickle.dumps(fn())
            with os.fdopen(w, "wb") as p: p.write(b)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p: b = p.read()
    os.waitpid(pid, 0); return pickle.loads(b) if b else None
CFG0 = dict(h=700, om=270, box=244, boxh=700, boxom=270)
def fresh(i, cfg, ver, seed):
    def go():
        if (cfg["boxh"], cfg["boxom"], cfg["box"]) != (700, 270, 244): setcfg("h", cfg["boxh"]); setcfg("om", cfg["boxom"]); setcfg("box", cfg["box"])
        if cfg["h"] != cfg["boxh"]: setcfg("h", cfg["h"])
        if cfg["om"] != cfg["boxom"]: setcfg("om", cfg["om"])
        if T[i][3]: np.random.seed(seed)
        r, exc = call(T[i][1], inputs(ver)); sh, v = ([], []) if exc else digest(r); return sh, v, exc
    return forked(go)
REF = {}
def reference(i, cfg, ver, seed):
    k = (i, tuple(sorted(cfg.items())), ver, seed if T[i][3] else 0)
    if k not in REF: REF[k] = fresh(i, cfg, ver, seed) or ([], [], "Died")
    return REF[k]
def plan(hist):
    """the calls of a history with the constants and version they meet"""
    cfg = dict(CFG0); ver = 0; steps = []
    for e in hist:
        if e["op"] == "set":
            if e["name"] == "box": cfg = dict(cfg, box=e["v"], boxh=cfg["h"], boxom=cfg["om"])
            else: cfg = dict(cfg, **{e["name"]: e["v"]})
        if e["op"] == "write": ver = e["ver"]
        if e["op"] == "call": e = dict(e, f=e["f"] % len(T))
        steps.append((e, cfg, ver))
    return steps
def session(steps):
    def go():
        S = inputs(0); E = []; last = None; cur = inputs(0)
        for e, cfg, ver in steps:
            if e["op"] == "set": setcfg(e["name"], e["v"]); E.append(dict(op="set", name=e["name"], v=e["v"]))
            elif e["op"] == "write": cur = inputs(e["ver"]); refill(S, cur); E.append(dict(op="write", ver=e["ver"]))
            elif e["op"] == "scribble":
                for a in arrays(last):
                    if a.flags.writeable and a.dtype.kind in "biufc": a.view(np.ndarray)[...] = 1 if a.dtype.kind == "b" else 77
                refill(S, cur); E.append(dict(op="scribble"))
            else:
                name, fn, expl, rand = T[e["f"]]; m = mark(S)
                if rand: np.random.seed(e["seed"])
                r, exc = call(fn, S); same = mark(S) == m; sh, v = ([], []) if exc else digest(r); last = r; d = ([], [])
                if expl is not None and not exc:
                    if rand: np.random.seed(e["seed"])
                    x, xe = call(expl, S); d = digest(x) if not xe else (["failed"], [])
                if not same: refill(S, cur)
                E.append(dict(op="call", f=e["f"], name=name, seed=e["seed"] if rand else 0, cfg=cfg, ver=ver, exc=exc, same=same, rshape=sh, r=v, hasdef=expl is not None, defshape=d[0], **{"def": d[1]}))
        return E
    return forked(go)
hists = json.load(open(os.path.join(SCRATCH, "history.json")))
# every function twice with others in between, so that each is covered whatever was generated
order = [list(range(len(T))), list(range(len(T)))[::-1]]
for p, o in enumerate(order):
    for a in range(0, len(o), 20):
        c = o[a:a + 20]; h = [dict(op="call", f=i, seed=1) for i in c] + [dict(op="scribble"), dict(op="set", name="box", v=37)] + [dict(op="call", f=i, seed=1) for i in c[::3]] + [dict(op="set", name="box", v=244)] + [dict(op="call", f=i, seed=1) for i in c]
        hists.append(h)
for n, h in enumerate(hists):
    st = plan(h); E = session(st)
    if E is None: E = [dict(op="call", f=0, name="", seed=0, cfg=CFG0, ver=0, exc="Died", same=True, rshape=[], r=[], hasdef=False, defshape=[], **{"def": []})]
    for e in E:
        if e["op"] == "call": e["refshape"], e["ref"], e["refexc"] = reference(e["f"], e["cfg"], e["ver"], e["seed"])
    out.session("history-%d" % n, E)
import glob
for p in glob.glob(os.path.join(SCRATCH, "h01uv-*")): os.remove(p)
out.close()
