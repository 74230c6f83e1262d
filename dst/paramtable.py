"""The documented user parameters: key -> (type, None allowed, lower, upper, excluded end points).
"npt" stands for the interpolation set size."""

TABLE = {
    'general.rounding_error_constant': ('float', False, 0.0, None, ()),
    'general.safety_step_thresh': ('float', False, 0.0, None, ()),
    'general.check_objfun_for_overflow': ('bool', False, None, None, ()),
    'init.random_initial_directions': ('bool', False, None, None, ()),
    'init.run_in_parallel': ('bool', False, None, None, ()),
    'init.random_directions_make_orthogonal': ('bool', False, None, None, ()),
    'interpolation.precondition': ('bool', False, None, None, ()),
    'interpolation.throw_error_on_nans': ('bool', False, None, None, ()),
    'logging.n_to_print_whole_x_vector': ('int', False, 0, None, ()),
    'logging.save_diagnostic_info': ('bool', False, None, None, ()),
    'logging.save_poisedness': ('bool', False, None, None, ()),
    'logging.save_xk': ('bool', False, None, None, ()),
    'logging.save_rk': ('bool', False, None, None, ()),
    'tr_radius.eta1': ('float', False, 0.0, 1.0, ()),
    'tr_radius.eta2': ('float', False, 0.0, 1.0, ()),
    'tr_radius.gamma_dec': ('float', False, 0.0, 1.0, ()),
    'tr_radius.gamma_inc': ('float', False, 1.0, None, ()),
    'tr_radius.gamma_inc_overline': ('float', False, 1.0, None, ()),
    'tr_radius.alpha1': ('float', False, 0.0, 1.0, (1.0,)),
    'tr_radius.alpha2': ('float', False, 0.0, 1.0, ()),
    'model.abs_tol': ('float', False, 0.0, None, ()),
    'model.rel_tol': ('float', False, 0.0, 1.0, ()),
    'slow.history_for_slow': ('int', False, 1, None, ()),
    'slow.thresh_for_slow': ('float', False, 0, None, ()),
    'slow.max_slow_iters': ('int', False, 0, None, ()),
    'noise.quit_on_noise_level': ('bool', False, None, None, ()),
    'noise.scale_factor_for_quit': ('float', False, 0.0, None, ()),
    'noise.multiplicative_noise_level': ('float', True, 0.0, None, ()),
    'noise.additive_noise_level': ('float', True, 0.0, None, ()),
    'regression.num_extra_steps': ('int', False, 0, None, ()),
    'regression.increase_num_extra_steps_with_restart': ('int', False, 0, None, ()),
    'regression.momentum_extra_steps': ('bool', False, None, None, ()),
    'restarts.use_restarts': ('bool', False, None, None, ()),
    'restarts.max_unsuccessful_restarts': ('int', False, 0, None, ()),
    'restarts.rhoend_scale': ('float', False, 0.0, None, (0.0,)),
    'restarts.use_soft_restarts': ('bool', False, None, None, ()),
    'restarts.soft.num_geom_steps': ('int', False, 0, None, ()),
    'restarts.soft.move_xk': ('bool', False, None, None, ()),
    'restarts.soft.max_fake_successful_steps': ('int', False, 1, None, ()),
    'restarts.hard.use_old_rk': ('bool', False, None, None, ()),
    'restarts.increase_npt': ('bool', False, None, None, ()),
    'restarts.increase_npt_amt': ('int', False, 0, None, ()),
    'restarts.hard.increase_ndirs_initial_amt': ('int', False, 0, None, ()),
    'restarts.max_npt': ('int', False, "npt", None, ()),
    'restarts.auto_detect': ('bool', False, None, None, ()),
    'restarts.auto_detect.history': ('int', False, 1, None, ()),
    'restarts.auto_detect.min_chgJ_slope': ('float', False, 0.0, None, ()),
    'restarts.auto_detect.min_correl': ('float', False, 0.0, 1.0, ()),
    'growing.ndirs_initial': ('int', False, 1, "npt-1", ()),
    'growing.num_new_dirns_each_iter': ('int', False, 0, None, ()),
    'growing.delta_scale_new_dirns': ('float', False, 0.0, None, (0.0,)),
    'growing.do_geom_steps': ('bool', False, None, None, ()),
    'growing.reset_delta': ('bool', False, None, None, ()),
    'growing.reset_rho': ('bool', False, None, None, ()),
    'growing.gamma_dec': ('float', False, 0.0, 1.0, ()),
    'growing.safety.do_safety_step': ('bool', False, None, None, ()),
    'growing.safety.reduce_delta': ('bool', False, None, None, ()),
    'growing.safety.full_geom_step': ('bool', False, None, None, ()),
    'growing.full_rank.use_full_rank_interp': ('bool', False, None, None, ()),
    'growing.full_rank.scale_factor': ('float', True, 0.0, None, ()),
    'growing.full_rank.svd_scale_factor': ('float', True, 0.0, 1.0, ()),
    'growing.full_rank.min_sing_val': ('float', True, 0.0, 1.0, ()),
    'growing.full_rank.svd_max_jac_cond': ('float', True, 1.0, None, ()),
    'growing.perturb_trust_region_step': ('bool', False, None, None, ()),
    'dykstra.d_tol': ('float', False, 0.0, None, ()),
    'dykstra.max_iters': ('int', False, 1, None, ()),
    'matrix_rank.r_tol': ('float', False, 0.0, None, ()),
    'func_tol.criticality_measure': ('float', False, 0.0, 1.0, (0.0,)),
    'func_tol.tr_step': ('float', False, 0.0, 1.0, (1.0,)),
    'func_tol.max_iters': ('int', False, 1, None, ()),
    'sfista.max_iters_scaling': ('float', False, 1.0, None, ()),
}
