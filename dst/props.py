"""Registry of the property checks."""
from . import oracle as O
from .base import WorldProp
from .gen import Profile


class C01(WorldProp):
    id = "C01"
    p_sweep = 0.3
    sweep_kinds = ("dip", "dip", "cut", "small")
    profile = Profile(p_bounds=0.97, p_onesided=0.2, p_scaling=0.35, p_reg=0.03, p_faults=0.12, p_npt=0.4, p_growing=0.25,
                      p_restart=0.45, p_nsamples=0.15)

    def check_client(self, c, w, out):
        out.stats["points compared with the bounds"] += len(c.evals) if c.bounds_arg is not None else 0
        return O.check_bounds(c)


class C02(WorldProp):
    id = "C02"
    p_sweep = 0.6
    sweep_kinds = ("cut", "cut", "dipcut", "small", "dipsmall")
    profile = Profile(p_smallbudget=0.45, p_nsamples=0.45, p_restart=0.5, p_noise=0.25, p_faults=0.15, p_reg=0.01, p_sets=0.01,
                      fault_kinds=["nan", "pnan", "inf", "big", "spike", "spike", "mag"], maxfun_cap=250)

    def check_client(self, c, w, out):
        out.stats["log records compared"] += len(c.log_evals)
        return O.check_budget(c)


from . import modelsm, props_hist, props_opt, props_args, props_sub  # noqa: E402

PROPS = {p.id: p for p in [C01(), C02()] + props_hist.ALL + props_opt.ALL + props_args.ALL + props_sub.ALL + modelsm.ALL}
