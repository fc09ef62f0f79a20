"""Checks that the framework can load every module of /repo's working tree."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import mon                                                      # noqa: E402
import py2load                                                  # noqa: E402

mon.quiet()
py2load.install()
import gen                                                      # noqa: E402

os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
for m in ["core.spectra", "core.config", "core.parameter", "core.smear",
          "core.shift", "core.scale", "fit.fit", "fit.minimise",
          "fit.test_statistic", "fit.fit_results", "limit.limit",
          "output.store", "core.fill_spectrum", "core.dsextract",
          "calc.decay"]:
    try:
        gen.E(m)
    except Exception as e:      # the checks report it, not the set-up
        print("could not load %s: %s" % (m, e))
print("ready")
