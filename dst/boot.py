"""Import order matters: patch the seams, then import the library."""
import os
import sys
import warnings


def boot():
    from . import core
    core.install_clock()
    warnings.simplefilter('ignore')
    import geopandas, libpysal, networkx, numpy, pulp  # noqa
    import sklearn.metrics.pairwise                    # noqa
    import scipy.sparse.csgraph, scipy.optimize        # noqa
    import libpysal.io                                 # noqa
    # never trust a cached .pyc of the code under test
    sys.pycache_prefix = os.path.join(
        os.environ.get('TMPDIR', '/tmp'), 'no-pyc')
    import region                                      # noqa
    root = os.path.realpath(core.REPO)
    if not os.path.realpath(region.__file__).startswith(root + os.sep):
        raise core.HarnessError('region imported from ' + region.__file__)
    import region.p_regions.azp                        # noqa
    import region.p_regions.exact                      # noqa
    import region.max_p_regions.heuristics             # noqa
    import region.max_p_regions.exact                  # noqa
    import region.skater.skater                        # noqa
    from . import solver
    solver.install()
    core.install_monitoring()
