"""The library under test, imported from /repo behind the seams."""
import sys
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, '/repo')

import active_subspaces  # noqa
from active_subspaces import subspaces, domains, gradients, integrals, optimizers, response_surfaces  # noqa
from active_subspaces.utils import misc, qp_solver, designs, quadrature, simrunners  # noqa
from active_subspaces.utils import response_surfaces as usurf  # noqa
from active_subspaces.subspaces import Subspaces  # noqa
from active_subspaces.domains import (UnboundedActiveVariableDomain, BoundedActiveVariableDomain,  # noqa
                                      UnboundedActiveVariableMap, BoundedActiveVariableMap)
from active_subspaces.response_surfaces import ActiveSubspaceResponseSurface, av_design  # noqa
from active_subspaces.optimizers import (BoundedMinVariableMap, UnboundedMinVariableMap, minimize,  # noqa
                                         av_minimize)
from active_subspaces.utils.response_surfaces import PolynomialApproximation, RadialBasisApproximation  # noqa
from active_subspaces.utils.simrunners import SimulationRunner, SimulationGradientRunner  # noqa
from active_subspaces.utils.qp_solver import QPSolver  # noqa
from active_subspaces.utils.misc import BoundedNormalizer, UnboundedNormalizer  # noqa
from active_subspaces.gradients import local_linear_gradients, finite_difference_gradients  # noqa


# what a user derives from the classes is as good as the classes themselves
class MyRunner(SimulationRunner):
    """A user's runner."""


class MyRadialBasis(RadialBasisApproximation):
    """A user's surface."""


class MyBoundedDomain(BoundedActiveVariableDomain):
    """A user's domain."""


class MyUnboundedDomain(UnboundedActiveVariableDomain):
    """A user's domain."""


class MyBoundedMap(BoundedActiveVariableMap):
    """A user's map."""


class MyUnboundedMap(UnboundedActiveVariableMap):
    """A user's map."""


def runner(fun, kind=True):
    return (MyRunner if kind == 'derived' else SimulationRunner)(fun)
