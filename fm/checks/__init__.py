from .base import CHECKS  # noqa: F401
from . import base, hess, sub  # noqa: F401
from . import api, conv, data, hyg, runs, strat, sym  # noqa: F401
