from . import core
from .core import Array, asarray, from_array, map_blocks  # noqa: F401
