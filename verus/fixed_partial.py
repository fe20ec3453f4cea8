"""C05: the same functions, where the run-time checks may fire: whatever they
return is exact (see fixed.py)."""
from fixed import PARTIAL as TARGET  # noqa: F401
