"""C07: the mixers, with the run-time checks of the code as stops."""
from mixer import PARTIAL as TARGET
