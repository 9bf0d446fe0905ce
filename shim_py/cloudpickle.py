"""Stand-in for cloudpickle."""
from dill import dumps, loads
