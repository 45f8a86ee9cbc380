"""C19: reading a model or dataset file never leaves the token buffer."""
from .parser import groups      # noqa
