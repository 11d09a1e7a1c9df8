from ..main import with_main
from .lazy import c16


def decide(tier):
    return with_main("C16", c16)
