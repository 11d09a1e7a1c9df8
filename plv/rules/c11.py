from ..main import with_main
from .ops import c11


def decide(tier):
    return with_main("C11", c11)
