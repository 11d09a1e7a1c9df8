from ..main import with_main
from .tx import c05


def decide(tier):
    return with_main("C05", c05)
