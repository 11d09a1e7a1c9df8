from ..main import with_main
from .tx import c01


def decide(tier):
    return with_main("C01", c01)
