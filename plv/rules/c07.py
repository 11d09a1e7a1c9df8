from ..main import with_main
from .tx import c07


def decide(tier):
    return with_main("C07", c07)
