from ..main import with_main
from .tx import c04


def decide(tier):
    return with_main("C04", c04)
