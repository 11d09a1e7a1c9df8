from ..main import with_main
from .res import c13


def decide(tier):
    return with_main("C13", c13)
