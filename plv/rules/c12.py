from ..main import with_main
from .res import c12


def decide(tier):
    return with_main("C12", c12)
