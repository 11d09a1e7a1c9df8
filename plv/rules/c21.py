from ..main import with_interval
from .itree import c21


def decide(tier):
    return with_interval("C21", c21)
