from ..main import with_interval
from .itkeep import c22


def decide(tier):
    return with_interval("C22", c22)
