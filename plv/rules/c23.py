from ..main import with_interval
from .itree import c23


def decide(tier):
    return with_interval("C23", c23)
