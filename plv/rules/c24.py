from ..main import with_interval
from .dates import c24


def decide(tier):
    return with_interval("C24", c24)
