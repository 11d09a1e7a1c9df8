from ..main import with_main
from .ops import c09


def decide(tier):
    return with_main("C09", c09)
