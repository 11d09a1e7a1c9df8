from .memory import c25


def decide(tier):
    return c25()
