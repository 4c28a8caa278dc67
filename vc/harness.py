"""CBMC harnesses (bit-precise functions); filled in by /verif/cbmc."""


class Harness:
    def __init__(self, name, props, **kw):
        self.name, self.props, self.kw = name, props, kw


HARNESSES = []


def run(hs, tier):
    return []
