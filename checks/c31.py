"""C31: generated ACN codecs are lossless."""
from vlib import gu


def main():
    return gu.main_acn("C31", "rt", ["REAL values: a few given ones (C12 decides the primitives). A component with a DEFAULT is absent or differs from it. The validation is taken as C34 decides it."])
