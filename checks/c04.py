from vlib.core import Runner
from checks.c03 import harnesses


def main():
    return Runner("C04").run(harnesses("t"))
