"""Conformance of the recursive walk over the character tree to a reference: which chains are tried at
every node (as typed, one character substituted, missing or extra), with which remaining input, weight,
number of changes and position, and which of the outcomes is kept. Also of the search loop that
starts a walk for every window of the query."""
from search_specs import conform

FLOOR = 2


def walk(R):
    conform(R, "walk", "walk")


def start(R):
    conform(R, "start", "search")


STEPS = [walk, start]
