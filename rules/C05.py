"""Conformance of the two functions that write and read a list of products as ascending id differences
to a reference loop (sorted ids, absolute first id, then differences; on reading, running sums that must
not overflow and must name an existing product), together with every caller that stores such a list."""
import wire_specs

FLOOR = 8


def lists(R):
    wire_specs.ids(R, "id list")


def users(R):
    wire_specs.check(R, "holder", types=("CategoryIndex", "TagIndex", "GramNode"))


STEPS = [lists, users]
