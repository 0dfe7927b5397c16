"""Conformance to a reference of the construction of the word index: for every letter of a product's text the counts
of all letter runs ending there and the window leading to the product, then the shares, the children by decreasing
share, the cutoff of frequent windows and the order of each list. Mutable nodes shared through reference-counted
cells are interpreted as a versioned store. The reader and writer of the tree must keep both views of the children."""
import build_specs
import wire_specs

FLOOR = 6


def counts(R):
    build_specs.conform(R, "counts", "index_from")


def shares(R):
    build_specs.conform(R, "shares", "frozen")


def file(R):
    wire_specs.check(R, "kept", types=("GramNode", "GramIndex"))


STEPS = [counts, shares, file]
