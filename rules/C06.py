"""Conformance to a reference of the function that shortens descriptions, of the product writer (which
text is shortened, to what limit) and reader, and of product equality."""
import eq_specs
import search_specs
import wire_specs

FLOOR = 4


def clip(R):
    search_specs.conform(R, "clip", "limit")


def stored(R):
    wire_specs.check(R, "stored", types=("Product",))


def equality(R):
    eq_specs.conform(R, "equality", "product")


STEPS = [clip, stored, equality]
