"""Conformance to a reference of the readers derived for the structures of the catalogue: which member name stands
for which field, the loop over the members of an object (each value goes to the field of its name, unknown
members are passed over, a second member of a name is refused), what a missing member leads to, and which
field of the product each value ends up in. Also of the entry point that reads the whole catalogue."""
import build_specs
import json_specs

FLOOR = 16


def parts(R):
    json_specs.conform(R, "parts", "CurrencyAmount", "ProductPrice", "MediaItem", "RawProductOption")


def product(R):
    json_specs.conform(R, "product", "RawProduct")


def catalogue(R):
    build_specs.conform(R, "catalogue", "index")


STEPS = [parts, product, catalogue]
