"""Conformance of the parsing and application of feature filters, and of the lookup of a product's
feature value, to a reference."""
from search_specs import conform

FLOOR = 5


def parsing(R):
    conform(R, "parse", "parse")


def made(R):
    conform(R, "made", "new_range", "new_exactly")


def applying(R):
    conform(R, "filter", "filter", "js_value")


STEPS = [parsing, made, applying]
