"""Conformance of every hand-written and derived comparison of the index's types to a reference, field by field."""
from eq_specs import conform

FLOOR = 16


def equality(R):
    conform(R, "equal", "product", "vendor", "vendors", "tag", "tags", "category", "categories", "option", "orders", "lists", "container", "column", "columns")


def order(R):
    conform(R, "order", "number", "number_some", "weight")


STEPS = [equality, order]
