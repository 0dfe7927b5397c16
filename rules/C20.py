"""Conformance of observer registration, removal and notification to a reference machine: calls to
JavaScript functions are observables, compared in order with their arguments on every path."""
from js_specs import conform

FLOOR = 8


def observers(R):
    conform(R, "observers", "tag_toggle", "cat_toggle", "tag_general", "cat_general", "tag_add", "cat_add", "tag_remove", "cat_remove")


STEPS = [observers]
