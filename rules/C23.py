"""Conformance to a reference of the tag suggestion: the words compared, the similarity, the threshold, which
of several candidates wins, and what the suggestion reports."""
from lib_specs import conform, suggestion

FLOOR = 4


def accessors(R):
    conform(R, "accessors", "suggested_input", "suggested_tag")


STEPS = [suggestion, accessors]
