"""Conformance of TagHandler::is_valid and CategoryHandler::is_valid (with Tag::contains and
CategoryOption::contains inlined) to the reference: false exactly when some selected tag or option
does not list the product's serialization id."""
from js_specs import conform

FLOOR = 2


def filters(R):
    conform(R, "filter", "tag_is_valid", "cat_is_valid")


STEPS = [filters]
