"""Conformance of the construction of tags, categories and options to a reference: which entries exist,
which products each lists, in which order, and the id each gets, for all catalogues."""
from build_specs import conform

FLOOR = 8


def options(R):
    conform(R, "option", "option_new", "option_add", "option_contains", "category_new", "cat_index")


def tags(R):
    conform(R, "tag", "tag_new", "tag_contains", "tag_index", "optimize_lists")


STEPS = [options, tags]
