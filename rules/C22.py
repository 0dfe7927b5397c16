"""Conformance of the result producer, the exported product getters and the tag, category and option
iterators to a reference machine (results and cursor state after every call, on every path)."""
from js_specs import conform

FLOOR = 15


def producer(R):
    conform(R, "producer", "producer_new", "next_product")


def getters(R):
    conform(R, "getter", "title", "description", "pid", "string_feature", "numeric_feature")


def iterators(R):
    conform(R, "iterator", "tags_iter", "cats_iter", "next_tag", "next_cat", "next_option", "cat_name", "option_name", "jstag_name")


STEPS = [producer, getters, iterators]
