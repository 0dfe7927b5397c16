"""Conformance of the query loop and of the ranker to a reference: the window after every character, the
posting list looked up, the score added per listed product, and the final sort by decreasing score."""
from search_specs import conform

FLOOR = 4


def ranker(R):
    conform(R, "ranker", "ranker_new", "ranker_add", "ranker_export")


def query(R):
    conform(R, "query", "search")


STEPS = [ranker, query]
