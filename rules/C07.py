"""Conformance to a reference of the entry points that build an index (which text of each product is indexed, which
letters it consists of, which product they lead to) and of the search entry point (how the query becomes letters)."""
import build_specs
import lib_specs

FLOOR = 4


def building(R):
    build_specs.conform(R, "indexed text", "build", "build_default", "index")


def query(R):
    lib_specs.conform(R, "query", "search")


STEPS = [building, query]
