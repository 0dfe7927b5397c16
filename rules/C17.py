"""Conformance to a reference of the search entry point (normalisation of the query, filtering by categories,
tags and features, sorting by an order, results of unknown orders and before initialisation), of the lookup
of an order and of the iteration over order names."""
import lib_specs
import search_specs

FLOOR = 3


def entry(R):
    lib_specs.conform(R, "search", "search")


def orders(R):
    search_specs.conform(R, "orders", "order_get", "order_options")


STEPS = [entry, orders]
