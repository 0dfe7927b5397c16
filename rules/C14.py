"""Conformance to a reference of the construction of the named orders (which keys the products are compared by, in
which direction, the place of a product without a value, and the position each product gets) and of the lookups."""
import build_specs
import search_specs
import wire_specs

FLOOR = 5


def built(R):
    build_specs.conform(R, "orders", "optimize_orders")


def ranks(R):
    search_specs.conform(R, "ranks", "order_add", "order_get", "order_options")


def file(R):
    wire_specs.check(R, "kept", types=("OrderIndex",))


STEPS = [built, ranks, file]
