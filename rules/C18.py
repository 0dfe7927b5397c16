"""Conformance of the toggle, status and construction functions of both handlers to a reference
machine: the resolved MIR of each function (helpers inlined) is interpreted over provenance terms
and the resulting graph is walked in lockstep with the graph of a reference written in the model
language; every result, every final object state and every observer call must agree on every path."""
from js_specs import conform

FLOOR = 9


def selection(R):
    conform(R, "selection", "tag_toggle", "cat_toggle", "tag_status", "cat_status", "tag_handler_new", "cat_handler_new",
            "option_keys", "jstag_id", "jstag_new")


STEPS = [selection]
