"""Conformance to a reference of the construction of the feature columns, of the functions that add a column, of the
lookups of a product's value, and of the writers and readers of the columns."""
import build_specs
import search_specs
import wire_specs

FLOOR = 11


def built(R):
    build_specs.conform(R, "columns", "optimize_columns", "add_int", "add_float", "add_string")


def looked_up(R):
    build_specs.conform(R, "lookup", "feature_get", "column_get", "column")
    search_specs.conform(R, "lookup", "js_value")


def file(R):
    wire_specs.check(R, "kept", types=("Feature", "FeatureSet"))


STEPS = [built, looked_up, file]
