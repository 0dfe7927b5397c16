"""Conformance of every writer and every reader of the index file to one reference format: for each
type the resolved MIR of the writer and of the reader is interpreted over provenance terms and compared
in lockstep with the put_ and get_ functions of that type in rules/wire_specs.py (values written in
order, values read in order, what is built from them, when the read fails). The top-level functions
are compared as well: the buffer holds the word index, then the category, tag and order indexes."""
import codec_specs
import wire_specs

FLOOR = 26


def types(R):
    wire_specs.check(R, "format")


def whole(R):
    wire_specs.whole(R, "file")


def scalars(R):
    codec_specs.check(R, "scalar")


STEPS = [types, whole, scalars]
