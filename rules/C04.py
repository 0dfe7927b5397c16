"""Conformance of the writer and reader of every scalar (64-bit, 32-bit and machine-size integers, bytes,
booleans, characters, floats, strings) to a reference encoding. The 64-bit integer codec is compared bit
by bit over symbolic words, so all 2^64 values and all byte sequences are covered; the narrower codecs
are compared relative to it with their range checks; the loops are unrolled to their exact bound."""
import codec_specs

FLOOR = 17


def scalars(R):
    codec_specs.check(R, "scalar")


STEPS = [scalars]
