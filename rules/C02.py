"""Conformance to a reference of the numbering of products, vendors, tags and options when a catalogue is indexed, and
of the readers, which number the same things again by position: references stored as numbers (a product's vendor, the
members of a tag, option or posting list) therefore lead to the same thing before and after the file."""
import build_specs
import wire_specs

FLOOR = 16


def indexed(R):
    build_specs.conform(R, "numbered", "optimize_products", "vendor_new", "vendor_insert", "vendor_get_or_insert", "cat_index", "option_new", "tag_index", "tag_new")


def read(R):
    wire_specs.check(R, "reread", types=("VendorManager", "Product", "ProductContainer", "CategoryIndex", "TagIndex"))


def lists(R):
    wire_specs.ids(R, "list")


STEPS = [indexed, read, lists]
