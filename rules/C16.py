"""Conformance of the vendor table to a reference: registering, looking up, and the id each vendor gets."""
from build_specs import conform

FLOOR = 4


def vendors(R):
    conform(R, "vendor", "vendor_new", "vendor_insert", "vendor_get_or_insert", "vendor_get")


STEPS = [vendors]
