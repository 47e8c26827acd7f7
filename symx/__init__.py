"""symx: solver-backed symbolic execution of the unmodified pymnet code."""
