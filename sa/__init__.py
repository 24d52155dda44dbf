"""Static analysis framework for the pypeec code base (see /verif/DESIGN.md)."""
