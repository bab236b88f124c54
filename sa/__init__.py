"""Static analysis framework for OpenMDAO1 (see ../DESIGN.md)."""
