"""Property-based testing framework for ciscoconfparse (see ../DESIGN.md)."""
