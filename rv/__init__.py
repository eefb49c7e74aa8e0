"""Runtime monitors for pycid (see DESIGN.md)."""
