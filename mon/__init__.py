"""Runtime monitors for oelint-parser (see DESIGN.md)."""
