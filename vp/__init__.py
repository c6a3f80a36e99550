"""Shared property-based-testing machinery (see DESIGN.md)."""
