"""pyvc: a small contract-based deductive verifier for the Python subset used by python-gsmmodem (see DESIGN.md)."""
