"""Runtime monitors for PyBox: the real code runs, oracles written here watch it."""
