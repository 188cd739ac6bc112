"""qsa: repository-specific static analysers for weinbe58/QuSpin (see /verif/DESIGN.md)."""
