"""The checks, one module per property."""
