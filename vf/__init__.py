"""Runtime-monitoring framework for caput (see /verif/DESIGN.md)."""
