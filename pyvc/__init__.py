"""pyvc: contract verification of the real qiskit-ignis code (see DESIGN.md)."""
