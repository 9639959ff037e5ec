"""Property-based verification harness for graphix."""
