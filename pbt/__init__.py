"""Property-based testing framework for cbg-ethz/bmi."""
