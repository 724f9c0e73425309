"""Runtime monitors for PathLib: workloads, online checkers and reference models."""
