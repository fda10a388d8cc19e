"""Runtime monitors for the free-fermion library in /repo/src/ff."""
