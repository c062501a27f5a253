"""Repository-specific static analyser for orthority (standard library only)."""
