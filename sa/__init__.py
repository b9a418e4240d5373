"""Repository-specific static analyser for simpeg (standard library only)."""
