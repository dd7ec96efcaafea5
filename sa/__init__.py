"""Value-flow analysis of the skada sources (no code of /repo is imported or run)."""
