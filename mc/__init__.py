"""Bounded exhaustive exploration (model checking) of omegaconf, executed on the real code in /repo."""
