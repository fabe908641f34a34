"""Contracts on the functions of /repo, one module per component."""
