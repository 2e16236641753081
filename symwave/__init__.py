"""Solver-based checking of ptwt: symbolic tensors over the real torch code."""
