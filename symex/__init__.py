"""Symbolic execution of the real Kats code: z3-valued proxies + path forking."""
