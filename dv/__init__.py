"""dv: a contract-based deductive verifier for the real Python source in /repo.

See /verif/DESIGN.md for the logic.  Nothing in here reads /verif/seeded.
"""
