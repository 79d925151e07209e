"""symx: a small dynamic symbolic executor for Python code over the reals.

The functions of /repo are executed, unmodified, on symbolic numbers; every
branch on a symbolic condition is decided by an SMT solver and both feasible
sides are explored; assertions become solver queries.
"""
