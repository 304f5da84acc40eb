"""jaxsmt: solver-based checking of JAX programs.

The real code is traced by JAX (or run eagerly under a symbolic trace), every
primitive is executed on exact symbolic values, and z3 decides the assertions.
"""
