"""Stand-in for jestimator (the installed release does not import with this jax)."""
