"""A small symbolic executor for the Python/numpy code of lightcurvelynx."""
