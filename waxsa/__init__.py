"""waxsa: a static analyser specific to wax-ml (stdlib only, never imports wax)."""
