"""Stand-in for the python-tweetnacl extension, which is not installed here (see vlib.core.setup_paths)."""
