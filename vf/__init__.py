"""Property-based verification machinery for python-omemo."""
