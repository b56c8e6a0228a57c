"""Properties without a check, and why."""
NA = {}
