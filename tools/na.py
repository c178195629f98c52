"""Properties this technique cannot decide here: (id, META + reason)."""
NA = []
