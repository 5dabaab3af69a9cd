"""kmlint: static analysis specific to raamana/kernelmethods (see DESIGN.md)."""
