"""Runtime monitors for diatche/curvepy."""
