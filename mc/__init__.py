"""Model checking harnesses for popsynth."""
