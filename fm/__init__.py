"""fides monitors: boundary-trace recording and oracles for fides."""
