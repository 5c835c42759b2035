"""Static value-flow analyser for x7.geom (see /verif/DESIGN.md)."""
