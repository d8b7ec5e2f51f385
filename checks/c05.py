from c01 import ENGINE
import c04
META = {"technique": ENGINE, "note": c04.META["note"] + " L operators act on the oracle's own solid harmonics through the rotation generators."}
def run(prop, tier):
    return c04.run(prop, tier, 1)
