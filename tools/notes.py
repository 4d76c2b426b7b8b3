DV = "contract-based deductive verification of the repository's Python (pydv: contracts discharged by z3 over the source, loop invariants inferred and checked), with run-time contract checking for replay"
NOTES["C03"] = ("proof", "all coordinates (reals), precision 0 to 4, every motion kind; floats are treated as reals, the run-time checker adds float inputs", DV)
_n = "obligations are discharged for all inputs of the stated kinds; floats are reals; the library (CAD kernel, numpy, math) enters through contracts; run-time checker replays and samples real runs"
for _p in ("C04", "C05", "C06", "C13", "C16", "C18", "C07", "C08", "C14", "C19", "C20", "C21"):
    NOTES[_p] = ("proof", _n, DV)
for _p in ("C01", "C02", "C11", "C12", "C15"):
    NOTES[_p] = ("proof", _n, DV)
NOTES["C21"] = ("proof", _n + "; bounded, not counted as proved: the merge of paths and drop-cutter heights (at most 2 paths of 3 corners)", DV)
NOTES["C20"] = ("proof", _n + "; assumed, checked at run time only: pyclipper clips the scan lines", DV)
NOTES["C10"] = ("proof", _n + "", DV)
NOTES["C09"] = ("proof", _n + "; assumed: the order facts of lists (stated in the units), the CAD kernel's arc-length parametrisation; bounded, not counted as proved: putting tabs into a wire (apply_tabs) is decided for wires of one edge with any number of transitions, wires of several edges are checked at run time", DV)
NOTES["C17"] = ("proof", _n + "; which paths are combined at each level is proved for any faces, the boolean operations of pyclipper on them and shapely's contains are assumed and compared with shapely at run time; the distance to the nearest cut and the outline follow from the fill's contract (each contour is the one around it shrunk by the step-over) only through pyclipper's offset, they are checked at run time", DV)
