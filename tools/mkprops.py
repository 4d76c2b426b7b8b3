"""writes properties.jsonl (kept as a script so that statements are edited in one place)"""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": ["src/cq_cam/" + f for f in files],
                     "mechanism": [{"name": n, "where": "src/cq_cam/" + w} for n, w in mech],
                     "observe_at": observe or ["operation.commands", "Job.to_gcode() text"]}}
    if state:
        d["anchors"]["state"] = state
    P.append(d)


p("C01", "Rapid moves only cross the part at a safe height",
  "In every operation that routes tool paths, a rapid move that travels in X or Y does so entirely at or above the lower "
  "of the rapid height and the operation safe height, the first move of the operation is a vertical rapid to the rapid "
  "height, and a rapid that only moves vertically never goes below the lower of the two either. A drilling operation starts with a "
  "rapid to the operation safe height and its rapids return to the surface of the stock at the lowest (never below it). "
  "Any descent below that is made at feed.",
  ["inputs", "configurations"], "all tool path contours, depths, sequences of contours and all settings of rapid height and operation safe height",
  "tests look at one or two parts with default heights; the guarantee is about every contour sequence and every height setting",
  ["routers.py", "operations/drill.py", "operations/pocket.py", "operations/profile.py", "operations/op3d.py"],
  [("rapid_to, vertical_plunge, route_wires, route_polyface_outers", "routers.py"), ("Drill.process_bucket", "operations/drill.py")])

p("C02", "Motions form one continuous tool path",
  "Within an operation each motion starts exactly where the previous one ended, axes that a motion does not mention keep "
  "their value, and arc centres are written relative to the position the tool really is in. A transition between two paths "
  "ends on the first point of the next path before cutting continues, and routing modifies none of the geometry or motions it is given. A path is "
  "only continued into a closed wire, and only when the next path is near.",
  ["inputs", "histories"], "all sequences of motions, edges, wires, contours and drill points",
  "a test compares fixed G-code for a few shapes; continuity must hold between all consecutive motions of any tool path",
  ["command.py", "address.py", "routers.py", "operations/drill.py"],
  [("MotionCommand.__init__", "command.py"), ("AddressVector.to_vector", "address.py"), ("rapid_to, route_*", "routers.py")])

p("C03", "The text of a motion says exactly what the motion is",
  "Each given coordinate of a motion or arc centre is written once, with its own letter, in axis order, as a plain decimal "
  "number equal to the value rounded to the precision (three decimals unless asked otherwise), and omitted ones are not written. "
  "The block starts with the code of its motion kind (rapid, straight, clockwise, counter-clockwise), arc centres are "
  "relative to the arc's start, and a feed word appears exactly when the motion has a feed.",
  ["inputs"], "every coordinate value and combination of given and omitted axes, every motion kind, precision 0 to 4",
  "tests print a handful of numbers; rounding ties, tiny and negative values, omitted axes and arc offsets range over all numbers",
  ["address.py", "command.py", "utils/utils.py"],
  [("GCodeWordPrecision.__str__, XYZ, IJK", "address.py"), ("Rapid/Cut/Circular.__str__", "command.py"), ("optimize_float", "utils/utils.py")],
  ["str() of a motion"])

p("C04", "A program contains its job's operations once, in order, framed safely",
  "The generated program consists of the job header, a safety block with the job's own unit, work offset and path mode, "
  "the start sequence, every motion of every operation exactly once and in the order added (each with its operation's "
  "name), a stop sequence and the program end. Saving a program writes exactly the text that is returned when asking for it.",
  ["inputs", "configurations", "histories"], "all jobs: any number of operations and commands, any unit, work offset, path mode, speed, coolant and tool settings",
  "tests render two or three small jobs with default settings; completeness and order must hold for any sequence of operations and any setting",
  ["fluent.py", "command.py", "groups.py"],
  [("Job.to_gcode, Job.save_gcode", "fluent.py"), ("SafetyBlock, StartSequence, StopSequence", "command.py")],
  ["Job.to_gcode() text", "file written by Job.save_gcode()"])

p("C05", "Each operation runs with its own tool, spindle and coolant state",
  "When an operation's motions begin, the machine has the tool number, spindle speed and coolant that were in force for that "
  "operation when it was added to the job; a tool change stops the spindle, goes to the home position and pauses before the new "
  "tool is called, and is emitted only when the tool differs from the one loaded.",
  ["inputs", "histories", "configurations"], "all histories of tool, speed and coolant changes interleaved with operations",
  "the state at an operation depends on the whole history of changes before it; tests exercise at most one change",
  ["fluent.py", "tool.py", "command.py"],
  [("Job._add, Job.update_tool, Job.set_*", "fluent.py"), ("ToolChange, StartSequence", "command.py")])

p("C06", "Building on a job never alters the job it was built from",
  "Every job-building step returns a new job whose operations are those of the previous job followed by the ones added, and "
  "leaves the previous job, its settings, its operations and the program it renders exactly as they were, so branches built from one job do "
  "not influence each other.",
  ["histories"], "all histories of job-building calls, including several branches from the same job",
  "aliasing only shows in histories with branches; tests build linear chains",
  ["fluent.py"], [("Job._add, Job.operations, dataclass copies", "fluent.py")])

p("C07", "Pocketing reaches full depth and never cuts deeper than one step per pass",
  "For every pocket the levels cut start at the top, descend by at most the step depth, and the last one is exactly the pocket "
  "floor; without a step depth the floor is cut directly. All contours of one level are cut before the next, deeper level begins. "
  "Faces whose heights differ by less than a millionth are one level.",
  ["inputs"], "all pocket depths, step depths and contour sequences",
  "the number of levels depends on real-valued depth and step; tests use a few round numbers",
  ["operations/pocket.py", "operations/pocket_cq.py"],
  [("Pocket depth levels", "operations/pocket.py")])

p("C08", "Profiling reaches full depth and never cuts deeper than one step per pass",
  "For every profile the wire is cut at levels that descend from the top of the stock by at most the step depth and end exactly at the profile "
  "depth, every level follows the whole wire, and without a step depth the wire is cut once at full depth.",
  ["inputs"], "all profile heights, step depths and wires",
  "the number of levels depends on real-valued depth and step; tests use a few round numbers",
  ["operations/strategy.py", "operations/profile.py"],
  [("Profile levels", "operations/profile.py"), ("wire copies at each level", "operations/strategy.py")])

p("C09", "Tabs are complete, disjoint, ordered and left standing",
  "Tabs requested along an edge or wire are as many as asked unless they do not fit, each has the requested width (measured along the tool path), they "
  "are evenly spaced, lie inside the path without overlapping, and are visited in order along the path. While a tab is crossed "
  "the tool is raised at least to the tab height, and everywhere else the cut stays at its own depth.",
  ["inputs"], "all path lengths, tab counts, widths, spacings and heights",
  "tests check two layouts; overlap and ordering depend on the arithmetic of lengths and counts",
  ["operations/tabs.py", "routers.py"],
  [("EdgeTabs, WireTabs", "operations/tabs.py"), ("apply_tabs", "routers.py")])

p("C10", "Every contour of a fill is routed exactly once",
  "When nested contours are grouped into cutting sequences, each contour appears in exactly one sequence and consecutive contours of a "
  "sequence are direct neighbours in the nesting, inner ones first; none is lost and none is cut twice.",
  ["inputs"], "all nestings (trees) of contours of any size and shape",
  "tests use one or two fixed trees; loss or duplication depends on the branching shape",
  ["utils/tree.py", "operations/strategy.py", "operations/pocket.py"],
  [("Tree.sequences", "utils/tree.py"), ("ContourStrategy", "operations/strategy.py")])

p("C11", "Contour milling follows each whole contour and only moves along safe links",
  "Each closed contour of a sequence is cut completely, once around from and back to its entry point, at its own depth; cutting "
  "motions stay on the contour, and the cutter moves from one contour to the next through the material only when the "
  "distance is no more than the step-over (within rounding), and otherwise lifts to the safe height.",
  ["inputs"], "all sequences of closed contours with any number of vertices, depths, entry points and step-overs",
  "tests route one pocket and compare lengths; the entry-point arithmetic and link decision depend on all vertex positions",
  ["routers.py", "utils/linked_polygon.py", "utils/geometry_op.py"],
  [("route_polyface_outers", "routers.py"), ("distance_to_path", "utils/geometry_op.py")])

p("C12", "Wires are traced edge by edge, in order, with the right curve",
  "Routing a wire produces its edges in their order and direction: a straight cut to the end of each line, an arc of the edge's own "
  "centre, end and turning direction for each circular edge (a full circle as two half turns that close), and chords within "
  "tolerance ending at the edge's end for other curves. When only part of an edge is asked for, exactly that part is cut.",
  ["inputs"], "all wires of lines, circles and other curves, in either orientation, and all parameter ranges",
  "tests trace a few wires; direction, reversal and partial ranges multiply to many combinations",
  ["routers.py", "utils/utils.py", "utils/interpolation.py", "utils/circle_bug_workaround.py"],
  [("route_wire, route_edge, shift/ordered edges", "routers.py"), ("edge orientation helpers", "utils/utils.py")])

p("C13", "Nearest-point queries return the nearest point",
  "For a point and a segment the returned point lies on the segment, no other point of the segment is closer, and the returned "
  "distance is the squared distance to it; for a point and a polyline the answer is the closest over all its segments together with the "
  "segment it lies on. Degenerate (zero length) segments are answered as points.",
  ["inputs"], "all points, segments and polylines of any length",
  "a universally quantified minimality statement over real coordinates; tests try single points",
  ["utils/geometry_op.py", "utils/linked_polygon.py"],
  [("dist_to_segment_squared, distance_to_path", "utils/geometry_op.py"), ("LinkedPolygon", "utils/linked_polygon.py")],
  ["return values"])

p("C14", "Drilling visits every hole exactly once, in place, to depth",
  "A drilling operation produces one cycle for each requested hole position (points, circle centres), at that position in job plane "
  "coordinates, going to the requested depth below the job plane, in however many pecks; tool repositioning between holes happens above "
  "the part; no hole is skipped or repeated.",
  ["inputs", "configurations"], "all sets of hole positions, job planes and depths",
  "tests drill two or three holes in the default plane; the route planner and plane change must preserve any set of holes",
  ["operations/drill.py"], [("Drill", "operations/drill.py")])

p("C15", "Material is only entered and cut at the configured feeds",
  "Every motion that cuts uses the feed of its operation or, failing that, of the job, and every purely vertical descent into material (also after a tab) "
  "uses the plunge feed when one is set; the first cutting motion of an operation always carries a feed.",
  ["inputs", "configurations"], "all tool paths and all combinations of feed and plunge feed settings of the operation, tool and job",
  "feeds combine across job, tool and operation settings and every motion of every path; tests look at a few lines",
  ["routers.py", "fluent.py", "operations/drill.py", "operations/base_operation.py"],
  [("vertical_plunge, cut", "routers.py"), ("Operation settings", "operations/base_operation.py")])

p("C16", "Offsets put the cutter on the intended side of the wire",
  "A profile's outer wires are offset outwards and inner ones inwards, pocket boundaries inwards and islands outwards, by the tool radius "
  "times the stated multiple plus the stated extra, unless the caller gives an explicit offset, which is then used instead; an avoided area "
  "is enlarged by its own offset, and with avoided areas the boundary of a pocket is not offset unless the caller says so.",
  ["inputs", "configurations"], "all tool diameters, offset settings and wire roles",
  "sign and default handling range over all settings; tests cover the default ones",
  ["operations/base_operation.py", "operations/profile.py", "operations/pocket.py", "utils/utils.py"],
  [("calculate_offset", "utils/utils.py, operations"), ("profile/pocket offset defaults", "operations/")])

p("C17", "Stacked pockets are cleared from the top down inside their own region",
  "When several faces at different depths are pocketed together, the area opened at each level is cleared before deeper levels, from the "
  "level above it (where that is open) down to its own floor. The area of a level is exactly the union of the offset outlines of the faces at that "
  "depth or deeper, without any of their holes and without the avoided areas that lie at that depth or higher, whether or not these overlap "
  "each other; the cutter never leaves it, follows its outline, and no point of it is further than one step-over from a cut.",
  ["inputs"], "all sets of planar faces, depths and avoided areas (checked for a bounded number of faces)",
  "the partition of the area over levels depends on any combination of overlapping depths",
  ["operations/pocket.py"], [("region construction", "operations/pocket.py")])

p("C18", "Curves are flattened within tolerance, end to end, in order",
  "A curve replaced by points starts and ends exactly at the curve's ends, its points are in order along the curve, and no chord "
  "departs from the curve by more than the tolerance (one and a half units of the last decimal of the precision; a tenth for the coarse outline "
  "used for clipping); straight lines are kept as single segments.",
  ["inputs"], "all curves, orientations and tolerances",
  "the deviation bound is universally quantified over radius, angle and tolerance",
  ["utils/interpolation.py", "utils/utils.py"], [("interpolation of edges, wires and faces", "utils/interpolation.py, utils/utils.py")],
  ["returned points"])

p("C19", "The displayed tool path is the tool path",
  "The shape drawn for each motion runs from the motion's start to its end (through its mid point for arcs), one shape for every motion "
  "that moves and in program order, placed in the job plane, so what is shown is what is cut. The initial approach (the first motion of an operation) is not drawn; "
  "coordinates unknown before the first motions are drawn at zero.",
  ["inputs"], "all sequences of motions, including ones that do not move",
  "tests only check that drawing does not fail; agreement must hold for each motion of any program",
  ["command.py", "visualize.py", "fluent.py"], [("to_ais_shape", "command.py"), ("visualisation of operations", "visualize.py")],
  ["returned shapes"])

p("C20", "Zigzag clearing covers each scan line once and stays inside",
  "The zigzag path passes along every scan-line segment inside the region exactly once, moves between scan lines only along the "
  "boundary, and starts a new sequence instead of crossing outside.",
  ["inputs"], "all regions and scan-line spacings (checked for a bounded number of scan lines)",
  "the linking order depends on the whole arrangement of scan lines and boundary; tests check one region",
  ["operations/strategy.py", "utils/linked_polygon.py"], [("ZigZagStrategy", "operations/strategy.py")])

p("C21", "3D surfacing splits paths by depth without losing or adding cuts",
  "A surfacing path cut in steps visits, at each level, exactly the parts of the path that are not above the level two before (or the job plane), so that "
  "consecutive levels overlap, each part in order and at the path's own height but not below the level, so that after the last level the whole path has been cut at its height, each level "
  "descending by at most the step.",
  ["inputs"], "all height profiles and level sets",
  "depends on every pattern of heights crossing levels; tests cannot run it (its library is absent)",
  ["operations/op3d.py"], [("_chop_sequences_by_depth and routing", "operations/op3d.py")])

with open("/verif/properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
