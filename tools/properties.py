F = "src/cq_cam/"
AI = "abstract interpretation (value-provenance dataflow over the syntax trees, no execution, no solver)"
NOTE = ("Decides the stated clauses for all inputs of the listed entry points under the library model; ")

p("C01", "Programs are framed: preamble and spindle first, safe stop and end last",
  "Every generated program starts with a header comment, then the modal preamble, then the spindle start (with the "
  "speed and coolant the job was created with), before any operation; the job's operations follow, each exactly once "
  "and in the order in which they were added. After the last operation come the modal block again, spindle stop, "
  "coolant stop when coolant is used, and program end as the last and only end code.",
  ["histories", "configurations"], "all sequences of fluent calls and all job settings",
  "The tests compare a few fixed programs; the framing must hold after any history of operations, tool and speed changes.",
  [F + "fluent.py", F + "command.py"], [("program assembly", F + "fluent.py Job.to_gcode"), ("operation text", F + "fluent.py Operation.to_gcode")],
  AI + "; the abstract program text is parsed into words and checked against an order automaton",
  NOTE + "operations themselves are opaque here, histories up to two operations of each kind stand for all histories (assembly treats operations uniformly)")

p("C02", "The modal preamble selects exactly the job's unit, offset and path mode",
  "For every combination of job settings, the modal blocks that open and close a program select the job's length unit, "
  "work offset and path control mode, absolute distances, the XY plane and units-per-minute feed, and cancel cutter and "
  "length compensation. No line holds two codes of the same modal group, and nothing in between selects another "
  "unit, distance mode, plane, work offset or feed mode.",
  ["configurations", "histories"], "every unit, work offset and path mode, any operations in between",
  "The tests use the default metric job only, so a setting that is ignored or mapped wrongly goes unnoticed.",
  [F + "fluent.py", F + "command.py", F + "groups.py"], [("modal block", F + "command.py SafetyBlock.__str__"), ("hand-over of the job's settings", F + "fluent.py Job.to_gcode")],
  AI + "; constant propagation per enumeration member, modal-group check on the words",
  NOTE + "settings are enumerated one at a time from fixed other settings")

p("C03", "Fluent calls never change the job, lists or tool they are given",
  "A fluent call returns a new job that keeps the receiver's operations, in order, followed by its own. The job it was "
  "called on (settings, current tool and list of operations) and the lists and tool passed to it stay as they were, so that "
  "two continuations of one job never see each other's operations or tools.",
  ["histories", "inputs"], "all fluent calls, with and without a tool, on jobs with any earlier operations",
  "A test sees one chain; sharing shows only when a job is continued twice.",
  [F + "fluent.py"], [("copy on write", F + "fluent.py Job._add_operation"), ("tool update", F + "fluent.py Job.update_tool")],
  "heap alias and effect analysis: " + AI,
  NOTE + "the abstract heap before and after each call is compared; operation generators are cut off at their entry")

p("C04", "Tool and speed changes insert exactly the required block",
  "Giving a tool whose number differs from the current one inserts exactly one tool change: spindle and coolant stop, "
  "selection of that tool and its length offset, the change, and spindle (at the speed then in force) and coolant restart. "
  "A same-numbered tool with another speed inserts exactly one spindle restart at the new speed, and anything else inserts nothing.",
  ["inputs", "configurations"], "all combinations of present, absent, equal and different tool numbers, speeds and coolant",
  "Tests cover a few combinations and mostly look at object types; the printed order and values per combination are not covered.",
  [F + "fluent.py", F + "command.py"], [("decision", F + "fluent.py Job.update_tool"), ("block", F + "command.py ToolChange.__str__")],
  AI + "; case partition over tool and job settings, words of the inserted block checked in order",
  NOTE + "the partition is complete for the comparisons none/equal/different")

p("C05", "A tool's settings take effect for its operation and stay in force",
  "When an operation or an explicit update is given a tool, the diameter, number, feed and speed it sets replace the current "
  "ones (those it does not set, and all other settings of the job, are kept) before the operation's path is generated, and the change block precedes that operation. "
  "They stay in force for later operations, so giving the same tool again inserts nothing.",
  ["inputs", "histories"], "every subset of set tool fields and every operation that takes a tool",
  "Tests check single attributes; whether the generator receives the new or the old tool depends on call order in each operation.",
  [F + "fluent.py"], [("tool update", F + "fluent.py Job.update_tool"), ("operations", F + "fluent.py Job.profile, wire_profile, pocket, drill")],
  AI + "; the job that reaches each generator is compared with the tool's settings",
  NOTE + "generators are cut off at their entry, where their job argument is inspected")

p("C11", "Each motion prints well formed words with its own coordinates and feed",
  "A motion command prints one line: its motion code, one X, Y or Z word for each known coordinate of its end point carrying that "
  "coordinate to at least three decimals, no word for unknown ones, and an F word exactly when it has a feed. Arcs also print I, J "
  "(and K) as the centre's offset from the arc's start.",
  ["inputs"], "all coordinates, known or unknown, and all feeds",
  "Tests format a handful of numbers; a swapped axis, start/centre mix-up or dropped word shows only for other values.",
  [F + "command.py", F + "address.py"], [("motion text", F + "command.py RapidCommand/Cut/Circular.__str__"), ("words", F + "address.py XYZ, IJK, GCodeWord")],
  AI + "; symbolic coordinates traced through formatting into words",
  NOTE + "the numeric text of a value itself (round, str) is trusted")

p("C12", "Every code name prints its RS-274/NGC code",
  "Each named code of the public code enumerations prints as the RS-274/NGC word that its name stands for, no two names of one enumeration share a code, "
  "and rapid, linear and circular moves use G0, G1, G2 (clockwise) and G3 (counter-clockwise).",
  ["inputs", "configurations"], "all members of all code enumerations and all motion command kinds",
  "Tests touch only the codes that appear in their sample programs.",
  [F + "groups.py", F + "command.py"], [("code tables", F + "groups.py"), ("motion codes", F + "command.py modal attributes")],
  "table agreement: enumeration members, read from the sources and printed by " + AI + ", against the RS-274/NGC table",
  NOTE + "the reference table is written down in the checker")

p("C13", "Names never escape from comments into the program",
  "Whatever text a job is named, it appears in the program only inside comments, and never contains a parenthesis or line break that "
  "would end the comment and let the rest be read as machine code.",
  ["inputs"], "all job names and all operations",
  "Tests use plain names; the hazard needs a name with a parenthesis or a line break.",
  [F + "command.py", F + "fluent.py"], [("comment escaping", F + "command.py comment"), ("headers", F + "fluent.py Operation.to_gcode, Job.to_gcode")],
  "taint and character-set analysis on abstract strings, by " + AI,
  NOTE + "escaping by other means than replace is reported as undecided")

p("C24", "Saving writes exactly the program text",
  "Saving a program writes to the named file, from its start and nothing else, exactly the text that generating the program returns.",
  ["histories", "inputs"], "all jobs and file names",
  "No test saves a program.",
  [F + "fluent.py"], [("save", F + "fluent.py Job.save_gcode")],
  "effect analysis: " + AI + "; recorded file operations compared with the program text term",
  NOTE + "the operating system's part (disk full, encoding) is outside")

p("C29", "Explicit zeros are used as given, and omitted settings take their defaults",
  "A height, feed, speed or tool number given as zero is used as zero, never replaced by a default and never dropped from "
  "the program. An omitted rapid or safe height takes the default of the job's unit (10 and 1 mm, 0.4 and 0.04 in), an omitted plunge feed takes the job's feed.",
  ["inputs", "configurations"], "zero, omitted and given values of each optional setting, in both units",
  "Tests never pass zero, and imperial jobs are not tested.",
  [F + "fluent.py", F + "address.py", F + "command.py"], [("defaults", F + "fluent.py Job.__init__"), ("tool settings", F + "fluent.py Job.update_tool"), ("zero words", F + "address.py GCodeWord.__str__")],
  AI + "; case partition zero/None/omitted/given",
  NOTE + "covers constructor settings, tool settings and printed words")

ROUTE = [("approach", F + "routers.py rapid_to"), ("wire routing", F + "routers.py route_wires, route_edge"),
         ("pocket routing", F + "routers.py route_polyface_outers"), ("drilling", F + "operations/drill.py")]
PATHS = [F + "routers.py", F + "operations/profile.py", F + "operations/pocket.py", F + "operations/pocket_cq.py", F + "operations/drill.py"]
SC = ("profile, wire_profile (with and without stepdown), drill and both pocket engines are analysed from their public entry; in pockets the "
      "region construction (offsets, nesting, depth levels) is replaced by arbitrary regions")

p("C06", "Rapids travel only at safe heights and never dive below them",
  "In every path of profile, wire_profile, drill and pocket, a rapid that moves in X or Y starts and ends at the job's rapid height or "
  "operation safe height, and every rapid ends at one of these heights or higher, never inside the stock. "
  "Each path begins with a rapid straight up to a safe height.",
  ["inputs", "configurations"], "all shapes, depths, heights and job settings",
  "A test sees the moves of one shape; whether every travel happens above the stock depends on every combination of links, levels and heights.",
  PATHS, ROUTE, AI + "; every motion of the generated path grammar with its guards",
  NOTE + SC + "; the approach of the first drilled hole starts at a position found by sorting and stays undecided")

p("C07", "The tool enters material straight down at the plunge feed",
  "A feed move which leaves a safe height (or the top of the stock) goes straight down in Z and carries the job's plunge feed; "
  "no lateral feed move starts above the work. This holds for profile, wire_profile, drill and pocket, for any target depth, also above the safe height.",
  ["inputs", "configurations"], "all depths, heights and feeds, including targets above the operation safe height",
  "Tests use one feed for everything and depths below zero.",
  PATHS, ROUTE, AI + "; every motion of the generated path grammar with its guards", NOTE + SC)

p("C08", "Each motion of a path starts where the previous one ended",
  "In every path of profile, wire_profile, drill and pocket the start of a motion is the end of whichever motion precedes it, across edges, wires, "
  "depths, links between passes and holes; the output leaves out words for coordinates that do not change, so a wrong start means a wrong tool path.",
  ["inputs", "configurations"], "all shapes, numbers of edges, wires and holes, and all orders the generators can emit",
  "Each number of edges, wires, links and each mixture of edge types gives another sequence; tests compare a few fixed outputs.",
  PATHS, ROUTE, AI + "; loop-carried positions compared with the motions of each abstract iteration", NOTE + SC)

p("C09", "Cutting runs at the job's feed, plunging at the plunge feed, rapids at none",
  "In every path of profile, wire_profile, drill and pocket every lateral feed move (line or arc) carries the job's feed, every plunge its plunge feed, "
  "and no rapid carries a feed, so that no cut ever runs at a feed left over from an earlier move.",
  ["inputs", "configurations"], "all shapes, feeds and plunge feeds",
  "The tests use jobs whose plunge feed equals the feed and compare few moves.",
  PATHS, ROUTE, AI + "; every motion of the generated path grammar with its guards", NOTE + SC)

p("C10", "Arcs follow their edge: direction, centre, end points and no full circle",
  "An arc is cut clockwise (G2) exactly when its edge is traversed clockwise, with the edge's circle centre as centre; it starts, passes and ends at points "
  "of that edge in the order of travel. A closed circle is cut as arcs that each cover less than the whole circle. "
  "Arcs are generated only for circular edges, never for lines, splines or offset curves.",
  ["inputs"], "all edges, orientations and arc lengths",
  "Tests cut a few circles and compare a few words; reversed edges, partial arcs and closed circles need separate shapes each.",
  [F + "routers.py", F + "utils/utils.py", F + "operations/profile.py"], [("edge routing", F + "routers.py route_edge"), ("oriented ends and direction", F + "utils/utils.py edge_start_point, edge_start_param, is_arc_clockwise2")],
  AI + "; symbolic edge parameters, linear arithmetic on them",
  NOTE + "geometry kernel facts (orientation, parameters) are modelled; arcs that start at a link point inside an edge are undecided")

p("C14", "World geometry enters a tool path through one world-to-job transform",
  "For any job plane, also rotated and translated ones, every coordinate of a motion of profile, wire_profile and drill that comes from the geometry, and every area "
  "that pocket works on, has been transformed from world to job coordinates exactly once, whichever kind of object (vector, wire, face, workplane) it was given as.",
  ["inputs", "configurations"], "all job planes and all geometry, for each kind of input object",
  "Most tests use a job plane at the origin, where a missing or doubled transform makes no difference.",
  PATHS, ROUTE, AI + "; the transforms on the way from each input to each coordinate are counted in its term", NOTE + SC)

p("C19", "Boundaries are offset by the requested distance to the correct side",
  "Profiles and pockets move each boundary by multiplier times the current tool's radius (plus the distance, where a pocket offset is given as a pair): by default outwards "
  "for the outer and inwards for the inner wires of a profile, inwards for the outer and outwards for the inner boundaries of a pocket, the other way round for areas to avoid; "
  "with areas to avoid the outer boundary of a pocket stays where it is unless an offset is given. Passes of a pocket are one stepover (by default half the radius) apart. Corners are rounded.",
  ["inputs", "configurations"], "all tool diameters and offsets, omitted, zero, as multiplier or as pair, on all boundaries",
  "Tests use a few default offsets; a wrong side or a missing radius on one kind of boundary needs a shape with that boundary.",
  PATHS + [F + "utils/geometry_op.py", F + "fluent.py"], [("offset inputs", F + "utils/geometry_op.py calculate_offset"), ("offsets", F + "utils/geometry_op.py offset_wire, offset_path, offset_face, offset_polyface"), ("defaults", F + "operations/pocket.py pocket; fluent.py profile, wire_profile")],
  AI + "; the distance of every offset operation compared as a polynomial with the requested one",
  NOTE + "the offset algorithms of OCCT and clipper are trusted; a fallback that differs by at most 1e-5 is accepted")


p("C16", "Requests that make no sense are rejected, valid ones are not",
  "Instead of a program, an error comes from: a profile with neither offset or without a tool diameter; profiling anything but wires and faces; a pocket "
  "with a stepover that is not positive, with an unknown engine, with an area (or an area to avoid) above the job plane or (clipper) one that is not level; drilling without a depth, "
  "without anything to drill or with an object that is not a face, wire or point; tabs spaced no wider than they are; plunges and retractions with an X or Y target; "
  "paths with edges that are no lines, arcs or splines. Requests just inside these limits are accepted.",
  ["inputs", "configurations"], "all such requests, also as the second of several objects",
  "The tests hold a handful of the rejected requests; a limit that shifts or a check that looks at the first object only goes unnoticed, and a nonsensical program reaches the machine.",
  PATHS + [F + "fluent.py", F + "operations/pocket_cq.py", F + "operations/drill.py", F + "operations/tabs.py", F + "command.py", F + "utils/utils.py"],
  [("pocket", F + "operations/pocket.py pocket, generate_depth_map"), ("drill", F + "operations/drill.py Drill.__post_init__"), ("profile", F + "fluent.py Job.profile"), ("vertical motions", F + "command.py PlungeCut, PlungeRapid, Retract")],
  AI + "; no path from a senseless request to a normal return",
  NOTE + "the requests are enumerated: constants at and around each limit, abstract shapes")


p("C15", "Every wire, edge and pocket path is cut completely, in order and once",
  "The path for a list of wires contains, wire by wire and edge by edge in order, one traversal of each edge from its oriented start to its oriented end. A wire or a pocket path that is "
  "entered along the way (because the previous one ends within the stepover) is cut from the entry all the way round back to it, including both parts of the edge "
  "or segment that holds the entry. Pocket paths are cut at the depth of their area, along the outline of the area: each of its edges in order, from its oriented start to its oriented end.",
  ["inputs"], "all edge kinds, positions of the entry (corner or inside an edge) and numbers of wires up to three",
  "Entries along the way need particular distances; the tests have few, and compare whole programs without asking whether a piece is missing.",
  [F + "routers.py"], [("wires", F + "routers.py route_wires, route_edge, shift_edges"), ("polygons", F + "routers.py route_polyface_outers, shift_polygon")],
  AI + "; the path grammar is run against the traversals that are due, as an automaton over (edge, fraction of the edge)",
  NOTE + "wires of up to three edges and paths of up to five points with symbolic coordinates; the nearest point is an arbitrary one (distance_to_wire, distance_to_path are cut), and for polygons of known points the one the code works out")


p("C20", "A pocket clears, at each depth, the areas that deep and nothing to avoid",
  "At the depth of each requested area the pocket clears the union of all requested areas that are at least that deep (an area with islands without its islands, "
  "but with the areas that lie inside the islands), except what is to be avoided at least as high as that depth; nothing is cleared at other depths. Overlapping areas, islands and "
  "areas to avoid add up, whichever way their paths turn. The same holds for the cq engine, which moves faces to the depth they are cut at.",
  ["inputs"], "all positions of a point relative to two areas with islands and two areas to avoid, for all orders of their depths, both engines",
  "The tests have few pockets with several areas, islands or areas to avoid; what overlaps or encloses what decides which boolean operations matter.",
  [F + "operations/pocket.py", F + "operations/pocket_cq.py", F + "utils/geometry_op.py"],
  [("areas by depth", F + "operations/pocket.py build_pocket_ops, generate_depth_map; operations/pocket_cq.py build_pocket_ops"),
   ("boolean operations", F + "utils/geometry_op.py prepare_path_boolean_op, union_poly_tree, difference_poly_tree, union_poly_faces, poly_tree_to_poly_faces, offset_polyface")],
  AI + "; clipper operations are kept as terms and evaluated for every membership of a point (winding numbers and fill rules)",
  NOTE + "clipper's and OCCT's own algorithms; two areas and two areas to avoid stand for any number; the result of an operation is taken to be two faces with one island each")


p("C22", "A pocket is filled in passes from its boundary inwards, none missing or double",
  "An area of a pocket is cut along its boundary and along every contour that repeated offsets of one stepover, without the islands, lead to, until nothing is left, and once around each island. "
  "No pass is cut twice, every pass lies at the depth of the area, and within a sequence of passes each is followed by the next one outwards.",
  ["inputs"], "all ways contours split (tree shapes up to three passes deep with none to two islands, up to 24 passes deep or 20 parts wide with none), both engines",
  "How contours split depends on the shape of the pocket; the tests compare single programs and would accept a missing pass in a part they do not have.",
  [F + "operations/pocket.py", F + "operations/pocket_cq.py", F + "utils/tree.py"],
  [("passes", F + "operations/pocket.py fill_pocket_contour_shrink"), ("passes, cq engine", F + "operations/pocket_cq.py fill_pocket_contour_shrink"), ("order of passes", F + "utils/tree.py Tree")],
  AI + "; offset contours are symbols with a given family tree, loops over them are followed iteration by iteration",
  NOTE + "how contours split is enumerated (eight trees), clipper's and OCCT's offsets are taken to succeed")


p("C18", "With a stepdown, no pass goes deeper than that below what is already cut",
  "A profile or pocket (both engines) with a stepdown is cut in levels from the top down: no level lies more than one stepdown below the job plane or the level cut before it (for a pocket: or below a "
  "shallower area that contains it and has been finished), each level holds all passes, and the last one is exactly the wire or area that was asked for. Without a stepdown there is only that last level.",
  ["inputs"], "16 profiles and 16 arrangements of pocket areas by depth and containment, with up to eight stepdowns each, including those that don't divide the depth",
  "Whether the last or first level is too thick depends on the remainder of a division; the tests have few stepdowns that don't divide the depth, and compare programs rather than depths.",
  [F + "operations/profile.py", F + "operations/pocket.py", F + "operations/pocket_cq.py", F + "utils/geometry_op.py"],
  [("profile", F + "operations/profile.py profile"), ("pocket", F + "operations/pocket.py apply_stepdown, determine_stepdown_start_depth, pocket_clipper"), ("cq engine", F + "operations/pocket_cq.py pocket_cq")],
  AI + "; the levels are computed with exact numbers, loops followed iteration by iteration, and compared with what is cut already",
  NOTE + "depths, stepdowns and containment of areas are enumerated; a wire below the plane keeps its edges when it is cut with the plane")


p("C21", "Passes are only linked by a feed move when they are within a stepover",
  "From the end of one pass of a pocket the tool is fed straight to the next pass only when that pass comes within the stepover that the pocket is filled with, and then to a point on it; the distance is "
  "measured from where the previous pass really ended, also when that pass was itself entered along the way. Between all other passes, and always without a stepover, the tool is retracted.",
  ["inputs"], "all ways through the routing of two and three passes, for paths with 300 (thorough: 3000) placements of symbolic points per scene, for wires with the distance OCCT measures",
  "Whether two passes are linked depends on the distance of contours that result from offsets; the tests compare programs of a few pockets with one stepover.",
  [F + "routers.py", F + "utils/geometry_op.py", F + "utils/utils.py", F + "operations/pocket.py", F + "operations/pocket_cq.py"],
  [("links of paths", F + "routers.py route_polyface_outers; utils/geometry_op.py distance_to_path; utils/utils.py dist_to_segment_squared"),
   ("links of wires", F + "routers.py route_wires, distance_to_wire"), ("stepover", F + "operations/pocket.py pocket_clipper; operations/pocket_cq.py pocket_cq")],
  AI + "; the condition on each way to a link, as a formula over the points and the stepover, is compared with the length of that link",
  NOTE + "the formulas are compared at many placements rather than proved equal; OCCT's distances are taken to be right")


p("C23", "Tabs stand where they are asked for, at full height",
  "A profile with tabs cuts the whole wire forwards and without gaps, except that over each tab the path runs at the height of the tabs above the bottom of the wire, with vertical edges on both sides. "
  "EdgeTabs has one tab per full spacing on each edge (only the edges of the given type), evenly spaced; WireTabs has `count` of them evenly along the wire, the first in the middle of its start; each is "
  "`width` long along the wire on any kind of edge, and those that overlap are one. All levels of a stepdown leave the tabs standing; levels at or above their height are cut as they are. "
  "The same tabs object can be used for any number of wires.",
  ["inputs"], "99 wires of one to five edges in both orientations, straight and curved, tabs within edges, over corners and several edges, ending at corners and overlapping, and 5 profiles with stepdowns",
  "Whether a tab ends just before, on or after a corner, or covers an edge, depends on lengths and counts; the tests compare two programs with tabs.",
  [F + "operations/tabs.py", F + "operations/profile.py", F + "utils/utils.py"],
  [("places of tabs", F + "operations/tabs.py EdgeTabs, WireTabs"), ("the path over and between tabs", F + "operations/profile.py apply_tabs; utils/utils.py edge_oriented_param, edge_end_point, edge_start_point"),
   ("levels", F + "operations/profile.py profile")],
  AI + "; the pieces of the resulting wire, with their parameters, curves, orientations and locations, are compared with the places of the tabs",
  NOTE + "lengths, counts and widths are enumerated; OCCT's ordering of the edges of a wire, paramAt and projection are taken to be right")


p("C32", "Every hole is drilled once, at its centre, to the full depth",
  "Drilling points, wires and faces (of a list, a workplane, or alone) drills each hole exactly once at its centre in job coordinates, to the given depth below the job plane whatever the sign it is given with: "
  "a point is a hole, a wire is a hole, a face with inner wires is a hole for each of them, any other face is one itself. The next hole is always the nearest one that is left.",
  ["inputs"], "14 kinds of selections with 200 placements of their holes (thorough: 2000), and 12 lists of up to six holes at given places, in lines, in grids, at the same place (thorough: 40 more)",
  "The order depends on the places of the holes and whether one is lost on coincidences between them; the tests drill few holes in general position.",
  [F + "operations/drill.py", F + "operations/strategy.py", F + "fluent.py"],
  [("holes", F + "operations/drill.py Drill.__post_init__"), ("order", F + "operations/strategy.py Strategy._pick_nearest; utils/utils.py cached_dist2")],
  AI + "; the plunges on each way through the operation, whose conditions are evaluated for the placements of the holes, are compared with the holes",
  NOTE + "places of holes are enumerated; OCCT's centre of a face and transformation of a point are taken to be right")


p("C27", "A profile cuts inner wires before outer ones, each once and as asked",
  "Profiling faces and wires (of a list, a workplane, or alone) cuts each inner wire and each outer wire that has an offset exactly once, all inner wires before any outer one (so that the part is still held while "
  "its holes are cut), and within each group in the order given. Outer wires get the outer offset, inner wires the inner one, and all of them the stepdown and the tabs that were given. Profiled wires are cut in the order given.",
  ["inputs"], "9 selections of faces with up to two holes and wires, in three ways to give them, with both offsets or one of them, with and without stepdown and tabs, and lists of up to three wires",
  "The order matters only for selections with several faces and holes; the tests profile single faces.",
  [F + "fluent.py", F + "utils/utils.py"],
  [("order and settings", F + "fluent.py Job.profile, Job.wire_profile"), ("wires of a selection", F + "utils/utils.py extract_wires")],
  AI + "; the profiled wires, with the settings they reach the generator with, are compared with what the selection asks for",
  NOTE + "the generator of a wire's path is an opaque function here; OCCT's inner and outer wires of a face are taken to be right")


p("C25", "What is drawn of a job is where the tool goes",
  "Job.to_shapes (as edges or as shapes) and Job.show draw every motion of every operation except the operation's first one (the approach from an unknown place) exactly once: a line from the motion's start to its end, "
  "for an arc the arc from start through its middle to the end (a line if no arc can be made). A motion that goes nowhere is not drawn. Everything is placed once by the job's plane, so that it lies on the model, and each operation "
  "is shown under a name of its own.",
  ["inputs"], "each motion class with arbitrary ends; jobs of up to three operations, with and without tool changes, drawn five ways",
  "The picture is what users check a program by before they run it; the tests only look at how many edges there are.",
  [F + "visualize.py", F + "command.py", F + "fluent.py"],
  [("shape of a motion", F + "command.py to_ais_shape"), ("placement", F + "visualize.py visualize_job, visualize_job_as_edges"), ("which motions", F + "fluent.py Job.show, Job.to_shapes")],
  AI + "; the shapes which reach the caller or the viewer are compared with the motions of the job",
  NOTE + "OCCT's makers of lines, arcs and transformations are taken to do what they say; colours and arrows are not checked")


p("C26", "A program depends on the job and its arguments only",
  "The same calls give the same program, in every run and whatever was generated before: no function of the package reads back state that another call left behind in a module, a class or a default argument (apart from memos whose "
  "key holds everything the kept value depends on), none reads the clock, randomness, the environment or object addresses, none takes the elements of a set of objects or strings in the set's order, and cached results are computed "
  "from unchanging values only and are not changed afterwards.",
  ["histories"], "every function of the package, including the visualisation and 3D operations",
  "A test starts from a fresh state and looks at one program; leftovers show only in the second one.",
  [F + "utils/utils.py", F + "utils/geometry_op.py", F + "operations/profile.py", F + "operations/pocket.py", F + "visualize.py"],
  [("caches", F + "utils/utils.py cached_dist2; " + F + "utils/geometry_op.py PathFace.polygon; " + F + "visualize.py cached_occ_color"),
   ("module state", F + "operations/profile.py DEBUG, TAB_ERRORS"), ("set of depths", F + "operations/pocket.py apply_stepdown")],
  "effect and escape analysis over the syntax trees: uses of module and class state, default arguments, caches, nondeterministic sources and orders of sets, classified as write, read, or keyed memo",
  "syntactic: state reached through aliases of a container, or kept inside library objects, is not followed; the kernel's own results are taken to be reproducible")

p("C28", "Whatever the package refers to exists, and it loads with what it requires",
  "Importing cq_cam and making, saving or viewing jobs needs cadquery, numpy, pyclipper, shapely and the standard library only: opencamlib, matplotlib, cq_editor and the like are imported where they are asked for, if at all. On no branch "
  "does a function use a name that is bound nowhere, an attribute that its object, class or module of the package does not have, or call a function, method or constructor of the package with arguments that it does not take.",
  ["every input"], "every module of the package, the 3D operation included; the arguments and attributes of objects of cadquery and other libraries are outside",
  "A test finds a bad reference only on a branch it takes, in an environment that lacks the optional package.",
  [F + "fluent.py", F + "operations/", F + "utils/", F + "command.py", F + "visualize.py"],
  [("imports", F + "__init__.py, and what it imports"), ("calls", "every call of a function of the package"), ("attributes", "uses of self, of annotated parameters, of locals made by a constructor, of modules and enums")],
  "name, attribute and signature resolution over the syntax trees, and the closure of imports at load time",
  "types of objects are only followed through annotations, self, constructors and fields of ours; names bound on some paths only are taken to be bound")

na("C17", "Filling a pocket and routing its paths always come to an end",
  "For every pocket whose arguments are accepted, the shrinking of its boundary comes to an end, and so do the levels and the routing of its paths.",
  ["every input"], "all areas, stepovers and depths that are accepted",
  "Tests fill a handful of simple shapes; a shape whose offsets never become empty would hang the program.",
  [F + "operations/pocket.py", F + "operations/pocket_cq.py", F + "utils/tree.py"],
  [("filling", F + "operations/pocket.py fill_pocket_contour_shrink"), ("cq engine", F + "operations/pocket_cq.py fill_pocket_contour_shrink")],
  "The loop ends when clipper's or OCCT's offsets become empty: a numeric fact about library geometry for which the source holds no ranking argument. What the source alone decides is checked elsewhere: a stepover that isn't positive is rejected (C16), and the loop ends when nothing is left (C22).")

na("C30", "Sampled curves stay within the tolerance of the curve they stand for",
  "The straight moves that replace a spline, and the polygons that replace curves in the clipper engine, stay within a set distance of the curve.",
  ["every input"], "all splines and arcs, all tool sizes and precisions",
  "Tests compare a few sampled curves with recorded points.",
  [F + "utils/geometry_op.py", F + "routers.py", F + "utils/interpolation.py"],
  [("sampling", F + "utils/geometry_op.py wire_to_path")],
  "The distance between chord and curve depends on the curvature of the geometry met at run time; the code samples by length or count and has no bound in it that an analysis of the source could check.")

na("C33", "3D surfacing keeps the tool above the model, within its boundary",
  "The paths of the 3D operation never take the cutter below the surface of the model, and stay inside the given boundary.",
  ["every input"], "all models, cutters and boundaries",
  "The test of the operation cannot run without opencamlib.",
  [F + "operations/op3d.py"], [("surfacing", F + "operations/op3d.py Surface3D")],
  "The drop-cutter computation lies in opencamlib, a C++ library that is not installed here, and the operation cannot be constructed in its present state (known finding of C28): there is no behaviour in the source to decide.")
