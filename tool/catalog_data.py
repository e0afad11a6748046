INP = ["inputs"]
T0 = "src/topology.rs"
S0 = "src/segments.rs"

p("P01", "The inside test and operands of a boolean operation are the requested ones",
  """For every fill rule and every operation, the outcome of a boolean operation on two sets is built from exactly the two
  given paths (first set as first operand, second as second), and the inside test that selects the output's regions accepts
  winding numbers (a, b) exactly if the truth table of the operation (union, intersection, difference, exclusive or) says so for "inside the first
  set" and "inside the second set", where inside means odd winding for the even-odd rule and non-zero winding for the
  non-zero rule.  Operands, fill rule, operation and accuracy are handed through both entry points unchanged; the accuracy that binary_op
  chooses by itself is at least 1e-6, and at least eight times the spacing of floats (f64::EPSILON) at the largest coordinate of both paths.""",
  INP, "all pairs of 32-bit winding numbers, 2 fill rules x 4 operations, both public entry points",
  """The tests run a handful of small shapes whose winding numbers are -1, 0 or 1; they never compare the output region with
  the operation's truth table, and negative or even non-zero windings hardly occur.""",
  ["src/lib.rs", T0],
  [("binary_op / binary_op_with_eps", "src/lib.rs"), ("Topology::from_paths_binary", T0), ("Topology::contours", T0)],
  ["returned contours"],
  "abstract interpretation of the compiler's MIR: dataflow of the operands and outcome tables of the inside predicate",
  """All paths of both entry points, for each of the 8 concrete (rule, operation) pairs; the predicate's table is compared on
  a finite grid that represents all residue and sign classes its conditions can distinguish.""")

p("P02", "Winding numbers obey the documented algebra",
  """An edge contributes +1 or -1, by its direction, to the winding number of the set it is tagged with and 0 to the other
  one; winding numbers of two sets add component by component, in-place addition agrees with addition, the default is the
  zero of that addition, and they are equal exactly when all components agree.""",
  INP, "all winding numbers (below overflow), tags and directions",
  "No test adds winding numbers or inspects a contribution in isolation; a slip in one component only shows on inputs where both sets overlap with particular windings.",
  [T0], [("WindingNumber for BinaryWindingNumber / i32", T0), ("Add, AddAssign, Default, Eq", T0)],
  ["WindingNumber::single", "Add", "AddAssign"],
  "abstract interpretation of MIR on symbolic arguments, outcome tables compared with the algebra",
  "Complete over all symbolic inputs.")

p("P03", "Output half-edge accessors are mutually consistent",
  """The winding number on the clockwise side of an output half-edge is the one on the counter-clockwise side of the other
  half of the same edge; the other half of the other half of a half-edge is itself and is never the half-edge; the first and
  second half of an edge are halves of that edge and say so.  Reading and writing a per-half-edge table at the same half-edge
  reach the same element, at different half-edges different ones, and the end point of a half-edge is the point recorded for
  exactly that half.""",
  INP, "all half-edges of all topologies",
  "The tests never compare the two directions of one edge; a swapped side shows only where the two windings differ and a walk passes in that direction.",
  [T0], [("winding_clockwise / winding_counter_clockwise / point", T0), ("OutputSegIdx::first_half / second_half, HalfOutputSegIdx::other_half", T0), ("Index / IndexMut for HalfOutputSegVec", T0)],
  ["Topology::winding_clockwise", "Topology::winding_counter_clockwise", "Topology::point"],
  "abstract interpretation of MIR on a symbolic topology; composition of accessors compared as terms",
  "Complete over all symbolic half-edges.")

p("P04", "Winding numbers are accumulated correctly along the sweep line",
  """Going from west to east along a sweep line, the winding number east of an output edge that goes down from the line is the
  winding number west of it plus the contribution of exactly one edge, namely that of the input segment the output edge is
  recorded to come from, counted with that input segment's tag and its original direction.  Each group of edges starts at the
  winding number of the output edge to its west, or at zero if there is none.  Horizontal edges start from the same
  accumulated value and are counted with their direction of travel, without changing it for the edges going down.""",
  INP, "all sweep-line events: any number and order of segments going down and of horizontal segments, any tags, any winding type",
  """The tests only assert absence of panics or compare snapshots of a few shapes; wrong windings for unusual configurations
  (overlapping horizontals travelled backwards, several sets) go unnoticed.""",
  [T0], [("Topology::process_sweep_line_range", T0), ("Topology::from_segments", T0)],
  ["Topology::winding", "returned contours"],
  "abstract interpretation of MIR with generalised loops; inductive check of every loop step that creates an output edge",
  "All loop steps and exits of the range-processing function, helpers inlined.",
  state=[("winding", "winding numbers per output edge", T0), ("orig_seg", "origin of an output edge", T0)])

p("P05", "Boolean operations reject NaN and infinite coordinates",
  """If any control point of either input path of a boolean operation has a coordinate that is not a number or is infinite,
  the operation answers with an error and computes nothing from the path: the error for NaN when there is a NaN and nothing is
  infinite, the error for infinity when something is infinite and nothing is NaN.""",
  INP, "all pairs of Bezier paths, both public entry points",
  "The tests never pass a non-finite coordinate; there are many positions a bad value can be in (start, control or end point of any element of either path).",
  ["src/lib.rs"], [("check_finite", "src/lib.rs"), ("binary_op / binary_op_with_eps", "src/lib.rs")],
  ["Result of binary_op / binary_op_with_eps"],
  "abstract interpretation of MIR: guard-dominates-use check on all call paths",
  "Which coordinates kurbo's own finiteness tests look at is trusted.")

p("P06", "Paths that do not close are rejected, closed ones are not",
  """Where closed paths are required, a path is accepted only if each of its subpaths ends exactly where it starts, and a
  subpath that does not is answered with the non-closed-path error carrying that subpath's start and end point.  The
  boolean operations hand exactly that error on and never turn it into a success or another error.""",
  INP, "all Bezier paths, with any number of subpaths, segments and input paths",
  "A single test passes a non-closed path; whether every subpath of a compound path is examined, and with which points, is never tested.",
  [S0, "src/lib.rs", T0], [("Segments::add_bez_path", S0), ("Topology::from_paths", T0), ("binary_op / binary_op_with_eps", "src/lib.rs")],
  ["Result of add_bez_path, from_paths, binary_op"],
  "abstract interpretation of MIR: path-sensitive comparison of end points on every exit",
  "All exits and subpath-finishing loop steps.")

p("P07", "Parallel tables always have equal lengths",
  """However segments are added to the arena of input segments (including calls that fail), afterwards all its per-segment
  tables have one entry per segment, and likewise all per-output-edge tables of the topology have one entry per output edge
  after every creation of an output edge; so every index that was handed out is valid for, and refers to the same edge in,
  all of them.""",
  ["inputs", "histories"], "all sequences of additions, all input shapes, all exits including errors",
  "The tests look at one table after one addition; a table missing an entry on one branch only shows when a later index is used.",
  [S0, T0], [("Segments::add_*", S0), ("Topology::new_half_seg / process_sweep_line_range", T0)],
  ["indexing never panics", "Segments accessors"],
  "abstract interpretation of MIR: relational growth invariant on all loop steps and exits",
  "Induction over loop steps; holds for any input length.",
  state=[("Segments", "parallel per-segment tables", S0), ("Topology", "parallel per-output-edge tables", T0)])

p("P08", "The entrance and exit lists cover every stored segment",
  """After segments were added (polylines or Bézier paths, singly or in groups, in one or several calls), the list of entrances has one entry for
  every stored segment, with its index and the height at which it starts in sweep order, and the list of exits one for
  every stored segment that is not horizontal, with its index and the height at which it ends; horizontal segments
  have none.  Both lists are sorted by ascending height.  The accessors give out these lists.""",
  INP, "all polylines and paths, all sequences of additions that succeed",
  """A segment without an entrance is never seen by the sweep; one without an exit stays in the sweep line for ever.  The tests
  use few ways of building the arena, and a missing entry shows only for particular shapes (several subpaths, several calls).""",
  [S0, T0],
  [("Segments::update_enter_exit", S0), ("Segments::add_points", S0), ("Segments::add_closed_polylines", S0), ("Segments::add_bez_path", S0), ("Topology::from_paths", T0), ("Topology::from_polylines_binary", T0)],
  ["Segments::entrances", "Segments::exits"],
  "abstract interpretation of MIR; induction over the loops that fill the lists; the sorts' comparison functions are interpreted on symbolic elements",
  "Complete up to the models of the standard library; relies on P09 for curves never being horizontal.")

p("P09", "Stored segments run in sweep order and remember their direction",
  """Every segment added to the arena is stored so that it runs downwards (or from left to right if it is horizontal), keeps
  all control points of the piece of input it stands for, reversed as a whole or not at all, and is marked as positively
  oriented exactly if it was not reversed.  The original start and end of a segment, as the accessors give them, are those of
  the piece in its input direction, and the recorded input segment and parameter range are the piece's own.""",
  INP, "all polylines and Bezier paths, all orderings of end point coordinates including ties",
  "The tests contain few orientations; ties in y, and reversed curves whose control points must be reversed too, are barely sampled.",
  [S0, "src/geom.rs"], [("Segments::add_points", S0), ("Segments::add_path", S0), ("Segments::oriented_start / oriented_end", S0), ("Segment::new / reverse", "src/geom.rs")],
  ["Segments iteration and accessors"],
  "abstract interpretation of MIR; outcome tables over all weak orderings of the coordinates",
  "kurbo's subsegment and the monotone splitter are opaque: only what is stored from their answer is decided.")

p("P10", "Contour links connect consecutive segments of the same subpath",
  """After adding a path, the successor (predecessor) link of each segment is the segment added directly after (before) it
  within the same subpath, and the last and first segments of a subpath are linked to each other if the subpath is closed
  and have no successor and predecessor if it is not.  A Bezier subpath counts as closed exactly if its last segment ends
  where its first one starts.""",
  INP, "all polylines and Bezier paths with any number of subpaths and segments",
  "No test reads the links; they only matter downstream for particular chains of segments.",
  [S0], [("Segments::add_points", S0), ("Segments::add_path", S0), ("contour_prev / contour_next", S0)],
  ["Segments::contour_prev", "Segments::contour_next"],
  "abstract interpretation of MIR: inductive loop-step invariant and path-sensitive end condition",
  "All loop steps and exits, for any number of segments.",
  state=[("contour_prev, contour_next", "links to the neighbours in the subpath", S0)])

p("P11", "Comparisons of curves are of the pair asked about, and cached both ways",
  """Asking a comparison cache about segments i and j gives the comparison computed from the curves of segment i and
  segment j, in this order, with the cache's own tolerance and accuracy and with its vertical slop applied; after that the
  cache holds this comparison for (i, j) and its mirror image for (j, i), nothing else is stored, and a pair that is held is
  answered with what is held. A new cache holds nothing and takes the tolerance and accuracy it is given; its slop is the
  tolerance, or zero when made without slop. The sweep's ordinary comparisons have tolerance eps, its conservative ones four
  times eps, both with accuracy eps / 2, and each of its comparison functions asks its own cache about its own segments, in
  the order asked.""",
  INP, "all segments, all pairs, all histories of the cache",
  "A comparison that is mixed up or mirrored wrongly shows only when the swapped pair is asked about later, with curves close enough for the tolerances to matter.",
  ["src/order.rs", "src/sweep/sweep_line.rs"],
  [("ComparisonCache::compare_segments", "src/order.rs"), ("ComparisonCache::new", "src/order.rs"), ("Sweeper::compare_segments", "src/sweep/sweep_line.rs"), ("Sweeper::compare_segments_conservatively", "src/sweep/sweep_line.rs")],
  ["the comparison returned", "what the cache answers later"],
  "abstract interpretation of the cache with the comparison of two curves uninterpreted; every path's result and stores are checked",
  "Pairs of different segments; what intersect_cubics computes is P60.")

p("P12", "Comparisons used for sorting and queues are total orders",
  """Points compare first by height (y) and then by horizontal position, the float wrapper by value and segment indices by index.
  Intersection events compare first by height, and events that differ in height or segments never compare equal, so that none is lost in the queue.
  Output events compare by their smallest and then their largest horizontal position.  In the queue of the positioning
  step the entry with the smallest height is the greatest, and entries for different edges or heights never compare equal.  All these comparisons are total
  orders (reflexive, antisymmetric, transitive) on values without NaN, partial comparison always gives the same answer, and
  equality holds exactly when the comparison says equal (except for output events, which may differ in other fields).""",
  INP, "all pairs and triples of values without NaN",
  "The tests compare a few points; a comparison that is not transitive or ignores a component only shows in particular sort orders.",
  ["src/geom.rs", "src/num.rs", "src/sweep/sweep_line.rs", "src/sweep/output_event.rs", "src/position.rs"],
  [("Ord for Point", "src/geom.rs"), ("Ord for CheapOrderedFloat", "src/num.rs"), ("Ord for IntersectionEvent", "src/sweep/sweep_line.rs"), ("Ord for OutputEvent", "src/sweep/output_event.rs"), ("Ord for HeapEntry", "src/position.rs")],
  ["Ord::cmp", "PartialOrd::partial_cmp", "PartialEq::eq"],
  "abstract interpretation of MIR on symbolic values; outcome tables checked over all weak orderings",
  "Complete: the tables depend only on the relative order of the components.")

p("P13", "Half-edges form complete rings around every point",
  """Whenever a range of the sweep line is turned into output edges, one point is added per step along the line, and all half-edges that touch
  the line there are recorded as lying at this very point and linked pairwise, in both directions, into one closed ring.  Clockwise the ring
  consists of the horizontals starting at the point and the edges going down from it (both from east to west), the horizontals
  ending there and the edges that come from above (from west to east).  No half-edge is left out or linked twice, and no link of
  another point changes.""",
  INP, "all sweep-line ranges and all numbers of edges of every kind at a point",
  """Only points where three or more kinds of edges meet can tell a wrong ring from a right one, and a wrong ring shows up far away, as a contour that
  takes a wrong turn.""",
  [T0],
  [("process_sweep_line_range", T0), ("add_segs_clockwise", T0), ("add_segs_counter_clockwise", T0), ("second_half_segs", T0)],
  ["Topology::contours", "Topology::compute_paths"],
  "abstract interpretation of MIR; link and sequence analysis going back over the loops of a step",
  "The order within the range's own lists (connected up, connected down, active horizontals) is not decided here.")

p("P14", "Coincident output edges are merged, and nothing else is",
  """After a topology is built, an output edge is merged with its clockwise neighbour at its first end point exactly if the two also share their
  other end point and, unless they are horizontal, the neighbour is the next edge to the west in the sweep line (passing over
  edges that are gone) and all control points of the two input curves, cut to the edge's heights, are within eps of each
  other.  Merging removes the edge; the neighbour keeps its clockwise winding number and takes over the counter-clockwise one
  of the removed edge, and is removed as well exactly if its two winding numbers are then equal.  A removed edge is unlinked
  from the ring of edges at both its end points, leaving the other edges there in order, and never appears in the enumeration
  of edges, which lists all others; no edge is made as a removed one.""",
  INP, "all topologies and winding types, any number of coincident edges",
  """Only a few snapshots contain coincident edges, hardly ever three of them or pairs that cancel; a link left over at one
  end shows only when a later walk turns around that point.""",
  [T0], [("Topology::merge_coincident", T0), ("Topology::delete / delete_half", T0), ("Topology::segment_indices", T0)],
  ["Topology::segment_indices", "Topology::winding", "returned contours"],
  "abstract interpretation of MIR: every step of the merging loop compared with a reference transformer",
  "Complete over all steps; cutting a curve to heights is opaque.  Relies on P03.",
  state=[("deleted", "edges that were merged away", T0), ("point_neighbors", "ring of half-edges at each point", T0)])

p("P15", "Contours are placed in the hierarchy by what lies to their west",
  """For every topology and every inside predicate, the contour walk places a walked contour like this.  Let the west
  neighbour of its first edge be the first edge on the chain of recorded west links that is not deleted and is on the boundary
  of the region (the predicate differs on its two sides).  Without one, the contour is an outer one without parent.  Otherwise
  it is an outer contour exactly if the outside is east of that neighbour; its parent is the contour the neighbour belongs to if the two are
  of different kinds (one outer, one inner), and that contour's parent if they are of the same kind.  When a walk is cut into several contours
  because it meets a point twice, this placement is that of the contour with the walk's first edge; all others are inner ones,
  its children if it is an outer one, else children of its parent.  Every edge put into a contour is recorded
  with that contour's index, so that the search finds it.""",
  INP, "all topologies, winding types and inside predicates; any number of edges and contours",
  """The snapshots print contours but never check parent and kind against the region; nested and touching contours with
  deleted or non-boundary edges between them are hardly sampled.""",
  [T0], [("Topology::contours", T0)],
  ["Contour::outer", "Contour::parent", "Contours::grouped"],
  "abstract interpretation of MIR with generalised loops and an arbitrary predicate; path-sensitive comparison with the placement rule",
  "All paths of the walk, helpers inlined; relies on the west links recorded by the sweep (not decided here).",
  state=[("contour_idx_by_edge", "contour each edge belongs to", T0)])

p("P16", "The sweep stops at every event height and handles everything due there",
  """The next height of the sweep is the smallest among the height of the next entrance not handled yet, that of the next exit
  not handled yet and that of the lowest scheduled intersection, whichever of them are left; there is none exactly if none of them is left.
  Asking for the entrances at a height gives exactly those from the first one not handled yet up to, and not including, the first one above
  (later than) that height, and counts exactly these as handled; the same goes for exits; entrances, exits and intersections do not affect each
  other's bookkeeping. Asking for an intersection at a height removes and gives the first scheduled one if it is at that height, and leaves the schedule
  alone if the first one is later or there is none. Scheduling an intersection adds it unchanged. Each step of the sweep takes the next height (ending the
  sweep if there is none), advances to it before anything else, then handles the segment of each due entrance once and in turn, then that of each due exit,
  then due intersections (left and right as scheduled) until no more is due, then collects the changed intervals, and starts the line before the first of these.""",
  INP, "all states of the event queue",
  "An event handled late, twice or never needs particular coincidences of heights between entrances, exits and intersections.",
  ["src/sweep/sweep_line.rs"],
  [("EventQueue::next_y", "src/sweep/sweep_line.rs"), ("EventQueue::entrances_at_y", "src/sweep/sweep_line.rs"), ("EventQueue::exits_at_y", "src/sweep/sweep_line.rs"), ("EventQueue::next_intersection_at_y", "src/sweep/sweep_line.rs"), ("Sweeper::next_line", "src/sweep/sweep_line.rs")],
  ["EventQueue's functions", "the steps of Sweeper::next_line"],
  "Abstract interpretation of the queue (all combinations of what is left, loops by induction) and of the driver with its steps recorded in a log",
  "That the lists of entrances and exits are in order is P06, that the least intersection is the lowest is P12; what the handlers do is not part of this property.")

p("P17", "Every change of the sweep line is scanned for, and its place is noted",
  """A segment that enters: a horizontal one is only added to the horizontal segments. For any other its place is looked up at the current height with the ordinary comparisons; if its contour's
  previous segment along the direction of the sweep (the previous one if positively oriented, the next one otherwise) started above and its entry is at that place or just before, it goes on in that entry,
  which keeps that one as its old segment, enters and exits, and takes the new segment's extent widened by the tolerance; otherwise a fresh entry (entering, not
  exiting, nothing remembered) is inserted there. A segment that leaves: nothing happens if its entry went to its successor; otherwise its entry is marked to leave. An intersection of
  a left segment that is before the right one: the left one moves, with those strictly between the two that are not about to leave and that the left one compares "left of" at the current height, unless
  one of these compares left of the right one: then the crossing is put off to the earlier of the ends of the two orders and nothing else happens; the moved ones are taken out and
  put back right after the right one, in their old order. Where the left one is not before the right one, nothing moves. After every
  insertion or takeover both ways are scanned from that place, after every removal from the nearest entry to the west whose segment goes on below the current height (if any), after every leave from that one or the western neighbour (if any), and where nothing moves eastwards from the right one and westwards from the left one. The positions of entered
  and leaving segments and of the whole range between crossing ones are noted (for the latter with their old positions, where none is known yet); noting an inserted position moves those not before it up by one and keeps the list in order.""",
  INP, "all contents of the sweep line, events and results of comparisons and look-ups",
  "A missing scan, or a position that is not noted or not shifted, shows up only if segments far from the change interact later on the same line; the tests' pictures survive most such changes.",
  ["src/sweep/sweep_line.rs"],
  [("Sweeper::handle_enter", "src/sweep/sweep_line.rs"), ("Sweeper::handle_exit", "src/sweep/sweep_line.rs"), ("Sweeper::handle_intersection", "src/sweep/sweep_line.rs"),
   ("Sweeper::insert", "src/sweep/sweep_line.rs"), ("Sweeper::add_seg_needing_position", "src/sweep/sweep_line.rs")],
  ["contents of the sweep line after each event", "the scans made", "segs_needing_positions"],
  "Abstract interpretation with a log of the scans and the line they see; loops decided by induction over their steps",
  "Scans (P18), comparisons (P11) and look-ups (P35) are uninterpreted; the ordered tree is taken as a sequence (P26).",
  state=[("line.segs", "the entries of the sweep line", "src/sweep/sweep_line.rs"), ("segs_needing_positions", "positions to be reported", "src/sweep/sweep_line.rs")])

p("P18", "Scanning for intersections stops only where the rest cannot matter",
  """Scanning to the right (left) of a position of the sweep line looks at the neighbours one after the other, outwards, starting with the nearest.
  Nothing is scanned for a segment that ends at the current height; neighbours that end at the current height are passed over, and no others are.
  A scan ends before the last neighbour only at one whose extent lies more than 1.5 times the tolerance beyond the own one (the own greatest x to
  its least x, to the right; mirrored to the left), or after one for which the first interval of the cautious (conservative) comparison of the two (the western one first) that ends above (later than) the current height is "left of" and ends
  no earlier than the bound, which is the least of the own end, the ends of the neighbours looked at so far (including this one), and the heights scheduled by this scan.
  For every other neighbour the ordinary comparison of the two, the western one first, is asked for the next interaction after the current height: a crossing is scheduled
  at its height, or the current one if that is later, with the western segment as left; a touch is scheduled if it is later than the current height, at its height and with
  the two exchanged; nothing else is scheduled.""",
  INP, "all contents of the sweep line and all results of comparisons, both directions",
  "A missed intersection needs three segments of which the scan stops at the second one, or an interaction exactly at the current height; the tests' pictures survive either.",
  ["src/sweep/sweep_line.rs"],
  [("Sweeper::intersection_scan_right", "src/sweep/sweep_line.rs"), ("Sweeper::intersection_scan_left", "src/sweep/sweep_line.rs")],
  ["events scheduled by the two scans", "where they stop"],
  "Abstract interpretation; the loop over the neighbours is decided by induction over its steps",
  "Comparisons and the extents of segments are taken as uninterpreted results (P11, P24, P29 decide the former); that a cautious comparison is right about later heights is not part of it.")

p("P19", "Moving on takes exactly the finished entries out of the sweep line",
  """When the sweep moves on to the next height, every entry of every changed interval is reset (no longer entering, leaving or in a changed interval, no old position and
  no old segment remembered; its segment and its extent stay), and no others are. Of the noted positions exactly those of entries whose segment leaves and whose contour no other segment
  continues in the same entry (as it is before anything is reset) are taken out of the line: each once, from the last to the first, after the reset. The height becomes the new one, and no noted positions, horizontal
  segments or changed intervals are left. Nothing else of the sweep's state changes.""",
  INP, "all contents of the sweep line, noted positions and changed intervals",
  "An entry taken out twice, or at a position that has shifted, needs a position that is noted twice or several segments that end at one height in an unusual order; a flag that is not reset matters only at a later height.",
  ["src/sweep/sweep_line.rs"],
  [("Sweeper::advance", "src/sweep/sweep_line.rs"), ("SegmentOrderEntry::reset_state", "src/sweep/sweep_line.rs")],
  ["contents of the sweep line after each step"],
  "Abstract interpretation; loops over positions, intervals and entries decided by induction over their steps",
  "The ordered tree is taken as a sequence (P26); that the changed intervals contain every entry whose flags are set is not part of it.",
  state=[("line.segs", "the entries of the sweep line", "src/sweep/sweep_line.rs")])

p("P20", "Changed intervals cover and merge all that happens at a height",
  """The changed intervals of a height are found as follows. Every horizontal segment, in the order of where they start, covers the entries that reach it within the
  tolerance: from the first entry that is not entirely to the west of its start, eastward up to the last one before an entry that is entirely to the east of its end; one that starts beyond
  the end of all the ones before it gets an interval of its own, which lists it, any other extends the last interval's entries and list of horizontal segments. Every noted
  position whose segment enters or leaves without another one continuing in its entry gets an interval of the entries that reach the segment's end point at this height (its start if it enters) without gap
  on both sides of it, if there are any but itself. Every noted position whose entry is in no interval yet gets one, which spreads on either side until the outermost entry is strictly left
  (right) of the next one even by the conservative comparison, and takes in, with all in between, every entry on the way that is not so by the ordinary one. All entries that are covered
  remember their old position, and those of the last kind also that they are in an interval; nothing else about entries changes. Finally the intervals are sorted by where they begin, and those
  that overlap or touch are merged: both their entries and their horizontal segments are covered by the result, and intervals that do not touch stay as they are.""",
  INP, "all contents of the sweep line, horizontal segments and noted positions",
  "An interval that ends one entry early, a mark that is missing or horizontal segments lost in a merge matter only if several segments nearly meet at one height, next to a horizontal edge or an end point that lies within the tolerance of others.",
  ["src/sweep/sweep_line.rs"],
  [("Sweeper::compute_changed_intervals", "src/sweep/sweep_line.rs"), ("Sweeper::compute_horizontal_changed_intervals", "src/sweep/sweep_line.rs"),
   ("Sweeper::compute_contour_adjacent_changed_intervals", "src/sweep/sweep_line.rs"), ("merge_adjacent", "src/sweep/sweep_line.rs"), ("ChangedInterval::merge", "src/sweep/sweep_line.rs")],
  ["changed intervals of each step"],
  "Abstract interpretation of the whole computation; how far intervals reach decided by induction over the steps of each search",
  "Comparisons and the extents of segments are uninterpreted; the ordered tree is taken as a sequence (P26).",
  state=[("changed_intervals", "the intervals of entries that may have changed at this height", "src/sweep/sweep_line.rs")])

p("P21", "Visiting a changed interval tells where each segment arrives and leaves",
  """Each visit takes the next of the changed intervals of a height, until there are no more, and cur_interval is the one visited last. Its events are in the order of their western ends. For every entry
  of the interval, gone through in the old order, there is one event for the segment the entry had before (the one taken over from, if another continues in it), with its old and its new position: it
  arrives from above unless it begins here, and goes on below unless it ends here or is taken over from. Where another segment takes over there is another event for that one, which goes down from where the first one
  leaves, and has a new position only. Where a segment arrives is, of its own end (if it ends), its own start (if it begins) or its position at this height, the one nearest that lies between the
  allowed positions and not west of the arrival before it; where it leaves is found in the same way in the new order, preferably where it arrived if that is allowed, else at its position at
  this height. Allowed is what is not west of the western extent of any segment up to this one, not east of the eastern extent of any segment from this one on, nor outside of where all of the
  segments are at this height. In the end a segment that does not come from above begins exactly at its start, and one that does not go on below ends exactly at its end. Each horizontal segment of the interval has an event from its start to its end. An interval
  of a single segment and nothing horizontal has its events at the segment's position at this height.""",
  INP, "all contents of a changed interval", 
  "A position that is clamped in the wrong order, or taken from the new order instead of the old one, differs only if several segments cross or end within the tolerance at one height; the pictures that tests compare stay the same to within a few ulps.",
  ["src/sweep/sweep_line.rs", "src/sweep/output_event.rs"],
  [("SweepLine::next_range", "src/sweep/sweep_line.rs"), ("SweepLine::next_range_single_seg", "src/sweep/sweep_line.rs"), ("feasible_horizontal_positions", "src/sweep/sweep_line.rs"),
   ("SweepLine::cur_interval", "src/sweep/sweep_line.rs"), ("OutputEvent::cmp", "src/sweep/output_event.rs")],
  ["output events of each changed interval"],
  "Abstract interpretation of the whole visit; the list of events taken apart into its loops, each decided by induction over its steps",
  "Positions and extents of segments are uninterpreted (P22, P24), minima and maxima are exact; old positions are those noted by P20; the ordered tree is taken as a sequence (P26).",
  state=[("changed_intervals", "the intervals of entries that may have changed at this height", "src/sweep/sweep_line.rs")])

p("P22", "Positioned edges keep their end points and are laid out at every height",
  """Every output edge is turned into a path that starts at the edge's first end point and ends exactly at its second; a
  horizontal edge becomes the straight line between them.  Every other edge is queued to be laid out from the height at
  which it starts, also when that is negative.  A queued height is skipped only if the edge has already been laid out
  beyond it; otherwise the edge is laid out together with the chains of neighbours found to its west and east just below that
  height (each compared with the member next to it and not clear of it there; the chain ends where there is no neighbour or it is clear),
  handed on in west-to-east order, all of them down to one common height that lies beyond no member's end, beyond no end of
  the answer of a comparison that put a member into the group, and not beyond where the next curve to the west or the east gets close to the outermost member; that height is recorded for every member, and
  every member that goes on below it is queued again from there.  The layout stops only when nothing is queued.  What is
  left of an edge below the height it was laid out to is copied from its own input curve.""",
  INP, "all sets of output edges, end points and neighbour orders",
  """An edge that is skipped is still drawn, just not in the decided order, which no snapshot shows unless curves nearly coincide; the
  tests contain hardly any shapes at negative heights.""",
  ["src/position.rs"],
  [("compute_positions", "src/position.rs"), ("next_subsegment", "src/position.rs")],
  ["Topology::compute_positions", "Contours (the drawn paths)"],
  "abstract interpretation of MIR; loops classified by their effect on the tables; induction over the neighbour scans",
  "Complete for the bookkeeping; how a group is laid out between two heights, and which neighbours count as close, is decided elsewhere.")

p("P23", "Nearby curves are laid out in their decided order",
  """Where a group of output edges is laid out together between two heights, paths are only ever appended to.  Nothing is
  appended only if all members are straight lines, or if there are exactly two and they pass a transversality test made on
  their own next pieces (from a common start at the upper height, or to a common end at the lower one).  Otherwise every path that
  ends above the upper height is first continued along its own input segment exactly down to it; then, interval by interval,
  each starting where the last one ended until the lower height is reached, every member gets one quadratic piece ending at
  the end of the interval, whose control point and end lie at the maximum of the member's own approximating parabola and
  those of all members west of it, so that the west-to-east order never inverts.  All members are approximated over the same
  interval, each from its own curve, and an approximation is accepted only if its weighted error bound is below the accuracy or the
  interval is no longer than the accuracy.""",
  INP, "all groups of nearby curves, heights and accuracies",
  """Crossing or doubled-back pieces are smaller than the tolerance the tests use and appear only for curves that nearly coincide
  over part of their length.""",
  ["src/position.rs"],
  [("ordered_curves_all_close", "src/position.rs"), ("approximate", "src/position.rs")],
  ["Contours (the drawn paths)"],
  "abstract interpretation of MIR; induction over the layout loops; float terms compared as polynomials over the reals",
  "Complete for the layout; how a parabola is fitted to a curve, the transversality tests and rounding are not decided.")

p("P24", "Queries on the order of two curves answer from the right interval",
  """A comparison of two curves divides their common height range into consecutive intervals, each decided (left or right) or
  uncertain. For every list of intervals and every height y: order_at answers with the order of the first interval that ends at or
  after y; entry_at with the bounds and order of the first interval that ends after y; order_after with the order of the first decided interval
  that ends after y, uncertain if there is none, and with the order of the last interval if that ends exactly at y; next_touch_after
  considers the intervals that end after y from the first that is not on the left: none gives no touch, right gives a crossing at y,
  an uncertain one that is the last gives no touch, an uncertain one before an interval on the right gives a crossing at the middle of the uncertain
  interval, or at its end if that middle is not after y (so a crossing reported for two curves that are not out of order yet always lies after y),
  and an uncertain one before an interval on the left gives a touch at its middle if it starts after y, and is passed over together with the
  interval that follows it otherwise. No interval is passed over for any other reason.""",
  INP, "all comparisons and all heights",
  "Tests query comparisons of a few curves at heights inside their intervals; a crossing that is not after the requested height needs a query from the upper half of an uncertain interval, where the sweep line then never gets past.",
  ["src/curve/mod.rs"], [("CurveOrder::order_at", "src/curve/mod.rs"), ("CurveOrder::entry_at", "src/curve/mod.rs"), ("CurveOrder::order_after", "src/curve/mod.rs"),
   ("CurveOrder::next_touch_after", "src/curve/mod.rs")],
  ["order_at, entry_at, order_after, next_touch_after"],
  "Abstract interpretation of the four queries through the crate's own iterator; induction over the loops that pass intervals over; interval rule per outcome",
  "That intervals are in order of height is a matter of how comparisons are made; P29 decides the building blocks.")

p("P25", "The neighbours of output segments along scan lines are recorded and found",
  """While the topology is built, every output segment that is created gets as its western neighbour (scan_west) the output segment created before it in the same changed interval that goes down, or, if there is none, the first open output segment of the
  sweep-line entry just west of the interval. The last one that goes down gets as eastern neighbour (scan_east) the first open output segment of the entry just east of the interval, unless that entry is itself in a changed interval. When nothing goes
  down, the height and the first open output segments of the entries west and east of the interval are recorded together (scan_after), if there is either.
  build_scan_line_orders lists, for every output segment, its western and its eastern neighbours with the heights from which they are neighbours: for each non-horizontal segment with a western neighbour, each segment with an eastern one, and each record of scan_after,
  exactly those two sides that these say, at the starting height of the recording segment or the height of the record; each list is sorted by height, without repetitions. west_neighbor_after and east_neighbor_after answer the neighbour of
  the entry that begins at or before the height and whose successor (if any) begins after it, and none if there is no such entry. close_west_neighbor_height_after and close_east_neighbor_height_after answer the larger of the height asked for, the
  height from which the neighbour is one, and the beginning of the first stretch of the comparison of the two segments that is close (Order::Ish), begins before the neighbourhood ends and ends after both of the former heights; neighbours are tried in order from the one at that height on, and none is answered
  only when all have been tried.""",
  INP, "all contents of the tables of neighbours, all sweep-lines and changed intervals, all heights and comparisons",
  "A neighbour that is recorded on one side only, or looked up one entry too late, lets positioned curves cross within the tolerance; the snapshots only show it where two curves come close in just that stretch.",
  [T0], [("process_sweep_line_range", T0), ("Topology::from_segments", T0), ("Topology::build_scan_line_orders", T0), ("HalfScanLineOrder::iter", T0), ("HalfScanLineOrder::neighbor_after", T0),
   ("HalfScanLineOrder::close_neighbor_height_after", T0)],
  ["scan-line neighbours and the heights at which they are close"],
  "Abstract interpretation; the recording decided by induction over the loops that create segments, the lists by what each loop step adds to which of them, the look-ups by what was passed over before the answer",
  "Taken for granted: a range stays in its line and interval, the tables of output segments have equal lengths (P07), and heights are numbers.")

p("P26", "The ordered tree keeps its elements in order through every step",
  """Every step of treevec::TreeVec (the ordered tree behind the sweep line) keeps the sequence of elements. Inserting into a node leaves the elements (or children) it had, in order, with the new one (or the
  part split off from a child) in the place asked for, over the node and the part split off from it together, in this order; both halves of a split node are at least half full. Removing takes out the element at the offset and keeps all the others in
  order; a child that got too small is merged with, or filled up from, the sibling next to it. Merging puts the elements of the left node before those of the right one, loses none, and leaves the sibling at least half full if it keeps any; a node that
  gets less than half full says so, and one that is filled up from its sibling is at least half full afterwards. The child an offset belongs to is the one it falls into after the sizes of all children before it, and the sizes kept next to children are right after every insertion, removal, split and merge. The root is split by putting both
  halves under a new root, first half first, and is replaced by its child if only one is left. get, get_mut, len, is_empty and partition_point (whose predicate is asked about the first elements of children) give what the sequence says. iter, iter_mut, range and range_mut start at the right leaf and element, remember the
  siblings behind on every level, go on from leaf to leaf in order, and stop after as many elements as the range has; a range beyond the end is refused.""",
  INP, "all trees, offsets and elements, at the capacity the sweep line uses",
  "The unit tests insert and remove a handful of elements; the sweep line's nodes hold 128, so that tests with fewer segments crossing one height never split or merge a node at all.",
  ["src/treevec.rs"],
  [("TreeVec::insert", "src/treevec.rs"), ("TreeVec::remove", "src/treevec.rs"), ("Node::insert", "src/treevec.rs"), ("Node::remove", "src/treevec.rs"), ("Node::merge_from_right", "src/treevec.rs"), ("Node::merge_from_left", "src/treevec.rs"), ("child_idx", "src/treevec.rs"), ("TreeIter::next", "src/treevec.rs"), ("TreeIter::descend_to", "src/treevec.rs")],
  ["TreeVec::iter, range, get, len, partition_point after TreeVec::insert and TreeVec::remove"],
  "Abstract interpretation of every operation with calls on children left open (induction over the height); lists are compared piece by piece with those found, loops by what they do per step",
  "One step at a time, for a node whose sizes are right and whose children are all of one height; that the trees of children obey this is the induction hypothesis. Panics (offsets beyond the end, nodes with a single child) are not decided. ArrayVec's and slices' own operations are trusted.",
  state=[("Node.size", "the sizes of children, kept next to them", "src/treevec.rs")])

p("P27", "Quadratics are evaluated, shifted and solved as the polynomials they are",
  """Over the real numbers, Quadratic::eval gives c2 t^2 + c1 t + c0, shift(s) gives the quadratic q(x - s), adding a number adds it to the constant coefficient only, and max_coeff is the largest of the three absolute values. Both numbers that Quadratic::signs tells as roots are the two roots of the polynomial, the smaller one first; no roots are told only for a
  negative discriminant or for a constant, and zero twice only for a multiple of the square; the initial sign is that of the quadratic before its roots: that of the leading coefficient, of the linear one where the other root is infinite, or of the constant one where it is all there is. A discriminant that overflows makes it scale all coefficients down alike.
  monic_quadratic_roots answers the two roots in order, and leaves them out only where the discriminant (scaled, if it overflows) is not positive, or the constant outweighs everything. Neither solver calculates a root as the difference of a square root and a number of the same sign, which would cancel.""",
  INP, "all coefficients and parameters, all signs of the discriminant, overflow included",
  "No test asks a quadratic anything; the sign of a decreasing linear function was told the wrong way round, and constants and squares were told to be zero everywhere, without a test noticing.",
  ["src/curve/mod.rs"],
  [("Quadratic::signs", "src/curve/mod.rs"), ("Quadratic::eval", "src/curve/mod.rs"), ("Quadratic::shift", "src/curve/mod.rs"), ("Quadratic::max_coeff", "src/curve/mod.rs"), ("monic_quadratic_roots", "src/curve/mod.rs")],
  ["Quadratic::signs, eval, shift, max_coeff and its sum with a number; through monic_quadratic_roots, where curves are cut and compared"],
  "Abstract interpretation of the formulas; identities of rational functions with square roots, conditions under which each outcome is reached, a sign analysis of sums with square roots",
  "Rounding is not part of it: formulas are compared over the real numbers, apart from the cancellation of square roots, overflow of the discriminant, and division by zero.")

p("P28", "Paths are cut into subpaths, segments and y-monotone pieces, none left out",
  """When a path is added to the segments: a subpath begins with any element, takes every element once and in order, and ends exactly before the next MoveTo or at the end of the path, and there are subpaths as long as there are elements.
  Of every subpath each segment is added: a line unless its two ends are equal, a curve as all pieces that monotonic_pieces cuts it (a quadratic one first made an equal cubic one) into; nothing after it is skipped. Polylines add a line
  from each point to the next (closed ones also from the last to the first), unless there are fewer than two points. monotonic_pieces cuts a cubic curve at the zeros of the derivative of its height that lie strictly between 0 and 1, in increasing
  order; its pieces follow each other from 0 to 1 without a gap, with their parameters, and only a piece whose two ends are equal is left out. force_monotonic keeps the end points and the horizontal coordinates of a piece and moves control points
  only vertically, so that the height does not turn back beside the ends (level pieces become lines). monic_quadratic_roots answers with roots of the polynomial (calculated over the reals) where its discriminant is positive and does not overflow, the smaller one first.""",
  INP, "all paths, curves and coefficients",
  "An almost quadratic curve, a turn just beside an end of a curve, or a subpath after another one without a closing element go through branches that few tests reach; a piece or segment that is left out opens the contour.",
  ["src/segments.rs", "src/geom.rs", "src/curve/mod.rs"],
  [("monotonic_pieces", "src/geom.rs"), ("force_monotonic", "src/geom.rs"), ("monic_quadratic_roots", "src/curve/mod.rs"), ("Subpaths::next", "src/segments.rs"), ("SubpathIter::next", "src/segments.rs"),
   ("Segments::add_path_without_updating_enter_exit", "src/segments.rs"), ("Segments::add_polyline_without_updating_enter_exit", "src/segments.rs")],
  ["the segments a path is turned into"],
  "Abstract interpretation of the iterators from the states they can be in, of the loops by induction, and of the cutting in full, formulas compared as rational functions",
  "The iterator over segments and the subsegment operation are kurbo's and taken as documented; formulas are compared over the real numbers.")

p("P29", "Comparisons of curves: appending, mirroring and vertical slop",
  """Appending an interval to a comparison extends the last interval if the order is the same, puts an uncertain interval (ending at the same height)
  between two opposite decided orders, appends it otherwise, and leaves it out only where it does not end after the last one; the first interval is
  always appended and the start height never changes. Flipping an order exchanges left and right and keeps uncertain; flipping a comparison keeps start, number and ends of the intervals and exchanges left and right, leaving
  uncertain intervals uncertain. Adding vertical slop to a comparison (unless it is zero or the comparison has no height) keeps the start and the last end, shrinks every decided interval by the slop at
  both ends, except at the very start and the very end of the comparison, leaves out exactly those without height after that, and fills everything else with uncertain intervals.""",
  INP, "all sequences of intervals and all slops",
  "The tests build comparisons of a few curves; opposite orders next to each other, intervals lower than the slop, and intervals at the ends of the range come up only for particular curves.",
  ["src/curve/mod.rs"], [("CurveOrder::push", "src/curve/mod.rs"), ("CurveOrder::flip", "src/curve/mod.rs"), ("Order::flip", "src/curve/mod.rs"), ("CurveOrder::with_y_slop", "src/curve/mod.rs")],
  ["push, flip, with_y_slop"],
  "Abstract interpretation of the three functions; decision table over pairs of orders; generic element of the flipped list; per-step account of what slop appends",
  "The lists that slop is added to are taken to be in order of height.")

p("P30", "Contours follow exactly the boundary of the selected region",
  """For every topology and every inside predicate, the contour walk starts at every edge that is not deleted, not walked yet
  and on the boundary (predicate different on its two sides), on that edge's half that has the inside counter-clockwise and
  the outside clockwise of it; from the half just reached it turns clockwise around the point, starting with the clockwise
  neighbour, past exactly the half-edges with the inside clockwise of them, and goes on along the first one with the outside there;
  every edge walked is marked, appended to the contour in this order, and the walk ends exactly on returning to the half it
  started with.  When it meets a point it has met before, the edges walked since then become a contour of their own; what is left at the end becomes the walk's last contour.""",
  INP, "all topologies, winding types and inside predicates; any number of edges",
  """The tests walk a few shapes; turning rules only differ at points where many edges meet, and cuts only where a contour
  touches itself.""",
  [T0], [("Topology::contours", T0)],
  ["returned contours", "Contour::path"],
  "abstract interpretation of MIR with generalised loops and an arbitrary predicate; inductive check of every loop step and exit",
  "All steps and exits of the walking, turning and outer loops, helpers inlined; relies on P03 and on the neighbour rings built by the sweep.",
  state=[("visited", "edges already in a contour", T0)])

p("P31", "Contours are drawn through their edges, joining pieces of one input curve",
  """The path of a contour starts at the start of its first edge, goes through the positioned path of every edge of its walk once, in order, backwards for an edge walked from its second end (the end of the walk along it is its first half), and is closed.
  At a point where the end of one edge and the start of the next can both be merged, the last piece of one and the first of the other are drawn as one piece of the input curve instead: from the parameter up to which the merge goes on one side to that on the
  other, on the reversed curve if the parameters decrease; a merge goes on through edges that can be merged at both ends. It starts at an edge whose start cannot be merged. An end of an edge can be merged (can_merge) exactly if its output segment is not level, the piece of its positioned path at this end is
  copied from the input, the input curve goes on beyond this end of its monotone piece (split_from_predecessor), this is that end of the piece and not one made by an intersection, only two edges meet there, and the other one comes from the next monotone piece of the same input curve (contour_prev or contour_next); the answer is the parameter (input_seg_t: between those at the ends of the monotone
  piece, by its direction, within 0 and 1) on the input curve of the far end of the copied part. Positions are computed (compute_positions) for all output segments from the points they end in, with a quarter of the tolerance.""",
  INP, "all walks and all positioned paths",
  "A merge over an edge of which only a part is copied, over a level edge made from a sloped curve, or over three pieces of one curve needs curves that come near each other in special places; the path is then a little wrong, and no test measures it.",
  [T0], [("Topology::segs_to_path", T0), ("Topology::can_merge", T0), ("Topology::input_seg_t", T0), ("Topology::is_simple_point", T0), ("Topology::compute_positions", T0)],
  ["path elements of a contour"],
  "Abstract interpretation; one step of the drawing loop compared with the rule in every combination of what can be merged; every outcome of the merging decision against its conditions",
  "Inverting y on a monotone curve (solve_t_for_y) and cutting or reversing a curve (kurbo) are uninterpreted.")

p("P32", "A segment's ends, bounds and places at a height are those of its line or curve",
  """A segment made by straight, monotonic_cubic or from_kurbo_cubic keeps all the control points it is given, and is a line only if made by straight or if its ends are at the same height; start and end are its first and last control point; converting points and curves to and from kurbo keeps
  all coordinates (a line becomes the cubic that runs evenly between its ends). is_horizontal is true exactly for lines with ends at one height. min_x and max_x bound all control points. at_y answers, for a line, the place where it crosses the height (the eastern end if it is level), and for a curve the
  x-coordinate at the parameter found for this height. solve_t_for_y answers exactly 0 and 1 at the start and end height of a curve, and otherwise a root between 0 and 1 of the polynomial of its height less the given one, or, only if no root is found, the end that is nearer in height.
  For segments that are not level, lower and upper are the smallest x less, and the largest x plus, the tolerance, of the part of the segment whose height is within the tolerance of the given one and between the segment's ends. y_subsegment is the part of the curve between the parameters of both heights, and starts and ends at exactly the given heights.""",
  INP, "all segments, heights and tolerances",
  "Heights exactly at an end, level lines, curves that touch a height only after rounding and parts that are cut off at an end are single points of the input space; a bound that misses a control point or half of the tolerance shows only where two segments nearly touch.",
  ["src/geom.rs", "src/curve/mod.rs"],
  [("Segment", "src/geom.rs"), ("local_bbox", "src/geom.rs"), ("at_y", "src/geom.rs"), ("solve_t_for_y", "src/curve/mod.rs"), ("solve_x_for_y", "src/curve/mod.rs"), ("y_subsegment", "src/curve/mod.rs")],
  ["Segment::at_y / lower / upper / min_x / max_x"],
  "Abstract interpretation of every outcome of the functions on segments; coordinates, polynomials and formulas compared as rational functions, extremes by the comparisons on the path",
  "The root finder of polycool, kurbo's subsegment, bounding box and eval are taken to be as documented; formulas are compared over the real numbers (rounding: P61, P62).")

p("P33", "The parabola approximating a curve goes through its ends and bounds its error",
  """EstParab::from_cubic makes a parabola that is at both ends of the curve, at their heights, and has as much between itself and the chord of the ends as the curve has (x integrated over y). Its error bounds contain zero, and the difference in x from the parabola at every place where one of two quadratic curves has this difference extreme: the two curves have the ends of the given curve, and mix
  to it; the polynomial whose roots are looked at is, up to a constant factor, the derivative of the difference, and no root between 0 and 1 is left out. The difference of two parabolas has the differences of their coefficients, and an error bound that covers every combination of both errors.
  solve_cubic_in_unit_interval gives the roots of the polynomial it is given, in which only leading coefficients that are small beside the others may be left out, refined only by steps of Newton's method (or shorter ones) for the polynomial itself.""",
  INP, "all curves and polynomials",
  "An error bound that is a little too small only matters where two curves come close to each other by less than the error; random curves nearly never do, and the tests of the bound sample a few curves.",
  ["src/curve/mod.rs"],
  [("EstParab", "src/curve/mod.rs"), ("from_cubic", "src/curve/mod.rs"), ("solve_cubic_in_unit_interval", "src/curve/mod.rs")],
  ["EstParab (through intersect_cubics)"],
  "Abstract interpretation; the collected errors, the polynomial given to the solver and the Newton steps are compared with each other as rational functions",
  "kurbo's solver and evaluation are taken to be as documented; formulas are compared over the real numbers; how close the parabola is to the curve is not decided.")

p("P34", "The comparison of two curves covers their common heights with grounded verdicts",
  """intersect_cubics compares exactly the heights that both curves have: the intervals it makes begin at the larger start height, each begins where the previous one ends, and the last one ends exactly at the smaller end height (curves without a common height
  have no intervals, curves that meet at one height one verdict from the horizontal coordinates there). Every interval is given to CurveOrder::push or compared recursively, with the two original curves in their order and the same tolerance and accuracy; it is cut inside, and a closer look is only taken at a piece of at most nine tenths of the range under comparison, itself not below the accuracy.
  A verdict has a ground: "close" if no two corresponding control points are more than the tolerance apart; for an interval not higher than the accuracy, what the bounding boxes say ("left" or "right" only if they are at least the tolerance apart); otherwise the interval's verdict
  in the difference of the two parabolas, whose "left" and "right" are pushed further than the tolerance by all of both error bounds, and whose "close" is only accepted if the interval or the spread of the error is at most the accuracy. Curves, range and ends are scaled alike and scaled back.
  push_quadratic_signs gives "right", "close" and "left" in the order in which a quadratic, linear or constant function crosses the two thresholds, clipped to the range, and leaves out only intervals without height. with_rotation rotates both curves alike, compares them only if they still run one way
  (over the heights common to both), appends all their intervals in order with their own verdicts and ends rotated back into the range, the last one at its end, and otherwise appends nothing.""",
  INP, "all pairs of curves, tolerances and ranges",
  "Which of the many ways of comparing is taken depends on how flat, close or curved the two curves are; a threshold with the wrong sign of an error bound, or an interval skipped after scaling back, misplaces curves by a little more than the tolerance where no snapshot looks.",
  ["src/curve/mod.rs"],
  [("intersect_cubics", "src/curve/mod.rs"), ("intersect_cubics_rec", "src/curve/mod.rs"), ("with_rotation", "src/curve/mod.rs"), ("push_quadratic_signs", "src/curve/mod.rs"), ("max_distance", "src/curve/mod.rs")],
  ["the intervals of CurveOrder"],
  "Abstract interpretation of every outcome; the intervals appended are followed as a chain, verdicts compared with the comparisons on the path to them, formulas as rational functions",
  "The recursion itself, the approximation by a parabola, the solver and kurbo's boxes and rotations are uninterpreted; formulas are compared over the real numbers; that the recursion ends and how accurate the result is are not decided (P61, P62).")

p("P35", "Looking up a segment, or its place, in the sweep line",
  """The position of a segment in the sweep line is that of the first entry that holds it as its current or its old segment, and nothing is found only if no entry does.
  The place of a new segment at a height is looked for by extent first: after all entries whose extent ends at or west of its start (by binary search); at the end of the line it goes there. If there is
  no entry after the one found, or that one's extent begins at or east of the start, it goes before the one found, unless its order to that one from the height on is "right": then right after it. Otherwise the entries are
  gone through from the first that is not (by binary search) left of it at the height: it goes after the last one that is left of it at the height, or undecided there and
  left of it from there on, and before the first that is right of it (entries beyond which do not matter); if there are none of the former, where the search began.""",
  INP, "all contents of the sweep line and all results of comparisons",
  "A wrong place among nearly touching segments is repaired by later intersections in most pictures; the tests contain few segments starting on others.",
  ["src/sweep/sweep_line.rs"],
  [("SegmentOrder::position", "src/sweep/sweep_line.rs"), ("SegmentOrder::insertion_idx", "src/sweep/sweep_line.rs")],
  ["positions in the sweep line"],
  "Abstract interpretation; rule on what is known where each position is returned; induction over the loops",
  "Comparisons are uninterpreted (P11, P24); the binary searches are taken to find a boundary of their predicate (P26).")

p("P36", "A changed interval is walked from west to east, with what is connected there",
  """A visit to a changed interval walks from west to east: its position (SweepLineRange::x) is the least of where the first level piece ends and where the first event begins that is left, and there is
  none exactly when nothing is left. increase_x takes away the level pieces that end here, and passes exactly the events that begin here; each of these that is not at a point becomes a level
  piece from its western to its eastern end, with the event's segment and sweep-line positions, its direction (whether the western end comes first), and, at each of its ends, the event's
  connection of that end. Level pieces are kept in the order of their eastern ends, and active_horizontals and active_horizontals_and_orientations give all of them, with their segments and
  directions. update_segments_at_x lists as connected up exactly those level pieces and events that go up from this position, with the position in the old sweep-line, and as connected down those that go down from
  it, with the position in the new one, sorted by these; both lists are empty when nothing is left. events gives for every level piece an event from the last position to this one, connected only at the
  ends of the piece, passes the same events as increase_x, and gives those at a point at once. segment_range gives the segments of all entries in the interval, in the new order, without those that end here; old_segment_range the
  segments before the sweep-line, each at its old position, without those that begin here.""",
  INP, "all lists of events, all level pieces and all contents of an interval",
  "Level pieces that overlap one another and segments that leave them upwards at an end in between exist only where several segments are clustered within the tolerance; there a swapped connection loses or duplicates a piece of a contour without any test noticing.",
  ["src/sweep/range.rs", "src/sweep/sweep_line.rs", "src/sweep/output_event.rs"],
  [("SweepLineRange::x", "src/sweep/range.rs"), ("SweepLineRange::update_segments_at_x", "src/sweep/range.rs"), ("SweepLineRange::increase_x", "src/sweep/range.rs"), ("SweepLineRange::events", "src/sweep/range.rs"),
   ("HFrag::from_position", "src/sweep/range.rs"), ("SweepLine::old_segment_range", "src/sweep/sweep_line.rs"), ("SweepLine::segment_range", "src/sweep/sweep_line.rs")],
  ["positions and connected segments of a sweep-line range"],
  "Abstract interpretation of each step; lists taken apart into their loops, each decided by induction; every comparison decided over the possible orders of the positions",
  "Events are taken to be in order of their western ends (P21); iterators that are returned are decided by their element at an arbitrary index.",
  state=[("active_horizontals", "level pieces that have begun west of the position and have not ended west of it", "src/sweep/range.rs")])

p("P37", "The transversality shortcut and the weight of errors are conservative",
  """transversal_after (and transversal_before, which is the same test of the curves mirrored in y) answers yes only with a ground: the greatest dx/dt of the left curve up to the given height is negative and the least of the right curve positive (one of them may be zero), or
  greatest left dx/dt times a bound of right dy/dt is less than least right dx/dt times a bound of left dy/dt, where each bound of dy/dt is the greatest or the least value over the same part of the curve, chosen by the sign of the dx/dt that it divides so that the slope of the left curve
  is everywhere less than that of the right one. The greatest value of a quadratic over a range is the greatest of its values at both ends and, unless it lies outside, where its derivative is zero; the least value is that of the negated quadratic, negated.
  horizontal_error_weight is one if two legs of the control polygon can point to different sides in x, and otherwise at least the share |y|/length of every leg that has a length.""",
  INP, "all pairs of curves, heights and cubics",
  "Two curves that start at one point and cross again a little later, or a curve that turns back through a double control point, are not among the tested inputs; a test that says \"ordered\" a little too often lets outputs cross only there.",
  ["src/curve/transverse.rs", "src/position.rs"],
  [("transversal_after", "src/curve/transverse.rs"), ("quad_max_between", "src/curve/transverse.rs"), ("transversal_before", "src/curve/transverse.rs"), ("horizontal_error_weight", "src/position.rs")],
  ["transversal_after, transversal_before, horizontal_error_weight (through the positions of output segments)"],
  "Abstract interpretation; for every way of answering yes the known comparisons have to bound the slopes, candidates for extreme values are compared as rational functions",
  "That both curves start at one point in their order and that heights increase along them is taken from the callers (P23 checks how the answer is used); formulas are compared over the real numbers; when the answer is no is not decided.")

p("P38", "Grouping lists every contour once, under its outermost ancestor",
  """Contours::grouped makes one group for every contour without parent; the group starts with that contour and contains, each once, the contours that are reached from it through children: every contour with a parent is filed as a child of exactly that parent, and everything that
  is put into a group has all its children put into the same group. Contours::contours goes through all contours from the first to the last, and indexing with a ContourIdx gives the contour with that number. Topology::bounding_box is the union of the bounding boxes of all
  segments' curves, and nothing more.""",
  INP, "all forests of contours, all sets of segments",
  "Tests group two or three contours; a child list that is cut short, or a group for a contour that has a parent, needs islands in holes in islands.",
  ["src/topology.rs"],
  [("Contours::grouped", "src/topology.rs"), ("Contours::contours", "src/topology.rs"), ("Index<ContourIdx> for Contours", "src/topology.rs"), ("Topology::bounding_box", "src/topology.rs")],
  ["Contours::grouped, Contours::contours, Contours[ContourIdx], Topology::bounding_box"],
  "Abstract interpretation; lists are taken apart into the loops that append to them, the visitor is decided by induction over its recursion",
  "That parents form chains ending in a contour without parent is P15's; the order within a group, after its first contour, is left open, as the documentation leaves it; kurbo's bounding boxes of curves are trusted.")

p("P39", "Every path gets its tag, and everything the sweep finds is handed on",
  """Topology::from_paths adds every path it is given, in order, as one that has to be closed, and gives the segments it adds the tag that came with it; it answers the first error, and otherwise the topology of all these segments with the tolerance asked for. from_path does this for its one path, from_paths_binary tags the first path as the first set (true) and the other as the second (false), from_polylines_binary does
  so with two sets of polylines. Making a topology sweeps over its own segments with its tolerance, processes every range of every line of the sweep, once each and in order, merges coincident edges after the last one, and keeps segments, tags and tolerance. sweep::sweep hands every event of every range of every line to the callback, once, in the order of the lists it gets, with the height of the line.""",
  INP, "all collections of paths and tags, all numbers of lines, ranges and events",
  "from_polylines_binary, sweep and tags beyond two paths are hardly tested; a range or event that is skipped under some condition shows only in inputs that meet it.",
  ["src/topology.rs", "src/sweep/mod.rs"],
  [("Topology::from_paths", "src/topology.rs"), ("Topology::from_path", "src/topology.rs"), ("Topology::from_paths_binary", "src/topology.rs"), ("Topology::from_polylines_binary", "src/topology.rs"), ("Topology::from_segments", "src/topology.rs"), ("sweep::sweep", "src/sweep/mod.rs")],
  ["Topology::from_path, from_paths, from_paths_binary, from_polylines_binary; sweep::sweep"],
  "Abstract interpretation with everything below opaque; per-round account of what is asked, answered and handed on; provenance of segments, tags and tolerance",
  "What lines, ranges and events are is the matter of P16-P21 and P36, which segments a path gives that of P10 and P28.")

p("P40", "Points, numbers and typed lists keep what they are given",
  """Converting points from and to pairs and kurbo's points, and making a new point, keeps x and y where they belong; Point::affine is (1 - t) times the one plus t times the other point in both coordinates. CheapOrderedFloat computes with +, -, *, / and negation like the numbers inside, which into_inner
  gives back. SegVec, OutputSegVec and PointVec, indexed for reading or writing, give the element with the number of the index; push appends and answers the index of the new element; len, is_empty and indices are those of the list inside, iter and iter_mut give every element once, in order, with its own index; with_size makes as
  many elements as asked for. HalfOutputSegVec keeps the elements of first and second halves in two separate lists, the same for reading and writing, at the number of the segment. Values that are equal feed the same to a hasher, zeros of both signs included.""",
  INP, "all points, numbers, lists and indices",
  "These are used everywhere and tested nowhere on their own: tests with symmetric data do not see coordinates swapped in a function they do not call, nor signed zeros that hash differently.",
  ["src/geom.rs", "src/num.rs", "src/typed_vec.rs", "src/topology.rs"],
  [("Point", "src/geom.rs"), ("affine", "src/geom.rs"), ("CheapOrderedFloat", "src/num.rs"), ("impl_typed_vec", "src/typed_vec.rs"), ("HalfOutputSegVec", "src/topology.rs")],
  ["Point::affine, Point::from, to_kurbo; SegVec / OutputSegVec / PointVec / HalfOutputSegVec accessors"],
  "Abstract interpretation of every conversion, operation and accessor on symbolic values; provenance of elements, indices and of what is fed to hashers",
  "Formulas are compared over the real numbers.")

# ---------------------------------------------------------------- not claimed

p("P60", "The output region equals the operation on the input regions up to eps",
  """Every point farther than a small multiple of the accuracy parameter from all input curves lies in the output region
  exactly if the boolean operation on the input regions contains it.""",
  INP, "all pairs of closed paths and accuracies",
  "Tests compare a few snapshots; correctness must hold for every geometry.",
  ["src/lib.rs", T0, "src/sweep/sweep_line.rs", "src/curve/mod.rs"], [("binary_op", "src/lib.rs")],
  na="""Quantifies over real-valued geometry and accumulated rounding: whether the numerically computed curve order is right
  within eps is not decidable by dataflow or type arguments; the structural steps it rests on are claimed separately (P01-P31).""")

p("P61", "Curve comparison is accurate to the requested tolerance",
  """Wherever the comparison of two curves says that one is to the left of the other, the true horizontal distance is at
  least minus the tolerance, and wherever it says they are close they are within the tolerance.""",
  INP, "all pairs of monotone curves, all tolerances",
  "Numeric accuracy over all cubics; the proptests sample.",
  ["src/curve/mod.rs"], [("intersect_cubics", "src/curve/mod.rs")],
  na="Needs bounds on the rounding and approximation error of polynomial root finding; no sound static argument in reach bounds these runtime quantities.")

p("P62", "The curve comparison and the sweep terminate",
  """Every boolean operation on finite closed paths terminates.""",
  INP, "all finite closed paths",
  "Tests cannot show termination for all inputs.",
  ["src/curve/mod.rs", "src/sweep/sweep_line.rs"], [("intersect_cubics_rec", "src/curve/mod.rs"), ("Sweeper::next_line", "src/sweep/sweep_line.rs")],
  na="Termination rests on floating-point progress (subdivision widths shrinking, intersection heights increasing) that no static ranking argument over the code structure alone can establish.")

p("P63", "Boolean operations never panic on finite closed paths",
  """No finite closed input makes a boolean operation panic.""",
  INP, "all finite closed paths and positive accuracies",
  "Fuzzing and tests sample.",
  ["src/lib.rs"], [("unwrap / index sites", "src/*.rs")],
  na="Many unwraps rest on geometric invariants (a neighbour exists, an order entry covers a height); discharging them needs the geometric correctness of P60. The structural part (tables in lockstep) is P07.")

p("P64", "The ordered tree behaves like a vector",
  """For every sequence of insertions, removals, replacements, range and search operations, the tree-backed sequence gives the
  same answers as a plain vector.""",
  ["histories"], "all operation histories and sizes",
  "Property tests sample short histories.",
  ["src/treevec.rs"], [("TreeVec", "src/treevec.rs")],
  na="Every single step is P26. What that leaves of whole histories, equal heights of all leaves and freedom from panics, needs shape invariants over recursive heap structures that the abstract domains here do not have.")

p("P65", "Running time is near-linear in input plus output",
  """The running time of a boolean operation is O((n + k) log n) comparisons for n input segments and k intersections.""",
  INP, "all inputs", "Tests do not measure growth.",
  ["src/sweep/sweep_line.rs"], [("Sweeper", "src/sweep/sweep_line.rs")],
  na="A complexity bound over runtime intersection counts; nothing static in reach bounds the number of re-scans.")
