#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the repository on which every check must stay quiet.

usage: variants.py [-t] [-c C06,C07] [name...]     (-t: also run the repository's tests on each)
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VARIANTS = {}


def v(name, *edits):
    VARIANTS[name] = edits


v("rapid_to helper",
  ("routers.py", '''    if safe_plunge_height is None or safe_plunge_height < end.z:
        commands.append(
            PlungeCut.abs(z=end.z, start=start, arrow=True, feed=plunge_feed)
        )
    else:
        commands.append(PlungeRapid.abs(z=safe_plunge_height, start=start, arrow=True))
        start = commands[-1].end
        if safe_plunge_height > end.z:
            commands.append(
                PlungeCut.abs(z=end.z, start=start, arrow=True, feed=plunge_feed)
            )
    return commands
''', '''    commands.extend(_plunge(start, end.z, safe_plunge_height, plunge_feed))
    return commands


def _plunge(start, z, safe, feed):
    result = []
    if safe is not None and not safe < z:
        approach = PlungeRapid.abs(z=safe, start=start, arrow=True)
        result.append(approach)
        start = approach.end
        if not safe > z:
            return result
    result.append(PlungeCut.abs(z=z, start=start, arrow=True, feed=feed))
    return result
'''))

v("rapid_to expressions",
  ("routers.py", '''    commands = [Retract.abs(z=rapid_height, start=start)]
    start = commands[-1].end

    # Don't move if you are already at the correct location
    if start.x != end.x or start.y != end.y:
        commands.append(Rapid.abs(x=end.x, y=end.y, start=start, arrow=True))
        start = commands[-1].end
''', '''    commands = []
    retract = Retract.abs(z=rapid_height, start=start)
    commands += [retract]
    start = retract.end

    # Don't move if you are already at the correct location
    in_place = start.x == end.x and start.y == end.y
    if not in_place:
        travel = Rapid.abs(x=end.x, y=end.y, start=start, arrow=True)
        commands += [travel]
        start = travel.end
'''))

v("route_edge split",
  ("routers.py", '''        center = AddressVector.from_vector(edge.arcCenter())
        cmd = CircularCW if is_arc_clockwise2(edge) else CircularCCW
''', '''        center = AddressVector.from_vector(edge.arcCenter())
        cmd = _arc_command(edge)
'''),
  ("routers.py", '''def route_edge(
''', '''def _arc_command(edge):
    return {True: CircularCW, False: CircularCCW}[is_arc_clockwise2(edge)]


def route_edge(
'''))

v("route_edge point helper",
  ("routers.py", '''            mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
            mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
            end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
            start_cv = AddressVector.from_vector(edge.positionAt(start_p, "parameter"))
            commands.append(
                cmd(
                    center=center,
                    mid=mid1,
                    start=start_cv,
                    end=end1,
                    feed=feed,
                    arrow=arrow,
                )
            )
            start_cv = end1
            mid2 = AddressVector.from_vector(edge.positionAt(mid2_p, "parameter"))
            commands.append(
                cmd(
                    center=center,
                    mid=mid2,
                    start=start_cv,
                    end=end_cv,
                    feed=feed,
                    arrow=arrow,
                )
            )
''', '''            def at(p):
                return AddressVector.from_vector(edge.positionAt(p, "parameter"))

            _, mid1_p, end1_p, mid2_p, _ = np.linspace(start_p, end_p, 5)
            end1 = at(end1_p)
            first = cmd(
                center=center,
                mid=at(mid1_p),
                start=at(start_p),
                end=end1,
                feed=feed,
                arrow=arrow,
            )
            second = cmd(
                center=center,
                mid=at(mid2_p),
                start=end1,
                end=end_cv,
                feed=feed,
                arrow=arrow,
            )
            commands.extend((first, second))
'''))

v("route_edge reordered",
  ("routers.py", '''    if geom_type == "LINE":
        # commands.append(Cut(end_cv, arrow=edge_i % 5 == 0))
        commands.append(Cut(end_cv, start_cv, arrow=arrow, feed=feed))

    elif geom_type == "ARC" or geom_type == "CIRCLE":
''', '''    if geom_type not in ("LINE", "ARC", "CIRCLE", "BSPLINE", "SPLINE", "OFFSET"):
        raise RuntimeError(f"Unsupported geom type: {geom_type}")

    if geom_type == "LINE":
        straight = Cut(end_cv, start_cv, arrow=arrow, feed=feed)
        commands += [straight]

    elif geom_type in ("ARC", "CIRCLE"):
'''),
  ("routers.py", '''    elif geom_type == "BSPLINE" or geom_type == "SPLINE" or geom_type == "OFFSET":
        n =''', '''    else:
        n ='''),
  ("routers.py", '''            start_cv = end_cv_int

    else:
        raise RuntimeError(f"Unsupported geom type: {geom_type}")
''', '''            start_cv = end_cv_int
'''))

v("clockwise expression",
  ("utils/utils.py", '''    if arc.wrapped.Orientation() == TopAbs_REVERSED:
        return normal.z > 0
    return normal.z < 0
''', '''    up = normal.z > 0
    reverse = arc.wrapped.Orientation() == TopAbs_REVERSED
    return up if reverse else not up
'''))

v("clockwise equality",
  ("utils/utils.py", '''    if arc.wrapped.Orientation() == TopAbs_REVERSED:
        return normal.z > 0
    return normal.z < 0
''', '''    return (normal.z > 0) == (arc.wrapped.Orientation() == TopAbs_REVERSED)
'''))

v("end points by pair",
  ("utils/utils.py", '''    orientation = edge.wrapped.Orientation()
    if orientation == TopAbs_REVERSED:
        return edge.startPoint()
    return edge.endPoint()
''', '''    return edge_start_end(edge)[1]
'''),
  ("utils/utils.py", '''    orientation = edge.wrapped.Orientation()
    if orientation == TopAbs_REVERSED:
        return edge.endPoint()
    return edge.startPoint()
''', '''    start, _ = edge_start_end(edge)
    return start
'''))

v("route_wires loop",
  ("routers.py", '''        for edge_i, edge in enumerate(edges):
            if edge_i == 0:
                if param is not None:
                    new_commands, end = route_edge(
                        edge, job.precision, start_p=param, arrow=True, feed=job.feed
                    )
                    previous_pos = new_commands[-1].end
                    commands += new_commands
                else:
                    new_commands, end = route_edge(
                        edge, job.precision, arrow=True, feed=job.feed
                    )
                    previous_pos = new_commands[-1].end
                    commands += new_commands
            else:
                new_commands, end = route_edge(edge, job.precision, feed=job.feed)
                previous_pos = new_commands[-1].end
                commands += new_commands
''', '''        first, *others = edges
        new_commands, end = route_edge(
            first, job.precision, start_p=param, arrow=True, feed=job.feed
        )
        commands += new_commands
        for edge in others:
            new_commands, end = route_edge(edge, job.precision, feed=job.feed)
            commands += new_commands
        previous_pos = commands[-1].end
'''))

v("route_wires helper",
  ("routers.py", '''        if param is not None:
            new_commands, end = route_edge(
                edges[0], job.precision, end_p=param, feed=job.feed
            )
            previous_pos = new_commands[-1].end
            commands += new_commands

        previous_wire_end = end
    return commands
''', '''        if param is not None:
            closing, end = route_edge(
                edges[0], job.precision, feed=job.feed, end_p=param
            )
            commands.extend(closing)
            previous_pos = closing[-1].end

        previous_wire_end = end
    return commands
'''),
  ("routers.py", '''    if previous_pos is None:
        previous_pos = AddressVector()

    for wire in wires:
        # Convert wires to edges
        if isinstance(wire, cq.Edge):
            edges = [wire]
        else:
            edges = wire_to_ordered_edges(wire)
''', '''    previous_pos = AddressVector() if previous_pos is None else previous_pos

    for wire in wires:
        # Convert wires to edges
        edges = _edges_of(wire)
'''),
  ("routers.py", '''def route_wires(
''', '''def _edges_of(wire):
    if isinstance(wire, cq.Edge):
        return [wire]
    return wire_to_ordered_edges(wire)


def route_wires(
'''))

v("polyface loop",
  ("routers.py", '''        previous_pos = commands[-1].end
        for x, y in poly[1:]:
            commands.append(
                Cut.abs(x, y, polyface.depth, start=previous_pos, feed=job.feed)
            )
            previous_pos = commands[-1].end

        if closest_point:
''', '''        previous_pos = commands[-1].end
        depth = polyface.depth
        i = 1
        while i < len(poly):
            cut = Cut.abs(poly[i][0], poly[i][1], depth, start=previous_pos, feed=job.feed)
            commands.append(cut)
            previous_pos = cut.end
            i += 1

        if closest_point:
'''))

v("polyface helper",
  ("routers.py", '''        previous_pos = commands[-1].end
        for x, y in poly[1:]:
            commands.append(
                Cut.abs(x, y, polyface.depth, start=previous_pos, feed=job.feed)
            )
            previous_pos = commands[-1].end

        if closest_point:
''', '''        commands += _cut_path(job, poly[1:], polyface.depth, commands[-1].end)
        previous_pos = commands[-1].end

        if closest_point:
'''),
  ("routers.py", '''def route_polyface_outers(
''', '''def _cut_path(job, points, depth, position):
    cuts = []
    for x, y in points:
        cut = Cut.abs(x, y, depth, start=position, feed=job.feed)
        cuts.append(cut)
        position = cut.end
    return cuts


def route_polyface_outers(
'''))

v("drill helper",
  ("operations/drill.py", '''            ops = []
            ops.append(Rapid.abs(z=self.job.op_safe_height, start=previous_pos))
            previous_pos = ops[-1].end
            ops.append(Rapid.abs(x=point[0], y=point[1], start=previous_pos))
            previous_pos = ops[-1].end
            ops.append(Rapid.abs(z=0, start=previous_pos))
            previous_pos = ops[-1].end
            ops.append(
                PlungeCut.abs(z=depth, feed=self.job.plunge_feed, start=previous_pos)
            )
            previous_pos = ops[-1].end
            cut_sequences.append(ops)
        cut_sequences = flatten_list(cut_sequences)
        self.commands = cut_sequences
''', '''            ops = self._drill_hole(point, depth, previous_pos)
            previous_pos = ops[-1].end
            cut_sequences.extend(ops)
        self.commands = cut_sequences

    def _drill_hole(self, point, depth, position):
        x, y = point
        up = Rapid.abs(z=self.job.op_safe_height, start=position)
        over = Rapid.abs(x=x, y=y, start=up.end)
        down = Rapid.abs(z=0, start=over.end)
        hole = PlungeCut.abs(z=depth, feed=self.job.plunge_feed, start=down.end)
        return [up, over, down, hole]
'''))

v("drill sorting",
  ("operations/drill.py", '''        while drill_points:
            drill_point = (
                Strategy._pick_nearest(last, drill_points) if last else drill_points[0]
            )
            ordered_drill_points.append(drill_point)
            drill_points.pop(drill_points.index(drill_point))
            last = drill_point
''', '''        while len(drill_points) > 0:
            if last:
                last = Strategy._pick_nearest(last, drill_points)
            else:
                last = drill_points[0]
            drill_points.remove(last)
            ordered_drill_points.append(last)
'''))

v("drill dispatch",
  ("operations/drill.py", '''            elif isinstance(obj, cq.Wire):
                drill_vectors.append(transform_f(cq.Face.makeFromWires(obj).Center()))
            elif isinstance(obj, cq.Face):
                if obj.innerWires():
                    for wire in obj.innerWires():
                        drill_vectors.append(
                            transform_f(cq.Face.makeFromWires(wire).Center())
                        )
                else:
                    drill_vectors.append(
                        transform_f(cq.Face.makeFromWires(obj.outerWire()).Center())
                    )
''', '''            elif isinstance(obj, (cq.Wire, cq.Face)):
                if isinstance(obj, cq.Wire):
                    hole_wires = [obj]
                else:
                    hole_wires = obj.innerWires() or [obj.outerWire()]
                drill_vectors += [
                    transform_f(cq.Face.makeFromWires(wire).Center())
                    for wire in hole_wires
                ]
'''))

v("profile layers",
  ("operations/profile.py", '''            for i in itertools.count():
                if i > job.max_stepdown_count:
                    raise RuntimeError("Profile max_stepdown_count exceeded")

                i_op: cq.Wire''', '''            i = -1
            while True:
                i += 1
                if i > job.max_stepdown_count:
                    raise RuntimeError("Profile max_stepdown_count exceeded")

                i_op: cq.Wire'''),
  ("operations/profile.py", '''            layers.reverse()
''', '''            layers = layers[::-1]
'''))

v("profile helper",
  ("operations/profile.py", '''    # Transform to relative coordinates
    wire = wire.transformShape(job.top.fG)

    # Generate base features
    base_features = offset_wire(wire, offset * job.tool_radius)
''', '''    base_features = _base_features(job, wire, offset)
'''),
  ("operations/profile.py", '''def profile(
''', '''def _base_features(job, wire, offset):
    # Transform to relative coordinates
    local_wire = wire.transformShape(job.top.fG)
    # Generate base features
    distance = job.tool_radius * offset
    return offset_wire(local_wire, distance)


def profile(
'''),
  ("operations/profile.py", '''        if tabs:
            layers = [apply_tabs(wire, tab_z, tabs) for wire in layers]

        toolpaths += layers

    commands = route_wires(job, toolpaths)
    return commands
''', '''        for layer in layers:
            toolpaths.append(apply_tabs(layer, tab_z, tabs) if tabs else layer)

    return route_wires(job, toolpaths)
'''))

v("pocket loops",
  ("operations/pocket.py", '''    commands = []
    previous_pos = AddressVector()
    for sequence_polyfaces in sequences:
        commands += route_polyface_outers(
            job, sequence_polyfaces, stepover=stepover, previous_pos=previous_pos
        )
        cmd = commands[-1]
        previous_pos = cmd.end

    return commands
''', '''    commands = []
    position = None
    for sequence in sequences:
        routed = route_polyface_outers(job, sequence, stepover, position)
        commands.extend(routed)
        position = commands[-1].end

    return commands
'''),
  ("operations/pocket.py", '''        sequences += fill_sequences
        shallower_pocket_ops.append(pocket_op)
''', '''        sequences.extend(fill_sequences)
        shallower_pocket_ops = shallower_pocket_ops + [pocket_op]
'''))

v("pocket depth map",
  ("operations/pocket.py", '''    depth_map = defaultdict(list)

    for face in poly_faces:
        if face.depth > 0:
            raise ValueError("PolyFace depth is above job plane")

        depth_map[face.depth].append(face)

    depths = list(depth_map.keys())
    depths.sort(reverse=True)
''', '''    depth_map = {}

    for face in poly_faces:
        if face.depth > 0:
            raise ValueError("PolyFace depth is above job plane")

        depth_map.setdefault(face.depth, []).append(face)

    depths = sorted(depth_map, reverse=True)
'''),
  ("operations/pocket.py", '''    stepdown_start_depth = [
        op.depth
        for op in shallower_pocket_ops
        if op.polygon.contains(pocket_op.polygon)
    ]
    if stepdown_start_depth:
        stepdown_start_depth.sort()
        return stepdown_start_depth[0]
    else:
        return None
''', '''    containing = [
        op for op in shallower_pocket_ops if op.polygon.contains(pocket_op.polygon)
    ]
    if not containing:
        return None
    return min(op.depth for op in containing)
'''))

v("pocket stepdown helper",
  ("operations/pocket.py", '''    stepped_sequences = []
    for step_depth in step_depths:
        for sequence in sequences:
            step_sequence = []
            for path in sequence:
                step_sequence.append(path.clone_to_depth(step_depth))
            stepped_sequences.append(step_sequence)

    return stepped_sequences
''', '''    return [
        [path.clone_to_depth(depth) for path in sequence]
        for depth in step_depths
        for sequence in sequences
    ]
'''))

v("pocket offsets",
  ("operations/pocket.py", '''    offset_op_areas: list[PathFace] = []
    offset_avoid_areas: list[PathFace] = []

    for face in op_areas:
        offset_op_areas += offset_polyface(
            face, outer_offset, inner_offset, job.precision
        )

    for face in avoid_areas:
        offset_avoid_areas += offset_polyface(
            face, avoid_outer_offset, avoid_inner_offset, job.precision
        )
''', '''    def offset_all(faces, outer, inner):
        result = []
        for face in faces:
            result.extend(offset_polyface(face, outer, inner, job.precision))
        return result

    offset_avoid_areas = offset_all(avoid_areas, avoid_outer_offset, avoid_inner_offset)
    offset_op_areas = offset_all(op_areas, outer_offset, inner_offset)
'''))

v("profile levels counted",
  ("operations/profile.py", '''            for i in itertools.count():
                if i > job.max_stepdown_count:
                    raise RuntimeError("Profile max_stepdown_count exceeded")

                i_op: cq.Wire = base_feature.moved(cq.Location(step * (i + 1)))
                bb = i_op.BoundingBox()
                # TODO arbitrary precision..
                if bb.zmin >= -0.001:
                    break
''', '''            i = -1
            while True:
                i += 1
                if i > job.max_stepdown_count:
                    raise RuntimeError("Profile max_stepdown_count exceeded")

                lift = cq.Location(cq.Vector(0, 0, (i + 1) * stepdown))
                i_op: cq.Wire = base_feature.moved(lift)
                if not i_op.BoundingBox().zmin < -0.001:
                    break
'''))

v("profile layers inserted",
  ("operations/profile.py", '''                layers.append(i_op)

            layers.reverse()
''', '''                layers.insert(0, i_op)
'''))

v("stepdown depths by hand",
  ("operations/pocket.py", '''    step_depths = np.arange(start_depth, list(end_depths)[0], -stepdown)
''', '''    (end_depth,) = end_depths
    step_depths = []
    while start_depth > end_depth:
        step_depths.append(start_depth)
        start_depth -= stepdown
'''))

v("stepdown depths by count",
  ("operations/pocket.py", '''    step_depths = np.arange(start_depth, list(end_depths)[0], -stepdown)
''', '''    count = max(0, math.ceil((start_depth - end_depths.pop()) / stepdown))
    step_depths = [start_depth - i * stepdown for i in range(count)]
'''),
  ("operations/pocket.py", '''import numpy as np
''', '''import math

import numpy as np
'''))

v("stepdown in the loop",
  ("operations/pocket.py", '''        if stepdown:
            stepdown_start_depth = determine_stepdown_start_depth(
                pocket_op, shallower_pocket_ops
            )
            sequences += apply_stepdown(fill_sequences, stepdown_start_depth, stepdown)

        sequences += fill_sequences
        shallower_pocket_ops.append(pocket_op)
''', '''        stepped = []
        if stepdown:
            stepped = apply_stepdown(
                fill_sequences,
                determine_stepdown_start_depth(pocket_op, shallower_pocket_ops),
                stepdown,
            )
        shallower_pocket_ops = [*shallower_pocket_ops, pocket_op]
        sequences.extend(stepped + fill_sequences)
'''))

v("fill without a tree",
  ("operations/pocket.py", '''    tree = Tree(PathFace(pocket.outer, [], depth=pocket.depth))
    i = 0

    # TODO sanify the variable names here
    try:
        while True:
            node = tree.next_unlocked
            next_outer_candidates = offset_path(node.obj.outer, -step, precision)
            if next_outer_candidates and pocket.inners:
                next_outers = [
                    face.outer
                    for face in difference_poly_tree(
                        next_outer_candidates, pocket.inners, 0
                    )
                ]
            else:
                next_outers = next_outer_candidates

            if next_outers:
                node.branch(
                    [PathFace(outer, [], pocket.depth) for outer in next_outers]
                )
            else:
                node.lock()

            i += 1

    except StopIteration:
        pass
''', '''    def shrink(outer: Path) -> list[Path]:
        candidates = offset_path(outer, -step, precision)
        if not candidates or not pocket.inners:
            return candidates
        remaining = difference_poly_tree(candidates, pocket.inners, 0)
        return [face.outer for face in remaining]

    tree = Tree(PathFace(pocket.outer, [], depth=pocket.depth))
    pending = [tree.root]
    while pending:
        node = pending.pop()
        nexts = [PathFace(path, [], pocket.depth) for path in shrink(node.obj.outer)]
        if nexts:
            pending.extend(node.branch(nexts))
        else:
            node.lock()
'''))

v("tree sequences by hand",
  ("utils/tree.py", '''        while sequence_candidates:
            sequence_candidates.sort(key=lambda x: len(x), reverse=True)
            longest_sequence = sequence_candidates[0]
            sequences.append(longest_sequence)
            used_nodes += longest_sequence
            sequence_candidates = [
                [seq_node for seq_node in seq if seq_node not in used_nodes]
                for seq in sequence_candidates[1:]
            ]
''', '''        while sequence_candidates:
            longest_sequence = max(sequence_candidates, key=len)
            sequence_candidates.remove(longest_sequence)
            sequences.append(longest_sequence)
            used_nodes.extend(longest_sequence)
            remaining = []
            for candidate in sequence_candidates:
                remaining.append([n for n in candidate if n not in used_nodes])
            sequence_candidates = remaining
'''))

v("tree links by loop",
  ("utils/tree.py", '''        parents = []
        parent = self.parent
        while parent:
            parents.append(parent)
            parent = parent.parent
        return parents
''', '''        result = []
        node = self
        while node.parent is not None:
            node = node.parent
            result += [node]
        return result
'''),
  ("utils/tree.py", '''        parents = self.parents
        return [node for node in self.nodes if node not in parents]
''', '''        inner_nodes = {id(node) for node in self.parents}
        return [node for node in self.nodes if id(node) not in inner_nodes]
'''))

v("fluent add operation",
  ("fluent.py", '''        job = copy(self)
        job.operations = [*self.operations, Operation(job, name, commands)]
        return job
''', '''        job = copy(self)
        operation = Operation(job, name, commands)
        operations = list(self.operations)
        operations.append(operation)
        job.operations = operations
        return job
'''))

v("links squared",
  ("routers.py", '''            distance = sqrt(distance_squared)
        else:
            distance, closest_point, poly_position = None, None, None
''', '''            distance = distance_squared
        else:
            distance, closest_point, poly_position = None, None, None
'''),
  ("routers.py", '''        # Same comment applies here as in the same section in route_wires
        if stepover and distance and distance <= stepover:
''', '''        # Same comment applies here as in the same section in route_wires
        if stepover and distance and distance <= stepover**2:
'''))

v("links helper",
  ("routers.py", '''def shift_polygon(''', '''def is_link(distance, stepover):
    if not stepover or not distance:
        return False
    return not distance > stepover


def shift_polygon('''),
  ("routers.py", '''        # Same comment applies here as in the same section in route_wires
        if stepover and distance and distance <= stepover:
''', '''        # Same comment applies here as in the same section in route_wires
        if is_link(distance, stepover):
'''),
  ("routers.py", '''            distance, target, param = None, None, None

        if stepover and distance and distance <= stepover:
''', '''            distance, target, param = None, None, None

        if is_link(distance, stepover):
'''))

v("closest point by hand",
  ("utils/utils.py", '''    t = max(0.0, min(1.0, t))
    closest_point = (v[0] + t * (w[0] - v[0]), v[1] + t * (w[1] - v[1]))
''', '''    if t <= 0:
        closest_point = (v[0], v[1])
    elif t >= 1:
        closest_point = (w[0], w[1])
    else:
        closest_point = (v[0] + t * (w[0] - v[0]), v[1] + t * (w[1] - v[1]))
'''))

v("closest segment by index",
  ("utils/geometry_op.py", '''    for i, (segment_start, segment_end) in enumerate(pairwise(path)):
        s_distance, s_closest_point = dist_to_segment_squared(
            point, segment_start, segment_end
        )
        if distance is None or s_distance < distance:
''', '''    for i in range(len(path) - 1):
        segment_start, segment_end = path[i], path[i + 1]
        s_distance, s_closest_point = dist_to_segment_squared(
            point, segment_start, segment_end
        )
        if distance is None or distance > s_distance:
'''))

v("wire distance helper",
  ("routers.py", '''    vx = cq.Vertex.makeVertex(*v.toTuple())
    extrema = BRepExtrema_DistShapeShape(vx.wrapped, wire2.wrapped)
    extrema.Perform()
    if extrema.IsDone():
        distance = extrema.Value()
''', '''    vertex = cq.Vertex.makeVertex(v.x, v.y, v.z)
    extrema = BRepExtrema_DistShapeShape(vertex.wrapped, wire2.wrapped)
    extrema.Perform()
    done = extrema.IsDone()
    if not done:
        return None, None, None
    else:
        distance = extrema.Value()
'''))

v("tab pieces helper",
  ("operations/profile.py", '''TAB_ERRORS = []
''', '''TAB_ERRORS = []


def edge_piece(curve, start, end, is_reversed):
    piece = cq.Edge(BRepBuilderAPI_MakeEdge(curve, start, end).Edge())
    if is_reversed:
        piece.wrapped.Orientation(TopAbs_REVERSED)
    return piece


def link(first, second):
    return cq.Edge.makeLine(edge_end_point(first), edge_start_point(second))
'''),
  ("operations/profile.py", '''                projected_edge = cq.Edge(
                    BRepBuilderAPI_MakeEdge(projected_curve, p1, p2).Edge()
                )
''', '''                projected_edge = edge_piece(projected_curve, p1, p2, e_reversed)
'''),
  ("operations/profile.py", '''                if e_reversed:
                    projected_edge.wrapped.Orientation(TopAbs_REVERSED)
''', ""),
  ("operations/profile.py", '''                    retract = cq.Edge.makeLine(
                        edge_end_point(previous_edge), edge_start_point(projected_edge)
                    )
                    new_edges.append(retract)
''', '''                    new_edges.append(link(previous_edge, projected_edge))
'''),
  ("operations/profile.py", '''                sliced_edge = cq.Edge(BRepBuilderAPI_MakeEdge(curve, p1, p2).Edge())

                # Flip the orientation if the original edge was also reversed
                if e_reversed:
                    sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
''', '''                sliced_edge = edge_piece(curve, p1, p2, e_reversed)
'''))

v("tab loops",
  ("operations/profile.py", '''        for t_start, t_end in zip(transitions, transitions[1:]):
''', '''        for n in range(len(transitions) - 1):
            t_start, t_end = transitions[n], transitions[n + 1]
'''),
  ("operations/tabs.py", '''        for d in np.linspace(0, 1, self.count, endpoint=False):
            range = (d - half_d, d + half_d)
            wire_tab_ds.append(range)
''', '''        for i in [*(n for n in int_range(self.count))]:
            d = i / self.count
            range = (d - half_d, d + half_d)
            wire_tab_ds.append(range)
'''),
  ("operations/tabs.py", '''class Transition(Enum):''', '''int_range = range


class Transition(Enum):'''))

v("tab positions by comprehension",
  ("operations/tabs.py", '''            half_d = 1 / length * half
            for d in np.linspace(0, 1, count + 2, endpoint=True)[1:-1]:
                edge_ds.append((d - half_d, d + half_d))
''', '''            gap = length / (count + 1)
            edge_ds.extend(
                ((i * gap - half) / length, (i * gap + half) / length)
                for i in range(1, count + 1)
            )
'''),
  ("operations/profile.py", '''        if all(t[1] == Transition.NORMAL for t in transitions):
''', '''        if not any(kind is not Transition.NORMAL for _, kind in transitions):
'''),
  ("operations/tabs.py", '''        edge_lengths = [edge.Length() for edge in ordered_edges]
        wire_length = sum(edge_lengths)
        edge_ranges = []
        previous_range_end = 0
        for edge_length in edge_lengths:
            edge_fraction = edge_length / wire_length
            edge_range_end = previous_range_end + edge_fraction
            edge_ranges.append((previous_range_end, min(edge_range_end, 1)))
            previous_range_end = edge_range_end

        self.edge_lengths = edge_lengths
''', '''        edge_lengths = [edge.Length() for edge in ordered_edges]
        wire_length = sum(edge_lengths)
        edge_ranges = []
        done = 0
        for edge_length in edge_lengths:
            start = done / wire_length
            done += edge_length
            edge_ranges.append((start, done / wire_length))

        self.edge_lengths = edge_lengths
'''))

v("tab height first",
  ("operations/profile.py", '''        tab_z = base_zmin + tabs.height if tabs else None
''', ""),
  ("operations/profile.py", '''        if tabs:
            layers = [apply_tabs(wire, tab_z, tabs) for wire in layers]
''', '''        if tabs is not None:
            tab_z = base_zmin + tabs.height
            for n, layer in enumerate(layers):
                layers[n] = apply_tabs(layer, tab_z, tabs)
'''))

v("drill nearest by min",
  ("operations/strategy.py", '''        nearest = (cached_dist2(point, options[0]), options[0])
        for option in options[1:]:
            dist2 = cached_dist2(point, option)
            if dist2 < nearest[0]:
                nearest = (dist2, option)
        return nearest[1]
''', '''        return min(options, key=lambda option: cached_dist2(point, option))
'''))

v("drill nearest by index",
  ("operations/drill.py", '''        last = None
        while drill_points:
            drill_point = (
                Strategy._pick_nearest(last, drill_points) if last else drill_points[0]
            )
            ordered_drill_points.append(drill_point)
            drill_points.pop(drill_points.index(drill_point))
            last = drill_point
''', '''        remaining = list(drill_points)
        current = remaining[0]
        for _ in range(len(drill_points)):
            nearest = 0
            for i, candidate in enumerate(remaining):
                if cached_dist2(current, candidate) < cached_dist2(
                    current, remaining[nearest]
                ):
                    nearest = i
            current = remaining.pop(nearest)
            ordered_drill_points.append(current)
'''),
  ("operations/drill.py", '''from cq_cam.utils.utils import flatten_list
''', '''from cq_cam.utils.utils import cached_dist2, flatten_list
'''))

v("drill points collected",
  ("operations/drill.py", '''        drill_points = [(point.x, point.y) for point in drill_vectors]
''', '''        drill_points = list(map(lambda p: (p.x, p.y), drill_vectors))
'''),
  ("operations/drill.py", '''                if obj.innerWires():
                    for wire in obj.innerWires():
                        drill_vectors.append(
                            transform_f(cq.Face.makeFromWires(wire).Center())
                        )
                else:
                    drill_vectors.append(
                        transform_f(cq.Face.makeFromWires(obj.outerWire()).Center())
                    )
''', '''                wires = obj.innerWires()
                if len(wires) == 0:
                    wires = [obj.outerWire()]
                for wire in wires:
                    drill_vectors.append(self._center(wire))
'''),
  ("operations/drill.py", '''@dataclass
class Drill''', '''@dataclass
class Drill'''),
  ("operations/drill.py", '''        depth = -abs(self.depth)
''', '''        depth = self.depth if self.depth < 0 else -self.depth
'''),
  ("operations/drill.py", '''    depth: float = None

''', '''    depth: float = None

    def _center(self, wire):
        center = cq.Face.makeFromWires(wire).Center()
        return self.job.top.toLocalCoords(center)

'''))


def run(name, tests, only):
    root = f"/tmp/variant_{name.replace(' ', '_')}"
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    msgs = []
    try:
        for f, old, new in VARIANTS[name]:
            p = f"{root}/src/cq_cam/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return name, [f"edit does not apply to {f} ({s.count(old)} times)"]
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, HOME="/root", PYTHONPATH=root + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        if tests:
            r = subprocess.run("timeout 300 /opt/venv/bin/python -m pytest -q -n 2 -p no:cacheprovider --timeout=120 "
                               "--ignore=src/cq_cam/tests/test_op3d.py src", shell=True, cwd=root, env=env,
                               capture_output=True, text=True)
            last = [x for x in r.stdout.splitlines() if "passed" in x or "failed" in x or "error" in x][-1:]
            if r.returncode:
                msgs.append(f"tests: {last}")
        checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        for c in checks:
            if only and c not in only:
                continue
            e = dict(os.environ, CQCAM_REPO=root, CQCAM_EVIDENCE=root + "/evidence")
            r = subprocess.run(["timeout", "300", sys.executable, V + "/check.py", c], env=e, capture_output=True, text=True)
            if r.returncode:
                out = (r.stdout + r.stderr).strip().splitlines()
                msgs.append(f"{c} rc {r.returncode}: " + " | ".join(x[:220] for x in out[-4:]))
            else:
                last = r.stdout.strip().splitlines()[-1]
                msgs.append(f"   {last}" + ("  UNDEC " + str(sum('UNDECIDED' in x for x in r.stdout.splitlines())) if "UNDECIDED" in r.stdout else ""))
        return name, msgs
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tests = "-t" in a
    quiet = "-q" in a
    a = [x for x in a if x not in ("-t", "-q")]
    only = None
    if "-c" in a:
        i = a.index("-c")
        only = set(a[i + 1].split(","))
        del a[i:i + 2]
    with ThreadPoolExecutor(8) as ex:
        for name, msgs in ex.map(lambda n: run(n, tests, only), a or list(VARIANTS)):
            bad = [m for m in msgs if not m.startswith("   ")]
            print(("BAD " if bad else "ok  ") + name)
            for m in (bad if quiet else msgs):
                print("     ", m)


main()
