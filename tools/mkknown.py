#!/usr/bin/env python3
"""Writes known_findings.json (committed; checks only read it)."""
import json,subprocess,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (properties, commit, what failed)
F=[
("C07","ad69528","degree elevation of curves with several spans returned too many control points, read segments out of bounds and moved the curve"),
("C05","d7d0d91","try_add_knot on a rational curve interpolated projected points with the wrong weights and moved the curve"),
("C05 C14","dc16764","try_clamp and the arc length of unclamped curves worked on the whole knot range instead of the domain"),
("C05","8bd5961","try_refine_knot with an unsorted list of knots built an unordered knot vector"),
("C08 C09 C29","a21aebe","splitting a curve or a surface at an existing knot inserted one knot too many and returned malformed pieces"),
("C06","67f5fa6","try_remove_knot with repeated knots removed from the wrong copy, moved the curve or removed nothing"),
("C07","d68182e","degree elevation of unclamped curves moved the curve"),
("C13","a648705","elliptic arcs used the tangents of a circle and left the ellipse"),
("C14","9f5671e","division by length started at parameter 0 instead of the domain start and refused the whole length"),
("C14 C36","c7baa53","the parameter at a length looped forever when the tolerance was below the resolution of the parameter"),
("C12 C13","859075d","closed curves away from the origin were reported as open (absolute tolerance)"),
("C15 C25","20c5770","compound curves dropped spans that precede the first one, left gaps between span domains and broke them when inverted"),
("C25","c3c57cb","trimming a compound curve at a span boundary lost or duplicated whole spans"),
("C15","af4c5dd","inverting a trimmed surface left the trimming curves behind on the other side"),
("C26","789bf7e","sampled surface derivatives of order above one and of mixed degrees were wrong or panicked"),
("C29","d37c43b","isocurves at repeated knots and at the ends of unclamped domains were wrong"),
("C27","16ab9cf","revolution about an axis that is not of unit length, by negative angles or with points on the axis was wrong or not finite"),
("C28","b3e5afe","lofted sections with unclamped, nearly equal or differing knots were not interpolated"),
("C19","72ea139","closest parameter of closed curves left the domain; Newton steps ended farther than the samples"),
("C20","cfcfb1d","closest parameters of closed surfaces left the domain and the search stopped at the edges of the domain"),
("C20","4c6ba32","the closest point search got stuck at a pole (queries above the neighbourhood of the pole of a sphere)"),
("C30 C20","90974e3","adaptive tessellation missed western neighbours (cracks) and ended beside the domain end"),
("C30 C36","1f92742","meshes held NaN normals at degenerate points and for small surfaces"),
("C31","24a3d32","constrained tessellation dropped or displaced constrained edge parameters"),
("C21","ddd4981","curve intersections were lost on parameter ranges far from the unit range and by solver steps outside of the piece"),
("C21","3e7e1b6","intersections at the joints of two compound curves were reported several times"),
("C22","5061a95","surface-curve intersections were lost by the solver and depended on the parameter scale"),
("C23","5f6dcbc","points level with seams, joints or vertices of the boundary were classified wrongly"),
("C19 C23","eed0059","closest points on curves with kinks were missed where a span has no sample"),
("C24","65a6290","boolean operations treated genuine crossings as degenerate depending on the parameter scale"),
("C24","d51daa9","holes enclosed by a union were returned as separate regions"),
("C24","7221968","boolean operations of regions ignored or misplaced holes"),
("C32","d2b031e","trimmed surfaces of small or large parameter ranges were tessellated across their trims or failed"),
("C32","452c14a","projecting a trim missed the surface along some directions"),
("C17","f81f78a","reading a trimmed surface with a damaged exterior silently dropped the exterior"),
("C34","bc6b7e5","tessellated curves missed turns and left the tolerance"),
("C33 C32","326f782","triangulation of small regions dropped triangles as slivers"),
("C37","5c6b48c","rays with short directions were reported parallel"),
("C35","76d88a9","frames along a curve lost orthonormality; an empty parameter list panicked"),
("C36 C34 C32","2066b86","adaptive tessellation overflowed the stack or ran on where parameter or coordinates cannot be resolved"),
("C36","69ac8e7","bounding box traversal divided unresolvably narrow spans until memory ran out"),
("C14 C36","2683db2","dividing very short curves by length produced thousands of samples or ran out of memory"),
("C11 C36","42a41b4","periodic interpolation of singular systems returned a curve that misses the points (or is not finite)"),
("C36","73ef6fc","a single regular sample of a curve was NaN"),
("C14 C39","0a2791f","division of single precision (or very long) curves by length or count missed the end of the curve"),
("C13 C39","bbda03e","arcs of less than a microradian and arcs just below a half turn failed with No intersection; short arcs and arcs of nearly a half turn left the ellipse"),
("C27","e55776c","revolutions by small angles far from the origin left the circle"),
("C36 C24","a3b840b","boolean operations returned spans with an empty domain"),
]
fixed=[]
for ps,c,w in F:
    for p in ps.split(): fixed.append(f"fixed: property={p} {c} {w}")
json.dump({"known":[],"fixed":fixed},open(root+"/known_findings.json","w"),indent=1)
print(len(fixed))
