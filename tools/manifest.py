#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults"
NOTE = {
 'C01': "edit histories of 1-8 simulated clients; integrity and API agreement after every delivered request",
 'C02': "edit histories; every delivered request compared element by element with the executable reference model",
 'C08': "all read operations at seeded points of edit histories against answers recomputed from a raw snapshot",
 'C10': "subdivisions of open/closed/built meshes with failing interpolators and constructors against a geometric refinement oracle",
 'C06': "exports at seeded points of histories with gaps, faults in allocate and set_normal; buffers and normals recomputed from the raw snapshot",
 'C13': "storage faults (ten kinds of overwritten or exchanged references, live, dead, out-of-range targets) injected into accepted meshes at seeded points of histories",
 'C09': "forked, tweaked and independently rebuilt meshes (other ids, other index type) compared with panicking callbacks; verdicts recomputed from raw snapshots",
 'C05': "polygons of eight kinds inserted, wrapped and chorded inside edited meshes; nine algorithms judged by an area/side/winding oracle, min-weight and Delaunay optimality",
 'C04': "nine kinds of stream (exact, ending early, lying size hint, non-fused, panicking at every element, re-entrant into a second mesh) fed to every stream-driven builder inside edited meshes; pulls counted, results compared with the position-by-position prediction",
 'C07': "each script executed repeatedly with other hash keys and random numbers, with foreign meshes edited (and failing) between and inside its calls, as one of 2-5 real threads serialised by a seeded baton at every call-back, and by 2-5 threads reading one shared mesh; bit-for-bit comparison of everything observed",
 'C11': "forked replicas edited in lockstep or apart with faults after the fork; transformed/flipped/to_nd/flattened copies of histories' meshes against raw snapshots",
 'C12': "path-builder sessions inside edit histories (targets live, foreign, dead; edits interleaved; call-backs failing at any command; small index types close to exhaustion), SVG documents (subpaths, relative and smooth commands, shapes, hidden, truncated, malformed) and texts in random TrueType fonts and the bundled OpenType font, each compared with the predicted faces, loops and curves",
 'C14': "lofts, extrusions and caps at seeded boundaries of edited meshes, every solid builder at seeded sizes; hems, caps, counts, orientation, radii against raw snapshots",
 'C15': "faces of edited meshes, also with corners moved off the plane or exchanged, measured and compared with the simulator's geometry; triangulations behind foreign buffer entries measured, flipped, verified, corrupted in seven ways and verified again",
 'C16': "transformations put together in nested chains (2D/3D/4D, f32/f64) applied to points, payloads, curves and meshes of histories and compared with their steps in plain arithmetic; mesh-wide moves with a payload panicking midway; curve, interpolation, vector and scalar helpers",
 'C03': "edit histories with invalid requests, panics at every caller call-back, index exhaustion, crash/restore",
}
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique=TECH, level="exploration",
            level_note=NOTE[i] + ". Exploration: it searches seeded runs, it does not prove absence. Trusts the simulator's reference oracle; assumes debug assertions on and payload Clone not panicking."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na)
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
