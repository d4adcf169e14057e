#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the properties are stated here, once."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'workspace/boostvoronoi_core/src/'
X = 'workspace/boostvoronoi_ext/src/'
HOOKS = ['716ed70', '80bc2c8']
PROPS = []
NA = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))
TESTS = "The existing tests build some 290 fixed inputs (most of a handful of segments) and check stored coordinates or counts; "
MAG = "Valid inputs: points and segments with 32-bit coordinates, segments meeting only at endpoints, no point in the interior of a segment; repeated points, zero-length segments, points on endpoints and any order allowed; gaps not finer than the sweep's documented event resolution (64 representable steps)."
BUILD = [dict(name='sweep over site and circle events', where=C+'builder.rs'), dict(name='beach line order', where=C+'beach_line.rs, '+C+'predicate.rs (NodeComparisonPredicate)'), dict(name='circle events: existence, formation, refinement', where=C+'predicate/'), dict(name='exact integers and error-bounded floats', where=X)]
GF = [C+'builder.rs', C+'predicate.rs', C+'predicate/lazy_circle_formation.rs', C+'predicate/exact_circle_formation.rs', C+'predicate/circle_existence.rs', C+'beach_line.rs', C+'diagram.rs', C+'robust_sqrt_expr.rs', X+'extended_int.rs', X+'extended_exp_fpt.rs', X+'robust_fpt.rs']
MON = "runtime monitoring: "
GNOTE = "Exploration: every diagram the run builds is judged by an oracle that shares no code with the library (exact integers, double-double arithmetic, brute force). Trusts the generators' validity test and the oracle's tolerance (a few hundred representable steps)."

prop('C01', 'Every vertex is equidistant from the sites of its cells',
 "For every valid input, each vertex of the built diagram lies at the same distance from all the sites whose cells meet there. The distances agree to the precision of the coordinate type.",
 ['inputs'], MAG, TESTS+"a vertex wrong for another input goes unseen.", GF, BUILD, MON+"distance oracle in double-double arithmetic over recorded diagrams", GNOTE, observe=['vertices, edges and cells of the finished diagram'])
prop('C02', 'No site lies inside the circle of a vertex',
 "For every valid input, no site is closer to a vertex of the diagram than the sites whose cells meet at that vertex. Together with equidistance this makes every vertex a true Voronoi vertex.",
 ['inputs'], MAG, TESTS+"none compares a vertex with all sites.", GF, BUILD, MON+"brute-force nearest-site oracle over recorded diagrams", GNOTE)
prop('C03', 'One cell per distinct site, tagged with its source',
 "For every valid input the diagram has exactly one cell for each distinct point (endpoints included) and each segment of non-zero length, and no other. Each cell names the input element it comes from and whether it is that point, that segment, its start or its end, and points given more than once share one cell.",
 ['inputs'], MAG, TESTS+"tests count cells for a few inputs; none matches every cell with the input over repeated points, shared endpoints and zero-length segments.",
 [C+'builder.rs', C+'site_event.rs', C+'diagram.rs', C+'geometry.rs'], [dict(name='sort and deduplicate site events', where=C+'builder.rs (init_sites_queue)'), dict(name='cell creation with source index and category', where=C+'diagram.rs')], MON+"reference set of sites against recorded cells", "Exploration: the reference list of sites is exact (integers).")
prop('C04', 'The half-edge structure is consistent',
 "For every valid input the half-edges of the diagram form a consistent structure: twins are mutual, next and previous are inverse and stay in one cell, every cell's boundary is one closed or one unbounded chain starting at its incident edge, and all edges around a vertex start there. Every half-edge, vertex and cell is reached by these links.",
 ['inputs'], MAG, TESTS+"none walks all links.", [C+'diagram.rs', C+'builder.rs'], [dict(name='insertion of edges during the sweep', where=C+'diagram.rs (_insert_new_edge_*)'), dict(name='closing of the diagram', where=C+'diagram.rs (_build, remove_degenerate_*)')], MON+"structural checker over recorded half-edges", "Exploration: purely combinatorial, no tolerance.")
prop('C05', 'The diagram is a connected planar subdivision of the right size',
 "For every valid input the counts of cells, vertices and edges satisfy Euler's relation for a planar subdivision of the plane closed at infinity, with no vertex of degree below three and no degenerate edge. The unbounded cells follow each other around infinity in one cycle.",
 ['inputs'], MAG, TESTS+"counts are compared for fixed inputs only; degenerate (cocircular, collinear, tangent) arrangements beyond them are not.", GF, BUILD, MON+"Euler relation, degree and connectivity checker over recorded diagrams", "Exploration: combinatorial, no tolerance.")
prop('C06', 'Every edge separates exactly its two nearest sites',
 "For every valid input, every point of every edge of the diagram (line, ray, segment or parabolic arc) is equally far from the two sites it separates and no third site is closer. The two sites lie on their own sides of the edge.",
 ['inputs'], MAG, TESTS+"no test looks at the interior of an edge.", GF, BUILD, MON+"sampled edge geometry against a brute-force nearest-site oracle", GNOTE)
prop('C07', 'Edge kinds: linear or curved, primary or secondary',
 "For every valid input an edge is reported curved exactly when it separates a segment from a point that is not an endpoint of that segment, and straight otherwise. It is reported secondary exactly when it separates a segment from one of its own endpoints.",
 ['inputs'], MAG, TESTS+"flags are checked for a few fixed inputs.", [C+'builder.rs', C+'diagram.rs', C+'site_event.rs'], [dict(name='edge flags on insertion', where=C+'diagram.rs (is_linear_edge, is_primary_edge)')], MON+"edge flags against the sites they separate", "Exploration: exact, no tolerance.")
prop('C08', 'Walking the diagram finds the nearest site',
 "For every valid input and any query point, walking from any cell to a neighbouring cell with a closer site until there is none ends in the cell of a site nearest to the query point. This is the use the diagram exists for: neighbours are exactly the sites across an edge.",
 ['inputs', 'histories'], MAG+" Arbitrary start cells and query points.", TESTS+"none queries a diagram.", GF, BUILD, MON+"greedy walks over the built diagram against brute-force nearest site", GNOTE)
prop('C09', 'Every valid input builds',
 "For every valid input, however large or degenerate, building ends with a diagram: no error, no panic, no overflow of the stack, no endless loop. The size of the result is linear in the input.",
 ['inputs'], MAG+" Up to 200,000 (thorough: 500,000) elements.", TESTS+"the largest has some hundred elements; panics on arithmetic overflow depend on rare inputs.", GF, BUILD, MON+"debug assertions and overflow checks on, panic capture, watchdog and process supervision under diverse and stress workloads", "Exploration: a run with overflow checks and debug assertions enabled; supervision attributes aborts and hangs to single cases.")
prop('C13', 'Circle events are exact and handled in order',
 "For every valid input, the circle event the sweep plans for three neighbouring sites is their true common tangent circle: centre and rightmost point are right to within the precision the predicates promise (some ten units of rounding of each coordinate), also where coordinates nearly cancel. Each planned event is handled at most once, never after it was cancelled, always the earliest one first and never before a site that lies ahead of it by more than the sweep's event resolution; none is left over, and all sites are handled once, in order.",
 ['inputs', 'histories'], MAG, TESTS+"the predicate tests compare a few circles with stored values; none checks the order of events.", GF, BUILD, MON+"trace monitor over the recorded sweep, with Newton's method in 640 bits as reference", "Exploration: some 900,000 circle events a run compared in each coordinate (observed error at most 23 units of 2^-53, alarm at 160), some 4 million queue operations followed. Needs the hook.", state=[dict(name='event queue', meaning='circle events planned, cancelled, handled', where=C+'circle_event.rs')], observe=['planned circle events with their sites', 'queueing, cancelling and handling of events'])
prop('C19', 'Vertices at input points are marked, and only they',
 "For every valid input a vertex is marked as coinciding with an input point exactly when an input point (or segment endpoint) lies at its coordinates.",
 ['inputs'], MAG, TESTS+"none compares the mark with the input.", [C+'diagram.rs', C+'builder.rs', C+'circle_event.rs'], [dict(name='site-point flag of circle events', where=C+'circle_event.rs, '+C+'predicate/lazy_circle_formation.rs'), dict(name='vertex insertion', where=C+'diagram.rs')], MON+"vertex marks against the exact set of input points", "Exploration: exact comparison of coordinates.")

NUM = "random operation programs judged step by step by reference arithmetic of 640 bits"
prop('C24', 'Big integers are exact',
 "Addition, subtraction, multiplication and negation of extended integers are exact for every operand, of any length and however it was produced, and the sign tests tell the sign of the true value. Conversion from every value of the integer types is exact; conversion to a float is right to one unit in the last place and exact below 2^53.",
 ['inputs', 'histories'], "All integers of up to 70 words of 32 bits reached by any sequence of operations from 32- and 64-bit integers.", "A few products and differences of short numbers are tested; cancellation across words is not.", [X+'extended_int.rs'], [dict(name='word-wise add, subtract, multiply; float conversion', where=X+'extended_int.rs (add_slice, dif_slice, mul_slice, p)')], MON+NUM, "Exploration: about 8 million operations a run, each compared in full with reference integers. Trusts the reference arithmetic (self-tested).")
prop('C25', 'Floats with a wide exponent are accurate',
 "Each of +, -, *, /, their assigning forms, negation and square root of an extended-exponent float yields the true result of its operands to one unit in the last place and with the right sign, for operands of any exponent and zeros. Conversion to a float is exact where the value fits.",
 ['inputs', 'histories'], "All operands with exponents far beyond those of a double; no division by zero, no infinities or NaN.", "The doc tests use ordinary numbers; zeros with an exponent and extreme exponents are not tested.", [X+'extended_exp_fpt.rs'], [dict(name='alignment of exponents, renormalisation', where=X+'extended_exp_fpt.rs (new, add, sub, sqrt)')], MON+NUM, "Exploration: about 6 million operations a run, each compared with the exact result of its operands.")
prop('C26', 'Error bounds of robust floats are sound',
 "After any sequence of operations on robust floats, and on two-part sums (RobustDif), the true value of the expression lies within the relative error the result states, in units of the rounding error of one operation. Two-part sums keep the value of the expression, also with negative operands. The predicates rely on this to decide when exact arithmetic is needed.",
 ['inputs', 'histories'], "Any operand values in range of a double and any operand errors; bounds up to 2^32 units (beyond, exact arithmetic is always used).", "Tests compare bounds of a few expressions with constants.", [X+'robust_fpt.rs'], [dict(name='propagation of the relative error', where=X+'robust_fpt.rs (Add, Sub, Mul, Div, sqrt)'), dict(name='sums kept in two non-negative parts', where=X+'robust_fpt.rs (RobustDif)')], MON+NUM, "Exploration: about 6 million operations a run; operands start as far from the true value as their bound allows, so an optimistic bound shows at once.")
prop('C27', 'Sums of square roots: right sign, documented accuracy',
 "The evaluators of sums of one to four terms A*sqrt(B), and of the nested forms used for a point and two segments, return the sign of the true value, exactly zero when it is zero, and a value within the documented relative error (4, 7, 16 and 25 units for one to four terms), however much the terms cancel.",
 ['inputs'], "Integer coefficients of up to 130 bits, non-negative B; for the nested form B as the squared lengths and scalar product of two vectors.", "Seven fixed sums are tested, none with heavy cancellation.", [C+'robust_sqrt_expr.rs', X+'extended_int.rs', X+'extended_exp_fpt.rs'], [dict(name='conjugate expressions instead of cancellation', where=C+'robust_sqrt_expr.rs (eval1 to eval4, sqrt_expr_evaluator_pss3, sqrt_expr_evaluator_pss4)')], MON+"sums of square roots judged by reference arithmetic of 640 bits", "Exploration: about 400,000 sums a run, a large part with cancellation beyond a double. Reached through a hook (cfg boostvoronoi_monitor).")

API = "the program drives the whole public interface for generated diagrams"
TF = "Exploration: exact comparison; trusts the generators' validity test."
prop('C10', 'Hostile input is answered, not fatal',
 "Whatever segments and points are given (crossing, overlapping, covering one another, points on segments, coordinates anywhere in 32 bits, or in 64 bits), a build in the release profile ends with a diagram or an error: it does not panic, loop, exhaust memory or overflow the stack. A diagram it yields can be looked at: accessors and iterators answer without a panic, and its cells name existing input elements.",
 ['inputs'], "Any list of points and segments.", "Two or three invalid inputs are tested.", [C+'builder.rs', C+'diagram.rs', C+'beach_line.rs', C+'circle_event.rs', C+'predicate.rs'], [dict(name='errors instead of panics: InternalError, ListError, SelfIntersecting', where=C+'builder.rs, '+C+'beach_line.rs, '+C+'diagram.rs (finish)')], MON+"panics, hangs, aborts and memory watched by a supervising process while hostile inputs are built", "Exploration: about 600,000 inputs a run, most of which break the contract; a run-away case is confirmed in a process of its own.")
prop('C11', 'Building is deterministic',
 "Building the same input again yields the same diagram bit for bit: repeatedly, in other threads at the same time, in another process, and in a build without run-time checks.",
 ['inputs', 'schedules'], MAG, "No test builds anything twice.", GF, [dict(name='total order of events, fixed hash seeds or order-free use of hash maps', where=C+'builder.rs, '+C+'circle_event.rs, '+C+'beach_line.rs')], MON+"bitwise comparison of repeated, concurrent and cross-process builds", TF)
prop('C12', 'Order, direction and repetition of the input do not matter',
 "Listing the same points and segments in another order, turning segments around, repeating elements or listing endpoints as points yields the same diagram (same numbering, same coordinates bit for bit), except that a cell names the element by its index and end in the new list.",
 ['inputs'], MAG, TESTS+"none of them in two orders.", GF, [dict(name='sorting and deduplication of site events', where=C+'builder.rs (init_sites_queue), '+C+'site_event.rs')], MON+"comparison of diagrams of permuted, reversed and repeated input", TF)
prop('C14', 'The number types do not change the diagram',
 "i32 and i64 coordinates of the same value yield the same diagram bit for bit. f32 output has the cells of f64 output, is as consistent in its links, and its vertices are those of f64 output, rounded.",
 ['inputs'], MAG, "Tests use one pair of types each and do not compare.", [C+'lib.rs', C+'builder.rs', C+'diagram.rs', C+'predicate.rs', C+'site_event.rs'], [dict(name='all arithmetic in i64, f64 or wider', where=C+'predicate.rs, '+C+'predicate/')], MON+"comparison of diagrams built with different types", TF)
prop('C15', 'The thread-safe diagram is the diagram',
 "SyncDiagram::from(diagram) keeps every edge, vertex, cell, link, flag and colour, and its accessors answer like those of the diagram, for ids in and out of range. Threads that read it at the same time see the same. A change through edge_get_mut or vertex_get_mut changes that edge or vertex and nothing else; new() of the parts is the same diagram again.",
 ['inputs', 'schedules'], MAG, "A single conversion is tested.", [C+'sync_diagram.rs', C+'diagram.rs'], [dict(name='conversion and accessors of SyncDiagram', where=C+'sync_diagram.rs')], MON+"both forms asked for every id, threads reading at once", TF)
prop('C16', 'Navigation agrees with the half-edges',
 "For every diagram and every id, in range or not, the accessors (twin, next, cell, vertex0/1, finite/infinite, rot_next/rot_prev and their iterators, edges of a cell, incident edges, counts, bounding box of the vertices, degenerate cells, edge_as_line) answer what follows from the stored half-edges, and an error or nothing for ids that do not exist, without a panic. Turning around a vertex one way visits the edges of the other way.",
 ['inputs'], "Diagrams of valid inputs; every id and five ids out of range.", "Tests call a few accessors on single diagrams.", [C+'diagram.rs'], [dict(name='accessors and iterators', where=C+'diagram.rs')], MON+"every accessor against a reference computed from a snapshot of the half-edges", TF)
prop('C17', 'Saving and loading keeps the diagram',
 "A SyncDiagram (f64 or f32, coloured or not) and lists of points and lines written with serde and read back are equal to the original in every link, flag, colour and bit of every coordinate, in binary, tree and text formats.",
 ['inputs'], MAG, "One small diagram is tested with one format.", [C+'sync_diagram.rs', C+'diagram.rs', C+'geometry.rs'], [dict(name='serde derives', where=C+'sync_diagram.rs, '+C+'diagram.rs, '+C+'geometry.rs')], MON+"round trips through three formats compared field by field", TF)
prop('C18', 'Colours are kept as set, and the exterior is what infinity reaches',
 "A new diagram has no colours. A colour set or or-ed on an edge or vertex is read back (its low 27 bits) and changes nothing else; for an id out of range it is an error and changes nothing. color_exterior_edges marks exactly the infinite edges and those at vertices reached from infinity along primary edges without passing an input point, and changes nothing but colours.",
 ['inputs', 'histories'], MAG+" Colours the diagram does not use yet.", "Two diagrams' exteriors are tested.", [C+'diagram.rs'], [dict(name='colour bits', where=C+'diagram.rs'), dict(name='marking of the exterior', where=C+'diagram.rs (color_exterior_edges)')], MON+"histories of colour operations against a model, exterior against reachability", TF)
prop('C20', 'Discretized arcs keep to the parabola and the tolerance',
 "VoronoiVisualUtils::discretize of a curved edge keeps both end points, yields points of the parabola in order, no further from it between points than max_dist, and divides only where that is needed; it ends, in f32 and f64, at every scale. point_projection is the position of a point's projection along the segment.",
 ['inputs'], "Curved edges of valid inputs, a uniform scale, max_dist well above rounding.", "One arc is tested.", [C+'visual_utils.rs'], [dict(name='division of arcs by their height', where=C+'visual_utils.rs (discretize)')], MON+"geometric oracle of points on recorded arcs", "Exploration: tolerance of 64 units of rounding times the condition of the parabola.")
prop('C21', 'Boxes and transformations are exact inverses and containments',
 "An Aabb2 is exactly the smallest box of what it was updated with, an empty one contains nothing, contains_point and contains_line decide inclusively, grow_percent widens about the centre. A SimpleAffine maps the source box into the destination, centre to centre, with one scale, every form of transform agrees (also when a user sets scale or to_offset), and reverse_transform brings integer points back; coordinates that do not fit are errors. to_segments_offset scales, truncates and moves.",
 ['inputs', 'histories'], "Coordinates in 32 bits; points are brought back where rounding allows.", "A few boxes and points are tested.", [C+'visual_utils.rs', C+'lib.rs'], [dict(name='Aabb2, SimpleAffine', where=C+'visual_utils.rs')], MON+"histories of updates and transformations against a model", TF)
prop('C22', 'The file reader reads what is written',
 "read_boost_input_file and read_boost_input_buffer return the points and segments a text in the format lists, in order; of a text that breaks off or does not fit they return what comes before that place. A source that fails is an error; the reader always ends, does not panic, and its memory depends on the size of the text only, not on the counts it announces. How the bytes arrive (in pieces, with interruptions, LF or CR LF) does not matter.",
 ['inputs', 'fault_sequences'], "Texts in the format, damaged texts, failing sources.", "A few well-formed texts are read.", [C+'file_reader.rs'], [dict(name='line parser and its four states', where=C+'file_reader.rs')], MON+"reader fed with faults, its result against an independent parser", TF)
prop('C23', 'Conversions keep every coordinate',
 "Conversions between the library's points, lines and vertices and arrays, mint, glam, cgmath, nalgebra and geo types (by value, by reference, both ways, and cast between integer types) keep x and y, start and end, exactly, and a diagram built from any of these types is the same. try_cast keeps what fits the target type (fractions are cut off) and is an error for what does not.",
 ['inputs'], MAG, "Documentation tests convert one value each.", [C+'geometry.rs', C+'builder.rs'], [dict(name='From implementations', where=C+'geometry.rs')], MON+"every element of generated inputs through every conversion", TF)
prop('C28', 'The builder takes input in any portions',
 "Input given in any number of calls of with_vertices and then with_segments, some of them empty, as values or references, is the same as given at once, and another builder fed at the same time does not matter. with_vertices after with_segments is the error VerticesGoesFirst, even if no segment was given. Nothing yields an empty diagram, a point one cell without edges, a segment three cells and four edges, a zero-length segment one cell.",
 ['inputs', 'histories'], MAG, "Tests make one call of each.", [C+'builder.rs'], [dict(name='with_vertices, with_segments, source indices', where=C+'builder.rs')], MON+"histories of builder calls compared with a single call", TF)
prop('C29', 'Memory is bounded and given back',
 "Building, converting and dropping a diagram, or dropping an unused builder, leaves no byte allocated, and neither does a build that ends with an error. The most memory in use during a build is proportional to the input (below 4000 bytes a site), what a diagram holds is proportional to its parts (below 350 bytes a part). A build of n sites handles each site once, at most 2n circle events, and looks at two triples of arcs per event at most.",
 ['inputs'], MAG, "No test looks at memory or effort.", [C+'builder.rs', C+'beach_line.rs', C+'circle_event.rs', C+'diagram.rs', C+'sync_diagram.rs'], [dict(name='ownership of the beach line through reference counts', where=C+'beach_line.rs'), dict(name='circle events are dropped when handled or cancelled', where=C+'circle_event.rs')], MON+"counting allocator and the record of the sweep", "Exploration: the bounds are about three times the largest seen. The time of a build is not judged: the beach line is searched step by step.")

prop('C30', 'Features, profiles and compilers do not change the diagram',
 "For every valid input the build ends with the same diagram, bit for bit, whichever optional features of the library are selected (none, the conversions to other geometry crates, serde, the debugging aids console_debug and ce_corruption_check), with or without optimisation and debug assertions, and with a stable or a nightly compiler (which select different code for the event queue). Only which of several identical points a cell names as its source may differ.",
 ['inputs', 'configurations'], MAG+" Eight configurations (quick), sixteen (thorough).", "The tests run in one configuration: the default features, the stable compiler. No test selects the debugging aids.", [C+'circle_event.rs', C+'builder.rs', C+'beach_line.rs', C+'predicate.rs', C+'predicate/lazy_circle_formation.rs', C+'diagram.rs', C+'geometry.rs'], [dict(name='code selected by features: pop_first, peek, deactivate, insert, debugging output', where=C+'circle_event.rs, '+C+'beach_line.rs, '+C+'builder.rs'), dict(name='map_first_last with a nightly compiler', where='workspace/boostvoronoi_core/build.rs')], MON+"programs built in other configurations answer the same inputs; digests of all bits compared, endless builds timed out", "Exploration: a configuration that does not compile is left out with a NOTE and is no violation.")

#MORE

def main():
    PROPS.sort(key=lambda p: p['id'])
    with open(V+'/properties.jsonl', 'w') as f:
        for p in PROPS:
            a = dict(files=p['files'], mechanism=p['mech'])
            if p['state']: a['state'] = p['state']
            if p['observe']: a['observe_at'] = p['observe']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
    m = dict(version=1, setup_cmd='./check.sh build',
      checks=[dict(property=p['id'], quick_cmd='./check.sh '+p['id'], thorough_cmd='VERIF_TIER=thorough ./check.sh '+p['id'], evidence_file='evidence/'+p['id']+'.json', technique=p['technique'], level='exploration', level_note=p['note']) for p in PROPS],
      not_applicable=NA,
      hooks=dict(guard='cfg boostvoronoi_monitor', enable='RUSTFLAGS="--cfg boostvoronoi_monitor" (set in env.sh)', source_commits=HOOKS),
      notes='The fix: commits in /repo are listed in known_findings.txt. Replay: ./check.sh replay <path>.')
    with open(V+'/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
if __name__ == '__main__': main()
