prop('C01', 'One result record and one candidate list per slice, always',
     'A shell built or resized with a number of slices n >= 1 holds exactly n slices, n contact results and n lists of candidate triangles; asking for zero slices is refused. No other operation of the shell changes these numbers, so every indexed read-out below n refers to existing data.',
     ['inputs', 'histories'], 'every slice count and every sequence of construct / resize / set-up / read operations',
     NOTEST + 'they build shells with one fixed slice count and never resize, so a missing or stale slot is not observed.',
     [SH, SHH], [('constructors and resize', 'src/shell.cc shell::shell, shell::resize'), ('members that must keep the sizes', 'src/shell.cc shell::copy, shell::setup')],
     AI + '; container-size invariant over all mutators', 'Decides the size relation on every path of every constructor, resize and member of the class.' + TRUST,
     state=[('slices', 'vector of slices', 'src/enve/shell.hxx m_ribs_vec'), ('results', 'vector of result records', 'src/enve/shell.hxx m_out'), ('candidates', 'vector of triangle lists', 'src/enve/shell.hxx m_ribs_triangleground_vec')])

prop('C02', 'Per-slice read-outs return the stored result of that slice',
     'Every per-slice read-out of the shell (point, normal, friction, depth, area, volume, contact frame, relative angles) returns the value computed for that very slice by the last set-up, and the vector form returns one entry per slice, in slice order, whatever the length of the vector passed in. The contact frame is built from the slice result as forward = Y x n, lateral = n x X, vertical = n with the contact point as origin.',
     ['inputs', 'histories'], 'every slice index, slice count and state of the output vector passed by the caller',
     NOTEST + 'no test compares an indexed read-out with its vector form or passes a vector of another length.',
     [SH, SHH], [('per-slice read-outs', 'src/shell.cc shell::contactPoint, contactNormal, contactFriction, contactDepth, contactArea, contactVolume'), ('frames and angles', 'src/shell.cc shell::contactPointAffine, relativeAngles')],
     AI + '; comparison of the value number of each output with the specified one for a generic slice', 'Decides value equality for a generic slice index on every path.' + TRUST)

prop('C03', 'Overall contact values aggregate the per-slice results',
     'The overall contact area and volume are the sums of the per-slice values; the overall point, normal, friction and depth are the volume-weighted means of the per-slice values, falling back to their plain means when the total volume vanishes, the normal being of unit length.',
     ['inputs', 'histories'], 'every slice count and every set of per-slice results, including all-zero volumes',
     NOTEST + 'the fallback with zero total volume and the area total are never compared with the slices.',
     [SH], [('overall read-outs', 'src/shell.cc shell::contactPoint, contactNormal, contactFriction, contactDepth, contactArea, contactVolume (one argument)')],
     AI + '; loop sums as bound terms, compared up to polynomial normalisation', 'Decides the formula on every path, distinguishing the weighted and the fallback branch by the path guards.' + TRUST)

prop('C04', 'Shell set-up places the tyre, fills every slice and reports contact',
     'A set-up stores the given pose, places the bounding box as a cube of half-side the largest tyre radius around the pose origin, and leaves in every slice result the outcome of that slice for the given ground, pose and method - the no-contact record where nothing was found near it. It returns true exactly if at least one slice is in contact.',
     ['inputs', 'histories'], 'every pose, ground, method and previous state of the shell',
     NOTEST + 'they print the verdict, and always set up with the same ground kind; a verdict decided by the last slice or a stale slot from the previous set-up passes.',
     [SH, RI], [('set-up entry points', 'src/shell.cc shell::setup (mesh and flat)'), ('bounding box', 'src/shell.cc shell::updateBBox')],
     AI + '; per-slice kernels uninterpreted, loop induction over the slices', 'Decides the state at every normal exit for a generic slice.' + TRUST,
     state=[('pose', 'placement of the shell', 'src/enve/shell.hxx m_affine'), ('results', 'result records', 'src/enve/shell.hxx m_out'), ('box', 'bounding box of the shell', 'src/enve/shell.hxx m_bbox')])

prop('C05', 'Only the documented contact methods run; any other name is refused',
     'Set-up with method "geometric" or "sampling" runs exactly that method on each slice and returns its verdict; any other method name is refused with an exception, wherever the tyre is and whatever ground lies below it.',
     ['inputs'], 'every method string, ground kind and pose',
     'Tests only pass the two documented names.',
     [SH, RI], [('dispatch', 'src/rib.cc rib::envelop (both grounds)'), ('set-up', 'src/shell.cc shell::setup')],
     AI + '; refutation of normal exits under the assumption of a foreign method name', 'Proves that no normal exit exists for a foreign name and that a documented one reaches its own kernel with the given ground and pose.' + TRUST)

prop('C06', 'A slice record is the rest record or completely and safely computed',
     'After the contact computation of a slice, either no contact is reported and the record is the rest record (slice bottom point placed in the world, tyre vertical axis, zero friction, depth, area and volume), or contact is reported and all six values have been computed from initialised data. No division that enters the record can be by zero.',
     ['inputs'], 'every slice, ground, candidate list (also empty) and pose',
     NOTEST + 'degenerate chords, empty candidate lists and tangent contacts do not occur in them.',
     [RI, OUH], [('slice kernels', 'src/rib.cc rib::envelopGeometric, rib::envelopSampling')],
     AI + '; definite assignment and zero-divisor guards on every exit path of the slice kernels', 'Decides assignment and divisor guards on every path; divisors the solver cannot bound are reported as undecided, not as alarms.' + TRUST)

prop('C07', 'Geometric contact with a flat ground follows the circular segment',
     'For a slice against a flat ground, contact is reported exactly if the ground plane cuts the disk placed by the pose in a chord; the contact point is the chord mid-point, the normal the ground normal projected on the slice plane and normalised, the friction that of the ground, the depth the radius less the distance from the slice centre. Area is chord times width and volume the circular segment times width.',
     ['inputs'], 'every flat ground, slice and pose',
     NOTEST + 'values are printed, not compared with the formula.',
     [RI], [('flat kernel', 'src/rib.cc rib::envelopGeometric (flat)')],
     AI + '; value comparison up to polynomial and vector normalisation, intersection queries uninterpreted', 'Decides formulas on every exit; a formula written in functions the normaliser does not know is reported as undecided.' + TRUST)

prop('C08', 'Geometric contact with a mesh accumulates every touching triangle once',
     'For a slice against a mesh, every candidate triangle cut by the slice disk in a non-degenerate chord, and no other, adds its chord area and its section volume, and weighs its own unit normal, its own friction and its chord mid-point by that volume. The reported point, normal and friction are the weighted sums divided by the total volume, the depth the radius less the distance of the point from the slice centre. Where the total volume is positive, contact is reported as soon as either the total area or the total volume exceeds the standard tolerance.',
     ['inputs'], 'every list of candidate triangles in every order, every slice and pose',
     NOTEST + 'a triangle skipped, counted twice or with another triangle\'s friction changes printed numbers only.',
     [RI], [('mesh kernel', 'src/rib.cc rib::envelopGeometric (triangle list)')],
     AI + '; induction step of the accumulation loop for a generic triangle', 'Decides the loop step and the final record on all paths.' + TRUST)

prop('C09', 'Sampling contact uses four symmetric probes on the highest ground',
     'With the sampling method a slice is in contact exactly if four vertical probes, placed symmetrically about the slice along its two in-plane axes, all find ground and the resulting depth is positive; each probe takes the highest ground point below it and the friction belonging to that point. Point and friction are means of the four samples, the normal is that of the plane through the diagonals, and depth, area and volume follow from the segment cut.',
     ['inputs'], 'every ground, slice, pose and order of candidate triangles',
     NOTEST + 'probe order, hits at several heights and partially missing ground are not distinguished.',
     [RI], [('sampling kernels', 'src/rib.cc rib::envelopSampling'), ('probe', 'src/rib.cc rib::samplingLine')],
     AI + '; loop induction for the selection of the highest hit', 'Decides the selection invariant and formulas on all paths.' + TRUST)

prop('C10', 'Every triangle near a slice is offered to that slice',
     'During set-up on a mesh every triangle found near the shell is handed to every slice whose plane it touches or crosses; only triangles lying strictly on one side of the slice plane may be left out - and with the sampling method, whose probes stand beside that plane, none - and the lists hold no triangle of an earlier set-up.',
     ['inputs', 'histories'], 'every mesh, pose, slice and set-up history',
     NOTEST + 'a triangle lost for some slice changes only printed numbers.',
     [SH], [('candidate selection', 'src/shell.cc shell::setup (mesh)')],
     AI + '; induction over the selection loops', 'Decides omission only under a fact that separates the triangle from the plane, for a generic slice and triangle.' + TRUST)

prop('S01', 'The tyre surface is defined on its width only and follows its profile',
     'For every lateral position within the half width, and only there, the surface radius is Rx (1 - (|y|/Ry)^My)^(1/Mx), the derivative is the derivative of that expression with the sign of y (zero within the tolerance of the middle plane) and the angle is its arc tangent; a position outside is refused. The extreme radius and width are the profile parameters given at construction.',
     ['inputs'], 'every lateral position and every set of profile parameters',
     NOTEST + 'no test evaluates the surface at a given position or outside the width.',
     [SP, SH, SPH], [('surface queries', 'src/shape.cc shape::surfaceRadius, surfaceDerivative, surfaceAngle, checkWidthBound'), ('forwarding', 'src/shell.cc shell::surfaceRadius, surfaceDerivative, surfaceAngle')],
     AI + '; formula comparison by case split on the sign of the argument', 'Decides formulas and domain guards on every path.' + TRUST)

prop('S02', 'The slices tile the tyre width evenly and lie on the surface',
     'With n slices, slice i is centred at -L + (2 i + 1) L / n along the tyre axis (L the half width), is 2 L / n wide, and has the radius and inclination of the surface at that very position, and the read-outs return these values for the slice asked for. A profile that would give a slice without positive radius is refused.',
     ['inputs'], 'every slice count and profile, at construction and after every resize',
     NOTEST + 'the position of the slices is printed at most.',
     [SH, RI], [('slice construction', 'src/shell.cc shell::resize'), ('slice', 'src/rib.cc rib::rib'), ('read-outs', 'src/shell.cc shell::ribRadius, ribCenter, ribWidth, ribAngle')],
     AI + '; loop recurrence closed form compared with the specified position', 'Decides the position for a generic slice through the closed form of the loop recurrence.' + TRUST)

prop('M01', 'A loaded mesh is exactly what its file describes',
     'Loading a mesh file builds one triangle per element line from the nodes that line names, in the order it names them, with the friction of that line (RDF) or the given one (OBJ), every node being the given pose applied to the coordinates on its line. An element that names a node the file does not define is refused; nothing outside the node table is ever read.',
     ['inputs'], 'every file content, pose and friction',
     NOTEST + 'all the files they load are well formed, so a node number out of range is never tried, and vertices are not compared with the file.',
     [ME], [('file loaders', 'src/mesh.cc mesh::load and the file readers it calls')],
     AI + '; symbolic file lines, subscripts against container sizes', 'Decides, for one generic line of any file, which tokens reach which vertex and that each subscript is in bounds on every path.' + TRUST)

prop('M02', 'Malformed mesh files are refused, comments and empty lines ignored',
     'Loading refuses a file with the wrong extension, a file that yields no triangle, a node line without exactly three coordinates, an element line with the wrong number of fields and a negative friction; comment lines contribute nothing; a load that completes reports success. Nothing well formed is refused: not a node line of three numbers, nor an element line naming nodes already read with a friction of zero or more, nor a file of such lines.',
     ['inputs'], 'every file name and content',
     'Tests only load well-formed files.',
     [ME], [('file loaders', 'src/mesh.cc mesh::load and the file readers it calls')],
     AI + '; path facts required at every store and normal exit', 'Decides which conditions hold where a node or triangle is stored; conditions in a form the interpreter does not know are undecided, not alarms.' + TRUST)

prop('M05', 'Lines of a mesh file are cut into their words',
     'The words of a line are its maximal runs of characters other than the separator, in order, whatever the number of separators before, between and after them; the words of an earlier line never survive. The label of a line is its first word (separated by blanks, tabs or line ends), the empty word for a blank line; the rest of a line is the line without its first word and the blanks around.',
     ['inputs'], 'every line, every position and number of blanks',
     'Test files are written by one program with single blanks.',
     [ME], [('string helpers of the loaders', 'src/mesh.cc mesh::split, tail, firstToken')],
     AI + ' on lines of known length whose characters are symbolic: every pattern of blank and non-blank characters, compared with the definition',
     'Lines of 0 to 5 characters (0 to 7 in the thorough tier), every pattern of blanks, tabs and line ends; longer lines are not enumerated.' + TRUST)

prop('M06', 'Every line of a mesh file counts once, as what it is',
     'In an RDF file the section titles switch between nodes and elements; comments ({, %, #) and blank lines change nothing anywhere; any other line is one node in the node section, one triangle in the element section and nothing before the first title - or the file is refused. In an OBJ file each v line is one node and each f line one triangle, every other line is passed over. Words are taken behind the label (whole line for RDF elements), reading goes on to the end, and triangles are numbered in order.',
     ['inputs', 'histories'], 'every sequence of lines of every kind',
     'Test files hold one section of each kind and no comments between data lines.',
     [ME], [('file loaders', 'src/mesh.cc mesh::load (both)')],
     AI + '; the loop over the lines becomes a transition system over the first word and the loop variables, explored to its fixpoint',
     'Kinds of lines are represented by sample first words (each title, each comment sign, blank, numbers, known and unknown labels); sequences of lines are unbounded.' + TRUST)

prop('M03', 'Mesh boxes and search tree always match its triangles',
     'After construction, load, copy or clear, the mesh has one box per triangle, box i encloses triangle i and carries the index i, and the search tree is built over exactly these boxes; copy takes over all triangles, clear none, and a load that is refused leaves all three as they were. No other member changes them.',
     ['inputs', 'histories'], 'every sequence of construct / load / copy / clear / query operations',
     'Tests load a mesh once and never copy, clear or reload it.',
     [ME, MEH], [('members that write', 'src/mesh.cc mesh::mesh, load, copy, clear, set'), ('queries', 'src/mesh.cc mesh::intersection')],
     AI + '; effect analysis and loop induction over triangles and boxes', 'Decides the relation between the three containers on every exit of every member.' + TRUST,
     state=[('triangles', 'triangles of the mesh', 'src/enve/mesh.hxx m_triangles'), ('boxes', 'one bounding box per triangle', 'src/enve/mesh.hxx m_bboxes'), ('tree', 'search tree over the boxes', 'src/enve/mesh.hxx m_aabbtree')])

prop('M04', 'A mesh query returns exactly the triangles whose boxes overlap',
     'A query of the mesh with boxes, or with a tree, returns for every overlapping pair found by the search tree the triangle the mesh box belongs to - whatever the ids of the triangles are - and it reports true exactly if something was found; nothing of a previous query remains in the result.',
     ['inputs', 'histories'], 'every mesh, query boxes and previous content of the output list',
     'Tests use one mesh with consecutive ids and print the result.',
     [ME], [('queries', 'src/mesh.cc mesh::intersection')],
     AI + '; tree search uninterpreted, loop induction over the pairs found', 'Decides which triangle is stored per pair and the verdict on every path; the tree search itself is the subject of the tree properties.' + TRUST)

BX = 'toolbox/src/aabb.cc'
BT = 'toolbox/src/AABBtree.cc'

prop('B01', 'Boxes overlap, contain, merge and measure distances exactly',
     'An axis-aligned box has ordered corners after every construction. Two boxes overlap exactly if their closed ranges do on all three axes, a point is inside exactly if it is in all closed ranges, the box of three points or of a list of boxes is their smallest enclosing box, a translated box has both corners moved, and the two distances from a point are those to the nearest (zero inside) and to the farthest point of the box.',
     ['inputs'], 'every position of corners and points, including flat, touching and identical boxes and lists of any length',
     NOTEST + 'no test touches boxes at their borders, flat boxes or distances.',
     [BX], [('box members', 'toolbox/src/aabb.cc aabb::intersects, isInside, clamp, merged, translate, centerDistance, exteriorDistance, constructors')],
     AI + '; exhaustive case analysis over the order of the coordinates, loop induction for lists', 'Decides every realisable ordering of the coordinates exactly (real arithmetic).' + TRUST)

prop('B02', 'The box tree holds every box of its list exactly once',
     'Building a tree from a list of boxes leaves an empty tree for an empty list, a leaf with that box for a single one, and otherwise a tree whose box encloses the list and whose subtrees together hold every box of the list exactly once, each subtree with strictly fewer boxes; nothing of a previous build remains. A tree is empty exactly if it holds neither box nor subtrees.',
     ['inputs', 'histories'], 'every list of boxes in every order, including identical and collinear boxes, and rebuilt trees',
     NOTEST + 'trees are only used through one mesh; a box lost in a split, or a split that does not progress for identical boxes, is not observed.',
     [BT], [('tree construction', 'toolbox/src/AABBtree.cc AABBtree::build, clear, isEmpty')],
     AI + '; effect trace with the recursion uninterpreted, loop induction over the distribution, integer evaluation of the split sizes', 'Decides the distribution step for a generic box and the split sizes for 2..40 boxes (the split rule is linear in the count).' + TRUST,
     state=[('box', 'box of the tree', 'toolbox/src/acme/AABBtree.hxx m_ptrbox'), ('children', 'subtrees', 'toolbox/src/acme/AABBtree.hxx m_children')])

prop('B03', 'A tree query returns every overlapping pair of boxes exactly once',
     'The query of two trees returns each pair of leaf boxes, one from each tree, that overlap, exactly once and in the requested order, and no other pair; a pair of subtrees is skipped only if one is empty or their boxes do not overlap.',
     ['inputs'], 'every pair of trees, of any shape and depth, in both orders',
     NOTEST + 'a pair lost between inner nodes of different depth, or a pair reported in exchanged order, is not observed.',
     [BT], [('tree query', 'toolbox/src/AABBtree.cc AABBtree::intersection')],
     AI + '; effect trace with the recursive calls uninterpreted, structural induction', 'Decides the induction step on every path; completeness for whole trees follows with the enclosing boxes of B01 and B02.' + TRUST)

prop('B04', 'The nearest-box search never loses the nearest box',
     'The nearest-box selection of a tree returns exactly the boxes whose nearest-point distance does not exceed the smallest farthest-point distance of all boxes of the tree; a subtree is skipped only if its nearest point is farther than the bound; an empty tree selects nothing.',
     ['inputs'], 'every tree and query point',
     NOTEST + 'no test uses the nearest-box search.',
     [BT], [('nearest selection', 'toolbox/src/AABBtree.cc AABBtree::selectMinimumDistance, minimumExteriorDistance, selectLessThanDistance')],
     AI + '; box distances and recursive calls uninterpreted, structural induction', 'Decides pruning conditions and bound propagation on every path.' + TRUST)

FG, TG, GHH = 'src/flat.cc', 'src/triangleground.cc', 'src/enve/flat.hxx'

prop('G01', 'Grounds with negative friction or a normal not pointing up are refused',
     'Constructing a flat ground or a ground triangle with a friction that is negative (or not a number), or a flat ground with a normal whose vertical part is not positive, throws; with valid data construction succeeds and stores exactly the given friction and origin and the given normal scaled to unit length.',
     ['inputs'], 'every friction, origin and normal, through every constructor',
     NOTEST + 'tests construct grounds from valid data only.',
     [FG, TG], [('flat constructors', 'src/flat.cc flat::flat'), ('triangle constructors', 'src/triangleground.cc triangleground::triangleground')],
     AI + '; implication of the conditions by the path facts of normal and exceptional exits', 'Decides both directions (refused / not refused) on every path.' + TRUST)

prop('G02', 'A ground triangle keeps its vertices and derives normal and box from them',
     'A ground triangle returns the vertices it was given in their order and its id; its normal is the unit normal of the plane through the vertices, turned so that it does not point down whatever the orientation of the vertices; its box is the smallest box around the three vertices and carries the id of the triangle.',
     ['inputs'], 'every three points (both orientations, vertical and degenerate triangles), through every constructor',
     NOTEST + 'normals and boxes of single triangles are never compared with their vertices.',
     [TG, BX], [('triangle constructors', 'src/triangleground.cc triangleground::triangleground, updateNormal, updateBBox')],
     AI + '; case analysis over the order of the vertex coordinates', 'Decides values and signs on every path.' + TRUST)

prop('G03', 'Copies take over every member and comparisons use every member',
     'After copying a rib, shape, flat or ground triangle every stored datum equals that of the source; isApprox of these and of the geometric primitives (plane, line, ray, segment, triangle, disk, ball, box) is true exactly if each stored datum that is not derived from the others agrees within the tolerance passed by the caller.',
     ['inputs'], 'every pair of objects and every tolerance',
     NOTEST + 'tests neither copy such objects nor compare objects that differ in a single member.',
     [RI, SP, FG, TG], [('copies', 'src/rib.cc rib::copy, src/shape.cc shape::copy, src/flat.cc flat::copy, src/triangleground.cc triangleground::copy'), ('comparisons', 'isApprox of the same classes and of toolbox/src/*.cc primitives')],
     AI + '; enumeration of all data members, truth table of the comparison', 'Decides member by member on every exit.' + TRUST)

prop('G04', 'Reading never changes an object and objects share no hidden state',
     'Members declared as read-only change nothing reachable from the object, and no result of any call depends on hidden state shared between objects or calls, so that distinct objects can be used independently (also from different threads) and read-outs can be repeated in any order with the same result.',
     ['schedules', 'histories'], 'every order and interleaving of calls on any number of objects',
     'No test interleaves calls on several objects or repeats read-outs in different orders, and none uses threads.',
     [SH, RI, ME, 'toolbox/src/intersection.cc'], [('all read-only members', 'src/*.cc, toolbox/src/*.cc'), ('static variables', 'src/enve/*.hxx, toolbox/src/acme/*.hxx')],
     'effect analysis: stores, non-const calls and bound references reachable from this in const members; use analysis of all static variables', 'Decides the absence of writes on every path of every read-only member (calls are checked at the callee) and of read-write static variables.' + TRUST)

IS, AD, CN = 'toolbox/src/intersection.cc', 'toolbox/src/acme/', 'toolbox/src/'

prop('A01', 'Entity intersection and tests dispatch to the right kinds, in either order',
     'For two geometric entities of any kinds the entity-level tests and intersection run the typed operation for exactly these kinds, with the tolerance of the caller, and give the same answer in either operand order; the returned entity has the kind required by the pair and the situation (e.g. point for crossing lines, the lower-dimensional operand for coplanar plane pairs) and holds the typed result, is a none entity if the operands do not meet, and no temporary entity is lost, deleted twice or used after deletion.',
     ['inputs'], 'every ordered pair of the nine kinds of entity, in every situation (collinear, coplanar, otherwise) and with every typed outcome',
     NOTEST + 'tests intersect a few pairs of lines and planes; most pairs, the exchanged operand orders and the ownership of results are not exercised.',
     [IS], [('entity dispatch', 'toolbox/src/intersection.cc Intersection(entity, entity)'), ('entity predicates', 'toolbox/src/parallel.cc, orthogonal.cc, collinear.cc, coplanar.cc entity overloads')],
     AI + '; dynamic types enumerated, typed operations uninterpreted, ownership counted on each path', 'Decides all 81 ordered pairs in all situations exactly.' + TRUST)

prop('A02', 'Parallel, orthogonal, collinear and coplanar mean what they say for all kinds',
     'For every supported pair of typed primitives the tests for parallelism, orthogonality, collinearity and coplanarity are true exactly if the defining directions (or normals) and the vector connecting the two operands satisfy the geometric definition within the tolerance of the caller; the answer does not depend on the order of the operands, nor on the sense or length of directions and normals.',
     ['inputs'], 'every pair of primitives of the pair of kinds, every tolerance',
     NOTEST + 'tests evaluate a handful of constant primitives.',
     [CN + 'parallel.cc', CN + 'orthogonal.cc', CN + 'collinear.cc', CN + 'coplanar.cc'],
     [('typed predicates', 'toolbox/src/parallel.cc, orthogonal.cc, collinear.cc, coplanar.cc'), ('operands of the predicates', 'toolbox/src/line.cc, ray.cc, plane.cc, segment.cc, triangle.cc, disk.cc accessors')],
     AI + '; every exit reduced to a propositional formula over elementary vector comparisons, compared with the definition by truth table', 'Decides the formula of every overload.' + TRUST)

prop('A03', 'Typed intersections give the true intersection of their operands',
     'For each supported pair of typed primitives (and three planes) the intersection reports contact exactly if the two primitives meet in a set of the requested kind, and stores this set: the common point of crossing primitives, the common part of collinear ones, the chord of a line or figure in a coplanar or crossing figure, the disk or segment cut from a ball. The result does not depend on the length or sense of directions and normals, nor on the order of vertices.',
     ['inputs'], 'every relative position of two primitives: crossing, parallel, collinear, coplanar; contact inside, outside and at the borders; every order of end points on a common line; every way a line crosses a triangle or disk; borderline cases closer than the tolerance are left open',
     NOTEST + 'tests intersect a few constant primitives; most overloads are never executed.',
     [IS, CN + 'triangle.cc', CN + 'disk.cc', CN + 'segment.cc'],
     [('typed intersections', 'toolbox/src/intersection.cc typed overloads'), ('inside tests used by them', 'toolbox/src/{segment,ray,triangle,disk}.cc isInside, barycentric')],
     AI + ' to comparisons and formulas; cell decomposition of the configuration space, comparisons evaluated at the corners of each cell and verified affine within it',
     'Every overload is reduced to the exact conditions of its exits. They are decided on all cells of relative positions; for the finitely many orientations in space used, comparisons that are not affine in a cell are decided at sample points of the cell only (both counted in the evidence).' + TRUST)

prop('A04', 'Every kind of entity classifies, moves, measures and bounds itself correctly',
     'Exactly one type test of an entity is true, the one of its kind, and level, type name and clampability agree with it. Translation, rotation and rigid transformation move every defining point and turn directions and normals, leaving radii and everything else as they are. Vectors, lengths, areas, perimeters, volumes, distances, edges, laying planes and barycentric coordinates have their geometric values, the two forms of the bounding box agree and enclose the entity as tightly as its kind allows, inside tests answer for the set the entity stands for, an entity is degenerate exactly where its direction, normal, radius or the distance of two of its vertices is within the given tolerance, and a default point holds not-a-number.',
     ['inputs'], 'every entity of the nine kinds, with directions and normals of any length, every vector, angle and rigid transformation',
     NOTEST + 'no test moves entities other than points, or reads measures and boxes of disks, balls and triangles.',
     [CN + 'line.cc', CN + 'ray.cc', CN + 'plane.cc', CN + 'segment.cc', CN + 'triangle.cc', CN + 'disk.cc', CN + 'ball.cc', CN + 'point.cc', CN + 'entity.cc'],
     [('members of the entity classes', 'toolbox/src/{none,point,line,ray,plane,segment,triangle,disk,ball,entity}.cc, toolbox/src/acme/*.hxx')],
     AI + ' to expressions per exit; identity of expressions decided at generic points, tests on cells of positions', 'Expressions are extracted exactly; two analytic expressions that agree at generic points are identical (with probability one).' + TRUST)

prop('A05', 'A collection answers for exactly the entities it holds',
     'A collection of entities reports that it contains, is made of, or counts entities of a kind (or degenerate, clampable, non-clampable ones) exactly according to the tests of the single entities; removing them leaves the others in their order; every motion is applied once to each entity; clamping gives one box per entity with its corners and its index as identifier, or an error if some entity has no box; the tree is built on these boxes and belongs to this collection only; a query returns exactly the entities named by the pairs the trees report, and the pairwise intersection covers every pair with the tolerance of the caller.',
     ['inputs', 'histories'], 'every mixture of entities and every outcome of the element tests',
     NOTEST + 'no test uses the selecting, counting, removing and querying members of a collection.',
     [CN + 'collection.cc'], [('collection members', 'toolbox/src/collection.cc')],
     AI + ' on lists of 0..5 entities with the operations on single entities uninterpreted; every assignment of the element tests compared with the quantified definition', 'Lists of 0 to 5 entities (6 in the thorough tier), every outcome; longer lists are not enumerated (loops are followed to their end on each list).' + TRUST)

prop('X01', 'A Simulink step reports what the shell computed, in the fixed bus layout',
     'Each step of the S-function sets up the shell of the initialisation with the hub frame of the input bus (read column by column) and the enveloping method selected (0 geometric, 1 sampling, anything else an error), on the ground selected: 0 the mesh and, if the shell is not on it, the flat ground; 1 the flat ground; anything else an error. The flag tells whether the first selection held. All outputs are then the read-outs of the shell after the last setup: frames column by column, ribs in order, not-a-number beyond the number of ribs; nothing is written outside the bus and the input is left alone. Initialisation builds shell, flat ground and mesh (file from ENVE_GROUND_PATH, *.rdf or *.obj by extension, otherwise an error) from its parameters; a step before it is an error; each object is released exactly once.',
     ['inputs', 'histories'], 'every hub frame, parameter value and number of ribs; every sequence of initialisation, steps and termination',
     NOTEST + 'the S-function test runs one mesh and one shell and only prints the results.',
     ['sfun/src_sfun/enve_sfun_interface.cc', 'sfun/include_sfun/enve_sfun_types.h'], [('S-function', 'sfun/src_sfun/enve_sfun_interface.cc enve_sfun_init, enve_sfun_out, enve_sfun_end')],
     AI + '; shell and mesh uninterpreted, loops over the bus followed element by element', 'Shells with 1, 3, as many and more ribs than the bus holds, every selector class.' + TRUST)

prop('F01', 'The pose of the shell, its axes and angles are those last set',
     'A new shell stands at the origin with the axes of the world. Setting a transformation stores exactly the given frame (matrix or affine); translation and rotation compose the motion on the right of the stored frame, and change nothing else. The read-outs give the translation, rotation and linear part, the whole frame, its three axes and the angles of the sequence ZXY whose product of elementary rotations is the rotation of the frame. The test for valid frames accepts orthonormal right-handed frames and refuses all others.',
     ['inputs', 'histories'], 'every frame, vector, angle and axis, every sequence of motions',
     NOTEST + 'tests pass poses to the set-up only; no test moves a shell or reads its pose.',
     [SH, SHH], [('pose of the shell', 'src/shell.cc translate, rotate, transform, translation, rotation, linear, x, y, z, eulerAngles, checkTransformation')],
     AI + ' to expressions of the stored frame; identity decided at generic frames', 'Two analytic expressions that agree at generic frames are identical (with probability one); the test for frames is evaluated on 60 classes of frames.' + TRUST)

prop('K01', 'What is put into a value object comes out, under its name',
     'A line, ray, plane, segment, triangle, disk, ball, box, shape, rib, flat ground or ground triangle constructed from given data reports exactly those data under their names; the writable form of each accessor refers to the datum the read-only form reports; copying takes over every member. An edge or vertex index of a triangle outside [0, 2] is refused. Setting one corner of a box by its coordinates leaves the other as it was. The plane a flat ground lies on is the ground itself. The angle between two vectors is the arc cosine of their normalised product.',
     ['inputs'], 'every class of value objects, every constructor, every argument and index',
     NOTEST + 'tests read back few of the constructors and none of the writable accessors, and every other module reads the data through them.',
     ['toolbox/src/line.cc', 'toolbox/src/ray.cc', 'toolbox/src/plane.cc', 'toolbox/src/segment.cc', 'toolbox/src/triangle.cc', 'toolbox/src/disk.cc', 'toolbox/src/ball.cc', 'toolbox/src/aabb.cc', 'src/shape.cc', 'src/rib.cc'],
     [('constructors and accessors', 'toolbox/src/{line,ray,plane,segment,triangle,disk,ball,aabb}.cc, src/{shape,rib}.cc')],
     AI + '; accessors interpreted on the state left by each constructor', 'All constructors and accessors of the classes are enumerated; data are symbolic.' + TRUST)

prop('P01', 'What is printed is what the object holds',
     'The printed form of vectors, points, frames, lines, rays, planes, segments, triangles, disks, balls, boxes, shapes, flat grounds, ground triangles, meshes, trees of boxes and shells names each datum and gives after each name the value the read-out of that name returns for the same object, to at least six decimals; lists (ribs, contact data per rib, triangles of a mesh, children of a tree) are printed completely, each element with its own index and data; a shell prints its angles in units of pi; an empty tree only prints that it is empty; a mesh is written to the file named. Printing always returns.',
     ['inputs', 'histories'], 'every object of these classes in every state, with any number of ribs, triangles or children',
     NOTEST + 'tests print objects but nobody compares the text.',
     ['toolbox/src/utilities.cc', 'src/shell.cc', 'src/shape.cc', 'src/flat.cc', 'src/mesh.cc', 'src/triangleground.cc', 'toolbox/src/AABBtree.cc'],
     [('printing', 'toolbox/src/utilities.cc operator<<; print of shell, shape, flat, triangleground, mesh, AABBtree')],
     AI + '; trace of the insertions in the stream split in labels and values', 'All insertions on all paths; values compared with the read-outs as terms over the same object.' + TRUST)

prop('K02', 'Constants, default arguments and default objects hold what they stand for',
     'The named constants hold the values of their names: pi, pi/180, infinity, not-a-number, the machine epsilon, its square root (also the standard tolerances of both libraries) and cube root, the unit, zero, one and identity vectors and matrices; the not-a-number objects are not-a-number in every datum. A tolerance that is not passed is the standard tolerance, a pose that is not passed the identity. A default constructed point, line, ray, plane, segment, triangle, disk, ball, box, shape, rib, flat ground, ground triangle or contact record reads not-a-number in every real datum and 0 as identifier; a cleared box reads not-a-number in both corners.',
     ['inputs'], 'every constant, every defaulted tolerance or pose of every function, every default constructed object',
     NOTEST + 'tests pass where a constant or tolerance is wrong by a little, and none reads a default object.',
     ['toolbox/src/acme.hh', 'src/enve.hh', 'toolbox/src/acme/', 'src/enve/'], [('constants', 'toolbox/src/acme.hh, src/enve.hh, NAN_* in toolbox/src/acme/*.hxx'), ('default arguments', 'toolbox/src/acme/*.hxx src/enve/*.hxx'), ('default constructors', 'src/*.cc toolbox/src/*.cc')],
     'evaluation of the initialisers found in the source; ' + AI + ' of default constructors', 'All namespace-level constants, all default arguments and all default constructors are enumerated.' + TRUST)

prop('X02', 'MATLAB commands do what their names say with what they are given',
     'Every command of the MATLAB interface (shell, mesh, flat and triangle ground) touches only arguments that were passed and matrix entries that exist: a matrix of another size, a missing argument or a number of another class is refused or read as its class says. It calls the operation it is named after on the object handed over, every argument reaches that operation in its place, matrices column by column, slices and triangles counted from one. What the operation gives is handed back complete, matrices column by column, and each output asked for is given; a new object is made from the arguments in order and its handle returned.',
     ['inputs', 'histories'], 'every command, any number of arguments and outputs, matrices of any size, arguments of any numeric class',
     'No test loads the MATLAB interface; the build does not even compile it.',
     ['toolbox/src_mex/'], [('commands', 'toolbox/src_mex/mex_shell.cc mex_mesh.cc mex_flat.cc mex_triangleground.cc'), ('reading arguments', 'toolbox/src_mex/mex_utils.hh')],
     AI + ' of each command with the operations of the library uninterpreted; sizes and counts enumerated against the conditions of each path', 'All commands in the tables, all paths; the MATLAB interface is modelled by the declarations in engine/stubs/mex.h; mexErrMsgTxt does not return.' + TRUST)
