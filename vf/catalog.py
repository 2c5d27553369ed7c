"""The properties: text of properties.jsonl, and what MANIFEST.json says of each."""
P = {}
NA = {}
def p(id, title, statement, over, text, why, files, mech, note=None, na=None, state=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                 anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}, note=note)
    if na:
        NA[id] = na
API3, API2, APIS, APIC = 'src/mmg3d/API_functions_3d.c', 'src/mmg2d/API_functions_2d.c', 'src/mmgs/API_functions_s.c', 'src/common/API_functions.c'
RUNS = 'The test suite runs whole remeshing jobs on sample meshes; '

p('A01', 'Volume-mesh entities set through the API are read back as set',
  'Every vertex, tetrahedron, prism, triangle, quadrilateral and edge written through the volume library (one at a time or all at once) is returned by every getter with the coordinates, vertices, reference, normal and corner/required/ridge attributes that were written last. Writing or tagging one entity leaves all other entities and the mesh sizes as they were. The only change the library may make is to exchange two vertices of a tetrahedron whose orientation is negative, so that the orientation becomes positive.',
  ['inputs', 'histories'], 'any contents, any position, any arguments; one write or attribute call from an arbitrary stored state, then a complete read-out',
  RUNS + 'the API examples set a handful of entities and never compare a full read-out.',
  [API3], [('Set_*/Get_* family', API3)])
p('A02', 'Planar-mesh entities set through the API are read back as set',
  'Every vertex, triangle, quadrilateral and edge written through the 2D library (singly or in bulk) is returned by every getter with the coordinates, vertices, reference and corner/required attributes written last, and all other entities and the mesh sizes stay as they were. The only change the library may make is to exchange two vertices of a negatively oriented triangle.',
  ['inputs', 'histories'], 'any contents, position and arguments; one call from an arbitrary stored state, then a complete read-out',
  RUNS + 'API examples set a handful of entities.', [API2], [('Set_*/Get_* family', API2)])
p('A03', 'Surface-mesh entities set through the API are read back as set',
  'Every vertex, triangle and edge written through the surface library (singly or in bulk) is returned by every getter with the coordinates, normal, vertices, reference and corner/required/ridge attributes written last, and all other entities and the mesh sizes stay as they were.',
  ['inputs', 'histories'], 'any contents, position and arguments; one call from an arbitrary stored state, then a complete read-out',
  RUNS + 'API examples set a handful of entities.', [APIS], [('Set_*/Get_* family', APIS)])
p('A04', 'Solution values set through the API are read back as set',
  'Scalar, vector and tensor values attached to vertices of any of the three libraries, one at a time or in bulk, and in a multi-field solution, are returned component by component as they were written, at every vertex, and no other value changes. The declared number, type and size of the fields are reported back as declared.',
  ['inputs', 'histories'], 'any field layout, vertex, component values; one write then full read-out',
  'The tests use at most a constant metric through the API.', [API3, API2, APIS], [('Set_/Get_ scalarSol, vectorSol, tensorSol, ithSol', API3)])
p('A05', 'A parameter call changes exactly the parameter it names',
  'Setting an integer or real parameter of any library makes that parameter take the requested value (or the documented derived or default value) and leaves every other parameter and the mesh unchanged; a value the library refuses is reported as an error and touches no other parameter. Freshly initialised parameters have the documented defaults.',
  ['inputs', 'configurations'], 'every parameter key, every value, any previous settings',
  'Tests use a few option combinations with valid values.', [API3, API2, APIS, APIC], [('Set_iparameter/Set_dparameter', API3)])
p('A06', 'Per-reference tables return what the user registered',
  'Local size parameters, material split rules and level-set base references registered by the user are stored in the order and with the values given, never beyond the declared count, and re-registering an existing reference updates or is reported. Declaring a new count discards the previous table without affecting any other setting.',
  ['inputs', 'histories'], 'any count up to the bound, any values, any registration order', 'Tests register one or two entries each.',
  [API3, API2, APIS, APIC], [('Set_localParameter, Set_multiMat, Set_lsBaseReference', APIC)])
p('A07', 'Requests outside the declared sizes are refused without effect',
  'A request to write or read an entity or a solution value at a position beyond the declared number (including when none is declared), or with a solution of another type than the one declared, is answered by a failure code, changes neither the mesh, the solution nor any parameter, and never touches memory outside the arrays. The attribute calls (corner, required, ridge, normal), which only check their range in debug builds, are not concerned.',
  ['inputs'], 'any sizes, any index above the declared count, every entity kind and solution type of the three libraries', 'Tests only make valid calls.',
  [API3, API2, APIS], [('range tests in Set_*/Get_*', API3)])
p('A08', 'Every Fortran entry point does what its C counterpart does',
  'Each Fortran entry point forwards its arguments unchanged and in order to the C function of the same name and hands back its result and outputs; strings are truncated at the length passed by the caller.',
  ['inputs'], 'every entry point, all argument values', 'Only a few Fortran examples exist and they are not built here.',
  ['src/mmg3d/API_functionsf_3d.c', 'src/mmg3d/libmmg3df.c', 'src/mmg2d/API_functionsf_2d.c', 'src/mmgs/API_functionsf_s.c', 'src/common/API_functionsf.c'], [('FORTRAN_NAME wrappers', 'src/common/libmmgcommon_private.h')])
p('A09', 'Structures are built and released completely, also when memory runs out',
  'Freeing the mesh and solution structures through the variadic entry points releases every block exactly once and resets the user pointers, whichever optional structures were initialised, whatever sizes, fields and per-reference tables were declared in between, also when declared again. If an allocation fails in one of these calls the call does not report a structure that does not exist, and what was allocated before is still released exactly once.',
  ['inputs', 'fault_sequences'], 'every combination of optional structures, every sequence of allocation failures', 'Tests never fail an allocation and do not run under a leak checker.',
  ['src/mmg3d/variadic_3d.c', 'src/mmg2d/variadic_2d.c', 'src/mmgs/variadic_s.c', API3, API2, APIS], [('Init_mesh_var/Free_all_var', 'src/mmg3d/variadic_3d.c')])
p('M01', 'Memory use is accounted exactly and never exceeds the budget',
  'Every allocation, growth and release adjusts the recorded memory use by exactly the number of bytes concerned, an allocation that would exceed the budget is refused and reported, and the sizes derived from a memory budget are non-negative, at least as large as the mesh given, and fit in the budget.',
  ['inputs', 'configurations', 'fault_sequences'], 'any budget, any mesh sizes within bounds, any sequence of growth steps', 'Tests run with ample memory.',
  ['src/common/mmgcommon_private.h', 'src/mmg3d/zaldy_3d.c', 'src/mmg2d/zaldy_2d.c', 'src/mmgs/zaldy_s.c'], [('MMG5_ADD_MEM/DEL_MEM, memOption_memSet', 'src/mmg3d/zaldy_3d.c')],
  na='not built: within the API calls and table growth the accounting is exercised by A09, M02 and T03, but the byte-exact claim over whole runs spans every allocation of the three libraries, and the derived sizes are computed in floating point from the amount of memory; no sound bounded harness for the whole statement was completed')
p('M02', 'Free lists hand out each slot once and lose none',
  'Creating a point or element always returns a slot that is not in use, never one handed out and still live, and deleting returns the slot so that it is handed out again; the number of live entities and the list of free ones stay consistent, also when the arrays grow.',
  ['histories'], 'one create, delete or grow step from any consistent state (hence any history)', 'Tests exercise allocation only indirectly.',
  ['src/mmg3d/zaldy_3d.c', 'src/mmg2d/zaldy_2d.c', 'src/mmgs/zaldy_s.c'], [('newPt/delPt/newElt/delElt', 'src/mmg3d/zaldy_3d.c')])
p('M03', 'Packing the mesh keeps every live entity and nothing else',
  'Packing the mesh for output keeps exactly the live vertices, elements, their coordinates, references, attributes, metric and field values, renumbers connectivity consistently and drops unused entities, leaving contiguous arrays.',
  ['inputs'], 'any pattern of live and deleted vertices and elements within bounds', 'Tests check only that a file is written.',
  ['src/mmg3d/libmmg3d.c', 'src/mmg2d/libmmg2d.c', 'src/mmgs/libmmgs.c'], [('packMesh and its parts', 'src/mmg3d/libmmg3d.c')])
p('T01', 'Adjacency of tetrahedra is exact',
  'After building adjacency, two tetrahedra are recorded as neighbours through a face exactly when they share the three vertices of that face, the relation is symmetric, and a face of only one tetrahedron has no neighbour.',
  ['inputs'], 'any conforming connectivity over a bounded number of vertices and elements', 'Sample meshes only.', ['src/mmg3d/hash_3d.c'], [('MMG3D_hashTetra', 'src/mmg3d/hash_3d.c')])
p('T02', 'Adjacency of triangles is exact',
  'After building adjacency of a planar or surface triangulation, two triangles are recorded as neighbours through an edge exactly when they share it as its only two triangles; the relation is symmetric, and edges shared by more than two triangles are marked non-manifold.',
  ['inputs'], 'any triangle connectivity over a bounded number of vertices', 'Sample meshes only.', ['src/common/hash.c', 'src/mmg2d/hash_2d.c', 'src/mmgs/hash_s.c'], [('mmgHashTria, MMG2D_hashTria', 'src/common/hash.c')])
p('T03', 'Edge and face tables behave as maps keyed by unordered vertex sets',
  'A value stored for an edge or a face is returned for those vertices in any order and only for them, later stores do not disturb it, absent keys are reported absent, and accumulating tags keeps every bit, also when keys collide and when the table grows.',
  ['inputs', 'histories'], 'any sequence of a bounded number of operations, colliding keys included', 'Collisions and growth are rare on sample meshes.', ['src/common/hash.c', 'src/mmg3d/hash_3d.c'], [('hashEdge, hashGet, hashFace, hashEdgeTag, hEdge, hTag', 'src/common/hash.c')])
p('T04', 'Tetrahedron split patterns partition the element',
  'Splitting a tetrahedron along any set of its edges replaces it by sub-tetrahedra that use only its vertices and the new edge points, fill it exactly without overlap, cut each face in a way that depends only on that face, and pass on the reference and the face and edge attributes of the pieces.',
  ['inputs'], 'every edge-set pattern and every numbering', 'Sample meshes reach only some of the patterns and rotations and do not check tags.', ['src/mmg3d/split_3d.c'], [('MMG5_split1 .. MMG5_split6', 'src/mmg3d/split_3d.c')])
p('T05', 'Triangle split patterns partition the element',
  'Splitting a triangle of a planar or surface mesh along one, two or three edges replaces it by triangles that use only its vertices and the new edge points, keep its orientation, cover it exactly, and pass on its reference and edge attributes.',
  ['inputs'], 'every edge-set pattern and numbering', 'Sample meshes only.', ['src/mmg2d/split_2d.c', 'src/mmgs/split_s.c'], [('MMG2D_split1..3, MMGS_split1..3', 'src/mmg2d/split_2d.c')])
p('T06', 'Edge swaps keep the boundary and adjacency of the pair',
  'Swapping the common edge of two triangles yields two triangles over the same four vertices with the same outer edges, references and edge attributes, consistent orientation and an exact, symmetric adjacency; protected edges are not swapped.',
  ['inputs'], 'any pair, numbering, references and attributes', 'Sample meshes only.', ['src/mmg2d/swapar_2d.c', 'src/mmgs/swapar_s.c'], [('MMG2D_swapar, MMGS swapar', 'src/mmg2d/swapar_2d.c')])
p('T07', 'Vertex collapses remove exactly one vertex and keep the mesh conforming',
  'Collapsing a vertex onto a neighbour removes the elements that held both, replaces the vertex in the others, keeps references and the attributes of surviving edges, and leaves an exact symmetric adjacency and one free vertex.',
  ['inputs'], 'any ball within bounds, any numbering', 'Sample meshes only.', ['src/mmg2d/colver_2d.c', 'src/mmgs/colver_s.c', 'src/mmg3d/colver_3d.c'], [('colver', 'src/mmg2d/colver_2d.c')])
p('T09', 'Local traversals return exactly the elements around a vertex or edge',
  'The list of elements around a vertex or around an edge contains every element that holds it, each exactly once with the right local index, and open or closed configurations are reported as such; a list that would exceed its capacity is refused rather than truncated.',
  ['inputs'], 'any conforming configuration within bounds', 'Sample meshes only.', ['src/mmg3d/boulep_3d.c', 'src/mmg2d/boulep_2d.c', 'src/mmgs/boulep_s.c', 'src/common/boulep.c'], [('boulevolp, coquil, boulet', 'src/mmg3d/boulep_3d.c')])
p('T10', 'Boundary extraction lists exactly the boundary faces',
  'The boundary triangles derived from a tetrahedral mesh are exactly the faces without neighbour or between two different references, each once, oriented outward from the element they come from and carrying the user reference and attributes where given.',
  ['inputs'], 'any conforming connectivity and references over a bounded number of elements', 'Sample meshes only.', ['src/mmg3d/hash_3d.c'], [('MMG5_chkBdryTria, MMG5_bdryTria, MMG5_bdrySet', 'src/mmg3d/hash_3d.c')],
  na='not built within the time: the extraction chains several hash tables and the user triangles over the whole mesh; no harness for it was completed')
p('T11', 'The vertex search tree holds exactly the inserted vertices',
  'The spatial search tree holds each inserted vertex once, forgets exactly the removed ones, and answers a region query with every vertex of the region.',
  ['inputs', 'histories'], 'any bounded sequence of insertions and removals with arbitrary coordinates', 'Only exercised indirectly.', ['src/mmg3d/PRoctree_3d.c'], [('MMG3D_addPRoctree, MMG3D_delPRoctree', 'src/mmg3d/PRoctree_3d.c')],
  na='the tree is a recursive pointer structure whose shape depends on comparisons of symbolic doubles: every insertion point is symbolic and no encoding of useful size was found; fixing the coordinates would turn the check into enumeration of concrete runs')
p('T12', 'Required entities are left untouched',
  'A vertex, edge or element the user declared required is never moved, split, swapped or removed by a local remeshing operation.',
  ['inputs'], 'any local configuration within bounds', 'The tests do not compare required entities before and after.', ['src/mmg2d', 'src/mmgs', 'src/mmg3d'], [('MG_REQ tests', 'src/common/libmmgcommon_private.h')],
  na='the guarantee is spread over every remeshing loop (hundreds of MG_REQ tests), each guarded by floating-point criteria over the whole neighbourhood; its local, encodable part (a required edge is not swapped, required marks survive splits and collapses) is decided in T04 to T07')
p('L01', 'Material rules decide which references are split and how they are renamed',
  'In level-set discretisation a reference is split, kept or renamed exactly as the user rules say: the interior and exterior names of a split reference, no change for a kept one, the default interior and exterior for unlisted references; the original reference can be recovered from the renamed ones.',
  ['inputs', 'configurations'], 'any rule table within bounds, any reference', 'A few tables in tests.', ['src/common/mmg2.c'], [('MMG5_MultiMat_init, MMG5_isSplit, MMG5_getStartRef', 'src/common/mmg2.c')])
p('L02', 'Level-set discretisation names each side by the sign of the function',
  'After discretisation every element on the negative side carries the interior reference and every element on the positive side the exterior one, according to the sign of the level-set at its non-zero vertices, and the interface entities carry the interface reference.',
  ['inputs'], 'any element, vertex values and rule table', 'Sample level sets only.', ['src/common/mmg2.c', 'src/mmg3d/mmg3d2.c', 'src/mmg2d/mmg2d6.c', 'src/mmgs/mmgs2.c'], [('setref', 'src/mmg3d/mmg3d2.c')])
p('L04', 'References altered while discretising are restored on request',
  'References that level-set discretisation renamed or snapped values it changed in order to work are restored to the original ones where the documentation says so, and other data stays unchanged.',
  ['inputs'], 'any small mesh and rule table', 'Sample level sets only.', ['src/common/mmg2.c', 'src/mmg3d/mmg3d2.c', 'src/mmg2d/mmg2d6.c'], [('resetRef', 'src/common/mmg2.c')],
  na='not built within the time: the restoring loops run inside whole-mesh drivers; the lookup that maps a renamed reference back to the original one is decided in L01')
p('S01', 'Sizes are kept within the requested bounds',
  'Whatever size the user or the geometry asks for, the size stored at every vertex in use lies between the minimal and maximal sizes in force, a size already inside the bounds is unchanged, a constant size request is stored exactly, and a user size that is not positive is refused every time.',
  ['inputs'], 'any metric values and bounds', 'Sample metrics only.', ['src/common/scalem.c', 'src/common/isosiz.c'], [('solTruncature_iso', 'src/common/scalem.c')])
p('S03', 'Normalising the mesh is undone exactly',
  'Scaling a mesh to its bounding box multiplies every coordinate in use, size, level-set or displacement value and every length parameter (global and per reference) by the same factor, and unscaling gives the original values back; unscaling twice does nothing more, and parameters the user did not set are reported unset again.',
  ['inputs', 'configurations'], 'any sizes, parameters and solution values, bounds given or not, with or without metric', 'The tests never compare parameters or unused data before and after a run.',
  ['src/common/scalem.c'], [('MMG5_scaleMesh, MMG5_unscaleMesh', 'src/common/scalem.c')])
p('S02', 'Size gradation only ever lowers sizes',
  'Gradation never increases a prescribed isotropic size, never touches the size of a vertex excluded from gradation, and on completion neighbouring sizes respect the requested progression.',
  ['inputs'], 'any sizes on a small mesh', 'Not checked by tests.', ['src/mmg3d/isosiz_3d.c', 'src/mmg2d/isosiz_2d.c', 'src/mmgs/isosiz_s.c', 'src/common/isosiz.c'], [('gradsiz_iso', 'src/common/isosiz.c')],
  na='gradation iterates double-precision products and comparisons to a fixpoint over the mesh; chains of such operations on symbolic values do not finish in a bit-precise encoding, and a real-arithmetic model would not be the code')
p('I01', 'Binary mesh files reload to the mesh that was saved',
  'A mesh or solution written in binary Medit format and read back, also from a file of the opposite byte order, has the same vertices, elements, references, attributes and values.',
  ['inputs'], 'any small mesh contents', 'Tests do not compare contents.', ['src/common/inout.c', 'src/mmg3d/inout_3d.c', 'src/mmg2d/inout_2d.c', 'src/mmgs/inout_s.c'], [('saveMesh/loadMesh', 'src/mmg3d/inout_3d.c')],
  na='the readers and writers go through C stdio (fscanf, fread, fseek on a FILE): deciding them would mean encoding a hand-written model of stdio and of the text conversions of doubles rather than the real code; the byte-order conversion itself is decided in I02')
p('I02', 'Byte-order conversion is exact',
  'Swapping the byte order of an integer, single or double precision value of a file reverses its bytes, and doing it twice gives the value back.',
  ['inputs'], 'every value', 'No test reads an opposite-order file.', ['src/common/tools.c', 'src/common/inout.c'], [('MMG5_swapbin, MMG5_swapf, MMG5_swapd', 'src/common/tools.c')])
p('I03', 'File names select the documented format',
  'The format of a mesh or solution file is decided from its extension as documented, name building never writes outside its buffer and always ends with the documented extension.',
  ['inputs'], 'any name up to the bound', 'A few names.', ['src/common/tools.c', 'src/common/inout.c', APIC], [('MMG5_Get_format, MMG5_Set_inputMeshName', APIC)],
  na='not built: names are handled by strstr/strrchr/strcat over heap strings of symbolic length, whose buffers have a size that depends on the symbolic name; no harness for it was completed')
p('I05', 'Truncated or invalid files are refused, never trusted',
  'Reading a mesh, solution or parameter file whose contents are truncated or inconsistent ends with an error code and without accessing memory outside the structures.',
  ['inputs', 'fault_sequences'], 'any bounded file contents', 'Tests read valid files.', ['src/mmg3d/inout_3d.c', 'src/mmg2d/inout_2d.c', 'src/mmgs/inout_s.c', 'src/common/inout.c'], [('loadMesh, loadSol', 'src/common/inout.c')],
  na='same reason as I01: the behaviour is that of fscanf/fread on a truncated stream, outside the code that can be encoded')
p('I06', 'Command-line options set the documented parameters',
  'Each command-line option of the three programs sets exactly the documented parameter to the given value, an option without its value or an unknown one is refused, and options can be given in any order.',
  ['inputs', 'configurations'], 'every option, any value text up to the bound', 'Tests use a few options.', ['src/mmg3d/libmmg3d_tools.c', 'src/mmg2d/libmmg2d_tools.c', 'src/mmgs/libmmgs_tools.c'], [('parsar', 'src/mmg3d/libmmg3d_tools.c')],
  na='not built: the option parsers are single functions with hundreds of string comparisons over argv followed by file and parameter handling; the setters they call are decided in A05')
p('D01', 'A failing phase is never reported as success',
  'If a phase of a remeshing run fails, the run returns the low-failure code when a conforming mesh could be saved and the strong-failure code otherwise, never success; when every phase succeeds it returns success.',
  ['fault_sequences'], 'any combination of phase failures in every run mode of the three libraries', 'Tests check successful runs.',
  ['src/mmg3d/libmmg3d.c', 'src/mmg2d/libmmg2d.c', 'src/mmgs/libmmgs.c'], [('MMG3D_mmg3dlib, mmg3dls, mmg3dmov', 'src/mmg3d/libmmg3d.c')])
p('D02', 'Incompatible options and inputs are refused before any change',
  'A run asked with incompatible options, or with a metric or solution that does not fit the mesh, is refused with a failure code before the mesh is altered.',
  ['inputs', 'configurations'], 'every combination of option flags and solution layouts', 'A few combinations.', ['src/mmg3d/libmmg3d.c', 'src/mmg2d/libmmg2d.c', 'src/mmgs/libmmgs.c'], [('option checks', 'src/mmg3d/libmmg3d.c')])
p('N01', 'Sorting and permutation utilities are exact',
  'Sorting a short array of values yields an order of its indices with non-decreasing values, and applying a permutation moves every value to its place.',
  ['inputs'], 'any values, any bounded length', 'One unit test on a fixed array.', ['src/common/tools.c'], [('MMG5_nsort, MMG5_nperm', 'src/common/tools.c')])
why_fp = 'the guarantee is a statement about chains of double-precision square roots, divisions and eigen-decompositions (and iterative loops over the whole mesh): bit-exact floating-point encodings of these kernels do not finish and a real-arithmetic model would not be the code'
p('X01', 'Elements of an adapted mesh have positive volume and bounded quality',
  'The mesh returned by a successful run contains only elements of positive volume and quality above the documented floor.', ['inputs'], 'any input mesh', 'Sample meshes only.', ['src/mmg3d', 'src/mmg2d', 'src/mmgs'], [('quality checks', 'src/mmg3d/quality_3d.c')], na=why_fp)
p('X02', 'The adapted surface stays within the requested distance of the input',
  'The boundary of the adapted mesh lies within the user Hausdorff distance of the reconstructed input surface.', ['inputs'], 'any input mesh', 'Sample meshes only.', ['src/mmg3d', 'src/mmgs', 'src/mmg2d'], [('chkedg, defsiz', 'src/mmgs/isosiz_s.c')], na=why_fp)
p('X03', 'Metric intersection and interpolation stay within the given metrics',
  'Intersecting or interpolating anisotropic metrics yields a positive definite metric that respects both operands.', ['inputs'], 'any pair of metrics', 'Unit tests on fixed matrices.', ['src/common/intmet.c', 'src/common/mettools.c', 'src/common/eigenv.c'], [('MMG5_intersecmet', 'src/common/mettools.c')], na=why_fp)
p('X04', 'Remeshing terminates',
  'Every run terminates with a result code.', ['inputs'], 'any input', 'Sample meshes only.', ['src/mmg3d/mmg3d1.c'], [('maxit loops', 'src/mmg3d/mmg3d1.c')], na='termination of whole runs over data-dependent loops has no useful bound for a bounded solver; ' + why_fp)
