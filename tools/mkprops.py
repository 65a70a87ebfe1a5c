import json
S='src/permaviss/'
G=S+'gauss_mod_p/'; A=S+'persistence_algebra/'; C=S+'simplicial_complexes/'; SS=S+'spectral_sequence/'; CV=S+'covers/cubical_cover.py'; EX=S+'sample_point_clouds/examples.py'
P=[]
def p(i,title,st,q,why,files,mech,over=('inputs',),obs=()):
    P.append(dict(id=i,title=title,statement=st,quantifier=dict(over=list(over),text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs) or [m[1] for m in mech],hook_needed=None)))
p('P01','Arithmetic modulo p is exact',
 'For a prime p the inverse of every integer that is not a multiple of p (negative ones included) is the residue in 1..p-1 whose product with it is 1 modulo p, and inverting a multiple of p, or a number with no inverse for a composite modulus, raises ValueError. Sums of numbers and arrays modulo c and products of matrices modulo p are the canonical residues of the exact result. Inputs are never modified.',
 'every pair of integers, every matrix, every prime modulus',
 'The tests invert a handful of positive numbers; signs, larger moduli and matrix entries outside 0..p-1 are never sampled.',
 [G+'arithmetic_mod_p.py',G+'functions.py'],[('inverse',G+'arithmetic_mod_p.py:inv_mod_p'),('sums',G+'arithmetic_mod_p.py:add_mod_c'),('product',G+'functions.py:multiply_mod_p')])
p('P02','Column reduction modulo p is a correct reduction',
 'Reducing a matrix modulo a prime by left-to-right column additions yields a matrix whose nonzero columns have pairwise different lowest entries, together with an invertible upper triangular record of the additions such that the original matrix times the record equals the reduced matrix modulo p. The lowest entry of a vector is found at its last nonzero position, and a zero vector has none. The input matrix is not modified.',
 'every matrix with entries in 0..p-1, every prime p',
 'The tests reduce five fixed matrices; whether two columns can end with the same lowest entry depends on every residue pattern.',
 [G+'gauss_mod_p.py'],[('reduction',G+'gauss_mod_p.py:gauss_col'),('lowest entry',G+'gauss_mod_p.py:index_pivot')])
p('P03','Linear systems modulo p are solved exactly when solvable',
 'Solving a linear system modulo a prime returns a vector of residues that satisfies every equation whenever a solution exists, and raises ValueError whenever none exists. The same holds for several right hand sides at once. Inputs are not modified.',
 'every coefficient matrix and right hand side over every prime field',
 'Tests hold a few solvable systems; under- and over-determined and inconsistent systems form a space that samples do not cover.',
 [G+'functions.py'],[('one system',G+'functions.py:solve_mod_p'),('several systems',G+'functions.py:solve_matrix_mod_p')])
p('P04','Reductions respect radii and lifespans of generators',
 'When vectors are expressed through earlier generators, a generator is used for a vector only if it is already born (radius version) or its lifespan allows it (lifespan version), and the coefficients returned reproduce the vector exactly modulo p on the coordinates alive at its birth. A vector that cannot be expressed in this way raises an error, and one that can never does.',
 'every matrix of residues and every order of births and deaths, ties included',
 'The tests use one radius vector each; admissibility depends on the order of all radii, which ties and permutations change.',
 [G+'gauss_mod_p.py'],[('by radius',G+'gauss_mod_p.py:gauss_col_rad'),('by lifespan',G+'gauss_mod_p.py:gauss_barcodes')])
p('P05','Vietoris-Rips complexes hold exactly the simplices of small diameter',
 'For a symmetric distance matrix, a radius and a dimension, the complex built has, in every dimension up to the given one, exactly the sets of points whose pairwise distances are below the radius, each once, and the value of every simplex is the largest of its pairwise distances. Values are listed in nondecreasing order in each dimension, and points have value zero. The distance matrix is not modified.',
 'all distance matrices (not only metric ones), radii and dimensions',
 'Tests use two point sets with generic distances; ties and isolated or repeated points decide order and membership.',
 [C+'vietoris_rips.py'],[('complex and values',C+'vietoris_rips.py:vietoris_rips')])
p('P06','Flag complexes hold exactly the cliques of a graph',
 'For any graph, the complex built up to a dimension has exactly the cliques of the graph with up to that many plus one vertices, each once, whatever the order and orientation of the edges; the number of vertices is kept. A negative dimension raises ValueError. The graph is not modified.',
 'all graphs, edge orders and orientations',
 'Tests use one or two graphs in sorted order.',
 [C+'flag_complex.py'],[('cliques',C+'flag_complex.py:flag_complex')])
p('P07','Boundary operators are the simplicial boundary modulo p',
 'For every list of simplices closed under faces, in any order and with any vertex labels, each column of each boundary matrix is supported exactly on the codimension one faces of its simplex with alternating signs (up to one sign per column), entries being residues modulo p. Consecutive boundary matrices compose to zero modulo p. The complex is not modified.',
 'all complexes, orders of their simplices and primes',
 'Tests check the composition on one complex for one or two primes.',
 [C+'differentials.py'],[('boundary matrices',C+'differentials.py:complex_differentials')])
p('P08','Persistence barcodes equal those of the filtration',
 'For every filtered complex (simplices sorted by value, ties allowed), cut-off radius and prime, the barcode computed in every dimension is the multiset of intervals of positive length of persistent homology over the prime field, bars that never die ending at the cut-off. Bars come sorted by increasing birth and, for equal births, decreasing death.',
 'all filtrations on the complexes, every order of values, every prime field',
 'A few filtrations in tests; pairings depend on the total order of values and on torsion, which differ by prime.',
 [A+'PH_classic.py'],[('pairing',A+'PH_classic.py:persistent_homology')])
p('P09','Representative cycles, boundaries and their preimages are consistent',
 'Every bar comes with a cycle made only of simplices present at its birth; the bars alive at any radius give a basis of homology there, every boundary listed is a cycle that bounds from the listed radius on, and its recorded preimage has exactly that boundary modulo p and consists of simplices present then. Cycles and boundaries together span the cycles at every radius.',
 'all filtrations on the complexes, every prime field',
 'The tests compare stored representatives of one or two complexes.',
 [A+'PH_classic.py'],[('representatives',A+'PH_classic.py:persistent_homology')])
p('P10','Barcode bases keep bars, coordinates and order together',
 'Sorting a barcode basis orders bars by birth and, among equal births, longest first, permuting coordinates (and recorded broken differentials) along with the bars and reporting the permutation. The bars alive, born or dying at a radius are exactly those whose half-open interval says so, the radii of change are exactly the endpoints, and rewriting coordinates at a radius replaces exactly the generators that die there by their recorded continuations. Coordinates or gluing data that do not fit the bars are rejected with ValueError.',
 'all lists of bars with arbitrary real endpoints, ties included, and radii',
 'Tests hold a few literal barcodes.',
 [A+'barcode_bases.py'],[('sorting',A+'barcode_bases.py:barcode_basis.sort'),('activity',A+'barcode_bases.py:barcode_basis.active'),('gluing',A+'barcode_bases.py:barcode_basis.update_broken')])
p('P11','Image and kernel barcodes of persistence morphisms are right',
 'For every morphism between interval-decomposed persistence modules over a prime field, the barcodes returned for its image and its kernel have at every pair of radii the ranks of the image and kernel modules, and hence are their barcodes. The modules and the matrix given are not modified. A matrix whose shape does not fit the modules is rejected with ValueError.',
 'all pairs of barcodes, morphisms and primes',
 'Tests check four morphisms; the result depends on the relative order of all endpoints.',
 [A+'image_kernel.py'],[('image and kernel',A+'image_kernel.py:image_kernel')],over=('inputs','configurations'))
p('P12','Image and kernel generators and preimages are correct',
 'The coordinates returned with each image bar are an element of the target that really is the image of the returned preimage, and with each kernel bar an element of the source that the morphism kills, at its birth and for as long as the bar lives; at every radius the alive ones form a basis of image and kernel. Generators are only combined from bars alive at that radius.',
 'all pairs of barcodes, morphisms and primes',
 'Tests compare coordinates on four fixed morphisms.',
 [A+'image_kernel.py'],[('generators',A+'image_kernel.py:image_kernel'),('reduction on alive rows',A+'image_kernel.py:pivot_check_reduce')],over=('inputs','configurations'))
p('P13','Homology of a sequence of persistence modules is computed correctly',
 'For every sequence of persistence modules and morphisms whose consecutive composites vanish, the computed homology at each place has, at every pair of radii, the rank of kernel modulo image, with generators that are kernel elements independent modulo the image; the listed image generators with their preimages really are images. Trivial modules and zero morphisms are no exception.',
 'all sequences of up to three modules, their morphisms and primes',
 'Tests hold two sequences.',
 [A+'module_persistence_homology.py',A+'image_kernel.py'],[('homology',A+'module_persistence_homology.py:module_persistence_homology'),('quotient',A+'module_persistence_homology.py:quotient')])
p('P14','Gluing of bars by extensions yields the barcode of the glued module',
 'When dying generators are declared equal to combinations of living ones (an extension of persistence modules), the barcode obtained is the barcode of the glued module: at each pair of radii the number of bars containing both equals the rank of the glued transition map.',
 'all barcodes with gluing data over prime fields',
 'One example in the tests.',
 [A+'image_kernel.py',A+'barcode_bases.py'],[('gluing',A+'barcode_bases.py:barcode_basis.update_broken'),('barcode',A+'image_kernel.py:image_kernel')])
p('P15','Cubical covers contain every point and every short edge',
 'For every point cloud (integer, flat or with repeated points too), number of divisions and positive overlap, every point lies in some region, each region lists exactly the points of its enlarged cube with their right coordinates, and any set of points whose spread in each coordinate is below the overlap lies together in one region. The input cloud is not modified.',
 'all point clouds, numbers of divisions and overlaps',
 'Tests look at random clouds; membership on the borders and degenerate clouds need specific coordinates.',
 [CV],[('cover',CV+':generate_cover'),('bounding box',CV+':corners_hypercube')],over=('inputs','configurations'))
p('P16','The nerve and the intersections of a cover are exact',
 'The nerve of a cubical cover holds exactly the sets of mutually adjacent cubes, each once, in each dimension, and the points attached to each simplex of the nerve are exactly the points common to its cubes, with identification numbers referring to the original cloud in increasing order. Walking through cube positions visits every cube of the grid once, in order.',
 'all divisions, clouds and overlaps',
 'Tests check counts on a few grids.',
 [CV],[('nerve',CV+':nerve_hypercube_cover'),('intersections',CV+':intersection_covers'),('walk',CV+':next_hypercube')],over=('inputs','configurations'))
p('P17','Mayer-Vietoris barcodes equal ordinary persistent homology',
 'For every point cloud, radius, dimension, number of divisions, prime and overlap exceeding the radius, the barcodes obtained from the Mayer-Vietoris spectral sequence after solving the extension problem are the barcodes of Vietoris-Rips persistent homology, in every dimension below the given one and in the standard order. The point cloud is not modified.',
 'all point clouds and parameters',
 'The tests run a few fixed clouds and random ones; extensions, higher differentials and reductions by images only occur at particular positions of the points.',
 [SS+'MV_spectral_seq.py',SS+'spectral_sequence_class.py'],[('spectral sequence',SS+'MV_spectral_seq.py:create_MV_ss'),('higher differentials',SS+'spectral_sequence_class.py:high_differential'),('extension',SS+'spectral_sequence_class.py:extension')],over=('inputs','configurations'))
p('P18','Classes that survive the spectral sequence are total cycles',
 'Every class on the last page of the spectral sequence carries a representative in the total complex of the cover: its leading part is a cycle in its region, each further part has as vertical boundary the opposite of the Cech differential of the previous one, and all parts only use simplices present at the birth of the class. Added up over the single regions, the representatives of the classes alive at any radius form a basis of the homology of the Vietoris-Rips complex at that radius.',
 'all point clouds and parameters',
 'Representatives are not inspected by the tests at all.',
 [SS+'spectral_sequence_class.py'],[('second page',SS+'spectral_sequence_class.py:compute_two_page_representatives'),('later pages',SS+'spectral_sequence_class.py:compute_higher_representatives')],over=('inputs','configurations'))
p('P19','Chains spread over a cover form a module',
 'Adding two collections of chains, taking opposites and forming linear combinations act place by place and expression by expression exactly as in the module of chains, without losing an expression or touching the operands (negation, documented as in place, aside). Copies are equal and independent of the original, and collections whose references do not match their rows are rejected with ValueError, as is anything but a number of places or two lists given to the constructor.',
 'all collections of chains, reference sets and coefficients',
 'No test covers these operations directly.',
 [SS+'local_chains_class.py'],[('sum',SS+'local_chains_class.py:local_chains.__add__'),('combinations',SS+'local_chains_class.py:local_chains.sums'),('copies',SS+'local_chains_class.py:local_chains.copy_seq')])
p('P20','Pages of the spectral sequence have the right size',
 'The first page lists, for every intersection of regions, exactly the persistence barcode of the points in it; on every later page, at each position of total degree below the given dimension and at each radius, as many bars are alive as the dimension of that page of the double complex of the cover (chains on intersections of regions) there; on the last page the bars alive at any radius along each diagonal add up to the Betti number of the Vietoris-Rips complex at that radius; and the table of dimensions recorded for each page agrees with its modules.',
 'all point clouds and parameters',
 'Tests only compare final barcodes of a few clouds.',
 [SS+'MV_spectral_seq.py',SS+'spectral_sequence_class.py'],[('first page',SS+'spectral_sequence_class.py:add_output_first'),('later pages',SS+'spectral_sequence_class.py:add_output_higher'),('local homology',SS+'MV_spectral_seq.py:local_persistent_homology')],over=('inputs','configurations'))
p('P21','Subsampling is farthest-point sampling',
 'A subsample consists of as many distinct members of the cloud as asked for (all of them when there are fewer), and after the first each new point is at least as far from the points taken before as any other point left. The same seed gives the same subsample, and the cloud is not modified.',
 'all clouds, sample sizes and random starts',
 'No test checks the choice made.',
 [EX],[('subsample',EX+':take_sample')])
p('P22','Sampled shapes lie on their shapes',
 'Every generator returns the number of points asked for, in the right dimension, all lying where documented: on the circle (evenly spread) or the annulus of its noise, in the ball, on the sphere of the given radius, in the unit cube, on the centred grid, or on the torus. A torus whose section radius exceeds its main radius is rejected with ValueError, and equal seeds give equal clouds.',
 'all sizes, radii, centres and random numbers',
 'The generators are only used, never checked, by the tests.',
 [EX],[('circle',EX+':circle'),('noisy circle',EX+':random_circle'),('ball',EX+':ball'),('sphere',EX+':random_sphere'),('cube',EX+':random_cube'),('grids',EX+':grid'),('torus',EX+':torus3D')])
p('P23','The Cech differential is the alternating sum over the nerve',
 'For chains on the intersections of regions, the Cech differential sends each simplex on an intersection to the same simplex on the larger intersections with alternating signs (and the sign of its dimension), linearly modulo p, up to one global sign. Applied twice it is zero.',
 'all chains on the intersections of a cover, all primes',
 'No test evaluates it on chains directly; sign errors vanish for p = 2.',
 [SS+'spectral_sequence_class.py'],[('differential',SS+'spectral_sequence_class.py:cech_diff'),('local part',SS+'spectral_sequence_class.py:cech_diff_local'),('inclusion',SS+'spectral_sequence_class.py:local_cech_matrix')])
p('P24','Cycles are lifted to classes plus boundaries',
 'Every collection of cycles of the regions at a radius is returned as coordinates over the homology classes of the regions plus a chain, such that the cycles equal the combination of the classes plus the boundary of the chain modulo p, using only classes and simplices present at that radius. The same holds for the Cech differential of cycles on intersections.',
 'all cycles of the regions at every radius, all primes',
 'No test evaluates lifts directly.',
 [SS+'spectral_sequence_class.py'],[('lift',SS+'spectral_sequence_class.py:first_page_lift'),('local lift',SS+'spectral_sequence_class.py:first_page_local_lift'),('differential and lift',SS+'spectral_sequence_class.py:cech_diff_and_lift')],over=('inputs','configurations'))
p('P25','Calls do not influence each other',
 'What a call returns depends on its arguments alone: arithmetic, reductions, complexes, barcodes, images and kernels, covers, chains and whole spectral sequences give the same result whatever was computed before (with other sizes, primes, radii or dimensions), later calls do not change results handed out earlier, and what a caller does with the arrays it got does not show up in later results.',
 'all pairs of inputs and orders of calls',
 'Tests call each function in one order and compare with stored values; they never compare a call with the same call after others.',
 [G+'arithmetic_mod_p.py',C+'differentials.py',C+'vietoris_rips.py',A+'PH_classic.py',A+'image_kernel.py',SS+'local_chains_class.py',SS+'MV_spectral_seq.py'],[('arithmetic',G+'arithmetic_mod_p.py:inv_mod_p'),('complexes',C+'vietoris_rips.py:vietoris_rips'),('barcodes',A+'PH_classic.py:persistent_homology'),('spectral sequence',SS+'MV_spectral_seq.py:create_MV_ss')],over=('inputs','histories'))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['title']
NOTE='Bounded: every path of the real source within the stated sizes is executed symbolically and every branch and assertion is decided by z3 for all values in the ranges; counterexamples are replayed on the unmodified package. '
N={
'P01':'primes up to 13 (and composites up to 25), integers in bounded ranges, matrices up to 3x3, wider ones with part of the entries free.',
'P02':'all matrices up to 3x3 (4x3 thorough), sparse patterns up to 8x8, primes up to 13.',
'P03':'systems up to 3x3 with everything free, wider ones with part of the entries free.',
'P04':'matrices up to 3x4, all orders of radii; wider patterns.',
'P05':'up to 5 points with all distances free, up to 12 with some free.',
'P06':'all graphs on up to 5 vertices (6 thorough), all small edge lists.',
'P07':'all complexes on up to 5 vertices, simplices of dimension up to 5, primes up to 11.',
'P08':'all filtrations of complexes with up to 6 vertices (projective plane included), coarser ones of the torus and the Klein bottle, primes up to 13.',
'P09':'as P08.',
'P10':'up to 4 bars with free end points.',
'P11':'up to 3+3 bars with free end points and coefficients, larger patterns; cases that the time budget does not exhaust are named in the evidence.',
'P12':'as P11.',
'P13':'sequences of up to four modules of up to 5 bars each, two of up to 8 bars that share end points.',
'P14':'up to 8 bars with gluing data.',
'P15':'up to 4 points with free coordinates in 1-3 dimensions, up to 10 with one or two free, up to 4 divisions; sub-ulp effects excluded by a margin.',
'P16':'as P15; all grids up to 3 per axis in 3 dimensions.',
'P17':'clouds of 3-13 points of which 1-2 coordinates move through an interval, chosen so that extensions, second differentials and reductions occur; irrational boundary positions and distances closer than 1e-5 but not equal are outside.',
'P18':'as P17.','P20':'as P17.',
'P19':'up to 3 places and rows of 3, 6 references.',
'P21':'up to 10 points with up to 4 free coordinates.',
'P22':'up to 20 points, free radii, centre, noise and random numbers; angles as arbitrary points of the circle.',
'P23':'covers of 8 fixed clouds, all coefficients of chains on selected simplices.',
'P25':'two calls in either order and a repetition, on small inputs of which one value or more is symbolic in each.',
'P24':'covers of 9 fixed clouds, all coefficients of up to 4 (5) cycles.',
}
M=dict(version=1,setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3"',
 checks=[dict(property=x['id'],quick_cmd='./run_check.py %s quick'%x['id'],thorough_cmd='./run_check.py %s thorough'%x['id'],
  technique='concolic symbolic execution of the source with z3',level='model_checking',level_note=NOTE+'Bounds: '+N[x['id']]+' Trusted: the numpy stand-ins (validated on sampled paths), z3, reals for floats.') for x in P],not_applicable=[],
 notes='No hooks in /repo. See DESIGN.md.')
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
