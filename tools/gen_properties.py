#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

COL="phlite/src/columns.rs"; FLD="phlite/src/fields.rs"; MOD="phlite/src/matrices/mod.rs"
ADA="phlite/src/matrices/adaptors.rs"; CMB="phlite/src/matrices/combinators.rs"; IMP="phlite/src/matrices/implementors.rs"
CLR="phlite/src/reduction/clearing.rs"; STD="phlite/src/reduction/standard.rs"
RL="phlite_rips/src/lib.rs"; RH="phlite_rips/src/homology.rs"; RC="phlite_rips/src/cohomology.rs"; RM="phlite_rips/src/main.rs"
GL="phlite_grpph/src/lib.rs"; GB="phlite_grpph/src/boundary.rs"; GC="phlite_grpph/src/coboundary.rs"

p("C01","Standard reduction returns a valid R = DV decomposition",
  "For every sparse square-indexed matrix D over a field, every ordered column basis and every row filtration, the standard reduction terminates and returns a matrix V in which the column of each basis element is that element with coefficient one plus a combination of strictly earlier basis elements. In D·V every non-zero column has a leading row (largest by filtration value, ties by row index) that is the leading row of no other column. This holds over Z2, Z3, Z5, Z7, Z11, Z13, the rationals and any user-supplied field.",
  ["inputs","configurations"],"all matrices, column orders, filtrations and coefficient fields",
  "One 8-column Z2 matrix with trivial filtration is reduced; no other field, filtration, ordering or matrix is tried.",
  [STD,COL,CMB],[("column reduction loop","standard.rs standard_algo"),("pivot extraction","columns.rs BHCol::pop_pivot")],
  ["columns of the returned V","columns of product(D, V)"])
p("C02","Clearing reduction returns a valid R = DV decomposition",
  "For every filtered chain or cochain complex over a field and every contiguous range of dimensions processed in chain order, the clearing reduction terminates and returns V whose column for each basis element is a non-zero multiple of that element plus strictly earlier elements of the same dimension, such that the non-zero columns of D·V have pairwise different leading rows. Every basis element that is the leading row of a reduced column has a zero column in D·V, and the cycle query on a basis element answers true exactly when its column of D·V is zero.",
  ["inputs","configurations"],"all filtered complexes, ranges of dimensions, coefficient fields, homology and cohomology",
  "The only test reduces one 4-point Rips coboundary over Z2 and counts bars; V, cleared columns and the cycle query are never inspected.",
  [CLR,COL,CMB],[("clearing of birth columns","clearing.rs CRMBuilder::save_column"),("lazy V oracle","clearing.rs ClearedReductionMatrix::column"),("cycle query","clearing.rs ClearedReductionMatrix::col_is_cycle")],
  ["columns of V and of product(D, V)","col_is_cycle","Diagram"])
p("C03","Persistence diagrams are the unique correct ones",
  "For every filtered complex over a field, the diagram returned by the standard algorithm and by the clearing algorithm contains exactly the (birth, death) pairs determined by the ranks of the lower-left submatrices of the boundary matrix, and its essential set is exactly the reduced basis elements that are neither a birth nor a death in a pair. Every reduced basis element therefore has exactly one role. The result does not depend on the order or the repetition of the terms in which the matrix reports a column.",
  ["inputs","configurations"],"all filtered complexes, fields, dimension ranges and presentations of the columns",
  "Tests assert bar counts for one square point cloud and two symmetric digraphs; no test compares which cells are paired.",
  [CLR,STD,"phlite/src/reduction/mod.rs"],[("diagram bookkeeping while clearing","clearing.rs save_column"),("diagram read-off","standard.rs read_off_diagram")],
  ["Diagram.pairings","Diagram.essential"])
p("C04","Homology, relative cohomology, standard and clearing agree",
  "For every filtered complex over a field, reducing the boundary matrix and reducing the reversed coboundary matrix (its anti-transpose), each with the standard and with the clearing algorithm, give one and the same set of (birth, death) pairs and the same essential cells. For the standard algorithm this holds whichever reading order of the columns is requested. A cohomology pairing names the same two cells in swapped roles.",
  ["inputs","configurations"],"all filtered complexes; both algorithms; both directions; both reading orders",
  "No test compares two algorithms or two directions on the same input; the repository's comments warn that orders may differ.",
  [CLR,STD,ADA],[("order reversal","adaptors.rs ReverseMatrix / ReverseBasis"),("read-off order","standard.rs read_off_diagram")],
  ["Diagram from the four reductions"])
p("C05","Heap columns behave as exact formal sums",
  "After any sequence of additions of terms to a column and extractions from it, the column represents exactly the formal sum of what was added minus what was extracted. Extraction yields terms in strictly decreasing (filtration value, row index) order, each row index once with its summed non-zero coefficient, and a row whose terms cancel is never reported; querying the pivot without removing it does not change the sum, and afterwards peeking shows that pivot.",
  ["inputs","histories"],"all operation sequences, coefficient fields, filtrations and index types",
  "The test checks a handful of fixed Z2 additions; no other field, no interleaving of additions with extraction, no cancellation chains.",
  [COL],[("coalescing pop","columns.rs BHCol::pop_pivot"),("clone_pivot push-back","columns.rs BHCol::clone_pivot"),("heap ordering","columns.rs Ord for ColumnEntry")],
  ["pop_pivot, clone_pivot, peek_pivot, drain_sorted, to_sorted_vec"])
p("C06","Coefficient types satisfy the field laws",
  "Each provided coefficient type (Z2, Z3, Z5, Z7, Z11, Z13 and the rationals) is a field whose non-zero elements are represented: sums, products, negatives and inverses equal those of integers modulo p, respectively of exact fractions, as long as the exact values and the unreduced intermediate fractions fit the machine word. A sum is reported as absent exactly when it is zero, adding an absent term is the identity, and two elements compare equal exactly when they are the same field element.",
  ["inputs"],"all elements (finite fields) and all representable fractions",
  "Tests cover some additions and products in Z2 and Z3 only; no inverse, no Z5-Z13, no rationals.",
  [FLD],[("modular arithmetic","fields.rs ZP"),("inverse tables","fields.rs Invertible impls"),("fraction arithmetic","fields.rs Q")],
  ["Add, Mul, additive_inverse, mult_inverse, Eq"])
p("C07","Lazy products and sums are matrix products and sums",
  "For all matrices A, B with compatible indices and every column c, the terms reported for column c of the lazy product A·B sum to the matrix product, and those for the lazy sum A+B to the entrywise sum; nested products are associative and distribute over sums. The product carries the row filtration of the left factor and the column basis of the right factor, and no column is computed before one is requested.",
  ["inputs","programs"],"all matrices, fields and nestings of products and sums",
  "Two fixed Z2 products are checked; sums, other fields, filtrations and nestings are not.",
  [CMB],[("flat-map product","combinators.rs Product::column / matrix_col_product"),("chained sum","combinators.rs Sum::column")],
  ["column, column_with_filtration, filtration_value, basis of Product and Sum"])
p("C08","Adaptors change only what they say they change",
  "For every matrix and every finite stack of adaptors (filtration, basis, index-by-position, dimension restriction, reversal, un-reversal, consolidation, column cache, reference and smart-pointer wrappers) the resulting matrix has the same entries as the original under the index translation of the stack, and reports the filtration value and the basis that the outermost filtration or basis adaptor gave it, or else the original ones. Reversal reverses the order of indices, filtration values and basis positions, and un-reversal undoes it exactly.",
  ["inputs","programs"],"all matrices and all adaptor stacks",
  "One reversed and un-reversed basis of size 3 is tested; stacks, filtrations under reversal and restrictions are not.",
  [ADA,MOD],[("adaptor structs","adaptors.rs"),("pointer impls","mod.rs impl MatrixOracle for &M, Rc, Arc, Box")],
  ["column, filtration_value, basis().element, basis().size on the stack"])
p("C09","Column caching is transparent and computes each column once",
  "For every matrix and every history of column requests to its cached wrapper, including requests made while iterators over earlier columns are still being consumed, each request yields exactly the terms the underlying matrix reports and the underlying column is computed at most once. Using the cached matrix in a product with itself or in a reduction behaves as using the matrix itself.",
  ["inputs","histories"],"all matrices and all interleavings of requests and partial consumption",
  "The repository has no test of the cache (a TODO says so).",
  [ADA],[("RefCell cache","adaptors.rs WithCachedCols::column")],
  ["column of WithCachedCols","number of column calls on the wrapped matrix"],
  [("cache","columns computed so far","adaptors.rs WithCachedCols.cache")])
p("C10","Enriched columns agree with plain columns and filtration values",
  "For every matrix with a row filtration, the filtration-enriched form of a column consists of exactly the terms of the plain column, each carrying the filtration value the matrix reports for its row, and the heap built from a column sums to that column. This holds for library adaptors and combinators, and for the Rips and GrPPH boundary and coboundary matrices.",
  ["inputs"],"all matrices with filtrations and all their columns",
  "No test calls the specialised enriched columns of the Rips and GrPPH coboundaries directly, nor compares them with the default.",
  [MOD,CMB,ADA,RC,GC],[("specialised overrides","column_with_filtration in combinators.rs, adaptors.rs, cohomology.rs, coboundary.rs"),("default","mod.rs HasRowFiltration::column_with_filtration")],
  ["column_with_filtration, build_bhcol versus column + filtration_value"])
p("C11","Column comparison decides equality of columns",
  "For all matrices A and B over the same indices and field, comparing them on a column answers true exactly when the two columns are the same vector, regardless of the order of the terms, of repeated terms that combine or cancel, and of any filtration attached.",
  ["inputs"],"all pairs of matrices and all columns",
  "Existing tests use the comparison as their oracle and only ever expect true.",
  [MOD],[("eq_on_col","mod.rs MatrixOracle::eq_on_col")],["eq_on_col"])
p("C12","Column bases are consistent ordered indexings",
  "For every column basis its size and element access describe one finite sequence; the reversed basis lists it backwards, reversing and un-reversing restores it, and the reverse-lookup table maps every element to its position and nothing else. A basis restricted to a dimension lists exactly that dimension's elements in order, also through reversal, and indexing a matrix by basis position selects the column of the element at that position.",
  ["inputs","programs"],"all bases, positions, dimensions and stackings of reversal, un-reversal and restriction",
  "One basis of three elements is reversed in a test; reverse lookup and dimension restriction through reversal are not tested, and rely on pointer casts.",
  [MOD,ADA,IMP],[("reverse lookup","mod.rs ColBasis::construct_reverse_lookup"),("pointer-cast derefs","adaptors.rs ReverseBasis / UnreverseBasis Deref and in_dimension"),("sub-basis reference","adaptors.rs SubBasisRef")],
  ["element, size, construct_reverse_lookup, in_dimension"])
p("C13","Stored matrices return the entries they were built from",
  "For all lists of columns and all construction routes (owned, borrowed, copy-on-write, with coefficients or all ones, by position or by hashed key), requesting a column of a stored matrix yields exactly the terms supplied for that column, any number of times, and a matrix stored by position has the standard basis of its columns.",
  ["inputs"],"all column lists, fields, key types and construction routes",
  "Tests construct only all-ones Z2 matrices from owned vectors and never read a hashed-key matrix.",
  [IMP],[("VecVecMatrix / MapVecMatrix","implementors.rs")],["column, basis"])
p("C14","Consolidation yields the canonical form of a column",
  "For every matrix, each column of its consolidation is the same vector as the original column, with every row index reported at most once, never with a cancelled coefficient, and with the attached basis and filtration unchanged. Consolidating again changes nothing.",
  ["inputs"],"all matrices, columns and fields",
  "One 2-column Z2 matrix power is consolidated and only the number of entries is checked.",
  [ADA,COL],[("Consolidator","adaptors.rs Consolidator / ConsolidatorColumn")],["column of Consolidator"])
p("C15","Any valid reduction gives the same diagram; reduction matrices are matrices",
  "Reading a diagram off any valid reduction matrix V (the product D·V has leading rows that are pairwise different, and each column of V is a non-zero multiple of its basis element plus earlier elements, in whatever terms it is reported) gives the diagram determined by ranks, in every documented reading order and dimension by dimension. The V returned by either algorithm can be wrapped, cached, consolidated, reversed and multiplied like every other matrix, with the leading rows of D·V being the births of the pairs.",
  ["inputs","configurations"],"all filtered complexes and matrices, all valid V, fields and reading orders",
  "Tests only read diagrams off the V that the library itself made, for two inputs over Z2, and never use V as a matrix afterwards.",
  [STD,CLR,CMB,ADA],[("diagram read-off","standard.rs read_off_diagram"),("V as an oracle","clearing.rs ClearedReductionMatrix")],
  ["Diagram of read_off_diagram","columns of product(D, V) and of wrapped V"])
p("C16","Matrices answer every history of requests alike",
  "Every matrix the library offers (Rips and GrPPH boundaries and coboundaries, reduction matrices, adaptors, products and sums in any nesting) answers each request for a column, a column with filtration values, a filtration value or a basis element as a newly made matrix would. It does so whatever was requested before of it or of other matrices, in whatever order and how often, and while any number of earlier columns are still being read.",
  ["inputs","histories"],"all matrices and all finite histories of interleaved requests and partial reads",
  "Tests request each column once and drain it at once.",
  [RC,RH,GC,GB,ADA,CMB,CLR],[("cached columns","adaptors.rs WithCachedCols"),("coboundary iterators","phlite_rips cohomology.rs, phlite_grpph coboundary.rs")],
  ["column, column_with_filtration, filtration_value and basis elements after a history"])
p("C17","Oracles are lazy, clearing leaves cleared columns alone",
  "Making any stack of adaptors, products and sums requests no column; requesting and reading one of its columns requests the same column of each wrapped matrix at most once, and of the left factor of a product at most one column per term the right factor reports. The clearing algorithm never requests a column it clears and needs no request to answer that a cleared column is a cycle. The columns of V both algorithms stored are read back without any request, and a cleared column of V with at most one request per term of the stored column it is made from.",
  ["inputs"],"all matrices, stacks and filtered complexes, any contiguous range of dimensions",
  "No test counts requests, and every answer stays right when more columns are built than needed.",
  [ADA,CMB,CLR],[("lazy products and sums","combinators.rs product / sum"),("cleared columns skipped","reduction/clearing.rs reduce_dimension, col_is_cycle")],
  ["column requests reaching a user's MatrixOracle"])

p("C18","Column iterators keep the iterator contract and rely on no more than it",
  "For every library matrix, stack and column, the size hint of the column's iterator (plain, with filtration values, or draining a heap column) brackets the number of terms left at every point, and terms obtained through any mixture of iterator methods (nth, skip, step_by, take, find, count, last, fold, peeking, breaking off) are exactly those repeated calls of next yield; a heap whose draining iterator is dropped keeps the terms not taken. A user's matrix may return iterators with any size hints that bracket the number of terms, and that yield again after reporting their end: columns, heaps, diagrams and reduction matrices are the same as over plain iterators. A request or reduction that a panic in the user's matrix breaks off changes no later answer.",
  ["inputs","histories","fault_sequences"],"all matrices, stacks and columns, all programs over an iterator, all conforming user iterators, a panic at any step",
  "Tests read columns with plain collects from exact iterators of well-behaved matrices only; size hints, other iterator methods and panicking matrices never occur.",
  [COL,ADA,CMB,RC,GC,CLR],[("hand-written iterators","rips cohomology.rs CoboundaryIterator; adaptors.rs ConsolidatorColumn; grpph coboundary.rs IterEnum"),("size hints used to preallocate","columns.rs BHCol::add_entries"),("cache filled from a user's iterator","adaptors.rs WithCachedCols::column")],
  ["the iterators returned by column, column_with_filtration and drain_sorted","answers after a failed request"])

p("R01","Simplex indices encode simplices faithfully",
  "For every number of points and every set of vertices whose code fits the machine word, encoding the ascending vertex list and decoding gives the same list back, the reported dimension is one less than the number of vertices, distinct simplices have distinct codes, and only the empty list has no code.",
  ["inputs"],"all point counts and simplices within the word size",
  "Two 3-vertex simplices on 20 points are round-tripped.",
  [RL],[("positional code","lib.rs RipsIndex::from_indices / to_vec")],["RipsIndex round trip, dimension, equality"])
p("R02","Rips bases list every simplex once in filtration order",
  "For every distance matrix and every maximum dimension (including zero and dimensions exceeding the number of points), the Rips basis in each dimension lists every simplex of that dimension exactly once, in non-decreasing order of diameter with ties in index order, and the total basis is the concatenation over dimensions.",
  ["inputs","configurations"],"all symmetric distance matrices and maximum dimensions",
  "Bases are only exercised through bar counts of a single square for dimensions 1 and 2.",
  [RL],[("recursive cofacet enumeration","lib.rs add_cofacets / build_rips_bases")],["element, size, in_dimension of the Rips bases"])
p("R03","Rips boundary and coboundary are exact mutual transposes",
  "For every distance matrix, simplex and field, the boundary consists of the facets with alternating signs and the coboundary of the cofacets with the matching signs, so the two matrices are transposes of each other and both square to zero. The filtration value of a simplex is its diameter.",
  ["inputs","configurations"],"all distance matrices, simplices and coefficient fields",
  "Coboundaries of three simplices on 4 points are only counted, over Z2 where signs are invisible.",
  [RH,RC,RL],[("boundary oracle","homology.rs RipsBoundary::column"),("coboundary iterator","cohomology.rs CoboundaryIterator"),("diameter","lib.rs max_pairwise_distance")],
  ["column, filtration_value of both matrices"])
p("R04","Rips barcodes are correct in every dimension and field",
  "For every symmetric non-negative distance matrix with zero diagonal (ties, duplicates, non-metric and infinite distances included), every maximum dimension including zero, and every field, the barcode computed by any documented route (boundary or reversed coboundary, standard or clearing) equals the persistent homology of the Vietoris-Rips filtration in the dimensions that route can determine. In dimension zero the finite bars are the minimum spanning tree weights.",
  ["inputs","configurations"],"all distance matrices, maximum dimensions, fields and reduction routes",
  "Bar counts of the unit square over Z2 are the only check; bar values, other clouds and fields are not.",
  [RH,RC,RL,CLR,STD],[("Rips matrices","homology.rs, cohomology.rs"),("reductions","reduction/")],["Diagram with filtration values"])
p("R05","Rips barcodes respect relabelling, rescaling and perturbation",
  "Permuting the points leaves the Rips barcode unchanged; applying a strictly increasing function to the distances applies it to every endpoint; duplicating a point only adds zero-length bars; and changing distances by at most epsilon moves persistent ranks by at most epsilon (stability).",
  ["inputs"],"all distance matrices, permutations, monotone maps, duplications and perturbations",
  "No metamorphic test exists.",
  [RL,RH,RC],[("filtration ties broken by index","lib.rs build_rips_bases")],["Diagram with filtration values of related inputs"])
p("R06","The Rips command line reports exactly the barcode",
  "For every distance matrix given as CSV on standard input and every maximum dimension argument (default one, zero allowed), the command line prints the basis size of each dimension, every essential bar, and every finite bar longer than 0.01, with dimension and endpoints of the mod-2 Rips barcode and nothing else (classes born and dying at infinite distance have no length and may be printed or not). Input containing entries that are not numbers, ragged rows, or a dimension that is not a number makes it fail without printing bars.",
  ["inputs","configurations"],"all CSV distance matrices and dimension arguments",
  "The command line is compiled but never run by a test.",
  [RM,RL,RC],[("CLI","main.rs")],["standard output and exit status of phlite_rips_cli"])
p("R07","Rips representatives are (co)cycles that span (co)homology",
  "For every Rips filtration, field and reduction route, in homology the columns of V of births and of essential classes are cycles that exist from their birth on; those of D·V of the pairs and of V of the essential classes become boundaries exactly at their death, and those alive at any scale form a basis of the homology at that scale. In cohomology the columns of V restricted to a scale are cocycles there for the classes alive at that scale and form a basis of its cohomology.",
  ["inputs","configurations"],"all distance matrices, maximum dimensions, fields, scales and the four reduction routes",
  "No test reads a representative off a Rips reduction.",
  [RL,RH,RC,STD,CLR],[("representatives","columns of V and product(D, V)")],
  ["columns of V and of product(D, V) for Rips matrices"])

p("G01","GrPPH 2-cells form a basis of the path complex at every time",
  "For every time-valued digraph filtration, the 2-cells reached by the coboundaries (double edges, directed triangles, long squares) that have entered by time t are linearly independent and span exactly the boundary-invariant 2-paths of the digraph at time t, for every t and over every field. The chosen primary bridge of a vertex pair is the earliest two-step connection (ties to the smallest middle vertex), recorded exactly when it precedes the direct edge. Every cell reports its own dimension.",
  ["inputs","configurations"],"all digraph filtrations, times and fields",
  "The test prints one coboundary column and asserts nothing about cells; the others count bars of a cycle and a complete digraph.",
  [GC],[("bridge map","coboundary.rs build_primary_bridge_map"),("cell enumeration","coboundary.rs two_path_to_two_cell_in_filtration, produce_long_squares_with_primary_bridge")],
  ["rows of the coboundary columns with filtration values","build_primary_bridge_map"])
p("G02","GrPPH boundary and coboundary are exact mutual transposes",
  "For every digraph filtration, edge set and field, the boundary and coboundary matrices have the same entries for every pair of cells in all dimensions up to two, both square to zero, and filtration values are monotone: graph edges are born at zero, other edges at their own time, and no cell is born before a cell in its boundary. Storing the filtration as a table or as a map makes no difference.",
  ["inputs","configurations"],"all digraph filtrations, edge sets, fields and filtration representations",
  "Signs are marked TODO and tests use Z2 only; boundary and coboundary are never compared.",
  [GC,GB],[("coboundary oracle","coboundary.rs GrPPHCoboundary::column"),("boundary oracle","boundary.rs GrPPHBoundary::column")],
  ["column, filtration_value of both matrices"])
p("G03","GrPPH diagrams equal grounded persistent path homology",
  "For every digraph filtration, edge set and field, the barcode read from the reduced coboundary in degrees zero and one equals the persistent ranks of the grounded path complex, computed from its definition: cycles on graph edges and edges present at time s, modulo boundaries of boundary-invariant 2-paths present at time t.",
  ["inputs","configurations"],"all digraph filtrations, edge sets and fields",
  "Only bar counts of a directed cycle and a complete digraph are checked.",
  [GC,CLR],[("coboundary + clearing","coboundary.rs GrPPHCoboundary::build")],["Diagram with filtration values"])
p("G04","Python grpph returns the grounded path homology barcode",
  "For every weighted digraph without self-loops and with non-negative weights given to the Python function (any edge order, parallel edges, infinite weights, isolated vertices, several components), the returned essential and finite bars in degrees zero and one are exactly the grounded persistent path homology barcode of its shortest-path filtration: one essential bar per weakly connected component in degree zero, all degree-one bars born at zero, and zero-length bars omitted.",
  ["inputs"],"all weighted simple digraphs with non-negative or infinite weights",
  "No Rust test calls the Python functions and the Python examples are not run by the test suite.",
  [GL,GC],[("shortest-path filtration","lib.rs build_filtration"),("grounding","lib.rs build_edge_set"),("bar translation","lib.rs grpph")],
  ["return value of phlite_grpph.grpph"])
p("G05","GrPPH representatives are cycles that die with their bars",
  "For every weighted digraph without self-loops and with non-negative weights the involution variant returns the same bars as the plain variant and exactly one representative per finite degree-one bar. Each representative is a mod-2 cycle of distinct edges born by the birth of its bar, the times at which the representatives become boundaries are the death times of the bars with multiplicity, and at every time those not yet dead are linearly independent in homology.",
  ["inputs"],"all weighted simple digraphs",
  "No test runs the involution; the example script only checks the length of one representative of a directed cycle.",
  [GL,GB,STD],[("involution","lib.rs grpph_with_involution"),("restricted boundary reduction","boundary.rs, standard.rs")],
  ["return value of phlite_grpph.grpph_with_involution"])
p("G06","GrPPH barcodes respect relabelling, rescaling and presentation",
  "For weighted digraphs without self-loops and with non-negative weights, the GrPPH barcode is unchanged by renaming vertices, by permuting or repeating entries of the edge list and by adding a parallel edge that is not shorter; multiplying all weights by a positive constant multiplies all bar endpoints; and the barcode of a disjoint union is the union of the barcodes. Adding an isolated vertex only adds one essential bar in degree zero.",
  ["inputs"],"all weighted digraphs and all such transformations",
  "No metamorphic test exists; internal choices (primary bridges, hash order) depend on vertex names.",
  [GL,GC],[("tie-breaking by vertex number","coboundary.rs build_primary_bridge_map"),("hashing of edges","lib.rs build_edge_set")],
  ["return values for related inputs"])
p("G07","GrPPH calls do not influence one another",
  "Every call of the Python functions on a weighted digraph returns the barcode (and valid representatives) that it returns when it is the only call of the process. This holds whatever other calls were made before on the same or on similar graphs, refused ones included, by one thread or by several, and whatever the caller did to lists returned earlier. The arguments are left unchanged.",
  ["inputs","histories","schedules"],"all sequences of calls, their arguments and threads",
  "Each test makes a single call.",
  [GL,GC],[("module functions","lib.rs grpph, grpph_with_involution")],
  ["return values and arguments of successive calls in one Python process"])
p("G08","Python calls refuse vertices outside the graph",
  "Every call of the Python functions whose edge list names, as source or target, anywhere in the list and with whatever weight (infinite ones and zero included), a vertex that is not one of 0 to n-1, or that asks for more vertices than the 65535 a 16-bit label can number, raises an exception: it never returns bars or representatives, whatever else is in the list and however large the number is. Calls all of whose vertices lie inside, the last one included, are answered.",
  ["inputs","configurations"],"all graphs, positions, weights and sizes of wrong vertices",
  "No test passes a wrong vertex; labels are narrowed to 16 bits inside, so some wrong vertices look like others.",
  [GL,GC],[("check of the arguments","lib.rs check_vertices"),("narrowing of labels","lib.rs build_edge_set")],
  ["outcome of phlite_grpph.grpph and grpph_with_involution"])

ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
