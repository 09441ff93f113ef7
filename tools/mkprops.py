import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":["src/sqrid/"+f for f in files],"mechanism":[{"name":n,"where":"src/sqrid/"+w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/sqrid/"+w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))
p("C01","Bounded integers never hold a value outside their bounds",
 "Every bounded-integer value that safe code can obtain - by checked, panicking or compile-time construction, default value, conversion from any integer type or from a boolean, MIN and MAX, addition, subtraction, increment, decrement or iteration - lies within the MIN..=MAX of its type. An operation that would produce an out-of-range value reports an error, returns nothing or panics instead. In particular the default value is 0 when 0 is within the bounds, and otherwise the bound closest to 0.",
 ["inputs","configurations"],"every bounded integer type (12 underlying integers), every pair of bounds, every argument of every constructor, conversion and arithmetic operation",
 "The tests build a handful of values of four or five types with friendly bounds that include 0; Default and From<bool> of types whose bounds exclude 0 or 1 were never run.",
 ["boundedint.rs"],[("range check in new/new_unwrap/new_static","boundedint.rs"),("filter in checked_add/checked_sub","boundedint.rs"),("Default, From<bool>, inc, dec","boundedint.rs")],
 [("BoundedX.0","the inner integer, private","boundedint.rs")],["into_inner()","checked constructors"])
p("C02","Bounded integer conversion and arithmetic are mathematically exact",
 "Creating a bounded integer from any standard integer succeeds exactly when the mathematical value lies within the bounds, and the value read back equals the one given; it never truncates, wraps or changes sign. Addition, subtraction, increment and decrement return the exact mathematical result when it lies within the bounds and nothing otherwise, for builtin and bounded integers alike. Equality and ordering of bounded integers are those of their values.",
 ["inputs","configurations"],"all 12x12 source/target integer type pairs, all bounds, all operand values",
 "The tests convert a few small constants for a few type pairs; values near the type limits and cross-sign conversions are not sampled.",
 ["boundedint.rs"],[("TryFrom impls via into_or_oob","boundedint.rs"),("checked_add/checked_sub/inc/dec","boundedint.rs"),("derived PartialEq/Ord","boundedint.rs")])
p("C03","Bounded integer iteration yields every value once, in order, from both ends",
 "Iterating a bounded or builtin integer type yields each value from its minimum to its maximum exactly once in ascending order, and then nothing, forever. Taking values from the back yields them in descending order, and any interleaving of front and back yields every value exactly once. The iteration neither panics nor wraps at the limits of the underlying integer.",
 ["inputs","histories","configurations"],"all bounds including single-value ranges and ranges touching the limits of the underlying type, all interleavings of front and back calls",
 "The tests collect a couple of small ranges from the front; interleavings and exhaustion at type limits are not reached.",
 ["boundedint.rs"],[("BoundedIntIterator::next/next_back","boundedint.rs"),("BoundedInt::iter","boundedint.rs")],[("start,end","first and last value that are still to be yielded","boundedint.rs")])
p("C04","Positions are created exactly when their coordinates are in the grid",
 "A position is created from a pair of coordinates - of any supported integer type, by value or reference, from another position type, or from constants - exactly when 0 <= x < width and 0 <= y < height, and its coordinates read back unchanged by every accessor and conversion; otherwise an out-of-bounds error is returned, or the panicking constructor panics. Coordinates are never truncated, wrapped, clamped or swapped. The named constants (first, last, corners, center, width, height, size) are the positions and numbers their names say.",
 ["inputs","configurations"],"all grid dimensions, all coordinate values of all integer types, all creation entry points",
 "The tests try a few coordinates of small square grids; values beyond 16 bits, negative values and non-square grids through every entry point are not covered.",
 ["pos.rs","postrait.rs"],[("Pos::new/new_unwrap/new_static, TryFrom impls","pos.rs"),("PosT::new, tryfrom_pos, inner_tuple","postrait.rs")],[("Pos.0","pair of bounded coordinates","pos.rs")])
p("C05","Positions and linear indexes are in exact row-major bijection",
 "The index of a position is y*width + x, which is smaller than width*height, and converting it back gives the same position. Every index smaller than width*height converts to exactly the position with that index, and every other index is rejected with an out-of-bounds error. The reported width, height and total dimension agree with the coordinate bounds, at run time and in the associated constants.",
 ["inputs","configurations"],"all grid dimensions up to the largest, all positions, all indexes",
 "Tests enumerate a few small grids; large dimensions (index arithmetic beyond 16 and 32 bits) and non-square grids are sampled at most once.",
 ["postrait.rs","pos.rs"],[("PosT::to_usize/tryfrom_usize/width/height/dimensions","postrait.rs"),("usize conversions","pos.rs"),("WIDTH/HEIGHT","postrait.rs, pos.rs")])
p("C06","Moving a position by a direction is exact and never leaves the grid",
 "Adding a direction to a position gives the position displaced by exactly that direction's unit vector (north is y-1, east is x+1) when that lies in the grid, and an out-of-bounds error otherwise. All the forms of the operation agree: by value, by reference, function forms, and the addition on pairs of (bounded) integers. The operation never wraps around, never panics and never moves diagonally only along one axis.",
 ["inputs","configurations"],"all grid dimensions, all positions, all 8 directions, all coordinate integer types including signed ones at their limits",
 "Tests move inside a 3x3 or similar grid; single-row and single-column grids, the largest grid and integer-type limits are not covered.",
 ["posdir.rs","dir.rs"],[("Add<Dir> for (T,U), &(T,U)","dir.rs"),("Add<Dir> for Pos, &Pos; pos_dir_add, pos_dir_add_ok","posdir.rs")])
p("C07","Directions form the cyclic group of eight compass points with exact vectors",
 "Rotating directions composes as addition of 45-degree steps: it is associative and commutative with north as identity, negation is the rotation by half a turn and its own inverse, and the operator forms agree with the named ones. The coordinate vector of a direction has components in -1..=1, is never zero, converts back to the same direction (any other pair is rejected), and negating the direction negates the vector. Iteration and next yield the 4 cardinal or 8 directions exactly once each in clockwise order starting at north, next without diagonals goes from a diagonal direction to the cardinal one after it, next of the last direction is absent, neither ever panics, the size hint of the iteration bounds the number of directions it has left, and exactly the odd directions are diagonal.",
 ["inputs"],"all directions and pairs/triples of directions, all vectors of all 6 signed integer types",
 "Tests check selected rotations and vectors of one or two integer types; rejected vectors and the algebraic laws are not covered.",
 ["dir.rs"],[("rotate/flip/Neg/Add/AddAssign","dir.rs"),("tuple conversions","dir.rs"),("next/iter/DirIter/ALL4/ALL8/is_diagonal","dir.rs")])
p("C08","Direction names and symbols parse back to the direction they denote",
 "Parsing the arrow symbol of a direction, in its Unicode or its ASCII form, as a character or as a one-character string, gives back that direction; N, E, S and W, in either case, parse to the four cardinal directions. Every other character, and every string that is not exactly one character long, is rejected with the direction-parsing error. The string and character forms of each symbol are the same, symbols are pairwise distinct, and displaying a direction shows its cardinal name.",
 ["inputs"],"all characters, all strings, all directions",
 "Tests parse a list of known strings; the rejected inputs are the whole rest of the Unicode space.",
 ["dir.rs"],[("TryFrom<char>, FromStr","dir.rs"),("NAMES_* tables and name_* methods, Display","dir.rs")])
p("C09","The direction from one position to another always points toward it",
 "The direction from a source to a destination is absent exactly when they are the same position. With diagonals enabled its vector is the sign of the coordinate difference on both axes; with diagonals disabled it is a cardinal direction whose vector agrees with the sign of the difference on its axis, vertical first when the destination is above, then east, then south, then west. Taking the step always stays in the grid and strictly reduces the Manhattan distance to the destination.",
 ["inputs","configurations"],"all grid dimensions, all pairs of positions, with and without diagonals",
 "The tests check the neighbors of a single position in a small grid.",
 ["posdir.rs"],[("direction_to","posdir.rs")])
p("C10","Position flips and rotations are exact and stay in the grid",
 "Flipping horizontally maps (x, y) to (width-1-x, y), flipping vertically maps it to (x, height-1-y), and on square grids rotating clockwise maps it to (height-1-y, x) and counterclockwise to (y, width-1-x); none of them panics. Hence flips are their own inverses, the two rotations undo each other and four rotations are the identity. A position is a corner exactly when both its coordinates are extreme, and a side exactly when at least one is.",
 ["inputs","configurations"],"all grid dimensions, all positions",
 "Tests transform positions of one or two small grids.",
 ["postrait.rs"],[("PosT::flip_h/flip_v/rotate_cw/rotate_cc/is_corner/is_side","postrait.rs")])
p("C11","Distances, containment and bounding boxes are exact",
 "The Manhattan distance of two positions is |dx|+|dy| and the Chebyshev distance is max(|dx|,|dy|), for every pair of positions and without overflow. A position is inside two others exactly when each coordinate lies between theirs, whichever order they are given in. The bounding box of a sequence of positions is the pair of componentwise minimum and maximum, or an error when the sequence is empty.",
 ["inputs","configurations"],"all grid dimensions, all pairs/triples of positions, all finite sequences of positions",
 "Tests compute a few distances and one or two bounding boxes.",
 ["postrait.rs"],[("PosT::manhattan/chebyshev/inside/tlbr_of","postrait.rs")])
p("C12","Iterating positions visits every position exactly once, in the documented order",
 "Iterating all positions horizontally yields them in increasing index order, starting at the first and ending at the last, each exactly once, and then nothing; iterating vertically does the same in column-major order. Taking from the back yields the same sequence reversed, and any interleaving of front and back calls yields every position exactly once. Stepping to the next or previous position in either orientation is the exact successor or predecessor in that order, with none past the end. The size hint of an iteration never panics and bounds the number of positions it has left.",
 ["inputs","histories","configurations"],"all grid dimensions including single row, column and cell, all interleavings of front and back calls, both orientations",
 "Tests collect the iteration of a few small grids; mixed front/back consumption and degenerate dimensions are barely sampled.",
 ["postrait.rs"],[("PosT::next/prev/next_y/prev_y","postrait.rs"),("PosTIter::next/next_back","postrait.rs")],[("cur,end","first and last position still to be yielded","postrait.rs")])
p("C13","Range, row and column iteration yields exactly the requested positions",
 "Iterating a rectangular range yields exactly the positions between the top-left and bottom-right corners, inclusive, each once, in row-major order, wherever the range lies in the grid. Iterating a column or a row yields exactly the positions with that x or y, in increasing order of the other coordinate, from its minimum to its maximum. The x and y coordinate iterations yield every valid coordinate once in increasing order. The size hint of each of these iterations never panics and bounds the number of items it has left.",
 ["inputs","configurations"],"all grid dimensions, all pairs of corners with topleft <= botright, all rows and columns",
 "Tests use one range in the middle of a grid; ranges that touch the last row or column take different branches.",
 ["postrait.rs"],[("PosTIterRange::new/next","postrait.rs"),("PosTIterInX/InY, iter_in_x/iter_in_y, iter_x/iter_y, iter_range","postrait.rs")])
p("C14","Grid element access addresses exactly one in-bounds cell per position",
 "Reading a grid at a position, by method, index, line or whole-array view, gives the last value written there by any of the mutable forms, and writing at a position changes no other cell. Every access stays inside the grid's memory, which holds exactly width*height cells in row-major order; a grid of any other size cannot be built. Line n is exactly the cells of the positions with y = n, in order of x.",
 ["inputs","histories","configurations"],"all grid dimensions, element types, positions, and sequences of reads and writes",
 "Tests write and read a few cells of small grids; memory safety of the unchecked access depends on the index arithmetic for every dimension.",
 ["grid.rs","postrait.rs"],[("Grid::get/get_mut with get_unchecked","grid.rs"),("line/line_mut/Index/IndexMut/as_ref/as_mut","grid.rs"),("_ASSERTS size check in repeat/default/try_from","grid.rs")],[("Grid.0","array of width*height cells, row-major","grid.rs")])
p("C15","Grid flips and rotations move every cell to its transformed position",
 "After flipping a grid horizontally or vertically, the cell at each position holds what was at the flipped position, for every width and height, odd or even. After rotating a square grid clockwise or counterclockwise, the cell at the rotated position holds what was at the original position, for every side length. No element is lost or duplicated, and nothing panics.",
 ["inputs","configurations"],"all grid dimensions (odd, even, 1, non-square for flips), all contents",
 "Tests transform a few grids of size at most 5; center rows, inner rings and parity each take their own path.",
 ["grid.rs"],[("Grid::flip_h/flip_v","grid.rs"),("Grid::rotate_cw/rotate_cc","grid.rs")])
p("C16","Grids are filled, collected and extended with each value at its own position",
 "A repeated or default grid holds the given value everywhere. Collecting an iterator puts its n-th item at index n and panics unless the number of items is exactly width*height; extending with (position, value) pairs sets exactly those positions, later pairs winning. Building or extending from nested vectors puts row y, column x at position (x, y), fails with an out-of-bounds error exactly when an element lies outside the grid (for building: when there are too many rows or a row is too long), and leaves the other cells at their default or previous value; iterating with positions pairs every position with its own cell, and negation is elementwise.",
 ["inputs","histories","configurations"],"all grid dimensions, all iterators and nested vectors of any shape (ragged, empty, oversized)",
 "Tests collect a few sequences of the right length and one or two nested vectors.",
 ["grid.rs"],[("repeat/default/from_iter/extend","grid.rs"),("TryFrom<Vec<Vec<T>>>/extend_from_vecvec","grid.rs"),("iter_pos/Neg/into_iter/iter/iter_mut","grid.rs")])
p("C17","A grid of booleans is an exact map with one independent bit per position",
 "Getting a position of a boolean grid, by method or index, returns the last value set there, or the initial fill value; setting a position changes no other position. Distinct positions use distinct bits, every access is within the words of the bitmap, and a bitmap with the wrong number of words cannot be built. Two boolean grids with the same value at every position compare equal, however each was built.",
 ["inputs","histories","configurations"],"all grid dimensions (multiples of 32 or not), all positions, all sequences of set operations",
 "Tests set a few bits of small grids; word boundaries and the unused tail bits matter only for specific dimensions.",
 ["gridbool.rs"],[("repeat/ALL_TRUE/ALL_FALSE","gridbool.rs"),("byte_bit/set_t/set_f/set/get/Index","gridbool.rs")],[("Gridbool.0","bitmap words, unused bits zero","gridbool.rs")])
p("C18","Boolean grid iteration, collection, flips and rotations are exact",
 "Iterating a boolean grid gives the value of every position once in index order; the true and false iterations give exactly the positions with that value, in that order. Collecting positions or bulk-setting sets exactly the given positions; collecting booleans puts the n-th at index n and panics unless there are exactly width*height. Flips and rotations move every value to its transformed position, for every width, height and side length.",
 ["inputs","histories","configurations"],"all grid dimensions, all contents, all iterators",
 "Tests use a few small grids; even-sided rotations were wrong and not noticed.",
 ["gridbool.rs"],[("iter/iter_pos/iter_t/iter_f/set_iter_t/set_iter_f/from_iter","gridbool.rs"),("flip_h/flip_v/rotate_cw/rotate_cc","gridbool.rs")])
p("C19","All set and map backends behave as the same abstract set and map of positions",
 "In every set backend (boolean grid, hash set, ordered set) a position is contained exactly when its last insert, remove or set made it so. In every map backend (grid, hash map, ordered map) getting a position returns the last item set there, or the item the map was created with. Operations on one position never affect another.",
 ["inputs","histories","configurations"],"all backends, all grid dimensions, all item types, all sequences of operations",
 "The backends are only exercised indirectly, through searches on a couple of grids.",
 ["setpos.rs","mappos.rs"],[("SetPos impls","setpos.rs"),("MapPos impls","mappos.rs")])
p("C20","Following came-from directions yields the path they describe, or the right error",
 "Following a map of came-from directions from the destination returns the directions that lead from the origin to the destination, in order, each the opposite of the stored one, whenever the chain of stored directions reaches the origin. It reports the destination as unreachable when the destination has no direction, an invalid movement when the chain meets a position without direction or leaves the grid, and a loop exactly when the chain never ends; it always terminates and never panics. This holds for every grid shape, in particular much taller or wider than the other side.",
 ["inputs","configurations"],"all maps of directions, all origins and destinations, all grid dimensions, all map backends",
 "Tests follow a couple of hand-written maps on one grid; the iteration limit depends on the grid shape.",
 ["mappos.rs"],[("camefrom_into_path","mappos.rs"),("Sqrid::camefrom_into_path","mappos.rs")])
p("C21","Breadth-first traversal yields each reachable position once, at its distance",
 "The n-th group yielded by breadth-first traversal contains exactly the positions whose shortest distance from the origin, under the given movement function and direction set, is n (counting from 1), each exactly once over the whole traversal. The origin itself is never yielded, and the traversal ends exactly when everything reachable was yielded. Each position comes with the opposite of the direction by which it was reached from a position one step closer to the origin.",
 ["inputs","histories","configurations"],"all movement functions, origins, grid dimensions, with and without diagonals, all set backends",
 "Tests traverse two or three obstacle maps; the movement function is an arbitrary graph.",
 ["bf.rs","setpos.rs"],[("BfIterator::new/next","bf.rs"),("bf_iter wrappers","bf.rs")],[("visited","positions already queued or yielded","bf.rs"),("nextfront","the next group","bf.rs")])
p("C22","Breadth-first search returns a shortest valid path to a nearest goal",
 "If a goal position other than the origin is reachable, breadth-first search returns a goal and a path from the origin to it that only uses allowed movements, and no goal can be reached in fewer steps. If none is reachable it reports the destination as unreachable. All backends give a result with these guarantees, for every grid shape, and none panics.",
 ["inputs","configurations"],"all movement functions that allow or forbid the plain step in each direction at each position (any set of walls or one-way edges), all goal functions, origins, grid dimensions, direction sets, backends",
 "Tests search a handful of obstacle maps on a 30x15 grid.",
 ["bf.rs","mappos.rs"],[("search_mapmov/search_path and wrappers","bf.rs"),("camefrom_into_path","mappos.rs")])
p("C23","A* returns a shortest valid path",
 "If the destination is reachable from the origin, A* returns a path from origin to destination that only uses allowed movements and has the minimum number of steps, with and without diagonals; the path is empty when they are the same. If it is not reachable, the destination is reported as unreachable. All backends give a result with these guarantees, for every grid shape, and none panics or overflows.",
 ["inputs","configurations"],"all movement functions that allow or forbid the plain step in each direction at each position, all origins and destinations, grid dimensions, direction sets, backends",
 "Tests search a handful of obstacle maps without diagonals; the failures depend on obstacle layouts that make a position be queued twice.",
 ["astar.rs","mappos.rs","postrait.rs"],[("AstarIterator::new/next","astar.rs"),("heuristic","astar.rs"),("search_mapmov/search_path and wrappers","astar.rs")],[("cost","best known distance","astar.rs"),("frontier","priority queue","astar.rs")])
p("C24","Uniform-cost search returns a path of minimum total cost",
 "If the destination is reachable from the origin at a total cost below the largest value of the cost type, uniform-cost search returns a path from origin to destination that only uses allowed movements and whose total cost is the minimum over all such paths; the path is empty when they are the same. If it is not reachable, the destination is reported as unreachable. All backends give a result with these guarantees, for every assignment of costs including zero and very large ones, and none panics or overflows.",
 ["inputs","configurations"],"all movement-cost functions that allow or forbid the plain step in each direction at each position with any cost, all origins and destinations, grid dimensions, direction sets, backends",
 "Tests use unit costs only, on a handful of obstacle maps.",
 ["ucs.rs","mappos.rs"],[("UcsIterator::new/next","ucs.rs"),("search_mapmov/search_path and wrappers","ucs.rs")],[("cost","best known cost","ucs.rs"),("frontier","priority queue","ucs.rs")])
p("C25","Displaying a grid shows every cell once at its place",
 "The text form of a grid and of a boolean grid has one line per row, in order, preceded by the row label, with the text of each cell in order of x, each padded as the format asks, between a header and a footer with the column labels, written downwards one digit per line. Labels are padded on the left to the width of the last one. Writing reports success only if all of it was written. The text form of a position is its coordinate pair. No grid dimension makes it panic.",
 ["inputs","configurations"],"all grid dimensions, all contents, all formatting parameters",
 "Tests compare the text of two or three small grids.",
 ["grid.rs","gridbool.rs","pos.rs"],[("display_fmt_helper and Display impls","grid.rs, gridbool.rs, pos.rs")])
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
print(len(P), max(len(x['title']) for x in P))
