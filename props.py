"""Which modules each property's check extracts and verifies, and which functions carry
the property itself (`direct`); every other extracted function is a dependency whose
contract the direct ones use."""
import re

BASE = ["vxlib", "error", "boundedint"]
POS = BASE + ["postrait", "pos"]
U16 = r"^(trait BoundedInt::|BoundedIntIterator|<BoundedIntIterator|BoundedU16::|<BoundedU16 as |<\w+ as (Try)?From<BoundedU16>>|<u16 as BoundedInt>)"

# Of the bounded integers, only BoundedU16 and the trait's own methods are dependencies of
# positions; the other instances are discharged by C01, C02 and C03.
ONLY_U16 = {"boundedint": U16}

PT = r"(trait PosT|<Pos as PosT>|<\(u\d+,u\d+\) as PosT>|<\(i\d+,i\d+\) as PosT>|Pos)"

# what the set and map backends use of the grids
STORES = {"grid": r"^(Grid::(repeat|get|get_mut)|<Grid as (Index|IndexMut)<&?P>>::.*)$",
          "gridbool": r"^(Gridbool::(set|set_t|set_f|get|repeat|ALL_TRUE|ALL_FALSE)|<Gridbool as Default>::default)$"}

# what writing a grid as text uses; the text itself is left out where it is not the property
NOTEXT = r"^(?!display_fmt_helper|.* as Display>)"
GRIDTEXT = r"^(display_fmt_helper|<Grid as Display>::fmt|Grid::(SIZE|iter|as_array|width|height)|<&?Grid as IntoIterator>::into_iter|.*::_ASSERTS)$"
BOOLTEXT = r"^(<Gridbool as Display>::fmt|Gridbool::(iter(__base|__item)?|get)|.*::_ASSERTS)$"

# the map backends, without camefrom_into_path
MAPS = r"MapPos"
SEARCH = POS + ["dir", "posdir", "grid", "gridbool", "base", "mappos", "searchlib"]

PROPS = {
    "C01": dict(modules=BASE, direct=[r"Bounded"]),
    "C02": dict(modules=BASE, direct=[r"Bounded"]),
    "C03": dict(modules=BASE, direct=[r"BoundedIntIterator", r"::iter$"]),
    "C04": dict(modules=POS, only=ONLY_U16, direct=[
        r"^Pos::", r"^<Pos as (Try)?From", r"^<\(\w+,\w+\) as From<&?Pos>>", r"^<Pos as Default>",
        r"^<.* as PosT>::(new_|into_tuple|tuple|x|y|WIDTH|HEIGHT)$",
        r"^trait PosT::(new|inner_tuple|tryfrom_pos|first|last|x|y|tuple|into_tuple)$"]),
    "C05": dict(modules=POS, only=ONLY_U16, direct=[
        r"^trait PosT::(to_usize|tryfrom_usize|width|height|dimensions)$", r"::(WIDTH|HEIGHT|SIZE)$",
        r"^<Pos as TryFrom<usize>>", r"^<usize as From<&?Pos>>"]),
    "C06": dict(modules=BASE + ["dir", "postrait", "pos", "posdir"], only=ONLY_U16, direct=[
        r"as Add<Dir>>::add$", r"^pos_dir_add", r"::checked_(add|sub)$", r"::(inc|dec)$"]),
    "C07": dict(modules=BASE + ["dir"], only=ONLY_U16, direct=[
        r"^Dir::(is_diagonal|flip|rotate|next|iter)$", r"^<Dir as (Neg|Add|AddAssign|PartialEq|PartialOrd|Ord|Default)>",
        r"^<\(\w+,\w+\) as From<Dir>>", r"^<Dir as TryFrom<&?\(", r"DirIter"]),
    "C08": dict(modules=BASE + ["dir"], only=ONLY_U16, direct=[
        r"^Dir::name_", r"^<Dir as Display>", r"^<Dir as TryFrom<char>>", r"^<Dir as FromStr>"]),
    "C09": dict(modules=BASE + ["dir", "postrait", "pos", "posdir"], only=ONLY_U16, direct=[r"^direction_to$"]),
    "C10": dict(modules=POS, only=ONLY_U16, direct=[r"(flip_h|flip_v|rotate_cw|rotate_cc|is_corner|is_side)$"]),
    "C11": dict(modules=POS, only=ONLY_U16, direct=[
        r"^trait PosT::(manhattan|chebyshev|inside|tlbr_of|width|height|dimensions)$"]),
    "C12": dict(modules=POS, only=ONLY_U16, direct=[
        r"^trait PosT::(next|next_y|prev|prev_y|iter|iter_horizontal|iter_vertical|iter_orientation|iter_x|iter_y)$", r"PosTIter( |$|:| as (Default|Iterator|DoubleEndedIterator)>)"]),
    "C13": dict(modules=POS, only=ONLY_U16, direct=[
        r"^trait PosT::(iter_range|iter_in_x|iter_in_y|iter_x|iter_y)$", r"PosTIter(Range|InX|InY)"]),
    "C14": dict(modules=POS + ["grid"], only=dict(ONLY_U16, grid=NOTEXT), direct=[
        r"^Grid::(SIZE|repeat|get|get_mut|line|line_mut|as_array|as_array_mut|into_inner|iter|iter_mut)$",
        r"^<Grid as (Index|IndexMut|AsRef|AsMut|Default|FromIterator|TryFrom)<?", r"^<(&(mut )?)?Grid as IntoIterator>"]),
    "C15": dict(modules=POS + ["grid"], only=dict(ONLY_U16, grid=NOTEXT), direct=[r"^Grid::(flip_h|flip_v|rotate_cw|rotate_cc)$"]),
    "C16": dict(modules=POS + ["grid"], only=dict(ONLY_U16, grid=NOTEXT), direct=[
        r"^Grid::(repeat|extend_from_vecvec|iter_pos(__base|__item)?|iter)$",
        r"^<Grid as (Default|Neg|TryFrom<Vec>|FromIterator<&?T>|Extend<.*>)>", r"^<(&(mut )?)?Grid as IntoIterator>"]),
    "C17": dict(modules=POS + ["grid", "gridbool"], only=dict(ONLY_U16, grid=r"^$", gridbool=NOTEXT), direct=[
        r"^Gridbool::(ALL_TRUE|ALL_FALSE|repeat|set|set_t|set_f|get|into_inner|as_inner|as_inner_mut)$", r"^<Gridbool as (Default|PartialEq|Index)"]),
    "C18": dict(modules=POS + ["grid", "gridbool"], only=dict(ONLY_U16, grid=r"^$", gridbool=NOTEXT), direct=[
        r"^Gridbool::(iter|iter_pos|iter_t|iter_f)(__base|__item)?$", r"^Gridbool::(set_iter_t|set_iter_f|flip_h|flip_v|rotate_cw|rotate_cc)$",
        r"^<Gridbool as FromIterator"]),
    "C19": dict(modules=POS + ["dir", "grid", "gridbool", "base", "setpos", "mappos"], only=dict(ONLY_U16, **STORES), direct=[
        r"^<.* as (SetPos|MapPos)<", r"^trait (SetPos|MapPos)::"]),
    "C20": dict(modules=POS + ["dir", "grid", "base", "mappos"], only=dict(ONLY_U16, **STORES), direct=[r"^(Sqrid::)?camefrom_into_path$"]),
    "C21": dict(modules=SEARCH + ["setpos", "bf", "ties"], only=dict(ONLY_U16, **STORES, mappos=MAPS), direct=[r"BfIterator", r"^(Sqrid::)?bf_iter"]),
    "C22": dict(modules=SEARCH + ["setpos", "bf", "ties"], only=dict(ONLY_U16, **STORES), direct=[
        r"BfIterator", r"^search_(mapmov|path)", r"^Sqrid::bfs_path", r"^camefrom_into_path$"]),
    "C23": dict(modules=SEARCH + ["bestfirst", "astar", "ties"], only=dict(ONLY_U16, **STORES), direct=[
        r"AstarIterator", r"^heuristic$", r"^search_(mapmov|path)", r"^Sqrid::astar_path", r"^camefrom_into_path$"]),
    "C24": dict(modules=SEARCH + ["bestfirst", "ucs", "ties"], only=dict(ONLY_U16, **STORES), direct=[
        r"UcsIterator", r"^search_(mapmov|path)", r"^Sqrid::ucs_path", r"^camefrom_into_path$"]),
    "C25": dict(modules=POS + ["grid", "gridbool"], only=dict(ONLY_U16, grid=GRIDTEXT, gridbool=BOOLTEXT), direct=[
        r"^display_fmt_helper$", r" as Display>::fmt$"]),
}

def is_direct(pid, key):
    return any(re.search(r, key) for r in PROPS[pid]["direct"])

# properties the check does not claim
NA = {}
LEVEL_NOTES = {}
