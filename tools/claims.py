PROD = "bounded-exhaustive function enumeration on the real allocator + explicit-state product exploration of input vs. allocated program"
PNOTE = ("Every function of each scope (alphabet of instruction shapes, CFG templates, machine environments, bounds in the evidence) "
         "is allocated by the real code and every reachable state of the product of source and allocated program is explored, so the "
         "verdict covers all paths of all functions within the bounds; nothing is claimed beyond them. Trusts the harness's own "
         "operand/edit semantics (src/product.rs).")
CLAIMS = {p: (PROD, PNOTE) for p in ["P01", "P02", "P03", "P04", "P05", "P06", "P07"]}

SEQ = "exhaustive enumeration of operation sequences / inputs on the real structure next to a reference model (explicit-state)"
def comp(what):
    return (SEQ, what + " The real code is run on every input or operation sequence of the stated bounds, and the scopes of whole functions that "
            "exercise this part most are judged end to end by the product checker. Nothing is claimed beyond the bounds.")
CLAIMS["P13"] = comp("Every move set over up to the stated number of locations, executed on a symbolic memory.")
CLAIMS["P14"] = comp("Every move set with every supply of scratch and free registers, executed on a symbolic memory.")
CLAIMS["P15"] = comp("Every operation sequence up to the depth, next to a memory model; uses the eliminator through guarded re-exports.")
CLAIMS["P16"] = comp("Every graph up to 4 blocks (5 in the thorough tier) and parametric families, against the definitions.")
CLAIMS["P17"] = comp("Every operation sequence up to the depth from prepared sets around the representation switch.")
CLAIMS["P18"] = comp("Every operation on every register and pair of base sets, and every short operation sequence.")
CLAIMS["P19"] = comp("The complete domain of registers, slots, points and values, and every operand form at boundary values.")
CLAIMS["P25"] = comp("Every placement of four registers with every hint, limit, offset and fixed requirement.")
CLAIMS["P26"] = comp("Live sets left by the real run against a path search on the input, for every function of the scopes.")
CLAIMS["P27"] = comp("Every operation sequence up to the depth on the recency list, live-value set, range keys and queue.")
CLAIMS["P08"] = ("bounded-exhaustive enumeration of instruction demands on the real allocators, against a brute-force assignment search",
    "Every operand list of the alphabets (up to four or five operands, one to three registers, limits, classes, clobbers), demands met or "
    "not, is allocated by the real code; the answer (allocation or TooManyLiveRegs) is compared with an exhaustive search for an assignment. "
    "Demands that can be met only by sharing a register, or (single-pass) only in a lucky order, may go either way. Nothing is claimed beyond the bounds.")
CLAIMS["P09"] = ("exhaustive enumeration of raw functions, valid and broken, run with validation against the definition",
    "Every raw function of the spaces (any value number in any operand, parameter and argument, wrong terminators, empty blocks, every "
    "graph of up to four blocks) is run with SSA validation by both allocators and the answer is compared with a brute-force reading of the "
    "rules; the functions of the allocation scopes must be accepted. Cases the documentation leaves open are not judged.")
CLAIMS["P10"] = ("exhaustive enumeration of control-flow graphs with planted defects on the real allocator, against path search",
    "Every graph up to three blocks and four with two successors, every entry, and every template with one more edge, with every placement "
    "of a branch operand, value or argument; the error must name a defect that is there.")
CLAIMS["P11"] = ("exhaustive enumeration of run histories (explicit-state) on the real context against fresh runs",
    "Every history of four (five) runs over 28 very different functions and configurations, errors included, every function of several scopes "
    "after each of those, and every ordered pair of small functions; complete outputs are compared.")
CLAIMS["P12"] = ("exhaustive enumeration of functions, each run under every option and compared",
    "Every function of several allocation scopes is run again plainly, with validation, verbose logging, trace logging and two labellings; "
    "complete outputs are compared.")
DBG = ("Every function of the allocation scopes is allocated with every value labelled over every range of instructions; every reachable state of the "
       "product of source and allocated program is explored and at every point of every reported range the location must hold the value. "
       "Nothing is claimed beyond the bounds.")
CLAIMS["P20"] = (PROD, DBG)
CLAIMS["P21"] = (PROD, DBG)
CHK = "exhaustive enumeration of functions and candidate outputs, judged by explicit-state product exploration and by the real checker"
CLAIMS["P22"] = (CHK,
    "For every small function, every single change of a real output (each allocation replaced by every location, each move dropped, redirected, reversed, "
    "exchanged or moved to another point, one move added anywhere) and, for tiny functions, every output at all: what the product exploration finds wrong "
    "the real checker must reject. Overlap of operands within one instruction is not part of the question.")
CLAIMS["P23"] = (CHK,
    "The same candidates, and both allocators' outputs of all quick allocation scopes: what the product exploration finds right the real checker must "
    "accept, without panic and within a time limit.")
CLAIMS["P24"] = ("exhaustive enumeration of functions, each captured, serialized, read back and re-run on the real code",
    "Every function of the scopes and raw functions varying each captured aspect: all queries of every copy, both formats, and complete results of both "
    "allocators with and without validation are compared. Value types over their full or boundary domains.")
NOT_CLAIMED = {}
