"""Per property: the deciding technique, what the check assures and trusts, and why a property is not claimed."""
FLOW = "static analysis: interprocedural path-sensitive dataflow and effect analysis (abstract interpretation) over resolved MIR, with loop summaries"
TREES = "static analysis: interprocedural dataflow over resolved MIR with a symbolic heap of boxes, recursive calls replaced by their contracts"
TECH = {
    "C21": TREES + "; case analysis of the order facts guarding every visit and prune",
    "C22": TREES + "; obligations on which subtrees, intervals and limits end up where, discharged by an order solver",
    "C23": FLOW + "; enumeration of all weak orders of the bounds involved",
    "C24": FLOW + "; enumeration of all three-way outcomes per component",
    "C25": "static analysis: query for unsafe code over the typed syntax tree and the tokens of every source file, and compile-fail witnesses for auto traits",
}
COMMON = ("What the analysis cannot follow is reported as UNDECIDED and does not alarm.")
TRUST = ("Trusts: rustc's MIR, the written models of std (plv/models.py), and that client implementations of Ord/Clone/Identify are lawful. ")
NOTE = {
    "C21": "Covers every tree that satisfies the invariants, every query and every order of the bounds, on every path of the tree's queries and iterators; "
           "recursion is by contract (induction over the subtree). " + TRUST + COMMON,
    "C22": "Covers every tree that satisfies the invariants and every interval, on every path of the functions that change a tree; recursion is by contract "
           "(induction over the subtree), and every recursive call must descend. " + TRUST + COMMON,
    "C23": "Covers every weak order of the bounds of the intervals involved, that is, all inputs of a lawful order. " + TRUST + COMMON,
    "C24": "Covers every combination of three-way outcomes of the component comparisons, for arrays of every length (by a loop or iterator summary). " + TRUST + COMMON,
    "C25": "Covers the whole source, compiled or not, and every use of the named types: auto traits are decided by the compiler's trait solver. "
           "Trusts: rustc, and the soundness of std and the dependencies.",
}
NA = {
    "C26": "plugins/interval is no member of the workspace and its plugin.rs does not compile at this commit (it imports plotline::property::Extractor, "
           "which does not exist): there is no program to analyse",
    "C27": "The command line keeps its schema in memory only and neither save nor delete writes a file at this commit: persistence is a feature to be "
           "designed, not a code path a static analysis can decide",
}
