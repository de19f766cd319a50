"""Manifest entries of the checks of functions without lasting state, and of those with their own driver."""
P = "TLA+ specification checked with TLC; expected observations of enumerated and generated cases computed by TLC and compared with the real code"
MORE = {
    "C20": dict(technique="TLA+ monitor (possible sequential states) checked with TLC on every recorded history of the real library: systematic schedules (preemption bounded) and free threads under ThreadSanitizer", level="model_checking",
                level_note="spec/Conc.tla: a history of calls and returns is explained by the sequential model of the registry, the rules, the types and the objects, or is a violation; TLC follows the tree of all histories of a program. The histories come from the "
                "real library under a cooperative scheduler at its lock operations: all schedules with up to 2 preemptions of generated programs (2-4 threads, up to 3 operations each) up to a number of runs, then random ones; deadlocks, ASan and UBSan are watched. "
                "Programs of free threads run under ThreadSanitizer and their histories are judged too. Data races outside of the generated programs' schedules can be missed."),
    "C22": dict(technique=P, level="model_checking", level_note="spec/Sv.tla: TLC checks that the order is a strict weak one and the searches are sound on all memories up to 4 bytes (thorough: 6) over 3 byte values "
                "with every pair of intervals and null, and computes what is observed; longer memories are generated. Compared for the header compiled as C and as C++ with ASan/UBSan, with views sharing memory and apart, and for lengths beyond 2^31."),
    "C23": dict(technique=P, level="model_checking", level_note="spec/V1.tla: folds (TLC also checks them against closed forms), combined calls of 9 multicast messages (arities 0..5, bool, int, double, default implementation, overloads) on generated "
                "mixin sets with bids, priorities, throwing and next-bidder implementations, by temporary, kept and recording combinators; histories of combinators fed by hand. The message macros are expanded from the repository's templates by a Python "
                "rendition of its ruby generator. Up to 6 mixins; integer overflow is out of range."),
    "C24": dict(technique=P, level="model_checking", level_note="spec/V1.tla with Rules.tla: histories of adding and removing up to 4 live rules (all kinds of the v1 interface, shared and raw ownership, dead and unknown ids) with requests of types; rules have no order "
                "of their own, so an answer has to be one of those of all their orders, which TLC enumerates. Definitions made with the feature parser, messages of 20 kinds, next bidders, implements, is_a, copy."),
    "C25": dict(technique=P, level="model_checking", level_note="spec/Defs.tla: state of a definition after every builder call (generated sequences over 6 mixins, 6 features, shared and own rules, perks), registration of the definitions "
                "in a domain by the model of the registry and the rules (refusals included), all pairs of perks and settings, and the operations of 130 C++ types, which differ in every special member. Names are short strings, numbers of calls up to 14 per mixin."),
    "C26": dict(technique=P, level="model_checking", level_note="spec/Mem.tla: sizes 0..70 and around powers of two by all factors up to 65, buffers of all alignments up to 4096, memories with generated histories of stock functions, "
                "orders of generated infos, all argument lists up to two kinds in all tuple categories. Integers beyond 2^31 are only tried for ids (TLC has 32 bit integers)."),
}
