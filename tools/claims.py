M = "metamorphic law checked on the real parser for every element of bounded spaces of texts, with the reference model deciding where it applies"
for i in ("C05 C06 C07 C08 C09 C10 C11 C18 C19 C20".split()):
    claims[i] = (T, N)
claims["C06"] = ("exhaustive enumeration of break points: the split text is compared with the unsplit one on the real parser and with the reference model", N)
claims["C21"] = (M, "Exhaustive within the spaces listed in the evidence file. The reference model only filters (pairs for which composition is not defined are skipped and not counted as compared).")
claims["C22"] = (M, "Exhaustive within the spaces listed in the evidence file. The reference model only filters (places where an operand can bind differently are skipped and not counted as compared).")
claims["C12"] = ("exhaustive enumeration of trees, prune decisions, roots and absent children; all events of the real Walk and Inspect compared with a reflection-based model", N)
claims["C13"] = ("exhaustive enumeration of parsed and hand-built trees on the real printer: print, parse, compare, print again, fail at every byte", N)
claims["C15"] = ("exhaustive enumeration of deliveries (chunkings, error points, line end patterns) of every text of bounded spaces on the real parser", N)
claims["C17"] = ("exhaustive enumeration of argument lists over a pool of file states, flags and standard inputs, run on the built tool", N)
claims["C16"] = ("exhaustive enumeration of scripts run through both implementations, the Go code and the Vim script code in Vim", "Exhaustive within the spaces listed in the evidence file, which are smaller than those of the other checks (about 1000 scripts a second). Texts with bytes that are not UTF-8, NUL or carriage returns are left out: lines in Vim cannot have them.")
claims["C14"] = ("stateless exploration of the real code: all call histories up to a depth against fresh-process results, all schedules with up to two preemptions at inserted scheduling points, and all pairs of calls without order under the race detector", "Exhaustive within the spaces listed in the evidence file: histories of up to four calls over a small alphabet and of two over a large one; preemptions only where functions start and before statements that mention a package variable (thorough: before every statement); data races as far as the race detector's happens-before tracking sees the pair of accesses.")
claims["C24"] = ("exhaustive enumeration of bounded spaces of patterns, each matched by Vim as written and as the tokens of the real parser put together; all matches compared", "Exhaustive within the spaces listed in the evidence file, for the matches in one buffer of 39 lines, three of them made from the pattern. Trusts Vim 9.1 as the meaning of patterns; forms which Vim accepts without documenting them and items newer than Vim 7.3 are left out.")
claims["C23"] = ("exhaustive enumeration of bounded spaces of texts, each given to two real parsers, the committed one and the one regenerated in a scratch copy; all of both results compared", "Exhaustive within the spaces listed in the evidence file. If the generator gives no code or its code does not compile with the rest of the tree, nothing is compared and the evidence file says so.")
