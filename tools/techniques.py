c("C01", "explicit-state conformance checking: exhaustive transition cover of a reference pushdown acceptor plus exhaustive bounded input enumeration against the real parser",
  "Exhaustive within the stated bounds for all lexer/grammar states up to container depth 2 (3 thorough), every byte in each; longer inputs by pumping. Trusts the reference acceptor, which is cross-checked with a second independent model.")
c("C02", "exhaustive bounded input enumeration (acceptor transition cover, token tries, mutations) with all entry points run in lockstep on the real code",
  "Differential: all entry points of the real code must give one identical result on every enumerated text and configuration. That the common result is right is C01, C03, C25.")
c("C03", "explicit-state conformance checking of the acceptor under every combination of 28 option settings against the real parser",
  "Every enumerated text is run under every option setting; nesting is explored around every limit. Trusts the reference acceptor.")
c("C04", "exhaustive bounded input enumeration on the real code with overflow and unsafe-precondition checks on, small stacks, a watchdog and crash attribution",
  "Every enumerated input must return from every entry point in a 2 MiB stack, with its result usable. A crash or hang is confirmed in a fresh process before it is reported.")
c("C05", "exhaustive enumeration of documents (all small trees in all whitespace styles) with conformance of the parsed value to an independent reference tree",
  "Exhaustive for all trees up to the node bound, literals up to the atom bound. Trusts the reference parser, which is cross-checked with the acceptor.")
c("C06", "exhaustive bounded input enumeration; every exposed slice of the real code is checked against byte ranges computed by a reference lexer",
  "Checks validity and address range of everything exposed for every enumerated input, including iteration past errors. Does not interpret the code under an undefined-behaviour detector.")
c("C07", "exhaustive enumeration of string literals (all escapes, all surrogate pairs, all scalar values, atom sequences, positions) against a reference decoder",
  "All 65536 escapes, all 1048576 surrogate pairs and all scalar values are enumerated. One recorded finding (\\b).")
c("C08", "exhaustive enumeration of texts (every scalar value, sequences of classes, positions) against a reference encoder contract",
  "All scalar values alone and in context; sequences up to the bound. One recorded finding (U+0007).")
c("C09", "explicit-state exploration of all pairs of string representations up to a bound, compared with a text model through every equality and lookup form",
  "All pairs of representations up to three pieces, longer pairs differing in one place, all scalar values.")
c("C10", "explicit-state exploration of all pairs of string representations up to a bound, compared with the ordering of a text model",
  "All pairs of representations up to three pieces, longer pairs differing in one place, all scalar values.")
c("C11", "exhaustive enumeration of string representations, hashed by several hashers, compared with the hash of the text model; all pairs looked up in real sets and maps",
  "SipHash, FNV and a byte-recording hasher decide; a hasher sensitive to write boundaries meets one recorded finding.")
c("C12", "exhaustive enumeration of accepted documents; compact output of the real code compared with the source stripped by a reference lexer, and reparsed",
  "All trees up to the node bound in all whitespace styles, in every printing form.")
c("C13", "exhaustive enumeration of documents and styles; pretty output of the real code compared byte for byte with a reference layout, and reparsed",
  "All trees up to the node bound, ten indentation and line-ending styles, every printing form.")
c("C14", "exhaustive fault enumeration: every write and every byte position of every printing form fails once",
  "Every failing write and every full-at-byte sink for every enumerated value; the continuation after the fault is checked.", FE)
c("C15", "exhaustive enumeration of documents; node lists of the real code compared with the pre-order of a reference tree and with the directly parsed value",
  "All trees up to the node bound in all whitespace styles, through every way of obtaining a document.")
c("C16", "explicit-state exploration of all operation sequences (next, next_value, skip_next_value, clone) on real document iterators against an index model",
  "All operation sequences for all documents up to 8 (10 thorough) nodes; all pairs of operations from all positions for larger ones.")
c("C17", "exhaustive fault enumeration: every capacity and every failing push of every document",
  "Every capacity around the need and every k-th push failing with every kind, for all enumerated inputs.", FE)
c("C18", "conformance checking of delegate call histories of the real parser against the event model, with linear value handles",
  "All inputs enumerated up to the bounds; values handed to a delegate carry identities so loss or duplication is seen.")
c("C19", "exhaustive fault enumeration: every delegate callback of every enumerated parse fails once",
  "Every callback position of every enumerated input and entry point.", FE)
c("C20", "explicit-state exploration of tokenizer operation sequences on the real code against a reference lexer",
  "All enumerated sources under every operation pattern; all operation sequences up to length 5 (7 thorough) for short sources.")
c("C21", "exhaustive enumeration of number literals (all words, type boundaries, rounding ties, exponents) against exact big-integer arithmetic",
  "Exhaustive up to the word bound and around every type's limits; floats are compared with exact decimal rounding.")
c("C22", "exhaustive bounded input enumeration of lone strings and numbers against the reference acceptor and the value parser",
  "All lexer states with every byte, plus trailing and leading content.")
c("C23", "explicit-state exploration of edit histories on real values and objects against a list-of-entries model",
  "All histories up to the depth bound from every starting value, every accessor compared after each.")
c("C24", "explicit-state exploration of all pairs of owned/borrowed strings up to a bound against str operations",
  "All pairs of texts up to the bound, in every combination of ownership.")
c("C25", "conformance checking of error reports of the real parser against the first fault computed by an independent reference walker",
  "Every enumerated rejected input under six option settings; the acceptance relation on (kind, offset) is deliberately as loose as the statement.")
c("C26", "exhaustive bounded enumeration run in lockstep on six builds of the library (one per feature set), comparing complete transcripts",
  "All feature sets built from the working tree on every run; the nightly feature is not built.")
c("C27", "explicit-state exploration of all iterator positions (decoded and encoded) of every string representation against the text model",
  "Every position of every enumerated string, every finishing operation.")
c("C28", "explicit-state exploration of construction histories of values, printed and reparsed by an independent reference and by the library",
  "All construction histories up to the bound, all scalar values as text.")

c("C29", "exhaustive bounded input enumeration on the real code under a counting allocator, held against the container count of a reference tree",
  "Every enumerated input, accepted or rejected: allocation calls, live allocations, live and peak bytes of every operation. Proportion means at most 1024 bytes per input byte and 4096 more.")
c("C30", "explicit-state exploration of all pairs of small values and of every tree with every edit of its tokens, compared with equality of reference trees",
  "All pairs of values with at most two leaves, every tree up to the bound with every token edited, large and deep values with one difference; all forms of equality in both directions.")
c("C31", "explicit-state exploration of copying: every representation copied over every other, every iterator position over every other, against what the original answers",
  "All pairs of string representations up to the bounds, all pairs of iterator positions, all neighbouring pairs of tokens, nodes and numbers of every enumerated document.")
c("C32", "stateless exploration of all histories of up to three uses, all interleavings of two uses on two threads under a controlled scheduler, all nestings and unwindings at every callback, in processes of their own, against the transcripts of fresh processes",
  "34 uses; threads change over at callbacks and between calls only, at most 5 (6 thorough) change-over points each; every enumerated input is also read between eleven kinds of other bytes at several alignments.")
c("C33", "exhaustive exploration of constructs x places x operations x sizes on the real code under callgrind, the exact number of instructions of every execution set against the bytes read and written",
  "Two sizes each (256, 4096; thorough 256, 2048, 16384; nests 32, 512; thorough to 1024); growth below a factor of 2 per byte over the whole range is accepted, so a logarithm is, a square root is not.")
