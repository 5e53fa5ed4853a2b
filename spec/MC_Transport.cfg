SPECIFICATION Spec
CONSTANTS
  MaxDev = 2
  Progs = {"counts2kn", "counts2kn-s", "counts2kn-c", "counts2kn-Z", "counts2kn-r", "varigram_kn", "varigram_kn-S", "perplexity-a", "perplexity-A", "perplexity-f", "perplexity-i", "perplexity-fi", "arpa2bin", "bin2arpa", "arpa2arpa", "add_zeroprob_grams", "arpasize", "arpasize-S", "check_model", "simpleinterpolate2arpa"}
INVARIANTS Faithful Noticed
CHECK_DEADLOCK FALSE
