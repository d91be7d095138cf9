REF = "Generated-input search, no proof: trusts the reference interpreter in harness/interp.go (written from the manuals), clang, the kernel, and the bounds on generated programs given in DESIGN.md."
G = "property-based testing: generated B programs against a reference interpreter, shrinking by choice-sequence reduction"
for p in ("P01","P02","P03","P04","P05","P06","P07","P08","P12","P17"):
    c(p, G, REF)
c("P09", "metamorphic property-based testing: generated programs against re-laid-out, parenthesised and renamed versions of themselves, with shrinking", REF)
c("P10", "property-based testing: generated call sequences to the output library against a byte-exact model of both streams, with shrinking", REF)
c("P11", "property-based testing: generated inputs and call sequences against a byte-exact model of the input library, with shrinking", REF)
c("P13", "fuzzing: random bytes, token soup, mutated and generated programs; oracle: exit status, time, llvm-as and clang -c on the output; shrinking", "Generated-input search, no proof: trusts llvm's parser and verifier, and the size, nesting and time bounds in DESIGN.md.")
c("P14", "property-based testing: generated command lines and injected faults against a model of the output files, with shrinking", "Generated-input search, no proof: trusts the model of the command line in harness/gen_p14.go (written from the README and manual) and the fault kinds it injects.")
c("P15", "property-based testing: generated programs spread over files and build routes against a reference interpreter, with shrinking", REF)
c("P16", "metamorphic property-based testing: repeated and varied compilations of generated programs compared byte for byte, and reordered or extended programs by behaviour, with shrinking", "Generated-input search, no proof: trusts the bounds on generated programs and contexts in DESIGN.md; a nondeterminism that shows in fewer than about one of a thousand runs may be missed.")
c("P18", "property-based testing: generated sets of commands and interleavings (a gated stand-in for clang, system call delays) against the same commands run alone, with shrinking", "Generated-input search, no proof: the interleavings are those of the steps at which clang starts and ends, plus random delays at system calls on files.")
c("P19", "property-based testing: generated programs of which each function and variable is in B or C, against a reference interpreter, with shrinking", REF)
