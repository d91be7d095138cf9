package main

import "time"

var unitChecks = map[string]*UnitCheck{}

// mostlyO0 gives every eighth batch another optimisation level.
func mostlyO0(i int) Build {
	if i%8 == 7 {
		return Build{Opt: 1 + i/8%3}
	}
	return Build{}
}

func unitCheck(id string, uc *UnitCheck, rule string) {
	unitChecks[id] = uc
	if uc.Build == nil {
		uc.Build = mostlyO0
	}
	checks = append(checks, &Check{ID: id, Level: "exploration", Rule: rule, Run: func(c *Ctx) {
		c.budget(35*time.Second, 10*time.Minute)
		n := uc.run(c, c.count(900, 1000000))
		c.St.extra["batches"] = n
	}})
}

func registerChecks() {
	unitCheck("P01", &UnitCheck{PerBatch: 40, Gens: []UnitGen{{"idiom", 4, corpusUnit("P01")},
		{"expr", 18, genExprUnit}, {"chain", 12, genTripleUnit}, {"pairs", 9, genPairsUnit}, {"deep", 3, genDeepUnit}, {"big", 2, genBigExprUnit},
	}}, "a case is a function that logs the values of generated expressions (random trees, chains of 2-6 binary operators printed without parentheses, all pairs of operators around one operand, large trees) over constants, variables, parameters, vector elements and calls; it is non-trivial and counted when its text is distinct and at least one expression has an operator")
	unitCheck("P02", &UnitCheck{PerBatch: 40, Gens: []UnitGen{{"idiom", 4, corpusUnit("P02")},
		{"assign", 12, genAssignUnit}, {"everyop", 4, genEveryOpUnit}, {"step", 4, genPointerStepUnit}, {"order", 6, genOrderUnit}, {"holder", 6, genHolderUnit}, {"big", 1, genBigAssignUnit},
	}}, "a case is a function that runs generated assignments, increments and traced calls over variables, parameters, extrns, vectors and pointers and then logs every word of memory; non-trivial and distinct by its text")
	unitCheck("P03", &UnitCheck{PerBatch: 40, Gens: []UnitGen{{"idiom", 4, corpusUnit("P03")}, {"flow", 30, genFlowUnit}, {"big", 1, genBigFlowUnit}}}, "a case is a function with generated nested blocks, if/else, while, labels, goto and return with a trace call at each statement; the trace is compared; non-trivial when the text is distinct and contains at least one construct that transfers control")
	unitCheck("P04", &UnitCheck{PerBatch: 40, Gens: []UnitGen{{"idiom", 4, corpusUnit("P04")}, {"switchflow", 15, genSwitchUnit}, {"select", 15, genSelectUnit}, {"big", 1, genBigSwitchUnit}}}, "a case is a function with generated switches (nested, in loops and branches, called with selectors that hit and miss); the trace is compared; non-trivial and distinct by its text")
	unitCheck("P05", &UnitCheck{PerBatch: 40, Gens: []UnitGen{{"idiom", 4, corpusUnit("P05")}, {"call", 24, genCallUnit}, {"recursion", 8, genRecUnit}, {"big", 1, genBigCallUnit}}}, "a case is a generated set of functions with 0 to 120 parameters calling each other directly, through pointers, recursively, with every parameter and result logged; non-trivial and distinct by its text")
	unitCheck("P06", &UnitCheck{PerBatch: 40, Gens: []UnitGen{{"idiom", 4, corpusUnit("P06")}, {"autos", 30, genAutoUnit}, {"autorec", 10, genAutoRecUnit}, {"longloop", 1, genManyLoopUnit}, {"big", 2, genBigAutoUnit}}}, "a case is a function with generated auto declarations at any nesting; every word of every variable is written and read back by several routes; non-trivial and distinct by its text")
	unitCheck("P07", &UnitCheck{PerBatch: 40, Files: 3, Gens: []UnitGen{{"idiom", 4, corpusUnit("P07")}, {"one-file", 10, genExtUnit(1)}, {"two-files", 10, genExtUnit(2)}, {"three-files", 10, genExtUnit(3)}, {"big", 1, genBigExtUnit}}}, "a case is a set of 1-3 files with external definitions and functions that load and store them in turn; every value is logged; non-trivial and distinct by its text")
	unitCheck("P08", &UnitCheck{PerBatch: 40, Gens: []UnitGen{{"idiom", 4, corpusUnit("P08")}, {"constants", 15, genConstUnit}, {"strings", 15, genStringUnit}, {"big", 1, genBigLiteralUnit}}}, "a case is a function (and definitions) with generated constants and literals in every position that takes one; words and string bytes are logged; non-trivial and distinct by its text")
	unitCheck("P17", &UnitCheck{PerBatch: 40, Gens: []UnitGen{{"idiom", 4, corpusUnit("P17")}, {"memory", 24, genMemUnit}, {"list", 6, genListUnit}, {"matrix", 3, genMatrixUnit}, {"far", 6, genFarUnit}, {"big", 2, genBigMemUnit}}}, "a case is a function with a generated history of loads, stores, swaps, copies, byte stores and comparisons through alias chains over auto and external words, or a linked list or vector of vectors; every value read and the final content of every word are logged; non-trivial and distinct by its text")
	var mix []UnitGen
	for _, g := range []UnitGen{{"call", 12, genCallUnit}, {"recursion", 4, genRecUnit}, {"extern", 8, genExtUnit(1)}, {"memory", 4, genMemUnit}, {"list", 2, genListUnit}, {"assign", 2, genAssignUnit}, {"autos", 2, genAutoUnit}, {"flow", 2, genFlowUnit}, {"select", 1, genSelectUnit}, {"order", 2, genOrderUnit}, {"big", 1, genBigCallUnit}, {"bigextern", 1, genBigExtUnit}} {
		mix = append(mix, mixed(g))
	}
	unitCheck("P19", &UnitCheck{PerBatch: 40, Files: 3, Gens: mix, Build: func(i int) Build {
		return Build{Opt: i / 8 % 4, CKind: []string{"o", "s", "ll", "a"}[i%4], COpt: []int{0, 2, 1, 3, 2}[i%5]}
	}}, "a case is a generated set of functions and external variables of which each is written in B or in C by the convention of the runtime library; they call each other and share the variables in both directions, and are linked by blang; every logged word is compared with the interpreter; non-trivial when something is in C, distinct by its text")
	caseCheck("P12", []CaseGen{{"reject", 2, genRejectCase}, {"text", 1, genTextCase}}, 45*time.Second, 10*time.Minute, "a case is a generated valid program of 1-2 units, the same program with one error of a listed class planted at a random place, and a way to call blang; the valid one must be accepted and the other rejected with a diagnostic and no file; or it is a valid or wild program whose text was changed at random, which must be accepted or rejected as the reference parser says; non-trivial and distinct by the text of the (broken) program")
	caseCheck("P09", []CaseGen{{"style", 1, genStyleCase}}, 45*time.Second, 10*time.Minute, "a case is a generated valid program of 1-8 units and a second form of it with another layout (down to a separator or comment at every token boundary, or none), redundant parentheses and other names for variables, functions and labels; the second form must be accepted and behave as the first; non-trivial and distinct by the text of the second form")
	caseCheck("P10", []CaseGen{{"output", 1, genOutCase}}, 45*time.Second, 10*time.Minute, "a case is a generated program of calls of the output functions (any words, strings and format strings, switches of fout, other files, calls through pointers); standard output, standard error, both merged into one stream, and two further files are compared byte by byte with the model; non-trivial when it writes something, distinct by its text")
	caseCheck("P11", []CaseGen{{"input", 1, genInCase}}, 45*time.Second, 10*time.Minute, "a case is a generated program of calls of read, nread, char, lchar and exit with 1-4 generated inputs (any bytes, from a file or a pipe, and two further files); output and exit status are compared with the model for each input; non-trivial when it calls at least one of them, distinct by its text and inputs")
	caseCheck("P13", []CaseGen{{"wild", 8, genWildCase}, {"mutant", 8, genMutantCase}, {"soup", 4, genSoupCase}, {"cut", 3, genCutCase}, {"bytes", 3, genBytesCase}, {"big", 1, genBigCase}}, 45*time.Second, 10*time.Minute, "a case is an input of up to 64 KB: programs of correct syntax and arbitrary meaning, mutated valid programs, programs cut short, token soup, random bytes, and long or deeply nested inputs; blang must end with status 0 and valid IR (llvm-as; blang -c for every fourth) or with status 1 and a diagnostic; non-trivial when it has at least 2 bytes, distinct by its bytes")
	cliGens := []CaseGen{{"command line", 1, genCLICase}}
	caseChecks["P14"] = cliGens
	checks = append(checks, &Check{ID: "P14", Level: "exploration",
		Rule: "a case is a generated directory tree and command line (mode, inputs of mixed types and places, spelling and order of the options, -o), two fifths of them with one fault; status, diagnostic, every file of the tree, and the kind and behaviour of the outputs are compared with the model; all are non-trivial, distinct by the command line, the inputs and the fault",
		Run: func(c *Ctx) {
			c.budget(35*time.Second, 10*time.Minute)
			if e := cliSetup(); e != "" {
				c.fail(&Failure{Kind: "setup", What: "the modules of the command line cases cannot be made", Expected: "LLVM IR, assembly and object files", Got: e, Cmd: "blang --emit-llvm"})
				return
			}
			c.runCases(cliGens, 100000000, "")
			c.takeNotes()
		}})
	parGens := []CaseGen{{"steps", 2, genParallelCase}, {"delays", 1, genDelayCase}}
	caseChecks["P18"] = parGens
	checks = append(checks, &Check{ID: "P18", Level: "exploration",
		Rule: "a case is a directory of modules in several forms, 2-5 generated command lines for it with outputs of their own and inputs in common, and either an order of their steps (to the next start or end of clang, or the end of the run) or a start time and a delay at system calls on files for each; each must end with the status, messages and files it has alone, and nothing else may change; all are non-trivial, distinct by the command lines and the order",
		Run: func(c *Ctx) {
			c.budget(35*time.Second, 10*time.Minute)
			if e := cliSetup(); e != "" {
				c.fail(&Failure{Kind: "setup", What: "the modules of the command line cases cannot be made", Expected: "LLVM IR, assembly and object files", Got: e, Cmd: "blang --emit-llvm"})
				return
			}
			c.runCases(parGens, 100000000, "")
		}})
	caseCheck("P15", []CaseGen{{"route", 1, genRouteCase}}, 45*time.Second, 10*time.Minute, "a case is a generated program of 1-6 units (all kinds of code of the other checks, and loops over vectors that optimisers rewrite) spread over 1-5 (at times 24) files in any order, each taken through its own sequence of blang runs (.b, .ll, .s, .o, archive; any -O and -g) and linked; output, standard error and exit status are compared with the interpreter; all are non-trivial, distinct by sources and command lines")
	caseCheck("P16", []CaseGen{{"same", 1, genSameCase}, {"order", 1, genOrderCase}}, 45*time.Second, 10*time.Minute, "a case is either 1-4 generated sources compiled alone and then again in 2-6 other ways (directory, path, name, company, order, options, environment), where the IR, assembly, object or executable bytes must agree; or a generated program and a version of it with reordered and added unrelated definitions, which must behave the same; non-trivial unless the version is the program itself, distinct by sources and commands")
}
