prop("P01", "A proof verdict is right in both directions",
     "VERIFY PROOF reports an error for a theorem exactly when its written proof is not a derivation: some step names something that is not an active hypothesis or an earlier assertion, has too few entries to work on, does not unify with its hypotheses by one simultaneous substitution, or the final single result differs from the stated theorem. A proof whose only gaps are unknown (?) steps is reported as unproved, never as verified and never as wrong. Every other proof is accepted, and the closing line that all proofs were verified is printed exactly when every theorem was.",
     ["inputs"], "Every database the language allows and every proof text in it, right or wrong, with formulas, substitutions and step counts of any size.",
     "The tests hold a handful of right proofs and a few wrong ones; soundness and completeness are claims about every proof text over every database.",
     ["src/mmveri.c", "src/mmpars.c"],
     [("stack machine and substitution", "src/mmveri.c verifyProof, assignVar"), ("proof parsing and label resolution", "src/mmpars.c parseProof")],
     ["output of VERIFY PROOF for every theorem"],
     "TLA+ stack-machine specification (MMDatabase, MMProof); trace validation of recorded verdicts with TLC (ProofTrace) and replay of every TLC-enumerated step sequence (ProofGen)",
     "exhaustive over all step sequences of two small databases up to length 5-6; random databases and edited proofs beyond that")
prop("P02", "Distinct-variable restrictions are enforced exactly",
     "A proof step that uses an assertion with a distinct-variable restriction is accepted exactly when, for every restricted pair, the expressions substituted for the two variables share no variable and every pair of variables, one from each, is itself declared distinct where the theorem being proved stands. Declarations in closed scopes never count, and declarations on variables used only inside the proof do count.",
     ["inputs"], "Every set of distinct-variable declarations, in any scope, order or grouping, and every substitution.",
     "Three tests exercise one violation each; the rule is over all pairs, substitutions and scopes.",
     ["src/mmveri.c", "src/mmpars.c"],
     [("distinct-variable check", "src/mmveri.c assignVar"), ("collection of required and optional pairs", "src/mmpars.c parseStatements")],
     ["output of VERIFY PROOF"],
     "TLA+ specification of the distinct-variable obligation (MMProof!DvOK); TLC enumerates every small case (DvGen) for replay and validates random traces (ProofTrace)",
     "exhaustive over 16384 combinations of two variable lists and pair sets on 4 variables; random beyond")
prop("P03", "Compressed proofs mean what their letters say",
     "A compressed proof is accepted exactly when its letters decode, by the documented numbering of mandatory hypotheses, listed labels and saved subproofs, to a valid proof. Every malformed text is reported as an error: a reference past the end of the list, an unfinished number, a save mark with nothing to save, a listed label that is mandatory or not yet defined, an illegal character. (The announced legacy numbering is decoded by its own rule.)",
     ["inputs"], "Every letter string and label list, for reference lists of any length.",
     "Numbers change shape at 20, 120 and 620 references, and saved subproofs shift the numbering as they appear; tests hold a few short proofs.",
     ["src/mmpars.c"],
     [("letter decoding", "src/mmpars.c parseCompressedProof")],
     ["output of VERIFY PROOF"],
     "TLA+ letter machine (MMCompress) with encoder/decoder inverse checked by TLC; every short letter string replayed (CodecGen); random and 20/120/620-boundary traces validated (ProofTrace)",
     "exhaustive over letter strings up to length 5 (good prefixes); random with reference lists up to 700 entries")
prop("P05", "READ accepts exactly the well-formed databases",
     "READ reports no error exactly when the source obeys the language: tokens and keywords in order, comments and inclusions closed, scopes balanced, symbols declared once and active where used, labels unique and legal, every kind of statement of its proper shape, and every variable an assertion depends on typed by exactly one active $f placed before its use. Any source that breaks a rule, however it breaks it, gets an error.",
     ["inputs"], "Every character sequence as a source file, of any size and nesting depth.",
     "Each test is one source file with one or no mistake; acceptance is a claim over all sources and all combinations of mistakes.",
     ["src/mmpars.c"],
     [("keywords and sections", "src/mmpars.c readRawSource, parseKeywords"), ("labels", "src/mmpars.c parseLabels"), ("symbols, scopes, hypotheses", "src/mmpars.c parseMathDecl, parseStatements")],
     ["output of READ (errors or none)"],
     "TLA+ lexer, comment and statement recogniser and database rules (MMSource, MMDatabase); every short source replayed (ReadGen) and random edited sources validated with TLC (ReadTrace)",
     "exhaustive over short statement and token sequences; random sources with one or two edits beyond")
prop("P06", "Frames are derived exactly from scope",
     "For every assertion the mandatory hypotheses (and their order), mandatory and optional distinct-variable pairs, optional hypotheses and required variables are exactly those the scopes around it determine. Nothing from a closed scope remains and nothing active is lost.",
     ["inputs"], "Every nesting of scopes, declaration order, redeclared local variables, $d groups and hypotheses.",
     "The frame of an assertion depends on everything active where it stands; tests look at a few frames.",
     ["src/mmpars.c", "src/mmcmds.c"],
     [("frame construction", "src/mmpars.c parseStatements"), ("frame listing", "src/mmcmds.c typeStatement")],
     ["output of SHOW STATEMENT * / FULL"],
     "TLA+ scope and frame specification (MMDatabase!DbStep, Frame); recorded frames validated with TLC (ReadTrace)",
     "random nested databases: about 5000 frames quick, 100000 thorough")
prop("P07", "Comments and inclusions mean the flattened source",
     "A database written with comments and with $[ $] inclusions anywhere between tokens is the database obtained by putting each file in place at its first inclusion and nothing at later ones (a file including itself or the top-level file included). The statements, frames and proof verdicts are those of the flattened text, and a missing file, an unfinished inclusion or a misplaced comment mark is an error.",
     ["inputs"], "Every way of cutting a source into files to any depth, repeated and circular inclusions, and every placement of comments.",
     "Tests contain one-level inclusions at statement boundaries only.",
     ["src/mmpars.c", "src/mminou.c"],
     [("inclusion", "src/mmpars.c readSourceAndIncludes, readInclude, getNextInclusion"), ("comments", "src/mmpars.c whiteSpaceLen, tokenLen")],
     ["output of READ, SHOW STATEMENT * / FULL, VERIFY PROOF *"],
     "TLA+ expansion machine (MMSource!Expand) composed with recogniser, frames and proof machine; recorded sessions validated with TLC (ReadTrace)",
     "random file trees up to depth 5 with repeated and circular inclusions")
prop("P04", "Every written form of a proof is the same proof",
     "Whatever form a proof is given in, the normal, packed, explicit and compressed texts that SHOW PROOF prints and SAVE PROOF with WRITE SOURCE stores expand to exactly the same tree of steps, unknown steps included, use only the devices of the form asked for, and when packed write no repeated subproof twice. A text that is no proof in its form (damaged targets, labels, references or stack) is reported as wrong, never shown as something else and never changed. A source written after re-encoding is read back without error, keeps every theorem, and gives every theorem the verdict it had, which is the one its steps deserve.",
     ["inputs", "histories"], "Every proof, complete or not, right or wrong, in every input form (with permuted explicit subproofs and any choice of shared subproofs), every sequence of re-encodings and every line width.",
     "Tests convert one or two short proofs; sharing, reordering and renumbering interact in ways only arbitrary proof trees exercise.",
     ["src/mmcmds.c", "src/mmpars.c", "src/mmdata.c", "src/metamath.c"],
     [("re-encoding and printing", "src/mmcmds.c typeProof, src/metamath.c SHOW/SAVE PROOF"), ("squishing and compressing", "src/mmdata.c nmbrSquishProof, nmbrUnsquishProof, src/mmcmds.c compressProof/mmpars.c"), ("explicit form", "src/mmpars.c parseProof")],
     ["output of SHOW PROOF", "file written by WRITE SOURCE", "output of VERIFY PROOF"],
     "TLA+ expansion machine for all five written forms (MMForms); every text the program prints or writes is validated with TLC against the text it was given (FormTrace)",
     "random theorems in random forms: about 20000 texts quick, 200000 thorough")
prop("P08", "WRITE SOURCE gives back the source byte for byte",
     "After READ, WRITE SOURCE without reformatting writes exactly the text that was read, line ends normalised, with every inclusion shown in place between Begin/End marks and repeated ones as Skip marks, and the included files are retired unless they are to be kept; WRITE SOURCE /SPLIT puts every included file and the main file back with exactly their own text, leaving files that did not change untouched. Any such output, when read again in any form, stands for the same source.",
     ["inputs", "histories"], "Every source tree (nested, repeated, circular, already expanded inclusions, foreign line ends, missing final newlines) and every series of reads and writes in one directory.",
     "Tests contain no split and no second generation of a written source.",
     ["src/mmpars.c", "src/mmcmds.c"],
     [("expansion marks", "src/mmpars.c getNextInclusion, readInclude"), ("output", "src/mmpars.c writeSourceToBuffer, writeSplitSource, deleteSplits, src/mmcmds.c writeSource")],
     ["contents of every file in the directory after each session"],
     "TLA+ specification of expansion, whole and split writing and backup of files as sequences of pieces (MMWrite); recorded sessions validated byte for byte with TLC (WriteTrace)",
     "random trees and series of sessions: 2400 quick, 20000 thorough")
prop("P09", "No command loses the contents of an existing file",
     "Whatever command writes a file (WRITE SOURCE, TOOLS, OPEN LOG, an included file being retired), the previous contents survive as version ~1 and older versions move up one place, up to ~9; nothing is dropped except the version that would become ~10, and nothing not concerned is changed. If a rename, open, write or close fails, or the program is killed between any two system calls, every previous contents is still present under some name.",
     ["inputs", "histories", "fault_sequences", "crash_points"], "Every set of existing versions (gaps included), every series of writing commands, every failing call, every kill point.",
     "Needs directories with arbitrary version gaps, failing system calls and kills at chosen calls.",
     ["src/mminou.c", "src/mmpars.c", "src/mmcmds.c", "src/metamath.c"],
     [("backup on opening", "src/mminou.c fSafeOpen"), ("safe rename", "src/mminou.c fSafeRename, fGetTmpName")],
     ["directory contents after a session", "system calls recorded by a preloaded library"],
     "TLA+ specification of versioned files (MMFiles): exhaustive directories x commands generated by TLC and replayed (FilesGen); recorded system-call traces, with injected failures and kills, validated with TLC (FilesTrace)",
     "exhaustive over 2048 directories x commands; every failing or last call of random command series")

prop("P10", "What a proof depends on is told exactly",
     "SHOW TRACE_BACK lists exactly the statements that a theorem's written proof uses directly or through other proofs (with /ESSENTIAL only through logical hypotheses, with /AXIOMS, /MATCH and /TO only the asked ones), opens each proof once in /TREE, and names exactly the unproved theorems among them. SHOW USAGE lists exactly the theorems whose proofs use a statement, directly or in the end. COUNT_STEPS gives the step counts of the fully expanded proof, with any number of digits.",
     ["inputs"], "Every reference graph, every written form of the proofs (gaps, wrong proofs and comments included) and every query.",
     "Axiom-dependency claims rest on these answers; tests look at one trace of one small database.",
     ["src/mmcmds.c", "src/mmdata.c", "src/metamath.c"],
     [("tracing", "src/mmcmds.c traceProof, traceProofWork, traceProofTree"), ("usage", "src/mmcmds.c traceUsage"), ("counting", "src/mmcmds.c countSteps, bigAdd, bigSub"), ("essential steps", "src/mmdata.c nmbrGetEssential")],
     ["output of SHOW TRACE_BACK and SHOW USAGE with every qualifier"],
     "TLA+ reachability over decoded proof trees, with decimal arithmetic for the counts (MMDeps, MMLabels); recorded answers validated with TLC (DepsTrace)",
     "600 random databases with about 30 queries each quick, 8000 thorough")

prop("P11", "Label and symbol matches select exactly what they describe",
     "A label match (wildcards * and ?, ranges from~to, lists, #n, @n, = and %) selects exactly the statements it describes, in order, in every command that takes one. SEARCH lists exactly the selected statements whose formula (with /JOIN preceded by the logical hypotheses in force) contains the symbol pattern, $* standing for any tokens and $? for a character, and with /COMMENTS those whose last preceding comment contains the string in any case; each is shown with its full formula or comment.",
     ["inputs", "histories"], "Every label set, pattern, formula and symbol pattern, after any saves and Proof Assistant sessions.",
     "The matcher backtracks over characters; tests use two patterns.",
     ["src/mmdata.c", "src/metamath.c"],
     [("label matching", "src/mmdata.c matches, matchesList"), ("listing and search", "src/metamath.c SHOW LABELS, SEARCH")],
     ["output of SHOW LABELS, SEARCH and SAVE PROOF"],
     "TLA+ pattern automaton checked by TLC against its declarative meaning for every short pattern, each replayed (LabelGen); recorded sessions validated with TLC (MMLabels, FindTrace)",
     "all 1364 patterns up to length 5 on all labels up to length 4; 1500 random sessions of 24 queries quick, 20000 thorough")

prop("P12", "Unsaved work is never lost without a word, and files change only by WRITE SOURCE",
     "Leaving the Proof Assistant, the program or the database (EXIT, QUIT, ERASE) while the proof or the source differs from what was last saved or written asks first and proceeds only on an answer beginning with y or Y (or /FORCE); any other answer changes nothing. No command other than WRITE SOURCE changes a file's statements, a write that failed does not count as written, and a session in any state ends in order when its input ends.",
     ["histories", "configurations"], "Every history of reading, proving, editing, undoing, saving, writing, erasing and leaving, every answer and every point at which the input ends.",
     "Whether something is unsaved depends on the whole history (saves, undos, failed writes, saves of other theorems).",
     ["src/metamath.c", "src/mmpfas.c", "src/mmcmds.c", "src/mminou.c"],
     [("guards", "src/metamath.c EXIT, QUIT, _EXIT_PA, ERASE, READ"), ("change flags", "g_proofChanged, g_sourceChanged, proofSavedFlag"), ("end of input", "src/mminou.c cmdInput")],
     ["prompts and questions", "SHOW PROOF, SHOW NEW_PROOF after every command", "files re-read", "exit status"],
     "TLA+ state machine of a session (MMSession) whose invariants TLC checks over every short history (SessionGen); each history is replayed in the program and recorded sessions are validated with TLC (SessionTrace)",
     "3500 of the 5220 histories of 4 commands and 760 random sessions quick; all histories of 5 commands (sampled to 45000) and 13000 random sessions thorough")
prop("P13", "UNDO and REDO walk exactly through the states of the proof",
     "In the Proof Assistant every UNDO gives back the complete previous state of the proof (steps, assignments, formulas, user-given formulas) and every REDO exactly the state that was undone, for as many steps as SET UNDO allows, naming the command concerned; a command that changes the proof after UNDO discards what could be redone, a refused command changes neither the proof nor the history. When nothing is left to undo or redo this is said and nothing changes.",
     ["inputs", "histories"], "Every sequence of editing, UNDO, REDO and SET UNDO commands, at every limit.",
     "The history is a bounded stack with overflow; the tests contain no UNDO.",
     ["src/mmpfas.c", "src/metamath.c"],
     [("undo stack", "src/mmpfas.c processUndoStack"), ("commands", "src/metamath.c UNDO, REDO, SET UNDO")],
     ["output of SHOW NEW_PROOF / ALL after every command", "answers of UNDO and REDO"],
     "TLA+ undo history (MMUndo): TLC enumerates every short history with its invariants (UndoGen), each is replayed in the Proof Assistant, and recorded sessions are validated with TLC (AssistTrace)",
     "all histories of up to 4 operations (6 thorough) plus 1400 random sessions quick, 16000 thorough")
prop("P14", "Proof Assistant edits change what they say and nothing else",
     "ASSIGN, DELETE, LET, UNIFY and INITIALIZE act on exactly the step (or work variable) their argument means, change exactly its subproof or formulas, and leave every other step's label in place with its formula unchanged except for consistent replacement of work variables. After every command the steps form one well-formed proof tree in which each known step's formula follows from its hypotheses' formulas by one substitution, and an assignment or formula that is the right one is never refused.",
     ["inputs", "histories"], "Every database, every state of a partial proof and every sequence of commands, with right and wrong assignments and answers.",
     "The tests contain hardly any Proof Assistant session; the interplay of unification and renumbering shows only in arbitrary sequences.",
     ["src/mmpfas.c", "src/mmunif.c", "src/metamath.c", "src/mmcmds.c"],
     [("edits", "src/metamath.c ASSIGN, DELETE, LET, UNIFY, INITIALIZE"), ("steps", "src/mmpfas.c assignStatement, deleteSubProof, initStep, autoUnify, interactiveUnifyStep, replaceDummyVar"), ("unification", "src/mmunif.c unify, uniqueUnif"), ("step arguments", "src/mmcmds.c getStepNum")],
     ["output of SHOW NEW_PROOF / ALL after every command"],
     "TLA+ specification of proof states and of the relation each command stands for (MMAssist); recorded sessions validated step by step with TLC (AssistTrace)",
     "1800 random sessions of up to 25 commands quick, 20000 thorough")
prop("P15", "A correct proof can be entered in any order, saved and verified",
     "Assigning the statements of a correct proof to its steps in any order, with deletions and repairs between, is never refused and never made impossible: the formulas stay consistent with that proof and a formula that only one substitution can give is worked out. The proof is reported complete exactly when no step is unknown or ununified, and what SAVE stores is exactly the steps shown, so that the verifier gives it the verdict those steps deserve.",
     ["inputs", "histories"], "Every correct proof in every order of entry.",
     "Needs complete proofs of arbitrary shape built through the interactive commands.",
     ["src/mmpfas.c", "src/mmunif.c", "src/metamath.c", "src/mmcmds.c"],
     [("assignment and unification", "src/mmpfas.c assignStatement, autoUnify; src/mmunif.c"), ("saving", "src/metamath.c SAVE NEW_PROOF")],
     ["output of SHOW NEW_PROOF / ALL", "SHOW PROOF and VERIFY PROOF after SAVE NEW_PROOF"],
     "TLA+ specification of proof states relative to a known proof (MMAssist!OnTrack, Settled) composed with the verifier's proof machine (MMProof); recorded sessions validated with TLC (AssistTrace)",
     "1500 random guided sessions quick, 16000 thorough")
prop("P16", "IMPROVE, REPLACE and MATCH only put in what fits",
     "Subproofs that IMPROVE finds are complete, belong to the step they were found for and use no statement that may not be used (after the theorem, with distinct-variable conditions under /NO_DISTINCT, or in another mathbox without /INCLUDE_MATHBOXES); IMPROVE ALL finds every step a hypothesis states or statements without logical hypotheses prove. REPLACE puts the named statement at the step with fitting subproofs and leaves the rest; MATCH offers only statements that fit, the right one among them, and assigns what is chosen.",
     ["inputs", "histories"], "Every database, every partial proof and every search option.",
     "The searches backtrack over shared state; the tests contain no IMPROVE beyond the trivial.",
     ["src/mmpfas.c", "src/mmunif.c", "src/metamath.c"],
     [("search", "src/mmpfas.c proveFloating, proveByReplacement, replaceStatement"), ("matching", "src/mmpfas.c interactiveMatch, checkStmtMatch, checkMStringMatch"), ("known steps", "src/mmpfas.c assignKnownSubProofs, assignKnownSteps")],
     ["output of SHOW NEW_PROOF / ALL after every command", "lists offered by MATCH"],
     "TLA+ specification of improved and replaced proof states (MMAssist!Improved, AssistTrace!ReplaceOk, MatchOk); recorded sessions validated with TLC (AssistTrace)",
     "1500 random sessions dominated by the three commands quick, 18000 thorough")
prop("P17", "MINIMIZE_WITH and EXPAND change a proof only as told",
     "MINIMIZE_WITH puts in only statements its patterns and qualifiers allow (none of another mathbox without /INCLUDE_MATHBOXES), introduces no axiom and no forbidden statement (directly or through the theorems it uses) that is not permitted, makes no proof longer without /MAY_GROW, keeps a correct proof correct, keeps everything outside the replaced subproofs, reports the size it reaches, and does not miss a single permitted statement that would shorten the proof at once. EXPAND replaces exactly the references to the selected theorems by their proofs and leaves a proof of the same theorem.",
     ["inputs", "histories"], "Every database, every partial or complete proof, every pattern list and combination of qualifiers.",
     "The qualifiers interact and the searches work on mutable proof state; the tests run MINIMIZE_WITH on a single example.",
     ["src/metamath.c", "src/mmpfas.c", "src/mmcmds.c"],
     [("MINIMIZE_WITH", "src/metamath.c command(), src/mmpfas.c minimizeProof"), ("axioms", "src/mmcmds.c traceProof, traceProofWork"), ("EXPAND", "src/mmpfas.c expandProof")],
     ["output of MINIMIZE_WITH and EXPAND", "SHOW NEW_PROOF / ALL and / COMPRESSED after every command"],
     "TLA+ specification of shortened and expanded proofs (MMMinimize!Minimized, Expanded); recorded sessions validated with TLC (AssistTrace)",
     "1300 random sessions dominated by the two commands quick, 16000 thorough")
prop("P18", "Discouraged statements stay protected",
     "While SET DISCOURAGEMENT is ON, a theorem whose comment says \"(Proof modification is discouraged.)\" is neither opened by PROVE nor replaced by SAVE NEW_PROOF without /OVERRIDE, and no editing command without /OVERRIDE brings a statement marked \"(New usage is discouraged.)\" into a proof that did not use it; unmarked statements and sessions with the setting OFF are not hindered. SHOW DISCOURAGED lists exactly the marked statements and exactly the theorems that use them.",
     ["inputs", "histories"], "Every placement and spelling of the marks in comments, every editing command and every history, including re-reading another version of the source.",
     "Marks are looked up in cached comment texts at many places; the tests contain one marked database.",
     ["src/metamath.c", "src/mmpfas.c", "src/mmdata.c", "src/mmcmds.c"],
     [("marks", "src/mmdata.c getMarkupFlag, getDescription"), ("guards", "src/metamath.c PROVE, ASSIGN, REPLACE, IMPROVE, MINIMIZE_WITH, SAVE NEW_PROOF; src/mmpfas.c interactiveMatch, proveFloating, proveByReplacement"), ("listing", "src/mmcmds.c showDiscouraged")],
     ["prompts", "SHOW PROOF, SHOW NEW_PROOF after every command", "SHOW DISCOURAGED"],
     "TLA+ state machine of a session with marked statements (MMSession!Outcomes, EditAllowed); recorded sessions validated with TLC (SessionTrace)",
     "1800 random sessions of 30 commands quick, 30000 thorough")
prop("P19", "Reformatting a source changes nothing but its layout",
     "WRITE SOURCE /FORMAT and /REWRAP write every token and every comment of the source, in order and at the same place, proofs byte for byte, adding only a placeholder before an $a or $p statement that has no comment. The words of every comment stay; only the comment describing an $a or $p statement is filled anew by /REWRAP (with space around math and label marks and a final period), one with <HTML> in it not even that. The result reads without error with the same verdicts, whole or split into the included files.",
     ["inputs", "configurations"], "Every arrangement of comments, markup and white space between any two tokens, every width and every inclusion.",
     "The layout is rebuilt by string surgery that assumes set.mm's conventions; the tests contain no reformatting.",
     ["src/mmpars.c", "src/mmcmds.c"],
     [("layout", "src/mmpars.c outputStatement, rewrapComment"), ("writing", "src/mmcmds.c writeSource; src/mmpars.c writeSourceToBuffer, writeSplitSource")],
     ["files written by WRITE SOURCE", "VERIFY PROOF before and after"],
     "TLA+ specification of reformatted sources (MMFormat!Lost); recorded runs validated with TLC (LayoutTrace)",
     "1800 random sources quick, 24000 thorough")

prop("P20", "Proof listings show the proof as it is",
     "SHOW PROOF and SHOW NEW_PROOF list exactly the steps that pass the given filters, each with its number, its place in the proof tree, the statement it uses, the hypothesis it serves and the formula it proves. Every reference (hypothesis steps of /LEMMON, local labels, repetitions left out) names the row of the step meant, and an unfiltered listing contains all it refers to. /STATEMENT_SUMMARY lists the statements the proof uses, /DETAILED_STEP the step's hypotheses, parent and substitutions, /SIZE the length of the stored text.",
     ["inputs", "configurations"], "Every proof, in every stored form, complete or not, and every combination of qualifiers.",
     "Numbering, filtering and shared steps interact; the tests list a handful of proofs with one or two qualifiers.",
     ["src/mmcmds.c", "src/metamath.c", "src/mmdata.c"],
     [("listing", "src/mmcmds.c typeProof"), ("details", "src/mmcmds.c showDetailStep, proofStmtSumm"), ("places", "src/mmdata.c nmbrGetTargetHyp, nmbrGetEssential, nmbrGetIndentation")],
     ["output of SHOW PROOF and SHOW NEW_PROOF"],
     "TLA+ specification of listings (MMListing); recorded listings validated row by row with TLC (ListTrace)",
     "15000 listings quick, 250000 thorough")

prop("P21", "A web page says what the database says",
     "SHOW STATEMENT /HTML and /ALT_HTML write exactly the pages of the assertions matched. A page states the assertion, its kind and number, its hypotheses, distinct-variable conditions, allowed-substitution hints and dummy variables, every word, formula and reference of its description, the rows of its proof or syntax breakdown, the syntax, axioms, definitions and unproved theorems it rests on, what refers to it and its neighbours. Every reference leads to the row or page meant, and nothing of a database erased earlier in the session shows.",
     ["inputs", "histories"], "Every database, every comment, every proof in any stored form, complete or not.",
     "A page is assembled from a dozen separately computed parts; the tests contain three pages.",
     ["src/mmcmds.c", "src/mmwtex.c", "src/metamath.c"],
     [("page", "src/mmcmds.c typeStatement, htmlAllowedSubst, htmlDummyVars; src/mmwtex.c printTexHeader"), ("proof table", "src/mmcmds.c typeProof"),
      ("description", "src/mmwtex.c printTexComment, printTexLongMath")],
     ["pages written by SHOW STATEMENT /HTML, /ALT_HTML"],
     "TLA+ specification of web pages (MMPages!Page); recorded pages validated part by part with TLC (PageTrace)",
     "1600 pages of 170 sessions quick, 25000 thorough")

prop("P22", "An extracted database is self-contained",
     "WRITE SOURCE /EXTRACT keeps exactly the matched assertions, all assertions their proofs rest on, the hypotheses, distinct-variable conditions, scopes and declarations these need, the description in front of each, the section headings above them and the markup, in the order and the words of the source. The file written reads without error; each assertion in it has the hypotheses, formula, conditions and verdict it had. A reference to a statement left behind becomes one to the web, and a symbol no longer declared is declared at the end, so that markup stays valid.",
     ["inputs", "configurations"], "Every database, every label pattern, every arrangement of scopes, declarations, comments and headings.",
     "Statements are picked by a dozen rules over whole-database tables and the text is edited as strings; the tests contain no /EXTRACT.",
     ["src/mmcmds.c", "src/mmwtex.c"],
     [("selection and text", "src/mmcmds.c writeExtractedSource, fixUndefinedLabels"), ("headings", "src/mmwtex.c getSectionHeadings"), ("dependencies", "src/mmcmds.c traceProof, traceProofWork")],
     ["file written by WRITE SOURCE /EXTRACT", "VERIFY PROOF before and after"],
     "TLA+ specification of extracts (MMExtract!Extract, SelfContained); recorded extracts compared with TLC (ExtractTrace)",
     "2400 extracts of 600 databases quick, 32000 thorough")

prop("P23", "However it is given, a command is carried out as typed in full",
     "A command abbreviated to any unambiguous beginning of its keywords, quoted, spaced, with its tail left to be asked for, given as an argument of the program or in a command file (nested files included, each continued where it was left) is carried out exactly like the same command typed in full at the prompt, in the order given; an incomplete, ambiguous or overlong one is refused with a message that names the choices and points at the word, and does nothing. A /SILENT command file shows nothing, a log file records everything from its opening to its closing, shown or not, and an earlier log of the same name is kept as an older version. Each question offers the setting in force as its default.",
     ["inputs", "histories"], "Every way of writing every described command, every nesting of command files, every interleaving with logs and settings.",
     "The interpreter keeps word positions, prompts, nesting levels, silence and logs in globals changed at many places; the tests run one command per line from one script.",
     ["src/mmcmdl.c", "src/mminou.c", "src/metamath.c"],
     [("words and keywords", "src/mmcmdl.c parseCommandLine, processCommandLine, getFullArg"), ("lines", "src/mminou.c cmdInput1, print2"), ("scripts and logs", "src/metamath.c SUBMIT, OPEN LOG, CLOSE LOG")],
     ["screen of the session", "log files and their older versions"],
     "TLA+ state machine of the command interpreter (MMScripts!SStep); TLC derives from it what a session shows, records and carries out (ScriptPlan), replayed on the program",
     "1500 random sessions quick, 24000 thorough")
prop("P24", "The text tools transform files as their help describes",
     "Each TOOLS command (ADD, TAG, DELETE, CLEAN, SUBSTITUTE, SWAP, INSERT, RIGHT, BREAK, BUILD, MATCH, SORT, REVERSE, UNDUPLICATE, DUPLICATE, UNIQUE, PARALLEL, NUMBER, COUNT, TYPE, COPY) makes of the lines of its input files exactly the lines its help text says, for any file, including empty ones, ones without a last line end and lines of any length, whatever commands came before. It writes only its output file, whose former content is kept as version ~1 and older versions move up (an input f~n is written to f), leaves no temporary file, and a command that is refused changes nothing. The numbers of lines and of changed lines, and the first changed or first output line, are reported truly.",
     ["inputs", "histories"], "Every command on every file and argument, in every order, with every set of older versions present.",
     "The tools share line buffers and counters between commands and keep a dozen special cases in one loop; no test of the suite runs them.",
     ["src/metamath.c", "src/mmvstr.c", "src/mmdata.c", "src/mminou.c", "src/mmhlpa.c"],
     [("the commands", "src/metamath.c command(), g_toolsMode part"), ("strings", "src/mmvstr.c edit, instr, left, right, linput"), ("sorting", "src/mmdata.c qsortStringCmp"), ("writing", "src/mminou.c fSafeOpen, fSafeRename")],
     ["the directory after each command", "what each command says"],
     "TLA+ specification of the text tools on directories with versions (MMTools); laws checked by TLC on all short files (ToolLaws), whose commands are all replayed; sessions recorded from the program validated step by step (ToolTrace)",
     "all files of up to 3 of 4 lines x 130 commands and 400 random sessions of 14 commands quick; 6 lines and 8000 sessions thorough")
prop("P25", "VERIFY MARKUP reports every broken convention and no other",
     "For every database VERIFY MARKUP reports, once each, exactly the departures from the conventions it documents: labels that are reserved, contain an underscore or lack ax- or df-; symbols with @ or ?; lines that are too long or have tabs or final spaces; missing, doubled, misplaced or malformed contributor, reviser and shortener tags and dates that contradict each other or the version of the file; missing or misplaced discouragement marks; axioms that differ from the theorem of the same name; and references from a mathbox to an earlier one. Label pattern and qualifiers restrict this as described, earlier databases of the session have no influence, and \"No errors were found\" is said exactly when nothing is reported.",
     ["inputs", "configurations", "histories"], "Every database, every form of a description, every pattern and combination of qualifiers, every database read before.",
     "The audit is one long function with reused variables and cached comment data; the tests run it on one clean database.",
     ["src/mmcmds.c", "src/mmdata.c", "src/mmwtex.c"],
     [("audit", "src/mmcmds.c verifyMarkup"), ("tags and dates", "src/mmdata.c getContrib, parseDate, compareDates, getMarkupFlag"), ("mathboxes", "src/mmwtex.c assignMathboxInfo, getMathboxLoc")],
     ["output of VERIFY MARKUP"],
     "TLA+ specification of the audit (MMMarkup: findings per statement, line, symbol and mathbox); recorded audits validated with TLC (MarkupTrace)",
     "2700 audits of 900 databases quick, 36000 thorough")
