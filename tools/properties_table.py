TRUST = ('Trusted: the verifier vf itself (SSA construction by golang.org/x/tools, translation to SMT), the solvers, and its model of Go: '
         'integers mathematical, no concurrency, append never writes into spare capacity shared with another slice. ')
prop('P01', 'Change report totals agree with the listed changes',
 'For every change report, at every element of it, the total number of changes reported equals the number of changes listed for that element and everything below it, and the number of breaking changes reported equals the number of those listed changes that are marked breaking. Every nested report is counted exactly once.',
 'every report of every element type: any numbers of own changes, any nested reports present or absent, any lengths of nested lists and maps',
 'The tests compare a few document pairs; totals, breaking totals and lists are three hand-written traversals per element type (some 35 types), and an omission only shows when that one nested report is present and counted.',
 ['what-changed/model/*.go'],
 [('TotalChanges / TotalBreakingChanges / GetAllChanges of every element', 'what-changed/model'), ('CountBreakingChanges', 'what-changed/model/comparison_functions.go')],
 note=TRUST + 'Nested reports are used through their own contracts. Extension and example-map reports are assumed to hold no breaking change. One known finding (breaking changes below allOf are counted twice).')
prop('P04', 'Runtime expressions are parsed exactly as the Arazzo grammar says',
 'A runtime expression is accepted exactly when it belongs to the Arazzo expression grammar, whatever its text, and the parts reported for it are exactly the parts written: put back together they make up the input. A text with embedded expressions is split into tokens that put back together are the text, and is rejected exactly when one of its expressions is unclosed or not in the grammar. Parsing never panics.',
 'every string', 'The tests parse a few dozen strings; off-by-one slices, characters left out of the token alphabet or a wrong separator only show on particular strings.',
 ['arazzo/expression/parser.go', 'arazzo/expression/expression.go'],
 [('the parser and its per-kind helpers', 'arazzo/expression/parser.go'), ('embedded expressions', 'arazzo/expression/parser.go')],
 note=TRUST + 'Parse and its helpers are proved; the header token alphabet (a table filled at start-up) is checked entry by entry and the splitting of texts with embedded expressions by a bounded run.')
prop('P02', 'Document comparison reports each difference, with the rule-given breaking flag',
 'Comparing a document with a copy of itself reports nothing. A property of an element that is modified, added or removed (paths, webhooks, info, servers, tags, security, schemas and security schemes, at any depth; a boolean false counts as absent) is reported as that kind of change, under its own name, with the old and new text. Its breaking flag is the one the active rule configuration gives for that element, property and kind of change.',
 'every property of every element kind, every old and new value, every rule configuration',
 'The tests check selected properties with the default rules; a property compared under another name, a hard-coded flag, a rule taken from the wrong element or a removed-versus-added mix-up shows only for that property, that kind of change and a configuration where the rules differ.',
 ['what-changed/model/comparison_functions.go', 'what-changed/model/change_types.go', 'what-changed/model/breaking_rules*.go', 'what-changed/model/*.go'],
 [('CheckProperties, the removal/addition/modification checks and CreateChange', 'what-changed/model/comparison_functions.go'), ('which property is checked under which rule, per element', 'what-changed/model')],
 note=TRUST + 'Proved: the core (rule to flag, classification, texts, locations) that every element comparison goes through. Bounded: that each element hands the right property, label and rule to the core is an executable contract run over every property of a document with every element kind, each with the default rules and with that one rule inverted.')

prop('P05', 'A runtime expression evaluates to the value it names, or to an error',
 'Evaluating a parsed expression against a context gives exactly the value the expression names there (header, query, path, body, step, workflow, source or component value) and an error exactly when there is none; never a value together with an error, and never a value of another step, kind or side. A JSON pointer into a body leads to the value its unescaped tokens name one after the other (first matching key, in-range index), scalars as Go values of their tag.',
 'every expression, every context with set entries, every body tree, every pointer',
 'The tests evaluate a few expressions each; a lookup in the wrong map, an escape undone in the wrong order or a pointer token that is empty, repeated or out of range only shows for that combination.',
 ['arazzo/expression/evaluator.go'],
 [('Evaluate, component and step tails', 'arazzo/expression/evaluator.go'), ('resolveJSONPointer, yamlNodeToValue', 'arazzo/expression/evaluator.go')],
 note=TRUST + 'Evaluate, its lookups, unescaping and scalar conversion are proved for every context. That the pointer walk visits exactly the nodes named by the tokens (and never dereferences an empty place) is bounded: run against a recursive oracle on random trees. "/" names the whole value, a trailing slash is ignored (pinned by tests).')

prop('P06', 'A criterion holds exactly when its condition says so',
 'A simple condition "left op right" holds exactly when the values of its operands compare that way (as numbers when both are numbers, otherwise as text); operators inside quoted operands are text. A regex or JSONPath criterion holds exactly when the pattern matches, or the path selects something in, the value of its context. An operand, context or pattern that has no value is an error, never true; several criteria hold exactly when all hold. Caching changes no verdict and nothing panics.',
 'every condition text, context value and list of criteria, with cold and warm caches',
 'The tests evaluate a few dozen conditions with friendly operands; numeric-looking text, truth-value literals, operators inside operands, quote characters and cache reuse only show on particular texts.',
 ['arazzo/criterion.go', 'arazzo/actions.go', 'arazzo/step.go'],
 [('EvaluateCriterion and its three kinds', 'arazzo/criterion.go'), ('evaluateActionCriteria, evaluateStepSuccessCriteria', 'arazzo/actions.go')],
 note=TRUST + 'Proved: operands, comparison, the decision of simple conditions and contexts, dispatch by kind, all-of over lists. Criteria and expression evaluation are taken to be functions of their arguments (the caches are left out of the proof); splitting at the operator, regular expressions, JSONPath and cache transparency are bounded runs.')
prop('P07', 'Workflows run the steps, retries, jumps and dependencies they describe',
 'A workflow runs its steps in order; after each step the first applicable action (the step\'s own before the workflow\'s) alone decides: end, jump to exactly the named step, run another workflow, or retry, at most retryLimit (default 1) times in a row after the given wait. A step that fails without applicable action fails the workflow. A run takes at most 1024 steps and 32 nested workflows, a failed run says why, and with dependencies every workflow runs after, and only if, its dependencies succeeded; circular ones are an error.',
 'every set of workflows, steps, actions and criteria, every sequence of responses', 'The tests run a few small workflows; which action wins, how often a step is retried after jumps, or what a failed dependency stops depends on combinations of criteria, responses and order.',
 ['arazzo/engine.go', 'arazzo/actions.go', 'arazzo/step.go'],
 [('runWorkflow, RunAll, topologicalSort', 'arazzo/engine.go'), ('action selection and effect', 'arazzo/actions.go')],
 over=('inputs', 'histories'),
 note=TRUST + 'Proved: which action is selected and what it does, the retry bound per attempt, the 1024-step bound, results that say why, dependency gating. Assumed: executeStep, newExpressionContext and populateWorkflowOutputs return and leave the engine alone. The sequence of calls and waits, the order of RunAll and nested runs are bounded: compared with an independent interpreter on random workflows.')
