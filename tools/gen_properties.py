#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=None
    P.append(d)
RT='viennamath/runtime/'; MA='viennamath/manipulation/'; CT='viennamath/compiletime/'

p('P01','Runtime evaluation returns the mathematical value of the expression',
  'For every runtime expression built from numbers, variables, the four arithmetic operations and the elementary functions, evaluating it at a point gives the value of that formula at that point, up to the rounding of double arithmetic. Every way of evaluating (call operator with a scalar, a std::vector, a small compiletime vector or a constant; the eval functions; on expressions, variables, constants, unary and binary expression objects) gives the same value. Evaluation never changes the expression.',
  ['inputs','programs'],'all expression trees (any depth, any variable index, any constants) and all evaluation points, through every evaluation entry point',
  'The tests evaluate a handful of small expressions at one point (4,6,8); they reach no deep trees, large variable indices, unusual constants or most entry points.',
  [RT+'expr.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'variable.hpp',RT+'constant.hpp',MA+'eval.hpp',MA+'detail/unary_operations.hpp',MA+'detail/binary_operations.hpp',CT+'unary_op_tags.hpp',CT+'binary_op_tags.hpp'],
  [('eval(vector), eval(double)',RT+'binary_expr.hpp, '+RT+'unary_expr.hpp'),('operation tags apply()',CT+'binary_op_tags.hpp, '+CT+'unary_op_tags.hpp'),('operator() overloads',RT+'expr.hpp')],
  ['return value of every evaluation entry point'])

p('P02','Simplification preserves the value, terminates and reaches a fixpoint',
  'Simplifying any runtime expression terminates and yields an expression that has the same value as the original wherever the original has a finite value (function symbols, gradients and integrals count as opaque), leaving the argument of the non-inplace form unchanged. The result cannot be simplified further: it contains no addition or subtraction of zero, no multiplication by zero or one, no zero numerator and no division by one, and an arithmetic expression of numbers only reduces to a single number.',
  ['inputs','programs'],'all runtime expression trees, including function symbols, gradients, partial derivatives and integrals, and all evaluation points',
  'The tests print simplified expressions for a few hand-written formulas and do not compare values before and after; rule interactions and nesting are not sampled.',
  [MA+'simplify.hpp',MA+'detail/binary_operations.hpp',MA+'detail/unary_operations.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'vector_expr.hpp'],
  [('simplify()/can_simplify() per operation',MA+'detail/binary_operations.hpp, '+MA+'detail/unary_operations.hpp'),('inplace_simplify loop',MA+'simplify.hpp')],
  ['tree of the simplified expression, read back through the public accessors'])

p('P03','Symbolic differentiation gives the derivative',
  'Differentiating any runtime expression made of numbers, variables, arithmetic and differentiable elementary functions with respect to any variable yields an expression whose value is the partial derivative of the original at every point where it is differentiable. This holds for repeated and mixed differentiation too. Neither the expression nor the differentiation variable is changed.',
  ['inputs','programs'],'all expression trees over + - * /, exp, sin, cos, tan, sqrt, log, log10, all differentiation variables (present or not), derivative orders one and two, all points of differentiability',
  'The tests only print derivatives of a few expressions or check one value; chain, quotient and product rules under composition are not settled by them.',
  [MA+'diff.hpp',MA+'detail/binary_operations.hpp',MA+'detail/unary_operations.hpp',RT+'variable.hpp',RT+'constant.hpp'],
  [('diff_impl per operation',MA+'detail/binary_operations.hpp, '+MA+'detail/unary_operations.hpp'),('diff of leaves',RT+'variable.hpp, '+RT+'constant.hpp')],
  ['value of the derivative against forward-mode dual numbers evaluated on an independent copy of the tree'])

p('P04','Substitution replaces exactly the occurrences of the target',
  'Substituting a target (variable, constant, function symbol or whole subexpression) in a runtime expression yields an expression equivalent to the original with every occurrence of the target replaced and nothing else changed; inserted replacements are not searched again, so a replacement may contain the target. Substituting several targets at once is simultaneous (swapping two variables works). The original expression, the target and the replacement stay unchanged; bounds and variable of an integral belong to the integral and are not targets.',
  ['inputs','programs'],'all expression trees, all targets (leaf or compound, present or absent), all replacements including ones containing the target, single and simultaneous substitution',
  'The tests substitute a few variables in fixed expressions and print the outcome; no test covers compound targets, overlapping targets or self-referential replacements in nested positions.',
  [MA+'substitute.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'variable.hpp',RT+'constant.hpp',RT+'function_symbol.hpp',RT+'vector_expr.hpp'],
  [('virtual substitute (single and list)',RT+'binary_expr.hpp and the other node classes'),('substitute overloads',MA+'substitute.hpp')],
  ['tree and value of the result against a reference substitution on a model tree'])

p('P05','Structural equality is exact',
  'Deep comparison of two runtime expressions reports equality if and only if they are the same tree: same operations in the same positions, same numbers (whichever scalar type they were given in), same variable indices, same function symbols and tags, same integration intervals and variables, same vector length and entries. It is therefore reflexive, symmetric and transitive, a clone always equals its original, and comparing never reads outside an operand or changes it.',
  ['inputs','programs'],'all pairs of expression trees, in particular pairs differing in exactly one position',
  'No test calls the comparison directly; it is only exercised implicitly by substitutions of matching targets, never on near misses.',
  [RT+'expression_interface.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'unary_operators.hpp',RT+'binary_operators.hpp',RT+'vector_expr.hpp',RT+'integral.hpp',RT+'variable.hpp',RT+'constant.hpp',RT+'function_symbol.hpp'],
  [('deep_equal/shallow_equal',RT+'*.hpp'),('operation comparison',RT+'unary_operators.hpp, '+RT+'binary_operators.hpp, '+RT+'integral.hpp')],
  ['result of deep comparison against equality of model trees'])

p('P06','No memory error, undefined behaviour or leak in any sequence of operations',
  'No sequence of successful public operations (building, copying, assigning, comparing, evaluating, simplifying, differentiating, substituting, traversing, integrating, printing, LaTeX output, in any order, with any aliasing between arguments and targets) reads or writes invalid memory, uses uninitialised values, executes undefined behaviour or leaks memory. Rejected operations do not corrupt anything either: afterwards all objects can still be used and destroyed.',
  ['histories','inputs'],'all finite sequences of public operations over a pool of expression objects of every class',
  'The tests run a fixed straight-line sequence without sanitizers, so use-after-free, double deletion, leaks or out-of-bounds reads in other sequences stay invisible.',
  [RT+'expr.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'vector_expr.hpp',RT+'interval.hpp',RT+'equation.hpp',RT+'numerical_quadrature.hpp',RT+'functor_wrapper.hpp',MA+'latex.hpp',MA+'detail/unary_operations.hpp',MA+'detail/binary_operations.hpp','viennamath/exception.hpp'],
  [('ownership through auto_ptr and clone()',RT+'expr.hpp, '+RT+'binary_expr.hpp, '+RT+'unary_expr.hpp'),('ownership transfer of raw results',MA+'detail/*.hpp')],
  ['sanitizer reports (address, undefined, leak) and memcheck reports on randomized histories'])

p('P07','Expression objects are values: copies are independent, arguments untouched',
  'Copying or assigning an expression object (expression wrapper, unary, binary or vector expression, interval, equation) from any compatible object, including itself or a part of itself, makes the target denote the same formula as the source. From then on source and target are independent: no later operation on one changes what the other denotes, and no operation changes an object it receives as a constant argument.',
  ['histories'],'all sequences of constructions, copies, assignments between the different expression classes, in-place operations and destructions, including self-assignment and assignment from a subexpression of the target',
  'The tests assign a few freshly built expressions and print them; they do not modify one copy and inspect the other, nor assign across classes or from own subexpressions.',
  [RT+'expr.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'vector_expr.hpp',RT+'interval.hpp',RT+'equation.hpp'],
  [('copy constructors and assignment operators',RT+'*.hpp'),('clone()',RT+'*.hpp')],
  ['shadow model of every live object compared after every step'])

p('P08','Operators on any mix of operand types build the denoted formula',
  'Combining any two operands among plain numbers, runtime constants of any scalar type, runtime variables, function symbols, unary, binary and wrapped runtime expressions and compiletime constants, variables and expressions by + - * / yields an object that denotes exactly that operation on these operands in that order. The same holds for the elementary functions applied to constants, variables and unary, binary and wrapped expressions, runtime or compiletime. In particular the value agrees no matter which of the operand types was used to spell an operand.',
  ['inputs','programs'],'all ordered pairs of operand types, all four operators, all unary functions, all operand values',
  'The overload set has hundreds of combinations; the tests use a few dozen of them with fixed values and mostly print the result.',
  [RT+'operations/rt_rt.hpp',RT+'operations/constant.hpp',RT+'operations/function_symbol.hpp',CT+'operations/ct_expr.hpp',CT+'operations/ct_variable.hpp',CT+'operations/ct_constant.hpp',CT+'operations/ct_ct.hpp',MA+'detail/unary_operations.hpp'],
  [('generic operator templates',RT+'operations/rt_rt.hpp'),('compiletime/runtime operators',CT+'operations/*.hpp'),('unary function overloads',MA+'detail/unary_operations.hpp')],
  ['tree of the result read back, and its value, against the denoted operation'])

p('P09','Compiletime expressions evaluate to their value and convert faithfully',
  'A compiletime expression evaluated at a runtime vector gives the value of the formula at that point, and evaluated at a vector of compiletime constants yields the same value. Converting or assigning it to a runtime expression gives a runtime expression with the same value everywhere. The same formula written with compiletime and with runtime variables therefore agrees.',
  ['programs','inputs'],'all compiletime expression types over + - * / with integer constants and variables, and all evaluation points',
  'A compiletime expression is a type: each test fixes a few types, while the property ranges over all types the template machinery can be instantiated with.',
  [CT+'ct_binary_expr.hpp',CT+'ct_unary_expr.hpp',CT+'ct_constant.hpp',CT+'ct_variable.hpp',CT+'ct_vector.hpp',MA+'eval.hpp',RT+'binary_expr.hpp',RT+'expr.hpp',CT+'operations/ct_expr.hpp',CT+'operations/ct_ct.hpp'],
  [('compiletime operator overloads',CT+'operations/*.hpp'),('call operator of compiletime expressions',CT+'ct_binary_expr.hpp'),('conversion constructors',RT+'binary_expr.hpp, '+RT+'unary_expr.hpp'),('compiletime evaluation',MA+'eval.hpp')],
  ['values printed by generated programs against exact rational arithmetic'])

p('P10','Compiletime simplification and expansion preserve the rational function',
  'Simplifying or expanding any compiletime expression that does not divide by a literal zero compiles and yields an expression denoting the same rational function: exactly equal values at every rational point where the original is defined. Constant subexpressions are combined with exact rational arithmetic, and an expanded polynomial contains no product of sums.',
  ['programs','inputs'],'all compiletime expression types over + - * / with integer constants and variables',
  'Each simplification rule is a partial template specialization; the tests instantiate a few dozen types, so wrong results or ambiguities for other shapes are not noticed.',
  [MA+'simplify.hpp',MA+'expand.hpp','viennamath/forwards.h'],
  [('simplification specializations',MA+'simplify.hpp'),('expansion specializations',MA+'expand.hpp'),('greatest common divisor','viennamath/forwards.h')],
  ['structure of the resulting type printed by generated programs, evaluated in exact rational arithmetic'])

p('P11','Compiletime differentiation and substitution are correct',
  'The compiletime derivative of any compiletime expression over + - * / with respect to any variable is the exact derivative of that rational function. Compiletime substitution replaces exactly the occurrences of the target (constant, variable or subexpression) and nothing else.',
  ['programs','inputs'],'all compiletime expression types over + - * /, all variables, all targets and replacements',
  'The tests print derivatives of a few types; the property ranges over all expression types and is decided by template instantiation.',
  [MA+'diff.hpp',MA+'substitute.hpp'],
  [('compiletime diff specializations',MA+'diff.hpp'),('compiletime substitute specializations',MA+'substitute.hpp')],
  ['structure of the resulting type, evaluated in exact rational arithmetic'])

p('P12','Compiletime integration of polynomials is exact',
  'Integrating a compiletime polynomial over an interval with respect to one of its variables yields the exact definite integral as a function of the remaining variables. This holds for constant bounds and for bounds that depend on other variables, for nested (iterated) integration, and for any degree supported by the template machinery.',
  ['programs','inputs'],'all polynomials of bounded degree in several variables with integer and rational coefficients, all bounds, nesting up to three integrations',
  'The tests print a few nested integrals; a wrong coefficient for one power or a lost term for another polynomial would not be noticed.',
  [MA+'integrate.hpp',MA+'coefficient.hpp',MA+'drop_dependent_terms.hpp',MA+'expand.hpp',MA+'simplify.hpp',CT+'ct_interval.hpp'],
  [('integration of monomials and summation',MA+'integrate.hpp'),('collection of coefficients',MA+'coefficient.hpp')],
  ['value of the result in exact rational arithmetic against an independent polynomial integrator'])

p('P13','Coefficient extraction and dropping of dependent terms decompose a polynomial',
  'For every compiletime expression that is affine in a variable, the extracted coefficient of that variable and the expression without the terms depending on it are both free of that variable, and variable times coefficient plus remainder equals the original. More generally, dropping dependent terms keeps exactly the terms that do not contain the variable, and extracting a coefficient keeps exactly the cofactors of the terms that do.',
  ['programs','inputs'],'all compiletime sums of products over several variables, with rational coefficients, and every extraction variable',
  'The tests print two examples; sums, differences, nested products and quotients in other arrangements are other template instantiations.',
  [MA+'coefficient.hpp',MA+'drop_dependent_terms.hpp'],
  [('coefficient specializations',MA+'coefficient.hpp'),('drop_dependent_terms specializations',MA+'drop_dependent_terms.hpp')],
  ['structure of the resulting types, evaluated in exact rational arithmetic'])

p('P14','Numerical quadrature applies the selected rule to the right integrand',
  'Integrating over an interval with the one-point Gauss rule returns the interval length times the integrand at the midpoint, with the integration variable replaced by the midpoint and all other structure kept; it is thus exact for affine integrands, changes sign when the bounds are swapped, and is additive over sums and differences of integrals. Evaluating an integral expression and evaluating interval, integrand and variable separately agree, for copies of the quadrature object as well. Expressions that contain no evaluable integral are rejected with an exception, and the arguments are not changed.',
  ['inputs','programs'],'all integrands, integration variables, finite constant intervals in either orientation, and sums and differences of integral terms',
  'The tests evaluate one or two fixed integrals and print the value.',
  [RT+'numerical_quadrature.hpp',RT+'integral.hpp',RT+'interval.hpp'],
  [('quadrature rule and dispatch over sums',RT+'numerical_quadrature.hpp'),('integral operation',RT+'integral.hpp')],
  ['returned value against the midpoint rule on a model tree'])

p('P15','Requests that cannot be answered are rejected, and only those',
  'Evaluating an expression that contains a function symbol, a gradient, divergence, partial derivative, integral or vector, or a variable with index outside the given point, differentiating something that is not differentiable by the library, or asking for the number in a non-constant expression throws an exception rather than returning a value. Expressions free of such parts are evaluated without exception. The rejected expression stays usable and unchanged, and the exception carries a readable, stable message.',
  ['inputs','fault_sequences'],'all expressions with an offending node at any position and any depth, all point lengths, all operations listed, alternating with successful operations',
  'No test triggers an error path at all.',
  ['viennamath/exception.hpp',RT+'variable.hpp',RT+'function_symbol.hpp',RT+'vector_expr.hpp',RT+'integral.hpp',MA+'detail/unary_operations.hpp',MA+'diff.hpp'],
  [('exception classes','viennamath/exception.hpp'),('bounds check of variables',RT+'variable.hpp')],
  ['exception or return value of every call, and the expression read back afterwards'])

p('P16','LaTeX output denotes the expression',
  'The LaTeX text produced for any expression, interval or equation, read by the usual conventions, denotes the same formula: grouping of sums, differences, products and fractions is preserved by the parentheses and fraction bars, operations and their operands are in place, and numbers are shown to the displayed precision. Different formulas of the same leaf names never collapse to one text with a different meaning. Output does not change the expression and is the same every time.',
  ['inputs','programs'],'all expression trees including function symbols, gradients, partial derivatives and integrals',
  'The tests only print LaTeX to the console; nobody parses it back.',
  [MA+'latex.hpp'],
  [('processors per node type',MA+'latex.hpp'),('translator dispatch',MA+'latex.hpp')],
  ['text parsed by an independent parser and evaluated against the model tree'])

p('P17','LaTeX customization applies exactly to the customized symbols, also in copies',
  'After replacing the text of variables or function symbols (by any non-empty text), or registering an own processor for a whole node type, in a LaTeX translator, exactly those symbols appear with the new text in all later output and all others appear as before. A copied or assigned translator behaves like its source at the time of the copy; later changes to one do not affect the other.',
  ['histories','inputs'],'all sequences of customizations, copies, assignments and outputs over several translators',
  'The tests customize one translator once and print.',
  [MA+'latex.hpp'],
  [('customize and add_processor of the processors',MA+'latex.hpp'),('translator copy',MA+'latex.hpp')],
  ['output text against a shadow copy of each translator state'])

p('P18','Traversal visits every node exactly once in the documented order',
  'A recursive traversal of a runtime expression calls the visitor exactly once for every node it is allowed to reach: binary expressions left operand, then the node, then right operand; unary expressions the node before its operand; vectors are visited as a whole. If the visitor declines to step into a node, that node is still visited and nothing below it is. It is asked once for each node with operands, so that either all or nothing below the node is visited, even if its answers depend on what happened before. Type-filtered callbacks fire exactly for the nodes of the requested type.',
  ['inputs','programs'],'all expression trees, all step-into decisions (arbitrary predicates), all node types in filtered callbacks',
  'The tests run no traversal with a recorded visit sequence.',
  [RT+'functor_wrapper.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'expression_interface.hpp'],
  [('recursive_traversal',RT+'*.hpp'),('step_into',RT+'functor_wrapper.hpp'),('callback_if_castable',RT+'functor_wrapper.hpp')],
  ['recorded visit log against the log computed from the model tree'])

p('P19','Recursive manipulation rewrites exactly the selected nodes',
  'Running a user-defined manipulation over a runtime expression produces a new expression in which every topmost node selected by the manipulation is replaced by what the manipulation returns for it and every other inner node is rebuilt with the same operation over its rewritten operands. Replaced subtrees are not searched again, vectors and other leaves are handed to the manipulation as a whole, the source expression is not changed, and the result shares nothing with it.',
  ['inputs','programs'],'all expression trees and all selection predicates',
  'The tests do not check the outcome of any user-defined manipulation.',
  [RT+'functor_wrapper.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'vector_expr.hpp'],
  [('recursive_manipulation',RT+'*.hpp'),('modifies',RT+'functor_wrapper.hpp')],
  ['tree of the result against the rewrite computed on the model tree'])

p('P20','Coordinate transformation expands gradients and divergences exactly',
  'Applying a Cartesian coordinate system of dimension one, two or three to an expression or equation replaces exactly the gradients of the unknown and test function by the vectors of their partial derivatives, and products of such vectors become their inner products by simplification; every other part of the expression keeps its meaning. The dimension decides the number of terms. The source expression or equation is not changed.',
  ['inputs','programs'],'all weak-form-like expressions and equations combining gradients, divergences, integrals, coefficients and function symbols, all three dimensions',
  'The tests print transformed weak forms without checking them.',
  [MA+'apply_coordinate_system.hpp',RT+'vector_expr.hpp'],
  [('apply_coordinate_system',MA+'apply_coordinate_system.hpp'),('vector product',RT+'vector_expr.hpp')],
  ['value of the transformed expression under an interpretation of functions as polynomials'])

p('P21','Derivatives with respect to function symbols are Gateaux derivatives',
  'Differentiating a runtime expression with respect to a function symbol treats the symbol as the unknown: the result is the directional rule by which products, quotients, elementary functions and gradients of the symbol are linearised, with other function symbols and variables held fixed. Differentiating a function symbol object itself with respect to a variable gives its partial derivative with that index, so that the result agrees with the total derivative for any concrete functions inserted. Linearising an expression that is linear in the symbol and its gradient is exact.',
  ['inputs','programs'],'all expressions over variables, function symbols with different indices and tags, arithmetic and differentiable functions',
  'The tests print one linearisation.',
  [RT+'function_symbol.hpp',MA+'diff.hpp',MA+'detail/unary_operations.hpp'],
  [('diff of function symbols',RT+'function_symbol.hpp'),('gradient linearisation',MA+'detail/unary_operations.hpp')],
  ['value of the result against dual numbers with concrete functions inserted'])

p('P22','Vector expressions compute componentwise and multiply to inner products',
  'A vector expression of any length keeps its length and entries through copying, cloning and resizing; simplification, substitution and differentiation act on each entry separately. Simplifying the product of two vectors of equal length gives their inner product. Comparison of vectors takes length and all entries into account.',
  ['inputs','programs'],'all vector lengths, all entry expressions, all nestings of vectors in products and sums with scalars',
  'The tests contain no vector expression apart from those created inside one printed coordinate transformation.',
  [RT+'vector_expr.hpp',RT+'binary_expr.hpp',MA+'detail/binary_operations.hpp'],
  [('vector entry-wise operations',RT+'vector_expr.hpp'),('inner product in multiplication',RT+'vector_expr.hpp')],
  ['entries read back and evaluated against componentwise reference values'])

p('P23','Symbolic integration domains are replaced by identifier only',
  'Replacing a symbolic integration domain by a concrete interval and variable turns exactly the integrals over the domain with that identifier into integrals over the given interval with respect to the given variable, at any nesting depth outside vectors. Integrands, integrals over other domains and everything else keep their meaning, and the source is unchanged.',
  ['inputs','programs'],'all expressions with several (also nested) symbolic integrals with equal and different identifiers in any position',
  'The tests use a single domain with the default identifier.',
  [MA+'substitute.hpp',RT+'symbolic_interval.hpp',RT+'integral.hpp',RT+'equation.hpp'],
  [('interval substitution',MA+'substitute.hpp'),('symbolic integral operation',RT+'integral.hpp')],
  ['tree of the result against the replacement on the model tree'])

p('P24','Textual output determines the expression',
  'The text printed for a runtime expression is a faithful, fully parenthesised rendering of its tree: parsing it gives back the same operations, operand order, variable indices, function symbols and numbers (to the printed precision). Printing is deterministic, does not change the expression or leave the stream in a different format, and clones print the same text. The text of a compiletime expression determines its tree in the same way.',
  ['inputs','programs'],'all runtime expression trees and vectors, compiletime expressions',
  'The tests print but never read the text.',
  [RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'variable.hpp',RT+'constant.hpp',RT+'function_symbol.hpp',RT+'vector_expr.hpp',RT+'expr.hpp',RT+'integral.hpp',RT+'interval.hpp'],
  [('deep_str and stream operators',RT+'*.hpp')],
  ['text parsed by an independent parser against the model tree'])

p('P25','Shared expressions can be used concurrently for reading',
  'Any number of threads may evaluate, copy, compare, print, simplify into new expressions, differentiate, substitute, traverse and typeset the same constant expression objects at the same time, and work on their own private expressions, without data race; every thread obtains the results it would obtain alone.',
  ['schedules','histories'],'all interleavings of read-only operations of several threads on shared expressions together with private work per thread',
  'The tests are single threaded.',
  [RT+'expr.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',MA+'latex.hpp',MA+'diff.hpp',MA+'simplify.hpp','viennamath/exception.hpp'],
  [('const member functions without hidden mutable or static state',RT+'*.hpp')],
  ['data race reports and per-thread results against the sequential results'])

p('P26','Equations and intervals keep both sides apart and intact',
  'An equation made of any two operands denotes left side equals right side in that order, and an interval made of any two bounds denotes lower and upper bound in that order, whichever of the supported operand types (numbers, constants, variables, function symbols, compiletime or runtime expressions) are used. Copies and assignments are independent, and transformations of an equation act on both sides separately.',
  ['inputs','histories'],'all operand type pairs, all operand expressions, sequences of copies and assignments',
  'The tests build a few equations and print them.',
  [RT+'equation.hpp',RT+'interval.hpp',CT+'ct_equation.hpp',CT+'ct_interval.hpp'],
  [('make_equation overloads',RT+'equation.hpp'),('make_interval overloads',RT+'interval.hpp')],
  ['both sides read back against the operands'])

p('P27','Chained manipulations stay consistent end to end',
  'Pipelines that chain the manipulations (differentiate, simplify, substitute, evaluate, integrate numerically, transform weak forms) give the mathematically correct end result: Newton iterations with symbolic derivatives follow the reference iteration, series of substitutions compose, derivative and substitution commute as the chain rule says, and derivatives of sums and products obey the algebraic laws for arbitrary subexpressions.',
  ['histories','inputs'],'all sequences of the value-preserving and value-defining manipulations applied to all expressions, and all starting points',
  'The Newton example prints its iterates; no test compares a chain of manipulations with an independent computation.',
  [MA+'diff.hpp',MA+'simplify.hpp',MA+'substitute.hpp',MA+'eval.hpp',RT+'numerical_quadrature.hpp',RT+'expr.hpp'],
  [('composition of the public manipulation functions',MA+'*.hpp')],
  ['value after every pipeline stage against the reference computation on model trees'])

p('P28','Programs of several translation units agree',
  'The library can be included in any number of translation units of one program, each including the main header followed by any selection of the manipulation headers in any order, and expressions may be handed from one unit to another: every operation behaves the same in each unit, and type-based dispatch recognises objects created elsewhere.',
  ['configurations','programs'],'all selections and orders of the manipulation headers after the main header, several translation units exchanging expressions, with and without optimisation',
  'One test links two units, but does not exchange expressions or vary headers.',
  ['viennamath/expression.hpp','viennamath/forwards.h',RT+'functor_wrapper.hpp',MA+'latex.hpp','viennamath/exception.hpp'],
  [('inline/template definitions in headers','viennamath/*')],
  ['results of the same operations executed in different units on exchanged objects'])

p('P29','Answers depend on what an expression denotes, not on its history',
  'Every operation (evaluation, simplification, differentiation, substitution, comparison, printing, LaTeX output, traversal, manipulation, coordinate systems, quadrature) gives for an expression exactly the answer it gives for a freshly built expression of the same form and with the same request, whatever happened before: assignments to the object, copies, mutations, earlier questions to it or to similar expressions, and other objects that lived at the same address. Asking twice gives the same answer twice.',
  ['histories','inputs'],'all sequences of constructions, assignments, questions and destructions before the question, all expressions, all requests',
  'Tests ask each object one question, shortly after its construction.',
  [RT+'expr.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'vector_expr.hpp',RT+'constant.hpp',MA+'latex.hpp',RT+'numerical_quadrature.hpp',MA+'simplify.hpp',MA+'diff.hpp'],
  [('assignment operators replacing all members',RT+'*.hpp'),('const member functions without remembered results',RT+'*.hpp')],
  ['answers of objects with a history against those of fresh twins and independent references'])

p('P30','A failed operation leaves all objects intact and can be repeated',
  'When an operation fails part-way (memory is exhausted, a user-supplied visitor, manipulator, quadrature rule or LaTeX processor throws, or the request cannot be answered), the exception reaches the caller, all operands and all other objects (expressions, vectors, equations, intervals, quadratures, translators) still denote what they did before, the object being assigned to holds some valid value and can be used, assigned and destroyed, and repeating the operation without the failure gives the usual result.',
  ['faults','histories'],'all operations, all objects, a failure at every allocation and at every call of user-supplied code',
  'No test makes an allocation or a user-supplied function fail.',
  [RT+'expr.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'vector_expr.hpp',RT+'equation.hpp',RT+'interval.hpp',RT+'numerical_quadrature.hpp',RT+'functor_wrapper.hpp',MA+'latex.hpp'],
  [('clone before release in assignment operators',RT+'*.hpp'),('ownership of intermediate results',MA+'*.hpp')],
  ['all objects read back after each injected failure; result of the undisturbed repetition'])

p('P31','User-defined expression types and operations are full citizens',
  'Classes which a user derives from the expression interface, and operations derived from the operation interface, can appear anywhere in an expression (below operators, functions, vectors, integrals, equations, intervals and inside each other) and are treated exactly like built-in ones: copies keep their dynamic type and state; evaluation, simplification, differentiation, substitution (as target, as replacement and inside them), comparison, traversal, manipulation, printing, LaTeX output through a user-supplied processor, quadrature, domain replacement and coordinate systems use their virtual functions, neither skip nor alter nor lose them, and give the value the whole expression denotes; every object they hand over is destroyed exactly once.',
  ['inputs','extensions'],'all expressions with user-defined nodes and operations at any place, all operations of the library',
  'One test adds a LaTeX processor; no test puts a user-defined node into an expression.',
  [RT+'expression_interface.hpp',RT+'op_interface.hpp',RT+'expr.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',MA+'simplify.hpp',MA+'latex.hpp',RT+'numerical_quadrature.hpp'],
  [('virtual interface of expressions and operations',RT+'expression_interface.hpp')],
  ['trees and values after every operation against the model with user nodes; number of user nodes alive'])

p('P32','Memory and work stay bounded however often and long the library is used',
  'When an operation has been carried out and the objects it made are destroyed, the library keeps no memory for it: the amount held does not grow however often expressions are built, copied, assigned, evaluated, compared, simplified, differentiated, substituted, traversed, rewritten, printed, translated, integrated or converted, with ever new expressions, points, bounds, identifiers, threads, translators and quadratures, nor with objects that are used or assigned to for a long time. The same request costs the same the thousandth time as the first time. The work for one request grows only polynomially with the size of the expression, whatever its shape.',
  ['histories','resources'],'all operations which are answered, all expressions, any number of repetitions; chains and trees of all shapes and sizes',
  'Tests carry out each operation once on small expressions and measure neither memory nor work.',
  [RT+'expr.hpp',RT+'binary_expr.hpp',RT+'unary_expr.hpp',RT+'op_interface.hpp',RT+'binary_operators.hpp',MA+'latex.hpp',MA+'simplify.hpp',MA+'diff.hpp',RT+'numerical_quadrature.hpp'],
  [('absence of global and hidden state',RT+'*.hpp'),('single recursive descent of queries and manipulations',RT+'binary_expr.hpp')],
  ['memory held after each round of repetitions; allocations and leaf visits for requests of growing size'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
