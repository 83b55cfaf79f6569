import json
I='include/etr_bits/'
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],
        state=[dict(name=a,meaning=b,where=I+c) for a,b,c in state],
        mechanism=[dict(name=a,where=I+b) for a,b in mech],
        observe_at=list(obs),hook_needed=None)))
p('P01','Containers are independent values over any history',
 "After any sequence of constructions, copies, assignments between vectors, matrices, scalars and calculations of double, integer and logical type, resizes, fills and element writes, each object has exactly the elements, length, element type and dimensions which the last operation on it defines. An operation changes no other object, and a copy and its original do not influence each other afterwards.",
 ['histories','inputs','fault_sequences'],
 'every history of operations over any number of owning containers of the three element types, of any length, including operations which fail for lack of memory in between',
 'Tests execute one fixed short history each with one shape; ownership errors (shared or stale storage, stale dimensions, stale capacity) need specific sequences of growing, shrinking, copying and reassigning to show.',
 ['Core/BaseStore.hpp','BufferVector.hpp','Core/MatrixParameter.hpp','Vector/Constructors.hpp','Vector/AssignmentOperator.hpp'],
 [('buffer copy, fill, resize and moveit','Core/BaseStore.hpp'),('evaluate into a temporary, then take its storage over','Vector/AssignmentOperator.hpp'),('construction from expressions','Vector/Constructors.hpp')],
 [('size and capacity','number of elements and of allocated elements','Core/BaseStore.hpp'),('matrix parameter','whether the object is a matrix, rows and columns','Core/MatrixParameter.hpp')])
p('P02','A failed allocation leaves every object unchanged',
 "If memory cannot be allocated at any point of an operation, the operation reports it by an exception and every object which existed before has exactly the elements, length and dimensions it had before. No memory is lost, and the same operation succeeds when it is repeated with memory available.",
 ['fault_sequences','histories','inputs'],
 'every allocation of every operation of every history, failing once or failing from there on, followed by any further history',
 'No test makes an allocation fail, so none of the failure paths is executed.',
 ['Core/BaseStore.hpp','Vector/AssignmentOperator.hpp','Vector/Constructors.hpp','Core/Utils.hpp','Core/SubsetClass.hpp','Subsetting/VectorSubsetting.hpp','Derivatives/AllVars.hpp'],
 [('new storage is allocated before the old one is released','Core/BaseStore.hpp'),('the right-hand side is evaluated into a temporary before the target changes','Vector/AssignmentOperator.hpp'),('checks which hold do not allocate','Core/Utils.hpp')])
p('P03','No invalid memory access, double release or leak in any history',
 "Whatever the history of operations, accepted or rejected, and wherever the memory is placed, no operation reads or writes memory outside of its live objects, uses memory before it was written or after it was released, or releases memory twice. When all objects are destroyed, also after a failure in the middle of a calculation, all memory was returned.",
 ['histories','inputs','fault_sequences','configurations'],
 'every history including invalid requests, failing allocations, failing streams and abandoned callers, for any placement and reuse order of memory',
 'Tests run without memory checking on fixed histories; accesses outside of a block or to stale memory usually go unnoticed.',
 ['Core/BaseStore.hpp','Core/Borrow.hpp','BufferVector.hpp','Core/SubsetClass.hpp','Subsetting/at.hpp','BinaryCalculations.hpp','Allocation/Colon.hpp','Allocation/Rep.hpp','Coca.hpp','Interpolation.hpp'],
 [('bounds checks of element access','Core/BaseStore.hpp'),('ownership flag of the storage','Core/BaseStore.hpp'),('bounds checks of borrowed storage','Core/Borrow.hpp')],
 [('allocated','whether the storage belongs to the object','Core/BaseStore.hpp')])
p('P04','Results depend only on the arguments',
 "The result, the outcome (accepted or rejected), the printed text and the number of warnings of an operation are a function of the values of its operands only. They do not depend on where objects lie in memory, on what the memory contained before, on operations executed earlier on other objects, or on how often the process has executed it.",
 ['histories','configurations','inputs'],
 'every history executed twice with different placement, reuse order and previous contents of memory, and with or without an unrelated history before it',
 'Each test runs once per process, in one memory layout with mostly zeroed fresh memory.',
 ['Core/BaseStore.hpp','Allocation/Vector.hpp','Allocation/Rep.hpp','Allocation/Matrix.hpp','Interpolation.hpp','Printing.hpp','Derivatives/AllVars.hpp','Helper.hpp'],
 [('new elements are initialised','Core/BaseStore.hpp'),('no state outlives an operation','Printing.hpp'),('storage of variables','Derivatives/AllVars.hpp')])
p('P05','A borrowed buffer is used in place and within its bounds',
 "A vector on memory of the caller reads the current contents of this memory, writes results there element by element, and its changes are visible to the owner and to every other vector on the same memory. It never writes outside of the part it was given, never releases or replaces the memory, and rejects results which do not fit, without any change.",
 ['histories','inputs','fault_sequences'],
 'every history of assignments, subset writes and element writes through one or several overlapping views, with writes of the owner at any point in between',
 'Tests use one view on one fixed array and never let the owner or another view change the memory in between.',
 ['Core/Borrow.hpp','Vector/AssignmentOperator.hpp','Vector/Constructors.hpp'],
 [('borrowed storage','Core/Borrow.hpp'),('assignment to borrowed storage','Vector/AssignmentOperator.hpp')],
 [('size and capacity','elements in use and elements which may be used','Core/Borrow.hpp')])
p('P06','A subset reads exactly the selected elements',
 "Reading a subset by numbers, integers, logical values, vectors of them or calculations gives the elements at the selected positions in the selected order, of a matrix those at the selected rows and columns with the dimensions of the selection. A stored subset always shows the current elements of its base, also after the base was changed or replaced.",
 ['inputs','histories'],
 'every base (vector, matrix, borrowed, calculation, subset; any element type), every valid selection by every kind of index, and every history of changes of the base between creation and use of the subset',
 'Tests enumerate kinds of index on one small base each; they do not vary shapes, repeated or permuted indices and never change the base of a stored subset.',
 ['Subsetting/VectorSubsetting.hpp','Subsetting/MatrixSubsetting.hpp','Subsetting/UtilsSubsetting.hpp','Core/SubsetClass.hpp'],
 [('positions of a selection','Subsetting/VectorSubsetting.hpp'),('positions of rows and columns','Subsetting/MatrixSubsetting.hpp'),('access through positions','Core/SubsetClass.hpp')],
 [('indices','selected positions','Core/SubsetClass.hpp')])
p('P07','Writing a subset changes exactly the selection, all or nothing',
 "Assigning to a subset stores the assigned values at the selected positions in order and changes neither any other element nor the length or dimensions of the base. If the assignment is rejected or fails, no element of the base has changed.",
 ['inputs','histories','fault_sequences'],
 'every base and selection by every kind of index, every kind of right-hand side (scalar, vector, calculation, another subset), and a failure at every allocation',
 'Tests write a handful of selections and check the written elements, mostly not the others, and never let a write fail half way.',
 ['Vector/AssignmentOperator.hpp','Core/SubsetClass.hpp','Subsetting/VectorSubsetting.hpp','Subsetting/MatrixSubsetting.hpp','Subsetting/at.hpp'],
 [('assignment to a subset','Vector/AssignmentOperator.hpp'),('indices are checked before the first write','Core/SubsetClass.hpp')])
p('P08','Self-referential assignment uses the old values',
 "If the target of an assignment also occurs on the right-hand side - directly, within calculations or constructors, through subsets of it or through another vector on the same memory - the result is that of first evaluating the complete right-hand side with the values before the assignment. This holds for assignments to whole objects and to subsets, whatever the lengths are.",
 ['programs','inputs','histories','fault_sequences'],
 'every statement in which target and operands overlap in any way, for all lengths and index orders, also when an allocation fails within the statement',
 'Tests contain few self-assignments with equal lengths; overlap of shifted, reversed or permuted selections and of different views is not covered.',
 ['Vector/AssignmentOperator.hpp','Core/BaseStore.hpp','Core/Borrow.hpp','Core/SubsetClass.hpp'],
 [('evaluate into a temporary before the target changes','Vector/AssignmentOperator.hpp')])
p('P09','Elementwise calculations recycle correctly and keep the shape',
 "Element i of a calculation is the operation applied to the elements i modulo their length of the operands, converted by the usual type rules; its length is the larger of the two lengths, and it is a matrix with these dimensions exactly if an operand is one. Comparisons give logical values by the same rules, with a calculation on an empty vector being empty.",
 ['inputs','programs'],
 'every tree of arithmetic, comparisons and unary functions over operands of any length, shape, element type and storage (owning, borrowed, subset, scalar)',
 'Tests cover each operator with operands of equal length or a scalar; combinations of types, lengths, matrices and nesting grow without bound.',
 ['BinaryCalculations.hpp','UnaryCalculations.hpp','Core/Traits.hpp','Vector/AssignmentOperator.hpp'],
 [('lazy binary calculation with recycling','BinaryCalculations.hpp'),('lazy unary calculation','UnaryCalculations.hpp'),('operations by type','Core/Traits.hpp')])
p('P10','Callers on separate objects never influence each other',
 "If several threads use the library at the same time, each on objects of its own, every caller gets exactly the results, rejections and final objects it would get alone. There is no data race, whatever the interleaving, also when memory is exhausted in one of them.",
 ['schedules','fault_sequences','programs'],
 'every interleaving at the granularity of memory accesses of two to four callers with any programs, with allocation failures in any of them',
 'Tests have one thread.',
 ['Core/BaseStore.hpp','BinaryCalculations.hpp','Core/SubsetClass.hpp','Interpolation.hpp','Derivatives/AllVars.hpp','Helper.hpp'],
 [('no mutable state outside of objects','Core/BaseStore.hpp'),('state of derivatives belongs to its set of variables','Derivatives/AllVars.hpp')])
p('P11','Concurrent readers of shared objects do not interfere',
 "Any number of threads may read, select from and calculate with the same vectors and matrices at the same time, as long as nobody changes them, and each gets the results it would get alone. Reading an object never changes it and is free of data races.",
 ['schedules','programs','fault_sequences'],
 'every interleaving at the granularity of memory accesses of two to four callers which read common objects and write objects of their own',
 'Tests have one thread, and a hidden write during a read (cache, counter, lazily set dimension) is invisible to them.',
 ['Core/BaseStore.hpp','BinaryCalculations.hpp','UnaryCalculations.hpp','Core/SubsetClass.hpp','Subsetting/VectorSubsetting.hpp','Subsetting/MatrixSubsetting.hpp','Subsetting/at.hpp'],
 [('reading operations write only to their own temporaries','BinaryCalculations.hpp'),('positions are owned by the subset','Core/SubsetClass.hpp')])
p('P12','Invalid requests are rejected and change nothing',
 "A request which is invalid - an index outside of the object, an empty selection, a length below one, lengths or dimensions which do not fit, dimensions of something which is no matrix, use of an empty vector - ends with an exception. No object has changed afterwards, and all objects remain fully usable.",
 ['inputs','histories','fault_sequences'],
 'every kind of invalid request with every amount by which it is invalid, on any object in any state, anywhere within a history, also combined with failing allocations',
 'Tests check that some requests throw, once each, at one value beyond the limit, and never look at the state afterwards.',
 ['Core/BaseStore.hpp','Core/Borrow.hpp','Core/SubsetClass.hpp','Subsetting/at.hpp','Subsetting/VectorSubsetting.hpp','Subsetting/MatrixSubsetting.hpp','Allocation/AllocationUtils.hpp','Allocation/Matrix.hpp','Vector/AssignmentOperator.hpp','Interpolation.hpp','Helper.hpp'],
 [('assertions','Core/Utils.hpp'),('bounds checks','Core/BaseStore.hpp'),('indices are checked before writing','Core/SubsetClass.hpp')])
p('P13','Derivatives follow the rules of differentiation in every program',
 "After every assignment in a program over variables which track derivatives and own or borrow their values, the stored derivative of each variable is the derivative of its current value with respect to the chosen independent variable, by the sum, product, quotient and chain rules, elementwise with recycling of single values. This also holds if the assigned variable occurs on the right-hand side, and a failed assignment changes neither values nor derivatives.",
 ['programs','inputs','histories','fault_sequences'],
 'every sequence of assignments of nested expressions over the variables and constants, for each choice of the independent variable among owning and borrowing ones, with allocation failures',
 'Tests assign a few fixed expressions once; the state (values and derivatives of all variables) after several reassignments is not examined.',
 ['Derivatives/AllVars.hpp','Derivatives/DerivTypes.hpp','Derivatives/Derivs.hpp','Derivatives/VarPointer.hpp','Derivatives/getDerivs.hpp','Vector/DerivativeCalc.hpp','Vector/AssignmentOperator.hpp','Allocation/ScalarForDeriv.hpp'],
 [('rules per operation','Derivatives/Derivs.hpp'),('values and derivatives are evaluated before the variable is changed','Vector/AssignmentOperator.hpp')],
 [('values and derivatives','of all variables of one set','Derivatives/AllVars.hpp')])
p('P14','Printing and warnings tell the truth and have no side effects',
 "Printing writes every element in order, matrices row by row, logical values as words, in a format which does not depend on what was printed before; it changes no object, also if the stream fails or accepts only a part. A warning is issued exactly if a part of an argument is ignored (more than one element for a single number or condition, decimals of a size).",
 ['inputs','histories','fault_sequences'],
 'every object and expression, any history of earlier output, and stream failures and short writes at any point',
 'Tests do not compare output after other output, never print after a stream failure, and do not count warnings.',
 ['Printing.hpp','Core/Utils.hpp','Vector/VectorClass.hpp','Allocation/Colon.hpp','Allocation/Rep.hpp','Allocation/Matrix.hpp','Allocation/AllocationUtils.hpp'],
 [('output of scalars, vectors and matrices','Printing.hpp'),('warnings','Core/Utils.hpp'),('conversion to a condition','Vector/VectorClass.hpp')])
p('P15','Sequences, repetitions, concatenations and matrices are exact',
 "A sequence from a to b has the elements a, a+1 (or a-1) and so on up to b, a repetition contains its argument that many times, a concatenation contains the elements of all arguments in order with their common type, a matrix has the given rows, columns and column-major elements, and a new vector of length n has n zeros. Each can be nested in the others and in calculations.",
 ['inputs','programs'],
 'every direction, length, element type, scalar or vector argument and nesting, with results stored into any existing object',
 'Tests use single small arguments; lengths, mixed types, descending and fractional sequences and nesting are sampled sparsely.',
 ['Allocation/Colon.hpp','Allocation/Rep.hpp','Allocation/Matrix.hpp','Allocation/Vector.hpp','Allocation/AllocationUtils.hpp','Coca.hpp'],
 [('sequence','Allocation/Colon.hpp'),('repetition','Allocation/Rep.hpp'),('matrix','Allocation/Matrix.hpp'),('concatenation','Coca.hpp'),('conversion of sizes','Allocation/AllocationUtils.hpp')])
p('P16','Raw storage grows without losing elements',
 "Raw storage behaves like a growable sequence: appending adds one element at the end and keeps all others, resizing keeps the common leading elements within its capacity and initialises new ones with zero, and copying, filling and assigning give exactly the elements of the source, longer or shorter. Its size is always the number of its elements.",
 ['histories','fault_sequences'],
 'every history of appends, resizes, reallocations, fills, copies and assignments, with an allocation failure at any point',
 'Tests append a few elements to one object; growth thresholds, shrinking followed by growth, and failures during growth are not reached.',
 ['Core/BaseStore.hpp','Core/Borrow.hpp'],
 [('push_back, resize, realloc and fill','Core/BaseStore.hpp')],
 [('size and capacity','number of elements and of allocated elements','Core/BaseStore.hpp')])
p('P17','All ways to look at an object agree',
 "Length, element access by position, access by row and column, the last element, iteration, selection of single elements, selection of everything, conversion to a scalar, dimensions, copies and tests for missing or infinite values all describe the same elements of an object. This holds for owning and borrowed vectors, matrices, subsets and calculations at every point of a history, and looking never changes anything.",
 ['histories','inputs'],
 'every object in every state which a history can reach, observed by all observers',
 'Tests use one observer (element access) on freshly made objects.',
 ['Vector/VectorClass.hpp','Core/BaseStore.hpp','Core/Borrow.hpp','Core/SubsetClass.hpp','Subsetting/at.hpp','Helper.hpp','BinaryCalculations.hpp','UnaryCalculations.hpp'],
 [('element access, size, iteration','Vector/VectorClass.hpp'),('iteration over a subset','Core/SubsetClass.hpp'),('access by row and column','Subsetting/at.hpp'),('length, dim, isNA, isInf','Helper.hpp')])
p('P18','Linear interpolation is exact at and between the nodes',
 "For increasing times, linear interpolation returns the value of a node at its time, the straight line between the neighbouring nodes between them, and the first or last value outside. Invalid requests (different lengths, more than one time) are rejected, and no argument is changed.",
 ['inputs','histories','fault_sequences'],
 'every number and spacing of nodes, times at, between, before and after nodes, and argument types and storage',
 'Tests evaluate one table at a few times.',
 ['Interpolation.hpp'],
 [('search of the interval and interpolation','Interpolation.hpp')])
p('P19','Cubic interpolation is a Catmull-Rom curve through all nodes',
 "For at least four nodes with increasing times and finite values, cubic interpolation returns the value of a node at its time, the first or last value outside, and between two nodes the cubic curve through both whose slope at each of them is that of the line between its two neighbours. The neighbour before the first node is the last one, and behind the last one the table begins again at the sum of the last and the first time. Invalid requests (different lengths, less than four nodes) are rejected, and no argument is changed.",
 ['inputs','histories','fault_sequences'],
 'every number and spacing of nodes, times at, between, before and after nodes, and argument types and storage',
 'Tests evaluate one equidistant table at a few times with a tolerance of 0.1 and never between the outer nodes.',
 ['Interpolation.hpp'],[('search of the interval, neighbours and polynomial','Interpolation.hpp')])
p('N02','Mathematical functions are accurate',
 "Unary functions return the value of the mathematical function for each element up to the accuracy of the platform.",
 ['inputs'],'every argument of every function','Tests compare a few arguments.',
 ['UnaryCalculations.hpp','Core/Traits.hpp'],[('functions','Core/Traits.hpp')])
p('N03','Objects of R are converted and shared correctly',
 "Vectors and matrices which come from R are used in place or copied without changing the caller's objects, and results are returned with the correct type and dimensions.",
 ['inputs','histories'],'every object of R which is passed to or returned from compiled code','The tests of this repository build without R.',
 ['Core/BorrowSEXP.hpp','SEXPConversions.hpp','BufferVector.hpp','Distri.hpp'],[('conversion of objects of R','SEXPConversions.hpp')])
p('N04','Programs with unsupported types do not compile',
 "An expression over types which the library does not support is rejected by the compiler, and every supported combination compiles.",
 ['programs'],'every expression over the types of the library','Tests contain only expressions which compile.',
 ['Core/Concepts.hpp','Core/Traits.hpp'],[('concepts','Core/Concepts.hpp')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80, x['title']
        assert x['statement'].count('. ')<=2, x['id']
        f.write(json.dumps(x)+'\n')
NA={'N02':"A pure function of one number which is computed by the mathematical library of the platform; nothing which a simulator controls takes part.",
'N03':"This part only exists when compiled within R (Rcpp headers and a running R), which is not installed here; the code is excluded by the preprocessor in the build of this repository.",
'N04':"A property of the compiler's type checking: nothing is executed, so there is no execution to simulate."}
T={'P02':'deterministic simulation; every allocation of an operation fails in turn; state compared','P10':'deterministic simulation; seeded scheduler with preemption at memory accesses; comparison with solo executions and race detection','P11':'deterministic simulation; seeded scheduler with preemption at memory accesses; shared objects; comparison with solo executions and race detection','P03':'deterministic simulation; arena with shadow state of every byte; seeded histories and faults','P04':'deterministic simulation; each history executed in two different memory worlds and process histories'}
checks=[]
for x in P:
    if x['id'] in NA: continue
    i=x['id']
    checks.append(dict(property=i,quick_cmd='python3 check.py --property %s --tier quick'%i,thorough_cmd='python3 check.py --property %s --tier thorough'%i,evidence_file='evidence/%s.json'%i,
      technique=T.get(i,'deterministic simulation with fault injection; seeded histories against an executable reference model'),
      level='fault_enumeration' if i=='P02' else 'exploration',
      level_note=('Every allocation of each swept operation is failed once; operations and histories are a seeded sample.' if i=='P02' else 'A seeded sample of executions of the real code under the simulator; no exhaustive claim.')+' Trusts the reference model, the arena and g++ 13.'))
m=dict(version=1,setup_cmd='python3 check.py --build',hooks=dict(guard='none: no hook was needed in /repo',enable='The checks compile /repo/include with -fsanitize=thread call-outs which the simulator implements itself, and replace operator new/delete, stream buffers and mutexes at link time.',source_commits=[]),checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes='Findings and repairs are listed in known-findings.txt. Replay: python3 check.py --replay FILE.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
