"""Which verification units and which executable contracts decide each property.

units: list of (unit, functions or None for all functions of the unit)
harness: name of the executable contracts in /verif/harness
"""
P = {}


def prop(pid, units=(), harness=None, san='plain', level='proof', note='', bounded=(), time=(25, 240)):
    P[pid] = dict(units=list(units), harness=harness, san=san, level=level, note=note, bounded=list(bounded), time=time)


GRAPH_LIST = None
prop('C01', [('graph', None)], 'h_graph', san='asan')
prop('C02', [('graph', None)], 'h_graph', san='asan')
prop('C03', [('graph', ['getIncomingEdges', 'getOutgoingEdges', 'getSource', 'getDestination', 'getActionID', 'getNbVertices', 'getVertices', 'getEdges', 'hasVertex', 'getRootVertices', 'getNbRootVertices'])], 'h_graph', san='asan')
prop('C04', [('exec', None)], 'h_exec')
prop('C05', [('exec', None)], 'h_exec')
prop('C25', [('exec', None), ('instr', None)], 'h_exec')
prop('C15', [('archive', None)], 'h_archive')
prop('C16', [('archive', ['areProgramResultsUnique'])], 'h_archive')
prop('C19', [('results', None)], 'h_learn')
prop('C27', [('ident', None)], 'h_misc')
_EXE = ['scaleLocation', 'Set::getInstruction', 'getNbInstructions', 'getNbOperands', 'next', 'getCurrentLine', 'getCurrentInstruction', 'getOperandLocation', 'fetchCurrentOperands', 'executeCurrentLine', 'processLine', 'iterateThroughtProgram', 'executeProgram',
        'setProgram', 'getNbConstant', 'getDataSources', 'getId', 'cGetConstantHandler', 'getOperandTypes', 'Environment::getInstructionSet', 'Line::getOperand', 'Line::getDestinationIndex', 'Line::getInstructionIndex', 'Program::isIntron', 'Program::getLine', 'Program::getNbLines']
prop('C06', [('program', _EXE)], 'h_program')
prop('C07', [('program', ['scaleLocation', 'getOperandLocation', 'fetchCurrentOperands', 'executeCurrentLine', 'processLine', 'iterateThroughtProgram', 'executeProgram', 'Line::getOperand', 'getOperandTypes', 'getNbOperands', 'getCurrentLine', 'getCurrentInstruction'])], 'h_program', san='asan')
prop('C12', [('program', ['identifyIntrons', 'clearIntrons', 'Program::isIntron', 'removeLine', 'next', 'iterateThroughtProgram', 'getFakeDataSources', 'lemma', 'Program::getNbLines'])], 'h_program')
prop('C13', [('program', ['hasIdenticalBehavior', 'getConstantAt', 'Constant::operator==', 'Constant::operator!=', 'Line::operator==', 'Line::operator!=', 'Line::<ctor>', 'Program::<ctor>', 'lemma', 'Program::isIntron', 'Program::getLine', 'Program::getNbLines'])], 'h_program')
prop('C20', [('learning', ['updateEvaluationRecords', 'decimateWorstRoots', 'keepBestPolicy', 'forgetPreviousResults', 'updateBestScoreLastGen', 'getBestRoot', 'getBestScoreLastGen'])], 'h_learn', san='asan')
prop('C21', [('learning', ['LearningAgent::isRootEvalSkipped', 'LearningAgent::evaluateJob', 'LearningAgent::evaluateAllRoots', 'LearningAgent::evaluateOneRoot', 'LearningAgent::makeJob', 'Job::getRoot', 'LearningAgent::updateEvaluationRecords'])], 'h_learn')
prop('C10', [('mutator', ['initRandomCorrectLineOperand', 'initRandomCorrectLine', 'alterCorrectLine', 'getNbDataSources', 'getLargestAddressSpace', 'getNbRegisters', 'getNbInstructions', 'getMaxNbOperands']), ('program', ['Line::getEnvironment', 'Line::getDestinationIndex', 'Line::getInstructionIndex', 'Line::setDestinationIndex', 'Line::setInstructionIndex', 'Line::getOperand', 'Line::setOperand', 'Set::getInstruction', 'getNbOperands', 'getOperandTypes', 'getFakeDataSources', 'Environment::getInstructionSet'])], 'h_program')
prop('C11', [('mutator', ['deleteRandomLine', 'insertRandomLine', 'swapRandomLines', 'alterRandomLine', 'alterRandomConstant', 'mutateProgram', 'initRandomProgram', 'Program::getConstantHandler', 'Environment::getLineSize']), ('program', ['Program::getNbLines', 'Program::removeLine', 'Program::addNewLine', 'Program::swapLines', 'Program::getLine', 'Program::getEnvironment', 'getNbConstant', 'clearIntrons', 'Line::<ctor>'])], 'h_program')
prop('C17', [('rng', None)], 'h_misc')
prop('C24', [('classif', None)], 'h_learn', san='asan')
prop('C28', [('params', None)], 'h_misc', san='plain')
prop('C18', [('environ', None)], 'h_misc', san='asan')
prop('C31', [('cycle', None)], 'h_misc')
prop('C14', [('tpgmut', None)], 'h_mut', san='plain')
BND = 'Bounded: decided by executable contracts (the contract of the functions written as a checker around the real compiled functions) on seeded random cases; not counted as proved.'
for _p, _h, _s in (('C08', 'h_data', 'asan'), ('C09', 'h_data', 'plain'),
                   ('C22', 'h_learn', 'plain+tsan'), ('C23', 'h_learn', 'asan'),
                   ('C32', 'h_misc', 'asan'), ('C26', 'h_stats', 'plain'), ('C29', 'h_stats', 'plain')):
    prop(_p, [], _h, san=_s, level='exploration', note=BND)
NA = {'C30': 'relates the text of a generated C program to its meaning once a C compiler has translated it; no deductive verifier available here gives a semantics to both the C++ generator and the text it prints, and a bounded comparison would not be deciding it by contract'}
