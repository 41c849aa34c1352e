"""Writes properties.jsonl and MANIFEST.json (the texts live here, the anchors are looked up)."""
import json
import os
import re

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INS, DEC, FMT, DIS, HLP, BIT, MOD, MCK, REG, UTL, MAIN = (
    'cmdis/%s.py' % n for n in ('instructions', 'decoder', 'formatter', 'disasm', 'helpers', 'bitstring', 'model',
                                'mock_cpu', 'registers', 'utilities', '__main__'))

# id, title, statement, over, quantifier text, why tests cannot, mechanism [(name, file)], extra files, state,
# technique, level note
P = []


def prop(id, title, statement, over, text, why, mech, state=(), tech='', note='', observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, state=state,
                  tech=tech, note=note, observe=observe))


REFNOTE = ('Exhaustive within the bounds named in the evidence; trusts the reference model of the ARMv7-M subset in '
           'mc/ref, which is compared with the implementation on every explored transition (no state of the model is '
           'left unvalidated).')

LIBNOTE = ('Exhaustive within the bounds named in the evidence; trusts a small model of the operations written on plain '
           'Python integers, lists and dictionaries in the property module, which is compared with the implementation on every '
           'explored transition.')

prop('C01', 'Every encoding is classified exactly once and correctly',
     'Decoding any 16-bit or 32-bit Thumb encoding gives exactly one of three results: the supported ARMv7-M '
     'instruction with its mnemonic and its size of 2 or 4 bytes, an unpredictable-instruction error, or an '
     'undefined-instruction error; bytes that follow the encoding never matter and no other exception ever escapes. '
     'Words outside the supported subset and truncated 32-bit encodings are undefined, words the architecture calls '
     'unpredictable are never taken for a different instruction, and every well formed word of a supported '
     'instruction decodes as that instruction.',
     ['inputs'], 'every one of the 59392 16-bit and 402653184 32-bit encodings',
     'The tests decode a few hundred hand written words; they never visit the undefined space, the unpredictable '
     'corners, or the words where two encoding patterns overlap.',
     [('DecoderTree.decode', DEC), ('DecoderTree._build_tree', DEC), ('Decoder.decode', DEC), ('instr', DEC)],
     state=[('decoder tree', 'the encodings sorted by fixed bits', DEC)],
     tech='exhaustive enumeration of the complete encoding space on the real decoder against a reference decoder',
     note='Complete: all 402718720 words, no bound. ' + REFNOTE)

prop('C02', 'Decoding is a pure function of the bytes and the address',
     'What decoding a word yields (mnemonic, size, bytes, text, effect, or error) depends on nothing but its bytes '
     'and the address given: not on what was decoded, rejected, formatted or executed before, nor on the kind of '
     'byte buffer, nor on bytes after it. Instructions decoded earlier are not altered by later decoding.',
     ['histories', 'inputs'], 'every history of decode calls over members of every decoding rule, rejected and '
     'truncated words, and every kind of buffer',
     'Tests decode each word in isolation from a freshly imported decoder, in one order.',
     [('DecoderTree.decode', DEC), ('Decoder.decode', DEC), ('Instruction', DEC)],
     tech='stateless exploration of all decode histories up to length 3 on the real decoder', note=REFNOTE)

prop('C03', 'Linear disassembly covers the input once, in order, then ends',
     'Disassembling a buffer yields its instructions in order, each with the address where it lies, together covering '
     'each byte from the start exactly once, until the end or the first encoding that cannot be decoded, which is '
     'reported by an exception. A cut off encoding at the end, a trailing odd byte or an empty buffer ends the '
     'stream without an error, and reading the stream does not alter the buffer.',
     ['inputs'], 'every buffer built from a vocabulary of halfwords up to a length, at several addresses',
     'The tests never disassemble a stream longer than one instruction.',
     [('Disassembler.disasm', DIS), ('DecoderTree.decode', DEC)],
     tech='exhaustive enumeration of input buffers over a halfword vocabulary, against the reference decoder',
     note=REFNOTE)

prop('C04', 'The text of an instruction says exactly what the encoding is',
     'The formatted text of every instruction gives its address, its encoding in hex, its mnemonic with the right suffixes, '
     'and operands naming exactly the registers, register lists, immediates, shifts, write-back marks, special registers, '
     'barrier options and branch or literal target addresses (relative to its address, wrapping at 32 bits) that the '
     'encoding holds. It depends only on the instruction and its address, not on what the formatter formatted before.',
     ['inputs', 'histories'], 'every supported encoding, at addresses of every alignment and at both ends of the '
     'address space',
     'Tests format a handful of words at one address.',
     [('Formatter.format', FMT), ('ReglistOperand', FMT), ('LabelOperand', FMT), ('SpecialRegisterOperand', FMT),
      ('MemoryAccessOperand', FMT)],
     tech='exhaustive enumeration of encodings x addresses on the real formatter against a reference disassembly',
     note=REFNOTE)

EXE = ('Tests execute each instruction on a few operand values; carry, overflow and sign boundaries, every register '
       'combination and every start value of the flags are out of their reach.')

prop('C05', 'Addition, subtraction and comparison: result and flags',
     'The add, add with carry, subtract, subtract with borrow, reverse subtract, compare and compare negative instructions write the 32-bit two\'s '
     'complement result to the destination and set N, Z, C and V as the architecture defines, exactly when the '
     'encoding sets flags, for all operands and every initial flag value. Comparisons change only flags, the other forms change only their destination and flags, '
     'and the PC moves to the next instruction (or to the result when it is the destination).',
     ['inputs'], 'every encoding, register combination and immediate; operand pairs from a boundary grid; every carry '
     'and flag state', EXE,
     [('AddSub', INS), ('ReverseSubtract', INS), ('Compare', INS), ('AddWithCarry', HLP), ('DataProcessing', INS)],
     tech='explicit-state exploration: every encoding x machine states executed on the real model and on the '
          'reference machine, complete states compared', note=REFNOTE)

prop('C06', 'Shift instructions: result and carry for every amount',
     'The logical shift left, logical and arithmetic shift right and rotate right instructions compute the '
     'architectural result and set N, Z and C (V unchanged) for every value and every amount, immediate (where an encoded 0 means 32 for right '
     'shifts) or in the low byte of a register. An amount of zero in a register leaves C unchanged, and nothing but the destination, flags and PC changes.',
     ['inputs'], 'every encoding; all 256 register amounts and all 32 immediate amounts on boundary values',
     EXE, [('ShiftOp', INS), ('shift_imm_t1', INS), ('Shift_C', HLP), ('DecodeImmShift', HLP)],
     tech='explicit-state exploration of encodings x machine states against the reference machine', note=REFNOTE)

prop('C07', 'Logical, test, move and multiply instructions',
     'The and, exclusive or, or, bit clear, test, move, move negated and multiply instructions, with immediates, '
     'modified immediates and shifted registers, write the architectural result and set N, Z (and C from the shifter '
     'or immediate expansion, else unchanged) exactly when the encoding sets flags. V and every register other than '
     'the destination and the PC are unchanged, and a move to the PC branches.',
     ['inputs'], 'every encoding; all modified immediates and shifts; operand grids; flag states', EXE,
     [('BitOp', INS), ('BitClear', INS), ('Move', INS), ('ShiftedMoveNegate', INS), ('Test', INS), ('Multiply', INS),
      ('ThumbExpandImm_C', HLP)],
     tech='explicit-state exploration of encodings x machine states against the reference machine', note=REFNOTE)

prop('C08', 'Extension, byte reversal and address generation',
     'Sign and zero extension of bytes and halfwords (with rotation), byte reversal of words, of both halfwords, and of the low '
     'halfword with sign extension, and PC relative address generation in both directions write exactly the '
     'architectural value to the destination. No flag or other register but the PC changes.',
     ['inputs'], 'every encoding; all 16-bit halves of the operand; all offsets at every PC alignment', EXE,
     [('Extend', INS), ('ByteReverse', INS), ('AddressToRegister', INS), ('Align', HLP)],
     tech='explicit-state exploration of encodings x machine states against the reference machine', note=REFNOTE)

prop('C09', 'Branches: conditions, targets and links',
     'A conditional branch is taken exactly when its condition holds for the current N, Z, C and V; otherwise '
     'execution goes on after it. Direct branches go to the address of the instruction plus 4 plus the signed offset modulo 2^32, register '
     'branches to the register value without bit 0, and the linking forms leave the address after the instruction with bit 0 set in LR; '
     'nothing else changes.',
     ['inputs'], 'all conditions x all flag states x all offsets; all bl offset fields; all registers x targets',
     'The tests take a few branches with a few flag values.',
     [('Branch', INS), ('b_t1', INS), ('bl_t1', INS), ('bx_t1', INS), ('blx_t1', INS)],
     tech='explicit-state exploration of encodings x flag states x PCs against the reference machine', note=REFNOTE)

prop('C10', 'Single loads and stores: address, size, extension and value',
     'Every single register load and store accesses exactly the architectural address (base plus immediate, register, shifted register, '
     'SP or word aligned PC offset, modulo 2^32) with the size of the instruction, zero or sign extending what it loads and storing '
     'the low bytes of the register little endian. Loads change only their destination, stores only those bytes, '
     'besides the PC; a load into the PC branches to the loaded address without bit 0.',
     ['inputs'], 'every 16-bit, literal and register offset encoding; all halfword data; addresses of every alignment '
     'and at the ends of memory', EXE,
     [('Load', INS), ('Store', INS), ('LoadLiteral', INS), ('CpuModel.read_memory', MOD),
      ('MockCpuModelDelegate.read_memory', MCK)],
     tech='explicit-state exploration of encodings x machine states x memory contents against the reference machine',
     note=REFNOTE)

prop('C11', 'Multiple loads and stores: every register list',
     'Push, pop, load multiple and store multiple transfer exactly the listed registers, lowest register at the lowest '
     'address, to or from consecutive words at the architectural addresses. The base or the selected stack pointer is written back exactly when the encoding '
     'says so (a load multiple keeps a loaded base), a list with the PC branches to the loaded address, and nothing '
     'else changes.',
     ['inputs'], 'every register list and base register', 'A list has up to 2^14 values; the tests use a few.',
     [('Push', INS), ('Pop', INS), ('LoadMultiple', INS), ('StoreMultiple', INS)],
     tech='explicit-state exploration of every register list x machine states against the reference machine',
     note=REFNOTE)

prop('C12', 'System instructions and special registers',
     'Moves to and from special registers, processor state changes, hints and barriers read and write exactly the '
     'architectural bits of the xPSR, stack pointers, interrupt masks (with the conditional priority raise) and control register. '
     'Unprivileged code cannot change or see privileged state, handler mode is privileged and uses the main stack, '
     'and nothing else but the PC changes.',
     ['inputs', 'histories'], 'every mode, privilege and mask state x every special register; all sequences of system instructions up to a length',
     'The tests read special registers in one mode and privilege state and never combine them.',
     [('MoveFromSpecial', INS), ('MoveToSpecial', INS), ('ChangeProcessorState', INS), ('barrier', INS),
      ('CpuModel.is_privileged', MOD)],
     state=[('CONTROL, PRIMASK, FAULTMASK, BASEPRI, xPSR, mode', 'privilege and interrupt state', MOD)],
     tech='explicit-state exploration of special register states and instruction sequences', note=REFNOTE)

prop('C13', 'An instruction touches only what it names',
     'Executing an instruction through any delegate reads and writes only the memory the instruction addresses, once, '
     'with its access size, and writes only the registers it names as destinations, base or flags, plus the PC. Every '
     'value handed to the delegate is a plain integer in range of the register or access size, every address is within 32 bits, and the final state is '
     'the architectural one.',
     ['inputs'], 'every executable encoding on several machine states, seen from a recording delegate',
     'The tests look at the registers they expect to change and at nothing else.',
     [('CpuModel.write_register', MOD), ('CpuModel.read_memory', MOD), ('CpuModel.write_memory', MOD),
      ('CpuModelDelegate', MOD)],
     tech='exhaustive enumeration of encodings with monitoring of all delegate traffic against the reference machine',
     note=REFNOTE)

prop('C14', 'A decoded instruction can be reused any number of times',
     'A decoded instruction can be executed and formatted any number of times, in any order, at any address, on any '
     'number of processors, and interleaved with the use of any other instruction. Each use has the effect or gives '
     'the text that a freshly decoded instruction would.',
     ['histories'], 'all sequences of uses up to a length for members of every decoding rule and all ordered pairs of rules',
     'Tests use every decoded instruction once.',
     [('Instruction.execute', DEC), ('Instruction', DEC), ('instr', DEC), ('Formatter.format', FMT)],
     tech='stateless exploration of all operation sequences on the real objects', note=REFNOTE)

prop('C15', 'Processors, disassemblers and threads do not disturb each other',
     'Any number of processor models, disassembly streams and threads may be used side by side in one process: however '
     'their steps are interleaved or preempted, each behaves as if it were alone, also when they use the same decoded instruction. '
     'Nothing executed, decoded or formatted by one '
     'changes the registers, memory, stream position, text or decoding of another.',
     ['schedules'], 'all interleavings of short instruction sequences and streams; a preemption at every executed line of the package',
     'The tests are single threaded with one processor model at a time.',
     [('CpuModel', MOD), ('MockCpuModelDelegate', MCK), ('DecoderTree.decode', DEC), ('Disassembler.disasm', DIS)],
     tech='systematic schedule enumeration: controlled scheduler with preemption bound 1 (2 for some pairs) at line '
          'granularity', note='Preemption points are the source lines of the package. ' + REFNOTE)

prop('C16', 'Whole programs run as the architecture says, step by step',
     'Running a program (fetch from the PC, decode, execute, repeat) leaves, after every step, all registers, flags and memory as the '
     'architecture says, with loops, calls, stack use, stack pointer switching, privilege changes and stores into its '
     'own code seen by the next fetch. Executing a straight list of instructions has the same effect as executing them one by '
     'one, and a sequence made on the fly (a generator that fetches at the PC) is executed instruction by instruction as it is '
     'produced, up to and including the one before the generator stops or raises.',
     ['programs', 'histories'], 'all programs up to a length over a vocabulary of instructions, several start states',
     'The tests run single instructions; no test runs a program.',
     [('CpuModel.execute', MOD), ('Instruction.execute', DEC), ('DecoderTree.decode', DEC),
      ('MockCpuModelDelegate', MCK)],
     tech='bounded exhaustive enumeration of programs, lock-step with the reference machine', note=REFNOTE)

prop('C17', "Bit string arithmetic and logic is modulo the width",
     'Addition, subtraction, multiplication, floor division and shifts of bit strings give the result modulo two to the power of '
     'the left operand\'s width, keeping that width; so does and, while or and exclusive or of two bit strings take the larger width, '
     'and inversion complements every bit. In-place forms and reflected forms give the same value, and '
     'integers and binary digit strings are accepted as the other operand.',
     ['inputs'], 'all pairs of bit strings up to a width, all integers around the range, boundary values up to 65 bits',
     'Tests use a few values per operator; mixed widths, width 0 and negative integers are not sampled.',
     [('bitstring.__add__', BIT), ('bitstring.__iadd__', BIT), ('bitstring.__and__', BIT), ('bitstring.__invert__', BIT),
      ('bitstring.__lshift__', BIT)],
     tech='exhaustive small-scope enumeration of operands and operators against a model of bit vectors', note=LIBNOTE)

prop('C18', 'Bit access, slices, concatenation and extension of bit strings',
     'Indexing a bit string gives the bit counted from the least significant, or from the top for a negative index, and slicing '
     'gives exactly the bits a sequence slice over the bits from bit 0 upward would select, the first selected lowest, for every start, '
     'stop and step. Assigning to a bit or a slice replaces exactly those bits, concatenation puts the left operand in the high bits, and '
     'extension to a larger width fills with zeros or the sign bit.',
     ['inputs'], 'every bit string up to a width x every index and slice',
     'Tests sample a few slices of a few values; negative, reversed, empty and clipped ones are not covered.',
     [('bitstring.__getitem__', BIT), ('bitstring.__setitem__', BIT), ('bitstring.__mod__', BIT),
      ('bitstring.sign_extend', BIT), ('bitstring.zero_extend', BIT)],
     tech='exhaustive small-scope enumeration of bit strings x indexes x slices against a list-of-bits model',
     note=LIBNOTE)

prop('C19', 'Bit strings are values: an operation changes only its own target',
     'Computing, comparing, converting, slicing, extending or concatenating bit strings changes none of the operands, and '
     'results share nothing with operands: updating one variable in place never changes another that was made from '
     'it. The shared constants for a zero and a one bit keep their values whatever is done with them as operands.',
     ['histories'], 'every state of a few bit string variables and every operation out of it; all short operation sequences',
     'Aliasing shows only in a later use of another object; tests compute one result from fresh operands and look at '
     'that.',
     [('bitstring.__init__', BIT), ('bitstring.set', BIT), ('bitstring.sign_extend', BIT), ('bitstring.inverted', BIT),
      ('bit0', BIT)],
     tech='explicit-state model checking: breadth-first over variable states, each transition replayed on real objects',
     note=LIBNOTE)

prop('C20', 'Comparison, hashing, conversion and construction of bit strings',
     'Bit strings made from integers (modulo the given width; without one, 32 bits wide, or 64 from 2^32 on), '
     'binary digit strings, sequences of bits, byte arrays (little endian) and other bit strings hold '
     'exactly that value and width, and convert back to it as unsigned, two\'s complement, digits, bytes and integer. '
     'Equality holds exactly for equal width and value, equal ones hash alike, and the order is total and '
     'consistent with equality.',
     ['inputs'], 'all ordered pairs up to a width; every construction from short sequences, byte arrays and integers',
     'Tests compare a few pairs; totality and hash consistency are statements about all pairs.',
     [('bitstring.__init__', BIT), ('bitstring.__eq__', BIT), ('bitstring.__lt__', BIT), ('bitstring.__hash__', BIT),
      ('bitstring.signed', BIT)],
     tech='exhaustive small-scope enumeration of values and pairs against a model of bit vectors', note=LIBNOTE)

prop('C21', "The architecture's pseudocode functions",
     'Align, add with carry, the five shifts with and without carry out, the generic shift, the decoding of encoded '
     'shifts and the expansion of modified immediates compute exactly what the ARMv7-M pseudocode defines for '
     'every operand of any width, amount, carry in and shift type. They change none of their operands.',
     ['inputs'], 'all operands of small widths, boundary values of larger ones, all amounts and encodings',
     'Tests use a few 32-bit values per function; the pseudocode is stated for all widths and amounts.',
     [('Align', HLP), ('AddWithCarry', HLP), ('LSL_C', HLP), ('ROR_C', HLP), ('RRX_C', HLP), ('Shift_C', HLP),
      ('DecodeImmShift', HLP), ('ThumbExpandImm_C', HLP)],
     tech='exhaustive small-scope enumeration of operands against the pseudocode on integers', note=LIBNOTE)

prop('C22', 'The register file: names, aliases, stack pointers, flags, widths',
     'A register reads back as what was last written under any of its names, indexes or accessors, truncated to 32 '
     'bits, and writing one changes no other. SP is the main or the process stack pointer as the control register selects, in both directions and after every switch, and the '
     'flags and the exception number are the named bits of the xPSR, which change nothing else when written.',
     ['histories', 'inputs'], 'all histories of register writes up to a length over the aliased registers; every name and accessor',
     'Tests write a register and read it back; aliasing shows only over histories of writes to different names.',
     [('MockCpuModelDelegate.write_register', MCK), ('RegistersInterface', MOD), ('ApsrAlias', MOD),
      ('register_name_to_index', REG)],
     state=[('SP/MSP/PSP/CONTROL', 'banked stack pointer selection', MCK)],
     tech='stateless exploration of all write histories up to length 5 with full read-back against a model', note=LIBNOTE)

prop('C23', 'Memory: byte addressed, little endian, nothing outside the regions',
     'Memory regions behave as arrays of bytes, initially zero: a read of 8, 16 or 32 bits or of a block gives exactly the bytes last '
     'written there by accesses of any size and alignment, little endian. A write changes exactly its own bytes, an access that '
     'runs past the end of a region is cut off there, and outside all regions reads give zero (no data for '
     'blocks) and writes do nothing.',
     ['histories', 'inputs'], 'all histories of a few writes of every size at every position, followed by every read',
     'Tests use aligned accesses well inside a region, one write and one read.',
     [('MockCpuModelDelegate.add_memory', MCK), ('MockCpuModelDelegate.read_memory', MCK),
      ('MockCpuModelDelegate.write_memory', MCK), ('CpuModel.read_memory_block', MOD),
      ('CpuModel.write_memory_block', MOD)],
     tech='stateless exploration of all write histories up to length 2-3 with every read against a byte map', note=LIBNOTE)

prop('C24', 'Encoding specifications: what is accepted and which bits are fields',
     'An encoding declared by a bit pattern string for one or two halfwords accepts exactly the words whose fixed bits match, and its handler gets '
     'every named field with exactly the width and the bits at its place, the first word\'s first, however the pattern is '
     'spaced and split. Patterns that do not describe 16 bits or hold unknown characters are rejected.',
     ['inputs'], 'every pattern of up to 4 elements at either end of either halfword, with all settings of its bits',
     'Tests only use the patterns of the built-in instructions.',
     [('parse_spec', DEC), ('Decoder.process_fmt', DEC), ('Decoder.check', DEC), ('Decoder.decode', DEC)],
     tech='bounded exhaustive enumeration of specifications and words against a reference parser', note=LIBNOTE)

prop('C25', 'Which of several matching encodings decodes a word',
     'Of all encodings whose fixed bits match a word, the most specific (most fixed bits) one that does not decline decodes it, '
     'whatever the number of encodings and the order in which they were declared (the order only decides among equally '
     'specific ones, in favour of the earlier); one that declines passes the word on to the next. A word that none accepts is undefined, one that its decoder calls unpredictable is '
     'unpredictable.',
     ['configurations', 'inputs'], 'every ordered set of up to 4 encodings over all patterns of a few significant bits',
     'Tests only see the built-in set of encodings in its one declaration order.',
     [('DecoderTree._build_tree', DEC), ('DecoderTree.decode', DEC), ('DecoderTree.add_decoder', DEC)],
     tech='bounded exhaustive enumeration of decoder configurations and words against the specificity rule',
     note=LIBNOTE)

prop('C26', 'Utility functions: byte order, floats, masks, bit fields',
     'Conversions between byte lists and little endian 16 or 32-bit lists, and between floats and words, are exact inverses '
     'of each other; masks have exactly the bits of the given ranges and positions; reading a bit field gives exactly its bits; writing one '
     'replaces exactly those bits. Bit counts and inversion act on all bits of the value.',
     ['inputs'], 'all 16-bit and spread 32-bit patterns, floats, all bit fields of small values',
     'Tests use a few values; inverses are statements about all values.',
     [('bytes_to_le32', UTL), ('u32leListToByteList', UTL), ('bitmask', UTL), ('bfx', UTL), ('bfi', UTL),
      ('float32beToU32be', UTL)],
     tech='exhaustive small-scope enumeration of values against arithmetic definitions', note=LIBNOTE)

prop('C27', "The console's register and memory commands",
     'In the interactive simulator, register and memory commands show and change exactly the named register or the '
     'addressed bytes with the given access size, for every register name, number base, address form, dereference and '
     'length, and memory dumps show each address with its bytes. A command with an unknown register, bad number, unmapped address or '
     'wrong number of arguments prints an error, changes nothing and does not end the session.',
     ['histories', 'inputs'], 'all histories of 2 and 3 commands over a vocabulary of commands; every register',
     'The console has no tests at all.',
     [('SimTool', MAIN), ('dumpHexData', MAIN), ('cmdoptions', MAIN)],
     tech='stateless exploration of all command histories on the real console against a model of registers and bytes',
     note=REFNOTE)

prop('C28', 'Stepping, disassembling and resetting in the interactive simulator',
     'Starting or resetting the simulator on a binary loads it and takes SP and PC from its first two words, '
     'each step executes exactly the instruction at the PC and shows it, and disassembly commands show the instructions '
     'of the requested range with their addresses and mark the current one without changing any state. Undefined, unpredictable and cut off '
     'instructions are reported and leave the state alone, and lines with several or empty commands, repeats and exits behave the same in '
     'any session.',
     ['histories', 'programs', 'inputs'], 'every instruction stepped; all short programs; all reset vectors; all ranges; all sessions of a few input lines',
     'The console has no tests at all.',
     [('SimTool', MAIN), ('SimConsole', MAIN), ('main', MAIN)],
     tech='stateless exploration of sessions and programs on the real console against the reference machine',
     note=REFNOTE)

prop('C29', 'The built package behaves exactly like the source tree',
     'The package that the build produces, after the automatic source conversion, decodes, formats and executes every instruction, and '
     'evaluates every bit string, helper, utility, register and memory operation, exactly as the source tree does, errors '
     'included. The program it installs runs on a binary file, without one and with wrong arguments.',
     ['configurations', 'inputs'], 'two builds of the same tree x encodings, operations and operands',
     'The tests run on one of the two trees only and compare nothing between them.',
     [('use_2to3', 'setup.py'), ('bitstring.__init__', BIT), ('main', MAIN), ('Decoder.process_fmt', DEC)],
     tech='exhaustive lock-step comparison of the two builds over encodings, states and operations',
     note='Compares the implementation with itself, so trusts no model. Bounds are in the evidence.')


prop('C30', 'What the processor says it can do decides what instructions do',
     'A processor model that reports to be in an IT block, to have the DSP extension or to have the floating point '
     'extension is executed accordingly: 16-bit data processing instructions other than comparisons leave the flags alone in an '
     'IT block, the GE bits of the xPSR can be read and written by special register moves exactly with the DSP extension, the FPCA bit '
     'of CONTROL exactly with the floating point extension, and everything else is the same.',
     ['inputs', 'histories'], 'all 8 combinations of the three capabilities x every encoding they concern; all short sequences with changes between',
     'The tests only use the standard model, which reports none of them.',
     [('CpuModel.has_dsp_ext', MOD), ('CpuModel.has_fp_ext', MOD), ('CpuModel.in_it_block', MOD), ('DataProcessing._set_flags', INS),
      ('MoveFromSpecial', INS), ('MoveToSpecial', INS)],
     tech='explicit-state exploration of encodings, capabilities and instruction sequences against the reference machine', note=REFNOTE)

prop('C31', 'The formatter composes operand texts, hidden operands and comments',
     'The text of an instruction is its encoding and mnemonic in fixed columns, then the texts of its operands in order, '
     'separated by commas, without those that have no text, and, if any operand left a comment, the comments in order in '
     'a column of their own. Memory operands nest the same way. Every operand class gives the architectural text for '
     'all its values, operands written by users work like the built-in ones, and nothing of one instruction shows up in the next.',
     ['inputs', 'histories'], 'all values of every operand class, all short lists and nestings of operands, all short histories of instructions on one formatter',
     'The tests format a few decoded instructions; most operand combinations and all user written operands are never formatted.',
     [('Formatter.format', FMT), ('Formatter.add_comment', FMT), ('MemoryAccessOperand', FMT), ('ReglistOperand', FMT),
      ('ImmediateOperand', FMT), ('LabelOperand', FMT), ('ShiftRotateOperand', FMT), ('SpecialRegisterOperand', FMT)],
     tech='exhaustive small-scope enumeration of operands, lists, nestings and histories against a text model', note=LIBNOTE)

prop('C32', 'Encodings added by a user extend the instruction set and change nothing else',
     'Encodings declared with the decorator and built take exactly the words their pattern matches, that no encoding with more fixed '
     'bits takes and that they do not decline, in whatever order and number of builds they were added. They get their '
     'own mnemonic, class, attributes and fields, and every other word decodes as before.',
     ['histories', 'inputs'], 'all sequences of additions and builds up to a length x all 16-bit words and representatives of every 32-bit rule',
     'The tests only use the shipped instruction set, built once.',
     [('instr', DEC), ('DecoderTree.add_decoder', DEC), ('DecoderTree.build', DEC), ('DecoderTree.decode', DEC), ('Decoder.decode', DEC)],
     tech='stateless exploration of all addition histories, one process each, with complete decoding sweeps', note=REFNOTE)

prop('C33', 'Showing something changes nothing and shows what is',
     "Showing something changes nothing and shows what is: the printed forms of processors, instructions and encodings, the "
     "decoder's dump and the console's help, information, log levels and python expressions give the current values, whatever "
     'was done before, and leave registers, memory, decoding and the session unchanged.',
     ['histories', 'inputs'], 'all command histories up to a length, all register change histories up to a length, every encoding and '
     'all small decoder trees',
     'The tests never print anything, so a display that is stale, wrong or changes what it shows goes unnoticed.',
     [('CpuModel.__repr__', MOD), ('CpuModel.dump', MOD), ('Instruction.__repr__', DEC), ('DecoderTree.dump', DEC),
      ('SimTool', MAIN), ('cmdoptions', MAIN)],
     tech='stateless exploration of all histories of showing and changing, state compared after each step', note=LIBNOTE)

prop('C34', 'A failure part way is reported and leaves no trace',
     'When a delegate, an operand, a decoding handler or the consumer of a stream fails with an exception, it reaches the caller '
     'unchanged; the accesses made until then are those of an undisturbed run. Afterwards decoding, formatting, every instruction '
     'and every processor behave as if the failure had never happened. A bit string operation that is refused raises and leaves '
     'its operands as they were.',
     ['fault_sequences', 'histories'], 'every delegate call of every rule as a failure point x kinds of exceptions, all ordered pairs of rules, '
     'all failing operand lists, decoder chains and stream positions up to a length',
     'The tests have no failing delegate or operand; what is left behind by a failure shows only in what is done next.',
     [('CpuModel', MOD), ('CpuModelDelegate', MOD), ('Formatter.format', FMT), ('DecoderTree.decode', DEC), ('Disassembler', DIS),
      ('bitstring', BIT)],
     tech='exhaustive fault injection at every call of the real code, with differential replay afterwards', note=REFNOTE)

prop('C35', 'Any machine will do, and sees just the accesses of the instruction',
     'The model works with any machine that implements the delegate operations, whatever it keeps its registers and memory in. It '
     'hands it plain integers only: register numbers, 32-bit addresses and values, and sizes of 8, 16 or 32 bits. Executing an '
     'instruction makes exactly the memory accesses the architecture names for it, each once and at its own size, and what it '
     'leaves depends on nothing but what the machine returned; a memory operation of the model is one such access; decoding, formatting and showing '
     'neither access memory nor write a register.',
     ['inputs', 'histories'], 'many members of every decoding rule on machines with memory everywhere, every public register and memory '
     'operation, and all histories of them up to a length',
     'The tests use the bundled mock machine only, which accepts what a real one would not, and look at contents, not at accesses.',
     [('CpuModelDelegate', MOD), ('CpuModel', MOD), ('RegistersInterface', MOD), ('CORE_REGISTER', REG)],
     tech='exhaustive exploration of the real code against a machine that checks and records its interface, each access log compared with the model', note=REFNOTE)

def where(name, file):
    path = os.path.join('/repo', file)
    lines = open(path).read().split('\n')
    cls = None
    want = name.split('.')
    for n, l in enumerate(lines, 1):
        m = re.match(r'(\s*)(?:class|def)\s+(\w+)', l)
        if m:
            if not m.group(1):
                cls = m.group(2)
                if [cls] == want:
                    return '%s:%d' % (file, n)
            elif [cls, m.group(2)] == want:
                return '%s:%d' % (file, n)
        elif len(want) == 1 and re.match(r'\s*%s\s*=' % re.escape(want[0]), l):
            return '%s:%d' % (file, n)
    raise SystemExit('no %s in %s' % (name, file))


def main():
    with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
        for p in P:
            files = []
            for _, fn in p['mech']:
                if fn not in files:
                    files.append(fn)
            anchors = {'files': files, 'mechanism': [{'name': n, 'where': where(n, fn)} for n, fn in p['mech']]}
            if p['state']:
                anchors['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
            anchors['hook_needed'] = None
            assert len(p['title']) <= 80, p['title']
            st = re.sub(r'\s+', ' ', p['statement'])
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': st,
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
               'thorough_cmd': './check %s thorough' % p['id'], 'technique': p['tech'],
               'level': 'model_checking', 'level_note': p['note']} for p in P]
    with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}, f, indent=1)
        f.write('\n')


main()
