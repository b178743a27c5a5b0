"""Per-property run sizes, evidence wording, exercise floors."""

COMMON_ASSUMPTIONS = [
    'The staged copy of /repo/cmdis is instrumented with a scheduling point before every '
    'statement of every function; nothing else of it is changed.',
    'Preemption and interrupts happen at statement boundaries and at backend accesses, '
    'not inside a single statement.',
    'A clean batch is evidence from sampled runs, not a proof.',
]

REAL = ['decoder', 'instructions', 'helpers', 'bitstring', 'model', 'registers',
        'formatter', 'mock_cpu backend', 'disasm']
STUB = ['fault seam between CPU model and backend (forwards every access, injects errors)']

EXEC_RULE = (
    'One run = one seeded scenario: 1-2 machines (memory map, registers, code image) and '
    '12-60 operations (plant and step an instruction with chosen operands, step at PC, '
    're-execute a decoded instruction, debugger reads and writes, injected backend errors '
    'and interrupts with retry). ')

PROPS = {}


def _p(pid, quick, thorough, rule, real=REAL, stub=STUB, **k):
    PROPS[pid] = dict(quick=quick, thorough=thorough, rule=rule, real=real, stub=stub, **k)


_REFA = ['The reference model (sim/ref.py) states the Armv7-M semantics; encodings that are '
         'unpredictable there are not judged.']
for _pid, _what in (('E01', 'data-processing'), ('E02', 'next-PC of every'),
                    ('E03', 'single load/store'), ('E04', 'stack and multiple transfer'),
                    ('E05', 'system')):
    _p(_pid, 4000, 200000, EXEC_RULE + 'Non-trivial: a judged %s step, distinct by '
       'instruction, flags before, whether re-executed, whether after an injected fault, '
       'and operand classes.' % _what, assumptions=_REFA, floors={'judged': 1500})
_p('F01', 2600, 160000, EXEC_RULE + 'Non-trivial: a backend memory error that actually '
   'fired inside an instruction, distinct by instruction, access number, before/after the '
   'access, and error type.', floors={'faults': 3000})
_p('F02', 2600, 160000, EXEC_RULE + 'Non-trivial: a register-access error or asynchronous '
   'interrupt that fired inside an instruction, distinct by instruction, kind and exact '
   'position.', floors={'faults': 3000})
_p('F03', 3000, 160000, EXEC_RULE + 'Non-trivial: a judged step, distinct by instruction, '
   'disturbance and number of CPU objects on the backend.', floors={'judged': 3000})
_p('F04', 4000, 160000, EXEC_RULE + 'Bytes are flipped, random, near-valid or truncated. '
   'Non-trivial: a refused decode or a judged step, distinct by instruction or by error '
   'and leading byte.', floors={'refused': 500})
_p('I02', 3000, 160000, EXEC_RULE + 'Non-trivial: a judged step of a shared decoded '
   'instruction, distinct by instruction, re-execution and disturbance.',
   floors={'reuse': 3000})


_p('M03', 4000, 200000, EXEC_RULE + 'Every memory access that reaches the backend is logged. '
   'Non-trivial: a judged step, distinct by instruction, number, width and alignment of its '
   'accesses, re-execution, fault and number of CPU objects.', assumptions=_REFA,
   floors={'judged': 10000, 'judged_accesses': 5000})

_p('P01', 2000, 150000, 'One run = the same 8-40 operations (decode, disassemble, format, execute, '
   'registers, memory, attach, rebuild, bit strings; some failing or interrupted, always at the '
   'same points) done 8 or 40 rounds over on machines put back to the same state. Judged: the '
   'results of every round, the statements each operation takes, and everything reachable from '
   'the package and the objects in use. Non-trivial: an operation kind with its disturbance, '
   'outcome and mnemonic.', assumptions=[
       'Work is counted in statements of the package; retained data in reachable objects, '
       'container items and text length, not in bytes.'],
   floors={'judged': 10000, 'rounds': 5000, 'faults': 1000})

_p('I01', 5000, 200000, 'One run = 2-4 callers (greenlets) sharing the global decoder and '
   'decoded instructions, each with its own target, preempted at seeded statements, some '
   'interrupted; every caller compared with itself running alone. Distinct: the exact '
   'interleaving (sequence of caller and statement number at every switch).',
   real=REAL, stub=['threads (greenlets under the seeded scheduler)',
                    'threading.Lock/RLock/local (scheduler-aware stand-ins)'],
   floors={'overlaps': 10000, 'faults': 5000})
_p('I03', 12000, 600000, 'One run = a history of operations on shared bitstring objects, '
   'aliasing ones and nested ones included, with interrupts at seeded statements and bad '
   'operands, against integer models. Non-trivial: an operation compared with its model, '
   'distinct by operation, operand-width classes, disturbance and nesting.',
   real=['bitstring'], stub=[], floors={'ops': 20000, 'faults': 3000})
_p('M01', 10000, 500000, 'One run = a seeded memory map (adjacent regions, odd lengths, top '
   'of the address space) and a history of accesses of all widths through several CPU '
   'objects, with backend errors, interrupts and accesses nested inside others. '
   'Non-trivial: a compared access, distinct by kind, width, placement relative to the '
   'regions, length class, disturbance and nesting.',
   real=['model', 'registers', 'bitstring', 'mock_cpu backend'],
   floors={'ops': 20000, 'faults': 2000})
_p('M02', 10000, 500000, 'One run = a history of register reads and writes by name, index '
   'and attribute through several CPU objects, with faults, interrupts and nested accesses. '
   'Non-trivial: a compared register access, distinct by register, route, value class, '
   'stack selection and disturbance.',
   real=['model', 'registers', 'bitstring', 'mock_cpu backend'],
   floors={'ops': 20000, 'faults': 2000})
_p('D01', 8000, 400000, 'One run = byte streams disassembled lazily by several readers in a '
   'seeded order, the code changing, reads failing, interrupts inside, iterations '
   'abandoned. Non-trivial: one step of a reader compared with the reference decoder, '
   'distinct by outcome, position in the buffer, disturbance and mnemonic.',
   floors={'judged': 20000, 'faults': 2000})
_p('D02', 8000, 400000, 'One run = instructions decoded and printed repeatedly, with and '
   'without a CPU, executed in between, with other printing nested inside and interrupts. '
   'Non-trivial: a text compared with the reference text, distinct by encoding, operand '
   'kinds, whether executed before, and disturbance; and branch targets executed.',
   floors={'judged': 15000, 'faults': 2000})
_p('D03', 6000, 300000, 'One run = 2-30 generated overlapping encodings (and the package\'s '
   'own) registered in a seeded order, with builds interrupted or decodes run in the '
   'middle of one. Non-trivial: a decoded word compared with an exhaustive '
   'most-specific-first search, distinct by instant, width, outcome, number of encodings '
   'and overlap.', real=['decoder', 'instructions', 'disasm', 'formatter', 'bitstring'],
   stub=[], floors={'judged': 20000, 'judged_real': 3000})

_CREAL = ['__main__ console (converted with 2to3 as the build does)', 'model', 'registers',
          'mock_cpu backend', 'disasm', 'decoder', 'formatter', 'instructions', 'utilities']
_CSTUB = ['standard input, output and error', 'argv', 'image file (simulated open and read)',
          'fault seam around the mock backend']
_CASS = ['A step of an instruction the reference model does not define is not judged.',
         'Output is judged by the data it shows (addresses, values, instruction text), not by '
         'wording or layout.']
_p('C01', 5000, 250000, 'One run = one console session: seeded image, 6-30 command lines '
   '(valid, malformed, repeated, several per line) until exit or end of input. Non-trivial: '
   'a line whose effect on target and output was compared with the model, distinct by '
   'command, alias, position and register.', real=_CREAL, stub=_CSTUB, assumptions=_CASS,
   floors={'judged': 8000, 'outputs': 5000, 'faults': 300})
_p('C02', 3000, 150000, 'One run = one console session with interrupts inside commands and '
   'at prompts and failing target accesses; every interrupted line is compared with an '
   'undisturbed second console in the same state. Non-trivial: a disturbance that fired, '
   'distinct by command, position, access kind and error.', real=_CREAL, stub=_CSTUB,
   assumptions=_CASS + ['Interrupts land inside what the read loop calls and at the prompt, '
                        'not between two statements of the read loop itself.'],
   floors={'faults': 4000, 'judged': 5000})
_p('C03', 8000, 400000, 'One run = one console start with a seeded image (0 to 75000 bytes, '
   'vectors in, at the edge of and outside memory, open and read errors) and a session of '
   'vector rewrites and resets. Non-trivial: a start or line compared with the model, '
   'distinct by image length class, vector placement and command.', real=_CREAL, stub=_CSTUB,
   assumptions=_CASS + ['Stack vectors up to 0x20100000 (RAM is allocated up to it).'],
   floors={'judged': 4000, 'faults': 50})
