#!/usr/bin/env python3
"""Post-processes compiler-generated assembly of instrumented translation units:
 - inline-asm instructions with a memory operand become scheduling points (read-modify-writes that
   lack a LOCK prefix become two-step ones),
 - calls to the libc routines the simulator models are redirected to __sim_* stand-ins."""
import re, sys
REDIR = {k: '__sim_' + k for k in (
    'memcpy memmove memset memcmp strlen strcpy strncpy fopen fopen64').split()}
RMW = re.compile(r'^(xadd|cmpxchg|bts|btr|btc|add|sub|inc|dec|and|or|xor|neg|not|adc|sbb|shl|shr|sal|sar)(8b|16b|[bwlq])?$')
MEM = re.compile(r'([%\w.$+-]*:)?[-+\w.$@]*\([^)]*\)|[A-Za-z_.][\w.$@+-]*\(%rip\)')
SUF = {'b': 1, 'w': 2, 'l': 4, 'q': 8}

def regsize(ops):
    m = re.findall(r'%([a-z0-9]+)', re.sub(r'\([^)]*\)', '', ops))
    for r in m:
        if r.startswith('xmm'): return 16
        if re.match(r'^r(ax|bx|cx|dx|si|di|bp|sp|\d+)$', r): return 8
        if re.match(r'^(e..|r\d+d)$', r): return 4
        if re.match(r'^(..|r\d+w)$', r) and r not in ('al','ah','bl','bh','cl','ch','dl','dh'): return 2
        return 1
    return 4

def emit(out, mem, size, fn):
    out.append('\tmovq %%r11, __sim_r11(%%rip)\n\tleaq %s, %%r11\n\tmovq %%r11, __sim_ea(%%rip)\n'
               '\tmovq __sim_r11(%%rip), %%r11\n\tpushq $%d\n\tcall %s\n' % (mem, size, fn))

def asm_line(line, out):
    body = line.split('#')[0].strip()
    for stmt in re.split(r';|\n', body):
        stmt = stmt.strip()
        if not stmt: continue
        m = re.match(r'^(?:(lock|rep|repe|repne|repz|repnz)\s+)?([a-z0-9.]+)\s*(.*)$', stmt)
        if m and '(' in stmt:
            pre, op, ops = m.group(1), m.group(2), m.group(3)
            mm = MEM.search(ops)
            if mm and not op.startswith(('lea', 'nop', 'prefetch', 'clflush', 'j', 'call')) and ':' not in mm.group(0) and '%rsp' not in mm.group(0):
                r = RMW.match(op)
                if r and r.group(2) in ('8b', '16b'): size = 8 if r.group(2) == '8b' else 16
                elif op[-1] in SUF and not (op in ('sub','shl','sal')): size = SUF[op[-1]] if (r is None or r.group(2)) else regsize(ops)
                else: size = regsize(ops)
                dst = ops.rstrip().endswith(mm.group(0)) or op.startswith(('cmpxchg8b','cmpxchg16b','inc','dec','neg','not'))
                torn = bool(r) and pre != 'lock' and dst
                emit(out, mm.group(0), size, '__sim_asm_torn' if torn else '__sim_asm_point')
        out.append('\t' + stmt + '\n')

def main():
    src, dst = sys.argv[1:3]
    out, app = [], False
    call = re.compile(r'^(\s+(?:call|jmp)\s+)(\w+)(@PLT)?\s*$')
    for line in open(src, encoding='latin-1'):
        if line.startswith('#APP'): app = True; out.append(line); continue
        if line.startswith('#NO_APP'): app = False; out.append(line); continue
        if app:
            if line.startswith('#') or line.lstrip().startswith('.'): out.append(line)
            else: asm_line(line, out)
            continue
        m = call.match(line)
        if m and m.group(2) in REDIR: line = m.group(1) + REDIR[m.group(2)] + '\n'
        out.append(line)
    open(dst, 'w', encoding='latin-1').writelines(out)
main()
