#!/usr/bin/env python3
"""Builds the model-checking executables from /repo's current working tree.
   Usable as a module (build_all) or a command: build.py OUTDIR SCEN.c... """
import os, re, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
MINGW = ['-isystem', '/usr/x86_64-w64-mingw32/include', '-isystem', '/usr/share/mingw-w64/include']
CXXI = '/usr/lib/gcc/x86_64-w64-mingw32/13-win32/include/c++'
TARGET = ['--target=x86_64-pc-windows-gnu-elf', '-fno-pic', '-mno-implicit-float', '-fno-stack-protector', '-w', '-ffunction-sections',
          '-ftrivial-auto-var-init=pattern']   # an uninitialised local reads as 0xAA.., never as a lucky zero
TSAN = ['-Xclang', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-mllvm', '-tsan-instrument-read-before-write=1']
DEFS = ['-DHAVE_CONFIG_H', '-DMINGW_HAS_SECURE_API', '-DPTW32_ARCHAMD64', '-DPTW32_BUILD_INLINED', '-DPTW32_STATIC_LIB']
FLAV = {
    'VC3': dict(cc=['clang', '-x', 'c'], defs=['-DPTW32_CLEANUP_C'], src='pthread-JMP.c', extra=[]),
    'VCE3': dict(cc=['clang++', '-x', 'c++', '-nostdinc++', '-isystem', CXXI, '-isystem', CXXI + '/x86_64-w64-mingw32'],
                 defs=['-DPTW32_CLEANUP_CXX', '-include', 'exception', '-fexceptions', '-Xclang', '-exception-model=sjlj'], src='pthread-EH.cpp', extra=[]),
    # as VC3 with a tiny INT_MAX: only for scenario files called cNN_small.c
    'VC3S': dict(cc=['clang', '-x', 'c'], defs=['-DPTW32_CLEANUP_C', '-include', HERE + '/small.h'], src='pthread-JMP.c', extra=[]),
}

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout

INSN = re.compile(r'^\s*(lock\s*;?\s*)?([a-z]+[a-z0-9]*)\s+(.*)$')
def memop(ops):
    """the memory operand of an instruction's operand text, or None"""
    parts, depth, cur = [], 0, ''
    for ch in ops:
        if ch == '(':
            depth += 1
        if ch == ')':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur.strip()); cur = ''
        else:
            cur += ch
    parts.append(cur.strip())
    for p in reversed(parts):
        if '(' in p or (p and p[0] not in '%$'):
            return p
    return None

def opsize(mn, ops):
    if mn.startswith('cmpxchg16'):
        return 16
    if mn.startswith('cmpxchg8'):
        return 8
    if re.search(r'%(r[a-d]x|r[sd]i|r[0-9]+|r[bs]p)\b', ops.split('(')[0]):
        return 8
    m = mn[-1]
    if m in 'bwlq' and mn not in ('xadd', 'sub'):
        return {'b': 1, 'w': 2, 'l': 4, 'q': 8}[m]
    return 4

def instrument(text):
    """Insert a scheduling/checking call in front of every lock-prefixed or memory-xchg instruction."""
    out, lines, i = [], text.split('\n'), 0
    for raw in lines:
        line = raw.split('#', 1)[0] if '#APP' not in raw and '#NO_APP' not in raw else raw
        st = line.strip()
        if not st or st.startswith('.') or st.endswith(':') or st.startswith('#'):
            out.append(raw); continue
        for piece in [x for x in st.split(';')]:
            piece = piece.strip()
            if not piece:
                continue
            if piece == 'lock':
                out.append('\t#PENDLOCK'); continue
            pend = bool(out) and out[-1] == '\t#PENDLOCK'
            if pend:
                out.pop()
            haslock = pend or piece.startswith('lock ') or piece.startswith('lock\t')
            body = re.sub(r'^lock\s+', '', piece)
            if body.replace('\t', ' ') == 'pushq %rax':      # only ever an 8-byte frame allocation in compiler output
                out.append('\tpushq\t$0'); continue
            m = re.match(r'^subq\s+\$(\d+), %rsp$', body)
            if m:                                             # frame allocation: start from zeroed slots, so that
                out.append('\t' + body)                       # stale values never make equal states look different
                n = int(m.group(1))
                if n <= 200:
                    out += ['\tmovq\t$0, %d(%%rsp)' % i for i in range(0, n - 7, 8)]
                else:
                    out += ['\tpushq\t$%d' % n, '\tcallq\tmc_zfill', '\taddq\t$8, %rsp']
                continue
            m = re.match(r'^movl\s+\$-1, (-?\d+\(%r[sb]p\))$', body)
            if m:                                             # clang 18's SjLj lowering overwrites an invoke's call site number with
                k = len(out) - 1                              # "no action" when its landing pad has only typed catch clauses: undo that
                while k >= 0 and re.match(r'^\s*(\.loc|#|$)', out[k]):
                    k -= 1
                if k >= 0 and re.match(r'^\s*movl\s+\$\d+, %s(\s|$)' % re.escape(m.group(1)), out[k]):
                    continue
            m = re.match(r'^([a-z]+[a-z0-9]*)\s+(.*)$', body)
            if m and (haslock or m.group(1).startswith('xchg')):
                mem = memop(m.group(2))
                if mem and not (m.group(1).startswith('xchg') and '(' not in mem and mem.startswith('%')):
                    addr = mem
                    if '%rsp' in mem:
                        d = re.match(r'^(-?\d*)\(', mem)
                        addr = '8+' + (mem if d and d.group(1) else '0' + mem)
                    out += ['\tpushq\t%rax', '\tleaq\t%s, %%rax' % addr, '\tcallq\tmc_atomic%d' % opsize(m.group(1), m.group(2)), '\tpopq\t%rax']
            out.append('\t' + ('lock ' if haslock else '') + body)
    return '\n'.join(out)

def compile_rt(src, obj):
    s = obj[:-2] + '.s'
    run(['clang', '-x', 'c'] + TARGET + ['-O2', '-ffreestanding', '-fno-builtin', '-gline-tables-only', '-I' + HERE, '-S', src, '-o', s])
    with open(s) as fh:
        t = instrument(fh.read())
    if 'mc_atomic' in t:
        raise BuildError('atomic instruction in the runtime')
    with open(s, 'w') as fh:
        fh.write(t)
    run(['clang', '--target=x86_64-pc-linux-gnu', '-c', s, '-o', obj])
    os.unlink(s)

def compile_win(src, obj, flav, extra=(), opt='-O1', incl=()):
    f = FLAV[flav]
    s = obj[:-2] + '.s'
    i = obj[:-2] + '.i.s'
    run(f['cc'] + TARGET + [opt, '-gline-tables-only', '-I' + REPO, '-I' + HERE] + list(incl) + MINGW + DEFS + f['defs'] + TSAN + list(extra) + ['-S', src, '-o', s])
    with open(s) as fh:
        t = instrument(fh.read())
    with open(i, 'w') as fh:
        fh.write(t)
    run(['clang', '--target=x86_64-pc-linux-gnu', '-c', i, '-o', obj])
    os.unlink(s); os.unlink(i)

def build_common(out, flavs):
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for n in ('rt', 'eh'):
            jobs.append(ex.submit(compile_rt, HERE + '/%s.c' % n, out + '/%s.o' % n))
        jobs.append(ex.submit(run, ['g++', '-O2', '-g1', '-march=x86-64-v2', '-std=c++17', '-fno-pie', '-w', '-c', HERE + '/engine.cpp', '-o', out + '/engine.o']))
        jobs.append(ex.submit(run, ['gcc', '-c', HERE + '/asm.S', '-o', out + '/asm.o']))
        for fl in flavs:
            jobs.append(ex.submit(compile_win, REPO + '/' + FLAV[fl]['src'], out + '/lib%s.o' % fl, fl))
        for j in jobs:
            j.result()

def link(out, name, flav, scenobj):
    base = '%s/%s-%s' % (out, name, flav)
    run(['ld', '-r', '-T', HERE + '/reloc.ld', '-o', base + '.r.o', out + '/lib%s.o' % flav, scenobj, out + '/rt.o', out + '/eh.o'])
    run(['objcopy', '--prefix-symbols=W_', base + '.r.o', base + '.w.o'])
    und = set(x.split()[-1] for x in run(['nm', '-u', base + '.w.o']).splitlines() if x.strip())
    have = set(x.split()[-1] for x in run(['nm', '--defined-only', out + '/asm.o']).splitlines() if x.strip())
    stubs = sorted(u for u in und if u.startswith('W_') and u not in have and u != 'W__GLOBAL_OFFSET_TABLE_')
    with open(base + '.stub.s', 'w') as f:
        f.write('\t.text\n')
        for u in stubs:
            f.write('\t.globl %s\n%s:\n\tleaq .Ln_%s(%%rip), %%rcx\n\tsubq $40,%%rsp\n\tcall W_mc_undef\n\tud2\n\t.section .rodata\n.Ln_%s: .asciz "%s"\n\t.text\n' % (u, u, u, u, u[2:]))
        f.write('\t.section .note.GNU-stack,"",@progbits\n')
    run(['gcc', '-c', base + '.stub.s', '-o', base + '.stub.o'])
    run(['g++', '-no-pie', '-Wl,-z,noexecstack', '-w', '-o', base, out + '/engine.o', out + '/asm.o', base + '.w.o', base + '.stub.o'])
    for x in ('.r.o', '.w.o', '.stub.s', '.stub.o'):
        os.unlink(base + x)
    return base, stubs

def build_scen(out, src, flav):
    name = os.path.splitext(os.path.basename(src))[0]
    obj = '%s/%s-%s.scen.o' % (out, name, flav)
    compile_win(src, obj, flav, incl=['-I' + os.path.dirname(os.path.abspath(src))])
    return link(out, name, flav, obj)

def build_all(out, srcs, flavs=('VC3', 'VCE3')):
    os.makedirs(out, exist_ok=True)
    want = [(s, f) for s in srcs for f in (flavs if not s.endswith('_small.c') else ('VC3S',) if 'VC3' in flavs or 'VC3S' in flavs else ())]
    build_common(out, sorted(set(f for _, f in want)))
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {(s, f): ex.submit(build_scen, out, s, f) for s, f in want}
        for k, v in futs.items():
            res[k] = v.result()[0]
    return res

if __name__ == '__main__':
    for (s, f), b in build_all(sys.argv[1], sys.argv[2:]).items():
        print(b)
