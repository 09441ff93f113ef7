#!/usr/bin/env python3
"""Check the contracts assumed of loop-free core functions (spec/00-lib.vspec) with Kani.

Each `assume_specification` of spec/00-lib.vspec whose arguments and result are integers, bool,
char, Ordering or Option/Result/tuples of them is translated, mechanically, into a Kani harness:
arguments are arbitrary, the `requires` clause is assumed, the `ensures` clause asserted of what
the real core function returns.  The functions have no loops, so the check is complete for the
types it covers (the back end is CBMC; no bound is involved).  Mathematical integers are i128
here, so harnesses are made for types of at most 64 bits (8 bits where a division is
involved, which the SAT back end cannot do wider); what is not covered is listed.

usage: assumptions.py [SUBSTRING]     (needs `cargo kani`; about ten minutes)
"""
import os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WANT = sys.argv[1] if len(sys.argv) > 1 else ''
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64,
        'isize': 64, 'u128': 128, 'i128': 128}
ORD = 'core::cmp::Ordering'
INT = '|'.join(BITS)


def entries():
    t = open(os.path.join(ROOT, 'spec', '00-lib.vspec')).read()
    for m in re.finditer(r'^pub assume_specification.*?;\s*$', t, re.M | re.S):
        e = m[0].rstrip().rstrip(';')
        m = re.match(r'pub assume_specification(<[^\[]*>)?\s*\[', e)
        depth, i = 1, m.end()
        while depth:
            depth += {'[': 1, ']': -1}.get(e[i], 0)
            i += 1
        name = e[m.end():i - 1].strip()
        j = e.index('(', i)
        parts, pos = [], j
        for _ in range(2):
            depth, k = 1, pos + 1
            while depth:
                depth += {'(': 1, ')': -1}.get(e[k], 0)
                k += 1
            parts.append(e[pos + 1:k - 1])
            pos = e.find('(', k)
            rest = e[k:]
            if not rest.strip().startswith('->'):
                break
        if len(parts) < 2:
            parts.append('r: ()')
        yield (m[1] or '').strip(), name, parts[0].strip(), parts[1].strip()[2:].strip(), rest.strip()


def split_top(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c in '([{<' and not (c == '<' and cur.endswith(' ')):
            depth += 1
        if c in ')]}' or (c == '>' and not cur.endswith((' ', '=', '-'))):
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def expr(e, types):
    """a clause of the spec as a Rust Boolean expression over i128"""
    if '==>' in e:
        a, b = e.split('==>', 1)
        return f'(!({expr(a.strip(), types)}) || ({expr(b.strip(), types)}))'
    e = re.sub(r'\b(\w+) is (\w+)', lambda m: f'matches!({m[1]}, {ORD}::{m[2]})', e)
    # chained comparisons
    e = re.sub(r"((?:\w+::MIN)|'\w') <= (.+?) <= ((?:\w+::MAX)|'\w')", r'(\1 <= \2 && \2 <= \3)', e)
    e = re.sub(r'\b(\w+)::(MAX|MIN)\b(?! as int)', lambda m: f'({m[0]} as int)' if m[1] in BITS else m[0], e)
    # bare integer operands of comparisons become mathematical
    e = re.sub(r'(\d)int\b', r'\1i128', e)
    for v, ty in types.items():
        if ty in BITS:
            e = re.sub(rf'(?<![\w.*&])\b{v}\b(?! as)(?=\s*(==|!=|<|>))', f'({v} as int)', e)
    e = re.sub(r'\b(r\.0|y|\w+) as int % (\w+) as int', r'(\1 as int).rem_euclid(\2 as int)', e)
    e = re.sub(r'\b(r\.0|y|\w+) as int / (\w+) as int', r'(\1 as int).div_euclid(\2 as int)', e)
    e = e.replace('as int', 'as i128')
    e = re.sub(r'\((\S+) as i128\) (<|>)', r'((\1) as i128) \2', e)
    e = re.sub(r'r\.0 == \((.*)\) as (\w+)$', r'r.0 == ((\1) as \2)', e)
    return e


def harness(k, gen, name, args, ret, body):
    types = {}
    inst = {'T': 'u8', 'U': 'u16', 'E': 'i8'}
    if gen:
        if 'Option' not in name and 'Result' not in name:
            return None, 'generic'
        ground = lambda x: re.sub(r'\b[TUE]\b', lambda m: inst[m[0]], x)
        name, args, ret = ground(name), ground(args), ground(ret)
        name = re.sub(r'^(Option|Result)::<(.*?)>::(\w+)', r'<\1<\2>>::\3', name)
    for a in split_top(args):
        v, ty = [x.strip() for x in a.split(':', 1)]
        types[v] = ty
    for ty in types.values():
        if re.fullmatch(r'(&mut )?(Option|Result)<.*>', ty):
            continue
        if ty.lstrip('&') not in BITS and ty.lstrip('&') not in ('bool', 'char', ORD):
            return None, f'argument type {ty}'
    narrow = re.search(r'i128::(signum|abs|checked_neg|is_positive|is_negative)$', name)
    div = '_ceil' in name or '_euclid' in name
    wide = [t for t in list(types.values()) if t in BITS and (BITS[t] > 64 and not narrow or div and BITS[t] > 8)]
    if wide and '::from' not in name and '::try_from' not in name:
        return None, f'{wide[0]}: too wide for the back end or for i128'
    if 'u128' in types.values() or ret == 'u128' and 'bool' not in types.values():
        return None, 'u128: mathematical values do not fit i128'
    m = re.match(r'(?:requires (.*?))?\s*ensures (.*)$', body, re.S)
    req = split_top(m[1]) if m[1] else []
    ens = split_top(m[2])
    types_r = dict(types)
    types_r['r'] = ret
    muts = {v for v, ty in types.items() if ty.startswith('&mut ')}
    lines = [f'    let mut {v}: {ty[5:]} = kani::any();\n    let old_{v} = {v};' if v in muts else
             f'    let {v}: Option<u8> = kani::any();\n    let {v}r = {v}.as_ref();' if ty == 'Option<&u8>' else
             f'    let {v}: {ty.lstrip("&")} = kani::any();' if ty != ORD else
             f'    let {v}: {ty} = match kani::any::<u8>() % 3 {{ 0 => {ORD}::Less, 1 => {ORD}::Equal, _ => {ORD}::Greater }};'
             for v, ty in types.items()]
    refs = {v for v, ty in types.items() if ty.startswith('&') and v not in muts}
    def fix(e):
        e = re.sub(r'\*(?:old|final)\((\w+)\)', lambda m: ('old_' if 'old' in m[0] else '') + m[1], e)
        e = re.sub(r'\b(\w+) is Some', r'\1.is_some()', e)
        e = e.replace('Some(*x)', 'Some(x)') if 'Option<&u8>' in types.values() else e
        return re.sub(r'\*(%s)\b' % '|'.join(refs), r'\1', e) if refs else e
    lines += [f'    kani::assume({expr(fix(e), types)});' for e in req if e]
    call = ', '.join(('&mut ' if v in muts else '&' if v in refs else '') + v + ('r' if types[v] == 'Option<&u8>' else '') for v in types)
    lines.append(f'    let r: {ret} = {name}({call});')
    for e in ens:
        e = fix(e)
        if ret in BITS:
            e = re.sub(r'^r == \(if (.*)\)$', r'r as int == (if \1)', e)
        if ret in BITS and e.startswith('r == (match'):
            e = 'r.eq(&' + e[5:] + ')'
        e = re.sub(r'\(\*?(\w+) as u32 ([+-]) 32\) as char', r'((\1 as u8 \2 32) as char)', e)
        if e.startswith('match r'):
            e = re.sub(r'x > (\w+::MAX)', r'(x as int) > (\1 as int)', e)
        lines.append(f'    assert!({expr(e, types_r)});')
    return f'// {name}\n#[kani::proof]\nfn h{k}() {{\n' + '\n'.join(lines) + '\n}\n', None


def main():
    out, skipped, names = [], [], {}
    for k, (gen, name, args, ret, body) in enumerate(entries()):
        if WANT not in name:
            continue
        h, why = harness(k, gen, name, args, ret, body)
        if h:
            out.append(h)
            names[f'h{k}'] = name
        else:
            skipped.append((name, why))
    d = tempfile.mkdtemp(prefix='vx-assume-')
    os.makedirs(d + '/src')
    open(d + '/Cargo.toml', 'w').write('[package]\nname="assume"\nversion="0.1.0"\nedition="2021"\n[workspace]\n')
    open(d + '/src/lib.rs', 'w').write('#![cfg(kani)]\n#![allow(unused_parens, unused_comparisons)]\n'
                                        'fn abs_int(a: i128) -> i128 { if a < 0 { -a } else { a } }\n' + '\n'.join(out))
    p = subprocess.run(['cargo', 'kani', '-j', '6', '--output-format', 'terse', '-Z', 'unstable-options', '--harness-timeout', '120s'], cwd=d, capture_output=True, text=True,
                       env=dict(os.environ, CARGO_NET_OFFLINE='true'))
    txt = p.stdout + p.stderr
    ok = 0
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', txt)
    for b in sorted(set(re.findall(r'Verification failed for - (\w+)', txt))):
        print('FAILED', names.get(b, b))
    if not m:
        print(txt[-4000:])
    else:
        print(f'{m[1]} of {m[3]} assumed contracts verified against core by Kani, {m[2]} failed')
    for n, w in skipped:
        print(f'  not covered: {n} ({w})')
    if m:
        shutil.rmtree(d)
    sys.exit(0 if m and m[2] == '0' else 1)


main()
