#!/usr/bin/env python3
# Random types: generates a program with them, compiles and runs it, compares their schemas with what was generated;
# then compiles the code the schema describes, and checks it is of the same types, accepts the same data, evolves.
# Prints lines for h_schema.cc: VIOLATION key\tdetail, COUNT key n, DISTINCT n.
import hashlib, json, os, random, shutil, subprocess, sys

seed, out, cycles = int(sys.argv[1]), sys.argv[2], sys.argv[3] == 'cycles'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = sys.argv[4]
R = random.Random(seed)
CXX = ['clang++', '-std=c++17', '-O0', '-w', '-DCURRENT_CI', '-pthread'] + (
    [['-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment', '-fno-sanitize-recover=undefined'], ['-fsanitize=thread'], ['-fsanitize=address']][seed % 3]) + [
    '-I' + REPO, '-I' + HERE, '-I' + out, '-ftemplate-depth=2000']
VIOLATIONS = 0


def violation(key, detail):
    global VIOLATIONS
    VIOLATIONS += 1
    print('VIOLATION %s\t%s' % (key, detail.replace('\\', '\\\\').replace('\n', '\\n').replace('\t', ' ')[:2500]), flush=True)


def count(k, n=1):
    print('COUNT %s %d' % (k, n))


PRIM = ['bool', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'std::string', 'float', 'double',
        'std::chrono::microseconds', 'std::chrono::milliseconds', 'char']
PRIM_ID = dict(zip(PRIM, [11, 21, 22, 23, 24, 31, 32, 33, 34, 42, 51, 52, 61, 62, 41]))
KEYS = ['uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'std::string', 'std::string', 'std::string']
ENUM_UNDER = ['uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t']

enums, structs, templates, variants = {}, {}, {}, {}
order = []  # Of definitions: ('e'|'s'|'t'|'v', name).
used = set()  # Names.
WORDS = ['Alpha', 'Beta', 'Item', 'User', 'Node', 'Record', 'Entry', 'Point', 'X', 'Y', 'Foo', 'Bar', 'Event', 'Key']


def name(prefix=''):
    while True:
        n = prefix + R.choice(WORDS) + R.choice(['', '', 'Z', '2', '_', 'Full', str(R.randrange(1000))])
        # Names with a common suffix or prefix are fine, the same are not; those ending with "_Z" are for templates.
        if n not in used and not n.endswith('_Z'):
            used.add(n)
            return n


def cpp(t):
    k = t[0]
    if k == 'p': return t[1]
    if k in 'es': return t[1]
    if k == 't': return '%s<%s>' % (t[1], cpp(t[2]))
    if k == 'v': return t[1] if t[1] else 'Variant<%s>' % ', '.join(map(cpp, t[2]))
    if k == 'arr': return 'std::array<%s, %d>' % (cpp(t[1]), t[2])
    return {'vec': 'std::vector', 'map': 'std::map', 'umap': 'std::unordered_map', 'set': 'std::set', 'uset': 'std::unordered_set', 'pair': 'std::pair', 'opt': 'Optional'}[k] + '<%s>' % ', '.join(map(cpp, t[1:]))


def key():
    if enums and R.random() < 0.2: return ('e', R.choice(list(enums)))
    return ('p', R.choice(KEYS))


# The C++ code generated for instances of templates is known to compile only if they are fields of structs; no native C++ for them.
TEMPLATES = R.choice(['none', 'none', 'fields', 'any'])


def record(direct=False):  # A struct, or an instance of a template.
    if templates and R.random() < 0.3 and (direct or TEMPLATES == 'any'):
        return ('t', R.choice(list(templates)), R.choice([('s', R.choice(list(structs))) if structs else ('p', 'int32_t'), ('p', R.choice(PRIM)) if R.random() < 0.3 else ('s', R.choice(list(structs)))]))
    return ('s', R.choice(list(structs)))


def variant():
    if variants and R.random() < 0.5:
        n = R.choice(list(variants))
        return ('v', n, variants[n])
    return ('v', None, cases())


def cases():
    c = []
    for _ in range(R.choice([1, 2, 2, 3, 4])):
        r = record()
        if r not in c: c.append(r)
    return tuple(c)


def typ(depth, direct=False):
    r = R.random()
    if depth == 0 or r < 0.3: return ('p', R.choice(PRIM))
    if r < 0.36 and enums: return ('e', R.choice(list(enums)))
    if r < 0.52 and structs: return record(direct)
    if r < 0.60 and structs: return variant()
    d = depth - 1
    k = R.choice(['vec', 'map', 'pair', 'opt'] * 5 + ['arr', 'umap', 'set', 'uset'])
    if k == 'vec':
        t = typ(d)
        return ('vec', t) if t != ('p', 'bool') else ('vec', ('p', 'int8_t'))
    if k == 'arr': return ('arr', typ(d), R.choice([1, 2, 3, 7]))
    if k in ('map', 'umap'): return (k, key(), typ(d))
    if k in ('set', 'uset'): return (k, ('p', R.choice(KEYS)))
    if k == 'pair': return ('pair', typ(d), typ(d))
    t = typ(d)
    return ('opt', t) if t[0] != 'opt' else t


DESC = ['Simple.', 'With "quotes".', "It's", 'back\\slash', 'a|b', 'two\nlines', 'percent %s %d', 'tick `x`', 'ends with backslash \\', 'UTF: \u044f', '?' + '?/ trigraph', '// not */ a /* comment', '  spaces  ', '{}', 'tab\there']


def lit(s):
    r = ''
    for b in s.encode():
        c = chr(b)
        if c in '"\\': r += '\\' + c
        elif b < 32 or b >= 127 or c == '?': r += '\\%03o' % b
        else: r += c
    return '"' + r + '"'


def fields(n, extra=()):
    res, names = [], set()
    for _ in range(n):
        while True:
            f = R.choice(['x', 'y', 'id', 'name', 'value', 'type', 'data', 'f', 'method', 'key', 'from', 'into']) + R.choice(['', '', '_', '1', '2', str(R.randrange(100))])
            if f not in names and f not in extra: break
        names.add(f)
        t = ('T',) if templates_open and R.random() < 0.5 else typ(R.choice([0, 1, 1, 2, 3]), not templates_open)
        res.append([f, t, R.choice(DESC) if R.random() < 0.3 else None])
    return res


templates_open = False


def all_names(s):
    if s is None: return set()
    d = structs[s]
    return {f[0] for f in d['fields']} | all_names(d['super'])


code = []
for _ in range(R.randrange(0, 3)):
    n = name('E')
    enums[n] = R.choice(ENUM_UNDER)
    vals = ', '.join('%sV%d = %d' % (n, i, i * 3) for i in range(R.randrange(1, 4)))
    code.append('CURRENT_ENUM(%s, %s) { %s };' % (n, enums[n], vals))
    order.append(('e', n))


def field_lines(fl):
    res = []
    for f, t, d in fl:
        c = cpp(t) if t != ('T',) else 'T'
        res.append('  CURRENT_FIELD(%s, %s);' % (f, '(' + c + ')' if ',' in c else c))
    for f, t, d in R.sample(fl, len(fl)):
        if d: res.append('  CURRENT_FIELD_DESCRIPTION(%s, %s);' % (f, lit(d)))
    return res


def define():
    global templates_open
    r = R.random()
    if r < 0.62 or not structs:
        n = name()
        sup = R.choice(list(structs)) if structs and R.random() < 0.3 else None
        fl = fields(R.choice([0, 1, 1, 2, 3, 4, 5, 8]) if R.random() < 0.95 else 14, all_names(sup))
        structs[n] = dict(super=sup, fields=fl)
        code.append('CURRENT_STRUCT(%s%s) {' % (n, ', ' + sup if sup else ''))
        code.extend(field_lines(fl))
        code.append('};')
    elif r < 0.8 and TEMPLATES != 'none':
        n = name('T')
        templates_open = True
        # The fields of templates are of types other than templates.
        sup = R.choice(list(structs)) if R.random() < 0.3 else None
        fl = fields(R.choice([1, 2, 3]), all_names(sup))
        if not any(f[1] == ('T',) for f in fl): fl[0][1] = ('T',)
        templates_open = False
        templates[n] = dict(super=sup, fields=fl)
        code.append('CURRENT_STRUCT_T(%s%s) {' % (n, ', ' + sup if sup else ''))
        code.extend(field_lines(fl))
        code.append('};')
    else:
        n = name('V')
        variants[n] = cases()
        code.append('CURRENT_VARIANT(%s, %s);' % (n, ', '.join(map(cpp, variants[n]))))
    order.append(n)


for _ in range(R.choice([5, 8, 11, 14])): define()

cyc = []
if cycles:
    # Structs referring to each other in any way.
    names = [name('C') for _ in range(R.choice([1, 2, 3, 4]))]
    for n in names: code.append('CURRENT_FORWARD_DECLARE_STRUCT(%s);' % n)
    for n in names:
        fl, fn = [], set()
        for i in range(R.choice([1, 2, 3])):
            m = ('s', R.choice(names))
            t = R.choice([('vec', m), ('map', ('p', 'std::string'), m), ('vec', ('map', ('p', 'int32_t'), m)), ('pair', ('vec', m), ('p', 'std::string')), ('p', 'int32_t'), ('vec', ('v', None, (m,)))])
            fl.append(['f%d' % i, t, None])
        structs[n] = dict(super=None, fields=fl)
        code.append('CURRENT_STRUCT(%s) {' % n)
        code.extend(field_lines(fl))
        code.append('};')
        cyc.append(n)

# Everything to look at: structs, variants, templates, and what their fields are.
roots = [('s', n) for n in structs] + [('v', n, c) for n, c in variants.items()]


def subst(t, a):
    if t == ('T',): return a
    return tuple(subst(x, a) if isinstance(x, tuple) else x for x in t)


def children(t):
    k = t[0]
    if k in 'pe': return []
    if k == 's':
        s = structs[t[1]]
        return ([('s', s['super'])] if s['super'] else []) + [f[1] for f in s['fields']]
    if k == 't':
        s = templates[t[1]]
        return ([('s', s['super'])] if s['super'] else []) + [subst(f[1], t[2]) for f in s['fields']]
    if k == 'v': return list(t[2])
    return [x for x in t[1:] if isinstance(x, tuple)]


seen = []


def walk(t):
    if t in seen: return
    seen.append(t)
    for c in children(t): walk(c)


for r in roots: walk(r)
for t in list(seen):
    if (t[0] == 't' or (t[0] == 'v' and not t[1])) and t not in roots: roots.append(t)


def evolvable(t, path=()):
    k = t[0]
    # Fixed-size arrays, sets, and unordered containers have no evolvers.
    if k in ('arr', 'set', 'uset', 'umap'): return False
    if t in path: return True
    return all(evolvable(c, path + (t,)) for c in children(t))


types_h = ['#pragma once', '#include "typesystem/struct.h"', '#include "typesystem/schema/schema.h"', '#include "typesystem/serialization/json.h"', '#include "typesystem/evolution/type_evolution.h"', 'namespace orig {'] + code
# Types which differ from the above in one thing only, and thus are other types.
twins, twin_code = [], []
for t in list(seen):
    k = t[0]
    if k == 's' and t[1] not in cyc:
        s = structs[t[1]]
        f = [list(x) for x in s['fields']]
        how = R.choice(['swap', 'swap', 'swap types', 'rename', 'drop', 'retype', 'add'])
        if how.startswith('swap') and len(f) > 1:
            i, j = R.sample(range(len(f)), 2)
            if how == 'swap': f[i], f[j] = f[j], f[i]
            else: f[i][1], f[j][1] = f[j][1], f[i][1]
        elif how == 'rename' and f: f[R.randrange(len(f))][0] += 'q'
        elif how == 'drop' and f: f.pop(R.randrange(len(f)))
        elif how == 'retype' and f:
            i = R.randrange(len(f))
            f[i][1] = ('vec', f[i][1]) if f[i][1] != ('p', 'bool') else ('p', 'uint8_t')
        else: f.append(['added', ('p', R.choice(PRIM)), None])
        if [x[:2] for x in f] == [x[:2] for x in s['fields']]: continue
        if any(x[1] == t for x in f): continue
        ns = 'twin%d' % len(twins)
        twin_code += ['namespace %s {' % ns, 'CURRENT_STRUCT(%s%s) {' % (t[1], ', ' + s['super'] if s['super'] else '')] + field_lines(f) + ['};', '}']
        twins.append((ns + '::' + t[1], 'struct ' + how))
    elif k == 'v' and t[1]:
        c = list(t[2])
        if len(c) > 1: c = R.choice([c[1:], c[::-1]])
        else: continue
        ns = 'twin%d' % len(twins)
        twin_code += ['namespace %s {' % ns, 'CURRENT_VARIANT(%s, %s);' % (t[1], ', '.join(map(cpp, c))), '}']
        twins.append((ns + '::' + t[1], 'variant'))
    else:
        other = None
        if k == 'arr': other = (k, t[1], R.choice([t[2] + 1, t[2] + 256, t[2] * 2]))
        elif k == 'pair': other = (k, t[2], t[1])
        elif k in ('map', 'umap') and t[2][0] == 'p' and t[2][1] in KEYS: other = (k, t[2], t[1])
        elif k == 'v' and len(t[2]) > 1: other = (k, None, R.choice([t[2][1:], t[2][::-1]]))
        elif k in ('set', 'vec'): other = ('opt', t[1]) if t[1][0] != 'opt' else None
        if other and other not in seen and cpp(other) not in [x[0] for x in twins]: twins.append((cpp(other), k))
types_h += twin_code
types_h += ['using twin_type%d = %s;' % (i, t[0]) for i, t in enumerate(twins)]
types_h += ['using root%d = %s;' % (i, cpp(t)) for i, t in enumerate(roots)]
types_h += ['using type%d = %s;' % (i, cpp(t)) for i, t in enumerate(seen)]
types_h += ['}  // namespace orig']
os.makedirs(out, exist_ok=True)
open(out + '/types.h', 'w').write('\n'.join(types_h) + '\n')

st1 = '''#include "types.h"
#include "schema_common.h"
int main() {
  Stage1 s;
''' + ''.join('  s.template Type<orig::type%d>(%d);\n' % (i, i) for i in range(len(seen))) + ''.join('  s.template Type<orig::twin_type%d>(%d);\n' % (i, i + len(seen)) for i in range(len(twins))) + '  s.TypesDone();\n' + ''.join('  s.template Root<orig::root%d>(%d);\n' % (i, i) for i in range(len(roots))) + '''
  return s.Done(%d);
}
''' % seed
open(out + '/stage1.cc', 'w').write(st1)


def run(cmd, what, timeout=400):
    p = subprocess.run(cmd, cwd=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors='replace')
    return p


def build(src, exe):
    return run(CXX + [src + '.cc', '-o', exe], src)


p = build('stage1', 'stage1')
if p.returncode:
    # The types are made not to be refused by the compiler.
    print('FATAL stage1 does not compile: ' + p.stderr[:3000].replace('\n', '\\n'))
    sys.exit(3)
p = run(['./stage1'], 'stage1')
lines = p.stdout.split('\n')
if p.returncode or not any(l == 'DONE' for l in lines):
    violation('schema:crash', 'seed %d: %d %s' % (seed, p.returncode, p.stderr[-2000:]))
    sys.exit(0)
ids, schemas = {}, {}
for l in lines:
    if l.startswith('VIOLATION '):
        violation(*l[10:].split('\t'))
    elif l.startswith('TYPE '):
        _, i, x = l.split()
        ids[int(i)] = int(x)
    elif l.startswith('SCHEMA '):
        _, i, j = l.split(' ', 2)
        schemas[int(i)] = json.loads(j)
count('types', len(seen))
count('roots', len(roots))
print('EVAL %d' % (len(seen) + len(roots)))
print('SAMPLE ' + ' '.join(code)[:600])
for x in set(ids.values()): print('DISTINCT %d' % x)

PREFIX = dict(p=900, e=901, s=920, t=920, opt=921, v=922, arr=930, vec=931, set=932, pair=933, map=934, uset=935, umap=936)
by_id = {}
for i, t in enumerate(seen):
    if ids[i] // 10**16 != PREFIX[t[0]]: violation('schema:typeid prefix', '%s has the id of %d' % (cpp(t), ids[i]))
    if t[0] == 'p' and ids[i] != 900 * 10**16 + PRIM_ID[t[1]]: violation('schema:primitive', '%s %d' % (cpp(t), ids[i]))
    # Named and not named variants of the same cases are the same type id-wise only if of the same name.
    if ids[i] in by_id and by_id[ids[i]] != t: violation('schema:typeid collision', '%s and %s' % (cpp(t), cpp(by_id[ids[i]])))
    by_id[ids[i]] = t
for i, t in enumerate(twins):
    x = ids[i + len(seen)]
    if x in by_id: violation('schema:typeid of another type', '%s (%s) has the ID of %s' % (t[0], t[1], cpp(by_id[x]) if by_id[x] else 'another twin'))
    by_id_twin = by_id.setdefault(x, None)
by_id = {k: v for k, v in by_id.items() if v}
count('twins', len(twins))
id_of = {t: ids[i] for i, t in enumerate(seen)}


def check_schema(info, root):
    types = dict((int(k[1:]) if isinstance(k, str) else int(str(k).lstrip('T')), v) for k, v in info['types'])
    need, todo = [], [root]
    while todo:
        t = todo.pop()
        if t in need: continue
        need.append(t)
        todo.extend(children(t))
        if t[0] == 'e': todo.append(('p', enums[t[1]]))
    # The underlying types of enums need not be among those looked at.
    want = {id_of.get(t, 900 * 10**16 + PRIM_ID[t[1]] if t[0] == 'p' else 0): t for t in need}
    if set(types) - set(want) - set(id_of.values()): violation('schema:extra', '%s: %s' % (cpp(root), sorted(set(types) - set(want))))
    # The argument of the template is a part of the schema as far as it is known.
    if set(want) - set(types): violation('schema:missing', '%s: %s' % (cpp(root), [cpp(want[x]) for x in set(want) - set(types)]))
    T = lambda x: int(str(x).lstrip('T'))
    for i, d in types.items():
        t = by_id.get(i, want.get(i))
        if t is None: continue
        (kind, v), = d.items()
        ref = lambda x: id_of.get(x, 900 * 10**16 + PRIM_ID[x[1]] if x[0] == 'p' else 0)
        ok = T(v['type_id']) == i
        k = t[0]
        if k == 'p': ok &= kind == 'ReflectedType_Primitive'
        elif k == 'e': ok &= kind == 'ReflectedType_Enum' and v['name'] == t[1] and T(v['underlying_type']) == ref(('p', enums[t[1]]))
        elif k == 'arr': ok &= kind == 'ReflectedType_Array' and T(v['element_type']) == ref(t[1]) and v['size'] == t[2]
        elif k == 'vec': ok &= kind == 'ReflectedType_Vector' and T(v['element_type']) == ref(t[1])
        elif k == 'map': ok &= kind == 'ReflectedType_Map' and T(v['key_type']) == ref(t[1]) and T(v['value_type']) == ref(t[2])
        elif k == 'umap': ok &= kind == 'ReflectedType_UnorderedMap' and T(v['key_type']) == ref(t[1]) and T(v['value_type']) == ref(t[2])
        elif k == 'set': ok &= kind == 'ReflectedType_Set' and T(v['value_type']) == ref(t[1])
        elif k == 'uset': ok &= kind == 'ReflectedType_UnorderedSet' and T(v['value_type']) == ref(t[1])
        elif k == 'pair': ok &= kind == 'ReflectedType_Pair' and T(v['first_type']) == ref(t[1]) and T(v['second_type']) == ref(t[2])
        elif k == 'opt': ok &= kind == 'ReflectedType_Optional' and T(v['optional_type']) == ref(t[1])
        elif k == 'v': ok &= kind == 'ReflectedType_Variant' and (not t[1] or v['name'] == t[1]) and [T(c) for c in v['cases']] == [ref(c) for c in t[2]]
        else:
            s = structs[t[1]] if k == 's' else templates[t[1]]
            ok &= kind == 'ReflectedType_Struct' and v['native_name'] == t[1] + ('' if k == 's' else '_Z')
            ok &= (T(v['super_id']) if v.get('super_id') else None) == (ref(('s', s['super'])) if s['super'] else None)
            ok &= v.get('super_name') == s['super']
            ok &= (T(v['template_inner_id']) if v.get('template_inner_id') else None) == (ref(t[2]) if k == 't' else None)
            got = [(f['name'], T(f['type_id']), f.get('description')) for f in v['fields']]
            exp = [(f[0], ref(f[1] if k == 's' else subst(f[1], t[2])), f[2]) for f in s['fields']]
            ok &= got == exp
        if not ok: violation('schema:type', '%s is described as %s' % (cpp(t), json.dumps(d)))
    od = [T(x) for x in info['order']]
    comp = [x for x in types if x // 10**16 != 900]
    if sorted(od) != sorted(comp): violation('schema:order set', '%s' % cpp(root))
    pos = {x: i for i, x in enumerate(od)}
    if not cycles:
        for x in od:
            t = by_id[x]
            for c in children(t):
                if id_of[c] in pos and pos[id_of[c]] >= pos[x]: violation('schema:order', '%s comes before %s' % (cpp(t), cpp(c)))


for i, t in enumerate(roots):
    if i not in schemas: violation('schema:none', cpp(t))
    else: check_schema(schemas[i], t)
    count('schemas')

# ---- The joint schema in other languages.
full = [t for t in seen if t[0] in 'stv']


def tname(t):
    if t[0] == 's': return t[1]
    if t[0] == 't': return '%s_T%d' % (t[1], id_of[t[2]])
    return None


js = json.load(open(out + '/schema.json'))
objs = {o['object']: o for o in js}


def js_fields(t):
    s = structs[t[1]] if t[0] == 's' else templates[t[1]]
    return (js_fields(('s', s['super'])) if s['super'] else []) + [(f[0], f[2]) for f in s['fields']]


md = open(out + '/schema.md').read()
for t in full:
    if t[0] == 'v': continue
    o = objs.get(tname(t))
    if o is None: violation('schema:json', 'no %s' % cpp(t))
    elif [(f['field'], f.get('description')) for f in o['contains']] != js_fields(t): violation('schema:json', '%s: %s' % (cpp(t), json.dumps(o)))
    if '\n### `%s`' % tname(t) not in md: violation('schema:markdown', cpp(t))
    else:
        sec = md.split('\n### `%s`' % tname(t), 1)[1].split('\n###', 1)[0]
        rows = [l.split('`')[1] for l in sec.split('\n') if l.startswith('| `')]
        if rows != [f[0] for f in js_fields(t)]: violation('schema:markdown', '%s: %s' % (cpp(t), sec))
count('objects', len(objs))

if VIOLATIONS or cycles or TEMPLATES == 'any': sys.exit(0)
# ---- The code generated, with the types and the data of the original one.
def gen_name(t):
    return tname(t) if t[0] != 'v' else None


st2 = ['#include "types.h"', '#include "current.h"', '#include "schema_common.h"', '#include "all.h"'] + (['namespace cpp_native {', '#include "cpp.h"', '}'] if TEMPLATES == 'none' else [])
ns = []
for t in full:
    if t[0] in 'st': ns.append('  CURRENT_NAMESPACE_TYPE(%s, orig::type%d);' % (tname(t), seen.index(t)))
for n in enums: ns.append('  CURRENT_NAMESPACE_TYPE(%s, orig::%s);' % (n, n))
for n in variants: ns.append('  CURRENT_NAMESPACE_TYPE(%s, orig::%s);' % (n, n))
st2 += ['CURRENT_NAMESPACE(Original) {'] + ns + ['};']
st2 += ['int main() {', '  Stage2 s;']
ev = 0
for i, t in enumerate(roots):
    g = None
    if t[0] in 'st': g = 'Gen::' + tname(t)
    elif t[1]: g = 'Gen::' + t[1]
    if not g: continue
    st2.append('  s.template Root<orig::root%d, %s>(%d);' % (i, g, i))
    if evolvable(t):
        ev += 1
        st2.append('  s.template EvolveRoot<Gen, Original, %s, orig::root%d>(%d);' % (g, i, i))
st2 += ['  return s.Done();', '}']
open(out + '/stage2.cc', 'w').write('\n'.join(st2) + '\n')
count('evolved types', ev)
p = build('stage2', 'stage2')
if p.returncode:
    violation('schema:generated code does not compile', 'seed %d: %s' % (seed, '\n'.join([l for l in p.stderr.split('\n') if 'error' in l][:6])))
    sys.exit(0)
p = run(['./stage2'], 'stage2')
if p.returncode or 'DONE' not in p.stdout.split('\n'): violation('schema:crash', 'stage 2, seed %d: %d %s' % (seed, p.returncode, p.stderr[-2000:]))
for l in p.stdout.split('\n'):
    if l.startswith('VIOLATION '): violation(*l[10:].split('\t'))
    if l.startswith('EVAL ') or l.startswith('COUNT '): print(l)
