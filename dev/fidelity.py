"""Development aid (not a check): compare the abstract interpreter with CPython
on random concrete command lines, to catch errors in the engine itself."""
import sys, random, json, os
sys.path.insert(0, '/verif'); sys.path.insert(0, '/repo')
from absint.core import *
from absint.interp import Interp
import pash_annotations.parser.parser as rp
import pash_annotations.annotation_generation.AnnotationGeneration as ra
I = Interp('/repo')
pm = I.import_module('pash_annotations.parser.parser').env.vars
g = I.import_module('pash_annotations.annotation_generation.AnnotationGeneration').env.vars


def host(v):
    if isinstance(v, (list, tuple)):
        return [host(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(map(host, v), key=repr)
    if isinstance(v, dict):
        return {repr(host(k)): host(x) for k, x in v.items()}
    if v is None or isinstance(v, (str, int)):
        return v
    import enum
    if isinstance(v, enum.Enum):
        return type(v).__name__ + '.' + v.name
    if callable(v):
        return v.__name__
    return {'': type(v).__name__, **{k: host(x) for k, x in vars(v).items()}}


def absv(v):
    v = deref(v)
    if isinstance(v, PList):
        return [absv(x) for x in v.items]
    if isinstance(v, tuple):
        return [absv(x) for x in v]
    if isinstance(v, PSet):
        return sorted((absv(x) for x in v.d.values()), key=repr)
    if isinstance(v, PDict):
        return {repr(absv(k)): absv(x) for k, x in v.d.values()}
    if v is None or isinstance(v, (str, int)):
        return v
    if isinstance(v, Obj):
        if v.cls.is_enum:
            return v.cls.name + '.' + v.get('_name_')
        return {'': v.cls.name, **{k: absv(x) for k, x in v.attrs.d.values()}}
    if isinstance(v, (FuncV, BoundM)):
        return getattr(v, 'name', None) or v.func.name
    raise Exception(v)


def rand_cmd(rng):
    d = '/repo/pash_annotations/parser/command_flag_option_info/data'
    cmd = rng.choice(sorted(f[:-5] for f in os.listdir(d)) + ['foo'])
    words = [cmd]
    try:
        j = json.load(open('%s/%s.json' % (d, cmd)))
    except FileNotFoundError:
        j = {'flag': [], 'option': []}
    for _ in range(rng.randrange(4)):
        c = rng.randrange(4)
        if c == 0 and j['flag']:
            words.append(rng.choice(list(rng.choice(j['flag']))))
        elif c == 1 and j['option']:
            words += [rng.choice(rng.choice(j['option'])[:-1]), rng.choice(['x', '1', '-'])]
        elif c == 2 and j['flag']:
            words.append('-' + ''.join(rng.choice(rng.choice(j['flag']))[1:2] for _ in range(2)))
    for _ in range(rng.randrange(4)):
        words.append(rng.choice(['-', 'f', "'a b'", "''", 'x/y', 'cat', 'sort', '-n']))
    return ' '.join(words)


rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
n = bad = 0
for _ in range(int(sys.argv[2]) if len(sys.argv) > 2 else 1500):
    cmd = rand_cmd(rng)

    def run(real):
        out = []
        try:
            if real:
                inv = rp.parse(cmd); out.append(host(inv))
                io = ra.get_input_output_info_from_cmd_invocation(inv); out.append(host(io))
                out.append(host(ra.get_parallelizability_info_from_cmd_invocation(inv)))
                if io:
                    out.append(host(io.apply_input_output_info_to_command_invocation(inv)))
                return out
            inv = I.call(pm['parse'], [cmd]); out.append(absv(inv))
            io = I.call(g['get_input_output_info_from_cmd_invocation'], [inv]); out.append(absv(io))
            out.append(absv(I.call(g['get_parallelizability_info_from_cmd_invocation'], [inv])))
            if io:
                out.append(absv(I.call(I.getattr(io, 'apply_input_output_info_to_command_invocation'), [inv])))
            return out
        except PyExc as e:
            return out + [e.obj.cls.name]
        except (Infeasible, Incomplete, Diverges):
            raise
        except Exception as e:
            return out + [type(e).__name__]
    a = run(True)
    res = []
    ex = Explorer()
    ex.run(lambda: res.append(run(False)))
    n += 1
    if [a] != res:
        bad += 1
        print(cmd); print('  real', str(a)[:3000]); print('  abs ', str(res)[:3000])
        if bad > 3: break
print(n, 'compared', bad, 'differ')
