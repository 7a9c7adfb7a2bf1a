"""Loads the JSON written by the extraction driver."""
import json
import os


class Ty:
    __slots__ = ('s', 'k', 'bits', 'signed', 'elem', 'len', 'elems', 'path', 'crate', 'enum', 'targs', 'variants', 'callee', 'key', 'mut')

    def __repr__(self):
        return self.s


class Fn:
    __slots__ = ('d', 'crate', 'key', 'path', 'name', 'argc', 'blocks', 'locals', 'span', 'tys', 'preds')

    def __repr__(self):
        return self.key


class Program:
    def __init__(self):
        self.fns = {}
        self.raw = {}
        self.crates = {}
        self.consts = {}
        self.foreign = {}
        self.sizes = {}       # byte size of the fixed-size objects of the workspace crates

    def load(self, path):
        d = json.load(open(path))
        crate = d['crate']
        tys = []
        for t in d['types']:
            o = Ty()
            for a in Ty.__slots__:
                setattr(o, a, None)
            tys.append(o)
        for o, t in zip(tys, d['types']):
            o.s = t['s']
            o.k = t['k']
            o.bits = t.get('bits')
            o.signed = t.get('signed')
            o.len = t.get('len')
            o.path = t.get('path')
            o.crate = t.get('crate')
            o.enum = t.get('enum')
            o.key = t.get('key')
            o.mut = t.get('mut')
            if t.get('elem') is not None:
                o.elem = tys[t['elem']]
            if t.get('elems') is not None:
                o.elems = [tys[i] for i in t['elems']]
            if t.get('targs') is not None:
                o.targs = [tys[i] for i in t['targs']]
            if t.get('variants') is not None:
                o.variants = []
                for v in t['variants']:
                    o.variants.append((v['name'], v['discr'], [(f['name'], tys[f['ty']] if f['ty'] is not None else None) for f in v['fields']]))
            if t.get('callee') is not None:
                o.callee = t['callee']
        for o in tys:
            if o.k == 'adt' and not o.enum and o.variants and o.path and o.crate in (crate, None):
                fs = [t for _, t in o.variants[0][2]]
                arr = [t for t in fs if t is not None and t.k == 'array' and t.len and t.elem is not None and t.elem.s in ('u8', 'secret_integers::U8', 'U8')]
                rest = [t for t in fs if t not in arr and not (t is not None and t.k == 'int')]
                if len(arr) == 1 and not rest and None not in fs:
                    n = o.path if o.path.startswith(crate + '::') and o.crate != crate else crate + '::' + o.path
                    self.sizes[n] = arr[0].len
        self.crates[crate] = d
        for f in d['fns']:
            o = Fn()
            o.d = f
            o.crate = crate
            o.key = f['key']
            o.path = f['path']
            o.name = f['name']
            o.argc = f['argc']
            o.blocks = f['blocks']
            o.locals = [tys[l['ty']] for l in f['locals']]
            o.span = f['span']
            o.tys = tys
            # per-crate key spaces: library bodies may repeat
            self.fns.setdefault(o.key, o)
            self.fns[(crate, o.key)] = o
            if not f.get('ext') and f.get('raw') and not (f.get('generic') and f['raw'] in self.raw):
                self.raw.setdefault(f['raw'], o)
        for c in d['consts']:
            self.consts[crate + '::' + c['path']] = c
        self.foreign[crate] = d['foreign']

    def find(self, crate, pred):
        return [f for k, f in self.fns.items() if isinstance(k, tuple) and k[0] == crate and not f.d.get('ext') and pred(f)]


def load(dirpath, crates):
    p = Program()
    for c in crates:
        f = os.path.join(dirpath, c + '.json')
        if os.path.exists(f):
            p.load(f)
    return p
